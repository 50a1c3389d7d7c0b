"""Parallel process groups partition the ranks consistently."""
from types import SimpleNamespace
from unittest.mock import patch

from symx.api import *
from symx.spmd import Sim

import fairseq2.gang as gang_mod
import fairseq2.recipe.internal.gang as factory_mod
from fairseq2.device import CPU
from fairseq2.gang import FakeGang, Gang, Gangs, ProcessGroupGang, ReduceOperation, all_sum, broadcast_flag, create_fake_gangs, create_fsdp_gangs, create_parallel_gangs
from fairseq2.recipe.error import GangTopologyError, HSDPTopologyError
from fairseq2.recipe.internal.gang import _FSDPGangsFactory, _GangsFactory
from fairseq2.utils.validation import ValidationError

OUTSIDE = "pipeline parallelism (not implemented); the NCCL/Gloo back ends; world sizes above the listed ones"
ASSUMPTIONS = [
    "torch.distributed behaves as documented: new_group must be called by all processes in the same order; split_group gives every process the group of the list it is in; a broadcast source is a global rank",
]


# ---- a model of torch.distributed seen from one process --------------------------------------------


class PG:
    def __init__(self, ranks):
        self.ranks = list(ranks)


class Dist:
    """torch.distributed of process `me`"""

    def __init__(self, size, me, sim=None):
        self.me, self.world, self.sim = me, PG(range(size)), sim
        self.group = SimpleNamespace(WORLD=self.world)
        self.calls = []  # groups created, in order: must agree on all processes

    def is_available(self):
        return True

    def is_initialized(self):
        return False

    def set_debug_level_from_env(self):
        pass

    def init_process_group(self, backend, **kw):
        self.calls.append(("init", str(backend)))

    def get_backend(self):
        return "gloo"

    def destroy_process_group(self, pg):
        pass

    def new_group(self, ranks, backend=None):
        ranks = [int(r) for r in ranks]
        self.calls.append(("new", tuple(ranks)))
        if any(r not in self.world.ranks for r in ranks):
            raise ValueError("the new group's rank should be within the world_size")
        return PG(sorted(ranks))

    def split_group(self, parent_pg, split_ranks, group_desc=None, **kw):
        split = [[parent_pg.ranks[int(r)] for r in s] for s in split_ranks]
        self.calls.append(("split", tuple(map(tuple, split)), tuple(parent_pg.ranks)))
        for s in split:
            if self.me in s:
                return PG(s)
        return None

    def get_rank(self, pg=None):
        return (pg or self.world).ranks.index(self.me)

    def get_world_size(self, pg=None):
        return len((pg or self.world).ranks)

    def get_global_rank(self, pg, r):
        if not 0 <= r < len(pg.ranks):
            raise ValueError("not part of group")
        return pg.ranks[r]

    def get_process_group_ranks(self, pg):
        return list(pg.ranks)

    # collectives, through the simulator
    def _g(self, group):
        return self.sim.gang(self.me, (group or self.world).ranks)

    def _src(self, group, src, group_src):
        if group_src is not None:
            return group_src
        ranks = (group or self.world).ranks
        if src not in ranks:
            raise ValueError(f"Global rank {src} is not part of group")
        return ranks.index(src)

    def broadcast(self, tensor, src=None, group=None, async_op=False, group_src=None):
        self._g(group).broadcast(tensor, self._src(group, src, group_src))

    def broadcast_object_list(self, objects, src=None, group=None, device=None, group_src=None):
        self._g(group).broadcast_objects(objects, self._src(group, src, group_src))

    def all_reduce(self, tensor, op, group=None):
        self._g(group).all_reduce(tensor, op)

    def all_gather_into_tensor(self, o, i, group=None):
        self._g(group).all_gather(o, i)

    def all_gather(self, o, i, group=None):
        self._g(group).all_gather_to_list(o, i)

    def barrier(self, group=None, device_ids=None):
        self._g(group).barrier()


def members(g, me):
    """global ranks of a gang as seen by process `me`"""
    if isinstance(g, FakeGang):
        return [me]
    return list(g.as_process_group().ranks)


def build(size, me, fn, kind="cpu"):
    """fn(root gang) executed as process `me`; returns (result, sequence of group creations)"""
    d = Dist(size, me)
    with patch.object(gang_mod, "dist", d), patch.object(torch.distributed.distributed_c10d, "split_group", d.split_group):
        root = ProcessGroupGang(d.world, torch.device(kind))
        g = fn(root)
        view = {}
        if g is not None:
            for n in ("root", "dp", "rdp", "sdp", "tp", "pp"):
                x = getattr(g, n)
                view[n] = (members(x, me), x.rank, x.size)
    return view, d.calls


SIZES = {"quick": [1, 2, 4, 6, 8], "thorough": range(1, 17)}


@harness(
    "world sizes up to 8 (thorough 16); symbolic tensor-parallel size and two symbolic processes of the job; CPU (new_group) and CUDA (split_group) construction; plain, fully sharded and hybrid sharded with symbolic node size",
    ["own rank is a member", "configured sizes", "members agree", "documented layout", "groups disjoint and covering", "one common position", "same creation order", "invalid sizes rejected", "valid sizes accepted", "coordinator first"],
    params=lambda t: [{"W": W, "dev": d, "mode": m} for W in SIZES[t] for d in ("cpu", "cuda") for m in ("parallel", "fsdp", "hsdp")],
)
def mesh(ctx, W, dev, mode):
    tp = ctx.int("tp_size", -1, W + 1)
    node = ctx.int("node size", -1, W + 1) if mode == "hsdp" else None
    if mode == "hsdp" and dev == "cpu":
        ctx.assume(tp == 1)  # sub-groups can only be created from the root group; the recipe rejects it as well
    tpc = int(tp)
    ok = tpc >= 1 and W % tpc == 0
    if ok and mode == "hsdp":
        nc = int(node)
        ok = nc > 1 and (W // tpc) % nc == 0
    if ok:
        a, b = int(ctx.int("process a", 0, W - 1)), int(ctx.int("process b", 0, W - 1))
    else:  # rejected from the sizes alone
        a = b = 0

    def fn(root):
        g = create_parallel_gangs(root, tp_size=tpc)
        if mode == "fsdp":
            g = create_fsdp_gangs(g)
        elif mode == "hsdp":
            g = create_fsdp_gangs(g, nc if ok or tpc >= 1 and W % tpc == 0 else int(node))
        return g

    try:
        va, ca = build(W, a, fn, dev)
    except ValueError:
        ctx.check(not ok, "valid sizes accepted")
        return
    ctx.check(ok, "invalid sizes rejected")
    ctx.check(True, "valid sizes accepted")
    vb, cb = build(W, b, fn, dev)
    common = lambda calls: [c for c in calls if c[0] != "split" or a in c[2] and b in c[2]]  # a group is split by its members only
    ctx.check(common(ca) == common(cb), "same creation order", f"{ca} {cb}")
    dp = W // tpc
    n = nc if mode == "hsdp" else dp if mode == "fsdp" else 1
    sizes = {"root": W, "dp": dp, "tp": tpc, "pp": 1, "sdp": n, "rdp": dp // n}
    i, j = divmod(a, tpc)
    q, r = divmod(i, n)
    exp = {
        "root": list(range(W)),
        "dp": [x * tpc + j for x in range(dp)],
        "tp": [i * tpc + x for x in range(tpc)],
        "pp": [a],
        "sdp": [(q * n + x) * tpc + j for x in range(n)],
        "rdp": [(x * n + r) * tpc + j for x in range(dp // n)],
    }
    for k, (m, rank, size) in va.items():
        ctx.check(a in m and m.index(a) == rank, "own rank is a member", f"{k} {m} {a} {rank}")
        ctx.check(len(m) == size == sizes[k] and len(set(m)) == len(m), "configured sizes", f"{k} {m}")
        mb = vb[k][0]
        if b in m:
            ctx.check(m == mb, "members agree", f"{k} {m} {mb}")
        else:
            ctx.check(not set(m) & set(mb), "groups disjoint and covering", f"{k} {m} {mb}")
        ctx.check(m == exp[k], "documented layout", f"{k} {m} {exp[k]}")
        if a == 0:
            ctx.check(rank == 0, "coordinator first")
    if a != b:
        # the position (rank in dp, rank in tp) identifies a process; two processes share a tp and a dp group never both
        ctx.check((va["dp"][1], va["tp"][1]) != (vb["dp"][1], vb["tp"][1]), "one common position")
        ctx.check(not (b in va["dp"][0] and b in va["tp"][0]), "one common position")
        if n > 1 or mode != "parallel":
            ctx.check(not (b in va["sdp"][0] and b in va["rdp"][0]), "one common position")


@harness("sub-groups of up to 4 of 4 processes, in any listed order; symbolic source rank and values; every collective of ProcessGroupGang and the helpers on it", ["broadcast from the gang's rank", "objects broadcast", "sum", "gather", "flag", "out-of-range source rejected"], tensor=True,
         params=lambda t: [{"ranks": r} for r in ([[0, 1, 2, 3], [2, 3], [1, 3], [0, 2, 3]] if t == "quick" else [[0, 1, 2, 3], [2, 3], [1, 3], [0, 2, 3], [1, 2], [1, 2, 3], [0, 3]])])
def process_group(ctx, ranks):
    n = len(ranks)
    src = int(ctx.int("source", 0, n - 1))
    vals = [ctx.real(f"v{r}") for r in range(4)]
    flags = [ctx.bool(f"f{r}") for r in range(4)]
    sim = Sim(4, tensor=True)
    dists = [Dist(4, r, sim) for r in range(4)]

    class Current:
        """the torch.distributed of whichever process runs"""

        def __getattr__(self, name):
            import threading

            return getattr(dists[where[threading.get_ident()]], name)

    where = {}
    out = {}

    def run(me):
        import threading

        where[threading.get_ident()] = me
        g = ProcessGroupGang(dists[me].world, CPU).create_gang(list(ranks))
        if me not in ranks:
            ctx.check(g is None, "out-of-range source rejected")
            return
        t = torch.tensor([vals[me]])
        g.broadcast(t, src)
        o = [("obj", me), me]
        g.broadcast_objects(o, src)
        s = all_sum(g, vals[me])
        gat = torch.zeros(n, 1)
        g.all_gather(gat, torch.tensor([vals[me]]))
        lst = [torch.zeros(1) for _ in range(n)]
        g.all_gather_to_list(lst, torch.tensor([vals[me]]))
        m = torch.tensor([vals[me]])
        g.all_reduce(m, ReduceOperation.MAX)
        fl = broadcast_flag(g, flags[me], src)
        g.barrier()
        try:
            g.broadcast(torch.zeros(1), n)
            bad = False
        except ValueError:
            bad = True
        out[me] = (t, o, s, gat, lst, m, fl, bad)

    group0 = dists[0].group
    world = dists[0].world
    for d in dists:  # one shared WORLD object
        d.group, d.world = group0, world
    with patch.object(gang_mod, "dist", Current()), patch.object(gang_mod, "ReduceOp", SimpleNamespace(SUM=ReduceOperation.SUM, AVG=ReduceOperation.MEAN, PRODUCT=ReduceOperation.PRODUCT, MIN=ReduceOperation.MIN, MAX=ReduceOperation.MAX)):
        sim.run(run)
    tot = sum(vals[r] for r in ranks)
    mx = vals[ranks[0]]
    for r in ranks[1:]:
        mx = smax(mx, vals[r])
    for me in ranks:
        t, o, s, gat, lst, m, fl, bad = out[me]
        S = ranks[src]
        ctx.eq(t.reshape(-1)[0].item(), vals[S], "broadcast from the gang's rank")
        ctx.check(o == [("obj", S), S], "objects broadcast")
        ctx.eq(s.reshape(-1)[0].item(), tot, "sum")
        ctx.eq(m[0].item(), mx, "sum")
        for k, r in enumerate(ranks):
            ctx.eq(gat[k, 0].item(), vals[r], "gather")
            ctx.eq(lst[k][0].item(), vals[r], "gather")
        ctx.check(iff(fl, flags[S]), "flag")
        ctx.check(bad, "out-of-range source rejected")


@harness("gang size and up to 3 ranks symbolic; fake gangs with symbolic rank, size and values; coordinator positions", ["invalid ranks rejected", "valid ranks accepted", "child gang", "fake collectives", "coordinator checked", "root only"], tensor=True, params=lambda t: [{"kind": k, "size": s} for k in ("fake", "pg") for s in (1, 2, 3)] + [{"kind": "coordinator", "size": 0}])
def children(ctx, kind, size):
    if kind == "coordinator":
        f = lambda n, r: FakeGang(CPU, rank=r, size=n)
        rk = {k: int(ctx.int(k, 0, 1)) for k in ("root", "dp", "tp", "pp")}
        ok = rk["root"] != 0 or rk["dp"] == rk["tp"] == rk["pp"] == 0
        try:
            Gangs(root=f(8, rk["root"]), dp=f(2, rk["dp"]), rdp=f(2, rk["dp"]), sdp=f(1, 0), tp=f(2, rk["tp"]), pp=f(2, rk["pp"]))
        except ValueError:
            ctx.check(not ok, "coordinator checked")
            return
        ctx.check(ok, "coordinator checked")
        return
    me = int(ctx.int("rank", 0, size - 1))
    n = int(ctx.int("n", 1, 3 if size > 2 else 2))
    ranks = [ctx.int(f"r{i}", -1 if n < 3 else 0, size) for i in range(n)]
    ok = and_(*[and_(r >= 0, r < size) for r in ranks], *[ranks[i] != ranks[j] for i in range(n) for j in range(i)])
    rc = [int(r) for r in ranks]
    d = Dist(size, me)
    with patch.object(gang_mod, "dist", d):
        g = FakeGang(CPU, rank=me, size=size) if kind == "fake" else ProcessGroupGang(d.world, CPU)
        try:
            c = g.create_gang(rc)
        except ValueError:
            ctx.check(not_(ok), "valid ranks accepted")
            ctx.check(not d.calls, "invalid ranks rejected", "a group was requested although the ranks are invalid")
            return
        ctx.check(ok, "invalid ranks rejected")
        ctx.check(True, "valid ranks accepted")
        if me not in rc:
            ctx.check(c is None, "child gang")
            return
        ctx.check(c.size == n and c.device == g.device, "child gang")
        if kind == "fake":
            ctx.check(c.rank == rc.index(me), "child gang")
            v = ctx.real("v")
            t = torch.tensor([v])
            c.all_reduce(t, ReduceOperation.SUM)
            ctx.eq(t[0].item(), v * n, "fake collectives")
            t = torch.tensor([v])
            c.all_reduce(t, ReduceOperation.PRODUCT)
            ctx.eq(t[0].item(), v**n, "fake collectives")
            o = torch.zeros(n, 1)
            c.all_gather(o, torch.tensor([v]))
            l = [torch.zeros(1) for _ in range(n)]
            c.all_gather_to_list(l, torch.tensor([v]))
            for k in range(n):
                ctx.eq(o[k, 0].item(), v, "fake collectives")
                ctx.eq(l[k][0].item(), v, "fake collectives")
        else:
            ctx.check(c.as_process_group().ranks == sorted(rc), "child gang")
            if n < size:
                from fairseq2.error import InvalidOperationError

                ctx.raises(InvalidOperationError, lambda: c.create_gang([0]), "root only")
            else:
                ctx.check(True, "root only")


@harness("world sizes up to 8, symbolic local world and tensor-parallel sizes, sharding mode", ["topology rejected", "topology accepted", "sizes as configured", "single process"], params=lambda t: [{"W": w} for w in ([1, 2, 4, 6, 8] if t == "quick" else range(1, 13))])
def factory(ctx, W):
    tp = int(ctx.int("tensor_parallel_size", 1, W + 1))
    local = int(ctx.int("local world size", 1, W))
    me = int(ctx.int("rank", 0, W - 1))
    mode = ctx.choice("mode", ["ddp", "fsdp", "hybrid"])
    d = Dist(W, me)
    with patch.object(gang_mod, "dist", d), patch.object(factory_mod, "dist", d):
        sec = SimpleNamespace(timeout=10, high_priority=True, tensor_parallel_size=tp)
        tsec = SimpleNamespace(data_parallelism="ddp" if mode == "ddp" else "fsdp", fsdp=SimpleNamespace(hybrid=mode == "hybrid"))
        wi = SimpleNamespace(size=W, rank=me, local_size=local)
        ok = W % tp == 0
        try:
            g = _GangsFactory(sec, wi, CPU).create()
        except GangTopologyError:
            ctx.check(not ok, "topology rejected")
            return
        ctx.check(ok, "topology rejected")
        ctx.check(True, "topology accepted")
        ctx.check((d.calls[:1] == [("init", "gloo")]) == (W > 1), "single process")
        ok = mode != "hybrid" or tp == 1 and (local == 1 or W % local == 0)
        try:
            g = _FSDPGangsFactory(tsec, wi).create(g)
        except (HSDPTopologyError, ValidationError):
            ctx.check(not ok, "topology rejected")
            return
        ctx.check(ok, "topology rejected")
        dp = W // tp
        # with one process per node hybrid sharding is documented (warned) to be off
        n = {"ddp": 1, "fsdp": dp, "hybrid": local}[mode]
        exp = (W, dp, tp, n, dp // n)
        got = (g.root.size, g.dp.size, g.tp.size, g.sdp.size, g.rdp.size)
        ctx.check(got == exp, "sizes as configured", f"{got} {exp}")
