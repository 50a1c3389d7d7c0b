"""Saved state is restored exactly, per rank, kind and step."""
from props._ckpt import *
from symx.api import *

OUTSIDE = "serialization inside torch.save/torch.load; pipeline parallelism; more than 4 ranks; more than two saves"
ASSUMPTIONS = ["the members of a replica group hold the same model and optimizer state, and tensor-parallel ranks the same data reader state (as the layout demands)"]

LAYOUTS = {  # ranks, tensor parallel size, shards
    "1": (1, 1, 1),
    "dp2": (2, 1, 1),
    "fsdp2": (2, 1, 2),
    "tp2": (2, 2, 1),
    "dp2 tp2": (4, 2, 1),
    "fsdp2 tp2": (4, 2, 2),
    "hsdp 2x2": (4, 1, 2),
}


def owner(layout, kind, rank):
    """which rank's value is stored for this rank"""
    n, tp, sdp = LAYOUTS[layout]
    d, t = divmod(rank, tp)
    if kind == "trainer":
        return rank
    if kind == "data_reader":
        return d * tp
    return (d % sdp) * tp + t


def state(ctx, cache, layout, kind, rank, step, gen=0):
    k = (kind, owner(layout, kind, rank), step, gen)
    if k not in cache:
        v = ctx.real("%s.%d@%d.%d" % k, -1000, 1000)
        if kind == "model":
            if ctx.sym:
                cache[k] = {"w": T.SymTensor(T.obj((1,)), torch.float32)}
                cache[k]["w"]._a[0] = v
            else:
                cache[k] = {"w": torch.tensor([v])}
        else:
            cache[k] = {"a": v, "b": [k[1], {"c": v}]}
    return cache[k]


def configs(t):
    full = grid(layout=list(LAYOUTS), steps=[(4, 7)], mode=["blocking", "async", "poll"], second=["full"])
    full += grid(layout=["1", "fsdp2 tp2"], steps=[(7, 4), (4, 4), (9, 10)], mode=["async", "blocking"], second=["full", "model"])
    if t == "thorough":
        full += grid(layout=list(LAYOUTS), steps=[(7, 4), (4, 4), (9, 10), (1, 11)], mode=["blocking", "async", "poll"], second=["full", "model"])
    return full


@harness(
    "1, 2 and 4 ranks (replicated, sharded, tensor parallel and combinations); two saves (blocking, asynchronous, polled with arbitrary completion order across ranks) at listed step pairs incl. the same step twice; arbitrary state contents; the live state changes right after an asynchronous save returns",
    ["restored", "other steps untouched", "kinds", "live state untouched"],
    params=configs,
    tensor=True,
)
def roundtrip(ctx, layout, steps, mode, second):
    n, tp, sdp = LAYOUTS[layout]
    fs = MemFS()
    cache = {}
    sim = spmd.Sim(n, tensor=True)
    polls = {}

    def when_for(r):
        if mode != "poll":
            return lambda: False  # only forced by waiting

        def when():
            polls[r] = polls.get(r, 0) + 1
            return polls[r] >= 3 or ctx.flag(f"done{r}.{polls[r]}")

        return when

    def job(r):
        m = manager(fs, spmd.gangs(sim, r, tp, sdp), "now" if mode == "blocking" else when_for(r))
        for i, s in enumerate(steps):
            live, objs = {}, {}
            for k in KINDS:
                live[k] = deepcopy(state(ctx, cache, layout, k, r, s, i))
                objs[k] = St(**live[k])
                objs[k].s = live[k]
            called = []
            kw = dict(blocking=mode == "blocking", saved_callback=lambda step, b, called=called: called.append(step))
            if i == 0 or second == "full":
                m.save_checkpoint(s, objs["trainer"], objs["model"], objs["optimizer"], objs["data_reader"], **kw)
            else:
                m.save_model_only(s, objs["model"], **kw)
            if mode != "blocking":
                # training goes on while the save is in flight
                for k in KINDS:
                    if k == "model":
                        live[k]["w"].fill_(-5000.0)
                    else:
                        live[k]["a"] = -5000.0
                        live[k]["b"][1]["c"] = -5000.0
            else:
                for k in KINDS:
                    same(ctx, live[k], state(ctx, cache, layout, k, r, s, i), "live state untouched")
            if mode == "poll":
                while m.maybe_complete_save_operation() is False:
                    if m.get_step_numbers().count(s) and not (i == 1 and steps[0] == s):
                        ctx.fail("restored", "visible before it is complete")
            elif mode == "async" and i == 1:
                m.maybe_complete_save_operation(blocking=True)
            if mode != "async" or i == 1:
                ctx.check(called == [s] and not m.is_saving, "kinds", "saved callback")

    sim.run(job)
    sim = spmd.Sim(n, tensor=True)

    def restart(r):
        m = manager(fs, spmd.gangs(sim, r, tp, sdp))
        ctx.check(m.get_step_numbers() == sorted(set(steps)), "restored")
        want_full = sorted({steps[0]} - ({steps[1]} if second != "full" else set()) | ({steps[1]} if second == "full" else set()))
        ctx.check(m.get_step_numbers(exclude_model_only=True) == want_full, "kinds")
        for i, s in enumerate(steps):
            if i == 0 and steps[1] == s:
                continue
            for k in KINDS:
                if i == 1 and second == "model" and k != "model":
                    ctx.raises(mgr.CheckpointNotFoundError, lambda: load(m, s, k), "kinds")
                    continue
                same(ctx, load(m, s, k), state(ctx, cache, layout, k, r, s, i), "restored" if i else "other steps untouched")
        for k in KINDS:
            ctx.raises(mgr.CheckpointNotFoundError, lambda: load(m, 99, k), "kinds")

    sim.run(restart)
    ctx.check(True, "live state untouched")
    ctx.check(True, "other steps untouched")


def same(ctx, got, want, label):
    if "w" in want:
        ctx.check(set(got) == {"w"}, label)
        ctx.teq(got["w"], want["w"], label)
    else:
        ctx.check(set(got) == {"a", "b"}, label)
        ctx.eq(got["a"], want["a"], label)
        ctx.eq(got["b"][1]["c"], want["b"][1]["c"], label)
        ctx.check(got["b"][0] == want["b"][0], label)
