"""Launch environments are interpreted consistently or rejected."""
import fairseq2.device as device_mod
import fairseq2.utils.env as env_mod
from symx.api import *

from fairseq2.cluster import ClusterHandler, ClusterNotKnownError, StandardClusterResolver
from fairseq2.device import CPU, LocalRankOutOfRangeError, _DefaultDeviceDetector
from fairseq2.utils.env import EnvironmentVariableError
from fairseq2.world_info import WorldInfo

OUTSIDE = "what SLURM itself reports (read by a third-party package); which host and port torch.distributed then uses"
ASSUMPTIONS = ["an environment variable that Python's int() accepts stands for that integer, whatever its spelling"]


class Text(str):
    """the decimal text of an arbitrary integer"""

    def __new__(cls, v):
        self = super().__new__(cls, v if isinstance(v, int) and type(v) is int else "0")
        self.v = v
        return self


class _Int(type):
    def __instancecheck__(cls, x):
        return isinstance(x, int)

    def __call__(cls, *a):
        return a[0].v if len(a) == 1 and isinstance(a[0], Text) else int(*a)


class _int(metaclass=_Int):
    pass


env_mod.int = _int


class Env:
    def __init__(self, values):
        self.values = values

    def maybe_get(self, name, default=None):
        return self.values.get(name, default)

    def get(self, name):
        return self.values[name]

    def has(self, name):
        return name in self.values


MALFORMED = ["", "x", "1.0", "0x1", "one", "1,2", "None"]


def variable(ctx, env, name, simple=False):
    """missing, malformed (None, True) or an arbitrary integer"""
    kind = ctx.choice(name + "?", ["missing", "number", "malformed"])
    if kind == "missing":
        return None, False
    if kind == "malformed":
        env[name] = ctx.choice(name + ".text", MALFORMED[:1] if simple else MALFORMED)
        return None, True
    v = ctx.int(name)
    env[name] = Text(v)
    return v, False


@harness(
    bounds="each of the four variables missing, malformed (7 spellings) or any integer whatsoever",
    labels=["accepted", "rejected", "names the variable", "world"],
    params=lambda tier: [dict(simple=s) for s in (True, False)],
    eager=True,
)
def world(ctx, simple):
    env = {"OTHER": "1"}
    parts = []
    for rank, size in (("RANK", "WORLD_SIZE"), ("LOCAL_RANK", "LOCAL_WORLD_SIZE")):
        (r, badr), (n, badn) = variable(ctx, env, rank, simple), variable(ctx, env, size, simple or rank == "LOCAL_RANK")
        parts.append((rank, size, r, badr, n, badn))
    bad = False
    names = set()
    for rank, size, r, badr, n, badn in parts:
        if badr or badn:
            bad = True
        elif (r is None) != (n is None):
            bad = True
        elif r is not None:
            bad = or_(bad, r < 0, n < 1, r >= n)
        names |= {rank, size}
    try:
        w = WorldInfo.from_env(Env(env))
    except EnvironmentVariableError as ex:
        ctx.check(bad, "rejected", f"{env}: {ex}")
        ctx.check(ex.var_name in names, "names the variable", ex.var_name)
        return
    ctx.check(not_(bad), "accepted", f"{env} as {w}")
    for (_, _, r, _, n, _), got_r, got_n in zip(parts, (w.rank, w.local_rank), (w.size, w.local_size)):
        ctx.eq(got_r, 0 if r is None else r, "world", "rank")
        ctx.eq(got_n, 1 if n is None else n, "world", "size")
        ctx.check(and_(got_r >= 0, got_r < got_n), "world", "0 <= rank < size")


class Handler(ClusterHandler):
    def __init__(self, name, here):
        self.name, self.here, self.asked = name, here, 0

    def set_torch_distributed_env_variables(self):
        pass

    def supports_current_cluster(self):
        self.asked += 1
        return self.here

    @property
    def cluster(self):
        return self.name


@harness(
    bounds="up to 2 cluster handlers that recognise their cluster or not, every requested name, RANK and WORLD_SIZE present or not",
    labels=["cluster", "unknown cluster"],
    params=lambda tier: [{}],
)
def cluster(ctx):
    handlers = [Handler(n, ctx.flag(n)) for n in ("slurm", "other")[: ctx.choice("n", [0, 1, 2])]]
    env = {k: "1" for k in ("RANK", "WORLD_SIZE", "LOCAL_RANK") if ctx.flag(k)}
    name = ctx.choice("name", ["auto", "none", "slurm", "other", "x"])
    resolver = StandardClusterResolver(Env(env), handlers)
    known = [h.cluster for h in handlers]
    if name not in ("auto", "none", *known):
        ctx.raises(ClusterNotKnownError, lambda: resolver.resolve(name), "unknown cluster")
        return
    got = resolver.resolve(name)
    if name == "auto":
        torchrun = "RANK" in env and "WORLD_SIZE" in env
        want = "none" if torchrun else next((h.cluster for h in handlers if h.here), "none")
    else:
        want = name
    ctx.check(got.cluster == want, "cluster", f"{got.cluster} instead of {want}")
    if want in known:
        ctx.check(got is handlers[known.index(want)], "cluster")
    before = dict(env)
    if want == "none":
        got.set_torch_distributed_env_variables()
        ctx.check(env == before, "cluster")


class Cuda:
    def __init__(self, available, count):
        self.available, self.count = available, count

    def is_available(self):
        return self.available

    def device_count(self):
        return self.count


@harness(
    bounds="any local rank up to 8 (or missing, negative, malformed), any number of devices up to 8, FAIRSEQ2_DEVICE and CUDA_VISIBLE_DEVICES given in several spellings or not",
    labels=["device", "out of range", "rejected"],
    params=lambda tier: [{}],
    eager=True,
)
def device(ctx):
    env = {}
    have = ctx.flag("cuda")
    n = ctx.choice("devices", [0, 1, 2, 8])
    kind = ctx.choice("local rank?", ["missing", "number", "malformed"])
    r = None
    if kind == "number":
        r = ctx.choice("local rank", [-1, 0, 1, 2, 7, 8])
        env["LOCAL_RANK"] = str(r)
    elif kind == "malformed":
        env["LOCAL_RANK"] = "x"
    visible = ctx.choice("visible", [None, "0", "3", "0,1", "GPU-abc", ""])
    if visible is not None:
        env["CUDA_VISIBLE_DEVICES"] = visible
    own = ctx.choice("own", [None, "cpu", "meta", "cuda:1", "tpu?", ""])
    if own is not None:
        env["FAIRSEQ2_DEVICE"] = own
    detect = _DefaultDeviceDetector(Env(env), Cuda(have, n)).detect
    if own in ("tpu?", ""):
        ctx.raises(EnvironmentVariableError, detect, "rejected", own)
    elif own is not None:
        ctx.check(detect() == torch.device(own), "device", own)
    elif not have or n == 0:
        ctx.check(detect() == CPU, "device")
    elif visible in ("0", "3"):
        ctx.check(detect() == torch.device("cuda", 0), "device", visible)
    elif kind == "malformed" or r is not None and r < 0:
        ctx.raises(EnvironmentVariableError, detect, "rejected", f"local rank {env.get('LOCAL_RANK')}")
    elif r is not None and r >= n:
        ctx.raises(LocalRankOutOfRangeError, detect, "out of range", f"{r} of {n}")
    else:
        ctx.check(detect() == torch.device("cuda", r or 0), "device", f"{r} of {n}")
