"""Sharded model checkpoints reload under another layout without loss."""
import numpy as np

from props._ckpt import *
from symx.api import *

from fairseq2.device import CPU
from fairseq2.gang import FakeGang, Gangs
from fairseq2.model_checkpoint.basic import _BasicModelCheckpointLoader
from fairseq2.model_checkpoint.common import reshard_tensor
from fairseq2.model_checkpoint.delegating import _DelegatingModelCheckpointLoader
from fairseq2.model_checkpoint.loader import CorruptModelCheckpointError, ModelCheckpointLoadOptions
from fairseq2.model_checkpoint.native import _NativeModelCheckpointLoader
from fairseq2.model_checkpoint.safetensors import _SafetensorsCheckpointLoader
from fairseq2.models.llama.checkpoint import _LLaMACheckpointLoader
from fairseq2.models.utils.checkpoint import set_model_state
from fairseq2.nn import ColumnShardedLinear, Linear, RowShardedLinear, ShardedEmbedding, StandardEmbedding, VocabShardedEmbedding
from fairseq2.nn.sharded import get_shard_dims
from fairseq2.utils.progress import NOOP_PROGRESS_REPORTER

OUTSIDE = "pipeline-parallel resharding; tensor sizes above 8; torch.load/safetensors deserialization; dimensions that the target tensor-parallel size does not divide (rejected when the model is built)"
ASSUMPTIONS = ["data-parallel shards split dimension 0 like torch.chunk; a parameter absent from later shards has fewer chunks than shards"]


def stub_gangs(tp, tp_rank, sdp=1, sdp_rank=0):
    f = lambda n, r: FakeGang(CPU, rank=r, size=n)
    return Gangs(root=f(tp * sdp, sdp_rank * tp + tp_rank), dp=f(sdp, sdp_rank), rdp=f(1, 0), sdp=f(sdp, sdp_rank), tp=f(tp, tp_rank), pp=f(1, 0))


class GC:
    def __init__(self, g=None):
        self.g = g

    def get_current_gangs(self):
        if self.g is None:
            raise AssertionError("ambient gangs used although gangs were given")
        return self.g


def chunks(t, n):
    k = -(-t.shape[0] // n)
    out = [t[i * k : (i + 1) * k] for i in range(n)]
    return [c for c in out if c.shape[0]]


def shard(t, dim, n, r):
    if dim is None:
        return t
    k = t.shape[dim] // n
    return t[r * k : (r + 1) * k] if dim == 0 else t[:, r * k : (r + 1) * k]


# name -> (shape, tensor parallel dimension)
PARAMS = {
    "col.weight": ((8, 2), 0),
    "col.bias": ((8,), 0),
    "row.weight": ((2, 4), 1),
    "norm": ((3,), None),
    "scale": ((1,), None),
    "square": ((4, 4), 1),
}
DIMS = {k: d for k, (_, d) in PARAMS.items() if d is not None}


def full(ctx):
    return {k: ctx.tensor(k, s) for k, (s, _) in PARAMS.items()}


def write_native(fs, path, params, tp, dp):
    for t in range(tp):
        d = path / "pp_00" / f"tp_{t:02d}"
        fs.make_directory(d)
        files = [{} for _ in range(dp)]
        for k, v in params.items():
            for f, c in zip(files, chunks(shard(v, PARAMS[k][1], tp, t), dp)):
                f[k] = c
        for i, f in enumerate(files):
            fs.put(d / f"sdp_{i:02d}.pt", f)


def write_llama(fs, path, params, tp, dp):
    fs.make_directory(path)
    for t in range(tp):
        fs.put(path / f"consolidated.{t:02d}.pth", {k: shard(v, PARAMS[k][1], tp, t) for k, v in params.items()})


def write_basic(fs, path, params, tp, dp):
    fs.make_directory(path.parent)
    fs.put(path, dict(params))


def write_safetensors(fs, path, params, tp, dp):
    fs.make_directory(path)
    items = list(params.items())
    for i in range(dp):
        fs.put(path / f"model-{i}-of-{dp}.safetensors", dict(items[i::dp]))


FORMATS = {
    "native": (write_native, _NativeModelCheckpointLoader, "/c"),
    "llama": (write_llama, _LLaMACheckpointLoader, "/c"),
    "basic": (write_basic, _BasicModelCheckpointLoader, "/c/m.pt"),
    "safetensors": (write_safetensors, _SafetensorsCheckpointLoader, "/c"),
}


class L(Loader):
    def load(self, file, options=None):
        return dict(super().load(file, options))


def loader(fs, fmt, gc):
    loaders = [k(fs, L(fs), gc) for _, k, _ in FORMATS.values()]
    return _DelegatingModelCheckpointLoader(loaders, fs)


def layouts(t):
    out = []
    for s in (1, 2, 4):
        for d in (1, 2, 3):
            for n in (1, 2, 4):
                out.append(dict(fmt="native", src=s, dp=d, tp=n))
    for s in (1, 2, 4):
        for n in (1, 2, 4):
            out.append(dict(fmt="llama", src=s, dp=1, tp=n))
    for n in (1, 2, 4):
        out.append(dict(fmt="basic", src=1, dp=1, tp=n))
        out.append(dict(fmt="safetensors", src=1, dp=2, tp=n))
    return out


@harness(
    "native, LLaMA, single-file and safetensors checkpoints; source tensor-parallel size 1, 2, 4, 1..3 data-parallel shards (uneven, some shards empty), target size 1, 2, 4, every target rank, target data-parallel shards 1 or 2; parameters sharded along dimension 0, 1 or replicated; arbitrary values; gangs given or ambient",
    ["every parameter exactly once", "slice"],
    params=layouts,
    tensor=True,
)
def reload(ctx, fmt, src, dp, tp):
    fs = MemFS()
    params = full(ctx)
    write, kls, p = FORMATS[fmt]
    write(fs, Path(p), params, src, dp)
    r = ctx.choice("rank", range(tp))
    sdp = ctx.choice("sdp", [1, 2])
    g = stub_gangs(tp, r, sdp, sdp - 1)
    explicit = ctx.flag("explicit")
    ld = loader(fs, fmt, GC(None if explicit else g))
    ctx.check(ld.supports_path(Path(p)) and not ld.supports_path(Path("/nope")), "every parameter exactly once")
    opts = ModelCheckpointLoadOptions(gangs=g) if explicit else None
    got = list(ld.lazy_load(Path(p), DIMS, opts))
    ctx.check(sorted(k for k, _ in got) == sorted(PARAMS), "every parameter exactly once", f"{[k for k, _ in got]}")
    for k, v in got:
        ctx.teq(v, shard(params[k], PARAMS[k][1], tp, r), "slice", k)


@harness(
    "resharding with a symbolic target rank: source sizes 1..4, target sizes 1, 2, 3, 4, 6, 12 dividing a 12-element dimension, both dimensions, 1..3 uneven data-parallel splits",
    ["slice", "all ranks together"],
    params=lambda t: [dict(src=s, tp=n, dim=d, dp=p) for s in (1, 2, 3, 4) for n in (1, 2, 3, 4, 6, 12) for d in (0, 1) for p in ((1, 2) if t == "quick" else (1, 2, 3, 4))],
    tensor=True,
)
def reshard(ctx, src, tp, dim, dp):
    shape = (12, 2) if dim == 0 else (3, 12)
    t = ctx.tensor("t", shape)
    splits = [chunks(shard(t, dim, src, i), dp) for i in range(src)]
    n_dp = len(splits[0])
    out = []
    for r in range(tp):
        got = reshard_tensor("w", [list(s) for s in splits], (src, n_dp), (tp, 1), (r, 0), {"w": dim})
        ctx.teq(got, shard(t, dim, tp, r), "slice", f"rank {r}")
        out.append(got)
    ctx.teq(torch.cat(out, dim=dim), t, "all ranks together")


@harness(
    "a model with column-/row-sharded projections (with and without bias), vocabulary- and dimension-sharded embeddings and a replicated layer: saved under tensor-parallel size 1, 2, 4, loaded under 1, 2, 4; shard dimensions as the model reports them",
    ["model", "gathered"],
    params=lambda t: grid(src=[1, 2, 4], tp=[1, 2, 4], dp=[1, 3] if t == "thorough" else [2]),
    tensor=True,
)
def model(ctx, src, tp, dp):
    def build(g, vals=None):
        m = torch.nn.Module()
        bases = {
            "a": Linear(2, 4, bias=True),
            "b": Linear(4, 2, bias=True),
            "c": Linear(2, 4, bias=False),
            "e": StandardEmbedding(4, 2),
            "f": StandardEmbedding(2, 4),
            "n": Linear(2, 2, bias=True),
        }
        if vals is not None:
            with torch.no_grad():
                for k, mod in bases.items():
                    for n, p in mod.named_parameters():
                        p.copy_(vals[f"{k}.{n}"])
        if g.tp.size > 1:
            bases["a"] = ColumnShardedLinear.from_linear(bases["a"], g.tp)
            bases["b"] = RowShardedLinear.from_linear(bases["b"], g.tp)
            bases["c"] = ColumnShardedLinear.from_linear(bases["c"], g.tp, gather_output=False)
            bases["e"] = VocabShardedEmbedding.from_embedding(bases["e"], g.tp)
            bases["f"] = ShardedEmbedding.from_embedding(bases["f"], g.tp)
        for k, mod in bases.items():
            m.register_module(k, mod)
        return m

    shapes = {"a.weight": (4, 2), "a.bias": (4,), "b.weight": (2, 4), "b.bias": (2,), "c.weight": (4, 2), "e.weight": (4, 2), "f.weight": (2, 4), "n.weight": (2, 2), "n.bias": (2,)}
    dims = {"a.weight": 0, "a.bias": 0, "b.weight": 1, "c.weight": 0, "e.weight": 0, "f.weight": 1}
    vals = {k: ctx.tensor(k, s) for k, s in shapes.items()}
    fs = MemFS()
    for t in range(src):
        m = build(stub_gangs(src, t), vals)
        d = Path("/c/pp_00") / f"tp_{t:02d}"
        fs.make_directory(d)
        files = [{} for _ in range(dp)]
        for k, v in m.state_dict().items():
            ctx.teq(v, shard(vals[k], dims.get(k), src, t), "model", f"{k} of source rank {t}")
            for f, c in zip(files, chunks(v, dp)):
                f[k] = c
        for i, f in enumerate(files):
            fs.put(d / f"sdp_{i:02d}.pt", f)
    for r in range(tp):
        g = stub_gangs(tp, r)
        m = build(g)
        sd = get_shard_dims(m)
        ctx.check(sd == ({} if tp == 1 else dims), "model", f"{sd}")
        # the unsharded model does not know how the source was sharded
        ld = _NativeModelCheckpointLoader(fs, L(fs), GC())
        got = ld.lazy_load(Path("/c"), dims, ModelCheckpointLoadOptions(gangs=g))
        set_model_state(m, got, NOOP_PROGRESS_REPORTER)
        for k, v in m.state_dict().items():
            ctx.teq(v, shard(vals[k], dims.get(k), tp, r), "gathered", f"{k} rank {r}")
        if sd and tp != src:
            set_model_state(m, ld.lazy_load(Path("/c"), sd, ModelCheckpointLoadOptions(gangs=g)), NOOP_PROGRESS_REPORTER)
            for k, v in m.state_dict().items():
                ctx.teq(v, shard(vals[k], dims.get(k), tp, r), "model", f"{k} rank {r}")


@harness(
    "corrupt checkpoints: a missing shard file, a partially written file, a non-tensor value, the same key in two safetensors files, nothing at all",
    ["rejected"],
    tensor=True,
)
def corrupt(ctx):
    fs = MemFS()
    params = full(ctx)
    what = ctx.choice("what", ["missing shard", "missing tp", "partial", "not a tensor", "duplicate key", "empty dir", "tie"])
    p = Path("/c")
    write_native(fs, p, params, 2, 2)
    g = stub_gangs(1, 0)
    if what == "missing shard":
        fs.remove(p / "pp_00" / "tp_01" / "sdp_01.pt")
    elif what == "missing tp":
        fs.put(p / "pp_00" / "tp_01" / "sdp_00.pt", {"norm": torch.zeros(1)})
        fs.remove(p / "pp_00" / "tp_00" / "sdp_01.pt")
    elif what == "partial":
        fs.nodes["/c/pp_00/tp_01/sdp_01.pt"] = Partial()
    elif what == "not a tensor":
        fs.nodes["/c/pp_00/tp_00/sdp_00.pt"]["norm"] = 3
    elif what == "duplicate key":
        p = Path("/d")
        fs.make_directory(p)
        fs.put(p / "a.safetensors", {"x": params["norm"]})
        fs.put(p / "b.safetensors", {"x": params["norm"]})
    elif what == "empty dir":
        p = Path("/d")
        fs.make_directory(p / "pp_00")
    else:
        p = Path("/d")
        fs.make_directory(p)
        fs.put(p / "m.pt", {"x": params["norm"], "y": params["norm"], "z": params["scale"]})
        ld = loader(fs, None, GC(g))
        ctx.check([k for k, _ in ld.lazy_load(p / "m.pt", {})] == ["x", "z"], "rejected", "shared tensors come once")
        return
    ld = loader(fs, None, GC(g))
    ctx.raises(CorruptModelCheckpointError, lambda: list(ld.lazy_load(p, DIMS)), "rejected", what)
