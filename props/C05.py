"""Loading a state dict fills every parameter and persistent buffer or fails."""
from symx import spmd
from symx.api import *

import fairseq2.nn.utils.module as module_mod
from fairseq2.error import StateDictError
from fairseq2.models.utils.checkpoint import ModelCheckpointMismatchError, set_model_state
from fairseq2.nn.data_parallel import get_data_parallel_facade
from fairseq2.nn.utils.module import broadcast_module, share_parameters, to_empty
from fairseq2.utils.progress import NOOP_PROGRESS_REPORTER
from torch.nn import Module, Parameter

OUTSIDE = "FSDP state dicts; models with more than five entries; tied entries that carry conflicting values"
ASSUMPTIONS = ["tied entries of one checkpoint carry equal values"]


class Inner(Module):
    def __init__(self, none):
        super().__init__()
        self.w = Parameter(torch.zeros(2))
        if none:
            self.register_module("opt", None)


class Model(Module):
    """weights a, b; c tied to a; persistent buffer p; non-persistent buffer q; an inner module, optionally shared, with an absent child"""

    def __init__(self, shared=False, tie=True):
        super().__init__()
        self.a = Parameter(torch.zeros(2))
        self.b = Parameter(torch.zeros((1, 2)))
        self.c = self.a if tie else Parameter(torch.zeros(2))
        self.register_buffer("p", torch.zeros(2))
        self.register_buffer("q", torch.zeros(1), persistent=False)
        self.x = Inner(True)
        if shared:
            self.y = self.x


SHAPES = {"a": (2,), "b": (1, 2), "c": (2,), "p": (2,), "x.w": (2,), "y.w": (2,)}


def values(ctx):
    v = {k: ctx.tensor(k, s) for k, s in SHAPES.items()}
    v["c"], v["y.w"] = v["a"], v["x.w"]
    return v


def configs(t):
    return grid(shared=[False, True], bad=["none", "b", "p", "a"], extra=[None, "zz", "q", "x.opt.w", "x.opt", "y.opt.w", "x.opt2.w"] if t == "thorough" else [None, "zz", "q", "x.opt.w", "y.opt.w"])


@harness(
    "every subset of present keys of a model with weights, tied weights, persistent and non-persistent buffers, a shared inner module with an absent child; any one unexpected key; any one wrong shape; two key orders; arbitrary values",
    ["filled", "mismatch raised", "offending keys named"],
    params=configs,
    tensor=True,
)
def native(ctx, shared, bad, extra):
    m = Model(shared)
    keys = [k for k in SHAPES if shared or k != "y.w"]
    ctx.check(sorted(m.state_dict()) == sorted(keys), "filled")
    v = values(ctx)
    present = [k for k in keys if ctx.flag(f"has.{k}")]
    if bad in keys and bad not in present:
        return
    if ctx.flag("reverse"):
        present.reverse()
    ckpt = [(k, v[k] if k != bad else ctx.tensor("bad", (1, 1, 2))) for k in present]
    if extra is not None:
        ckpt.insert(ctx.choice("extra_at", [0, len(ckpt)]), (extra, ctx.tensor("extra", (2,))))
    ok = [k for k in present if k != bad]
    tied = [("a", "c"), ("x.w", "y.w")]
    missing = [k for k in keys if k not in present]
    for s, t in tied:
        if s in ok or t in ok:
            missing = [k for k in missing if k not in (s, t)]
    offending = missing + ([bad] if bad in present else []) + ([extra] if extra else [])
    try:
        set_model_state(m, iter(ckpt), NOOP_PROGRESS_REPORTER)
    except ModelCheckpointMismatchError as ex:
        ctx.check(len(offending) > 0, "filled", f"{ex}")
        for k in offending:
            ctx.check(k in str(ex), "offending keys named", f"{k} not in {ex}")
        return
    ctx.check(not offending, "mismatch raised", f"missing {missing}, extra {extra}, shape {bad}")
    for k, t in m.state_dict().items():
        ctx.teq(t, v[k], "filled", k)
    ctx.check(m.c is m.a, "filled", "still tied")
    ctx.teq(m.q, torch.zeros(1), "filled", "non-persistent buffer untouched")


@harness(
    "restoring a training checkpoint: every subset of present keys, any one unexpected key (including keys of absent submodules, reached under either name of a shared module), any one wrong shape",
    ["filled", "mismatch raised"],
    params=configs,
    tensor=True,
)
def restore(ctx, shared, bad, extra):
    m = Model(shared)
    keys = [k for k in SHAPES if shared or k != "y.w"]
    v = values(ctx)
    present = [k for k in keys if ctx.flag(f"has.{k}")]
    if bad in keys and bad not in present:
        return
    sd = {k: v[k] if k != bad else ctx.tensor("bad", (1, 1, 2)) for k in present}
    if extra is not None:
        sd[extra] = ctx.tensor("extra", (2,))
    wrong = len(present) != len(keys) or bad in present or extra is not None
    facade = get_data_parallel_facade(m)
    ctx.check(list(facade.state_dict()) == list(m.state_dict()), "filled")
    try:
        facade.load_state_dict(sd)
    except (RuntimeError, StateDictError):
        ctx.check(wrong, "filled", "matching state dict rejected")
        return
    ctx.check(not wrong, "mismatch raised", f"{sorted(sd)} accepted")
    for k, t in m.state_dict().items():
        ctx.teq(t, v[k], "filled", k)


class BGang(spmd.SimGang):
    def as_process_group(self):
        return self


def coalesced(pg, tensors, bucket, source_rank):
    with torch.no_grad():
        for t in tensors:
            pg.broadcast(t, source_rank)


@harness(
    "broadcasting a loaded model to 2 or 3 ranks from any source rank, receivers on real or meta memory, with and without non-persistent buffers and skipped submodules",
    ["same on all ranks", "left alone"],
    params=lambda t: grid(n=[2, 3] if t == "thorough" else [2], meta=[False, True], npb=[False, True], skip=[False, True], shared=[False, True]),
    tensor=True,
)
def broadcast(ctx, n, meta, npb, skip, shared):
    src = ctx.choice("source", range(n))
    vals = [dict(a=ctx.tensor(f"a{r}", (2,)), b=ctx.tensor(f"b{r}", (1, 2)), p=ctx.tensor(f"p{r}", (2,)), q=ctx.tensor(f"q{r}", (1,)), xw=ctx.tensor(f"x{r}", (2,))) for r in range(n)]
    sim = spmd.Sim(n, tensor=True)
    real = torch.distributed._broadcast_coalesced
    torch.distributed._broadcast_coalesced = coalesced

    def job(r):
        m = Model(shared)
        if meta and r != src and not skip:
            to_empty(m, torch.device("meta"))
        else:
            with torch.no_grad():
                for k, t in [("a", m.a), ("b", m.b), ("p", m.p), ("q", m.q), ("xw", m.x.w)]:
                    t.copy_(vals[r][k])
        broadcast_module(m, BGang(sim.group(range(n)), r), source_rank=src, non_persistent_buffers=npb, skip_modules={m.x} if skip else None)
        ctx.check(m.c is m.a and (not shared or m.y is m.x), "left alone", "ties")
        for k, t in [("a", m.a), ("b", m.b), ("p", m.p), ("q", m.q), ("xw", m.x.w)]:
            ctx.check(t.device.type == "cpu", "same on all ranks")
            if k == "xw" and skip or k == "q" and not npb:
                if not (meta and r != src and not skip):
                    ctx.teq(t, vals[r][k], "left alone", k)
            else:
                ctx.teq(t, vals[src][k], "same on all ranks", k)

    try:
        sim.run(job)
    finally:
        torch.distributed._broadcast_coalesced = real
    ctx.check(True, "left alone")


@harness(
    "sharing parameters between two models: afterwards both hold the source values, buffers included, and the target's own ties follow the source; mismatching structures are rejected",
    ["shared", "rejected"],
    tensor=True,
)
def share(ctx):
    s, t = Model(), Model()
    v = values(ctx)
    with torch.no_grad():
        for k, x in s.state_dict(keep_vars=True).items():
            x.copy_(v[k])
    case = ctx.choice("case", ["ok", "fewer", "grad"])
    if case == "fewer":
        t.c = Parameter(torch.zeros(2))
        ctx.raises(ValueError, lambda: share_parameters(s, t), "rejected")
        return
    if case == "grad":
        t.b.grad = torch.zeros((1, 2))
        ctx.raises(ValueError, lambda: share_parameters(s, t), "rejected")
        return
    share_parameters(s, t)
    for (n, x), (k, y) in zip(s.named_parameters(), t.named_parameters()):
        ctx.check(n == k, "shared")
        with torch.no_grad():
            x.add_(1)
        ctx.teq(y, v[n] + 1, "shared", n)
    ctx.teq(t.p, v["p"], "shared", "buffer")
