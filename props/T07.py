"""Every trainable parameter is optimized by exactly one parameter group."""
import re
import types
from unittest.mock import patch

from symx.api import *
from torch.nn import Module, Parameter

import fairseq2.recipe  # noqa: F401
import fairseq2.recipe.optim as optim_mod
from fairseq2.recipe.config import (
    AdafactorConfig,
    AdafactorGroupConfig,
    AdamWConfig,
    AdamWGroupConfig,
    CosineAnnealingLRConfig,
    MyleLRConfig,
    PolynomialDecayLRConfig,
    TriStageLRConfig,
    default,
)
from fairseq2.recipe.internal.lr_schedulers import _CosineAnnealingLRFactory, _MyleLRFactory, _PolynomialDecayLRFactory, _TriStageLRFactory
from fairseq2.recipe.internal.optim import _AdafactorFactory, _AdamWFactory
from fairseq2.recipe.optim import prepare_parameter_groups
from fairseq2.utils.validation import ValidationError

OUTSIDE = "the regular expression engine itself; models with more than five parameters or three groups; flat parameters of FSDP"
ASSUMPTIONS = ["a name pattern matches a name when it equals it or matches from its start, as Python's re.match does"]


class Net(Module):
    """a, inner.b, inner.c (frozen), tied to a, winner"""

    def __init__(self):
        super().__init__()
        self.a = Parameter(torch.zeros(1))
        self.inner = Module()
        self.inner.b = Parameter(torch.zeros(1))
        self.inner.c = Parameter(torch.zeros(1), requires_grad=False)
        self.tied = self.a
        self.winner = Parameter(torch.zeros(1))


NAMES = ["a", "inner.b", "inner.c", "winner"]


def names_of(model, group):
    ids = {id(p): n for n, p in model.named_parameters()}
    return [ids[id(p)] for p in group["params"]]


class SymRe:
    """stands in for the module ``re``: whether a pattern matches a name is a free choice"""

    def __init__(self, rel):
        self.rel = rel

    def match(self, pattern, string, flags=0):
        return self.rel[pattern, string]

    def compile(self, pattern, flags=0):
        return types.SimpleNamespace(match=lambda s: self.match(pattern, s))

    def __getattr__(self, n):
        raise Unsupported(f"re.{n}")


@harness(
    "four parameters (one frozen, one tied), 1..3 groups of 1..2 patterns, every matching relation between patterns and names",
    ["every parameter in exactly one group", "first matching group", "options of its own group"],
    params=lambda t: grid(shape=[(1,), (1, 1), (2, 1), (1, 2)] + ([(1, 1, 1), (2, 2)] if t == "thorough" else []), as_list=[False, True]),
)
def assignment(ctx, shape, as_list):
    model = Net()
    pats = [[f"P{g}{i}" for i in range(n)] for g, n in enumerate(shape)]
    rel = {(p, n): ctx.bool(f"{p}~{n}") for ps in pats for p in ps for n in NAMES}
    rel.update({(".*", n): True for n in NAMES})
    cfgs = [AdamWGroupConfig(params=ps if len(ps) > 1 or as_list else ps[0], lr=ctx.real(f"lr{g}", 0, 1)) for g, ps in enumerate(pats)]
    with patch.object(optim_mod, "re", SymRe(rel)):
        out = list(prepare_parameter_groups(model, cfgs))
    where = {}
    for i, g in enumerate(out):
        for n in names_of(model, g):
            ctx.check(n not in where, "every parameter in exactly one group", f"{n} twice")
            where[n] = i
    ctx.check(sorted(where) == sorted(NAMES), "every parameter in exactly one group", f"{sorted(where)}")
    rest = []
    for n in NAMES:
        want = None
        for g, ps in enumerate(pats):
            if want is None and or_(*[rel[p, n] for p in ps]):
                want = g
        if want is None:
            rest.append(n)
            ctx.check(where[n] >= len(pats), "first matching group", f"{n} in group {where[n]}")
        else:
            ctx.check(where[n] == want, "first matching group", f"{n} in group {where[n]} instead of {want}")
    ctx.check(len(out) == len(pats) + (1 if rest else 0), "first matching group", f"{len(out)} groups")
    for i, g in enumerate(out):
        if i < len(pats):
            ctx.check(sorted(g) == ["lr", "params"], "options of its own group", f"{sorted(g)}")
            ctx.eq(g["lr"], cfgs[i].lr, "options of its own group")
        else:
            ctx.check(sorted(g) == ["params"], "options of its own group", f"{sorted(g)}")


PATTERNS = ["a", "inner", r"inner\.b", "b", "w", ".*", r".*\.[bc]$", "^inner.*", "winner", "inner.b.d", "(a|winner)"]


@harness("one or two groups with patterns chosen from a list, matched by the real regular expression engine", ["first matching group"], params=lambda t: [{"two": False}, {"two": True}])
def patterns(ctx, two):
    model = Net()
    ps = [ctx.choice(f"p{i}", PATTERNS) for i in range(2 if two else 1)]
    out = list(prepare_parameter_groups(model, [AdafactorGroupConfig(params=p) for p in ps]))
    got = [sorted(names_of(model, g)) for g in out]
    want = [[] for _ in ps] + [[]]
    for n in NAMES:
        i = next((i for i, p in enumerate(ps) if n == p or re.compile(p).match(n)), len(ps))
        want[i].append(n)
    # an empty group at the end is immaterial
    while got and not got[-1]:
        got.pop()
    while want and not want[-1]:
        want.pop()
    if [".*"] == ps[1:] and got and len(got) < len(want):
        return  # an explicit catch-all that catches nothing is dropped
    ctx.check(got == want, "first matching group", f"{ps}: {got} instead of {want}")


OPTIONS = {"adamw": ["lr", "betas", "eps", "weight_decay"], "adafactor": ["lr", "beta2_decay", "d", "weight_decay", "eps"]}


def option(ctx, name, tag):
    if name == "betas":
        return (ctx.real(f"b1{tag}", 0, Fraction(1, 2)), ctx.real(f"b2{tag}", 0, Fraction(1, 2)))
    if name == "beta2_decay":
        return ctx.real(f"b2d{tag}", -1, 0)
    if name == "d":
        return ctx.real(f"d{tag}", 1, 2)
    if name == "eps" and tag.startswith(".f"):
        return (ctx.real(f"e1{tag}", 0, 1), ctx.real(f"e2{tag}", 0, 1))
    return ctx.real(f"{name}{tag}", 0, 1)


def same(ctx, a, b, label, detail):
    if isinstance(b, tuple):
        for x, y in zip(a, b):
            ctx.eq(x, y, label, detail)
    else:
        ctx.eq(a, b, label, detail)


@harness(
    "AdamW and Adafactor from their settings: arbitrary top-level options, two groups that override any one or two options with arbitrary values (including zero) or none",
    ["options of its own group", "default elsewhere"],
    params=lambda t: grid(kind=["adamw", "adafactor"], groups=[0, 1, 2]),
)
def optimizers(ctx, kind, groups):
    model = Net()
    names = OPTIONS[kind]
    tag = ".f" if kind == "adafactor" else ".a"
    top = {n: option(ctx, n, tag + "t") for n in names}
    own = []
    for g in range(groups):
        ov = {}
        for n in {ctx.choice(f"o{g}", names), names[g]}:
            if ctx.flag(f"set{g}{n}"):
                ov[n] = option(ctx, n, f"{tag}{g}")
        own.append(ov)
    G = AdamWGroupConfig if kind == "adamw" else AdafactorGroupConfig
    pats = ["a", "inner"]
    cfgs = [G(params=pats[g], **own[g]) for g in range(groups)]
    if kind == "adamw":
        ama, mx = (ctx.flag("amsgrad"), ctx.flag("maximize")) if groups < 2 else (False, True)
        opt = _AdamWFactory(model).create(AdamWConfig(**top, amsgrad=ama, maximize=mx, groups=cfgs, impl=ctx.choice("impl", ["auto", "naive"]) if groups < 2 else "auto"))
    else:
        opt = _AdafactorFactory(model).create(AdafactorConfig(**top, groups=cfgs))
    seen = []
    for i, pg in enumerate(opt.param_groups):
        seen += names_of(model, pg)
        for n in names:
            mine = i < groups and n in own[i]
            same(ctx, pg[n], own[i][n] if mine else top[n], "options of its own group" if mine else "default elsewhere", f"{n} of group {i}")
        if kind == "adamw":
            ctx.check(pg["amsgrad"] is ama and pg["maximize"] is mx, "default elsewhere", "flags")
    ctx.check(sorted(seen) == sorted(NAMES), "options of its own group", f"{seen}")


@harness(
    "learning-rate schedulers built for 1..3 parameter groups from one value or a list of 1..3 values: arbitrary learning rates, first value of every group, rejection of lists of the wrong length",
    ["own value per group", "wrong length rejected"],
    params=lambda t: grid(kind=["cosine", "cosine-scale", "myle", "poly", "tri"], groups=[1, 2, 3]),
)
def schedulers(ctx, kind, groups):
    class Opt(torch.optim.Optimizer):
        def __init__(self, gs):
            super().__init__(gs, {"lr": 1.0})

        def step(self, closure=None):
            pass

    lrs = [ctx.real(f"lr{g}", Fraction(1, 4), 1) for g in range(groups)]
    opt = Opt([{"params": [Parameter(torch.zeros(1))], "lr": lrs[g]} for g in range(groups)])

    def values(tag):
        n = ctx.choice(f"n{tag}", [0, 1, 2, 3])
        if n == 0:
            v = ctx.real(f"v{tag}", 0, Fraction(1, 8))
            return v, [v] * groups, True
        vs = [ctx.real(f"v{tag}{i}", 0, Fraction(1, 8)) for i in range(n)]
        return vs, vs, n == groups

    start, starts, ok = values("s")
    regime = types.SimpleNamespace(num_steps=10)
    warm = 2
    finals, ok2 = None, True
    try:
        if kind == "myle":
            s = _MyleLRFactory(opt).create(MyleLRConfig(num_warmup_steps=warm, start_lr=start))
        else:
            final, finals, ok2 = values("f")
            if kind == "cosine":
                s = _CosineAnnealingLRFactory(opt, regime).create(CosineAnnealingLRConfig(num_warmup_steps=warm, start_lr=start, final_lr=final, final_lr_scale=None))
            elif kind == "cosine-scale":
                s = _CosineAnnealingLRFactory(opt, regime).create(CosineAnnealingLRConfig(num_warmup_steps=warm, start_lr=start, final_lr_scale=final))
                finals = [f * l for f, l in zip(finals, lrs)]
            elif kind == "poly":
                s = _PolynomialDecayLRFactory(opt, regime).create(PolynomialDecayLRConfig(num_warmup_steps=warm, start_lr=start, final_lr=final))
            else:
                s = _TriStageLRFactory(opt, regime).create(TriStageLRConfig(stage_ratio=(0.2, 0.5, 0.3), start_lr_scale=start, final_lr_scale=final))
    except ValidationError:
        ctx.check(not ok or not ok2, "wrong length rejected", "lists of the right length rejected")
        return
    ctx.check(ok and ok2, "wrong length rejected", f"{starts} {finals} for {groups} groups")
    if kind == "tri":
        starts = [a * b for a, b in zip(starts, lrs)]
    got = s.get_last_lr()
    for g in range(groups):
        ctx.eq(got[g], starts[g], "own value per group", f"first value of group {g}")
        ctx.eq(opt.param_groups[g]["lr"], starts[g], "own value per group", f"first value of group {g}")
    for _ in range(warm):
        s.step()
    for g in range(groups):
        if kind != "cosine-scale":
            ctx.eq(s.get_last_lr()[g], lrs[g], "own value per group", f"peak of group {g}")
    if kind in ("poly",):
        for _ in range(10 - warm):
            s.step()
        for g in range(groups):
            ctx.eq(s.get_last_lr()[g], finals[g], "own value per group", f"last value of group {g}")
