"""Learning-rate schedules follow their documented formula at every step, also after a resume."""
import builtins

from symx.api import *
from torch.optim import SGD

import fairseq2.optim.lr_schedulers.cosine_annealing as cos_mod
import fairseq2.optim.lr_schedulers.tri_stage as tri_mod
from fairseq2.optim.lr_schedulers import CosineAnnealingLR, MyleLR, NoamLR, PolynomialDecayLR, TriStageLR

OUTSIDE = "float rounding; base/start/final learning rates <= 0; cosine cycle multipliers that make a cycle length fractional (the documented length is then rounded)"
ASSUMPTIONS = ["cos/log/exp are uninterpreted functions with their range axioms; x**0.5 is the exact root"]


def make_opt(lrs):
    ps = [torch.nn.Parameter(torch.zeros(1)) for _ in lrs]
    return SGD([{"params": [p], "lr": lr} for p, lr in zip(ps, lrs)], lr=0.1)


def lrs_at(ctx, make, opt, k):
    """drives the scheduler to step k through its saved state (resume) and one step"""
    s = make()
    if ctx.sym:
        is0 = k == 0
        if isinstance(is0, SymBool):
            is0 = bool(is0)
    else:
        is0 = k == 0
    if not is0:
        sd = s.state_dict()
        s2 = make()
        sd = dict(sd)
        sd["last_epoch"] = k - 1
        s2.load_state_dict(sd)
        s2.step()
        s = s2
    out = [g["lr"] for g in opt.param_groups]
    for a, b in zip(out, s.get_last_lr()):
        ctx.eq(a, b, "reported lr is the applied lr")
    return out


@harness("step, num_warmup_steps in 1..1e4 symbolic; base/start lr symbolic, two parameter groups", ["reported lr is the applied lr", "warmup", "decay", "never above base"])
def myle(ctx):
    b = [ctx.real("base0", 0.001, 10), ctx.real("base1", 0.001, 10)]
    st = [ctx.real("start0", 0, 10), ctx.real("start1", 0, 10)]
    w = ctx.int("warmup", 1, 10000)
    k = ctx.int("step", 0, 1000000)
    opt = make_opt(b)
    lr = lrs_at(ctx, lambda: MyleLR(opt, w, start_lr=st), opt, k)
    for i in range(2):
        if k < w:
            ctx.eq(lr[i] * w, st[i] * (w - k) + b[i] * k, "warmup")
        else:
            ctx.eq(lr[i] * lr[i] * k, b[i] * b[i] * w, "decay")
            ctx.check(lr[i] > 0, "decay")
            if not ctx.sym:
                ctx.check(lr[i] <= b[i] * (1 + 1e-6), "never above base")
            else:
                # lr^2 = b^2 w/k <= b^2
                ctx.check(lr[i] * lr[i] <= b[i] * b[i], "never above base")


@harness("step, num_warmup_steps symbolic; warmup <= 6 for the irrational scale", ["warmup", "decay"], params=lambda t: [{"w": w} for w in ([0, 1, 4, 9, 7] if t == "quick" else range(0, 30))])
def noam(ctx, w):
    b = [ctx.real("base0", 0.001, 10), ctx.real("base1", 0.001, 10)]
    k = ctx.int("step", 0, 1000000)
    opt = make_opt(b)
    lr = lrs_at(ctx, lambda: NoamLR(opt, w), opt, k)
    for i in range(2):
        if k < w:
            # base * k / w^1.5 ; compared through its square (w^1.5 irrational): tolerance 1e-12
            d = lr[i] * lr[i] * w**3 - b[i] * b[i] * k * k
            ctx.check(and_(d <= Fraction(1, 10**6) if ctx.sym else abs(d) < 1e-3 * max(1, k * k), lr[i] >= 0), "warmup")
            ctx.check(d >= -Fraction(1, 10**6) if ctx.sym else True, "warmup")
        elif k == 0:
            ctx.eq(lr[i], b[i], "decay")
        else:
            ctx.eq(lr[i] * lr[i] * k, b[i] * b[i], "decay")
            ctx.check(lr[i] > 0, "decay")


@harness("step, num_steps, num_warmup_steps, lrs symbolic (steps <= 1e6); power in {1, 2, 3, 0.5}", ["warmup", "decay", "final", "bounds"], params=lambda t: [{"power": p} for p in (1.0, 2.0, 3.0, 0.5)])
def poly(ctx, power):
    b = [ctx.real("base0", 0.001, 10), ctx.real("base1", 0.001, 10)]
    st = [ctx.real("start0", 0, 10), ctx.real("start1", 0, 10)]
    f = [ctx.real("final0", 0, 10), ctx.real("final1", 0, 10)]
    n = ctx.int("num_steps", 1, 1000000)
    w = ctx.int("warmup", 0, 1000000)
    k = ctx.int("step", 0, 2000000)
    ctx.assume(w < n)
    opt = make_opt(b)
    lr = lrs_at(ctx, lambda: PolynomialDecayLR(opt, n, w, power=power, start_lr=st, final_lr=f), opt, k)
    for i in range(2):
        if k >= n:
            ctx.eq(lr[i], f[i], "final")
        elif k < w:
            ctx.eq(lr[i] * w, st[i] * (w - k) + b[i] * k, "warmup")
        else:
            if power == 0.5:
                q = lr[i] - f[i]
                ctx.eq(q * q * (n - w), (b[i] - f[i]) * (b[i] - f[i]) * (n - k), "decay")
            else:
                p = int(power)
                x = (n - k) / (n - w)
                e = 1
                for _ in range(p):
                    e = e * x
                ctx.eq(lr[i] - f[i], (b[i] - f[i]) * e, "decay")
            if power == 1.0:
                # k in [w, n): (n-k)/(n-w) in (0, 1], so lr lies between final and base
                lo, hi = smin(b[i], f[i]), smax(b[i], f[i])
                ctx.check(and_(lr[i] >= lo - 1e-9, lr[i] <= hi + 1e-9), "bounds")


@harness("num_steps, num_warmup_steps symbolic", ["invalid warmup rejected"])
def poly_invalid(ctx):
    n = ctx.int("num_steps", 0, 100)
    w = ctx.int("warmup", 0, 100)
    opt = make_opt([0.1])
    try:
        PolynomialDecayLR(opt, n, w)
        ok = True
    except ValueError:
        ok = False
    ctx.check(iff(ok, w < n), "invalid warmup rejected")


def sym_int(x=0, *a):
    if type(x) is SymReal:
        return x.__trunc__()
    if type(x) is SymInt:
        return x
    return builtins.int(x, *a)


@harness(
    "step, num_warmup_steps <= 1e6, lr multipliers 0.5/1; cycle_mul = 1: cycle_len 1/2/5/80 and cycle index 0, 1, 3",
    ["warmup", "cycle start", "cycle", "cycle bounds"],
    params=lambda t: [{"lr_mul": m, "cl": c} for m in (1.0, 0.5) for c in ((1, 2, 5, 80) if t == "quick" else (1, 2, 3, 5, 8, 13, 80, 400))],
)
def cosine(ctx, lr_mul, cl):
    b = [ctx.real("base0", 0.001, 10), ctx.real("base1", 0.001, 10)]
    st = [ctx.real("start0", 0, 10), ctx.real("start1", 0, 10)]
    f = [ctx.real("final0", 0, 10), ctx.real("final1", 0, 10)]
    w = ctx.int("warmup", 0, 1000000)
    k = ctx.int("step", 0, 2000000)
    cyc = ctx.choice("cycle", [0, 1, 3])
    ctx.assume(or_(k < w, and_(k - w >= cyc * cl, k - w < (cyc + 1) * cl)))
    if ctx.sym:
        cos_mod.int = sym_int
    opt = make_opt(b)
    lr = lrs_at(ctx, lambda: CosineAnnealingLR(opt, cl, w, lr_mul=lr_mul, start_lr=st, final_lr=f), opt, k)
    for i in range(2):
        if k < w:
            ctx.eq(lr[i] * w, st[i] * (w - k) + b[i] * k, "warmup")
            continue
        m = lr_mul**cyc
        pos = k - w - cyc * cl
        c = math.cos(math.pi * pos / cl)
        ctx.eq(lr[i], m * (f[i] + (b[i] - f[i]) * (1 + c) * 0.5), "cycle")
        if pos == 0:
            # a (re)start begins at the scaled base learning rate
            ctx.eq(lr[i], m * b[i], "cycle start")
        lo, hi = smin(b[i], f[i]) * m, smax(b[i], f[i]) * m
        ctx.check(and_(lr[i] >= lo - 1e-9, lr[i] <= hi + 1e-9), "cycle bounds")


@harness(
    "growing cycles of integral length: cycle_mul 2 and 3, cycle_len 1..4, every step of the first 5 cycles and the start of the 6th (thorough: cycle_mul 5 and 10 too)",
    ["grown cycle"],
    params=lambda t: [{"mul": m, "cl": c, "ncyc": n} for m, n in ((2.0, 6), (3.0, 6)) for c in (1, 2)]
    + ([] if t == "quick" else [{"mul": m, "cl": c, "ncyc": n} for m, n in ((2.0, 9), (3.0, 7), (5.0, 5), (10.0, 4)) for c in (1, 3, 4)]),
)
def cosine_grow(ctx, mul, cl, ncyc):
    b, f = ctx.real("base", 0.001, 10), ctx.real("final", 0, 10)
    # documented structure: cycle i has length int(mul^i * cycle_len)
    off, bounds = 0, []
    for i in range(ncyc):
        n = int(mul**i * cl)
        bounds.append((off, n))
        off = int((1 - mul ** (i + 1)) / (1 - mul) * cl)
    k = ctx.choice("step", list(range(0, bounds[-1][0] + 1)))
    opt = make_opt([b])
    lr = lrs_at(ctx, lambda: CosineAnnealingLR(opt, cl, 0, cycle_mul=mul, final_lr=f), opt, k)[0]
    cyc = max(i for i, (o, n) in enumerate(bounds) if k >= o)
    o, n = bounds[cyc]
    c = Fraction(math.cos(math.pi * (k - o) / n))
    d = lr - (f + (b - f) * (1 + (c if ctx.sym else float(c))) * 0.5)
    tol = 1e-6
    ctx.check(and_(d <= tol, d >= -tol), "grown cycle", f"step {k} belongs to cycle {cyc} (offset {o}, length {n})")


@harness(
    "step symbolic, three stages (num_steps 20 / 99, several ratios, so stage shares are whole or truncated), base lr symbolic, two groups",
    ["warmup", "hold", "decay", "final"],
    params=lambda t: [{"n": n, "r": r} for n in ((20, 99) if t == "quick" else (19, 20, 40, 99, 100, 1000)) for r in ((0.25, 0.25, 0.5), (0.0, 0.5, 0.5), (0.1, 0.9, 0.0), (0.5, 0.0, 0.5))],
)
def tri(ctx, n, r):
    b = [ctx.real("base0", 0.001, 10), ctx.real("base1", 0.001, 10)]
    ss, fs = [0.01, 0.5], [0.05, 0.25]
    k = ctx.int("step", 0, 3 * n)
    opt = make_opt(b)
    lr = lrs_at(ctx, lambda: TriStageLR(opt, n, r, start_lr_scale=ss, final_lr_scale=fs), opt, k)
    s0, s1, s2 = (int(x * n) for x in r)
    for i in range(2):
        if k < s0:
            ctx.eq(lr[i] * s0, ss[i] * b[i] * (s0 - k) + b[i] * k, "warmup")
        elif k < s0 + s1:
            ctx.eq(lr[i], b[i], "hold")
        elif k < s0 + s1 + s2:
            # exponential decay: ln(lr/base) = ln(final_scale) * progress
            p = (k - s0 - s1) / s2
            e = math.exp(math.log(fs[i]) * p)
            ctx.eq(lr[i], b[i] * e, "decay")
            ctx.check(lr[i] > 0, "decay")
        else:
            ctx.eq(lr[i], fs[i] * b[i], "final")
