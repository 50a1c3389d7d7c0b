"""One optimizer step uses the exact normalized gradient of its whole batch."""
from contextlib import contextmanager
from threading import get_ident

from props._trainer import CPU, NOOP_FP16_LOSS_SCALER, NOOP_HG_EXPORTER, NOOP_EARLY_STOPPER, NOOP_METRIC_RECORDER, NOOP_PROFILER, NOOP_GARBAGE_COLLECTOR, NOOP_DEVICE_STAT_TRACKER, NOOP_PROGRESS_REPORTER, NOOP_VALIDATOR, Ckpt, Sched, Stopwatch, Trainer, TrainUnit, World
from symx import spmd
from symx.api import *
from torch.nn import Module, Parameter
from torch.optim import SGD

import fairseq2.optim.fp16_loss_scaler as fls
from fairseq2.gang import Gangs, create_fake_gangs
from fairseq2.nn.data_parallel import DataParallelFacade, set_data_parallel_facade
from fairseq2.nn.utils.grad import InconsistentGradNormError, check_grad_norms, clip_grad_norm, normalize_grads, scale_grad, scale_grads
from fairseq2.trainer import MinimumLossScaleReachedError

OUTSIDE = "float rounding; FSDP's own gradient reduction (the wrapper is stood in for by one that averages accumulated gradients over ranks, as DDP and FSDP do); more than 2 ranks, 4 micro-batches, 3 steps"
ASSUMPTIONS = ["the data-parallel wrapper averages the accumulated gradients over all ranks at every backward outside of no_sync()"]


class Inject(torch.autograd.Function):
    """identity whose gradient overflows"""

    @staticmethod
    def forward(ctx, x, bad):
        ctx.bad = bad
        return x.clone()

    @staticmethod
    def backward(ctx, g):
        out = torch.zeros_like(g)
        out[0] = ctx.bad
        return out, None


class NoCkpt(Ckpt):
    def save_checkpoint(self, step_nr, trainer, model, optimizer, data_reader, *, ready_callback=None, saved_callback=None, blocking=False):
        pass


class Net(Module):
    def __init__(self, w):
        super().__init__()
        self.w = Parameter(w)


class Batch:
    def __init__(self, x, n):
        self.x, self.n, self.moved = x, n, False

    def to(self, device, *, non_blocking=False):
        self.moved = True


class Unit(TrainUnit):
    def __init__(self, net, counted):
        self.net, self.counted, self.seen = net, counted, []

    def prepare_metric_bag(self, metric_bag):
        pass

    def set_step_nr(self, n):
        pass

    def set_data_epoch_nr(self, n):
        pass

    def process_batch(self, batch, metric_bag):
        self.seen.append(batch)
        # loss of target i: w0 * x_i0 + w1^2 * x_i1
        w, x = self.net.w, batch.x
        per = w[0] * x[:, 0] + w[1] * w[1] * x[:, 1]
        if self.counted:
            return per.sum(), batch.n
        return per.sum() / batch.n, None

    def process_metric_values(self, values):
        pass


class Facade(DataParallelFacade):
    """averages the gradients accumulated so far over the data-parallel ranks, unless in no_sync()"""

    def __init__(self, net, gang):
        self.net, self.gang, self.sync, self.syncs = net, gang, True, 0

    def state_dict(self):
        return self.net.state_dict()

    def load_state_dict(self, s):
        pass

    @contextmanager
    def no_sync(self):
        self.sync = False
        try:
            yield
        finally:
            self.sync = True

    def after_backward(self):
        if not self.sync:
            return
        self.syncs += 1
        for p in self.net.parameters():
            if p.grad is None:
                p.grad = torch.zeros_like(p)
            if self.gang.size > 1:
                g = p.grad.detach().clone()
                from fairseq2.gang import ReduceOperation

                self.gang.all_reduce(g, ReduceOperation.SUM)
                p.grad = g / self.gang.size

    def clip_grad_norm(self, max_norm):
        return clip_grad_norm(self.net, max_norm)

    @contextmanager
    def summon_full_parameters(self):
        yield


class BackwardScaler(fls.Float16LossScaler):
    """no loss scaling; tells the wrapper when a backward pass is over"""

    def __init__(self, facade):
        self.facade = facade

    def run_optimizer_step(self, optimizer, closure=None):
        return NOOP_FP16_LOSS_SCALER.run_optimizer_step(optimizer)

    def unscale_grads_(self, optimizer):
        pass

    def backward(self, loss):
        loss.backward()
        self.facade.after_backward()

    @property
    def scale_window(self):
        return 0

    def state_dict(self):
        return {}

    def load_state_dict(self, s):
        pass


class Opt(SGD):
    def __init__(self, net):
        super().__init__(net.parameters(), lr=0.1)
        self.net, self.applied = net, []

    def step(self, closure=None):
        self.applied.append(None if self.net.w.grad is None else self.net.w.grad.detach().clone())


class Done(Exception):
    pass


class Reader:
    def __init__(self, steps, last=StopIteration):
        self.steps, self.last = list(steps), last

    def __iter__(self):
        return self

    def __next__(self):
        if not self.steps:
            raise self.last
        return self.steps.pop(0)

    def reset(self):
        pass

    def state_dict(self):
        return {}

    def load_state_dict(self, s):
        pass


def trainer(net, unit, steps, gangs, opt, scaler, last=StopIteration, **kw):
    return Trainer(
        model=net,
        unit=unit,
        data_reader=Reader(steps, last),
        gangs=gangs,
        amp=False,
        amp_dtype=torch.float32,
        optimizer=opt,
        lr_scheduler=Sched(),
        fp16_loss_scaler=scaler,
        validator=NOOP_VALIDATOR,
        early_stopper=NOOP_EARLY_STOPPER,
        checkpoint_manager=NoCkpt(World(lambda e: 1)),
        hg_exporter=NOOP_HG_EXPORTER,
        metric_recorder=NOOP_METRIC_RECORDER,
        garbage_collector=NOOP_GARBAGE_COLLECTOR,
        profiler=NOOP_PROFILER,
        device_stat_tracker=NOOP_DEVICE_STAT_TRACKER,
        wall_watch=Stopwatch(),
        progress_reporter=NOOP_PROGRESS_REPORTER,
        seed=1,
        **kw,
    )


def counts(t):
    q = [
        # per step, per rank: target counts of the micro-batches
        [[[2]]],
        [[[1, 2]]],
        [[[1], [2]]],
        [[[0], [2]]],
        [[[2, 0], [0, 1]]],
        [[[1, 2], [2, 1]], [[1], [1]]],
        [[[0, 0], [1, 1]]],
        [[[0], [0]]],
        [[[0, 0]], [[1]]],
        [[[1, 2, 1]]],
    ]
    if t == "thorough":
        q += [[[[a, b], [c, d]]] for a in (0, 1, 2) for b in (0, 2) for c in (0, 1) for d in (0, 1, 3)]
        q += [[[[1, 2, 3], [3, 0, 1]], [[0, 0, 1], [2, 2, 2]]]]
    return q


@harness(
    "the real training step on 1 or 2 data-parallel ranks with 1..4 micro-batches of 0..3 targets each (listed distributions), arbitrary weights and inputs, with and without no_sync accumulation, losses with and without target counts",
    ["applied gradient = gradient of the whole batch / targets", "one update per step", "no gradient left over", "each micro-batch once", "ranks agree"],
    params=lambda t: grid(steps=counts(t), counted=[True], nosync=[True, False])
    + grid(steps=[[[[2]]], [[[2, 2]]], [[[2], [2]]], [[[1, 1], [1, 1]], [[1, 1], [1, 1]]], [[[1, 1, 1, 1]]]], counted=[False], nosync=[True, False]),
    tensor=True,
)
def accumulate(ctx, steps, counted, nosync):
    n = len(steps[0])
    w = ctx.tensor("w", (2,), lo=-4, hi=4)
    xs = [[[ctx.tensor(f"x{s}{r}{b}", (max(c, 1), 2), lo=-4, hi=4) for b, c in enumerate(rank)] for r, rank in enumerate(step)] for s, step in enumerate(steps)]
    sim = spmd.Sim(n, tensor=True)

    def run(r):
        gangs = spmd.gangs(sim, r, 1, 1) if n > 1 else create_fake_gangs(CPU)
        net = Net(w.detach().clone())
        facade = Facade(net, gangs.dp)
        set_data_parallel_facade(net, facade)
        opt, unit = Opt(net), Unit(net, counted)
        data = [[Batch(xs[s][r][b][: c], c) for b, c in enumerate(step[r])] for s, step in enumerate(steps)]
        flat = [b for st in data for b in st]
        t = trainer(net, unit, data, gangs, opt, BackwardScaler(facade), last=Done, no_sync_grad_accumulation=nosync)
        try:
            t.run()
        except Done:  # leaves before anything is reported
            pass
        return opt.applied, [b is c for b, c in zip(unit.seen, flat)], len(unit.seen), len(flat), net.w.grad, t.step_nr, facade.syncs

    out = sim.run(run)
    for applied, same, seen, total, left, step_nr, syncs in out:
        ctx.check(len(applied) == len(steps) == step_nr, "one update per step", f"{len(applied)} updates in {len(steps)} steps")
        ctx.check(seen == total and all(same), "each micro-batch once")
        ctx.check(left is None or bool((left == 0).all()), "no gradient left over")
    for s, step in enumerate(steps):
        tot = sum(c for rank in step for c in rank) if counted else None
        g0 = g1 = 0
        for r, rank in enumerate(step):
            for b, c in enumerate(rank):
                den = 1 if counted else c * n * len(rank)
                for i in range(c):
                    x = xs[s][r][b]
                    g0 = g0 + x[i, 0] / den
                    g1 = g1 + 2 * w[1] * x[i, 1] / den
        if counted:
            g0, g1 = (g0 / max(tot, 1), g1 / max(tot, 1))
        z = torch.zeros(())
        for r in range(n):
            a = out[r][0][s]
            if a is None:
                ctx.check(counted and tot == 0, "applied gradient = gradient of the whole batch / targets")
                continue
            ctx.teq(a[0], g0 + z, "applied gradient = gradient of the whole batch / targets")
            ctx.teq(a[1], g1 + z, "applied gradient = gradient of the whole batch / targets")
            ctx.teq(a, out[0][0][s], "ranks agree")


class _Linear(SGD):
    """plain gradient descent written out"""

    def __init__(self, net):
        super().__init__(net.parameters(), lr=1.0)
        self.net, self.n = net, 0

    def step(self, closure=None):
        self.n += 1
        with torch.no_grad():
            for p in self.net.parameters():
                p -= p.grad * Fraction(1, 2) if False else p.grad / 2


class CpuScaler(fls._InternalGradScaler):
    def __init__(self, *a, **k):
        super().__init__("cpu", *a, **k)


def make_scaler(gangs, **kw):
    old = fls._InternalGradScaler
    fls._InternalGradScaler = CpuScaler
    try:
        return fls.StandardFloat16LossScaler(gangs, **kw)
    finally:
        fls._InternalGradScaler = old


@harness(
    "the real loss scaler and training step; any pattern of overflow (infinite or NaN gradient) over the first 4 attempts, initial scale and minimum scale at listed values down to 2^-40, window 1..3, arbitrary weights and data; the scaler state is saved and restored into a new one after every attempt",
    ["update = unscaled gradient", "overflow leaves the model alone", "scale halves on overflow", "scale grows after the window", "steps not counted", "stops at the minimum scale", "reported scale"],
    params=lambda t: grid(init=[4.0, 2.0**-18], window=[1, 2], minexp=[3, 20], kind=["inf", "nan"] if t == "thorough" else ["inf"], attempts=[4]) if t == "quick" else grid(init=[4.0, 1.0, 2.0**-18, 2.0**-30], window=[1, 2, 3], minexp=[1, 2, 3, 20], kind=["inf", "nan"], attempts=[4, 5]),
    tensor=True,
)
def loss_scale(ctx, init, window, minexp, kind, attempts):
    mn = init / 2**minexp
    w = ctx.tensor("w", (2,), lo=-4, hi=4)
    net = Net(w.detach().clone())
    opt = _Linear(net)
    gangs = create_fake_gangs(CPU)
    sc = make_scaler(gangs, init_scale=init, scale_factor=2.0, scale_window=window, min_scale=mn)
    scale, good = init, 0
    cur = [w[0], w[1]]
    steps = 0
    for k in range(attempts):
        over = bool(ctx.flag(f"overflow{k}"))
        x = ctx.tensor(f"x{k}", (2,), lo=-4, hi=4)
        loss = ((Inject.apply(net.w, math.inf if kind == "inf" else math.nan) if over else net.w) * x).sum()
        sc.backward(loss)
        sc.unscale_grads_(opt)
        res = sc.run_optimizer_step(opt)
        opt.zero_grad(set_to_none=True)
        ctx.check(res.overflowed == over, "overflow leaves the model alone", f"attempt {k}, scale {scale}: {res}")
        ctx.eq(res.old_scale, scale, "reported scale")
        if over:
            good = 0
            new = scale / 2
            boom = new < mn
            ctx.check(res.exploded == boom, "stops at the minimum scale", f"{res} min {mn}")
            scale = mn if boom else new
            ctx.check(not res.scaled, "scale halves on overflow")
            ctx.eq(res.new_scale, scale, "scale halves on overflow")
        else:
            steps += 1
            good += 1
            grown = good == window
            if grown:
                scale, good = scale * 2, 0
            cur = [cur[i] - x[i] / 2 for i in range(2)]
            ctx.check(res.scaled == grown and not res.exploded, "scale grows after the window", f"{res}")
            ctx.eq(res.new_scale, scale, "scale grows after the window")
        for i in range(2):
            ctx.teq(net.w.detach()[i], cur[i], "overflow leaves the model alone" if over else "update = unscaled gradient")
        ctx.check(opt.n == steps, "steps not counted")
        # a restarted job continues with the same scale and window
        sd = sc.state_dict()
        sc = make_scaler(gangs, init_scale=999.0, scale_factor=2.0, scale_window=window, min_scale=mn)
        sc.load_state_dict(sd)
    ctx.check(scale >= mn, "stops at the minimum scale")


@harness(
    "the real Trainer with the real loss scaler: any overflow pattern over 4 attempts, window 2, minimum scale reached or not",
    ["step number = updates", "minimum scale ends the run", "batches read"],
    params=lambda t: grid(minexp=[1, 8], window=[1, 2]),
    tensor=True,
)
def overflow_run(ctx, minexp, window):
    pattern = {k: bool(ctx.flag(f"overflow{k}")) for k in range(4)}
    w = ctx.tensor("w", (2,), lo=-4, hi=4)
    net = Net(w.detach().clone())
    opt = _Linear(net)
    gangs = create_fake_gangs(CPU)
    sc = make_scaler(gangs, init_scale=8.0, scale_factor=2.0, scale_window=window, min_scale=8.0 / 2**minexp)
    seen = []

    class U(Unit):
        def process_batch(self, batch, metric_bag):
            k = len(seen)
            seen.append(k)
            w = Inject.apply(self.net.w, -math.inf) if pattern.get(k, False) else self.net.w
            return (w * batch.x).sum(), None

    xs = [ctx.tensor(f"x{k}", (2,), lo=-4, hi=4) for k in range(7)]
    t = trainer(net, U(net, False), [[Batch(x, 1)] for x in xs], gangs, opt, sc, max_num_steps=3)
    try:
        t.run()
        ended = "done"
    except MinimumLossScaleReachedError:
        ended = "min"
    scale, good, n, boom = 8.0, 0, 0, None
    cur = [w[0], w[1]]
    k = 0
    while n < 3:
        if pattern.get(k, False):
            good = 0
            scale /= 2
            if scale < 8.0 / 2**minexp:
                boom = k
                break
        else:
            good += 1
            n += 1
            cur = [cur[i] - xs[k][i] / 2 for i in range(2)]
            if good == window:
                scale, good = scale * 2, 0
        k += 1
    ctx.check((ended == "min") == (boom is not None), "minimum scale ends the run", f"{pattern} {ended}")
    ctx.check(opt.n == n, "step number = updates")
    if boom is None:
        ctx.check(t.step_nr == n, "step number = updates", f"{t.step_nr}")
        ctx.check(len(seen) == k, "batches read")
    else:
        ctx.check(len(seen) == boom + 1, "batches read")
    for i in range(2):
        ctx.teq(net.w.detach()[i], cur[i], "step number = updates")


@harness(
    "clip_grad_norm on two parameters (one possibly without gradient): symbolic gradients and limit",
    ["reported norm", "clipped to the limit", "small gradients untouched"],
    params=lambda t: grid(none=[True], p=["none", "inf", "one"]) + grid(none=[False], p=["inf"] if t == "quick" else ["none", "inf", "one"]),
    tensor=True,
)
def clip(ctx, none, p):
    net = Module()
    net.a, net.b = Parameter(ctx.const(torch.zeros(2))), Parameter(ctx.const(torch.zeros(1)))
    ga, gb = ctx.tensor("ga", (2,), lo=-4, hi=4), ctx.tensor("gb", (1,), lo=-4, hi=4)
    net.a.grad = ga.detach().clone()
    if not none:
        net.b.grad = gb.detach().clone()
    gs = [ga[0], ga[1]] + ([] if none else [gb[0]])
    if p == "none":
        n = clip_grad_norm(net, None)
        s = 0
        for g in gs:
            s = s + g * g
        ctx.check(n >= 0, "reported norm")
        ctx.check(and_((n * n - s) <= 1e-4, (n * n - s) >= -1e-4), "reported norm")
        ctx.teq(net.a.grad, ga, "small gradients untouched")
        ctx.check(True, "clipped to the limit")
        return
    m = 2.0
    n = clip_grad_norm(net, m, norm_type=math.inf if p == "inf" else 1.0)
    ab = [g.abs() for g in gs]
    if p == "inf":
        s = ab[0]
        for g in ab[1:]:
            s = torch.maximum(s, g)
    else:
        s = sum(ab[1:], ab[0])
    ctx.teq(n, s, "reported norm")
    after = [net.a.grad[0], net.a.grad[1]] + ([] if none else [net.b.grad[0]])
    for g, h in zip(gs, after):
        # the whole gradient is scaled by limit / norm, if above the limit (up to the 1e-6 that guards the division)
        if s <= m - 0.001:
            ctx.teq(h, g, "small gradients untouched")
        elif s >= m + 0.001:
            d = h * s - g * m
            ctx.check(and_(d <= 1e-4, d >= -1e-4), "clipped to the limit")
            ctx.check(h.abs() <= m, "clipped to the limit")


@harness(
    "gradient norms of 2..3 ranks, each an arbitrary number, inf or NaN",
    ["disagreement reported", "agreement accepted"],
    params=lambda t: grid(n=[2, 3]),
    tensor=True,
)
def norms_checked(ctx, n):
    kinds = [ctx.choice(f"kind{r}", ["real", "inf", "nan"]) for r in range(n)]
    v = [ctx.real(f"v{r}", 0, 100) if k == "real" else math.inf if k == "inf" else math.nan for r, k in enumerate(kinds)]
    sim = spmd.Sim(n, tensor=True)

    def run(r):
        g = spmd.gangs(sim, r, 1, 1)
        t = torch.tensor(v[r], dtype=torch.float32)
        try:
            check_grad_norms(t, g.dp, 1)
            return True
        except InconsistentGradNormError:
            return False

    out = sim.run(run)
    ctx.check(all(o == out[0] for o in out), "disagreement reported", "all ranks decide alike")
    fin = [k == "real" for k in kinds]
    if all(fin):
        far = or_(*[or_(v[r] > v[0] * (1 + Fraction(1, 100000)) + Fraction(1, 10000), v[r] < v[0] * (1 - Fraction(1, 100000)) - Fraction(1, 10000)) for r in range(1, n)])
        same = and_(*[v[r] == v[0] for r in range(1, n)])
        ctx.check(implies(far, not out[0]), "disagreement reported", f"{kinds}")
        ctx.check(implies(same, out[0]), "agreement accepted")
    elif any(fin):
        ctx.check(not out[0], "disagreement reported", f"{kinds}: finite on some ranks only")
    else:
        ctx.check(out[0], "agreement accepted", "all overflowed: handled by the loss scaler")


@harness("scale_grads / scale_grad: arbitrary tensors and factors", ["gradient scaled once", "forward unchanged"], tensor=True)
def scaled(ctx):
    x = ctx.tensor("x", (2,), lo=-4, hi=4).requires_grad_()
    c = ctx.choice("c", [0.0, 0.5, 2.0])
    y = scale_grad(x, c)
    ctx.teq(y, x, "forward unchanged")
    k = ctx.tensor("k", (2,), lo=-4, hi=4)
    (y * k).sum().backward()
    ctx.teq(x.grad, k * c, "gradient scaled once")
    net = Module()
    net.a = Parameter(ctx.const(torch.zeros(2)))
    net.b = Parameter(ctx.const(torch.zeros(2)))
    net.a.grad = k.detach().clone()
    scale_grads(net, c)
    ctx.teq(net.a.grad, k * c, "gradient scaled once")
    ctx.check(net.b.grad is None, "gradient scaled once")
