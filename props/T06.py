"""Validation, evaluation and generation process every batch exactly once."""
import types

from symx import spmd
from symx.api import *
from torch.nn import Linear

from props._metrics import dist_model, num, symbolic_float
from fairseq2.checkpoint import NOOP_HG_EXPORTER
from fairseq2.error import InternalError, InvalidOperationError
from fairseq2.evaluator import EvalUnit, Evaluator
from fairseq2.generator import Generator, GeneratorUnit
from fairseq2.metrics.aggregation import Mean, Sum
from fairseq2.metrics.recorders import NOOP_METRIC_DESCRIPTOR, MetricDescriptor
from fairseq2.profilers import NOOP_PROFILER
from fairseq2.task import TaskStopException
from fairseq2.utils.device_stat import NOOP_DEVICE_STAT_TRACKER
from fairseq2.utils.progress import NOOP_PROGRESS_REPORTER
from fairseq2.utils.stopwatch import Stopwatch
import fairseq2.validator as validator_mod
from fairseq2.validator import StandardValidator

OUTSIDE = "the transport torcheval uses to exchange metric states (as in T05); elapsed-time values; more than two units or data-parallel ranks"
ASSUMPTIONS = ["all data-parallel ranks read the same number of steps (P05)", "a validator runs in the mode its trainer put the model in (T01)"]


class Boom(Exception):
    pass


class Batch:
    def __init__(self, ident, val, weight, log):
        self.ident, self.val, self.weight, self.log, self.at = ident, val, weight, log, None

    def to(self, device, *, non_blocking=False):
        self.at = device


class Reader:
    def __init__(self, steps):
        self.steps, self.pos, self.resets = steps, 0, 0

    def __iter__(self):
        return self

    def __next__(self):
        if self.pos == len(self.steps):
            raise StopIteration
        self.pos += 1
        return list(self.steps[self.pos - 1])

    def reset(self):
        self.pos = 0
        self.resets += 1


class Recorder:
    def __init__(self):
        self.out, self.closed = [], False

    def record_metric_values(self, category, values, step_nr=None):
        self.out.append((category, dict(values), step_nr))

    def close(self):
        self.closed = True


def make_unit(base, name, log, hook, model, scored=True):
    class Unit(base):
        step = None

        def prepare_metric_bag(self, bag):
            if scored:
                bag.add("m", Mean())
            bag.add("s", Sum())
            bag.add("total_s", Sum())

        def set_train_step_nr(self, n):
            self.step = n

        def process_batch(self, batch, bag):
            log.append(("batch", name, batch.ident, self.step, str(batch.at), torch.is_autocast_enabled("cpu"), torch.is_inference_mode_enabled(), model.training))
            hook(len([e for e in log if e[0] == "batch"]))
            if scored:
                bag.get("m", Mean).update(torch.tensor(batch.val), weight=batch.weight)
            bag.get("s", Sum).update(torch.tensor(batch.val))
            bag.get("total_s", Sum).update(torch.tensor(batch.val))

        def finalize(self, bag):
            log.append(("finalize", name))

        def process_metric_values(self, values):
            log.append(("values", name))
            values["extra"] = values["s"] + 1

    if base is EvalUnit:
        Unit.name = property(lambda self: name)
    return Unit()


SHAPES = {"0": [], "1": [1], "2": [1, 1], "1+2": [1, 2], "2+1": [2, 1]}


def data(ctx, unit, dp, shape, tag=""):
    """steps of micro-batches, with arbitrary values and weights"""
    steps = []
    for i, n in enumerate(SHAPES[shape]):
        steps.append([(f"u{unit}.r{dp}.{i}.{j}", ctx.real(f"v{tag}.{unit}.{dp}.{i}.{j}", -50, 50), 1 + (i + j + dp) % 3) for j in range(n)])
    return steps


def expected(per_rank):
    bs = [b for r in per_rank for s in r for b in s]
    w = sum(b[2] for b in bs)
    tot = sum([b[1] for b in bs], 0)
    return {"m": sum([b[1] * b[2] for b in bs], 0) / w if w else 0, "s": tot, "extra": tot + 1}


def check_values(ctx, label, values, exp, scored=True):
    for k, e in exp.items():
        if k != "m" or scored:
            ctx.eq(num(values[k]), e, label, k)
    ctx.check("total_s" not in values, label, "running totals are not reported")


def check_log(ctx, label, log, units, steps, extra):
    want = []
    for u, st in zip(units, steps):
        want += [("batch", u, b[0]) for s in st for b in s] + [("finalize", u)]
    got = [e[:3] if e[0] == "batch" else e for e in log if e[0] != "values"]
    ctx.check(got == want, label, f"{got} instead of {want}")
    for e in log:
        if e[0] == "batch":
            ctx.check(e[3:] == extra, label, f"batch processed with step, device, autocast, inference mode, training = {e[3:]}, expected {extra}")


def run_on(ctx, dp, tp, body):
    """body(gangs) on every rank; result by (data-parallel rank, tensor-parallel rank)"""
    sim = spmd.Sim(dp * tp, tensor=True)
    with dist_model(), symbolic_float(validator_mod):
        res = sim.run(lambda me: body(spmd.gangs(sim, me, tp=tp)))
    return res


def validator(model, units, readers, gangs, rec, desc, mgr, amp=False):
    return StandardValidator(
        units=units,
        data_readers=readers,
        gangs=gangs,
        amp=amp,
        amp_dtype=torch.bfloat16,
        score_metric_descriptor=desc,
        checkpoint_manager=mgr,
        hg_exporter=NOOP_HG_EXPORTER,
        metric_recorder=rec,
        profiler=NOOP_PROFILER,
        device_stat_tracker=NOOP_DEVICE_STAT_TRACKER,
        wall_watch=Stopwatch(),
        progress_reporter=NOOP_PROGRESS_REPORTER,
        seed=3,
    )


def manager(scores=()):
    return types.SimpleNamespace(maybe_complete_save_operation=lambda **k: None, load_scores=lambda: list(scores))


def descriptor(which):
    if which == "none":
        return NOOP_METRIC_DESCRIPTOR
    return MetricDescriptor("m", "M", 1, str, higher_better=which == "up")


@harness(
    "one or two validation units with 0..2 steps of 1..2 micro-batches of arbitrary values, 1..2 data-parallel and 1..2 tensor-parallel ranks, score metric absent, larger or smaller better, reported by both units or one; run, reset, run again",
    ["every batch once in order", "metrics of these batches only", "score", "second run starts afresh", "reset required"],
    params=lambda t: grid(shapes=[("1+2", "1"), ("2", "0"), ("0", "2+1"), ("1",)], ranks=[(1, 1), (2, 1), (1, 2)] + ([(2, 2)] if t == "thorough" else []), score=["none", "up", "down"]),
    tensor=True,
)
def validate(ctx, shapes, ranks, score):
    dp, tp = ranks
    n = len(shapes)
    scored = [True, ctx.flag("second_scored")][:n]
    steps = [[data(ctx, u, r, shapes[u]) for r in range(dp)] for u in range(n)]
    train = ctx.flag("train_mode")
    names = ["a", None][:n] if ctx.flag("unnamed") else ["a", "b"][:n]

    def body(gangs):
        model = Linear(1, 1).train(train)
        log, rec = [], Recorder()
        mine = [steps[u][gangs.dp.rank] for u in range(n)]
        units = [make_unit(EvalUnit, names[u], log, lambda k: None, model, scored[u]) for u in range(n)]
        readers = [Reader([[Batch(*b, log) for b in s] for s in st]) for st in mine]
        v = validator(model, units, readers, gangs, rec, descriptor(score), manager())
        first = v.run(7)
        ctx.check(not ctx_raises_not(v), "reset required")
        cut = len(log)
        v.reset()
        second = v.run(9)
        return mine, log[:cut], log[cut:], rec, first, second, gangs, model.training

    def ctx_raises_not(v):
        try:
            v.run(8)
        except InvalidOperationError:
            return False
        return True

    res = run_on(ctx, dp, tp, body)
    for mine, log1, log2, rec, first, second, gangs, mode in res:
        check_log(ctx, "every batch once in order", log1, names, mine, (7, "cpu", False, True, train))
        check_log(ctx, "every batch once in order", log2, names, mine, (9, "cpu", False, True, train))
        ctx.check(mode == train, "every batch once in order", "model mode changed")
        exp = [expected(steps[u]) for u in range(n)]
        if gangs.root.rank != 0:
            ctx.check(not rec.out, "metrics of these batches only", "recorded by another rank")
            continue
        ctx.check([(c, s) for c, _, s in rec.out] == [("valid" if names[u] is None else f"valid/{names[u]}", k) for k in (7, 9) for u in range(n)], "metrics of these batches only", f"{[(c, s) for c, _, s in rec.out]}")
        for i, (_, values, _) in enumerate(rec.out):
            check_values(ctx, "metrics of these batches only" if i < n else "second run starts afresh", values, exp[i % n], scored[i % n])
        for got in (first, second):
            if score == "none":
                ctx.check(got is None, "score")
            else:
                tot = sum([exp[u]["m"] for u in range(n) if scored[u]], 0)
                ctx.eq(got, tot if score == "up" else -tot, "score")


@harness(
    "no unit reports the score metric; a failure of processing at any batch, then reset and another run; mixed precision on or off",
    ["missing score rejected", "failure propagates", "second run starts afresh", "autocast as configured", "random state restored"],
    params=lambda t: grid(shape=["1+2", "2", "0"], amp=[False, True]),
    tensor=True,
)
def validate_faults(ctx, shape, amp):
    with symbolic_float(validator_mod):
        _validate_faults(ctx, shape, amp)


def _validate_faults(ctx, shape, amp):
    steps = data(ctx, 0, 0, shape)
    total = sum(SHAPES[shape])
    fail = ctx.choice("fail", [None] + list(range(1, total + 1)))
    scored = ctx.flag("scored")
    log, rec = [], Recorder()
    armed = [fail is not None]

    def hook(k):
        ctx.check(torch.initial_seed() == 3, "random state restored", "the pass runs with its own seed")
        if armed[0] and k == fail:
            raise Boom()

    model = Linear(1, 1)
    unit = make_unit(EvalUnit, "a", log, hook, model, scored)
    reader = Reader([[Batch(*b, log) for b in s] for s in steps])
    v = validator(model, [unit], [reader], spmd.gangs(spmd.Sim(1), 0), rec, descriptor("up"), manager(), amp)
    torch.manual_seed(11)
    before = torch.default_generator.get_state()
    try:
        v.run(1)
        ctx.check(fail is None and scored, "missing score rejected" if fail is None else "failure propagates")
    except Boom:
        ctx.check(fail is not None, "failure propagates")
        ctx.check(not rec.out, "failure propagates", "metrics of an incomplete pass were recorded")
    except InternalError:
        ctx.check(fail is None and not scored, "missing score rejected")
    ctx.check(bool(torch.equal(before, torch.default_generator.get_state())), "random state restored")
    if not scored:
        return
    armed[0] = False
    del log[:], rec.out[:]
    v.reset()
    s = v.run(2)
    check_log(ctx, "autocast as configured", log, ["a"], [steps], (2, "cpu", amp, True, True))
    check_values(ctx, "second run starts afresh", rec.out[0][1], expected([steps]))
    ctx.eq(s, expected([steps])["m"], "second run starts afresh")


def task(kind, model, units, readers, gangs, rec, amp=False):
    kw = dict(
        model=model,
        gangs=gangs,
        amp=amp,
        amp_dtype=torch.bfloat16,
        metric_recorder=rec,
        profiler=NOOP_PROFILER,
        device_stat_tracker=NOOP_DEVICE_STAT_TRACKER,
        wall_watch=Stopwatch(),
        progress_reporter=NOOP_PROGRESS_REPORTER,
        seed=3,
    )
    if kind == "eval":
        return Evaluator(units=units, data_readers=readers, **kw)
    return Generator(unit=units[0], data_reader=readers[0], **kw)


def category(kind, name):
    return "generation" if kind == "gen" else f"eval/{name}" if name else "eval"


@harness(
    "an evaluation (one or two units) or a generation over 0..2 steps of 1..2 micro-batches of arbitrary values, 1..2 data-parallel and 1..2 tensor-parallel ranks, mixed precision on or off",
    ["every batch once in order", "metrics of these batches only", "runs once"],
    params=lambda t: grid(kind=["eval", "gen"], shapes=[("1+2", "1"), ("2", "0"), ("0", "2+1")], ranks=[(1, 1), (2, 1), (1, 2)] + ([(2, 2)] if t == "thorough" else []), amp=[False, True]),
    tensor=True,
)
def tasks(ctx, kind, shapes, ranks, amp):
    dp, tp = ranks
    n = 1 if kind == "gen" else 2
    steps = [[data(ctx, u, r, shapes[u]) for r in range(dp)] for u in range(n)]
    names = ["a", None][:n]

    def body(gangs):
        model = Linear(1, 1)
        log, rec = [], Recorder()
        mine = [steps[u][gangs.dp.rank] for u in range(n)]
        units = [make_unit(EvalUnit if kind == "eval" else GeneratorUnit, names[u], log, lambda k: None, model) for u in range(n)]
        readers = [Reader([[Batch(*b, log) for b in s] for s in st]) for st in mine]
        t = task(kind, model, units, readers, gangs, rec, amp)
        t.run()
        try:
            t.run()
            again = True
        except InvalidOperationError:
            again = False
        return mine, log, rec, gangs, t.step_nr, again

    for mine, log, rec, gangs, nr, again in run_on(ctx, dp, tp, body):
        check_log(ctx, "every batch once in order", log, names, mine, (None, "cpu", amp, True, False))
        ctx.check(nr == sum(len(st) for st in mine), "every batch once in order", f"step number {nr}")
        ctx.check(not again, "runs once")
        if gangs.root.rank != 0:
            ctx.check(not rec.out, "metrics of these batches only", "recorded by another rank")
            continue
        ctx.check([c for c, _, _ in rec.out] == [category(kind, x) for x in names], "metrics of these batches only", f"{[c for c, _, _ in rec.out]}")
        for u, (_, values, _) in enumerate(rec.out):
            check_values(ctx, "metrics of these batches only", values, expected(steps[u]))


@harness(
    "a stop request or a failure at any batch of an evaluation or generation with three micro-batches",
    ["stops before the next step", "failure propagates", "nothing recorded", "random state restored"],
    params=lambda t: grid(kind=["eval", "gen"], what=["stop", "fail"]),
    tensor=True,
)
def interruptions(ctx, kind, what):
    steps = data(ctx, 0, 0, "1+2")
    at = ctx.choice("at", [0, 1, 2, 3] if what == "stop" else [1, 2, 3])
    log, rec = [], Recorder()

    def hook(k):
        if k == at:
            if what == "fail":
                raise Boom()
            t.request_stop()

    model = Linear(1, 1)
    unit = make_unit(EvalUnit if kind == "eval" else GeneratorUnit, "a", log, hook, model)
    t = task(kind, model, [unit], [Reader([[Batch(*b, log) for b in s] for s in steps])], spmd.gangs(spmd.Sim(1), 0), rec)
    if what == "stop" and at == 0:
        t.request_stop()
    torch.manual_seed(11)
    before = torch.default_generator.get_state()
    ctx.raises(TaskStopException if what == "stop" else Boom, t.run, "stops before the next step" if what == "stop" else "failure propagates")
    done = len([e for e in log if e[0] == "batch"])
    # a step that has begun is finished
    ctx.check(done == ({0: 0, 1: 1, 2: 3, 3: 3}[at] if what == "stop" else at), "stops before the next step" if what == "stop" else "failure propagates", f"{done} batches")
    ctx.check(not rec.out and not [e for e in log if e[0] == "finalize"], "nothing recorded")
    ctx.check(bool(torch.equal(before, torch.default_generator.get_state())), "random state restored")
    t.close()
    ctx.check(rec.closed, "nothing recorded", "recorder closed")
