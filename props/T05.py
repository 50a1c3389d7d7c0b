"""Aggregated metrics equal the metrics of all data seen since the last reset."""
import types

from symx import spmd
from symx.api import *

from fairseq2.device import CPU
from fairseq2.error import InvalidOperationError, StateDictError
from fairseq2.metrics import common
from fairseq2.metrics.aggregation import Max, Mean, Min, Sum
from fairseq2.metrics.bag import MetricBag, sync_and_compute_metrics

OUTSIDE = "the transport torcheval uses to exchange metric states (modelled: every rank receives an exact copy of every rank's states); rounding of float64 sums; metric formatting"
ASSUMPTIONS = ["all ranks hold the same metrics", "throughput of synchronized ranks is the total work over the slowest rank's time, as torcheval documents"]


from props._metrics import dist_model, num


def ints(ctx, name, lo=0, hi=1000):
    return ctx.int(name, lo, hi)


# kind -> (add function, drawing of one update -> (apply, {metric: contribution}))
SEQ = ["num_examples", "num_elements", "num_target_elements", "padding"]
SEQ2 = ["num_examples", "num_elements", "num_source_elements", "num_target_elements", "padding"]


class Kind:
    """one family of metrics: how to add it, draw an update and what the value must be"""

    def __init__(self, name):
        self.name = name

    def add(self, bag):
        n = self.name
        if n == "nll":
            common.add_nll_loss_metric(bag)
        elif n == "seq":
            common.add_seq_batch_metrics(bag)
        elif n == "seq2seq":
            common.add_seq2seq_batch_metrics(bag)
        elif n == "gen":
            common.add_seq_generator_metrics(bag)
        elif n == "gen2":
            common.add_seq2seq_generator_metrics(bag)
        else:
            bag.add("lo", Min())
            bag.add("hi", Max())
            bag.add("avg", Mean())
            bag.add("sum", Sum())

    def draw(self, ctx, tag, light=False):
        n = self.name
        if light:
            if n == "nll":
                return {"loss": ctx.real(f"loss{tag}", -100, 100), "n": ctx.choice(f"n{tag}", [None, 7])}
            if n == "plain":
                return {"x": ctx.real(f"x{tag}", -100, 100), "w": 3, "plain": True}
        if n == "nll":
            d = {"loss": ctx.real(f"loss{tag}", -100, 100), "n": ctx.choice(f"how{tag}", ["none", "some", "zero"] if tag.startswith(".0") else ["some", "zero"])}
            if d["n"] == "some":
                d["n"] = 7 if tag.startswith(".0") else 1
            elif d["n"] == "zero":
                # the loss of no targets is an empty sum
                d["n"], d["loss"] = 0, 0.0
            else:
                d["n"] = None
            return d
        if n in ("seq", "seq2seq"):
            return {k: ints(ctx, f"{k}{tag}") for k in (SEQ if n == "seq" else SEQ2)}
        if n in ("gen", "gen2"):
            d = {k: ints(ctx, f"{k}{tag}") for k in ["prefill", "gen", "size", "cap"]}
            d["time"] = ctx.real(f"time{tag}", Fraction(1, 8), 100)
            d["ex"] = 0 if tag.startswith(".1") else 3
            if n == "gen2":
                d["src"] = ints(ctx, f"src{tag}")
            return d
        return {"x": ctx.real(f"x{tag}", -100, 100), "w": ctx.choice(f"w{tag}", [0, 3]), "plain": tag.endswith(".0")}

    def update(self, bag, d):
        n = self.name
        if n == "nll":
            common.update_nll_loss_metric(bag, torch.tensor(d["loss"]), d["n"])
        elif n in ("seq", "seq2seq"):
            (common.update_seq_batch_metrics if n == "seq" else common.update_seq2seq_batch_metrics)(bag, types.SimpleNamespace(**d))
        elif n in ("gen", "gen2"):
            out = types.SimpleNamespace(
                hypotheses=[None] * d["ex"],
                counters=types.SimpleNamespace(prefill_size=d["prefill"], num_generated_elements=d["gen"], generation_time=d["time"], cache_size=d["size"], cache_capacity=d["cap"]),
            )
            if n == "gen":
                common.update_seq_generator_metrics(bag, out)
            else:
                common.update_seq2seq_generator_metrics(bag, out, d["src"])
        else:
            v = d["x"] if d["plain"] else torch.tensor(d["x"])
            bag.get("lo", Min).update(v)
            bag.get("hi", Max).update(v)
            bag.get("avg", Mean).update(v, weight=d["w"])
            bag.get("sum", Sum).update(v, weight=d["w"])

    def expected(self, per_rank):
        """per_rank: one list of drawn updates per rank"""
        ds = [d for r in per_rank for d in r]
        n = self.name

        def tot(f):
            return sum([f(d) for d in ds], 0)

        if n == "nll":
            w = tot(lambda d: 1 if d["n"] is None else d["n"])
            return {"nll_loss": tot(lambda d: d["loss"]) / w if w else 0}
        if n in ("seq", "seq2seq"):
            ks = SEQ if n == "seq" else SEQ2
            e = {k: tot(lambda d: d[k]) for k in ks}
            e.update({"total_" + k: e[k] for k in ks if k != "padding"})
            return e
        if n in ("gen", "gen2"):
            els = tot(lambda d: d["prefill"] + d["gen"] + d.get("src", 0))
            e = {"num_examples": tot(lambda d: d["ex"]), "num_elements": els, "generator_prefill_size": tot(lambda d: d["prefill"]), "generator_num_elements": tot(lambda d: d["gen"])}
            e["total_num_examples"], e["total_num_elements"] = e["num_examples"], els
            if n == "gen2":
                e["num_source_elements"] = tot(lambda d: d["src"])
            slow = 0
            for r in per_rank:
                slow = max(slow, sum([d["time"] for d in r], 0))
            e["generator_elements_per_second"] = tot(lambda d: d["gen"]) / slow if ds else 0
            if ds:
                for k, s in (("generator_cache_size", "size"), ("generator_cache_capacity", "cap")):
                    m = ds[0][s]
                    for d in ds[1:]:
                        m = smax(m, d[s])
                    e[k] = m
            return e
        w = tot(lambda d: d["w"])
        e = {"sum": tot(lambda d: d["x"] * d["w"]), "avg": tot(lambda d: d["x"] * d["w"]) / w if w else 0}
        if ds:
            lo = hi = ds[0]["x"]
            for d in ds[1:]:
                lo, hi = smin(lo, d["x"]), smax(hi, d["x"])
            e["lo"], e["hi"] = lo, hi
        return e


def compare(ctx, label, values, expected):
    for k, e in expected.items():
        ctx.eq(num(values[k]), e, label, k)


KINDS = ["nll", "seq", "seq2seq", "gen", "gen2", "plain"]


@harness(
    "two ranks with 0..2 updates each of arbitrary values (any loss, any number of targets including none, any counts), a second synchronization after another update or after a reset; every family of metrics",
    ["synchronized value", "after further updates", "after a reset"],
    params=lambda t: grid(kind=KINDS, counts=[(2, 1), (1, 1), (0, 2), (0, 0)] + ([(2, 2), (1, 0), (3, 1)] if t == "thorough" else [])),
    tensor=True,
)
def sync(ctx, kind, counts):
    k = Kind(kind)
    first = [[k.draw(ctx, f".{r}.{i}") for i in range(counts[r])] for r in range(2)]
    reset = ctx.flag("reset") if counts != (2, 1) else False
    more = [k.draw(ctx, ".0.more")]
    sim = spmd.Sim(2, tensor=True)

    def main(me):
        gang = sim.gang(me)
        bag = MetricBag(device=CPU)
        k.add(bag)
        for d in first[me]:
            k.update(bag, d)
        one = sync_and_compute_metrics(bag, gang)
        if reset:
            bag.reset_metrics()
        if me == 0:
            for d in more:
                k.update(bag, d)
        return one, sync_and_compute_metrics(bag, gang)

    with dist_model():
        res = sim.run(main)
    for one, two in res:
        compare(ctx, "synchronized value", one, k.expected(first))
        base = [[], []] if reset else first
        compare(ctx, "after a reset" if reset else "after further updates", two, k.expected([base[0] + more, base[1]]))


@harness(
    "one process: every sequence of up to 4 (thorough 5) operations begin, commit, roll back, update, reset, save, restore; arbitrary update values",
    ["value equals the updates that count", "misplaced operations rejected", "a saved state stays as saved"],
    params=lambda t: grid(kind=["nll", "plain"] + (["gen"] if t == "thorough" else []), first=["begin", "update", "save"], depth=[5] if t == "thorough" else [4]),
    tensor=True,
)
def transactions(ctx, kind, first, depth):
    k = Kind(kind)
    bag = MetricBag(device=CPU)
    k.add(bag)
    cur, orig, saved = [], None, None
    updates = 0
    for step in range(depth):
        ops = ["begin", "commit", "rollback", "save", "reset"]
        if updates < (3 if depth > 4 else 2):
            ops.append("update")
        if saved is not None:
            ops.append("restore")
        op = first if step == 0 else ctx.choice(f"op{step}", ops)
        if op == "update":
            d = k.draw(ctx, f".{updates}", light=True)
            updates += 1
            k.update(bag, d)
            cur = cur + [d]
        elif op == "begin":
            if orig is not None:
                ctx.raises(InvalidOperationError, bag.begin_updates, "misplaced operations rejected")
            else:
                bag.begin_updates()
                orig = cur
        elif op in ("commit", "rollback"):
            f = bag.commit_updates if op == "commit" else bag.rollback_updates
            if orig is None:
                ctx.raises(InvalidOperationError, f, "misplaced operations rejected")
            else:
                f()
                if op == "rollback":
                    cur = orig
                orig = None
        elif op == "reset":
            bag.reset_metrics()
            cur = []
        elif op == "save":
            saved = (bag.state_dict(), cur)
        else:
            bag.load_state_dict(saved[0])
            cur = saved[1]
    compare(ctx, "value equals the updates that count", sync_and_compute_metrics(bag, spmd.Sim(1).gang(0)), k.expected([cur]))
    if saved is not None:
        other = MetricBag(device=CPU)
        k.add(other)
        other.load_state_dict(saved[0])
        compare(ctx, "a saved state stays as saved", sync_and_compute_metrics(other, spmd.Sim(1).gang(0)), k.expected([saved[1]]))


@harness(
    "restoring into a bag: every subset of two metrics' states present, optionally an unknown metric, optionally a state of the wrong kind; adding and getting metrics by name and type",
    ["restored", "mismatch raised", "names and types"],
    params=lambda t: grid(extra=[False, True], bad=["none", "type", "keys"]),
    tensor=True,
)
def restore(ctx, extra, bad):
    x = ctx.real("x", -100, 100)
    y = ctx.real("y", -100, 100)
    src = MetricBag(device=CPU)
    src.add("a", Sum())
    src.add("b", Mean())
    ctx.raises(ValueError, lambda: src.add("a", Max()), "names and types")
    ctx.raises(ValueError, lambda: src.get("c", Sum), "names and types")
    ctx.raises(TypeError, lambda: src.get("a", Mean), "names and types")
    src.get("a", Sum).update(torch.tensor(x))
    src.get("b", Mean).update(torch.tensor(y), weight=2)
    full = src.state_dict()
    present = [n for n in ("a", "b") if ctx.flag(f"has.{n}")]
    sd = {n: full[n] for n in present}
    if extra:
        sd["c"] = full["a"]
    if bad != "none" and "b" in sd:
        sd["b"] = 3 if bad == "type" else {"zz": torch.zeros(())}
    ok = len(present) == 2 and not extra and bad == "none"
    dst = MetricBag(device=CPU)
    dst.add("a", Sum())
    dst.add("b", Mean())
    try:
        dst.load_state_dict(sd)
    except StateDictError:
        ctx.check(not ok, "mismatch raised", "a matching state was rejected")
        return
    ctx.check(ok, "mismatch raised", f"{sorted(sd)} accepted")
    v = sync_and_compute_metrics(dst, spmd.Sim(1).gang(0))
    ctx.eq(num(v["a"]), x, "restored")
    ctx.eq(num(v["b"]), y, "restored")
