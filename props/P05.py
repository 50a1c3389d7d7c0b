"""All ranks of a data-parallel run see the same number of batches."""
from symx.api import *
from symx.spmd import Sim, gangs

from fairseq2.data.data_pipeline import DataPipelineError
from fairseq2.datasets.data_reader import DataPipelineReader, DataReadError, SyncMode

OUTSIDE = "the native data pipeline (modelled as a list with a position and a state dictionary); more than 3 ranks; a rank whose pipeline fails while others wait"
ASSUMPTIONS = ["an exhausted pipeline iterator keeps raising StopIteration until reset"]


class Pipeline:
    """n batches (rank, k); n may be symbolic"""

    def __init__(self, rank, n, fail=None):
        self.rank, self.n, self.fail, self.pos = rank, n, fail, 0
        self.strict = []

    def __iter__(self):
        return self

    def __next__(self):
        if self.fail is not None and self.pos == self.fail:
            raise DataPipelineError("corrupt")
        if self.pos < self.n:
            self.pos += 1
            return (self.rank, self.pos - 1)
        raise StopIteration

    def reset(self, reset_rng=False):
        self.pos = 0

    def state_dict(self, strict=True):
        self.strict.append(strict)
        return {"pos": self.pos}

    def load_state_dict(self, sd, strict=True):
        self.pos = sd["pos"]


def drain(reader, limit=12):
    steps = []
    for x in reader:
        steps.append(list(x))
        if len(steps) > limit:
            raise AssertionError("no end of data")
    return steps


def verify(ctx, runs, n, A, drop, mode, sync, start=None):
    """runs[r]: the steps rank r saw; n[r] its number of batches, the first start[r] of them already consumed"""
    R = len(runs)
    start = start or [0] * R
    for r in range(R):
        flat = [b for s in runs[r] for b in s]
        ctx.check(flat == [(r, start[r] + k) for k in range(len(flat))], "batches in order, none skipped or repeated", f"{runs[r]}")
        ctx.check(all(len(s) <= A for s in runs[r]), "at most the configured number per step")
    if sync:
        ctx.check(len({len(x) for x in runs}) == 1, "same number of steps on every rank", f"{runs}")
    if sync and mode == SyncMode.UNTIL_FIRST:
        for s in zip(*runs):
            ctx.check(len({len(x) for x in s}) == 1, "same number of micro-batches in every step", f"{runs}")
            ctx.check(len(s[0]) > 0, "no empty step")
        m = n[0] - start[0]
        for r in range(1, R):
            m = smin(m, n[r] - start[r])
        got = sum(len(s) for s in runs[0])
        ctx.eq(got, m - mod(m, A) if drop else m, "everything the shortest rank has")
        for s in runs[0][:-1]:
            ctx.check(len(s) == A, "only the last step is short")
        if drop and runs[0]:
            ctx.check(len(runs[0][-1]) == A, "remainder dropped")
    else:
        for r in range(R):
            m = n[r] - start[r]
            ctx.eq(sum(len(s) for s in runs[r]), m - mod(m, A) if drop else m, "everything of every rank")
            full = [s for s in runs[r] if s]
            for s in full[:-1]:
                ctx.check(len(s) == A, "only the last step is short")
            ctx.check(runs[r][: len(full)] == full, "empty steps only after the end of a rank's data")
            if drop and full:
                ctx.check(len(full[-1]) == A, "remainder dropped")
        if sync:
            ctx.check(not runs[0] or any(len(x[-1]) > 0 for x in runs), "ends with the last rank")


COMMON = ["batches in order, none skipped or repeated", "at most the configured number per step", "same number of steps on every rank", "same number of micro-batches in every step", "no empty step", "everything the shortest rank has", "everything of every rank", "only the last step is short", "remainder dropped", "empty steps only after the end of a rank's data", "ends with the last rank"]


@harness(
    "1..3 ranks with 0..4 batches each (symbolic; thorough 0..5), 1..3 micro-batches per step, remainder dropped or kept, both synchronization modes and none; two passes with a reset between; model parallelism",
    COMMON + ["stays at the end", "starts over after reset"],
    params=lambda t: [{"R": r, "A": a, "drop": d, "mode": m} for r in (1, 2, 3) for a in (1, 2, 3) for d in (False, True) for m in ("first", "last", "none") if t != "quick" or r != 3 or m != "none" and a > 1],
)
def passes(ctx, R, A, drop, mode):
    top = 4 if R < 3 else 3
    n = [ctx.int(f"batches{r}", 0, top) for r in range(R)]
    tp = 2 if R == 2 and mode == "first" and A == 2 else 1
    sync = mode != "none"
    sm = SyncMode.UNTIL_LAST if mode == "last" else SyncMode.UNTIL_FIRST
    sim = Sim(R * tp)
    out = {}

    def run(me):
        d, t = divmod(me, tp)
        p = Pipeline(d, n[d])
        reader = DataPipelineReader(p, gangs(sim, me, tp), num_accumulate=A, drop_remainder=drop, sync=sync, sync_mode=sm)
        ctx.check(reader.num_accumulate == A, "at most the configured number per step")
        first = drain(reader)
        # the end is the end, without waiting for anybody
        try:
            next(reader)
            ctx.fail("stays at the end")
        except StopIteration:
            ctx.check(True, "stays at the end")
        reader.reset()
        out[me] = (first, drain(reader))

    sim.run(run)
    for t in range(tp):
        verify(ctx, [out[d * tp + t][0] for d in range(R)], n, A, drop, sm, sync and R > 1)
    for me in out:
        ctx.check(out[me][0] == out[me][1], "starts over after reset")
        ctx.check(out[me][0] == out[me - me % tp][0], "batches in order, none skipped or repeated")


@harness(
    "2 ranks with 0..5 batches, state saved after any step and restored into fresh readers, or a reset after any step",
    COMMON[:8] + ["restored position", "strictness passed on", "starts over after reset"],
    params=lambda t: [{"A": a, "drop": d, "mode": m, "how": h} for a in (1, 2) for d in (False, True) for m in ("first", "last") for h in ("restore", "restore in place", "reset")],
)
def resume(ctx, A, drop, mode, how):
    R, sync = 2, True
    n = [ctx.int(f"batches{r}", 0, 5) for r in range(R)]
    k = int(ctx.int("after step", 0, 3))
    strict = ctx.flag("strict")
    sm = SyncMode.UNTIL_LAST if mode == "last" else SyncMode.UNTIL_FIRST
    sim = Sim(R)
    out = {}

    def run(me):
        p = Pipeline(me, n[me])
        mk = lambda p: DataPipelineReader(p, gangs(sim, me), num_accumulate=A, drop_remainder=drop, sync=sync, sync_mode=sm, strict_state=strict)
        reader = mk(p)
        head = []
        ended = False
        for _ in range(k):
            try:
                head.append(next(reader))
            except StopIteration:
                ended = True
                break
        if how == "reset":
            reader.reset()
            out[me] = (head, drain(reader), 0)
            return
        sd = reader.state_dict()
        ctx.check(p.strict == [strict], "strictness passed on")
        pos = p.pos
        if how == "restore":
            reader = mk(Pipeline(me, n[me]))
        else:
            drain(reader)  # the reader reaches its end before it is restored
        reader.load_state_dict(sd)
        out[me] = (head, drain(reader), pos)

    sim.run(run)
    if how == "reset":
        verify(ctx, [out[r][1] for r in range(R)], n, A, drop, sm, sync)
        for r in range(R):
            ctx.check(out[r][1][: len(out[r][0])] == out[r][0], "starts over after reset")
        return
    verify(ctx, [out[r][1] for r in range(R)], n, A, drop, sm, sync, [out[r][2] for r in range(R)])
    for r in range(R):
        head = [b for s in out[r][0] for b in s]
        ctx.check(len(head) <= out[r][2] and out[r][2] <= k * A, "restored position")
        if len(out[r][0]) == k and all(len(s) == A for s in out[r][0]):
            ctx.eq(out[r][2], k * A, "restored position")


@harness("one rank, failure at any of 3 positions", ["read error reported", "batches before the failure delivered"])
def failure(ctx):
    at = int(ctx.int("fails at", 0, 2))
    A = int(ctx.int("num_accumulate", 1, 2))
    sim = Sim(1)
    reader = DataPipelineReader(Pipeline(0, 3, at), gangs(sim, 0), num_accumulate=A)
    got = []
    try:
        while True:
            got += next(reader)
    except DataReadError as ex:
        ctx.check(isinstance(ex.__cause__, DataPipelineError), "read error reported")
    except StopIteration:
        ctx.fail("read error reported")
    ctx.check(got == [(0, i) for i in range(at - at % A)], "batches before the failure delivered")
