"""Banned tokens and repeats never appear in generated output."""
from symx.api import *

from fairseq2.generation.step_processor import BannedSequenceProcessor, NGramRepeatBlockProcessor

OUTSIDE = "vocabularies above 4 symbols, sequences above 5 tokens"
V = 4


def _probs(ctx, rows, lprob):
    p = ctx.tensor("p", (rows, V))
    for v in p.flatten().tolist():
        ctx.assume(v < 0 if lprob else v > 0)
    return p


def _verify(ctx, before, after, forbidden, lprob):
    """forbidden[b][v]: whether v would complete a forbidden sequence"""
    for b, row in enumerate(forbidden):
        for v, bad in enumerate(row):
            x, y = before[b, v].item(), after[b, v].item()
            gone = (isinstance(y, float) and y == float("-inf")) if lprob else y == 0
            if isinstance(bad, bool):
                ctx.check(gone if bad else (y == x if not T.special(y) else False), "impossible" if bad else "unchanged", f"row {b}, symbol {v}")
            elif T.special(y):
                ctx.check(bad, "unchanged", f"row {b}, symbol {v} removed")
            else:
                # on this path the entry was kept, or its value depends on the tokens
                ctx.check(implies(not_(bad), y == x), "unchanged", f"row {b}, symbol {v}")
                ctx.check(implies(bad, gone), "impossible", f"row {b}, symbol {v}")


def _cover(ctx):
    ctx.check(True, "impossible")
    ctx.check(True, "unchanged")


@harness(
    bounds="1..3 banned sequences of length 1..3 over 4 symbols, histories of 0..4 tokens, 1..2 rows, probabilities and log-probabilities; arbitrary tokens",
    labels=["impossible", "unchanged", "history kept"],
    params=lambda tier: [dict(lens=l, steps=s, rows=r) for l in ((1,), (2,), (3,), (1, 1), (1, 2), (2, 2), (3, 1), (2, 3), (1, 2, 3)) for s in (0, 1, 2, 4) for r in (1, 2) if not (r == 2 and (s != 2 or len(l) == 3 or (tier == "quick" and l not in ((2,), (3,), (1, 1))))) and (tier != "quick" or len(l) < 3 or s < 2)],
    tensor=True,
    max_paths=4000,
)
def banned(ctx, lens, steps, rows):
    lprob = ctx.flag("log_probabilities")
    seqs = [ctx.itensor(f"banned{i}", (n,), 0, V - 1) for i, n in enumerate(lens)]
    hist = ctx.itensor("history", (rows, steps), 0, V - 1)
    h0 = hist.clone()
    p = _probs(ctx, rows, lprob)
    before = p.clone()
    BannedSequenceProcessor([s.clone() for s in seqs])(hist, p, lprob=lprob)
    ctx.teq(hist, h0, "history kept")
    bad = []
    for b in range(rows):
        row = []
        for v in range(V):
            hits = []
            for s in seqs:
                t = s.tolist()
                k = len(t) - 1
                if k > steps:
                    continue
                hits.append(and_(t[-1] == v, *[t[i] == h0[b, steps - k + i].item() for i in range(k)]))
            row.append(or_(*hits) if hits else False)
        bad.append(row)
    _verify(ctx, before, p, bad, lprob)
    _cover(ctx)


@harness(
    bounds="n-gram sizes 1..4, histories of 0..5 tokens over 4 symbols, 1..2 rows, probabilities and log-probabilities; arbitrary tokens",
    labels=["impossible", "unchanged", "history kept"],
    params=lambda tier: [dict(n=n, steps=s, rows=r) for n in (1, 2, 3, 4) for s in (0, 1, 2, 3, 4, 5) for r in (1, 2) if not (r == 2 and s > 3) and (tier != "quick" or s <= {1: 3, 2: 4}.get(n, 5) and not (r == 2 and s > {1: 1, 2: 2}.get(n, 3)))],
    tensor=True,
    max_paths=6000,
)
def repeats(ctx, n, steps, rows):
    lprob = ctx.flag("log_probabilities")
    hist = ctx.itensor("history", (rows, steps), 0, V - 1)
    h0 = hist.clone()
    p = _probs(ctx, rows, lprob)
    before = p.clone()
    NGramRepeatBlockProcessor(n)(hist, p, lprob=lprob)
    ctx.teq(hist, h0, "history kept")
    bad = []
    for b in range(rows):
        row = h0[b].tolist()
        out = []
        for v in range(V):
            hits = []
            for i in range(steps - n + 1):  # an earlier n-gram that starts at i
                hits.append(and_(row[i + n - 1] == v, *[row[i + j] == row[steps - n + 1 + j] for j in range(n - 1)]))
            out.append(or_(*hits) if hits else False)
        bad.append(out)
    _verify(ctx, before, p, bad, lprob)
    _cover(ctx)


@harness(
    bounds="empty lists, empty sequences, n-gram size 0",
    labels=["nothing banned", "rejected"],
    params=lambda tier: [{}],
    tensor=True,
)
def degenerate(ctx):
    hist = ctx.itensor("history", (1, 2), 0, V - 1)
    p = _probs(ctx, 1, True)
    before = p.clone()
    BannedSequenceProcessor([])(hist, p, lprob=True)
    ctx.teq(p, before, "nothing banned")
    ctx.raises(ValueError, lambda: BannedSequenceProcessor([torch.tensor([1]), torch.tensor([], dtype=torch.int64)]), "rejected")
    ctx.raises(ValueError, lambda: NGramRepeatBlockProcessor(0), "rejected")
