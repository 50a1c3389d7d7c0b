"""Self-supervised masks and distractors select only valid positions."""
import itertools
from types import SimpleNamespace as NS

from symx.api import *

from fairseq2.models.wav2vec2 import masker as masker_mod
from fairseq2.models.wav2vec2 import model as model_mod
from fairseq2.nn import BatchLayout
from fairseq2.nn.utils import mask as mask_mod

OUTSIDE = "masking probabilities above 1; fewer than two masked positions (drawing a distractor is then an error); the distribution of the draws"
ASSUMPTIONS = ["the random generator returns values in [0, 1) and integers of the requested range"]

TOP = 1 - Fraction(1, 2**24)


class _Random:
    """torch with a random generator that returns arbitrary values"""

    def __init__(self, ctx):
        self.ctx, self.n = ctx, 0

    def __getattr__(self, name):
        return getattr(torch, name)

    def _real(self, shape):
        self.n += 1
        t = self.ctx.tensor(f"draw{self.n}", tuple(shape))
        for v in t.flatten().tolist():
            self.ctx.assume(and_(v >= 0, v <= TOP))
        return t

    def rand(self, *shape, **_):
        return self._real(shape[0] if isinstance(shape[0], (tuple, list, torch.Size)) else shape)

    def rand_like(self, x, **_):
        return self._real(x.shape)

    def randint(self, low=0, high=None, size=None, **_):
        self.n += 1
        self.last = self.ctx.itensor(f"draw{self.n}", tuple(size), low, high - 1)
        return self.last.clone()


def _stub(ctx, *modules):
    r = _Random(ctx)
    for m in modules:
        m.torch = r
    return r


def _restore(*modules):
    for m in modules:
        m.torch = torch


def _check(ctx, mask, lens, width, span, spans, what=""):
    """mask: (R, width) -> number of masked positions per row"""
    ctx.check(tuple(mask.shape) == (len(lens), width), "only real positions", f"shape {tuple(mask.shape)}")
    rows = [mask[r].tolist() for r in range(len(lens))]
    counts = []
    for r, (row, n) in enumerate(zip(rows, lens)):
        ctx.check(and_(*[not_(v) for v in row[n:]], True), "only real positions", f"{what} row {r} of length {n}")
        c = sum(ite(v, 1, 0) for v in row)
        counts.append(c)
        ctx.check(c < n, "at least one unmasked", f"{what} row {r}")
        fits = []
        for starts in itertools.combinations_with_replacement(range(n - span + 1), spans):
            covered = [any(s <= p < s + span for s in starts) for p in range(n)]
            fits.append(and_(*[iff(row[p], covered[p]) if len(lens) == 1 else implies(row[p], covered[p]) for p in range(n)]))
        ctx.check(or_(*fits), "inside spans", f"{what} row {r}")
        ctx.check(c >= (span if spans else 0), "inside spans", f"{what} row {r} has fewer masked positions than one span")
        ctx.check(c <= span * spans, "inside spans", f"{what} row {r} has more masked positions than its spans")
    for c in counts[1:]:
        ctx.check(c == counts[0], "equally many per row", what)
    return counts[0]


def _spans(prob, span, lens):
    return min(int(prob * (n - 1) / span) for n in lens)


@harness(
    bounds="2 rows of 4 steps (ragged or not) and 3 features, temporal spans of 1..2 steps, with and without spatial masking, arbitrary features and mask embedding, every draw",
    labels=["only real positions", "at least one unmasked", "inside spans", "equally many per row", "masked steps take the embedding", "extracted elements"],
    params=lambda tier: [c for c in grid(span=[1, 2], spatial=[False, True], lens=[None, (4, 3)]) if tier != "quick" or not (c["spatial"] and c["span"] == 1 and not c["lens"])],
    tensor=True,
)
def masker(ctx, span, spatial, lens):
    D, S = 3, 4
    prob = 0.75 if span == 1 else 1.0
    m = masker_mod.StandardWav2Vec2Masker(D, span, prob, 1, 1, 0.5 if spatial else 0.0, 1)
    ctx.params(m)
    layout = BatchLayout((2, S), list(lens) if lens else None)
    x = ctx.tensor("seqs", (2, S, D))
    before = x.clone()
    _stub(ctx, mask_mod)
    try:
        y, mask = m(x, layout)
    finally:
        _restore(mask_mod)
    real = list(lens or (S, S))
    _check(ctx, mask, real, S, span, _spans(Fraction(prob), span, real))
    emb = m.temporal_mask_embed
    bits = [[bool(v) for v in mask[b].tolist()] for b in range(2)]
    want = torch.stack([torch.stack([emb if bits[b][s] else before[b, s] for s in range(S)]) for b in range(2)])
    if not spatial:
        ctx.teq(y, want, "masked steps take the embedding")
    else:
        for b in range(2):  # exactly one feature is zero in all steps
            kept = [and_(*[y[b, s, d].item() == want[b, s, d].item() for s in range(S)]) for d in range(D)]
            zero = [and_(*[y[b, s, d].item() == 0 for s in range(S)]) for d in range(D)]
            ctx.check(or_(*[and_(zero[d], *[kept[e] for e in range(D) if e != d]) for d in range(D)]), "masked steps take the embedding", f"one feature of row {b} is masked")
    got = masker_mod.Wav2Vec2Masker.extract_masked_elements(before, mask)
    ctx.teq(got, torch.stack([torch.stack([before[b, s] for s in range(S) if bits[b][s]]) for b in range(2)]), "extracted elements")


@harness(
    bounds="1..2 rows of width 4..5 with arbitrary lengths above the span length, span lengths 1..2, probabilities 1/2, 3/4 and 1, every draw",
    labels=["only real positions", "at least one unmasked", "inside spans", "equally many per row", "too short rows rejected", "too few spans rejected"],
    params=lambda tier: [dict(rows=r, width=w, span=s, prob=p) for r, w in ((2, 4), (1, 5), *(((2, 5),) if tier != "quick" else ())) for s in (1, 2) for p in (1.0, 0.75, 0.5)],
    tensor=True,
)
def row_mask(ctx, rows, width, span, prob):
    given = ctx.flag("lengths_given")
    lens = [int(ctx.int(f"len{r}", span + 1, width)) if given else width for r in range(rows)]
    spans = _spans(Fraction(prob), span, lens)
    _stub(ctx, mask_mod)
    try:
        least = int(ctx.int("min_num_spans", 0, spans + 1))
        call = lambda le=least, ln=lens, sp=span: mask_mod.compute_row_mask((rows, width), sp, prob, torch.tensor(ln) if given else None, le)
        if least > spans:
            ctx.raises(ValueError, call, "too few spans rejected")
            return
        mask = call()
        ctx.raises(ValueError, lambda: call(0, [width] * (rows - 1) + [span] if given else lens, span if given else width), "too short rows rejected")
    finally:
        _restore(mask_mod)
    _check(ctx, mask, lens, width, span, spans)
    if rows == 1:
        ctx.check(True, "equally many per row")


@harness(
    bounds="2 rows of 2..3 masked positions (thorough: 4) and 1..2 distractors, every draw",
    labels=["other positions of the row", "every position can be drawn"],
    params=lambda tier: grid(masked=[2, 3] if tier == "quick" else [2, 3, 4], num=[1, 2]),
    tensor=True,
)
def distractors(ctx, masked, num):
    targets = torch.arange(2 * masked * 2).reshape(2, masked, 2).float()
    r = _stub(ctx, model_mod)
    try:
        got = model_mod.Wav2Vec2Model._sample_distractors(NS(num_distractors=num), targets)
    finally:
        _restore(model_mod)
    ctx.check(tuple(got.shape) == (2, masked, num, 2), "other positions of the row", f"shape {tuple(got.shape)}")
    for b in range(2):
        for s in range(masked):
            for k in range(num):
                v = got[b, s, k].tolist()
                ctx.check(or_(*[and_(v[0] == targets[b, j, 0].item(), v[1] == targets[b, j, 1].item()) for j in range(masked) if j != s]), "other positions of the row", f"row {b}, position {s}")
    # equal draws of a position give equal distractors and different draws different ones
    draw = r.last
    for b in range(2):
        for s in range(masked):
            if num > 1:
                same = draw[b, s * num].item() == draw[b, s * num + 1].item()
                ctx.check(iff(same, got[b, s, 0, 0].item() == got[b, s, 1, 0].item()), "every position can be drawn", f"row {b}, position {s}")
            ctx.check(implies(draw[b, s * num].item() == 0, got[b, s, 0, 0].item() == targets[b, 1 if s == 0 else 0, 0].item()), "every position can be drawn")


@harness(
    bounds="1 row of 2 masked positions, 2 distractors, features of size 2 with arbitrary values, any temperature",
    labels=["the target is first", "copies of the target are excluded"],
    params=lambda tier: grid(temp=[1.0, 0.5]),
    tensor=True,
)
def candidates(ctx, temp):
    seqs, targets, distr = ctx.tensor("seqs", (1, 2, 2)), ctx.tensor("targets", (1, 2, 2)), ctx.tensor("distractors", (1, 2, 2, 2))
    got = model_mod.Wav2Vec2Model._compute_logits(NS(logit_temp=temp), seqs, targets, distr)
    ctx.check(tuple(got.shape) == (1, 2, 3), "the target is first", f"shape {tuple(got.shape)}")
    for s in range(2):
        want = torch.cosine_similarity(seqs[0, s], targets[0, s], dim=-1) / temp
        ctx.eq(got[0, s, 0].item(), want.item(), "the target is first", f"position {s}")
        for k in range(2):
            same = and_(*[distr[0, s, k, d].item() == targets[0, s, d].item() for d in range(2)])
            v = got[0, s, k + 1].item()
            if bool(same):
                ctx.check(v == -math.inf, "copies of the target are excluded", f"position {s}")
            else:
                ctx.eq(v, (torch.cosine_similarity(seqs[0, s], distr[0, s, k], dim=-1) / temp).item(), "the target is first", f"distractor {k}")
