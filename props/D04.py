"""Random span masks respect lengths and the requested proportion."""
from unittest.mock import patch

from symx.api import *

import fairseq2.nn.utils.mask as mask_mod
from fairseq2.models.wav2vec2.masker import StandardWav2Vec2Masker, Wav2Vec2Masker
from fairseq2.nn import BatchLayout

OUTSIDE = "float rounding of the product of a draw and a range; more than 3 rows or 8 positions; quality of the random generator"
ASSUMPTIONS = ["torch.rand and torch.rand_like return arbitrary values in [0, 1)"]


class Draws:
    """every outcome of the generator"""

    def __init__(self, ctx):
        self.ctx, self.n = ctx, 0

    def make(self, shape):
        self.n += 1
        t = self.ctx.tensor(f"draw{self.n}_", tuple(shape), lo=0, hi=0.9999 if not self.ctx.sym else 1)
        if self.ctx.sym:
            for x in T.payload(t).reshape(-1):
                self.ctx.assume(x < 1)
        return t

    def rand(self, *size, **kw):
        if len(size) == 1 and isinstance(size[0], (tuple, list, torch.Size)):
            size = size[0]
        return self.make([int(s) for s in size])

    def rand_like(self, t, **kw):
        return self.make(t.shape)


def drawing(ctx):
    d = Draws(ctx)
    return patch.multiple(torch, rand=d.rand, rand_like=d.rand_like)


def bits(mask):
    a = T.payload(mask)
    return [[a[i, j] for j in range(mask.shape[1])] for i in range(mask.shape[0])]


def count(bs):
    return sum([ite(b, 1, 0) for b in bs], 0)


CASES_Q = [(1, 4, 1), (1, 6, 2), (1, 7, 3), (2, 4, 1), (2, 5, 2), (2, 6, 3)]
CASES_T = CASES_Q + [(1, 8, 2), (3, 4, 1), (3, 5, 2), (2, 6, 2), (2, 8, 3)]


@harness(
    "up to 2 rows x 7 positions (thorough 3 x 8), span lengths 1..3; symbolic row lengths, mask probability in (0, 1], minimum number of spans 0..3, and every outcome of the random draws",
    ["boolean mask of the requested shape", "same number masked in every row", "padding never masked", "within the requested proportion", "minimum number of spans", "whole spans", "something stays unmasked", "unsatisfiable requests rejected", "empty mask"],
    tensor=True,
    params=lambda t: [{"rows": r, "width": w, "span": s, "lens": l} for r, w, s in (CASES_Q if t == "quick" else CASES_T) for l in (False, True)],
)
def row_mask(ctx, rows, width, span, lens):
    prob = ctx.real("prob", 0.01, 1)
    least = ctx.int("min_num_spans", 0, 3)
    kw = {}
    ls = [width] * rows
    if lens:
        ls = [int(ctx.int(f"len{i}", 1, width)) for i in range(rows)]
        kw["row_lens"] = torch.tensor(ls)
    short = min(ls)
    # the number of spans whose total length stays within the proportion of the shortest row (minus one)
    with drawing(ctx):
        try:
            m = mask_mod.compute_row_mask((rows, width), span, prob, min_num_spans=least, **kw)
        except ValueError:
            ctx.check(or_(span >= short, prob * (short - 1) < least * span), "unsatisfiable requests rejected")
            return
    ctx.check(and_(span < short, prob * (short - 1) >= least * span), "unsatisfiable requests rejected")
    ctx.check(m is not None and m.dtype == torch.bool and tuple(m.shape) == (rows, width), "boolean mask of the requested shape", f"{m.dtype} {tuple(m.shape)}")
    rowbits = bits(m)
    n = [count(b) for b in rowbits]
    for i in range(rows):
        ctx.eq(n[i], n[0], "same number masked in every row")
        for j in range(ls[i], width):
            ctx.check(not_(rowbits[i][j]), "padding never masked")
        ctx.check(n[i] <= prob * (short - 1), "within the requested proportion")
        ctx.check(n[i] < ls[i], "something stays unmasked")
        # a row gets its spans unless the proportion does not even allow one
        one = prob * (short - 1) >= span
        ctx.check(implies(one, n[i] >= span), "minimum number of spans")
        ctx.check(implies(not_(one), n[i] == 0), "empty mask")
        if rows == 1:
            # nothing had to be unmasked: the masked positions are a union of whole spans
            for j in range(width):
                cover = [and_(*[rowbits[0][q] for q in range(s, s + span)]) for s in range(max(0, j - span + 1), min(j, width - span) + 1)]
                ctx.check(implies(rowbits[0][j], or_(*cover)), "whole spans")


@harness("temporal masks of any content with the same number per row; spatial masks of any content; features symbolic, 2 x 3 x 2", ["masked positions replaced", "others kept", "mask returned", "masked elements extracted"], tensor=True, params=lambda t: grid(spatial=[False, True], mask=range(4) if t == "quick" else range(8)))
def masker(ctx, spatial, mask):
    rows, width, dim = 2, 3, 2
    masks = [
        [[True, False, False], [False, False, True]],
        [[True, True, False], [False, True, True]],
        [[False, False, False], [False, False, False]],
        [[False, True, False], [False, True, False]],
        [[True, False, False], [True, False, False]],
        [[True, False, True], [True, True, False]],
        [[True, True, True], [True, True, True]],
        [[False, False, True], [True, False, False]],
    ]
    temporal = torch.tensor(masks[mask])
    feat = [[ctx.flag(f"f{i}{j}") if spatial else False for j in range(dim)] for i in range(rows)]
    calls = []

    def factory(shape, span_len, max_mask_prob, row_lens=None, min_num_spans=0, device=None):
        calls.append((tuple(shape), span_len, max_mask_prob, None if row_lens is None else [int(x) for x in row_lens], min_num_spans))
        return temporal if tuple(shape) == (rows, width) else torch.tensor(feat)

    mk = StandardWav2Vec2Masker(dim, 5, 0.5, 1, 4, 0.25 if spatial else 0.0, 3, mask_factory=factory)
    ctx.params(mk)
    x = ctx.tensor("x", (rows, width, dim))
    x0 = x.clone()
    lens = [3, 2]
    y, out = mk(x, BatchLayout((rows, width), lens))
    e = mk.temporal_mask_embed
    for i in range(rows):
        for j in range(width):
            for d in range(dim):
                if feat[i][d]:
                    ctx.eq(T.payload(y)[i, j, d], 0.0, "masked positions replaced")
                elif masks[mask][i][j]:
                    ctx.eq(T.payload(y)[i, j, d], T.payload(e)[d], "masked positions replaced")
                else:
                    ctx.eq(T.payload(y)[i, j, d], T.payload(x0)[i, j, d], "others kept")
    ctx.check(torch.equal(out, temporal), "mask returned")
    exp = [((rows, width), 5, 0.5, lens, 1)] + ([((rows, dim), 4, 0.25, None, 3)] if spatial else [])
    ctx.check(calls == exp, "mask returned", f"{calls}")
    k = sum(masks[mask][0])
    if k:
        z = Wav2Vec2Masker.extract_masked_elements(x0, out)
        ctx.check(tuple(z.shape) == (rows, k, dim), "masked elements extracted")
        for i in range(rows):
            for r, j in enumerate([j for j in range(width) if masks[mask][i][j]]):
                for d in range(dim):
                    ctx.eq(T.payload(z)[i, r, d], T.payload(x0)[i, j, d], "masked elements extracted")
