"""Batch element and target counts and shifted views match the real tokens."""
from symx.api import *

from fairseq2.datasets.batch import Seq2SeqBatch, SequenceBatch
from fairseq2.error import InvalidOperationError

OUTSIDE = "device transfer; batches with more than 3 sequences of 4 tokens"
ASSUMPTIONS = ["a packed source-target batch whose last target has one token is rejected by the split (its source would be left without a target)", "a target mask never marks padding (the factories of masks mark real tokens only)", "in a packed batch the concatenated stream is shifted as a whole, as the code documents by its construction: the last token of a sequence predicts the first of the next"]


def build(ctx, name, rows, width, packed, masked, lo=1):
    """a stream/grid of symbolic tokens, symbolic lengths, symbolic mask"""
    lens = [ctx.int(f"{name}len{i}", lo, width) for i in range(rows)]
    if packed:
        ctx.assume(sum(lens) <= width)
        shape = (width,)
    else:
        shape = (rows, width)
    seqs = ctx.itensor(f"{name}tok", shape, 0, 1000)
    mask = None
    if masked:
        mask = ctx.btensor(f"{name}mask", shape)
        for k in range(width):
            if packed:
                ctx.assume(implies(k >= sum(lens), not_(at(mask, k))))
            else:
                for i in range(rows):
                    ctx.assume(implies(k >= lens[i], not_(at(mask, i, k))))
    return seqs, lens, mask


def at(t, *ix):
    v = t[ix] if len(ix) > 1 else t[ix[0]]
    if isinstance(v, T.SymTensor):
        return T.payload(v)[()]
    return v.item()


def count(bits):
    return sum([ite(b, 1, 0) for b in bits], 0)


def size_of(packed, rows, width):
    return width if packed else rows * width


def check_view(ctx, lab, batch, tok, mask, lens, rows, width, packed, off):
    """batch must be the view of (tok, mask) shifted by `off` with one position removed"""
    n = len(lens)
    if packed:
        total = sum(lens)
        # the stream loses one token
        got = list(batch.seq_lens)
        ctx.eq(sum(got), total - 1, lab + " lengths")
        b = 0
        for i, g in enumerate(got):  # the same boundaries except for the cut end
            if i + 1 < len(got):
                ctx.eq(g, lens[i], lab + " lengths")
            b = b + g
        ctx.check(b == total - 1, lab + " lengths")
        for k in range(width - 1):
            ctx.check(implies(k < total - 1, at(batch.seqs, k) == at(tok, k + off)), lab + " tokens")
            if batch.target_mask is not None:
                ctx.check(implies(k < total - 1, iff(at(batch.target_mask, k), at(mask, k + off))), lab + " mask")
                ctx.check(implies(k >= total - 1, not_(at(batch.target_mask, k))), lab + " mask")
    else:
        ctx.check(len(batch.seq_lens) == n, lab + " lengths")
        for i in range(n):
            ctx.eq(batch.seq_lens[i], lens[i] - 1, lab + " lengths")
            for k in range(width - 1):
                ctx.check(implies(k < lens[i] - 1, at(batch.seqs, i, k) == at(tok, i, k + off)), lab + " tokens")
                if batch.target_mask is not None:
                    ctx.check(implies(k < lens[i] - 1, iff(at(batch.target_mask, i, k), at(mask, i, k + off))), lab + " mask")
                    ctx.check(implies(k >= lens[i] - 1, not_(at(batch.target_mask, i, k))), lab + " mask")


def real(lens, packed, rows, width):
    """[(index, is real, is predicted)] of every cell"""
    if packed:
        t = sum(lens)
        return [((k,), k < t, and_(k >= 1, k < t)) for k in range(width)]
    return [((i, k), k < lens[i], and_(k >= 1, k < lens[i])) for i in range(rows) for k in range(width)]


SIZES_Q = [(1, 1), (1, 3), (2, 3), (3, 3), (2, 4)]
SIZES_T = [(1, 1), (1, 3), (1, 4), (2, 3), (2, 4), (3, 3), (3, 4)]
LAB = ["counts", "padding", "target count", "input tokens", "target tokens", "input lengths", "target lengths", "target mask", "split counts", "unsplittable rejected", "original untouched"]


@harness("up to 3 sequences, width <= 4, symbolic tokens, lengths and target mask; padded and packed", LAB, tensor=True,
         params=lambda t: [{"rows": r, "width": w, "packed": p, "masked": m} for r, w in (SIZES_Q if t == "quick" else SIZES_T) for p in (False, True) for m in (False, True)])
def sequence(ctx, rows, width, packed, masked):
    tok, lens, mask = build(ctx, "", rows, width, packed, masked)
    ex = object()
    given = None if ctx.flag("omit lengths") else list(lens)
    if given is None:
        for l in lens:
            ctx.assume(l == width)
        if packed:
            ctx.assume(rows == 1)
    batch = SequenceBatch(tok, given, packed=packed, target_mask=mask, example=ex)
    total = sum(lens)
    ctx.eq(batch.num_elements, total, "counts")
    ctx.eq(batch.num_examples, rows, "counts")
    ctx.eq(batch.batch_size, 1 if packed else rows, "counts")
    ctx.check(batch.example is ex, "counts")
    ctx.eq(batch.padding, size_of(packed, rows, width) - total, "padding")
    cells = real(lens, packed, rows, width)
    ctx.eq(batch.num_target_elements, total if mask is None else count(and_(r, at(mask, *ix)) for ix, r, _ in cells), "target count")
    bad = total == 1 if packed else or_(*[l == 1 for l in lens])
    try:
        inp, tgt = batch.as_auto_regressive()
    except InvalidOperationError:
        ctx.check(bad, "unsplittable rejected")
        return
    ctx.check(not_(bad), "unsplittable rejected")
    check_view(ctx, "input", inp, tok, mask, lens, rows, width, packed, 0)
    check_view(ctx, "target", tgt, tok, mask, lens, rows, width, packed, 1)
    ctx.check(inp.example is ex and inp.packed is packed and tgt.packed is packed, "split counts")
    lost = 1 if packed else rows
    ctx.eq(inp.num_elements, total - lost, "split counts")
    ctx.eq(tgt.num_elements, total - lost, "split counts")
    ctx.check((tgt.target_mask is None) == (mask is None), "target mask")
    ctx.eq(tgt.num_target_elements, count(and_(p, at(mask, *ix)) if mask is not None else p for ix, _, p in cells), "split counts")
    ctx.eq(batch.num_elements, total, "original untouched")
    for i in range(rows):
        ctx.eq(batch.seq_lens[i], lens[i], "original untouched")
        if given is not None:
            ctx.eq(given[i], lens[i], "original untouched")


@harness("1..2 (thorough 3) source/target pairs, widths <= 4, symbolic tokens, lengths and mask; padded and packed", LAB + ["source kept"], tensor=True,
         params=lambda t: [{"rows": r, "sw": sw, "width": w, "packed": p, "masked": m} for r, sw, w in ([(1, 2, 1), (2, 2, 3)] if t == "quick" else [(1, 2, 1), (1, 3, 3), (2, 3, 4), (3, 3, 3)]) for p in (False, True) for m in (False, True)])
def seq2seq(ctx, rows, sw, width, packed, masked):
    src, slens, _ = build(ctx, "s", rows, sw, packed, False)
    tok, lens, mask = build(ctx, "t", rows, width, packed, masked)
    ex = object()
    batch = Seq2SeqBatch(src, list(slens), tok, list(lens), packed=packed, target_mask=mask, example=ex)
    stotal, total = sum(slens), sum(lens)
    ctx.eq(batch.num_elements, stotal + total, "counts")
    ctx.eq(batch.num_source_elements, stotal, "counts")
    ctx.eq(batch.num_examples, rows, "counts")
    ctx.eq(batch.batch_size, 1 if packed else rows, "counts")
    ctx.eq(batch.padding, size_of(packed, rows, sw) - stotal + size_of(packed, rows, width) - total, "padding")
    cells = real(lens, packed, rows, width)
    ctx.eq(batch.num_target_elements, total if mask is None else count(and_(r, at(mask, *ix)) for ix, r, _ in cells), "target count")
    bad = total == 1 if packed else or_(*[l == 1 for l in lens])
    if packed and rows > 1:  # cutting a whole target sequence leaves sources without targets
        ctx.assume(lens[-1] > 1)
    try:
        inp, tgt = batch.as_auto_regressive()
    except InvalidOperationError:
        ctx.check(bad, "unsplittable rejected")
        return
    ctx.check(not_(bad), "unsplittable rejected")

    class View:
        seqs, seq_lens, target_mask = inp.target_seqs, inp.target_seq_lens, inp.target_mask

    check_view(ctx, "input", View, tok, mask, lens, rows, width, packed, 0)
    check_view(ctx, "target", tgt, tok, mask, lens, rows, width, packed, 1)
    ctx.check(inp.source_seqs is src and inp.example is ex and inp.packed is packed and tgt.packed is packed, "source kept")
    for i in range(rows):
        ctx.eq(inp.source_seq_lens[i], slens[i], "source kept")
    lost = 1 if packed else rows
    ctx.eq(inp.num_source_elements, stotal, "split counts")
    ctx.eq(inp.num_elements, stotal + total - lost, "split counts")
    ctx.eq(inp.num_target_elements, total - lost, "split counts")
    ctx.eq(tgt.num_elements, total - lost, "split counts")
    ctx.check((tgt.target_mask is None) == (mask is None), "target mask")
    ctx.eq(tgt.num_target_elements, count(and_(p, at(mask, *ix)) if mask is not None else p for ix, _, p in cells), "split counts")
    for i in range(rows):
        ctx.eq(batch.target_seq_lens[i], lens[i], "original untouched")
    ctx.eq(batch.num_elements, stotal + total, "original untouched")
