"""Padding never influences the result for real tokens."""
from props._models import *

OUTSIDE = "rounding; training-time dropout"
ASSUMPTIONS = []


@harness(
    bounds="batch of 2 rows of width 2..3, all length combinations",
    labels=["real positions do not depend on padding"],
    params=lambda tier: grid(model=["gemma3n-shared"] + [m for m in LMS if m != "gemma3n-shared" and (m != "gemma3n" or tier != "quick")]),
    tensor=True,
    let=60,
    timeout_ms=4000,
)
def language_models(ctx, model):
    m = build(ctx, model)
    w = int(ctx.int("width", 2, 3))
    lens = [int(ctx.int(f"len{b}", 1, w)) for b in range(2)]
    ctx.assume(max(lens) == w and min(lens) < w)
    ids = torch.arange(2 * w).reshape(2, w)
    out = m(ids, BatchLayout((2, w), lens))
    for b in range(2):
        alone = m(ids[b : b + 1, : lens[b]], BatchLayout((1, lens[b]), None))
        ctx.teq(out[b, : lens[b]], alone[0], "real positions do not depend on padding", f"row {b} of {lens}")


@harness(
    bounds="batch of 2 rows, all length combinations up to 4 frames; 1-layer encoder of width 2",
    labels=["real frames do not depend on padding", "the lengths are those of the rows alone"],
    params=lambda tier: grid(model=list(SPEECH)),
    tensor=True,
    let=60,
    timeout_ms=4000,
)
def speech_encoders(ctx, model):
    make, shape, (lo, hi) = SPEECH[model]
    m = symbolic(ctx, make())
    w = int(ctx.int("width", lo + 1, hi))
    lens = [int(ctx.int(f"len{b}", lo, w)) for b in range(2)]
    ctx.assume(max(lens) == w and min(lens) < w)
    seqs = ctx.tensor("seqs", (2, w, *shape))
    out, layout = m(seqs, BatchLayout((2, w), lens))
    for b in range(2):
        alone, alone_layout = m(seqs[b : b + 1, : lens[b]], BatchLayout((1, lens[b]), None))
        n = alone.shape[1]
        ctx.eq(layout.seq_lens[b], n, "the lengths are those of the rows alone")
        ctx.eq(alone_layout.seq_lens[0], n, "the lengths are those of the rows alone")
        ctx.teq(out[b, :n], alone[0], "real frames do not depend on padding", f"row {b} of {lens}")


@harness(
    bounds="batch of 2 sources of width up to 3 tokens or 5 frames and 2 targets of width 2, all length combinations; 1 encoder and 1 decoder layer of width 4",
    labels=["real targets do not depend on padding"],
    params=lambda tier: grid(model=list(SEQ2SEQ), tlens=[(1, 2)] if tier == "quick" else [(2, 2), (1, 2)]),
    tensor=True,
    let=60,
    timeout_ms=4000,
)
def seq2seq_models(ctx, model, tlens):
    make, shape, w = SEQ2SEQ[model]
    m = symbolic(ctx, make())
    lens = [int(ctx.int(f"len{b}", 1, w)) for b in range(2)]
    ctx.assume(max(lens) == w)
    src = torch.arange(2 * w).remainder(VOCAB).reshape(2, w) if shape is None else ctx.tensor("source", (2, w, *shape))
    tgt = torch.arange(4).reshape(2, 2)
    out = m(src, BatchLayout((2, w), lens), tgt, BatchLayout((2, 2), list(tlens)))
    for b in range(2):
        n, t = lens[b], tlens[b]
        alone = m(src[b : b + 1, :n], BatchLayout((1, n), None), tgt[b : b + 1, :t], BatchLayout((1, t), None))
        ctx.teq(out[b, :t], alone[0], "real targets do not depend on padding", f"row {b} of {lens}/{tlens}")
