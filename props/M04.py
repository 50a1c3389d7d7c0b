"""Incremental decoding equals full decoding."""
from props._models import *

OUTSIDE = "rounding; step lengths above 1 after the prefill for the sliding-window cache (documented to take one token per step)"
ASSUMPTIONS = []

STEP1 = {"mistral", "olmo-window"}


def _splits(n, single):
    """(prefill, step, step, ...)"""
    if n == 0:
        return [()]
    return [(k,) + r for k in range(1, n + 1) for r in _splits(n - k, single) if not single or all(x == 1 for x in r)]


@harness(
    bounds="every split of 3 (thorough: 4) tokens into a prefill and steps (of 1 token for the sliding-window cache), batch of 2, every capacity increment of the cache; 1 layer (Gemma3n: 7)",
    labels=["the logits of a step are those of the full pass"],
    params=lambda tier: grid(model=["gemma3n-shared"], n=[3], cap=[0, 1, 2, 3]) + grid(model=[m for m in LMS if m != "gemma3n-shared" and (m != "gemma3n" or tier != "quick")], n=[3] if tier == "quick" else [3, 4], cap=[None]),
    tensor=True,
    let=60,
    timeout_ms=4000,
)
def language_models(ctx, model, n, cap):
    m = build(ctx, model)
    splits = _splits(n, model in STEP1)
    split = splits[int(ctx.int("split", 0, len(splits) - 1))]
    inc = (int(ctx.int("capacity", 0, 3)) if cap is None else cap) or None
    b = 1 if model == "gemma3n-shared" else 2
    ids = torch.arange(b * n).remainder(VOCAB).reshape(b, n)
    full = m(ids, BatchLayout((b, n), None))
    bag = IncrementalStateBag(n + 1, capacity_increment=inc)
    p = 0
    for k in split:
        out = m(ids[:, p : p + k], BatchLayout((b, k), None), state_bag=bag)
        bag.increment_step_nr(k)
        ctx.teq(out, full[:, p : p + k], "the logits of a step are those of the full pass", f"split {split}, positions {p}..{p + k - 1}, capacity {inc}")
        p += k


@harness(
    bounds="every split of 2 (thorough: 3) target tokens into steps, 2 source rows of different lengths; 1 encoder and 1 decoder layer",
    labels=["the logits of a step are those of the full pass"],
    params=lambda tier: grid(model=list(SEQ2SEQ), n=[2] if tier == "quick" else [2, 3]),
    tensor=True,
    let=60,
    timeout_ms=4000,
)
def seq2seq_models(ctx, model, n):
    make, shape, w = SEQ2SEQ[model]
    m = symbolic(ctx, make())
    splits = _splits(n, False)
    split = splits[int(ctx.int("split", 0, len(splits) - 1))]
    lens = [w, int(ctx.int("len1", 1, w))]
    src = torch.arange(2 * w).remainder(VOCAB).reshape(2, w) if shape is None else ctx.tensor("source", (2, w, *shape))
    tgt = torch.arange(2 * n).reshape(2, n)
    sl = BatchLayout((2, w), lens)
    full = m(src, sl, tgt, BatchLayout((2, n), None))
    bag = IncrementalStateBag(n + 1, capacity_increment=1)
    p = 0
    for k in split:
        out = m(src, sl, tgt[:, p : p + k], BatchLayout((2, k), None), state_bag=bag)
        bag.increment_step_nr(k)
        ctx.teq(out, full[:, p : p + k], "the logits of a step are those of the full pass", f"split {split}, positions {p}..{p + k - 1}")
        p += k
