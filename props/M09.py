"""Reordering cached state is equivalent to having decoded the reordered batch."""
from props._models import *

OUTSIDE = "rounding"
ASSUMPTIONS = []
_LMS = ["gemma3n-shared", "llama", "mistral", "olmo-window", "llama4"]


@harness(
    bounds="2 rows (thorough: 3 rows for the 1-layer models), prefill of 1..2 tokens, reordering by every index list of length 2 (thorough: 1..3), then a step, another reordering and a second step; static cache and a capacity increment of 1 (thorough: 1..2)",
    labels=["a step after reordering", "a step after reordering twice"],
    params=lambda tier: grid(model=["gemma3n-shared"], rows=[2], first=[1], pre=[1], size=[1, 2], deep=[False])
    + (grid(model=["llama", "mistral"], rows=[2], first=[0, 1], pre=[1, 2], size=[2], deep=[False]) if tier == "quick" else grid(model=_LMS, rows=[2, 3], first=[0, 1, 2], pre=[1, 2], size=[1, 2, 3], deep=[True])),
    tensor=True,
    let=60,
    timeout_ms=4000,
)
def language_models(ctx, model, rows, first, pre, size, deep):
    rows = max(rows, 1 + first)
    big = model == "gemma3n-shared"
    m = build(ctx, model)
    n = pre + 2
    ids = torch.arange(rows * n).remainder(VOCAB).reshape(rows, n)
    ids[-1] = ids[-1].flip(0)
    inc = int(ctx.int("capacity", 0, 0 if big else (2 if deep else 1))) or None
    bag = IncrementalStateBag(n + 1, capacity_increment=inc)
    m(ids[:, :pre], BatchLayout((rows, pre), None), state_bag=bag)
    bag.increment_step_nr(pre)
    full = m(ids, BatchLayout((rows, n), None))
    order = [first] + [int(ctx.int(f"order{i}", 0, rows - 1)) for i in range(1, min(size, rows))]
    bag.reorder(torch.tensor(order))
    now = ids[torch.tensor(order)]
    k = len(order)
    out = m(now[:, pre : pre + 1], BatchLayout((k, 1), None), state_bag=bag)
    bag.increment_step_nr()
    for i, r in enumerate(order):
        ctx.teq(out[i, 0], full[r, pre], "a step after reordering", f"order {order}, row {i}")
    second = [(k - 1, 0), (0,)][int(ctx.int("second", 0, 1 if deep else 0))]
    bag.reorder(torch.tensor(second))
    order2 = [order[i] for i in second]
    out = m(ids[torch.tensor(order2)][:, pre + 1 :], BatchLayout((len(order2), 1), None), state_bag=bag)
    for i, r in enumerate(order2):
        ctx.teq(out[i, 0], full[r, pre + 1], "a step after reordering twice", f"orders {order} {second}, row {i}")


@harness(
    bounds="2 source rows of different lengths, a target prefill of 1 token, reordering by every index list of length 1..2 (thorough: 3), then a step",
    labels=["a step after reordering"],
    params=lambda tier: grid(model=["nllb", "s2t-transformer"] if tier == "quick" else list(SEQ2SEQ), size=[1, 2] if tier == "quick" else [1, 2, 3], first=[0, 1]),
    tensor=True,
    let=60,
    timeout_ms=4000,
)
def seq2seq_models(ctx, model, size, first):
    make, shape, w = SEQ2SEQ[model]
    m = symbolic(ctx, make())
    lens = [w, int(ctx.int("len1", 1, w))]
    src = torch.arange(2 * w).remainder(VOCAB).reshape(2, w) if shape is None else ctx.tensor("source", (2, w, *shape))
    tgt = torch.arange(4).reshape(2, 2)
    sl = BatchLayout((2, w), lens)
    full = m(src, sl, tgt, BatchLayout((2, 2), None))
    bag = IncrementalStateBag(4, capacity_increment=1)
    m(src, sl, tgt[:, :1], BatchLayout((2, 1), None), state_bag=bag)
    bag.increment_step_nr()
    order = [first] + [int(ctx.int(f"order{i}", 0, 1)) for i in range(1, size)]
    bag.reorder(torch.tensor(order))
    idx = torch.tensor(order)
    out = m(src[idx], BatchLayout((len(order), w), [lens[i] for i in order]), tgt[idx][:, 1:], BatchLayout((len(order), 1), None), state_bag=bag)
    for i, r in enumerate(order):
        ctx.teq(out[i, 0], full[r, 1], "a step after reordering", f"order {order}, row {i}, source lengths {lens}")
