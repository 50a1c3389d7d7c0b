"""Tensor-parallel layers compute the same result as their unsharded form."""
from props import _tp
from symx.api import *

OUTSIDE = "more than 4 ranks; the order in which a real communication library adds the summands"
ASSUMPTIONS = ["collectives deliver the exact sum or concatenation of what the ranks contribute"]


@harness(
    bounds="linear layers of 2x4, embeddings of 4 entries, feed-forward, attention, expert and mixture layers of model dimension 2; 1, 2 and (linear, embedding) 4 ranks; arbitrary weights and inputs; every gather, scatter and reduce option",
    labels=["same output", "shards of the weights", "gathered weights"],
    params=lambda tier: _tp.names(tier),
    tensor=True,
)
def layers(ctx, case, size):
    c, plain, x, y, _, res = _tp.run(ctx, case, size, False)
    total = None
    for r, (out, _, _, params, dims, whole) in enumerate(res):
        want = y if c.y_dim is None else _tp.chunk(y, c.y_dim, size, r)
        if c.partial:
            total = out if total is None else total + out
        else:
            ctx.teq(out, want, "same output", f"rank {r}")
        src = dict(plain.named_parameters())
        ctx.check(set(src) == set(params), "shards of the weights", "names")
        for k, p in params.items():
            ctx.teq(p, _tp.shard(k, src[k], dims.get(k), size, r, c.experts if "shared" not in k else 0) if "mixture" not in case or "shared" not in k else _tp.chunk(src[k], 1 if "output" in k else 0, size, r), "shards of the weights", f"{k} of rank {r}")
        for k, p in whole.items():
            ctx.teq(p, src[k], "gathered weights", f"{k} of rank {r}")
    ctx.check(True, "gathered weights")
    if c.partial:
        ctx.teq(total, y, "same output", "sum of the ranks")
