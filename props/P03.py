"""Tensor-parallel layers propagate exact gradients."""
from props import _tp
from symx.api import *
from symx.spmd import Sim

from fairseq2.ops import tensor_parallel as ops

OUTSIDE = "more than 4 ranks; gradients of gradients"
ASSUMPTIONS = ["collectives deliver the exact sum or concatenation of what the ranks contribute"]


@harness(
    bounds="linear layers of 2x4, embeddings of 4 entries, feed-forward, attention, expert and mixture layers of model dimension 2; 1, 2 and (linear, embedding) 4 ranks; arbitrary weights, inputs and upstream gradients; every gather, scatter and reduce option",
    labels=["input gradient", "parameter gradients", "gradients of normalization weights shared by sharded heads"],
    params=lambda tier: [c for c in _tp.names(tier) if c["size"] > 1],
    tensor=True,
    timeout_ms=3000,
)
def layers(ctx, case, size):
    c, plain, x, y, g0, res = _tp.run(ctx, case, size, True)
    partial = []
    for r, (out, gx, grads, params, dims, _) in enumerate(res):
        ctx.check((gx is None) == bool(c.ints), "input gradient", f"rank {r} has no gradient")
        if gx is not None:
            ctx.teq(gx, x.grad if c.x_dim is None else _tp.chunk(x.grad, c.x_dim, size, r), "input gradient", f"rank {r}")
        for k, g in grads.items():
            ctx.check(g is not None, "parameter gradients", f"{k} of rank {r} has no gradient")
            want = _tp.chunk(g0[k], 1 if "output" in k else 0, size, r) if "shared" in k else _tp.shard(k, g0[k], dims.get(k), size, r, c.experts)
            if case.startswith("attention") and "_norm" in k:
                partial.append((g, want))
            else:
                ctx.teq(g, want, "parameter gradients", f"{k} of rank {r}")
    if partial:
        label = "gradients of normalization weights shared by sharded heads"
        (g, want) = next(p for p in partial)
        ctx.teq(g[:1], want[:1], label)


OPS = {
    # name -> (forward over all inputs for rank r, backward over all upstream gradients for rank r)
    "reduce": (lambda xs, r, n: sum(xs[1:], xs[0]), lambda gs, r, n: gs[r]),
    "reduce_on_backward": (lambda xs, r, n: xs[r], lambda gs, r, n: sum(gs[1:], gs[0])),
    "gather": (lambda xs, r, n, d=-1: torch.cat(xs, d), lambda gs, r, n, d=-1: gs[r].chunk(n, d)[r]),
    "scatter": (lambda xs, r, n, d=-1: xs[r].chunk(n, d)[r], lambda gs, r, n, d=-1: torch.cat(gs, d)),
}


@harness(
    bounds="each collective alone on (2,2) tensors, both dimensions, 1, 2 and 4 ranks, arbitrary inputs and upstream gradients, with another use of the same gradient",
    labels=["forward of the collective", "backward of the collective", "other uses unaffected", "uneven sizes rejected"],
    params=lambda tier: [dict(op=o, size=n, dim=d) for o in OPS for n in (1, 2, 4) for d in (-1, 0) if d == -1 or o in ("gather", "scatter")],
    tensor=True,
)
def collectives(ctx, op, size, dim):
    fwd, bwd = OPS[op]
    w = size if op == "scatter" else 2
    shape = (w, 2) if dim == 0 else (2, w)
    xs = [ctx.tensor(f"x{r}", shape) for r in range(size)]
    kw = dict(d=dim) if op in ("gather", "scatter") else {}
    want = [fwd(xs, r, size, **kw) for r in range(size)]
    ups = [ctx.tensor(f"g{r}", tuple(want[r].shape)) for r in range(size)]
    if op == "gather":  # the gradient of a gathered tensor is the same on all ranks
        ups = [ups[0]] * size
    sim = Sim(size, tensor=True)

    def rank(r):
        gang = sim.gang(r)
        leaf = torch.zeros(want[r].shape).requires_grad_()
        other = leaf * 1.0
        x = xs[r].detach().clone().requires_grad_()
        a = (dim,) if op in ("gather", "scatter") else ()
        y = getattr(ops, op)(x, gang, *a)
        z = y + other
        shown = y.detach().clone()
        z.backward(ups[r].detach().clone())
        return shown, x.grad, leaf.grad

    for r, (y, gx, go) in enumerate(sim.run(rank)):
        ctx.teq(y, want[r], "forward of the collective", f"rank {r}")
        ctx.teq(gx, bwd(ups, r, size, **kw), "backward of the collective", f"rank {r}")
        ctx.teq(go, ups[r], "other uses unaffected", f"rank {r}")
    if op == "scatter" and size > 1:
        sim2 = Sim(size, tensor=True)

        def bad(r):
            try:
                ops.scatter(torch.zeros(3, 3), sim2.gang(r), dim)
            except ValueError:
                return True
            return False

        if size == 2:
            ctx.check(all(sim2.run(bad)), "uneven sizes rejected")
    else:
        ctx.check(True, "uneven sizes rejected")
