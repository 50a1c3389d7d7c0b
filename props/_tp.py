"""Tensor-parallel layers: the unsharded layer and its shards on simulated ranks, with symbolic weights."""
from torch.nn import GELU, SiLU

from symx.api import *
from symx.spmd import Sim, gangs

from fairseq2.models.llama4.moe import MoE
from fairseq2.models.llama4.sharder import MoESharder, get_llama4_shard_specs
from fairseq2.models.transformer import (
    CausalAttentionBias,
    DauphinFeedForwardNetwork,
    GLUFeedForwardNetwork,
    GroupedExpertNetwork,
    StandardFeedForwardNetwork,
    StandardMultiheadAttention,
    TPShardedExpertNetwork,
    create_default_sdpa,
)
from fairseq2.models.transformer.attention_bias import AttentionBiasCache
from fairseq2.nn import (
    BatchLayout,
    ColumnShardedLinear,
    Linear,
    RowShardedLinear,
    ShardedEmbedding,
    StandardEmbedding,
    VocabShardedEmbedding,
)
from fairseq2.nn.sharded import get_shard_dims
from fairseq2.sharder import ShardSpec

EXPERT_DIMS = {"gate_proj": 2, "inner_proj": 2, "output_proj": 1}


def chunk(x, dim, n, r):
    return x.chunk(n, dim=dim)[r]


def shard(name, p, dim, n, r, experts):
    """the part of parameter p of the unsharded layer that belongs to rank r"""
    last = name.split(".")[-1]
    if experts and last in EXPERT_DIMS and p.shape[0] % experts == 0:
        w = p.reshape(experts, -1, p.shape[-1])
        w = chunk(w, EXPERT_DIMS[last], n, r)
        return w.reshape(-1, w.shape[-1])
    return p if dim is None else chunk(p, dim, n, r)


def load(module, plain, n, r):
    """gives the sharded module the values of the unsharded one"""
    dims = get_shard_dims(module)
    src = dict(plain.named_parameters())
    with torch.no_grad():
        for k, p in module.named_parameters():
            p.copy_(shard(k, src[k], dims.get(k), n, r, 0))
    return dims


class Case:
    """make() -> unsharded layer; split(plain, gangs, n, r) -> the layer of rank r"""

    def __init__(self, make, split, x=None, y_dim=None, x_dim=None, partial=False, experts=0, ints=None, call=None, sizes=(1, 2)):
        self.make, self.split, self.x, self.y_dim, self.x_dim, self.partial, self.experts, self.ints, self.sizes = make, split, x, y_dim, x_dim, partial, experts, ints, sizes
        self.call = call or (lambda m, x: m(x))


def _built(make):
    def split(plain, g, n, r):
        m = make(g)
        load(m, plain, n, r)
        return m

    return split


def _mha(kv, bias, norm=False, pos=False):
    def make(g=None):
        from fairseq2.nn import ReferenceRotaryEncoder, RMSNorm

        rope = ReferenceRotaryEncoder(2, 4) if pos else None
        q, k = (RMSNorm(2, False, eps=2.0**-6), RMSNorm(2, False, eps=2.0**-6)) if norm else (None, None)
        return StandardMultiheadAttention(2, 2, create_default_sdpa(CausalAttentionBias()), head_dim=2 if norm or pos else None, num_key_value_heads=kv, bias=bias, q_norm=q, k_norm=k, pos_encoder=rope, gangs=g)

    def call(m, x):
        lay = BatchLayout.of(x)
        return m(x, lay, x, lay, x, AttentionBiasCache())

    return make, call


def _moe(shared):
    return lambda g=None: MoE(2, 2, shared, 2, 1.0, 1, inner_dim_scale=1.0, auto_scale=False)


def _moe_split(plain, g, n, r):
    import copy

    m = _copy(plain)
    return MoESharder().shard(m, g, ShardSpec(dim=-1))


def _copy(m):
    """a copy of an unsharded module whose parameters are leaves of their own"""
    import copy

    memo = {}
    for p in m.parameters():
        memo[id(p)] = torch.nn.Parameter(p.detach().clone())
    return copy.deepcopy(m, memo)


def cases(deep):
    c = {}
    for gather in (True, False):
        for bias in (True, False):
            c[f"column gather={gather} bias={bias}"] = Case(lambda g=None, b=bias: Linear(2, 4, b), lambda p, g, n, r, q=gather: ColumnShardedLinear.from_linear(p, gangs=g, gather_output=q), (2, 2), None if gather else -1, sizes=(1, 2, 4))
    for scatter in (True, False):
        for red in (True, False):
            for bias in (True, False):
                if bias and not red:
                    continue
                c[f"row scatter={scatter} reduce={red} bias={bias}"] = Case(lambda g=None, b=bias: Linear(4, 2, b), lambda p, g, n, r, s=scatter, q=red: RowShardedLinear.from_linear(p, gangs=g, scatter_input=s, reduce_output=q), (2, 4), x_dim=None if scatter else -1, partial=not red, sizes=(1, 2, 4))
    for pad in (None, 0, 3):
        c[f"vocabulary pad={pad}"] = Case(lambda g=None, q=pad: StandardEmbedding(4, 2, q), lambda p, g, n, r: VocabShardedEmbedding.from_embedding(p, gangs=g), ints=((1, 3), 3), sizes=(1, 2, 4))
        c[f"embedding pad={pad}"] = Case(lambda g=None, q=pad: StandardEmbedding(4, 4, q), lambda p, g, n, r: ShardedEmbedding.from_embedding(p, gangs=g), ints=((1, 2), 3), sizes=(1, 2, 4))
    for bias in (True, False):
        f = lambda g=None, b=bias: StandardFeedForwardNetwork(2, 2, b, inner_activation=GELU(), gangs=g)
        c[f"feed-forward bias={bias}"] = Case(f, _built(f), (1, 1, 2))
        f = lambda g=None, b=bias: GLUFeedForwardNetwork(2, 2, b, inner_dim_scale=1.0, gangs=g)
        c[f"gated bias={bias}"] = Case(f, _built(f), (1, 1, 2))
        f = lambda g=None, b=bias: DauphinFeedForwardNetwork(2, 2, b, gangs=g)
        c[f"dauphin bias={bias}"] = Case(f, _built(f), (1, 1, 2))
    for kv, bias, norm, pos in ((2, True, False, False), (2, False, True, True)):
        f, call = _mha(kv, bias, norm, pos)
        c[f"attention bias={bias} norm={norm}"] = Case(f, _built(f), (1, 2, 2) if not norm else (1, 2, 2), call=call)
    for red in (True, False):
        c[f"experts reduce={red}"] = Case(lambda g=None: GroupedExpertNetwork(2, 2, 2), lambda p, g, n, r, q=red: TPShardedExpertNetwork.from_grouped_expert_network(p, g.tp, reduce_output=q), (2, 1, 2), partial=not red, experts=2)
    for sh in (True, False):
        c[f"mixture shared={sh}"] = Case(_moe(sh), _moe_split, (1, 1, 2), experts=2)
    return c


def names(tier):
    return [dict(case=k, size=s) for k, c in cases(True).items() for s in c.sizes]


def run(ctx, case, size, backward):
    """yields per rank: (plain, x, y, layer, x gradient, parameter gradients)"""
    c = cases(True)[case]
    plain = c.make()
    ctx.params(plain)
    if c.ints:
        shape, hi = c.ints
        x = ctx.itensor("x", shape, 0, hi)
        tied = [int(v) for v in x.flatten().tolist()] if backward else None
        if backward:
            x = torch.tensor(tied).reshape(shape)
    else:
        x = ctx.tensor("x", c.x)
    if case.startswith("mixture"):
        t = x.reshape(-1, 2)
        a = [t[0, 0].item() * plain.router[0, e].item() + t[0, 1].item() * plain.router[1, e].item() for e in range(2)]
        ctx.assume(not_(a[0] == a[1]))
        bool(a[0] > a[1])
    local = lambda v, dim, r: v if dim is None else chunk(v, dim, size, r)

    def leaf(v):
        v = v.detach().clone()
        return v.requires_grad_() if backward and not c.ints else v

    x0 = leaf(x)
    y0 = c.call(plain, x0)
    up = ctx.tensor("upstream", tuple(y0.shape)) if backward else None
    g0 = {}
    if backward:
        y0.backward(up.clone())
        g0 = {k: p.grad for k, p in plain.named_parameters()}
    sim = Sim(size, tensor=True)

    def rank(r):
        g = gangs(sim, r, tp=size)
        m = c.split(plain, g, size, r)
        m.train(plain.training)
        for p in m.parameters():
            p.grad = None
        xr = leaf(local(x, c.x_dim, r).contiguous())
        y = c.call(m, xr)
        shown = y.detach().clone()
        if backward:
            y.backward(local(up, c.y_dim, r).contiguous().clone())
        grads = {k: p.grad for k, p in m.named_parameters()}
        whole = {}
        if not backward:
            for a in ("to_linear", "to_embedding"):
                if hasattr(m, a):
                    whole = dict(getattr(m, a)().named_parameters())
        params = {k: p.detach().clone() for k, p in m.named_parameters()}
        return shown, xr.grad, grads, params, get_shard_dims(m), whole

    res = sim.run(rank)
    return c, plain, x0, y0.detach(), g0, res
