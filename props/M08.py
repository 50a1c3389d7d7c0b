"""Normalization, feed-forward and expert layers compute their definition."""
import torch.nn.functional as F
from torch.nn import GELU, ReLU, Sigmoid, SiLU, Tanh

from symx.api import *

from fairseq2.models.gemma3n.audio.subsample import CumulativeGroupNorm
from fairseq2.models.llama4.moe import MoE
from fairseq2.models.olmo.normalization import OLMORMSNorm
from fairseq2.models.transformer.experts import GroupedExpertNetwork
from fairseq2.models.transformer.ffn import (
    AltUpFeedForwardNetwork,
    DauphinFeedForwardNetwork,
    GLUFeedForwardNetwork,
    StandardFeedForwardNetwork,
)
from fairseq2.models.wav2vec2.feature_extractor import Float32GroupNorm
from fairseq2.nn import residual as residual_mod
from fairseq2.nn.normalization import RMSNorm, StandardLayerNorm

OUTSIDE = "rounding of single-precision arithmetic; the order of the roundings inside the fused RMS normalization of PyTorch in reduced precision; dropout"
ASSUMPTIONS = ["reduced-precision values are a function of the exact result (an uninterpreted rounding)"]

EPS = 2.0**-6

ROUND = T.ROUND


class _rounding:
    def __enter__(self):
        ROUND[0] = True

    def __exit__(self, *a):
        ROUND[0] = False


def _rows(x, k):
    """iterates over (index, flat list) of the last k dimensions"""
    lead = tuple(x.shape[: x.ndim - k])
    flat = x.reshape(lead + (-1,))
    import numpy as np

    for ix in np.ndindex(*lead):
        yield ix, [flat[ix][j].item() for j in range(flat.shape[-1])]


def _scalar(v):
    return torch.tensor([v]) if isinstance(v, core.Sym) else torch.tensor([float(v)])


def _normalized(x, k, eps, center):
    """x (..., *shape) normalized over its last k dimensions, elementwise definition"""
    lead = tuple(x.shape[: x.ndim - k])
    flat = x.reshape(lead + (-1,))
    n = flat.shape[-1]
    mean = sum(flat[..., j] for j in range(n)) / n if center else torch.zeros_like(flat[..., 0])
    dev = [flat[..., j] - mean for j in range(n)] if center else [flat[..., j] for j in range(n)]
    var = sum(d * d for d in dev) / n
    r = torch.rsqrt(var + eps)
    return torch.stack([d * r for d in dev], -1).reshape(x.shape)


NORMS = {
    "layer": lambda shape, bias, **kw: StandardLayerNorm(shape, bias, **kw),
    "layer-fp32": lambda shape, bias, **kw: StandardLayerNorm(shape, bias, cast_fp32=True, **kw),
    "rms": lambda shape, bias, **kw: RMSNorm(shape, bias, **kw),
    "olmo": lambda shape, bias, **kw: OLMORMSNorm(shape, bias, **kw),
}


@harness(
    bounds="inputs (2,2,3) normalized over the last dimension or the last two, with and without affine parameters and bias, eps 1/64, arbitrary inputs and parameters",
    labels=["definition", "shape and type kept"],
    params=lambda tier: grid(norm=list(NORMS), dims=[1, 2], affine=["none", "weight", "bias"]),
    tensor=True,
)
def norms(ctx, norm, dims, affine):
    shape = (3,) if dims == 1 else (2, 3)
    m = NORMS[norm](shape if dims == 2 else 3, affine == "bias", eps=EPS, elementwise_affine=affine != "none")
    ctx.check((m.weight is None) == (affine == "none") and (m.bias is None) == (affine != "bias"), "shape and type kept", "parameters")
    ctx.params(m)
    x = ctx.tensor("x", (2, 2, 3))
    y = m(x)
    ctx.check(tuple(y.shape) == (2, 2, 3) and y.dtype == x.dtype, "shape and type kept")
    want = _normalized(x, dims, EPS, norm.startswith("layer"))
    if affine != "none":
        want = want * m.weight
    if affine == "bias":
        want = want + m.bias
    ctx.teq(y, want, "definition")


@harness(
    bounds="bfloat16 and float16 inputs (2,3) with parameters of the same or of single precision; arbitrary values, the result is the rounded single-precision definition",
    labels=["rounded once", "shape and type kept"],
    params=lambda tier: [c for c in grid(norm=["layer-fp32", "olmo", "group", "cumulative"], dtype=["bfloat16", "float16"], mixed=[False, True]) if tier != "quick" or c["dtype"] == "bfloat16"],
    tensor=True,
)
def reduced_precision(ctx, norm, dtype, mixed):
    dt = getattr(torch, dtype)
    wt = torch.float32 if mixed else dt
    if norm in NORMS:
        m, shape = NORMS[norm](3, True, eps=EPS, dtype=wt), (2, 3)
    elif norm == "group":
        m, shape = Float32GroupNorm(2, 4, eps=EPS, dtype=wt), (1, 4, 2)
    else:
        m, shape = CumulativeGroupNorm(2, (1,), eps=EPS, dtype=wt), (1, 2, 1, 2)
    ctx.params(m)
    x = ctx.tensor("x", shape, dtype=dt)
    with _rounding():
        y = m(x)
        ctx.check(tuple(y.shape) == shape and y.dtype == dt, "shape and type kept")
        w, b = m.weight.float(), m.bias.float() if getattr(m, "bias", None) is not None else None
        f = x.float()
        if norm in NORMS:
            want = _normalized(f, 1, EPS, norm.startswith("layer")) * w + b
        elif norm == "group":
            want = _normalized(f.reshape(1, 2, 2, 2), 2, EPS, True).reshape(shape) * w[:, None] + b[:, None]
        else:
            want = _cumulative(f, w, EPS)
        ctx.teq(y, want.to(dt), "rounded once")


def _cumulative(x, w, eps):
    """x (B, T, F, C)"""
    B, S = x.shape[:2]
    rows = []
    for b in range(B):
        sq, out = 0, []
        for t in range(S):
            seen = x[b, : t + 1].reshape(-1)
            n = seen.numel()
            mean = sum(seen[i] for i in range(n)) / n
            cur = x[b, t].reshape(-1)
            sq = sq + sum((cur[i] - mean) * (cur[i] - mean) for i in range(cur.numel()))
            out.append((x[b, t] - mean) * torch.rsqrt(sq / n + eps) * w)
        rows.append(torch.stack(out))
    return torch.stack(rows)


@harness(
    bounds="group normalization of 4 channels in 1, 2 and 4 groups; cumulative normalization of up to 2 rows of 3 steps; arbitrary inputs and parameters",
    labels=["definition", "no look-ahead", "shape and type kept"],
    params=lambda tier: [dict(groups=g) for g in (1, 2, 4, 0)],
    tensor=True,
)
def grouped_norms(ctx, groups):
    if groups:
        m = Float32GroupNorm(groups, 4, eps=EPS)
        ctx.params(m)
        x = ctx.tensor("x", (2, 4, 2))
        y = m(x)
        want = _normalized(x.reshape(2, groups, 4 // groups, 2), 2, EPS, True).reshape(2, 4, 2) * m.weight[:, None] + m.bias[:, None]
        ctx.check(True, "no look-ahead")
    else:
        m = CumulativeGroupNorm(2, (2,), eps=EPS)
        ctx.params(m)
        x = ctx.tensor("x", (2, 3, 2, 2))
        y = m(x)
        want = _cumulative(x, m.weight, EPS)
        ctx.teq(y[:, :2], m(x[:, :2]), "no look-ahead")
    ctx.check(y.shape == x.shape and y.dtype == x.dtype, "shape and type kept")
    ctx.teq(y, want, "definition")


ACTS = {"default": None, "relu": ReLU, "silu": SiLU, "gelu": GELU, "tanh": Tanh, "sigmoid": Sigmoid}


def _lin(x, p):
    """x (..., I) times the transposed weight of p"""
    w = p.weight
    out = []
    for o in range(w.shape[0]):
        v = sum(x[..., i] * w[o, i] for i in range(w.shape[1]))
        if p.bias is not None:
            v = v + p.bias[o]
        out.append(v)
    return torch.stack(out, -1)


@harness(
    bounds="inputs (1,2,2), inner dimension 3 and its scaled and rounded-up variants, with and without bias, every activation; arbitrary inputs and weights",
    labels=["definition", "inner dimension"],
    params=lambda tier: grid(kind=["standard", "dauphin", "glu", "altup"], bias=[False, True], act=["default", "tanh", "gelu"] if tier == "quick" else list(ACTS)),
    tensor=True,
)
def feed_forward(ctx, kind, bias, act):
    make = ACTS[act]
    a = make() if make else None
    x = ctx.tensor("x", (1, 2, 2))
    if kind == "standard":
        m = StandardFeedForwardNetwork(2, 3, bias, inner_activation=a)
        ctx.params(m)
        h = (a or ReLU())(_lin(x, m.inner_proj))
    elif kind == "dauphin":
        m = DauphinFeedForwardNetwork(2, 3, bias, inner_activation=a)
        ctx.params(m)
        both = _lin(x, m.inner_proj)
        h = (a or Sigmoid())(both[..., :3]) * both[..., 3:]
    elif kind == "glu":
        scale, multiple = (1.0, 1) if act == "default" else (2 / 3, 2) if act == "tanh" else (0.5, 1)
        m = GLUFeedForwardNetwork(2, 3, bias, gate_activation=a, inner_dim_scale=scale, inner_dim_to_multiple=multiple)
        ctx.check(m.inner_proj.weight.shape[0] == {1.0: 3, 2 / 3: 2, 0.5: 1}[scale], "inner dimension")
        ctx.params(m)
        h = (a or SiLU())(_lin(x, m.gate_proj)) * _lin(x, m.inner_proj)
    else:
        m = AltUpFeedForwardNetwork(2, 3, bias)
        ctx.params(m)
        h = F.gelu(_lin(x, m.gate_proj), approximate="tanh") * _lin(x, m.inner_proj)
    ctx.check(True, "inner dimension")
    ctx.teq(m(x), _lin(h, m.output_proj), "definition")


@harness(
    bounds="gated layers with Gaussian sparsity 0.25, 0.5 and 0.95, inner dimension 3, one position; arbitrary inputs and weights",
    labels=["only the values above the cutoff"],
    params=lambda tier: grid(kind=["glu", "altup"], sparsity=[0.25, 0.5, 0.95]),
    tensor=True,
)
def sparse_gate(ctx, kind, sparsity):
    if kind == "glu":
        m = GLUFeedForwardNetwork(2, 3, False, inner_dim_scale=1.0, activation_sparsity=sparsity)
    else:
        m = AltUpFeedForwardNetwork(2, 3, False, activation_sparsity=sparsity)
    ctx.params(m)
    x = ctx.tensor("x", (1, 2))
    g = _lin(x, m.gate_proj)
    mean = sum(g[..., i] for i in range(3)) / 3
    std = torch.sqrt(sum((g[..., i] - mean) * (g[..., i] - mean) for i in range(3)) / 3)
    z = torch.distributions.normal.Normal(0, 1).icdf(torch.tensor(sparsity, dtype=torch.float32))
    act = SiLU() if kind == "glu" else (lambda t: F.gelu(t, approximate="tanh"))
    h = act(F.relu(g - (mean + std * z)[..., None])) * _lin(x, m.inner_proj)
    ctx.teq(m(x), _lin(h, m.output_proj), "only the values above the cutoff")


def _expert(m, e, x, model_dim, act):
    """the gated network of expert e for the vector x"""
    ex = m.experts if hasattr(m, "experts") else m
    inner = ex.gate_proj.shape[-1]
    gate = ex.gate_proj[e * model_dim : (e + 1) * model_dim]
    up = ex.inner_proj[e * model_dim : (e + 1) * model_dim]
    down = ex.output_proj[e * inner : (e + 1) * inner]
    dot = lambda v, w: torch.stack([sum(v[i] * w[i, j] for i in range(w.shape[0])) for j in range(w.shape[1])])
    return dot(act(dot(x, gate)) * dot(x, up), down)


@harness(
    bounds="1..3 experts of 1..2 token slots, model dimension 2, inner dimension 2; arbitrary inputs and weights",
    labels=["every expert uses its own weights"],
    params=lambda tier: grid(experts=[1, 2, 3], tokens=[1, 2]),
    tensor=True,
)
def grouped_experts(ctx, experts, tokens):
    m = GroupedExpertNetwork(experts, 2, 2, activation=None)
    ctx.params(m)
    x = ctx.tensor("x", (experts, tokens, 2))
    want = torch.stack([torch.stack([_expert(m, e, x[e, t], 2, SiLU()) for t in range(tokens)]) for e in range(experts)])
    ctx.teq(m(x), want, "every expert uses its own weights")


@harness(
    bounds="2..3 experts, top 1..3, with and without a shared expert, 1..2 tokens, model dimension 2, inner dimension 1; arbitrary inputs, router and weights without ties",
    labels=["top experts with sigmoid weights", "shape and type kept"],
    params=lambda tier: [c for c in grid(experts=[2, 3], top_k=[1, 2, 3], shared=[False, True], shape=[(1, 1, 2), (2, 1, 2)]) if c["top_k"] <= c["experts"] and not (tier == "quick" and c["shape"][0] == 2 and c["experts"] == 3 and c["top_k"] != 1)],
    tensor=True,
)
def mixture_of_experts(ctx, experts, top_k, shared, shape):
    m = MoE(2, 1, shared, experts, 1.0, top_k, inner_dim_scale=1.0, auto_scale=False)
    ctx.params(m)
    x = ctx.tensor("x", shape)
    tokens = x.reshape(-1, 2)
    logits = [[tokens[t, 0].item() * m.router[0, e].item() + tokens[t, 1].item() * m.router[1, e].item() for e in range(experts)] for t in range(tokens.shape[0])]
    for row in logits:
        for i in range(experts):
            for j in range(i):
                ctx.assume(not_(row[i] == row[j]))
    before = x.clone()
    y = m(x)
    ctx.check(y.shape == x.shape and y.dtype == x.dtype, "shape and type kept")
    ctx.teq(x, before, "shape and type kept", "the input is not modified")
    outs = []
    for t, row in enumerate(logits):
        best = []
        for e in range(experts):
            ahead = sum(ite(row[o] > row[e], 1, 0) for o in range(experts) if o != e)
            if bool(ahead < top_k):
                best.append(e)
        out = m.shared_expert(tokens[t : t + 1])[0] if shared else torch.zeros(2)
        for e in best:
            weight = torch.sigmoid(sum(tokens[t, i] * m.router[i, e] for i in range(2)))
            out = out + _expert(m, e, tokens[t] * weight, 2, SiLU())
        outs.append(out)
    ctx.teq(y.reshape(-1, 2), torch.stack(outs), "top experts with sigmoid weights")


@harness(
    bounds="dimension scaling of the experts for inner dimensions 1..64, multiples 1, 8, top-k capacity 1..2, with and without shared expert",
    labels=["expert size as documented"],
    params=lambda tier: grid(shared=[False, True], auto=[False, True]),
)
def expert_size(ctx, shared, auto):
    inner, multiple, cap = int(ctx.int("inner", 1, 12)) * 8, ctx.choice("multiple", [1, 8]), ctx.choice("capacity", [1.0, 2.0])
    scale = ctx.choice("scale", [1.0, 0.5])
    m = MoE(2, inner, shared, 2, cap, 1, inner_dim_scale=scale, inner_dim_to_multiple=multiple, auto_scale=auto)
    want = inner * (1 if scale == 1.0 else Fraction(1, 2))
    if auto:
        want = int(want) // (int(cap) + int(shared))
    want = int(want)
    if multiple != 1:
        want = -(-want // multiple) * multiple
    ctx.check(tuple(m.experts.gate_proj.shape) == (4, want) and tuple(m.experts.output_proj.shape) == (2 * want, 2), "expert size as documented", f"{tuple(m.experts.gate_proj.shape)} for {want}")
    if shared:
        ctx.check(m.shared_expert.inner_proj.weight.shape[0] == want, "expert size as documented", "shared expert")


class _Draw:
    """torch with a random generator that returns arbitrary values of [0, 1)"""

    def __init__(self, ctx):
        self.ctx = ctx

    def __getattr__(self, name):
        return getattr(torch, name)

    def rand(self, shape, **_):
        t = self.ctx.tensor("draw", tuple(shape))
        for v in t.flatten().tolist():
            self.ctx.assume(and_(v >= 0, v <= 1 - Fraction(1, 2**24)))
        self.last = t
        return t.clone()


@harness(
    bounds="sequences (2,1,2), residuals and weights arbitrary; scale 3/4, drop probabilities 0, 1/4 and 1/2 with every draw, low rank 1",
    labels=["definition"],
    params=lambda tier: [dict(kind=k) for k in ("additive", "scaled", "drop0", "drop-eval", "drop25", "drop50", "drop50-unscaled", "laurel")],
    tensor=True,
)
def residuals(ctx, kind):
    x, r = ctx.tensor("x", (2, 1, 2)), ctx.tensor("r", (2, 1, 2))
    if kind == "additive":
        ctx.teq(residual_mod.AdditiveResidualConnect()(x, r), x + r, "definition")
    elif kind == "scaled":
        ctx.teq(residual_mod.ScaledResidualConnect(0.75)(x, r), x + r * 0.75, "definition")
    elif kind == "laurel":
        m = residual_mod.LAuReLResidualConnect(2, 1, RMSNorm(2, False, eps=EPS))
        ctx.params(m)
        low = sum(r[..., i] * m.linear_left.weight[0, i] for i in range(2))
        up = torch.stack([low * m.linear_right.weight[j, 0] for j in range(2)], -1)
        ctx.teq(m(x, r), _normalized(x + up, 1, EPS, False) * m.layer_norm.weight, "definition")
    else:
        p = {"drop0": 0.0, "drop25": 0.25}.get(kind, 0.5)
        m = residual_mod.DropPathResidualConnect(p, scale_by_keep=kind != "drop50-unscaled")
        m.train(kind != "drop-eval")
        stub = residual_mod.torch = _Draw(ctx)
        try:
            y = m(x, r)
        finally:
            residual_mod.torch = torch
        if kind in ("drop0", "drop-eval"):
            ctx.teq(y, x + r, "definition")
            return
        for b in range(2):
            keep = bool(stub.last[b].item() >= p)
            scale = 1 / (1 - p) if kind != "drop50-unscaled" else 1
            ctx.teq(y[b], x[b] / (1 - p) + r[b] if keep and scale != 1 else x[b] + r[b] if keep else r[b], "definition")
