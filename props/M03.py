"""Causal, windowed and chunked attention see exactly the allowed positions."""
from symx.api import *

from fairseq2.models.transformer.attention_bias import ALiBiAttentionBias, AttentionBiasCache, CausalAttentionBias, ChunkedAttentionBias, IdentityBias
from fairseq2.models.transformer.sdpa.naive import NaiveSDPA
from fairseq2.models.transformer.sdpa.relative import RelativePositionalEncoding, RelativePositionSDPA
from fairseq2.models.transformer.sdpa.shaw import ShawRelativePositionSDPA
from fairseq2.models.transformer.sdpa.soft_capped import SoftCappedSDPA
from fairseq2.models.transformer.sdpa.torch import TorchSDPA
from fairseq2.nn import BatchLayout

OUTSIDE = "the GPU-only Flash Attention back ends; rounding; the internals of PyTorch's fused kernel (modelled by its documented formula); more than 5 positions; cross attention with fewer keys than queries under a causal pattern"
ASSUMPTIONS = ["softmax over the reals (shift invariant)", "exp and tanh are functions of which only basic facts are used"]

PATTERNS = ["identity", "causal", "window", "chunk", "alibi"]


def make_bias(kind, n, heads):
    if kind == "identity":
        return IdentityBias()
    if kind == "causal":
        return CausalAttentionBias()
    if kind == "window":
        return CausalAttentionBias(attn_window_len=n)
    if kind == "chunk":
        return ChunkedAttentionBias(n)
    return ALiBiAttentionBias(heads)


def allowed(kind, n, i, lq, lk):
    """the key positions that query i of lq may attend to among lk keys"""
    pos = lk - lq + i
    if kind == "identity":
        return list(range(lk))
    if kind in ("causal", "alibi"):
        return [j for j in range(lk) if j <= pos]
    if kind == "window":
        return [j for j in range(lk) if pos - n < j <= pos]
    return [j for j in range(lk) if j <= pos and j // n == pos // n]


def reference(kind, n, q, k, v, i, lq, score):
    """q: (H, K), k: (lk, H, K), v: (lk, H, V) of one sequence -> (H, V)"""
    lk = k.shape[0]
    js = allowed(kind, n, i, lq, lk)
    heads = []
    for h in range(q.shape[0]):
        s = score(q[h], k[js, h], [j - (lk - lq + i) for j in js], h)
        if kind == "alibi":
            s = s + torch.tensor([float(j) * 2.0 ** (-8.0 * (h + 1) / q.shape[0]) for j in js])
        heads.append(torch.softmax(s, -1) @ v[js, h])
    return torch.stack(heads)


def scale_of(impl, q, custom):
    return custom if custom is not None else q.shape[-1] ** -0.5


def layouts(ctx, how, max_q, max_k, same):
    """-> q layout, k layout, q shape, k shape, [(row selector q, row selector k)] per sequence"""
    dev = torch.device("cpu")
    if how == "full":
        lk = ctx.int("k_len", 1, max_k)
        lk = int(lk)
        lq = lk if same else int(ctx.int("q_len", 1, min(lk, max_q)))
        return BatchLayout((1, lq), None, device=dev), BatchLayout((1, lk), None, device=dev), [[lq], [lk]], (lq, lk)
    n = 2
    wk = int(ctx.int("k_width", 2, max_k - 1))
    lks = [int(ctx.int(f"k_len{b}", 1, wk)) for b in range(n)]
    same = same or ctx.flag("same")
    if how == "padded":
        ctx.assume(any(x < wk for x in lks) or not same)
        wq = wk if same else int(ctx.int("q_width", 1, min(wk, max_q)))
        lqs = lks if same else [int(ctx.int(f"q_len{b}", 1, min(wq, lks[b]))) for b in range(n)]
        return BatchLayout((n, wq), lqs, device=dev), BatchLayout((n, wk), lks, device=dev), [lqs, lks], (wq, wk)
    lqs = lks if same else [int(ctx.int(f"q_len{b}", 1, lks[b])) for b in range(n)]
    pad = int(ctx.int("pad", 0, 1))
    wq, wk = sum(lqs) + pad, sum(lks) + pad
    return BatchLayout((wq,), lqs, packed=True, device=dev), BatchLayout((wk,), lks, packed=True, device=dev), [lqs, lks], (wq, wk)


def rows(t, how, lens, b):
    if how == "packed":
        o = sum(lens[:b])
        return t[o : o + lens[b]]
    return t[b, : lens[b]]


def run(ctx, sdpa, score, kind, how, heads, dim, max_q, max_k, same=False):
    ql, kl, (lqs, lks), (wq, wk) = layouts(ctx, how, max_q, max_k, same)
    n = int(ctx.int("size", 1, max(lks))) if kind in ("window", "chunk") else 0
    lead = () if how == "packed" else (len(lqs),)
    q = ctx.tensor("q", lead + (wq, heads, dim))
    k = ctx.tensor("k", lead + (wk, heads, dim))
    v = ctx.tensor("v", lead + (wk, heads, 1 if dim == 1 else 2))
    bias = make_bias(kind, n, heads)
    with ctx.mode():
        m = sdpa(bias).eval()
        out, _ = m(q, ql, k, kl, v, AttentionBiasCache())
        ctx.check(tuple(out.shape) == lead + (wq, heads, v.shape[-1]), "shape of the output", f"{tuple(out.shape)}")
        for b in range(len(lqs)):
            qs, ks, vs, os = rows(q, how, lqs, b), rows(k, how, lks, b), rows(v, how, lks, b), rows(out, how, lqs, b)
            for i in range(lqs[b]):
                ctx.teq(os[i], reference(kind, n, qs[i], ks, vs, i, lqs[b], score(m)), "output depends on exactly the allowed keys", f"sequence {b} query {i} of {lqs[b]}, {lks[b]} keys, {bias}")
        if how != "full":
            ctx.check(bool(torch.isfinite(out).all()) if not ctx.sym else not any(T.special(x) for x in T.payload(out).reshape(-1)), "padding rows stay finite", f"{bias} q {lqs} of {wq}, k {lks} of {wk}")


def plain_score(custom):
    def make(m):
        def f(q, k, rel, h):
            return (k @ q) * (q.shape[-1] ** -0.5 if custom is None else custom)

        return f

    return make


def cap_score(m):
    def f(q, k, rel, h):
        s = (k @ q) * (q.shape[-1] ** -0.5)
        return torch.tanh(s / 2.0) * 2.0

    return f


PLAIN = lambda tier: [
    {**p, "deep": tier == "thorough"}
    for p in grid(impl=["naive", "torch", "cap"], kind=PATTERNS, how=["full", "padded", "packed"])
    if tier == "thorough" or p["impl"] == "naive" or p["how"] == "full" or p["kind"] in ("causal", "alibi" if p["impl"] == "torch" else "identity")
]


@harness(
    bounds="1 sequence of 1..5 keys with 1..4 queries aligned to its end, or 2 padded/packed sequences of 1..3 keys with as many or 1..2 queries (thorough: up to 5 keys, 4 queries); windows and chunks 1..5; 1 head (2 for ALiBi) of dimension 1; all values arbitrary reals",
    labels=["shape of the output", "output depends on exactly the allowed keys"],
    params=PLAIN,
    tensor=True,
)
def pattern(ctx, **p):
    heads = 2 if p["kind"] == "alibi" else 1
    make = {"naive": NaiveSDPA, "torch": TorchSDPA, "cap": lambda b: SoftCappedSDPA(b, soft_cap=2.0)}[p["impl"]]
    score = cap_score if p["impl"] == "cap" else plain_score(None)
    run(ctx, make, score, p["kind"], p["how"], heads, 1, 4 if p["deep"] or p["how"] == "full" else 2, 6 if p["deep"] else 5 if p["how"] == "full" else 4)


@harness(
    bounds="3 keys, 2 heads of dimension 4, default and custom scale",
    labels=["shape of the output", "output depends on exactly the allowed keys"],
    params=lambda tier: grid(impl=["naive", "torch"], custom=[None, 1.0, 0.25]),
    tensor=True,
)
def scaling(ctx, **p):
    make = {"naive": NaiveSDPA, "torch": TorchSDPA}[p["impl"]]
    run(ctx, lambda b: make(b, scale=p["custom"]), plain_score(p["custom"]), ctx.choice("kind", ["causal", "identity"]), "full", 2, 4, 1, 2)


@harness(
    bounds="up to 4 keys, queries aligned to the end, 2 heads of dimension 1, relative distances clipped to 1..2 on the left and 0..2 on the right, with and without relative values; full and padded batches",
    labels=["shape of the output", "output depends on exactly the allowed keys"],
    params=lambda tier: grid(kind=["identity", "causal", "window"], how=["full", "padded"], values=[False, True]),
    tensor=True,
)
def shaw(ctx, **p):
    left, right = int(ctx.int("left", 1, 2)), ctx.choice("right", [None, 0, 1])
    r = left if right is None else right
    with ctx.mode():
        mod = ShawRelativePositionSDPA(2, 2, IdentityBias(), max_lhs_rel_pos=left, max_rhs_rel_pos=right, use_rel_pos_values=p["values"])
        ctx.params(mod)
    n = int(ctx.int("size", 1, 2)) if p["kind"] == "window" else 0
    ql, kl, (lqs, lks), (wq, wk) = layouts(ctx, p["how"], 3, 4, p["how"] == "padded")
    lead = (len(lqs),)
    q, k, v = ctx.tensor("q", lead + (wq, 2, 1)), ctx.tensor("k", lead + (wk, 2, 1)), ctx.tensor("v", lead + (wk, 2, 1))
    with ctx.mode():
        mod.bias = make_bias(p["kind"], n, 2)
        mod.eval()
        out, _ = mod(q, ql, k, kl, v, AttentionBiasCache())
        ctx.check(tuple(out.shape) == lead + (wq, 2, 1), "shape of the output", f"{tuple(out.shape)}")
        for b in range(len(lqs)):
            for i in range(lqs[b]):
                js = allowed(p["kind"], n, i, lqs[b], lks[b])
                ix = [max(-left, min(r, j - (lks[b] - lqs[b] + i))) + left for j in js]
                for h in range(2):
                    qi = q[b, i, h]
                    rk = mod.rel_k_embed.weight[ix]
                    s = (k[b, js, h] @ qi) + (torch.einsum("jk,k->j", rk, qi))
                    w = torch.softmax(s, -1)
                    e = w @ v[b, js, h]
                    if p["values"]:
                        e = e + w @ mod.rel_v_embed.weight[ix]
                    ctx.teq(out[b, i, h], e, "output depends on exactly the allowed keys", f"sequence {b} query {i} of {lqs[b]}, {lks[b]} keys, {mod.bias}")


@harness(
    bounds="self attention over 1..4 positions, or 2 padded sequences of up to 3; 1 head of dimension 2; identity and causal patterns",
    labels=["shape of the output", "output depends on exactly the allowed keys", "relative encoding is the sinusoid of the distance"],
    params=lambda tier: grid(kind=["identity", "causal"], how=["full", "padded"]),
    tensor=True,
)
def relative(ctx, **p):
    with ctx.mode():
        enc = RelativePositionalEncoding(2, 5)
        mod = RelativePositionSDPA(2, 1, enc, make_bias(p["kind"], 0, 1))
        ctx.params(mod)
        mod.eval()
    ql, kl, (lqs, lks), (wq, wk) = layouts(ctx, p["how"], 4, 4, True)
    lead = (len(lqs),)
    q, k, v = ctx.tensor("q", lead + (wq, 1, 2)), ctx.tensor("k", lead + (wk, 1, 2)), ctx.tensor("v", lead + (wk, 1, 1))
    with ctx.mode():
        out, _ = mod(q, ql, k, kl, v, AttentionBiasCache())
        ctx.check(tuple(out.shape) == lead + (wq, 1, 1), "shape of the output", f"{tuple(out.shape)}")
        W, c = mod.r_proj.weight, 2**-0.5
        for b in range(len(lqs)):
            for i in range(lqs[b]):
                js = allowed(p["kind"], 0, i, lqs[b], lks[b])
                s = []
                for j in js:
                    d = i - j  # distance from key to query
                    # sinusoid of the relative position, sine and cosine interleaved
                    enc_d = enc.freqs[4 - d]
                    for x, y in zip(enc_d.tolist(), (math.sin(float(d)), math.cos(float(d)))):
                        ctx.check(abs(x - y) < 1e-5, "relative encoding is the sinusoid of the distance", f"{d}: {x} vs {y}")
                    s.append((k[b, j, 0] @ (q[b, i, 0] + mod.u_bias[0])) * c + ((q[b, i, 0] + mod.v_bias[0]) @ (W @ enc_d)) * c)
                w = torch.softmax(torch.stack(s), -1)
                ctx.teq(out[b, i, 0], w @ v[b, js, 0], "output depends on exactly the allowed keys", f"sequence {b} query {i} of {lqs[b]}, {lks[b]} keys, {mod.bias}")
