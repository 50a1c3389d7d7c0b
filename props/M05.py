"""Position encoders depend on the position only, in all input layouts."""
from symx.api import *

from fairseq2.models.llama.config import LLaMARoPEScaleConfig
from fairseq2.models.llama.factory import init_llama_rope_freqs
from fairseq2.models.olmo.yarn_rope import YaRNRotaryEncoder
from fairseq2.models.transformer.sdpa.relative import RelativePositionalEncoding
from fairseq2.nn import BatchLayout, IncrementalStateBag
from fairseq2.nn.position_encoder import *
from fairseq2.nn.position_encoder import Sinusoidal2dPositionEncoder, Sinusoidal3dPositionEncoder

OUTSIDE = "rounding; the interpolated 2-d and 3-d encoders at sizes other than their grid (PyTorch's interpolation)"
ASSUMPTIONS = ["the encoding at padding positions is unspecified"]

MAX, DIM = 4, 4
TOL = 1e-5


def _make(kind, dim=DIM, max_len=MAX):
    if kind == "sinusoidal":
        return SinusoidalPositionEncoder(dim, max_len)
    if kind == "sinusoidal-legacy":
        return SinusoidalPositionEncoder(dim, max_len, _legacy_pad_idx=1)
    if kind == "learned":
        return LearnedPositionEncoder(dim, max_len)
    if kind == "rotary":
        return RotaryEncoder(dim, max_len)
    if kind == "reference":
        return ReferenceRotaryEncoder(dim, max_len)
    if kind == "yarn":
        return YaRNRotaryEncoder(dim, max_len, scale_factor=8.0, original_max_seq_len=4)
    assert kind == "yarn-plain"
    return YaRNRotaryEncoder(dim, max_len, scale_factor=1.0, original_max_seq_len=4)


KINDS = ["sinusoidal", "learned", "rotary", "reference", "yarn"]


def _tables(ctx, enc, kind):
    """Replaces the tables with arbitrary values; returns encode(x, position)."""
    if kind in ("sinusoidal", "sinusoidal-legacy"):
        enc.freqs = t = ctx.tensor("table", tuple(enc.freqs.shape))
        return lambda x, p: x + t[1 + p]
    if kind == "learned":
        ctx.params(enc)
        w = enc.weight
        return lambda x, p: x + w[1 + p]
    if kind == "rotary":
        enc.freqs = t = ctx.tensor("table", tuple(enc.freqs.shape))

        def rotate(x, p):
            c, s = t[1 + p, :, 0], t[1 + p, :, 1]
            a, b = x[..., 0::2], x[..., 1::2]
            return torch.stack((a * c - b * s, a * s + b * c), -1).flatten(-2)

        return rotate
    enc.cos_freqs = cos = ctx.tensor("cos", tuple(enc.cos_freqs.shape))
    enc.sin_freqs = sin = ctx.tensor("sin", tuple(enc.sin_freqs.shape))
    scale = getattr(enc, "attention_scaling", 1.0)
    h = enc.encoding_dim // 2

    def halves(x, p):
        c, s = cos[1 + p] * scale, sin[1 + p] * scale
        a, b = x[..., :h], x[..., h:]
        return torch.cat((a * c[:h] - b * s[:h], b * c[h:] + a * s[h:]), -1)

    return halves


@harness(
    bounds="tables of 4 positions with arbitrary contents, dimension 4; plain, padded and packed layouts of up to 5 elements (every length combination), with and without heads, every step number up to 5, training and evaluation",
    labels=["the encoding of the position", "too long rejected", "accepted up to the maximum"],
    params=lambda tier: grid(kind=KINDS, layout=["padded", "packed", "plain"], heads=[1] if tier == "quick" else [0, 1, 2]) + grid(kind=["rotary"], layout=["packed", "plain"], heads=[0]),
    tensor=True,
)
def layouts(ctx, kind, layout, heads):
    enc = _make(kind)
    encode = _tables(ctx, enc, kind)
    extra = (heads,) if heads else ()
    inc = ctx.flag("incremental")
    training = ctx.flag("training")
    enc.train(training)
    bag, step = None, 0
    if inc:
        bag = IncrementalStateBag(10)
        step = int(ctx.int("step_nr", 0, MAX + 1))
        if step:
            bag.increment_step_nr(step)
    if layout == "packed":
        k = int(ctx.int("num_seqs", 1, 2))
        lens = [int(ctx.int(f"len{i}", 1, MAX + 1 if k == 1 else 2 if i else 3)) for i in range(k)]
        pad = int(ctx.int("pad", 0, 1))
        x = ctx.tensor("seqs", (sum(lens) + pad, *extra, DIM))
        lay = BatchLayout((sum(lens) + pad,), lens, packed=True)
    else:
        w = int(ctx.int("width", 1, MAX + 1))
        if layout == "plain":
            lens = [w, w]
            lay = BatchLayout((2, w), None)
        else:
            lens = [int(ctx.int("len0", 1, w)), int(ctx.int("len1", 1, w))]
            ctx.assume(min(lens) < w)
            lay = BatchLayout((2, w), lens)
        x = ctx.tensor("seqs", (2, w, *extra, DIM))
    base = step if inc and not training else 0
    if base + max(lens) > MAX:
        ctx.raises(ValueError, lambda: enc(x, lay, state_bag=bag), "too long rejected")
        return
    try:
        out = enc(x, lay, state_bag=bag)
    except (ValueError, IndexError) as e:
        ctx.fail("accepted up to the maximum", f"{kind}, {layout}, lengths {lens}, step {base}: {e}")
        return
    ctx.check(True, "accepted up to the maximum")
    at = 0
    for b, n in enumerate(lens):
        for i in range(n):
            got, want = (out[at + i], x[at + i]) if layout == "packed" else (out[b, i], x[b, i])
            ctx.teq(got, encode(want, base + i), "the encoding of the position", f"{kind}, {layout}, lengths {lens}, step {base}, row {b}, element {i}")
        at += n


def _close(ctx, a, b, label, detail, tol=TOL):
    a, b = float(a), float(b)
    ctx.check(math.isfinite(a) and abs(a - b) <= tol * max(1.0, abs(b)), label, f"{detail}: {a} instead of {b}")


def _yarn_oracle(d, theta, factor, orig, fast, slow, truncate):
    """The YaRN paper: interpolate (divide by the factor) the dimensions that rotate fewer than `slow` times over the
    original context, keep those that rotate more than `fast` times, and blend in between."""
    def dim_of(rot):
        return d * math.log(orig / (rot * 2 * math.pi)) / (2 * math.log(theta))

    lo, hi = dim_of(fast), dim_of(slow)
    if truncate:
        lo, hi = math.floor(lo), math.ceil(hi)
    lo, hi = max(lo, 0), min(hi, d - 1)
    if lo == hi:
        hi += 0.001
    res = []
    for i in range(d // 2):
        keep = 1 - min(max((i - lo) / (hi - lo), 0), 1)
        f = theta ** (-2 * i / d)
        res.append(f * keep + f / factor * (1 - keep))
    return res


@harness(
    bounds="every encoder, dimensions 2, 4, 6, 8, up to 5 positions (thorough: 64), thetas 10, 10^4, 5*10^5, legacy padding indices 0..2, YaRN factors 1, 2.5, 8; relative tolerance 1e-5",
    labels=["sinusoidal table", "rotary table", "reference rotary table", "YaRN table", "relative table", "tables survive a reset"],
    params=lambda tier: grid(d=[2, 4, 6, 8] if tier == "quick" else [2, 4, 6, 8, 12, 16], n=[1, 5] if tier == "quick" else [1, 2, 5, 64]),
)
def tables(ctx, d, n):
    pad_idx = int(ctx.int("legacy_pad_idx", -1, 2))
    off = pad_idx + 1
    enc = SinusoidalPositionEncoder(d, n, _legacy_pad_idx=None if pad_idx < 0 else pad_idx)
    h = d // 2
    for again in range(2):
        for p in range(n):
            for i in range(h):
                a = (p + off) * 10000.0 ** (-i / max(h - 1, 1))
                _close(ctx, enc.freqs[1 + p, i], math.sin(a), "sinusoidal table", f"sine, dimension {d}, position {p}, {i}")
                _close(ctx, enc.freqs[1 + p, h + i], math.cos(a), "sinusoidal table", f"cosine, dimension {d}, position {p}, {i}")
        enc.freqs.fill_(7.0)
        enc.reset_non_persistent_buffers()
    theta = [10.0, 1e4, 5e5][int(ctx.int("theta", 0, 2))]
    rot, ref = RotaryEncoder(d, n, theta=theta), ReferenceRotaryEncoder(d, n, theta=theta)
    own = RotaryEncoder(d, n, theta=theta, freqs_init_fn=lambda e: torch.arange(h).float() + e.theta / 1e6)
    factor = [1.0, 2.5, 8.0][int(ctx.int("factor", 0, 2))]
    trunc = ctx.flag("truncate")
    yarn = YaRNRotaryEncoder(d, n, theta=theta, scale_factor=factor, original_max_seq_len=64, truncate=trunc)
    _close(ctx, yarn.attention_scaling, 1.0 if factor <= 1 else 1 + 0.1 * math.log(factor), "YaRN table", "attention scaling")
    freqs = _yarn_oracle(d, theta, factor, 64, 32.0, 1.0, trunc)
    for p in range(n):
        for i in range(h):
            a = p * theta ** (-2 * i / d)
            b = p * (i + theta / 1e6)
            for e, x in ((rot, a), (own, b)):
                _close(ctx, e.freqs[1 + p, i, 0], math.cos(x), "rotary table", f"cosine, dimension {d}, position {p}, {i}", 1e-4)
                _close(ctx, e.freqs[1 + p, i, 1], math.sin(x), "rotary table", f"sine, dimension {d}, position {p}, {i}", 1e-4)
            for j in (i, h + i):
                for e, x, label in ((ref, a, "reference rotary table"), (yarn, p * freqs[i], "YaRN table")):
                    _close(ctx, e.cos_freqs[1 + p, j], math.cos(x), label, f"cosine, dimension {d}, position {p}, {j}", 1e-4)
                    _close(ctx, e.sin_freqs[1 + p, j], math.sin(x), label, f"sine, dimension {d}, position {p}, {j}", 1e-4)
    rel = RelativePositionalEncoding(d, n)
    m = int(ctx.int("length", 1, min(n, 3)))
    r = rel(torch.zeros(1, m, d))
    ctx.check(tuple(r.shape) == (2 * m - 1, d), "relative table", f"shape {tuple(r.shape)} for length {m} of {n}")
    for j in range(2 * m - 1):
        for i in range(h):
            a = (m - 1 - j) * 10000.0 ** (-2 * i / d)
            _close(ctx, r[j, 2 * i], math.sin(a), "relative table", f"sine, length {m} of {n}, row {j}, {i}")
            _close(ctx, r[j, 2 * i + 1], math.cos(a), "relative table", f"cosine, length {m} of {n}, row {j}, {i}")
    for e in (rot, ref, yarn, rel):
        before = {k: v.clone() for k, v in e.named_buffers()}
        for v in e.buffers():
            v.fill_(7.0)
        e.reset_non_persistent_buffers()
        ctx.check(all(torch.equal(v, before[k]) for k, v in e.named_buffers()), "tables survive a reset", str(e))


@harness(
    bounds="arbitrary real factor >= 1, frequency factors 0 < low < high <= 64, context length 1..10^6; theta 10^4 and 5*10^5, head dimension 4, 8 (thorough: 16)",
    labels=["scaled frequency", "between the scaled and the original frequency"],
    params=lambda tier: grid(theta=[1e4, 5e5], d=[4, 8] if tier == "quick" else [4, 8, 16]),
    tensor=True,
)
def llama_scaling(ctx, theta, d):
    factor, lo, hi, old = ctx.real("factor", 1, 100), ctx.real("low", 0, 64), ctx.real("high", 0, 64), ctx.int("context", 1, 10**6)
    ctx.assume(lo > Fraction(1, 100))
    ctx.assume(hi > lo)
    freqs = init_llama_rope_freqs(RotaryEncoder(d, 2, theta=theta), LLaMARoPEScaleConfig(factor=factor, frequency_factors=(lo, hi), original_context_length=old))
    plain = 1.0 / (theta ** (torch.arange(0, d, 2, dtype=torch.float32) / d))
    two_pi = Fraction(2 * math.pi)
    for i, f in enumerate(plain.tolist()):
        got, w = freqs[i].item(), Fraction(2 * math.pi / f)
        f = Fraction(f)
        # Rotations over the original context decide.
        if old / w > hi:
            want = f
        elif old / w < lo:
            want = f / factor
        else:
            s = (old / w - lo) / (hi - lo)
            want = f / factor + s * (f - f / factor)
        slack = f * Fraction(1, 100000)
        ctx.check(and_(got <= want + slack, got >= want - slack), "scaled frequency", f"theta {theta}, {i}")
        ctx.check(and_(got <= f + slack, (got + slack) * factor >= f), "between the scaled and the original frequency", f"theta {theta}, {i}")


@harness(
    bounds="arbitrary vectors with components in [-1, 1], dimension 2 (YaRN: 4), positions up to 5 with the real tables, every shift; absolute tolerance 1e-4",
    labels=["norms are preserved", "scores depend on relative positions"],
    params=lambda tier: grid(kind=["rotary", "reference", "yarn", "yarn-plain"], shift=[1, 2] if tier == "quick" else [1, 2, 3, 4]),
    tensor=True,
)
def relative(ctx, kind, shift):
    d, n = 2, 6
    enc = _make(kind, d, n).eval()
    scale = Fraction(getattr(enc, "attention_scaling", 1.0)) ** 2
    q, k = ctx.tensor("q", (1, 1, d), lo=-1, hi=1), ctx.tensor("k", (1, 1, d), lo=-1, hi=1)
    one = BatchLayout((1, 1), None)

    def at(x, p):
        bag = IncrementalStateBag(n + 1)
        if p:
            bag.increment_step_nr(p)
        return enc(x, one, state_bag=bag).flatten()

    m = int(ctx.int("m", 0, n - 1 - shift))
    j = int(ctx.int("n", 0, n - 1 - shift))
    tol = Fraction(1, 10000)

    def dot(a, b):
        return sum((x * y for x, y in zip(a.tolist(), b.tolist())), 0)

    a = at(q, m)
    e = dot(a, a) - scale * dot(q.flatten(), q.flatten())
    ctx.check(and_(e <= tol, e >= -tol), "norms are preserved", f"{kind}, position {m}")
    e = dot(a, at(k, j)) - dot(at(q, m + shift), at(k, j + shift))
    ctx.check(and_(e <= tol, e >= -tol), "scores depend on relative positions", f"{kind}, positions {m}, {j} and shifted by {shift}")


@harness(
    bounds="grids up to 3x3 (3x2x3), dimensions 4, 6, 8, 12, 16, arbitrary inputs; relative tolerance 1e-5 for the table",
    labels=["2-d table", "3-d table", "adds the table"],
    params=lambda tier: grid(d=[4, 6, 8, 12] if tier == "quick" else [4, 6, 8, 10, 12, 16, 18, 24]),
    tensor=True,
)
def interpolated(ctx, d):
    h, w, deep = int(ctx.int("h", 1, 3)), int(ctx.int("w", 1, 3)), int(ctx.int("depth", 1, 2))

    def column(pos, i, dim):
        half = dim // 2
        a = pos * 10000.0 ** (-(i % half) / half)
        return math.sin(a) if i < half else math.cos(a)

    e2 = Sinusoidal2dPositionEncoder(d, (h, w))
    u = math.ceil(d / 4) * 2
    for y in range(h):
        for x in range(w):
            for i in range(d):
                want = column(y, i, u) if i < u else column(x, i - u, u)
                _close(ctx, e2.freqs[y, x, i], want, "2-d table", f"dimension {d}, ({y}, {x}), {i}")
    x2 = ctx.tensor("image", (2, h, w, d))
    ctx.teq(e2(x2), x2 + e2.freqs, "adds the table", f"2-d {h}x{w}")
    uniform = ctx.flag("uniform_power")
    dims = [math.ceil(d / 6) * 2] * 3 if uniform else [math.ceil(d / 4) * 2, math.ceil(d / 8) * 2, math.ceil(d / 8) * 2]
    if sum(dims[:2]) >= d:
        return
    e3 = Sinusoidal3dPositionEncoder(d, (deep, h, w), uniform_power=uniform)
    for z in range(deep):
        for y in range(h):
            for x in range(w):
                for i in range(d):
                    if i < dims[0]:
                        want = column(z, i, dims[0])
                    elif i < dims[0] + dims[1]:
                        want = column(y, i - dims[0], dims[1])
                    else:
                        want = column(x, i - dims[0] - dims[1], dims[2])
                    _close(ctx, e3.freqs[z, y, x, i], want, "3-d table", f"dimension {d}, ({z}, {y}, {x}), {i}")
    x3 = ctx.tensor("video", (1, deep, h, w, d))
    ctx.teq(e3(x3), x3 + e3.freqs, "adds the table", f"3-d {deep}x{h}x{w}")
