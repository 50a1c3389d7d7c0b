"""Packed and padded batches give identical results."""
from props._models import *

from fairseq2.models.transformer import set_default_sdpa_factory
from fairseq2.models.transformer.sdpa.naive import NaiveSDPA
from fairseq2.models.transformer.sdpa.torch import TorchSDPA

OUTSIDE = "flash-attention back ends (need a GPU); Gemma3n and the convolutional speech encoders, which reject packed batches; rounding"
ASSUMPTIONS = []
SDPAS = {"torch": TorchSDPA, "naive": NaiveSDPA}


class _sdpa:
    """every attention module built inside uses the given back end"""

    def __init__(self, name):
        self.name = name

    def __enter__(self):
        set_default_sdpa_factory(lambda bias, *, dropout_p=0.0, **kw: SDPAS[self.name](bias, dropout_p=dropout_p, **kw))

    def __exit__(self, *a):
        set_default_sdpa_factory(TorchSDPA)


def _packed(ctx, n, longest, spare):
    lens = [int(ctx.int(f"len{i}", 1, longest)) for i in range(n)]
    return lens, sum(lens) + int(ctx.int("padding", 0, spare))


def _spread(lens):
    """(row, start) of every sequence in the packed row"""
    s = 0
    for i, k in enumerate(lens):
        yield i, s, k
        s += k


@harness(
    bounds="2 sequences of length 1..2 (thorough: 3 sequences up to 3), packed with 0..1 padding elements after them",
    labels=["packed and padded agree"],
    params=lambda tier: grid(model=[m for m in LMS if "gemma" not in m], sdpa=list(SDPAS), n=[2, 3], longest=[3]) if tier != "quick" else grid(model=[m for m in LMS if "gemma" not in m], sdpa=["torch"]) + grid(model=["llama", "mistral", "llama4"], sdpa=["naive"]),
    tensor=True,
    let=60,
    timeout_ms=4000,
)
def language_models(ctx, model, sdpa, n=2, longest=2):
    with _sdpa(sdpa):
        m = build(ctx, model)
    lens, width = _packed(ctx, n, longest, 1)
    ids = torch.arange(width).add(1).remainder(VOCAB)
    out = m(ids, BatchLayout((width,), lens, packed=True))
    w = max(lens)
    rows = torch.full((n, w), 5)
    for i, s, k in _spread(lens):
        rows[i, :k] = ids[s : s + k]
    ref = m(rows, BatchLayout((n, w), lens))
    for i, s, k in _spread(lens):
        ctx.teq(out[s : s + k], ref[i, :k], "packed and padded agree", f"sequence {i} of {lens} in {width}")


@harness(
    bounds="2 source sequences of length 1..2 and 2 target sequences of length 1..2 (thorough: up to 3), both packed with 0..1 padding elements after them",
    labels=["packed and padded agree"],
    params=lambda tier: grid(sdpa=list(SDPAS), longest=[2] if tier == "quick" else [2, 3]),
    tensor=True,
    let=60,
    timeout_ms=4000,
)
def seq2seq_models(ctx, sdpa, longest):
    with _sdpa(sdpa):
        m = symbolic(ctx, SEQ2SEQ["nllb"][0]())
    sl, sw = _packed(ctx, 2, longest, 1)
    tl = [int(ctx.int(f"target{i}", 1, 2)) for i in range(2)]
    tw = sum(tl)
    src, tgt = torch.arange(sw).remainder(VOCAB), torch.arange(tw).add(1).remainder(VOCAB)
    out = m(src, BatchLayout((sw,), sl, packed=True), tgt, BatchLayout((tw,), tl, packed=True))
    s2, t2 = torch.zeros((2, max(sl)), dtype=torch.int64), torch.zeros((2, max(tl)), dtype=torch.int64)
    for i, s, k in _spread(sl):
        s2[i, :k] = src[s : s + k]
    for i, s, k in _spread(tl):
        t2[i, :k] = tgt[s : s + k]
    ref = m(s2, BatchLayout((2, max(sl)), sl), t2, BatchLayout((2, max(tl)), tl))
    for i, s, k in _spread(tl):
        ctx.teq(out[s : s + k], ref[i, :k], "packed and padded agree", f"sequence {i} of {sl} in {sw} / {tl}")
