"""Sequence losses equal the masked negative log-likelihood of the targets."""
from props._models import *

from fairseq2.nn.functional import cross_entropy

OUTSIDE = "rounding and infinite logits; targets out of the vocabulary; a mean over no target"
ASSUMPTIONS = []


def _oracle(lp, targets, counts, ls, reduction, shape):
    """lp: log-probabilities (n, V) nested lists; counts[i]: whether target i counts"""
    V = len(lp[0])
    eps = ls / (V - 1) if ls is not None else None
    vals = []
    for row, t, c in zip(lp, targets, counts):
        nll = -row[t] if isinstance(t, int) else -sum((ite(t == j, row[j], 0) for j in range(1, V)), ite(t == 0, row[0], 0))
        v = nll if ls is None else (1 - ls - eps) * nll + eps * -sum(row[1:], row[0])
        vals.append(ite(c, v, 0))
    if reduction == "none":
        return vals
    s = sum(vals[1:], vals[0])
    if reduction == "sum":
        return s
    n = sum((ite(c, 1, 0) for c in counts[1:]), ite(counts[0], 1, 0))
    return s / n


def _function(ctx, smooth, masked, red, shape, pads):
    V, n = 3, math.prod(shape)
    logits = ctx.tensor("logits", (*shape, V))
    pad = [None, 0, 2, 1][int(ctx.int("pad_idx", 0, pads))]
    ls = ctx.real("smoothing", 0, 1) if smooth else None
    if smooth:
        ctx.assume(and_(ls > 0, ls < 1))
    if smooth or (masked and red == "mean"):
        ts = [int(ctx.int(f"target{i}", 0, 1 if i else 2)) for i in range(n)]
        targets = torch.tensor(ts).reshape(shape)
    else:
        targets = ctx.itensor("targets", shape, 0, V - 1)
        ts = [targets.flatten()[i].item() for i in range(n)]
    mask = ctx.btensor("mask", shape) if masked else None
    if masked and (smooth or red == "mean"):
        mask = torch.tensor([bool(b.item()) for b in mask.flatten()]).reshape(shape)
    ms = [mask.flatten()[i].item() for i in range(n)] if masked else [True] * n
    counts = [and_(m, True if pad is None else t != pad) for m, t in zip(ms, ts)]
    if red == "mean":
        ctx.assume(or_(*counts))
    lp = torch.log_softmax(logits, -1).reshape(n, V).tolist()
    got = cross_entropy(logits, targets, pad, label_smoothing=ls if smooth else 0.0, target_mask=mask, reduction=red)
    want = _oracle(lp, ts, counts, ls, red, shape)
    d = f"targets {targets}, padding {pad}"
    if red == "none":
        ctx.check(tuple(got.shape) == shape, "the loss of the counted targets", f"shape {tuple(got.shape)}")
        for i, w in enumerate(want):
            ctx.eq(got.flatten()[i].item(), w, "the loss of the counted targets", f"{d}, element {i}")
    else:
        ctx.check(got.ndim == 0, "the loss of the counted targets", f"shape {tuple(got.shape)}")
        ctx.eq(got.item(), want, "the loss of the counted targets", d)
    ctx.raises(ValueError, lambda: cross_entropy(logits, targets, pad, label_smoothing=0.1, target_mask=mask, reduction="avg"), "unknown reduction rejected")


def _shapes(tier, smooth):
    return [
        dict(masked=m, red=r, shape=sh, pads=2 if tier == "quick" else 3)
        for m in (True, False)
        for r in ("mean", "sum", "none")
        for sh in (([(1, 3)] if m == smooth else [(3,)]) if tier == "quick" else [(2, 2), (3,)])
    ]


@harness(
    bounds="1..2 sequences, 3..4 positions, 3 symbols, arbitrary logits and targets, padding index 0 or 2 (thorough: each) or none, every target mask (or none), no smoothing, every reduction, batched and flat logits",
    labels=["the loss of the counted targets", "unknown reduction rejected"],
    params=lambda tier: _shapes(tier, False),
    tensor=True,
    let=6,
)
def function(ctx, masked, red, shape, pads):
    _function(ctx, False, masked, red, shape, pads)


@harness(
    bounds="as above with any smoothing in (0, 1) and targets out of 2 symbols except the first",
    labels=["the loss of the counted targets", "unknown reduction rejected"],
    params=lambda tier: _shapes(tier, True),
    tensor=True,
)
def smoothed(ctx, masked, red, shape, pads):
    _function(ctx, True, masked, red, shape, pads)


@harness(
    bounds="LLaMA, Gemma3n, NLLB and S2T models with arbitrary weights, 2 sequences of 2 targets, 2 target masks (thorough: 4), 1 padded target, smoothing 0 and 0.25, sum and mean",
    labels=["the loss of the logits", "the logits"],
    params=lambda tier: [dict(model=m, smooth=s, masks=2 if tier == "quick" else 4) for m in ("gemma3n", "nllb", "s2t-transformer", "llama", "olmo") for s in (0.0, 0.25) if tier != "quick" or m == "llama" or (m == "nllb") == (s > 0)],
    tensor=True,
    let=60,
    timeout_ms=4000,
)
def models(ctx, model, smooth, masks):
    if model in SEQ2SEQ:
        make, shape, w = SEQ2SEQ[model]
        m = symbolic(ctx, make())
        src = torch.arange(2 * w).remainder(VOCAB).reshape(2, w) if shape is None else ctx.tensor("source", (2, w, *shape))
        args = (src, BatchLayout((2, w), [w, w - 1] if w < 5 else None), torch.tensor([[1, 2], [3, 4]]), BatchLayout((2, 2), [2, 1]))
    else:
        m = build(ctx, model)
        args = (torch.tensor([[1, 2], [3, 4]]), BatchLayout((2, 2), [2, 1]))
    pad = m.pad_idx
    red = ["sum", "mean"][int(ctx.int("reduction", 0, 1))]
    ts = [5, 2, 3, 4 if pad is None else pad]
    targets = torch.tensor(ts).reshape(2, 2)
    ms = [[True] * 4, [False, True, False, True], [True, False, False, True], [False, False, True, True]][int(ctx.int("masked", 0, masks - 1))]
    mask = None if all(ms) else torch.tensor(ms).reshape(2, 2)
    counts = [c and t != pad for c, t in zip(ms, ts)]
    ctx.assume(any(counts))
    logits = m(*args)
    kw = dict(label_smoothing=smooth, target_mask=mask, reduction=red)
    loss, logits2 = m(*args, targets=targets, return_logits=True, **kw)
    ctx.teq(logits2, logits, "the logits")
    want = _oracle(torch.log_softmax(logits, -1).reshape(4, -1).tolist(), ts, counts, Fraction(smooth) if smooth else None, red, (2, 2))
    ctx.eq(loss.item(), want, "the loss of the logits", f"{model} with logits")
    ctx.eq(m(*args, targets=targets, **kw).item(), loss.item(), "the loss of the logits", f"{model} without logits")


@harness(
    bounds="2 masked frames, 2 codebooks of 3 entries (and 3 of 2), arbitrary logits and targets; contrastive logits of 2 x 2 positions and 3 candidates; arbitrary features and perplexity, arbitrary weights of the terms, smoothing 0 and 0.25",
    labels=["the masked prediction loss", "contrastive loss", "diversity loss", "features penalty", "weighted sum"],
    params=lambda tier: grid(books=[2, 3], smooth=[0.0, 0.25]),
    tensor=True,
)
def self_supervised(ctx, books, smooth):
    from types import SimpleNamespace as NS

    from fairseq2.models.w2vbert.model import W2VBertModel, W2VBertOutput
    from fairseq2.models.wav2vec2.model import Wav2Vec2Model

    V = 3 if books == 2 else 2
    w2v2 = NS(quantizer=NS(num_codebooks=books, num_codebook_entries=V))
    for name in ("compute_loss", "compute_contrastive_loss", "compute_diversity_loss", "compute_features_penalty"):
        setattr(w2v2, name, getattr(Wav2Vec2Model, name).__get__(w2v2))
    logits = ctx.tensor("logits", (2, 2, 3))
    feats = ctx.tensor("features", (1, 2, 2))
    ppl = ctx.tensor("perplexity", ())
    w2v2_output = NS(logits=logits, quantizer_output=NS(prob_perplexity=ppl), raw_features=feats)
    bert = ctx.tensor("bert", (2, V, books))
    targets = ctx.itensor("targets", (2, books), 0, V - 1)
    wb, ww, wd, wf = (ctx.real(n) for n in ("bert_weight", "w2v2_weight", "diversity_weight", "penalty_weight"))
    model = NS(w2v2_model=w2v2)
    loss = W2VBertModel.compute_loss(model, W2VBertOutput(w2v2_output, bert, targets), bert_weight=wb, bert_label_smoothing=smooth, w2v2_weight=ww, w2v2_diversity_weight=wd, w2v2_features_penalty_weight=wf)
    lp = torch.log_softmax(bert.transpose(1, 2), -1).reshape(2 * books, V).tolist()
    ts = [targets.flatten()[i].item() for i in range(2 * books)]
    ctx.eq(loss.bert.item(), _oracle(lp, ts, [True] * (2 * books), Fraction(smooth) if smooth else None, "sum", None), "the masked prediction loss", f"{books} codebooks of {V}")
    lp = torch.log_softmax(logits, -1).reshape(4, 3).tolist()
    ctx.eq(loss.w2v2.contrastive.item(), -sum((r[0] for r in lp[1:]), lp[0][0]), "contrastive loss")
    entries = books * V
    ctx.eq(loss.w2v2.diversity.item(), (entries - ppl.item()) / entries * 4, "diversity loss")
    sq = [x * x for x in feats.flatten().tolist()]
    ctx.eq(loss.w2v2.features_penalty.item(), sum(sq[1:], sq[0]) / 4 * 4, "features penalty")
    agg = loss.w2v2.contrastive.item() + wd * loss.w2v2.diversity.item() + wf * loss.w2v2.features_penalty.item()
    ctx.eq(loss.w2v2.aggregate.item(), agg, "weighted sum", "wav2vec 2.0")
    ctx.eq(loss.aggregate.item(), wb * loss.bert.item() + ww * agg, "weighted sum", "w2v-BERT")


@harness(
    bounds="1 row of 2 masked frames, 2 codebooks of 3 entries (and 3 of 2), arbitrary quantized entries, every number of target codebooks",
    labels=["the quantized entries are the targets"],
    params=lambda tier: grid(books=[2, 3]),
    tensor=True,
)
def quantized_targets(ctx, books):
    from types import SimpleNamespace as NS

    from fairseq2.models.w2vbert.model import W2VBertModel

    V = 3 if books == 2 else 2
    n = int(ctx.int("num_target_codebooks", 1, books))
    model = NS(w2v2_model=NS(quantizer=NS(num_codebooks=books, num_codebook_entries=V)), num_target_codebooks=n)
    targets = ctx.itensor("targets", (2, books), 0, V - 1)
    ts = torch.tensor([int(t.item()) for t in targets.flatten()]).reshape(2, books)
    cb = torch.nn.functional.one_hot(ts, V).reshape(1, 2, books * V)
    got = W2VBertModel._get_target_indices(model, NS(quantized_vectors=torch.zeros(1, 2, 2), cb=cb))
    ctx.teq(got, targets[:, :n], "the quantized entries are the targets", f"{n} of {books} codebooks")


def _alignments(n, target, blank=0):
    """all label sequences of length n that collapse to target"""
    import itertools

    for p in itertools.product([blank, *sorted(set(target))], repeat=n):
        out, last = [], None
        for x in p:
            if x != last and x != blank:
                out.append(x)
            last = x
        if out == list(target):
            yield p


@harness(
    bounds="2 sequences of 1..3 frames after the front-end and 1..2 targets, 3 symbols, arbitrary encoder outputs and final projection, every length combination, impossible alignments included",
    labels=["the probability of all alignments", "logits of the real frames"],
    params=lambda tier: grid(frames=[(3, 2), (3, 3), (2, 3)] if tier == "quick" else [(3, 2), (3, 3), (2, 3), (3, 1), (1, 3), (4, 3)], tlens=[(2, 1), (1, 2), (2, 2)]),
    tensor=True,
    timeout_ms=4000,
)
def ctc(ctx, frames, tlens):
    from torch.nn import Module

    from fairseq2.models.wav2vec2.asr.model import Wav2Vec2AsrModel
    from fairseq2.nn import Linear

    D, V = 2, 3

    class Frontend(Module):
        def extract_features(self, seqs, layout):
            return seqs, layout, seqs

        def process_features(self, seqs, layout, masker):
            return seqs, None

    class Encoder(Module):
        def forward(self, seqs, layout):
            return seqs

    class M(Module):
        forward = Wav2Vec2AsrModel.forward

    m = M()
    m.encoder_frontend, m.encoder, m.masker, m.final_dropout = Frontend(), Encoder(), None, None
    m.final_proj = Linear(D, V, bias=True)
    ctx.params(m)
    m.train(ctx.flag("training"))
    w = max(frames)
    x = ctx.tensor("seqs", (2, w, D))
    same = ctx.flag("repeated")
    ts = [[1, 1] if same else [2, 1], [2, 2] if same else [1, 2]]
    layout, tl = BatchLayout((2, w), list(frames)), BatchLayout((2, 2), list(tlens))
    loss, logits, _ = m(x, layout, torch.tensor(ts), tl, return_logits=True)
    alone = m(x, layout, torch.tensor(ts), tl)
    total = 0
    for b in range(2):
        ctx.teq(logits[b, : frames[b]], m.final_proj(x[b, : frames[b]]), "logits of the real frames")
        paths = list(_alignments(frames[b], ts[b][: tlens[b]]))
        if not paths:
            continue  # the infinite loss is zeroed
        lp = torch.log_softmax(logits[b], -1)
        p = sum(math.prod(lp[t, c].exp() for t, c in enumerate(path)) for path in paths)
        total = total - torch.log(p)
    if not isinstance(total, int):
        total = total.item()
    ctx.eq(loss.item(), total, "the probability of all alignments", f"frames {frames}, targets {ts} of lengths {tlens}")
    ctx.eq(alone.item(), loss.item(), "the probability of all alignments", "without logits")
