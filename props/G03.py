"""Sampling draws from exactly the distribution it documents and reports the scores of what it drew."""
from props._gen import *

import fairseq2.generation.sampling.sampler as sampler_module
from fairseq2.generation.sampling import Sampler, SamplingSeq2SeqGenerator, SamplingSequenceGenerator, TopKSampler, TopPSampler
from fairseq2.generation.step_processor import BannedSequenceProcessor

OUTSIDE = "distributions without a permitted token; ties within a top-k or top-p cut; the quality of the random generator (a draw is any index of positive weight); step hooks"
ASSUMPTIONS = ["torch.multinomial returns some index of positive weight", "the probabilities of different tokens differ, unless they are zero"]


class _Torch:
    """`torch` with draws that are arbitrary instead of random"""

    def __init__(self, draw):
        self._draw = draw

    def __getattr__(self, name):
        return self._draw if name == "multinomial" else getattr(torch, name)


@harness(
    bounds="1..2 distributions over 2..4 tokens, any probabilities including zeros and unnormalized ones; top-k with k of 1..5, top-p with any p between 0 and 1 (exclusive; 0.625 over 4 tokens or more)",
    labels=["drawn from the candidates", "weight of a candidate", "weights of the others", "shape"],
    params=lambda tier: [dict(kind=k, n=n, v=v) for v in ((3, 4, 2) if tier == "quick" else (5, 4, 3, 2)) for n in (1, 2) for k in ("p", "k1", "k2", "k3", "k5") if (n == 1 or v == 2 or tier != "quick" and v == 3) and (k != "p" or v < 4 or tier != "quick")],
    tensor=True,
    max_paths=4000,
    eager=True,
)
def sampler(ctx, kind, n, v):
    w = ctx.tensor("probs", (n, v))
    for r in range(n):
        row = list(w[r])
        for j, x in enumerate(row):
            ctx.assume(x.item() >= 0)
            for y in row[:j]:
                ctx.assume(or_(x.item() != y.item(), x.item() == 0))
        ctx.assume(or_(*[x.item() > 0 for x in row]))
    drawn = []

    def draw(probs, num_samples, replacement=False, *, generator=None):
        ctx.check(num_samples == 1 and probs.size(0) == n, "shape", f"{num_samples} samples of {tuple(probs.shape)}")
        out = []
        for r in range(n):
            # the candidate that is drawn, by the rank of its weight (top-k does not promise an order)
            rank = int(ctx.int(f"draw[{r}]", 0, probs.size(1) - 1))
            ws = [x.item() for x in probs[r]]
            for d in range(probs.size(1)):
                if bool(total([0] + [ite(or_(ws[j] > ws[d], and_(ws[j] == ws[d], j < d)), 1, 0) for j in range(len(ws)) if j != d]) == rank):
                    break
            ctx.assume(probs[r, d].item() > 0)
            out.append([d])
        drawn.append((probs, out))
        return torch.tensor(out)

    p = None
    if kind == "p":
        if v < 4:
            p = ctx.real("p", 0, 1)
            ctx.assume(and_(p > 0, p < 1))
        else:
            p = 0.625
        s = TopPSampler(p)
    else:
        s = TopKSampler(int(kind[1:]))
    old = sampler_module.torch
    sampler_module.torch = _Torch(draw)
    try:
        got = s.sample(w.clone())
    finally:
        sampler_module.torch = old
    ctx.check(tuple(got.shape) == (n,) and got.dtype == torch.int64, "shape", f"{tuple(got.shape)} {got.dtype}")
    for r in range(n):
        i = int(got[r])
        q = [x.item() for x in w[r]]
        s = total(q)
        if p is not None:
            member = [total([Fraction(0)] + [ite(q[j] > q[m], q[j], 0) for j in range(v) if j != m]) <= p * s for m in range(v)]
        else:
            k = int(kind[1:])
            member = [total([0] + [ite(q[j] > q[m], 1, 0) for j in range(v) if j != m]) < k for m in range(v)]
        ctx.check(and_(member[i], q[i] > 0), "drawn from the candidates", f"row {r}, token {i}")
        mass = total([ite(member[m], q[m], 0) for m in range(v)])
        if not drawn:  # greedy
            ctx.check(kind == "k1", "weight of a candidate", "no draw")
            continue
        probs, out = drawn[0]
        ctx.check(len(drawn) == 1, "shape", "more than one draw")
        ctx.eq((probs[r, out[r][0]].item()) * mass, q[i], "weight of a candidate", f"row {r}, token {i}")
        ctx.eq(total([x.item() for x in probs[r]]), 1, "weights of the others", f"row {r}")
    if not drawn:
        for l in ("weight of a candidate", "weights of the others"):
            ctx.check(True, l)


class Any(Sampler):
    """Picks any token of positive probability"""

    def __init__(self, ctx):
        self.ctx, self.calls = ctx, []

    def sample(self, probs):
        picks = []
        for r in range(probs.size(0)):
            i = int(self.ctx.int(f"pick[{len(self.calls)}][{r}]", 0, probs.size(1) - 1))
            self.ctx.assume(probs[r, i].item() > 0)
            picks.append(i)
        self.calls.append((probs.clone(), picks))
        return torch.tensor(picks)


BASE = dict(V=3, n=1, gen=(1, 3), prompts=[(2,)], echo=False, normalize=True, scores=True, temperature=1.0, unk=False, unk_penalty=0.0, len_penalty=1.0, chunk=512, pad=False, banned=(), sources=None, max_seq_len=None)
CASES = {
    "ragged-deep": dict(gen=(1, 2), prompts=[(2,), (0, 2, 2)], unk=True, unk_penalty=0.25),
    "plain": dict(gen=(1, 4)),
    "no-scores": dict(scores=False, pad=True, V=4),
    "min": dict(gen=(2, 3), normalize=False, V=4, pad=True, prompts=[(3,)]),
    "penalty": dict(len_penalty=2.0, temperature=0.5, unk=True, unk_penalty=0.25, echo=True),
    "bonus": dict(unk=True, unk_penalty=-0.5, pad=True, V=4, prompts=[(3,)]),
    "banned": dict(banned=((2, 2), (0,))),
    "prompt": dict(gen=(1, 2), prompts=[(2, 0, 2)], echo=True),
    "chunks": dict(gen=(1, 2), prompts=[(2, 2, 0, 2)], chunk=2, temperature=2.0),
    "limit": dict(gen=(1, 5), prompts=[(2, 0)], max_seq_len=4),
    "batch": dict(gen=(1, 2), prompts=[(2,), (0,)]),
    "several": dict(gen=(1, 2), n=2),
    "several-batch": dict(gen=(1, 2), n=2, prompts=[(2,), (0,)], V=2),
    "several-prompt": dict(gen=(1, 2), n=2, prompts=[(2, 2)], echo=True),
    "ragged": dict(gen=(1, 1), prompts=[(2,), (0, 2, 2)], echo=True),
    "ragged-eos": dict(gen=(2, 2), prompts=[(2, 1, 2), (2,)]),
    "ragged-several": dict(gen=(1, 1), prompts=[(2, 2), (2,)], n=2, V=3),
    "ragged-no-scores": dict(gen=(1, 1), prompts=[(2,), (0, 2, 2)], scores=False),
    "translate": dict(gen=(1, 3), sources=[(5,)]),
    "translate-batch": dict(gen=(1, 2), prompts=[(2,), (2,)], sources=[(5, 6), (7,)]),
    "translate-several": dict(gen=(1, 2), n=2, prompts=[(2, 0), (2, 2)], sources=[(5, 6), (7,)], scores=False),
    "translate-several-short": dict(gen=(1, 2), n=2, prompts=[(1,), (1,)], sources=[(5, 6), (7,)], V=2),
}
DEEP = {
    "deep": dict(gen=(1, 5)),
    "deep-wide": dict(V=5, gen=(1, 3), pad=True, unk=True, unk_penalty=0.25, prompts=[(3,)]),
    "deep-several": dict(gen=(1, 3), n=3, V=2, prompts=[(0,)]),
    "deep-batch": dict(gen=(1, 3), prompts=[(2,), (0,)]),
}


@harness(
    bounds="arbitrary next-step distributions per prefix over 2..5 tokens; 1..5 generated tokens, every sequence of draws; 1..3 generations; batches of 1..2 prompts of 1..4 tokens, ragged or not; decoder-only and encoder-decoder models; every combination of options named in the check",
    labels=["state of the model", "distribution offered to the sampler", "generations per prompt", "sequences", "scores", "step scores", "sorted by score"],
    params=lambda tier: [dict(case=c) for c in (list(CASES) if tier == "quick" else list(DEEP) + list(CASES))],
    tensor=True,
    max_paths=6000,
    eager=True,
)
def generate_(ctx, case):
    o = {**BASE, **(CASES.get(case) or DEEP[case])}
    table, pick = Table(ctx, o["V"]), Any(ctx)
    kw = dict(num_gens=o["n"], min_gen_len=o["gen"][0], echo_prompt=o["echo"], compute_scores=o["scores"], normalize_scores=o["normalize"], temperature=o["temperature"], unk_penalty=o["unk_penalty"], len_penalty=o["len_penalty"], prefill_chunk_size=o["chunk"], max_seq_len=o["max_seq_len"])
    if o["banned"]:
        kw["step_processors"] = [BannedSequenceProcessor([torch.tensor(b) for b in o["banned"]])]
    info = vocab(o["V"], o["pad"], o["unk"])
    p, layout = prompts(ctx, o["prompts"])
    if o["sources"] is None:
        out = generate(SamplingSequenceGenerator(LM(table), info, pick, max_gen_len=o["gen"][1], **kw), p, layout)
    else:
        gen = SamplingSeq2SeqGenerator(Translator(table), info, pick, max_gen_len=(1.0, o["gen"][1] - max(map(len, o["sources"]))), **kw)
        out = generate(gen, *prompts(ctx, o["sources"]), p, layout)
    longest, shortest = max(map(len, o["prompts"])), min(map(len, o["prompts"]))
    cap = o["max_seq_len"] or 16
    min_len, max_len = min(cap, longest + o["gen"][0]), min(cap, longest + o["gen"][1])

    def dist(i, prefix):
        row = table.row(None if o["sources"] is None else o["sources"][i], prefix)
        return torch.softmax(row / o["temperature"] if o["temperature"] != 1.0 else row, -1, dtype=torch.float32)

    rows = []
    for i, prompt in enumerate(o["prompts"]):
        st = [torch.zeros(())] + [dist(i, prompt[:j])[prompt[j]] for j in range(1, shortest)]
        rows += [(i, tuple(prompt[:shortest]), st)] * o["n"]
    want, calls = {i: [] for i in range(len(o["prompts"]))}, list(pick.calls)
    for t in range(shortest, max_len):
        if not rows:
            break
        if t < max_len - 1:
            if not calls:
                ctx.fail("sequences", f"no draw at step {t}")
            seen, picks = calls.pop(0)
            ctx.check(len(picks) == len(rows), "sequences", f"{len(picks)} draws for {len(rows)} sequences at step {t}")
        nxt = []
        for r, (i, seq, st) in enumerate(rows):
            d = dist(i, seq)
            prompt = o["prompts"][i]
            if t < len(prompt):
                tok, x = prompt[t], d[prompt[t]]
            elif t == max_len - 1:
                tok, x = EOS, d[EOS]
            else:
                q = d.clone()
                for b in o["banned"]:
                    if len(b) == 1 or tuple(seq[-(len(b) - 1):]) == tuple(b[:-1]):
                        q[b[-1]] = 0
                if o["unk"]:
                    u = (d[UNK] if not any(b[-1] == UNK for b in o["banned"]) else q[UNK]) - o["unk_penalty"]
                    q[UNK] = torch.clamp(u, min=0)
                if o["pad"]:
                    q[PAD] = 0
                if t < min_len - 1:
                    q[EOS] = 0
                ctx.teq(seen[r], q, "distribution offered to the sampler", f"step {t}, {seq}")
                tok, x = picks[r], q[picks[r]]
            done = t >= len(prompt) and tok == EOS
            (want[i] if done else nxt).append((i, seq + (tok,), st + [x]))
        rows = nxt
    ctx.check(not calls and not rows, "sequences", "draws after the end")
    ctx.check(len(out.hypotheses) == len(o["prompts"]), "generations per prompt")
    for i, prompt in enumerate(o["prompts"]):
        hs = list(out.hypotheses[i])
        ctx.check(len(hs) == o["n"] == len(want[i]), "generations per prompt", f"{len(hs)} of prompt {i}")
        a = 0 if o["echo"] else len(prompt)
        key = lambda s: tuple(int(x) for x in s)
        ctx.check(sorted(key(h.seq) for h in hs) == sorted(s[a:] for _, s, _ in want[i]), "sequences", f"{[key(h.seq) for h in hs]} instead of {[s for _, s, _ in want[i]]}")
        for _, seq, st in want[i]:
            h = next(h for h in hs if key(h.seq) == seq[a:])  # equal sequences have equal scores
            if not o["scores"]:
                ctx.check(h.score is None and h.step_scores is None, "scores", "not asked for")
                continue
            s = total([x.log() for x in st[1:]])
            ctx.teq(h.score, s / ((len(seq) - 1) ** o["len_penalty"]) if o["normalize"] else s, "scores", f"{seq}")
            ctx.teq(h.step_scores, torch.stack(st[a:]), "step scores", f"{seq}")
        if o["scores"]:
            ctx.check(and_(True, *[hs[j].score.item() >= hs[j + 1].score.item() for j in range(len(hs) - 1)]), "sorted by score")
