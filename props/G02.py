"""Beam search returns the best hypotheses its search explores, scored correctly."""
import functools

from props._gen import *

from fairseq2.generation.beam_search import BeamSearchSeq2SeqGenerator, BeamSearchSequenceGenerator, StandardBeamSearchAlgorithm
from fairseq2.generation.step_processor import BannedSequenceProcessor

OUTSIDE = "steps at which fewer tokens than the beam size are permitted; exact ties between candidates; NaN probabilities; step hooks"
ASSUMPTIONS = ["the scores of the candidates of a step differ", "at least beam-size tokens are permitted at every step but the last", "the length limits count from the longest prompt of the batch"]


def _lp(table, source, prefix, temperature):
    row = table.row(source, prefix)
    if temperature != 1.0:
        row = row / temperature
    return [x for x in torch.log_softmax(row, -1, dtype=torch.float32)]


def _order(ctx, cands):
    for i, a in enumerate(cands):
        for b in cands[:i]:
            ctx.assume(a[0].item() != b[0].item())
    return sorted(cands, key=functools.cmp_to_key(lambda a, b: -1 if bool(a[0] > b[0]) else 1))


def reference(ctx, table, source, prompt, o, min_len, max_len):
    """Beam search over prefixes, as documented: {sequence: (per-step scores)}"""
    V, B = o["V"], o["beam"]
    steps = [torch.zeros(())] + [_lp(table, source, prompt[:i], o["temperature"])[prompt[i]] for i in range(1, len(prompt))]
    active, done = [(total(steps), tuple(prompt), steps)], {}
    for t in range(len(prompt), max_len):
        cands = []
        for s, p, st in active:
            row = _lp(table, source, p, o["temperature"])
            for v in range(V):
                x = row[v]
                if t == max_len - 1:
                    if v != EOS:
                        continue
                else:
                    if v == PAD and o["pad"] or v == EOS and t < min_len - 1 or (p[-1], v) in o["banned"]:
                        continue
                    if v == UNK and o["unk"]:
                        x = x - o["unk_penalty"]
                cands.append((s + x, p, v, st + [x]))
        top = _order(ctx, cands)[: 2 * B]
        for s, p, v, st in top[:B]:
            if v == EOS:
                done[p + (v,)] = (s, st)
                if len(done) == B:
                    return done
        active = [(s, p + (v,), st) for s, p, v, st in top if v != EOS][:B]
    return done


BASE = dict(V=4, beam=1, gen=(1, 3), prompts=[(3,)], echo=False, normalize=True, temperature=1.0, unk=False, unk_penalty=0.0, len_penalty=1.0, chunk=512, pad=True, banned=(), sources=None, max_seq_len=None, order={})

CASES = {
    "wide-pad": dict(beam=2, gen=(1, 2)),
    "wide-batch": dict(beam=2, gen=(1, 2), prompts=[(2,), (0,)], pad=False, V=3, order={(2,): (2, 1, 0)}),
    "wide-batch-2": dict(beam=2, gen=(1, 2), prompts=[(2,), (0,)], pad=False, V=3, order={(0,): (1, 2, 0)}),
    "greedy": dict(gen=(1, 4), V=3, pad=False),
    "greedy-min": dict(gen=(3, 4), normalize=False),
    "greedy-penalty": dict(gen=(1, 3), len_penalty=2.0, temperature=2.0, echo=True),
    "greedy-unk": dict(gen=(1, 3), unk=True, unk_penalty=0.5, echo=True),
    "greedy-banned": dict(gen=(1, 3), banned=((3, 3),)),
    "greedy-prompt": dict(gen=(1, 2), prompts=[(3, 2, 3)], echo=True),
    "greedy-chunks": dict(gen=(1, 2), prompts=[(3, 2, 3, 2)], chunk=2, temperature=0.5),
    "greedy-limit": dict(gen=(1, 5), prompts=[(3, 2)], max_seq_len=4),
    "greedy-batch": dict(gen=(1, 2), prompts=[(3,), (2,)]),
    "greedy-ragged": dict(gen=(1, 2), prompts=[(2,), (2, 0, 2)], echo=True, pad=False, V=3),
    "greedy-ragged-unk": dict(gen=(1, 2), prompts=[(0, 0), (2, 2, 0)], unk=True, unk_penalty=0.5, pad=False, V=3),
    "greedy-ragged-eos": dict(gen=(2, 2), prompts=[(2, 1, 2), (2,)], V=3, pad=False),
    "wide": dict(beam=2, gen=(2, 3), pad=False, V=3, prompts=[(2,)], order={(2, 0): (0, 1, 2), (2, 2): (1, 2, 0)}),
    "wide-2": dict(beam=2, gen=(2, 3), pad=False, V=3, prompts=[(2,)], order={(2, 0): (2, 0, 1), (2, 2): (2, 0, 1)}, echo=True),
    "wide-3": dict(beam=2, gen=(1, 3), pad=False, V=3, prompts=[(2,)], order={(2,): (0, 2, 1), (2, 0): (1, 2, 0), (2, 2): (1, 0, 2)}),
    "wide-prompt": dict(beam=2, gen=(1, 2), prompts=[(3, 2)], echo=True, normalize=False),
    "wide-ragged": dict(beam=2, gen=(1, 1), prompts=[(2, 0), (2,)], pad=False, V=3),
    "wide-ragged-2": dict(beam=2, gen=(1, 2), prompts=[(2, 0), (2,)], pad=False, V=3, order={(2,): (0, 1, 2), (2, 0): (1, 0, 2), (2, 1): (0, 2, 1), (2, 2): (2, 1, 0)}),
    "wide-min": dict(beam=2, gen=(2, 2), normalize=False),
    "exhaustive": dict(beam=3, gen=(1, 2), V=3, pad=False),
    "translate": dict(gen=(1, 3), sources=[(5,)]),
    "translate-batch": dict(gen=(1, 2), prompts=[(3,), (3,)], sources=[(5, 6), (7,)]),
    "translate-wide": dict(beam=2, gen=(1, 2), prompts=[(2,), (2,)], sources=[(5, 6), (7,)], pad=False, V=3, order={(7, 2): (0, 1, 2)}),
}
DEEP = {
    "deep-pad": dict(beam=2, gen=(1, 3)),
    "deep-greedy": dict(gen=(1, 4)),
    "deep-batch": dict(gen=(1, 3), prompts=[(3,), (2,)]),
    "deep-ragged": dict(beam=2, gen=(1, 2), prompts=[(2, 3, 2), (3,)], unk=True, unk_penalty=0.5),
    "deep-min": dict(beam=2, gen=(2, 3)),
    "deep-banned": dict(beam=2, gen=(1, 3), V=5, banned=((2, 2),)),
}


@harness(
    bounds="arbitrary next-step distributions per prefix over 3..4 tokens; beams of 1..3; 1..4 generated tokens; batches of 1..2 prompts of 1..4 tokens, ragged or not; decoder-only and encoder-decoder models; every combination of options named in the check",
    labels=["state of the model", "hypotheses of the search", "scores", "step scores", "sorted by score", "well-formed", "best of the whole space"],
    params=lambda tier: [dict(case=c) for c in (list(CASES) if tier == "quick" else list(DEEP) + list(CASES))],
    tensor=True,
    max_paths=6000,
    timeout_ms=5000,
    eager=True,
)
def search(ctx, case):
    o = {**BASE, **(CASES.get(case) or DEEP[case])}
    table = Table(ctx, o["V"], o["order"])
    kw = dict(beam_size=o["beam"], min_gen_len=o["gen"][0], echo_prompt=o["echo"], normalize_scores=o["normalize"], temperature=o["temperature"], unk_penalty=o["unk_penalty"], len_penalty=o["len_penalty"], prefill_chunk_size=o["chunk"], max_seq_len=o["max_seq_len"])
    if o["banned"]:
        kw["step_processors"] = [BannedSequenceProcessor([torch.tensor(b) for b in o["banned"]])]
    info = vocab(o["V"], o["pad"], o["unk"])
    p, layout = prompts(ctx, o["prompts"])
    if o["sources"] is None:
        gen = BeamSearchSequenceGenerator(LM(table), info, max_gen_len=o["gen"][1], **kw)
        out = generate(gen, p, layout)
    else:
        gen = BeamSearchSeq2SeqGenerator(Translator(table), info, max_gen_len=(1.0, o["gen"][1] - max(map(len, o["sources"]))), **kw)
        out = generate(gen, *prompts(ctx, o["sources"]), p, layout)
    longest = max(map(len, o["prompts"]))
    cap = o["max_seq_len"] or 16
    min_len, max_len = min(cap, longest + o["gen"][0]), min(cap, longest + o["gen"][1])
    ctx.check(len(out.hypotheses) == len(o["prompts"]), "well-formed")
    for i, prompt in enumerate(o["prompts"]):
        source = None if o["sources"] is None else o["sources"][i]
        want = reference(ctx, table, source, prompt, o, min_len, max_len)
        got = {}
        for h in out.hypotheses[i]:
            seq = tuple(int(x) for x in h.seq)
            if o["echo"]:
                ctx.check(seq[: len(prompt)] == tuple(prompt), "well-formed", f"{seq} does not extend {prompt}")
            else:
                seq = tuple(prompt) + seq
            tail = seq[len(prompt):]
            ctx.check(tail[-1] == EOS and EOS not in tail[:-1] and not (o["pad"] and PAD in tail) and min_len <= len(seq) <= max_len, "well-formed", f"{seq}")
            ctx.check(seq not in got, "well-formed", f"{seq} twice")
            got[seq] = h
        ctx.check(set(got) == set(want), "hypotheses of the search", f"prompt {i}: {sorted(got)} instead of {sorted(want)}")
        scores = []
        for seq, (s, st) in want.items():
            h = got[seq]
            norm = (len(seq) - 1) ** o["len_penalty"] if o["normalize"] else 1
            ctx.teq(h.score, s / norm, "scores", f"{seq}")
            scores.append(s / norm)
            ctx.teq(h.step_scores, torch.stack(st if o["echo"] else st[len(prompt):]), "step scores", f"{seq}")
        hs = out.hypotheses[i]
        ctx.check(and_(True, *[hs[j].score.item() >= hs[j + 1].score.item() for j in range(len(hs) - 1)]), "sorted by score")
        if case == "exhaustive":
            for v in (EOS, 0, 2):
                tail = (v,) if v == EOS else (v, EOS)
                st = [_lp(table, source, (*prompt, *tail[:j]), 1.0)[t] for j, t in enumerate(tail)]
                ctx.check(hs[0].score.item() >= (total(st) / len(tail)).item(), "best of the whole space")
    if case != "exhaustive":
        ctx.check(True, "best of the whole space")


@harness(
    bounds="beams of 1..3 over 2..4 tokens with 1..3 sequences of arbitrary scores",
    labels=["number of candidates", "best candidates"],
    params=lambda tier: [dict(n=n, v=v, beam=b) for n in (1, 2, 3) for v in (2, 3, 4) for b in (1, 2, 3) if n <= b and (tier != "quick" or min(2 * b, n * v) * n * v <= 24)],
    tensor=True,
    max_paths=3000,
    eager=True,
)
def step(ctx, n, v, beam):
    lp, past = ctx.tensor("lprobs", (n, v)), ctx.tensor("past", (n, 2))
    r = StandardBeamSearchAlgorithm().step(beam, lp, past)
    k = min(2 * beam, n * v)
    ctx.check(len(r.scores) == len(r.seq_indices) == len(r.vocab_indices) == k, "number of candidates", f"{len(r.scores)} of {k}")
    scores = lp + past[:, 1:]
    picked = [(int(a), int(b)) for a, b in zip(r.seq_indices, r.vocab_indices)]
    ctx.check(len(set(picked)) == k, "best candidates", "a candidate twice")
    rest = [scores[i, j] for i in range(n) for j in range(v) if (i, j) not in picked]
    for q, (i, j) in enumerate(picked):
        ctx.eq(r.scores[q].item(), scores[i, j].item(), "best candidates")
    last = r.scores[-1].item()
    ctx.check(and_(True, *[x.item() <= last for x in rest], *[r.scores[q].item() >= r.scores[q + 1].item() for q in range(k - 1)]), "best candidates")
