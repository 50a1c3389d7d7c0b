"""Language models with arbitrary next-step distributions for the sequence generators."""
from symx.api import *

from fairseq2.data.tokenizers import VocabularyInfo
from fairseq2.models.clm import CausalLM
from fairseq2.models.seq2seq import Seq2SeqModel
from fairseq2.nn import BatchLayout, IncrementalState

PAD, EOS, UNK = 0, 1, 2
INF = float("inf")


def vocab(size, pad=True, unk=True):
    return VocabularyInfo(size=size, unk_idx=UNK if unk else None, bos_idx=None, eos_idx=EOS, pad_idx=PAD if pad else None)


class State(IncrementalState):
    def __init__(self, seqs, source):
        self.seqs, self.source = seqs, source

    def reorder(self, new_order):
        self.seqs = self.seqs.index_select(0, new_order)
        if self.source is not None:
            self.source = [self.source[int(i)] for i in new_order]

    def size_bytes(self):
        return 0

    def capacity_bytes(self):
        return 0


class Table:
    """The next-step logits of every prefix: independent arbitrary numbers, in descending order where `order` says so"""

    def __init__(self, ctx, size, order={}):
        self.ctx, self.size, self.order, self.rows = ctx, size, order, {}

    def row(self, source, prefix):
        key = (source, tuple(prefix))
        if key not in self.rows:
            name = "logits" + ("" if source is None else f"/{'.'.join(map(str, source))}") + "".join(f".{t}" for t in prefix)
            r = self.rows[key] = self.ctx.tensor(name, (self.size,))
            order = self.order.get((*(source or ()), *prefix), ())
            for a, b in zip(order, order[1:]):
                self.ctx.assume(r[a].item() > r[b].item())
        return self.rows[key]

    def decode(self, model, seqs, source, bag):
        state = bag.maybe_get_state(model, State)
        if state is None:
            state = State(seqs[:, :0].clone(), source)
            bag.set_state(model, state)
        n = state.seqs.size(1)
        self.ctx.check(bag.step_nr == n, "state of the model", f"step {bag.step_nr} with {n} tokens seen")
        self.ctx.check(state.source is None or len(state.source) == seqs.size(0), "state of the model", "every sequence has its source")
        self.ctx.check(seqs.size(0) == state.seqs.size(0), "state of the model", "the state has the sequences of the step")
        state.seqs = torch.cat([state.seqs, seqs.clone()], 1)
        out = []
        for b, toks in enumerate(state.seqs.tolist()):
            toks = [int(t) for t in toks]
            src = None if state.source is None else state.source[b]
            out.append(torch.stack([self.row(src, toks[: n + j + 1]) for j in range(seqs.size(1))]))
        return torch.stack(out)


class LM(CausalLM):
    def __init__(self, table, max_seq_len=16):
        super().__init__(max_seq_len)
        self.table = table

    def forward(self, seqs, seqs_layout, *, state_bag=None):
        return self.table.decode(self, seqs, None, state_bag)


class Translator(Seq2SeqModel):
    def __init__(self, table, max_seq_len=16):
        super().__init__(max_seq_len, max_seq_len)
        self.table = table

    def forward(self, source_seqs, source_seqs_layout, target_seqs, target_seqs_layout, *, state_bag=None):
        source = [tuple(int(t) for t in s[:n]) for s, n in zip(source_seqs.tolist(), source_seqs_layout.seq_lens)]
        return self.table.decode(self, target_seqs, source, state_bag)


def prompts(ctx, rows):
    """a (ragged) batch of prompts"""
    w = max(len(r) for r in rows)
    t = torch.tensor([list(r) + [PAD] * (w - len(r)) for r in rows])
    lens = [len(r) for r in rows]
    return t, BatchLayout.of(t, lens if len(set(lens)) > 1 else None)


def total(terms):
    s = terms[0]
    for t in terms[1:]:
        s = s + t
    return s


def generate(gen, *args):
    """`gen(*args)` without `torch.inference_mode`, under which symbolic tensors cannot exist"""
    call = type(gen).__call__
    with torch.no_grad():
        return getattr(call, "__wrapped__", call)(gen, *args)
