"""A batch layout describes exactly the elements present in the batch."""
from symx.api import *

from fairseq2.datasets.batch import Seq2SeqBatch, SequenceBatch
from fairseq2.nn import BatchLayout

OUTSIDE = "pad_seqs and the native collater (not built in this sandbox); batches without any sequence; compiled_max_seq_len under torch.compile"
ASSUMPTIONS = []


def tolist(t):
    return [int(x) for x in t.reshape(-1)]


def verify(ctx, lay, lens, rows, width, packed):
    """`lens` are the values the layout must describe"""
    n = len(lens)
    ctx.check(len(lay.seq_lens) == n, "lengths")
    for i in range(n):
        ctx.eq(lay.seq_lens[i], lens[i], "lengths")
        ctx.eq(int(lay.seq_lens_pt[i]), lens[i], "lengths")
    ctx.check(tuple(lay.seq_lens_pt.shape) == (n,), "lengths")
    ctx.eq(lay.width, width, "width")
    ctx.check(lay.packed is packed, "packed flag")
    # begin indices: n + 1 boundaries
    ctx.check(len(lay.seq_begin_indices) == n + 1 and lay.seq_begin_indices_pt.shape == (n + 1,), "begin indices")
    beg = 0
    for i in range(n + 1):
        ctx.eq(lay.seq_begin_indices[i], beg, "begin indices")
        ctx.eq(int(lay.seq_begin_indices_pt[i]), beg, "begin indices")
        if i < n:
            beg = beg + (lens[i] if packed else width)
    # positions: what is a real element, and its position in its sequence
    pos = lay.position_indices
    if packed:
        ctx.check(tuple(pos.shape) == (width,), "position indices")
        for k in range(width):
            exp, b = -1, 0
            for i in range(n):
                exp = ite(and_(b <= k, k < b + lens[i]), k - b, exp)
                b = b + lens[i]
            ctx.eq(int(pos[k]), exp, "position indices")
        total = sum(lens)
        ctx.check(iff(lay.padded, total < width), "padded flag")
    else:
        ctx.check(tuple(pos.shape) == (rows, width), "position indices")
        for i in range(rows):
            for k in range(width):
                ctx.eq(int(pos[i, k]), ite(lens[i] > k, k, -1), "position indices")
        ctx.check(iff(lay.padded, or_(*[l < width for l in lens])), "padded flag")
    mn = mx = lens[0]
    for l in lens[1:]:
        mn, mx = smin(mn, l), smax(mx, l)
    ctx.eq(lay.min_seq_len, mn, "minimum and maximum")
    ctx.eq(lay.max_seq_len, mx, "minimum and maximum")


LABELS = ["lengths", "width", "packed flag", "begin indices", "position indices", "padded flag", "minimum and maximum", "invalid lengths rejected", "valid lengths accepted"]


@harness(
    "rows <= 3, widths <= 5 (thorough 4 x 6); every length symbolic in -1..width+1; via the constructor, BatchLayout.of, and the batch classes",
    LABELS,
    tensor=True,
    params=lambda t: [{"rows": r, "width": w, "packed": p, "via": v} for p in (False, True) for r in ((1, 2, 3) if t == "quick" else (1, 2, 3, 4)) for w in ((1, 5, 3)[: 4 - r] if t == "quick" else (1, 2, 3, 4, 5, 6)) for v in (("init", "of", "batch") if r < 3 else ("init",))],
)
def layout(ctx, rows, width, packed, via):
    lens = [ctx.int(f"len{i}", -1, width + 1) for i in range(rows)]
    if packed:
        ok = and_(*[l >= 1 for l in lens], sum(lens) <= width)
        shape = (width,)
    else:
        ok = and_(*[and_(l >= 1, l <= width) for l in lens])
        shape = (rows, width)
    try:
        if via == "init":
            lay = BatchLayout(shape, list(lens), packed=packed)
        elif via == "of":
            lay = BatchLayout.of(torch.zeros(shape + (2,)), list(lens), packed=packed)
        else:
            _, lay = SequenceBatch(torch.zeros(shape + (2,)), list(lens), packed=packed).as_input()
    except ValueError:
        ctx.check(not_(ok), "valid lengths accepted")
        return
    ctx.check(ok, "invalid lengths rejected")
    ctx.check(True, "valid lengths accepted")
    verify(ctx, lay, lens, rows, width, packed)


@harness("source and target lengths symbolic, 2 rows, widths 3 and 2; lengths omitted; wrong dimensionality, width 0 and wrong number of lengths", LABELS[:7] + ["source and target layouts", "defaults", "malformed shapes rejected"], tensor=True, params=lambda t: grid(kind=["s2s", "default", "malformed"], packed=[False, True]))
def forms(ctx, kind, packed):
    if kind == "s2s":
        sl = [ctx.int(f"s{i}", 1, 3) for i in range(2)]
        tl = [ctx.int(f"t{i}", 1, 2) for i in range(2)]
        if packed:
            b = Seq2SeqBatch(torch.zeros(6), list(sl), torch.zeros(4), list(tl), packed=True)
        else:
            b = Seq2SeqBatch(torch.zeros(2, 3), list(sl), torch.zeros(2, 2), list(tl))
        s, slay = b.as_source_input()
        t, tlay = b.as_target_input()
        ctx.check(s is b.source_seqs and t is b.target_seqs, "source and target layouts")
        verify(ctx, slay, sl, 2, 6 if packed else 3, packed)
        verify(ctx, tlay, tl, 2, 4 if packed else 2, packed)
    elif kind == "default":
        w = ctx.choice("width", [1, 2, 4])
        r = 1 if packed else ctx.choice("rows", [1, 3])
        lay = BatchLayout((w,) if packed else (r, w), None, packed=packed)
        ctx.check(not lay.padded, "defaults")
        verify(ctx, lay, [w] * (1 if packed else r), r, w, packed)
    else:
        shape = ctx.choice("shape", [(), (0,), (2,), (2, 0), (2, 3), (2, 3, 4)])
        n = ctx.int("n", 1, 4)
        lens = [1] * int(n)
        good = (len(shape) == 1 and shape[0] >= 1 and n <= shape[0]) if packed else (len(shape) == 2 and shape[1] >= 1 and n == shape[0])
        try:
            BatchLayout(shape, lens, packed=packed)
        except ValueError:
            ctx.check(not_(good), "malformed shapes rejected")
            return
        ctx.check(good, "malformed shapes rejected")
