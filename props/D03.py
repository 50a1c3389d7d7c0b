"""Bucket sizes cover the allowed lengths within the element budget."""
from symx.api import *

from fairseq2.data.data_pipeline import create_bucket_sizes

OUTSIDE = "the native bucketing operator that uses the sizes; budgets of more than the listed number of maximum-length sequences"
ASSUMPTIONS = ["where not even one multiple of num_seqs_multiple_of fits, the bucket holds as many sequences as fit"]


@harness(
    "maximum length concrete up to 9 (thorough 1..20), budget k*max with symbolic k in 1..24 (thorough 1..200), symbolic minimum length, multiples 1, 2, 3, 8",
    ["lengths strictly increase", "all lengths covered", "within budget", "largest batch that fits", "longest length that fits", "only allowed lengths"],
    params=lambda t: [{"M": M, "m": m, "K": 24 if t == "quick" else 200} for M in ([1, 3, 6, 9] if t == "quick" else range(1, 21)) for m in (1, 2, 3, 8)],
)
def sizes(ctx, M, m, K):
    k = ctx.int("k", 1, K)
    lo = ctx.int("min_seq_len", 1, M)
    E = k * M
    core.SMALL_QUOTIENTS = 2 * M if ctx.sym else None
    try:
        return _sizes(ctx, M, m, E, lo)
    finally:
        core.SMALL_QUOTIENTS = None


def _sizes(ctx, M, m, E, lo):
    r = create_bucket_sizes(max_num_elements=E, max_seq_len=M, min_seq_len=lo, num_seqs_multiple_of=m)
    ctx.check(len(r) >= 1 and len(r) <= M, "all lengths covered")
    ctx.eq(r[-1][1], M, "all lengths covered")
    prev = 0
    for i, (b, l) in enumerate(r):
        ctx.check(l > prev, "lengths strictly increase")
        ctx.check(and_(l >= lo, l <= M), "only allowed lengths")
        ctx.check(and_(b >= 1, b * l <= E), "within budget")
        # the largest admissible number of sequences: full = floor(E / l), or E / l cropped to the multiple
        if m == 1:
            ctx.check((b + 1) * l > E, "largest batch that fits")
        else:
            ctx.check(ite(mod(b, m) == 0, (b + m) * l > E, and_(b < m, (b + 1) * l > E)), "largest batch that fits")
        if i + 1 < len(r):
            # no longer sequence fits as often: floor(E / (l+1)) < floor(E / l); cropping hides that for m > 1
            if m == 1:
                ctx.check(b * (l + 1) > E, "longest length that fits")
        # a length between two buckets would not have allowed more sequences than the next bucket does
        if i and m == 1:
            ctx.check((b + 1) * (prev + 1) > E, "longest length that fits")
        prev = l


@harness("budget, maximum, minimum and multiple symbolic in -1..6", ["invalid rejected", "valid accepted"])
def invalid(ctx):
    M = ctx.int("max_seq_len", 1, 4)
    E = ctx.int("max_num_elements", -1, 6)
    lo = ctx.int("min_seq_len", -1, 6)
    m = ctx.int("multiple", -1, 3)
    ok = and_(M <= E, lo >= 1, lo <= M, m >= 1, mod(E, M) == 0)
    try:
        create_bucket_sizes(max_num_elements=E, max_seq_len=M, min_seq_len=lo, num_seqs_multiple_of=m)
    except ValueError:
        ctx.check(not_(ok), "valid accepted")
        return
    ctx.check(ok, "invalid rejected")
