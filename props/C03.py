"""Retention keeps exactly what some policy protects."""
from props._ckpt import *
from symx.api import *

from fairseq2.device import CPU
from fairseq2.gang import create_fake_gangs

OUTSIDE = "more than five checkpoints; crashes while an old checkpoint is deleted (C01 covers saving)"
ASSUMPTIONS = ["checkpoints are directories of an in-memory disk; scores are written and read through the real score files"]


def put(fs, m, step, full=True):
    m.save_checkpoint(step, St(a=1), St(w=torch.zeros(1)), St(o=1), St(r=1), blocking=True) if full else m.save_model_only(step, St(w=torch.zeros(1)), blocking=True)


def best(scored, k):
    """the k best of [(score, step)]: a step is among them iff fewer than k others are better (ties: more recent)"""

    def keep(i):
        s, n = scored[i]
        cnt = 0
        for j, (t, o) in enumerate(scored):
            if j == i:
                continue
            if T.special(s) and s != s:
                better = True if not (T.special(t) and t != t) else o > n
            elif T.special(t) and t != t:
                better = False
            else:
                better = or_(t > s, and_(t == s, o > n))
            cnt = cnt + ite(better, 1, 0)
        return cnt < k

    return {n: keep(i) for i, (_, n) in enumerate(scored)}


SETS = [(5,), (1, 2, 3), (9, 10, 100), (2, 4, 6, 8), (90, 100, 110)]


def configs(t):
    if t == "quick":
        return (
            grid(steps=SETS, pol=["last", "every"], nan=[False])
            + grid(steps=[(9, 10, 100), (2, 4, 6)], pol=["best", "last+best+every"], nan=[False])
            + grid(steps=[(2, 4, 6, 8)], pol=["best"], nan=[False])
            + grid(steps=[(1, 2, 3)], pol=["best"], nan=[True])
        )
    return grid(steps=SETS + [(1, 2, 3, 4, 5), (8, 9, 10, 11), (1, 10, 2)], pol=["last", "every"], nan=[False]) + grid(
        steps=[(9, 10, 100), (2, 4, 6), (90, 100, 110), (8, 9, 10, 11)], pol=["best", "last+best", "best+every", "last+best+every"], nan=[False, True]
    )


@harness(
    "1..4 checkpoints (thorough 5) at listed step sets (numeric vs. textual order), every subset of scores present, score values arbitrary reals or NaN, keep_best symbolic 1..5, keep_last symbolic 1..5 and keep_every symbolic 1..120 (in combinations: listed values)",
    ["stale = not protected", "last never stale", "order"],
    params=lambda t: configs(t),
)
def stale(ctx, steps, pol, nan):
    fs = MemFS()
    m = manager(fs, create_fake_gangs(CPU))
    scored = []
    for i, s in enumerate(steps):
        put(fs, m, s, full=i % 2 == 0 or i == len(steps) - 1)
        if "best" in pol:
            kind = ctx.choice(f"score_kind{i}", ["real", "none"] + (["nan"] if nan else []))
            if kind != "none":
                v = ctx.real(f"score{i}", -10, 10) if kind == "real" else math.nan
                m.save_score(s, v)
                scored.append((v, s))
    kl = None if "last" not in pol else ctx.int("keep_last", 1, 5) if pol == "last" else ctx.choice("keep_last", [1, 2])
    kb = ctx.int("keep_best", 1, 5) if "best" in pol else None
    ke = None if "every" not in pol else ctx.int("keep_every", 1, 120) if pol == "every" else ctx.choice("keep_every", [1, 2, 3, 10, 100])
    order = sorted(steps)
    ctx.check(m.get_step_numbers() == order, "order", f"{m.get_step_numbers()}")
    ctx.check(m.maybe_get_last_step_number() == order[-1], "order")
    got = m.get_stale_step_numbers(kl, kb, ke)
    ctx.check(order[-1] not in got, "last never stale")
    ctx.check(len(set(got)) == len(got) and set(got) <= set(steps), "stale = not protected")
    top = best(scored, kb) if kb is not None else {}
    for i, s in enumerate(order):
        keep = s == order[-1]
        if kl is not None:
            keep = or_(keep, len(order) - i <= kl)
        if kb is not None and s in top:
            keep = or_(keep, top[s])
        if ke is not None:
            keep = or_(keep, mod(s, ke) == 0)
        ctx.check(iff(s in got, not_(keep)), "stale = not protected", f"step {s} of {order}, scores {scored if not ctx.sym else ''}, stale {got}")
    # scores come back sorted, best first
    sc = m.load_scores()
    ctx.check(sorted(n for _, n in sc) == sorted(n for _, n in scored), "order")
    for a, b in zip(sc, sc[1:]):
        if not (T.special(a[0]) or T.special(b[0])):
            ctx.check(or_(a[0] > b[0], and_(a[0] == b[0], a[1] > b[1])), "order")


@harness(
    "a sequence of up to 5 saves with arbitrary scores; after each, the stale ones are deleted (as training does): the survivors are what the policies protect among everything saved so far",
    ["deleted and kept", "kept ones load"],
    params=lambda t: grid(kl=[1, 2], kb=[None, 1, 2], n=[4] if t == "quick" else [4, 5]),
)
def history(ctx, kl, kb, n):
    fs = MemFS()
    m = manager(fs, create_fake_gangs(CPU))
    scores, alive = {}, []
    for s in range(8, 8 + n):
        put(fs, m, s)
        v = ctx.real(f"score{s}", -10, 10)
        m.save_score(s, v)
        scores[s] = v
        alive.append(s)
        for x in m.get_stale_step_numbers(kl, kb, None):
            m.delete_checkpoint(x)
        now = m.get_step_numbers()
        top = best([(scores[x], x) for x in alive], kb) if kb else {}
        for x in alive:
            keep = x in alive[-kl:]
            if kb:
                keep = or_(keep, top[x])
            ctx.check(iff(x in now, keep), "deleted and kept", f"step {x}: {now}")
        alive = [x for x in alive if x in now]
        for x in now:
            for kind in KINDS:
                load(m, x, kind)
            ctx.check(True, "kept ones load")
        ctx.check(sorted(x for _, x in m.load_scores()) == sorted(alive), "deleted and kept", "scores of deleted checkpoints are gone")


@harness(
    "keeping only the model of a checkpoint: every other state is removed, the model still loads, and the step no longer counts as resumable",
    ["model kept", "rest removed", "invalid arguments"],
)
def model_only(ctx):
    fs = MemFS()
    m = manager(fs, create_fake_gangs(CPU))
    v = ctx.real("v")
    n = ctx.choice("n", [1, 2])
    for s in (3, 7):
        m.save_checkpoint(s, St(a=1), St(w=torch.zeros(1)), St(o=v), St(r=1), blocking=True)
        m.save_score(s, 0.5)
    x = ctx.choice("x", [3, 7])
    m.delete_checkpoint(x, keep_model=True)
    ctx.check(load(m, x, "model") is not None, "model kept")
    ctx.check(m.get_step_numbers() == [3, 7] and m.get_step_numbers(exclude_model_only=True) == [10 - x], "rest removed")
    ctx.check(m.maybe_get_last_step_number(exclude_model_only=True) == 10 - x, "rest removed")
    for kind in ("trainer", "optimizer", "data_reader"):
        ctx.raises(mgr.CheckpointNotFoundError, lambda: load(m, x, kind), "rest removed")
        ctx.check(load(m, 10 - x, kind) is not None, "rest removed")
    ctx.check(len(m.load_scores()) == 2, "model kept")
    z = ctx.int("bad", -3, 0)
    ctx.raises(ValueError, lambda: m.get_stale_step_numbers(z, None, None), "invalid arguments")
    ctx.raises(ValueError, lambda: m.get_stale_step_numbers(None, z, None), "invalid arguments")
    ctx.raises(ValueError, lambda: m.get_stale_step_numbers(None, None, z), "invalid arguments")
    ctx.check(m.get_stale_step_numbers(None, None, None) == [], "invalid arguments")
