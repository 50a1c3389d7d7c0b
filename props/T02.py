"""A run interrupted at any point and restarted does exactly what the uninterrupted run would have done."""
from props._trainer import *
from symx.api import *

OUTSIDE = "runs longer than 5 steps; contents of the model/optimizer files (C02); metrics that are reset at every report; more than one rank"
ASSUMPTIONS = ["data reader, optimizer, scheduler, scaler, validator, checkpoint manager and recorder are recording stand-ins whose saved state determines their future; an interruption keeps exactly the committed checkpoints"]

KINDS = ("batch", "publish", "validate", "ckpt", "eod", "delete")


def canon(log):
    out = []
    for e in log:
        if e[0] == "batch":
            out.append(("batch", e[1], e[2], e[3], e[5], e[6]))
        elif e[0] == "publish":
            out.append(("publish", e[1], e[3], e[4], e[5]))
        elif e[0] == "ckpt":
            out.append(("ckpt", e[1], e[2]))
        elif e[0] == "validate":
            out.append(("validate", e[1], e[3]))
        elif e[0] == "eod":
            out.append(e)
    return out


def after_checkpoint(log, n):
    """events an uninterrupted run performs after it saved step n (the actions following the save in the same visit are not repeated)"""
    if n is None:
        return canon(log)
    i = max(i for i, e in enumerate(log) if e[0] == "ckpt" and e[1] == n)
    j = i + 1
    while j < len(log) and log[j][0] not in ("read", "eod"):
        j += 1
    return canon(log[j:])


def go(t):
    try:
        t.run()
        return "done"
    except TaskStopException:
        return "stopped"
    except Crash:
        return "crash"
    except TooLong:
        return "too long"


def last_full(w):
    s = [x for x in w.disk if x not in w.model_only]
    return max(s) if s else None


LABELS = ["same remaining run", "same final state", "ends"]


def make_cfg(ctx, ckind, vkind, limit, hi):
    cfg = {
        "ckpt": (ctx.int("ckpt_after", 0, 1) if ckind == "steps" else 0, ctx.int("ckpt_every", 1, hi) if ckind == "steps" else None, 0, ctx.int("ckpt_every_epochs", 1, 2) if ckind == "epochs" else None),
        "validate": (0, ctx.int("validate_every", 1, hi) if vkind == "steps" else None, 0, ctx.int("validate_every_epochs", 1, 2) if vkind == "epochs" else None),
        "publish": (0, 1 if vkind == "steps" else None, 0, 1 if vkind == "epochs" else None),
    }
    kw = {}
    if limit == "steps":
        kw["max_num_steps"] = ctx.int("max_steps", 2, 5)
    else:
        kw["max_num_data_epochs"] = ctx.int("max_epochs", 1, 3)
    return {**kw, **kwargs(cfg)}


@harness(
    "one crash after any event (read, batch, save start, commit, report, validation, end of data) of a run with symbolic limits (steps 2..5 / epochs 1..3) and intervals; epochs of 1..3 batches",
    LABELS,
    params=lambda t: ([{"ckind": "steps", "vkind": "steps", "limit": "steps", "ep": 2, "mode": "all_but_last", "hi": 2}] if t == "quick" else [])
    + grid(ckind=["steps", "epochs"], vkind=["steps", "epochs"], limit=["steps", "epochs"], ep=[2] if t == "quick" else [1, 2, 3], mode=[False] if t == "quick" else [False, "all_but_last"], hi=[2 if t == "quick" else 3]),
)
def crash(ctx, ckind, vkind, limit, ep, mode, hi):
    kw = make_cfg(ctx, ckind, vkind, limit, hi)
    a = World(lambda e: ep)
    ta = make(a, save_model_only=mode, **kw)
    ra = go(ta)
    b = World(lambda e: ep)
    at = ctx.choice("crash_after_event", range(1, 24))
    if at > len(a.log):
        return  # nothing left to interrupt

    def on_event(e):
        if len(b.log) == at:
            raise Crash()

    b.on_event = on_event
    rb = go(make(b, save_model_only=mode, **kw))
    ctx.check(rb == "crash" and ra == "done", "ends", f"{ra} {rb}")
    ctx.check(b.log == a.log[:at], "same remaining run", "the run is deterministic")
    n = last_full(b)
    b.on_event, b.log = (lambda e: None), []
    tb = make(b, save_model_only=mode, **kw)
    ctx.check(go(tb) == "done", "ends", f"{b.log[:20]}")
    want, got = after_checkpoint(a.log, n), canon(b.log)
    ctx.check(want == got, "same remaining run", f"resumed from {n}: {got}, uninterrupted: {want}")
    ctx.check(tb._net.upd == ta._net.upd and tb.step_nr == ta.step_nr and tb._optimizer.n == ta._optimizer.n and tb._lr_scheduler.k == ta._lr_scheduler.k, "same final state")
    ctx.check(set(k for k in a.disk) - set(b.disk) == set() if mode is False else True, "same final state", f"checkpoints {sorted(a.disk)} vs {sorted(b.disk)}")


@harness(
    "a stop request at any event, then a restart, with symbolic limits and intervals: the two runs together train on exactly the batches of the uninterrupted run",
    LABELS,
    params=lambda t: grid(ckind=["steps", "epochs"], limit=["steps", "epochs"], ep=[1, 2] if t == "quick" else [1, 2, 3], hi=[2 if t == "quick" else 3]),
)
def stop(ctx, ckind, limit, ep, hi):
    kw = make_cfg(ctx, ckind, "epochs", limit, hi)
    a = World(lambda e: ep)
    ta = make(a, **kw)
    ctx.check(go(ta) == "done", "ends")
    b = World(lambda e: ep)
    at = ctx.choice("stop_at_event", range(1, 20))
    if at > len(a.log):
        return
    t1 = make(b, **kw)

    def on_event(e):
        if len(b.log) == at:
            t1.request_stop()

    b.on_event = on_event
    r = go(t1)
    first = [e for e in canon(b.log) if e[0] == "batch"]
    n1 = t1.step_nr
    ctx.check(r == "stopped", "ends")
    ctx.check(last_full(b) == n1 and n1 == len(first), "same final state", f"the step reached by the stop is saved: {b.log}")
    b.on_event, b.log = (lambda e: None), []
    t2 = make(b, **kw)
    ctx.check(go(t2) == "done", "ends")
    second = [e for e in canon(b.log) if e[0] == "batch"]
    full = [e for e in canon(a.log) if e[0] == "batch"]
    ctx.check(first + second == full, "same remaining run", f"{first} + {second} vs {full}")
    ctx.check(t2._net.upd == ta._net.upd and t2.step_nr == ta.step_nr and t2._lr_scheduler.k == ta._lr_scheduler.k, "same final state")


@harness(
    "overflowed steps (any pattern over the first 4 attempts) and one crash after any event; checkpoints every step or every two",
    LABELS,
    params=lambda t: grid(ep=[2] if t == "quick" else [1, 2, 3], every=[1, 2]),
)
def overflow(ctx, ep, every):
    flags = {}

    def ov(n):
        if n > 4:
            return False
        if n not in flags:
            flags[n] = ctx.flag(f"overflow{n}")
        return flags[n]

    kw = dict(max_num_steps=3, checkpoint_every_n_steps=every, publish_metrics_every_n_steps=1)
    a = World(lambda e: ep)
    ta = make(a, overflow=ov, validator=False, **kw)
    ctx.check(go(ta) == "done", "ends")
    b = World(lambda e: ep)
    at = ctx.choice("crash_after_event", range(1, 20))
    if at > len(a.log):
        return

    def on_event(e):
        if len(b.log) == at:
            raise Crash()

    b.on_event = on_event
    go(make(b, overflow=ov, validator=False, **kw))
    n = last_full(b)
    b.on_event, b.log = (lambda e: None), []
    tb = make(b, overflow=ov, validator=False, **kw)
    ctx.check(go(tb) == "done", "ends")
    want, got = after_checkpoint(a.log, n), canon(b.log)
    ctx.check(want == got, "same remaining run", f"resumed from {n}: {got}, uninterrupted: {want}")
    ctx.check(tb._net.upd == ta._net.upd and tb.step_nr == ta.step_nr and tb._fp16_loss_scaler.n == ta._fp16_loss_scaler.n, "same final state")


@harness("a finished run (symbolic step or epoch limit) is not continued when started again, and a run with a raised limit continues at the next step", ["finished stays finished", "raised limit"], params=lambda t: grid(ep=[1, 2, 3], limit=["steps", "epochs"]))
def finished(ctx, ep, limit):
    w = World(lambda e: ep)
    m = ctx.int("limit", 1, 3)
    more = ctx.int("more", 0, 2)
    key = "max_num_steps" if limit == "steps" else "max_num_data_epochs"
    t1 = make(w, validator=False, **{key: m})
    go(t1)
    n1 = t1.step_nr
    w.log = []
    t2 = make(w, validator=False, **{key: m + more})
    r = go(t2)
    ids = [(e[2], e[1]) for e in w.log if e[0] == "batch"]
    if more == 0:
        ctx.check(r == "done" and not ids and t2.step_nr == n1, "finished stays finished", f"{w.log}")
    else:
        full = [(e, i) for e in range(12) for i in range(ep)]
        want = (m + more) if limit == "steps" else (m + more) * ep
        ctx.check(t2.step_nr == want, "raised limit", f"{t2.step_nr}: {w.log}")
        ctx.check(ids == [(i + 1, full[i]) for i in range(n1, t2.step_nr)], "raised limit", f"{w.log}")
