"""The training loop performs exactly the configured steps and triggers every action exactly when configured."""
from props._trainer import *
from symx.api import *

OUTSIDE = "runs longer than the stated number of steps; more than one rank (the loop is rank-symmetric except for early stopping, which is broadcast); failures inside callbacks"
ASSUMPTIONS = ["data reader, optimizer, validator, checkpoint manager and metric recorder are recording stand-ins that honour their interface; an asynchronous save completes at the next poll"]

ACTIONS = ("ckpt", "publish", "validate")


def rule(s, after, every):
    if every is None:
        return False
    return and_(s > after, mod(s, every) == 0)


def analyse(ctx, w, cfg, stop=False, early_at=None, max_steps=None, max_epochs=None, overflow=None):
    """checks a complete run log against the documented schedule"""
    log = w.log
    # --- data order & consecutive steps
    steps, batches, n = [], [], 0
    ep_of_step, epoch_ends = {}, []  # epoch ends: (last step, epoch number)
    attempt = 0
    reads = [e[1] for e in log if e[0] == "read"]
    exp = sorted(reads)
    ctx.check(reads == exp and len(set(reads)) == len(reads), "data in order once", f"{reads}")
    # no batch is skipped: every epoch before the last one is read in full
    if reads:
        full = [(e, i) for e in range(reads[-1][0] + 1) for i in range(w.epochs(e))]
        ctx.check(reads == full[: len(reads)], "data in order once", f"{reads} vs {full}")
    k = 0
    last_action_steps = {a: {} for a in ACTIONS}
    done = 0  # successful updates
    for e in log:
        if e[0] == "batch":
            attempt += 1
            ident, nr, ep, training, lr_step = e[1:6]
            ctx.check(ident == reads[k] if k < len(reads) else False, "data in order once")
            k += 1
            ctx.check(nr == done + 1, "steps consecutive", f"step {nr} after {done} updates; {log}")
            ctx.check(lr_step == done, "steps consecutive", "the schedule advances once per update")
            ctx.check(ep == ident[0] + 1, "epoch number", f"unit told epoch {ep} for data of epoch {ident[0] + 1}")
            ctx.check(training is True, "model mode")
            if not (overflow and overflow(attempt)):
                done += 1
        elif e[0] == "eod":
            if done > 0:
                epoch_ends.append((done, e[1] + 1))
        elif e[0] in ACTIONS:
            d = last_action_steps[e[0]]
            ctx.check(e[1] == done, "action labelled with its step", f"{e} after {done} updates; {log}")
            d[done] = d.get(done, 0) + 1
            if e[0] == "validate":
                ctx.check(e[2] is False and e[3] == done, "model mode")
    N = done
    started = {e[1] for e in log if e[0] == "ckpt"}
    ctx.check(started == {e[1] for e in log if e[0] == "committed"}, "started checkpoints are completed", f"{log}")
    final = {"all": True}
    for a in ACTIONS:
        if a not in cfg:
            continue
        after, every, after_e, every_e = cfg[a]
        for s in range(1, N + 1):
            want = rule(s, after, every)
            for s2, ep in epoch_ends:
                if s2 == s:
                    want = or_(want, rule(ep, after_e, every_e))
            if s == N and early_at is None:
                want = True
            if s == N and early_at is not None and a == "ckpt":
                want = True
            got = last_action_steps[a].get(s, 0)
            if a == "publish" and early_at is not None and s == N:
                ctx.check(got <= 1, "action " + a)  # an early stop may or may not report
                continue
            ctx.check(got <= 1, "at most once per step", f"{a} {got} times at step {s}: {log}")
            ctx.check(iff(got >= 1, want), "action " + a, f"{a} at step {s}: {got}; {log}")
    return N, epoch_ends


def settings(ctx, steps, epochs, name, hi):
    after = ctx.int(f"{name}_after", 0, hi) if steps else 0
    every = ctx.int(f"{name}_every", 1, hi) if steps else None
    after_e = ctx.int(f"{name}_after_epochs", 0, 2) if epochs else 0
    every_e = ctx.int(f"{name}_every_epochs", 1, 3) if epochs else None
    return after, every, after_e, every_e


def run(ctx, t, w, label="terminates"):
    stopped = False
    try:
        t.run()
    except TaskStopException:
        stopped = True
    except TooLong:
        ctx.fail(label, f"the run does not end: {w.log[:40]}")
    ctx.check(True, label)
    return stopped


LABELS = ["started checkpoints are completed", "data in order once", "steps consecutive", "epoch number", "model mode", "action labelled with its step", "at most once per step", "terminates", "termination"]


@harness(
    "max steps 1..3 (thorough 1..5) and, for one action at a time, symbolic 'after' and 'every' steps in 0..4 (thorough 6), 'after' and 'every' epochs; epochs of 2 (thorough 1..4) batches",
    LABELS,
    params=lambda t: grid(action=["ckpt", "publish", "validate"], ep=[2] if t == "quick" else [1, 2, 3, 4], by_epoch=[True] if t == "quick" else [False, True], hi=[4 if t == "quick" else 6]),
)
def max_steps(ctx, action, ep, by_epoch, hi):
    w = World(lambda e: ep)
    m = ctx.int("max_steps", 1, hi - 1)
    cfg = {action: settings(ctx, True, by_epoch, action, hi)}
    t = make(w, max_num_steps=m, **kwargs(cfg))
    stopped = run(ctx, t, w)
    N, _ = analyse(ctx, w, cfg, max_steps=m)
    ctx.check(N == m, "termination", "max_num_steps updates are done")
    ctx.check(not stopped, "termination")


@harness(
    "max data epochs 1..3 (epoch length 1..3, each epoch its own), one action with symbolic step and epoch settings",
    LABELS,
    params=lambda t: grid(action=["ckpt", "publish", "validate"], lens=[(1, 1, 1), (2, 1, 2)] if t == "quick" else [(a, b, c) for a in (1, 2, 3) for b in (1, 2) for c in (1, 2)], hi=[3 if t == "quick" else 6]),
)
def max_epochs(ctx, action, lens, hi):
    w = World(lambda e: lens[e] if e < len(lens) else 1)
    m = ctx.int("max_epochs", 1, 3)
    cfg = {action: settings(ctx, True, True, action, hi)}
    t = make(w, max_num_data_epochs=m, **kwargs(cfg))
    stopped = run(ctx, t, w)
    N, ends = analyse(ctx, w, cfg, max_epochs=m)
    total = 0
    for i in range(3):
        total = total + ite(m > i, lens[i], 0)
    ctx.check(N == total, "termination", "all batches of all epochs are trained on")
    ctx.check(not stopped, "termination")


@harness(
    "a stop request arriving at any event of the run (each read, batch, checkpoint, metric report, validation, end of data); symbolic max steps 1..5 or none; checkpoint/publish/validate by step or epoch with symbolic intervals",
    LABELS,
    params=lambda t: grid(limit=["steps", "epochs", "none"], ep=[2] if t == "quick" else [1, 2, 3], kind=["steps", "epochs"], action=["ckpt", "publish", "validate"], hi=[2 if t == "quick" else 3])
    + ([{"limit": "epochs", "ep": 1, "kind": "steps", "action": "ckpt", "hi": 2}] if t == "quick" else []),
)
def stop_request(ctx, limit, ep, kind, action, hi):
    w = World(lambda e: ep)
    at = ctx.choice("stop_at_event", range(1, 14 if hi == 2 else 16))
    cfg = {action: settings(ctx, kind == "steps", kind == "epochs", action, hi)}
    kw = {}
    if limit == "steps":
        kw["max_num_steps"] = ctx.int("max_steps", 1, 5)
    elif limit == "epochs":
        kw["max_num_data_epochs"] = ctx.int("max_epochs", 1, 3)
    t = make(w, **kw, **kwargs(cfg))
    state = {}

    def on_event(e):
        if len(w.log) >= at and "n" not in state:
            state["n"] = sum(1 for x in w.log if x[0] == "batch")
            state["in_step"] = e[0] in ("read", "batch")
            t.request_stop()

    w.on_event = on_event
    stopped = run(ctx, t, w)
    N, ends = analyse(ctx, w, cfg, stop=True)
    if "n" in state:
        ctx.check(stopped, "termination", "a stop request is reported to the caller")
        # at most the step under way is finished, plus one whose data is being read
        ctx.check(N <= state["n"] + 1, "termination", f"stop requested after {state['n']} steps, ended at {N}")
    else:
        ctx.check(not stopped, "termination")


@harness(
    "any overflow pattern over the first 5 attempts, epochs of 1..3 batches, a stop request at any event or none, symbolic checkpoint interval",
    LABELS,
    params=lambda t: grid(ep=[1, 2] if t == "quick" else [1, 2, 3], kind=["steps", "epochs"], action=["ckpt", "validate"], stop=[False, True]),
)
def overflow(ctx, ep, kind, action, stop):
    w = World(lambda e: ep)
    flags = {}

    def ov(n):
        if n > (3 if stop else 4):
            return False
        if n not in flags:
            flags[n] = ctx.flag(f"overflow{n}")
        return flags[n]

    cfg = {action: settings(ctx, kind == "steps", kind == "epochs", action, 2 if stop else 3)}
    t = make(w, overflow=ov, max_num_steps=3, **kwargs(cfg))
    at = ctx.choice("stop_at_event", range(1, 14)) if stop else None
    state = {}

    def on_event(e):
        if at is not None and len(w.log) >= at and "n" not in state:
            state["n"] = sum(1 for x in w.log if x[0] == "batch")
            t.request_stop()

    w.on_event = on_event
    stopped = run(ctx, t, w)
    first = [e for e in w.log if e[0] in ("batch", "eod")]
    N, _ = analyse(ctx, w, cfg, overflow=lambda n: flags.get(n, False))
    if "n" in state:
        ctx.check(stopped, "termination")
    elif first[-1][0] != "eod":
        ctx.check(N == 3, "termination")
    # (an epoch that ends before any successful update ends the run: nothing to train on)
    ctx.check(t._net.upd == N and t.step_nr == N, "steps consecutive", f"{t.step_nr} vs {N} updates: {w.log}")


@harness(
    "early stop decided at any validation, symbolic validation and checkpoint intervals by step or epoch",
    [x for x in LABELS] + ["score of a saved step"],
    params=lambda t: grid(ep=[1, 2] if t == "quick" else [1, 2, 3], vkind=["steps", "epochs"], ckind=["steps", "epochs"]),
)
def early_stop(ctx, ep, vkind, ckind):
    w = World(lambda e: ep)
    cfg = {"validate": settings(ctx, vkind == "steps", vkind == "epochs", "validate", 3), "ckpt": settings(ctx, ckind == "steps", ckind == "epochs", "ckpt", 3)}
    hit = []

    def early(n):
        r = n >= 4 or ctx.flag(f"stop_after_validation{len(hit)}@{n}")
        if r:
            hit.append(n)
        return r

    t = make(w, early=early, max_num_steps=5, **kwargs(cfg))
    stopped = run(ctx, t, w)
    N, _ = analyse(ctx, w, cfg, early_at=hit[-1] if hit else None)
    ctx.check(stopped == bool(hit), "termination")
    ctx.check(N == (hit[0] if hit else 5), "termination", "an early stop ends the run at that step")
    for s in w.scores:
        ctx.check(s in w.disk or s == N, "score of a saved step")
    # every step both validated and checkpointed before the validation has its score recorded
    pos = {}
    for i, e in enumerate(w.log):
        if e[0] == "ckpt":
            pos.setdefault(e[1], i)
    for i, e in enumerate(w.log):
        if e[0] == "validate" and e[1] in pos and pos[e[1]] < i:
            ctx.check(e[1] in w.scores, "score of a saved step", f"validated and saved step {e[1]} has no score: {w.log}")


@harness(
    "all three actions together, symbolic intervals (publish divides the others), 4 steps",
    LABELS,
    params=lambda t: grid(ep=[3] if t == "quick" else [2, 3], model_only=[False, True, "all", "all_but_last"]),
)
def together(ctx, ep, model_only):
    w = World(lambda e: ep)
    p = ctx.choice("publish_every", [1, 2])
    v, c = ctx.int("v", 1, 3), ctx.int("c", 1, 3)
    cfg = {
        "publish": (ctx.int("publish_after", 0, 3), p, 0, None),
        "validate": (0, v * p, 0, None),
        "ckpt": (0, c * p, 0, None),
    }
    t = make(w, max_num_steps=4, save_model_only=model_only, **kwargs(cfg))
    stopped = run(ctx, t, w)
    N, _ = analyse(ctx, w, cfg, max_steps=4)
    ctx.check(N == 4 and not stopped, "termination")
    kinds = {e[2] for e in w.log if e[0] == "ckpt"}
    ctx.check(kinds == ({"model"} if model_only in (True, "all") else {"full"}), "termination")
    ctx.check(set(w.disk) == {e[1] for e in w.log if e[0] == "ckpt"}, "termination", "every checkpoint that was started was completed")
    if model_only == "all_but_last":
        full = [s for s in w.disk if s not in w.model_only]
        ctx.check(full == [4], "termination", "only the last checkpoint keeps its full state")
    # metrics: each report covers the steps since the previous one
    last = 0
    for e in w.log:
        if e[0] == "publish":
            ctx.check(e[2] == e[1] - last and e[3] == e[1] and e[4] == e[1] - 1, "action publish", f"{e} previous report at {last}")
            last = e[1]


@harness("with and without a validator, validation before the first step", ["pre-validation", "terminates"])
def pre_validation(ctx):
    w = World(lambda e: 2)
    val = ctx.flag("validator")
    t = make(w, validator=val, validate_at_start=ctx.flag("validate_at_start"), max_num_steps=1)
    at_start = t._validate_at_start
    run(ctx, t, w)
    pre = [e for e in w.log if e[0] == "validate" and e[1] == 0]
    ctx.check(len(pre) == (1 if val and at_start else 0), "pre-validation")
    ctx.check(t._net.upd == 1, "pre-validation")
    if pre:
        ctx.check(w.log[0] == pre[0], "pre-validation", "before any training step")
