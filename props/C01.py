"""A checkpoint becomes visible only once it is complete."""
from props._ckpt import *
from symx.api import *

from fairseq2.error import OperationalError

OUTSIDE = "remote (object store) checkpoint directories, which have no atomic rename; deletion of old checkpoints outside of a save; more than 2 ranks; more than one preemption between ranks within a save; partial loss of completed writes (fsync)"
ASSUMPTIONS = ["a rename is atomic, a directory removal or a file write is not; a crash stops all ranks at once; a failed file operation fails on one rank while the others keep waiting for it"]

LAYOUTS = {"1": (1, 1, 1), "2 replicas": (2, 1, 1), "2 shards": (2, 1, 2), "2 tensor parallel": (2, 2, 1)}


def run(fs, layout, fn, preempt=None, collect=False):
    n, tp, sdp = LAYOUTS[layout]
    turn = {"me": 0, "n": 0}
    sim = spmd.Sim(n, schedule=lambda ready: turn["pick"](ready))
    turn["pick"] = lambda ready: ready[0]
    if n > 1 and preempt is not None:
        # one forced switch to the other rank, at the file operation number ``preempt`` of this run
        start, old, cur = fs.n, fs.hook, {}

        def hook(k, op, path):
            if cur.get("rank") is not None and k - start == preempt and not cur.get("done"):
                cur["done"] = True
                me = cur["rank"]
                turn["pick"] = lambda ready: next((r for r in ready if r != me), ready[0])
                sim.pause(me)
                cur["rank"] = me
            if old is not None:
                old(k, op, path)

        class Fs(type(fs)):
            pass

        def wrap(r):
            cur["rank"] = r
            return fn(r, spmd.gangs(sim, r, tp, sdp))

        fs.hook = hook
        orig = sim.block

        def block(me, pred, text):
            orig(me, pred, text)
            cur["rank"] = me

        sim.block = block
        try:
            return sim.run(wrap, collect), sim
        finally:
            fs.hook = old
    return sim.run(lambda r: fn(r, spmd.gangs(sim, r, tp, sdp)), collect), sim


def content(step, kind, rank, gen):
    return {"v": torch.tensor([100.0 * step + 10 * KINDS.index(kind) + rank + 1000 * gen])}


def save(m, step, rank, full, mode, gen):
    st = {k: St(**content(step, k, rank, gen)) for k in KINDS}
    blocking = mode == "blocking"
    if full:
        m.save_checkpoint(step, st["trainer"], st["model"], st["optimizer"], st["data_reader"], blocking=blocking)
    else:
        m.save_model_only(step, st["model"], blocking=blocking)
    if not blocking:
        m.maybe_complete_save_operation(blocking=True)


def loaded(fs, layout, step):
    """per rank and kind the loaded value, or the error"""

    def fn(r, g):
        m = manager(fs, g)
        out = {}
        for k in KINDS:
            try:
                out[k] = load(m, step, k)["v"].item()
            except (mgr.CheckpointNotFoundError, mgr.CheckpointError) as ex:
                out[k] = type(ex).__name__
        return out

    return run(fs, layout, fn)[0]


def want(layout, step, kind, rank, gen):
    n, tp, sdp = LAYOUTS[layout]
    # what is stored once per model replica comes from the first replica, once per data-parallel group from its first member
    src = rank
    if kind in ("model", "optimizer") and tp == 1 and sdp == 1:
        src = 0
    if kind == "data_reader" and tp > 1:
        src = 0
    return content(step, kind, src, gen)["v"].item()


def complete(fs, layout, step, full, gens):
    """whether every rank can load everything the save contained, all of one generation"""
    got = loaded(fs, layout, step)
    for gen in gens:
        if all(got[r][k] == want(layout, step, k, r, gen) for r in range(len(got)) for k in (KINDS if full else ("model",))):
            return True
    return False


def configs(t):
    q = grid(layout=["1"], full=[True, False], mode=["blocking", "async"], prior=["none", "earlier", "same"], fault=["crash", "error"], pre=[False])
    q += grid(layout=["2 replicas", "2 shards", "2 tensor parallel"], full=[True], mode=["blocking"], prior=["earlier"], fault=["crash"], pre=[True])
    q += grid(layout=["2 shards"], full=[True], mode=["async"], prior=["same"], fault=["crash", "error"], pre=[False])
    if t == "thorough":
        q += grid(layout=["2 replicas", "2 shards", "2 tensor parallel"], full=[True, False], mode=["blocking", "async"], prior=["none", "earlier", "same"], fault=["crash", "error"], pre=[True])
    return q


@harness(
    "1 or 2 ranks (replicated, sharded, tensor parallel); full or model-only, blocking or asynchronous save of step 5 on an empty directory, next to step 3, or over an existing step 5; crash or I/O error at any (symbolic) file operation of the save; with 2 ranks, a forced switch between the ranks at any file operation",
    ["only complete checkpoints are listed", "earlier checkpoints intact", "can be saved again", "no fault: saved"],
    params=configs,
)
def interrupted(ctx, layout, full, mode, prior, fault, pre):
    fs = MemFS()
    before = {"none": [], "earlier": [3], "same": [3, 5]}[prior]
    for s in before:
        run(fs, layout, lambda r, g: save(manager(fs, g), s, r, True, "blocking", 0))
    start = fs.n
    nmax = 70
    at = ctx.int("fault_at", 1, nmax)
    preempt = ctx.int("preempt_at", 0, nmax) if pre else None
    hit = []

    def hook(k, op, path):
        if hit and fault == "crash":
            raise Crash()
        if not hit and at == k - start:
            hit.append(f"{op} {path}")
            if fault == "crash":
                raise Crash()
            raise OSError(28, "No space left on device", path)

    fs.hook = hook
    when = "now" if mode == "blocking" or not full else (lambda: True)
    try:
        run(fs, layout, lambda r, g: save(manager(fs, g, when), 5, r, full, mode, 1), preempt, collect=True)
        crashed = bool(hit)
    except Crash:
        crashed = True
    fs.hook = None
    what = f"interrupted at {hit}"
    steps = run(fs, layout, lambda r, g: manager(fs, g).get_step_numbers())[0]
    steps = steps[0]
    ctx.check(set(steps) <= {3, 5}, "only complete checkpoints are listed", f"{steps}; {what}")
    if 3 in before:
        ctx.check(3 in steps and complete(fs, layout, 3, True, [0]), "earlier checkpoints intact", what)
    if 5 in steps:
        old = prior == "same" and complete(fs, layout, 5, True, [0])
        ctx.check(old or complete(fs, layout, 5, full, [1]), "only complete checkpoints are listed", f"{loaded(fs, layout, 5)}; {what}")
    resumable = run(fs, layout, lambda r, g: manager(fs, g).get_step_numbers(exclude_model_only=True))[0][0]
    for s in resumable:
        ctx.check(complete(fs, layout, s, True, [0, 1]), "only complete checkpoints are listed", f"resumable step {s}; {what}")
    if not crashed:
        ctx.check(5 in steps, "no fault: saved")
    # the restarted job saves the same step again
    run(fs, layout, lambda r, g: save(manager(fs, g, when), 5, r, full, mode, 2))
    steps = run(fs, layout, lambda r, g: manager(fs, g).get_step_numbers())[0][0]
    ctx.check(5 in steps and complete(fs, layout, 5, full, [2]), "can be saved again", what)
    if not full:
        ctx.check(all(v[k] == "CheckpointNotFoundError" for v in loaded(fs, layout, 5) for k in KINDS if k != "model"), "can be saved again", "leftovers")
    if 3 in before:
        ctx.check(complete(fs, layout, 3, True, [0]), "earlier checkpoints intact", what)
