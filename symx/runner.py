"""
python -m symx.runner <ID> <quick|thorough>   decides a property
python -m symx.runner --replay <file>         re-executes a counterexample
"""

from __future__ import annotations

import importlib
import json
import math
import logging
import os
import random
import signal
import sys
import time
import traceback
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
SRC = os.environ.get("VERIF_SRC", "/repo/src/fairseq2") + "/"

os.environ.setdefault("TORCH_COMPILE_DISABLE", "1")
os.environ.setdefault("OMP_NUM_THREADS", "1")

import symx.api as api  # noqa: E402  (sets DOC_MODE first)
import torch  # noqa: E402

from symx import core, evalf, tensor as T, workers  # noqa: E402
from symx.ctx import CCtx, ConcreteViolation, Ctx, Discard  # noqa: E402

logging.disable(logging.CRITICAL)

MOD = None
FUNCS = set()
KNOWN_LABELS = ()
KNOWN_SEEN = {}


def start_monitor():
    m = sys.monitoring
    try:
        m.use_tool_id(4, "symx")
    except ValueError:
        return

    def on_start(code, off):
        fn = code.co_filename
        if fn.startswith(SRC) and code.co_name != "<module>":
            FUNCS.add(fn[len(SRC):] + ":" + code.co_qualname)
        return m.DISABLE

    m.register_callback(4, m.events.PY_START, on_start)
    m.set_events(4, m.events.PY_START)


class Timeout(BaseException):
    pass


def _alarm(*_):
    raise Timeout()


def conforms(expected, got):
    """compares the numbers of the symbolic interpretation with those of the plain code"""
    flat = [(label, x) for label, xs in got for x in xs]
    if len(flat) != len(expected):
        return f"{len(expected)} values compared symbolically, {len(flat)} concretely"
    for i, ((la, a), (lb, b)) in enumerate(zip(expected, flat)):
        if la != lb:
            return f"comparison {i} is '{la}' symbolically and '{lb}' concretely"
        a, b = float(a), float(b)
        if not math.isclose(a, b, rel_tol=5e-3, abs_tol=1e-3):
            return f"'{la}': value {i} is {a} symbolically and {b} concretely"
    return None


def concrete_run(h, params, vals, seed=None, limit=60, trace=None):
    """Runs the harness on plain values against the unmodified code."""
    saved = core.ENGINE
    core.ENGINE = None
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    c = CCtx(vals, seed)
    c.known = KNOWN_LABELS
    try:
        torch.manual_seed(0)
        h.fn(c, **params)
        if trace is not None:
            why = conforms(trace, c.trace)
            if why is not None:
                return "deviation", None, why
        return "ok", None, ""
    except ConcreteViolation as v:
        return "violation", v.label, v.detail
    except Discard:
        return "discarded", None, ""
    except Timeout:
        return "timeout", None, f"no result within {limit}s"
    except Exception as ex:
        return "error", type(ex).__name__, "".join(traceback.format_exception(ex))[-2500:]
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
        core.ENGINE = saved
        KNOWN_SEEN.update(getattr(c, "known_seen", {}))


def confirm(h, params, vals, want_error=None):
    """Replays a candidate counterexample; returns (label, detail, seed) or None."""
    for seed in [None] + list(range(1, 9)):
        r, label, detail = concrete_run(h, params, vals, seed)
        if r == "violation":
            return label, detail, seed
        if r == "error" and (want_error is None or label == want_error) and not _harness_error(detail):
            return f"uncaught {label}", detail, seed
        if r == "timeout":
            return "no termination", detail, seed
        if not any(isinstance(v, float) for v in vals.values()):
            break
    return None


def _harness_error(tb):
    return "ImportError" in tb.splitlines()[-1] if tb.splitlines() else False


def run_task(arg):
    global KNOWN_LABELS
    hname, params, tier, seed, deadline, known = arg
    KNOWN_LABELS = known.get(hname, ())
    KNOWN_SEEN.clear()
    h = api.HARNESSES[hname]
    core.LET = h.let
    eng = core.Engine(timeout_ms=h.timeout_ms, max_paths=h.max_paths, deadline=deadline, known=known.get(hname, ()))
    eng.eager = h.eager
    out = {"harness": hname, "params": params, "violations": [], "incomplete": [], "unconfirmed": [], "samples": [], "validated": 0, "compared": 0, "mismatch": []}
    t0 = time.time()
    cur = [None]
    seen = set()
    rnd = random.Random(seed)
    pend = []
    errs = [0]

    def replay_values(model):
        return cur[0].extract(model)

    def handle(label, model, detail, err=None):
        vals = replay_values(model)
        c = confirm(h, params, vals, err)
        if c is not None:
            key = c[0]
            if key not in seen:
                seen.add(key)
                out["violations"].append({"label": c[0], "solver_label": label, "detail": (detail + " | " + c[1])[-3000:], "values": vals, "seed": c[2]})
        else:
            return vals
        return None

    def path():
        cur[0] = Ctx()
        try:
            if h.tensor:
                with T.SymMode():
                    h.fn(cur[0], **params)
            else:
                h.fn(cur[0], **params)
        except core.Violation as v:
            vals = handle(v.label, v.model, v.detail)
            if vals is not None and len(out["unconfirmed"]) < 20:
                out["unconfirmed"].append({"label": v.label, "detail": v.detail[-500:], "values": vals})
            if len(seen) >= 6 or len(out["unconfirmed"]) >= 20 or (core.LET is not None and seen):
                raise core.Budget("enough counterexamples")
            raise core.PathAbort()
        except (core.PathAbort, core.Budget):
            raise
        except (core.Inconclusive, core.Unsupported) as ex:
            abstain("%s: %s" % (type(ex).__name__, getattr(ex, "why", None) or ex))
        except Exception as ex:
            msg = "".join(traceback.format_exception(ex))[-2500:]
            abstain(f"uncaught {type(ex).__name__}: {ex}", err=type(ex).__name__, tb=msg)

    def abstain(why, err=None, tb=""):
        """the path could not be decided symbolically: check its model concretely"""
        try:
            m = eng.ensure_model()
        except (core.Inconclusive, core.PathAbort):
            m = None
        if m is not None:
            vals = handle(why, m, tb, None)
        if len(out["incomplete"]) < 40:
            if not (m is not None and seen):
                out["incomplete"].append((why + ("\n" + tb if tb else ""))[-1800:])
        errs[0] += 1
        if core.LET is not None and seen:
            raise core.Budget("counterexample found")
        if errs[0] > 60 or len(seen) >= 6:
            raise core.Budget("too many undecided paths")
        raise core.PathAbort()

    def on_end():
        # sample of explored paths, re-executed concretely against the real code
        n = eng.stats.paths
        if len(pend) < 3 or rnd.random() < 3.0 / n:
            try:
                vals = cur[0].extract(eng.ensure_model())
            except (core.Inconclusive, core.PathAbort, core.Unsupported):
                return
            item = evalf.numeric_sample(cur[0], eng, vals, cur[0].bounds, rnd)
            if len(pend) < 3:
                pend.append(item)
            else:
                pend[rnd.randrange(3)] = item

    eng.on_path_end = on_end
    try:
        eng.explore(path)
    except core.Budget as b:
        out["incomplete"].append(f"budget: {b}")
    except core.Inconclusive as b:
        out["incomplete"].append(f"inconclusive: {b.why}")
    except (Exception, core.PathAbort) as ex:
        out["incomplete"].append("engine: " + "".join(traceback.format_exception(ex))[-2000:])
    out["symbolic_s"] = time.time() - t0
    for vals, trace in pend:
        r, label, detail = concrete_run(h, params, vals, trace=trace)
        out["compared"] += len(trace or ())
        if r == "ok":
            out["validated"] += 1
        elif r not in ("discarded",):
            lab = label
            if r == "violation" and label in eng.known:
                continue
            out["mismatch"].append({"result": r, "label": lab, "detail": detail[-800:], "values": vals})
        if len(out["samples"]) < 1:
            out["samples"].append({"harness": hname, "params": params, "inputs": {k: vals[k] for k in list(vals)[:24]}, "concrete_result": r})
    st = eng.stats
    out["stats"] = {k: v for k, v in st.as_dict().items() if k != "incomplete"}
    out["known_hits"] = {**KNOWN_SEEN, **eng.known_hits}
    out["funcs"] = sorted(FUNCS)
    out["ops"] = sorted(T.OPSTAT)
    out["wall"] = time.time() - t0
    return out


def lost(task, why):
    """the result of a task whose worker gave none: not covered"""
    hname, params = task[:2]
    out = {"harness": hname, "params": params, "violations": [], "incomplete": [why], "unconfirmed": [], "samples": [], "validated": 0, "compared": 0, "mismatch": []}
    out["stats"] = {k: v for k, v in core.Engine().stats.as_dict().items() if k != "incomplete"}
    return {**out, "known_hits": {}, "funcs": [], "ops": [], "wall": 0.0, "symbolic_s": 0.0}


def load(prop):
    global MOD
    import fairseq2
    import fairseq2.recipe  # noqa: F401  (breaks an import cycle)

    core.patch_math()
    T.patch_torch()
    sys.path.insert(0, str(VERIF))
    MOD = importlib.import_module(f"props.{prop}")
    return MOD


def known_findings(prop):
    """known_findings.txt: 'finding: property=<id> harness=<h> label=<label> :: text'"""
    out, texts = {}, {}
    p = VERIF / "known_findings.txt"
    if p.exists():
        for line in p.read_text().splitlines():
            if line.startswith(f"finding: property={prop} "):
                head, _, text = line.partition(" :: ")
                hn = head.split("harness=")[1].split(" label=")[0].strip()
                lb = head.split(" label=")[1].strip()
                out.setdefault(hn, []).append(lb)
                texts[(hn, lb)] = text.strip()
    return out, texts


def main():
    if sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else "quick")
    only = sys.argv[3] if len(sys.argv) > 3 else None
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    torch.set_num_threads(1)
    mod = load(prop)
    budget = float(os.environ.get("VERIF_BUDGET", "420" if tier == "quick" else "3000"))
    deadline = t0 + budget
    known, known_texts = known_findings(prop)
    tasks = []
    for h in api.HARNESSES.values():
        if only and only not in h.name:
            continue
        for p in h.params(tier):
            tasks.append((h.name, p, tier, seed, deadline, known))
    nproc = min(int(os.environ.get("VERIF_JOBS", "8")), max(1, len(tasks)))
    start_monitor()
    results = []
    if nproc == 1 or os.environ.get("VERIF_INPROC"):
        results = [run_task(t) for t in tasks]
    else:
        for r in workers.run(run_task, tasks, nproc, deadline + 120, lost, limit=300 if tier == "quick" else budget):
            results.append(r)
    return report(prop, tier, seed, mod, results, t0, known_texts, bool(only))


def report(prop, tier, seed, mod, results, t0, known_texts, partial):
    agg = {k: 0 for k in ("paths", "aborted", "branches", "feas_queries", "obligations", "discharged_solver", "discharged_const", "solver_s", "unknown", "concretized")}
    funcs, ops, reached, samples, inc, unconf, mism = set(), set(), {}, [], [], [], []
    validated = compared = 0
    violations = []
    hits = {}
    perh = {}
    for r in results:
        for k in agg:
            agg[k] += r["stats"][k]
        funcs.update(r["funcs"])
        ops.update(r["ops"])
        for l, c in r["stats"]["reached"].items():
            reached.setdefault((r["harness"], l), 0)
            reached[(r["harness"], l)] += c
        samples += r["samples"]
        validated += r["validated"]
        compared += r["compared"]
        inc += [dict(harness=r["harness"], params=r["params"], why=w) for w in r["incomplete"]]
        unconf += [dict(harness=r["harness"], params=r["params"], **u) for u in r["unconfirmed"]]
        mism += [dict(harness=r["harness"], params=r["params"], **u) for u in r["mismatch"]]
        violations += [dict(harness=r["harness"], params=r["params"], **v) for v in r["violations"]]
        for l, d in r["known_hits"].items():
            hits[(r["harness"], l)] = d
        p = perh.setdefault(r["harness"], {"configurations": 0, "paths": 0, "obligations": 0, "solver_s": 0.0, "wall_s": 0.0})
        p["configurations"] += 1
        p["paths"] += r["stats"]["paths"]
        p["obligations"] += r["stats"]["obligations"]
        p["solver_s"] = round(p["solver_s"] + r["stats"]["solver_s"], 2)
        p["wall_s"] = round(p["wall_s"] + r["wall"], 2)
        if os.environ.get("VERIF_DEBUG"):
            print(f"   . {r['harness']} {r.get('params')} {r['wall']:.1f}s")
    vacuous = []
    for h in api.HARNESSES.values():
        if partial and h.name not in perh:
            continue
        for l in h.labels:
            if not reached.get((h.name, l)):
                vacuous.append(f"{h.name}:{l}")
    ev = VERIF / "evidence"
    ev.mkdir(exist_ok=True)
    rd = ev / "replays"
    rd.mkdir(exist_ok=True)
    for old in rd.glob(f"{prop}-*.json"):
        old.unlink()
    lines = []
    for i, v in enumerate(violations):
        f = rd / f"{prop}-{i}.json"
        f.write_text(json.dumps({"property": prop, **v}, indent=1, default=str))
        if i < 10:
            lines.append(f"VIOLATION property={prop} replay={f}")
            print(f"# {v['harness']} {v['params']}: {v['label']}: {v['detail'][-600:]}")
    wall = time.time() - t0
    queries = agg["feas_queries"] + agg["discharged_solver"] + len(violations) + len(unconf)
    random.Random(seed).shuffle(samples)
    coverage = {
        "states": agg["paths"] + agg["aborted"],
        "transitions": agg["branches"],
        "traces_validated_against_impl": validated,
        "numbers_compared_with_the_plain_code": compared,
        "samples": samples[:4],
        "feasible_paths": agg["paths"],
        "obligations": agg["obligations"],
        "discharged_by_solver": agg["discharged_solver"],
        "discharged_by_constant_folding": agg["discharged_const"],
        "solver_queries": queries,
        "solver_s": round(agg["solver_s"], 3),
        "functions_encoded": sorted(funcs),
        "tensor_operators_interpreted_via_fallback": sorted(ops),
        "bounds": {h.name: h.bounds for h in api.HARNESSES.values()},
        "outside_bounds": getattr(mod, "OUTSIDE", ""),
        "labels_reached": {f"{a}:{b}": c for (a, b), c in sorted(reached.items())},
        "per_harness": perh,
        "undecided_paths": inc[:50],
        "unconfirmed_counterexamples": unconf[:20],
        "validation_mismatches": mism[:20],
        "vacuous": vacuous,
        "explanation": "Every feasible path of the harnesses through the real functions was executed with symbolic inputs; "
        "states = path ends, transitions = symbolic branch decisions, traces_validated = solver models of explored paths re-executed on the plain code; numbers_compared = values of the compared terms under random inputs of these paths, equal to those of the plain code.",
    }
    doc = {
        "property": prop,
        "tier": tier if tier in ("quick", "thorough") else "quick",
        "seed": seed,
        "level": "model_checking",
        "coverage": coverage,
        "assumptions": ["floating-point arithmetic is modelled by exact real arithmetic; casts between float types are the identity"] + list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(wall, 2),
        "violations": len(violations),
    }
    (ev / f"{prop}.json").write_text(json.dumps(doc, indent=1, default=str))
    for (hn, lb), d in hits.items():
        print(f"KNOWN-FINDING: property={prop} {known_texts.get((hn, lb), lb)}")
    print(
        f"{prop} {tier}: {len(results)} configurations, {agg['paths']} paths, {agg['obligations']} obligations "
        f"({agg['discharged_solver']} by solver), solver {agg['solver_s']:.1f}s, validated {validated} ({compared} numbers), undecided {len(inc)}, "
        f"unconfirmed {len(unconf)}, mismatches {len(mism)}, wall {wall:.1f}s"
    )
    if os.environ.get("VERIF_DEBUG"):
        for x in inc[:8]:
            print("UNDECIDED", x["harness"], x["params"], x["why"])
        for x in unconf[:4]:
            print("UNCONFIRMED", x)
        for x in mism[:4]:
            print("MISMATCH", x)
        for k, v in perh.items():
            print("  ", k, v)
    for l in lines:
        print(l)
    if violations:
        return 1
    if vacuous and not inc:
        print("VACUOUS: " + ", ".join(vacuous))
        return 2
    return 0


def replay(path):
    d = json.loads(Path(path).read_text())
    load(d["property"])
    h = api.HARNESSES[d["harness"]]
    r, label, detail = concrete_run(h, d["params"], d["values"], d.get("seed"))
    print(r, label, detail)
    return 1 if r in ("violation", "error", "timeout") else 0


if __name__ == "__main__":
    sys.modules.setdefault("symx.runner", sys.modules["__main__"])
    sys.exit(main())
