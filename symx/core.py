"""
Symbolic execution core.

The functions under check are the *real* functions imported from /repo; they run
natively in the interpreter. Inputs are proxy objects (``SymInt``, ``SymReal``,
``SymBool``) that carry z3 terms. Every time the code asks a proxy for a concrete
truth value the engine forks: it follows the side that the current model of the
path condition satisfies and schedules the other side. Feasibility and assertions
are decided by z3. A harness is therefore evaluated on *every* feasible path
within its stated bounds and each assertion is discharged for all the values the
path condition admits.
"""

from __future__ import annotations

import math
import re
import os
import sys
import time
from fractions import Fraction

_Z3_SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
try:
    import z3
except ImportError:  # the project's venv has no z3; borrow the (pure ctypes) binding
    sys.path.append(_Z3_SITE)
    import z3

    sys.path.remove(_Z3_SITE)

INF = float("inf")


class PathAbort(BaseException):
    """The current path ends here (assumption violated / cut)."""


class Violation(BaseException):
    def __init__(self, label, model, detail=""):
        self.label = label
        self.model = model
        self.detail = detail


class Inconclusive(BaseException):
    def __init__(self, why):
        self.why = why


class Unsupported(Exception):
    """Something the symbolic executor cannot express."""


class Budget(BaseException):
    pass


ENGINE = None  # the active engine (one per process)


class Stats:
    def __init__(self):
        self.paths = 0
        self.aborted = 0
        self.branches = 0
        self.feas_queries = 0
        self.obligations = 0
        self.discharged_solver = 0
        self.discharged_const = 0
        self.solver_s = 0.0
        self.unknown = 0
        self.concretized = 0
        self.incomplete = []
        self.reached = {}

    def as_dict(self):
        return dict(self.__dict__)


_TRACE = os.environ.get("VERIF_TRACE_FORKS")


class Engine:
    def __init__(self, timeout_ms=20000, max_paths=200000, deadline=None, known=()):
        self.stats = Stats()
        self.timeout_ms = timeout_ms
        self.max_paths = max_paths
        self.deadline = deadline
        self.work = []
        self.known = set(known)  # labels of listed findings: recorded, then assumed away
        self.known_hits = {}
        self.on_path_end = None
        self.eager = False  # check both sides of a fork at once

    # -- solver plumbing -------------------------------------------------
    def _new_solver(self, timeout=None):
        s = z3.Solver()
        s.set("timeout", timeout or self.timeout_ms)
        return s

    def _check(self, *extra):
        t = time.time()
        for x in extra:
            self._pull_axioms(x)
        r = self.solver.check(*extra)
        self.stats.solver_s += time.time() - t
        if r == z3.unknown:
            self.stats.unknown += 1
        return r

    # -- axioms of uninterpreted functions: asserted only when the application occurs --
    def axiom(self, app, cond):
        if isinstance(cond, SymBool):
            self.axioms.setdefault(app.get_id(), []).append(cond.e)
            self.keep.append(app)

    def _pull_axioms(self, e):
        if not self.axioms:
            return
        stack = [e]
        seen = self.scanned
        while stack:
            x = stack.pop()
            i = x.get_id()
            if i in seen:
                continue
            seen.add(i)
            self.keep.append(x)
            for ax in self.axioms.get(i, ()):
                self.solver.add(ax)
                stack.append(ax)
            stack.extend(x.children())

    # -- exploration -----------------------------------------------------
    def explore(self, fn):
        """Runs ``fn`` on every feasible path."""
        global ENGINE
        self.work = [([], None)]
        while self.work:
            if self.deadline is not None and time.time() > self.deadline:
                raise Budget(f"time budget exhausted with {len(self.work)} pending paths")
            if self.stats.paths >= self.max_paths:
                raise Budget(f"path budget exhausted ({self.max_paths})")
            prefix, need = self.work.pop()
            self.start(prefix, need)
            ENGINE = self
            try:
                fn()
                if self.pos < len(self.prefix):
                    raise Inconclusive("non-deterministic replay: a recorded decision was not reached")
                self.stats.paths += 1
                if self.on_path_end is not None:
                    self.on_path_end()
            except PathAbort:
                self.stats.aborted += 1
            finally:
                ENGINE = None

    def start(self, prefix, need):
        self.solver = self._new_solver()
        self.prefix = prefix
        self.pos = 0
        self.decisions = []
        self.model = None
        self.pending_flip = need
        self.pc_ids = {}
        self.axioms = {}
        self.scanned = set()
        self.keep = []

    def add(self, e):
        self.solver.add(e)
        self._pull_axioms(e)
        self.pc_ids[e.get_id()] = (True, e)

    def ensure_model(self):
        if self.model is None:
            r = self._check()
            self.stats.feas_queries += 1
            if r == z3.unsat:
                raise PathAbort()
            if r == z3.unknown:
                if LET is not None:
                    raise Inconclusive("feasibility of a path is unknown to the solver")
                r, m = self._hard_check(z3.BoolVal(True))
                if r == z3.unsat:
                    raise PathAbort()
                if r == z3.unknown:
                    raise Inconclusive("feasibility of a path is unknown to the solver")
                self.model = m
                return m
            self.model = self.solver.model()
        return self.model

    def decide(self, cond) -> bool:
        """Forks on ``cond`` (a z3 Bool)."""
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        known = self.pc_ids.get(c.get_id())
        if known is not None:
            return known[0]
        self.stats.branches += 1
        if _TRACE:
            import traceback

            f = [x for x in traceback.extract_stack() if "/symx/" not in x.filename][-1]
            print(f"fork {f.filename}:{f.lineno} {f.line} :: {str(c)[:150]}", file=sys.stderr)
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            if not isinstance(d, bool):
                raise Inconclusive("non-deterministic replay")
            self.pos += 1
            self._take(c, d)
            if self.pos == len(self.prefix) and self.pending_flip:
                # the last decision of the prefix is the unexplored side
                self.pending_flip = None
                self.model = None
                self.ensure_model()
            return d
        m = self.ensure_model()
        v = m.eval(c, model_completion=True)
        d = z3.is_true(v)
        if not d and not z3.is_false(v):
            # e.g. algebraic/UF leftovers: ask the solver directly
            self.stats.feas_queries += 1
            r = self._check(c)
            d = r == z3.sat
            if d:
                self.model = self.solver.model()
        flip = True
        if self.eager:
            # a query now instead of a run up to here that ends here
            self.stats.feas_queries += 1
            flip = self._check(z3.Not(c) if d else c) != z3.unsat
        if flip:
            self.work.append((self.decisions + [not d], True))
        self._take(c, d)
        self.pos += 1
        return d

    def _take(self, c, d):
        self.decisions.append(d)
        self.solver.add(c if d else z3.Not(c))
        self._pull_axioms(c)
        self.pc_ids[c.get_id()] = (d, c)

    def concretize(self, e):
        """Forks over the feasible values of an Int/Real term; returns a z3 value."""
        e = z3.simplify(e)
        if z3.is_int_value(e) or z3.is_rational_value(e):
            return e
        n = 0
        while True:
            if self.pos < len(self.prefix):
                # value choices are replayed deterministically through `values`
                v = self.prefix[self.pos]
                if not isinstance(v, tuple):
                    raise Inconclusive("non-deterministic replay")
                val, d = v
                self.pos += 1
                val_e = z3.IntVal(val) if z3.is_int(e) else z3.RealVal(val)
                c = e == val_e
                self.decisions.append((val, d))
                self.solver.add(c if d else z3.Not(c))
                self._pull_axioms(c)
                self.pc_ids[c.get_id()] = (d, c)
                if self.pos == len(self.prefix) and self.pending_flip:
                    self.pending_flip = None
                    self.model = None
                    self.ensure_model()
                if d:
                    return val_e
                continue
            m = self.ensure_model()
            val_e = m.eval(e, model_completion=True)
            if z3.is_int(e):
                val = val_e.as_long()
            else:
                if not z3.is_rational_value(val_e):
                    raise Unsupported("cannot concretize an algebraic number")
                val = str(val_e.as_fraction())
            n += 1
            if n > 5000:
                raise Budget("concretization of an unbounded term")
            self.work.append((self.decisions + [(val, False)], True))
            c = e == val_e
            self.stats.branches += 1
            self.decisions.append((val, True))
            self.solver.add(c)
            self._pull_axioms(c)
            self.pc_ids[c.get_id()] = (True, c)
            self.pos += 1
            return val_e

    def assume(self, cond):
        if isinstance(cond, SymBool):
            c = z3.simplify(cond.e)
            if z3.is_true(c):
                return
            if z3.is_false(c):
                raise PathAbort()
            self.add(c)
            if self.model is not None:
                if not z3.is_true(self.model.eval(c, model_completion=True)):
                    self.model = None
                    if self.pos >= len(self.prefix):
                        self.ensure_model()
        elif not cond:
            raise PathAbort()

    def check(self, cond, label, detail=""):
        """Asserts ``cond`` for every value on the current path."""
        st = self.stats
        st.reached[label] = st.reached.get(label, 0) + 1
        if not isinstance(cond, SymBool):
            if cond:
                st.obligations += 1
                st.discharged_const += 1
                return
            if label in self.known:
                self.known_hits[label] = detail
                raise PathAbort()
            st.obligations += 1
            self.model = None
            m = self.ensure_model()
            raise Violation(label, m, detail)
        if self.pos < len(self.prefix):
            # this obligation was already discharged by the path that we forked from
            return
        st.obligations += 1
        c = z3.simplify(cond.e)
        if z3.is_true(c):
            st.discharged_solver += 1
            return
        if self._normal_form(cond.e):
            st.discharged_solver += 1
            return
        neg = z3.simplify(z3.Not(c))
        r, m = self._decide_obligation(neg)
        if r == z3.unsat:
            st.discharged_solver += 1
            return
        if r == z3.sat:
            if label in self.known:
                self.known_hits[label] = detail
                self.assume(cond)
                return
            raise Violation(label, m, detail)
        raise Inconclusive(f"solver returned unknown for '{label}'")

    def _normal_form(self, e):
        """polynomial identities are decided by normalisation to a sum of monomials"""
        if z3.is_and(e):
            return all(self._normal_form(c) for c in e.children())
        if z3.is_eq(e) and z3.is_arith(e.arg(0)):
            t = time.time()
            d = z3.simplify(e.arg(0) - e.arg(1), som=True, som_blowup=100000)
            self.stats.solver_s += time.time() - t
            return z3.is_rational_value(d) and d.as_fraction() == 0 or z3.is_int_value(d) and d.as_long() == 0
        return False

    def _decide_obligation(self, neg):
        t = time.time()
        self._pull_axioms(neg)
        try:
            first = None
            if LET is None:
                self.solver.set("timeout", min(self.timeout_ms, 500))
                first = self.solver.check(neg)
                self.solver.set("timeout", self.timeout_ms)
                if first == z3.unsat:
                    return first, None
                if first == z3.sat:
                    first = self.solver.model()
                # an under-approximation with generic rational inputs gives the better counterexamples
                reals = free_reals([neg] + list(self.solver.assertions()))
                if len(reals) > 1:
                    r, m = self._pinned(neg, reals, 1, 2000)
                    if r == z3.sat:
                        return r, m
                if isinstance(first, z3.ModelRef):
                    return z3.sat, first
            self.solver.set("timeout", min(self.timeout_ms, 5000))
            r = self.solver.check(neg)
            self.solver.set("timeout", self.timeout_ms)
            if r == z3.sat:
                return r, self.solver.model()
            if r == z3.unsat:
                return r, None
            self.stats.unknown += 1
            if LET is not None:
                return r, None
        finally:
            self.stats.solver_s += time.time() - t
        return self._hard_check(neg)

    def _pinned(self, neg, reals, n, timeout):
        import random

        for seed in range(n):
            rnd = random.Random(seed)
            s = self._new_solver(timeout)
            s.add(self.solver.assertions())
            s.add(neg)
            for v in reals:
                s.add(v == real_val(Fraction(rnd.randint(-40, 40), rnd.choice([7, 9, 11, 13]))))
            r = s.check()
            if r == z3.sat:
                return r, s.model()
        return z3.unknown, None

    def _hard_check(self, neg):
        t = time.time()
        self._pull_axioms(neg)
        try:
            # (1) a fresh solver with the nonlinear tactic
            for tac in ("qfnra-nlsat", "smt"):
                try:
                    s = z3.Then("simplify", "purify-arith", "propagate-values", "solve-eqs", tac).solver()
                    s.set("timeout", self.timeout_ms)
                    s.add(self.solver.assertions())
                    s.add(neg)
                    r = s.check()
                    if r != z3.unknown:
                        return r, (s.model() if r == z3.sat else None)
                except z3.Z3Exception:
                    pass
            # (2) under-approximation: pin the real inputs to generic rationals
            return self._pinned(neg, free_reals([neg] + list(self.solver.assertions())), 4, self.timeout_ms)
        finally:
            self.stats.solver_s += time.time() - t


def free_reals(es):
    seen, out, stack = set(), [], list(es)
    while stack:
        e = stack.pop()
        i = e.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and z3.is_real(e) and not e.decl().name().startswith("let!"):
            out.append(e)
        stack.extend(e.children())
    return out


def eng() -> Engine:
    if ENGINE is None:
        raise Unsupported("no active engine")
    return ENGINE


# --------------------------------------------------------------------------
# proxies
# --------------------------------------------------------------------------


def _is_tensor(x):
    m = sys.modules.get("torch")
    return m is not None and isinstance(x, m.Tensor)


def to_frac(x):
    """Finite Python number -> Fraction."""
    if isinstance(x, bool):
        return Fraction(int(x))
    return Fraction(x)


def real_val(x):
    f = to_frac(x)
    return z3.RealVal(f"{f.numerator}/{f.denominator}") if f.denominator != 1 else z3.RealVal(f.numerator)


def _special(x):
    return isinstance(x, float) and (math.isinf(x) or math.isnan(x))


TOKENS = []


def untoken(text):
    """the symbolic value a formatted token stands for, or None"""
    text = text.strip()
    if not (text.startswith("\u27e6") and text.endswith("\u27e7") and ":" in text):
        return None
    n, spec = text[1:-1].split(":", 1)
    if not n.isdigit():
        return None
    v = TOKENS[int(n)]
    if spec in ("", "d"):
        return v
    m = re.fullmatch(r"(?:\.(\d+))?([fFgGeE])", spec)
    if m is None or not isinstance(v, SymNum):
        raise Unsupported(f"text of a symbolic value formatted with {spec!r}")
    return _rounded(v, 6 if m[1] is None else int(m[1]), m[2].lower())


def _rounded(v, n, kind):
    """the number read back from ``v`` printed with n digits (ties aside)"""
    x = z3.ToReal(v.e) if isinstance(v, SymInt) else v.e

    def to(digits):
        sc = z3.RealVal(Fraction(10) ** digits) if digits >= 0 else z3.RealVal(f"1/{10 ** -digits}")
        return z3.ToReal(z3.ToInt(x * sc + z3.RealVal("1/2"))) / sc

    if kind == "f":
        return mk_real(to(n))
    sig = max(n, 1) if kind == "g" else n + 1
    a = z3.If(x >= 0, x, -x)
    lo, hi = -6, 12
    out = to(sig - 1 - hi)
    for k in range(hi - 1, lo - 1, -1):  # 10^k <= |x| < 10^(k+1)
        out = z3.If(a < z3.RealVal(str(10 ** (k + 1))) if k >= -1 else a < z3.RealVal(f"1/{10 ** -(k + 1)}"), to(sig - 1 - k), out)
    return mk_real(z3.If(x == 0, x, out))


class Sym:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __repr__(self):
        return f"\u27e6{self.e}\u27e7"

    __str__ = __repr__

    def __format__(self, spec):
        # a token that stands for the value; ``untoken`` recovers it
        TOKENS.append(self)
        return f"\u27e6{len(TOKENS) - 1}:{spec}\u27e7"

    def __reduce__(self):
        raise Unsupported("a symbolic value cannot be pickled")


def simp(e):
    return z3.simplify(e)


class SymBool(Sym):
    __slots__ = ()

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        return eng().decide(self.e)

    def __hash__(self):
        return hash(bool(self))

    def __and__(self, o):
        o = as_bool_e(o)
        return NotImplemented if o is None else mk_bool(z3.And(self.e, o))

    __rand__ = __and__

    def __or__(self, o):
        o = as_bool_e(o)
        return NotImplemented if o is None else mk_bool(z3.Or(self.e, o))

    __ror__ = __or__

    def __xor__(self, o):
        o = as_bool_e(o)
        return NotImplemented if o is None else mk_bool(z3.Xor(self.e, o))

    __rxor__ = __xor__

    def __invert__(self):
        return mk_bool(z3.Not(self.e))

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mk_bool(self.e == as_bool_e(o))
        return self._int() == o

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not_(r)

    def _int(self):
        return mk_int(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)))

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __add__(self, o):
        return self._int() + o

    __radd__ = __add__

    def __sub__(self, o):
        return self._int() - o

    def __rsub__(self, o):
        return o - self._int()

    def __mul__(self, o):
        return self._int() * o

    __rmul__ = __mul__

    def __lt__(self, o):
        return self._int() < o

    def __le__(self, o):
        return self._int() <= o

    def __gt__(self, o):
        return self._int() > o

    def __ge__(self, o):
        return self._int() >= o


def mk_bool(e):
    e = simp(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def mk_int(e):
    e = simp(e)
    if z3.is_int_value(e):
        return e.as_long()
    return SymInt(e)


def mk_real(e):
    # deliberately not simplified: large real terms are normalised once, at the
    # point where they are decided
    if z3.is_rational_value(e):
        return e.as_fraction()
    return SymReal(e)


# ---- naming of large subterms ----------------------------------------------
# With LET set, real subterms larger than LET nodes are replaced by a fresh
# constant that is defined as the term.  Structurally equal terms share one
# constant (z3 hash-conses terms), so equal computations stay recognisably equal
# however deep they are.  The definitions are asserted when the solver has to
# look inside.
LET = None
_SIZES = {}
_LETS = {}


def _size(e, cap):
    i = e.get_id()
    v = _SIZES.get(i)
    if v is not None:
        return v[0]
    n = 1
    for c in e.children():
        n += _size(c, cap)
        if n > cap:
            break
    _SIZES[i] = (n, e)
    return n


_LETDEFS = {}  # id of a let constant -> definition
_SIGNS = {}


def sign(e, depth=40):
    """2: structurally positive, 1: structurally non-negative, 0: not known"""
    i = e.get_id()
    r = _SIGNS.get(i)
    if r is None:
        if depth == 0:
            return 0
        r = _sign(e, depth - 1)
        _SIGNS[i] = r
        _KEEP.append(e)
    return r


_KEEP = []


def _sign(e, d):
    if z3.is_rational_value(e) or z3.is_int_value(e):
        n = e.as_fraction() if z3.is_rational_value(e) else e.as_long()
        return 2 if n > 0 else 1 if n == 0 else 0
    k = e.decl().kind()
    if k == z3.Z3_OP_ADD:
        s = [sign(c, d) for c in e.children()]
        return 0 if 0 in s else max(s)
    if k == z3.Z3_OP_MUL:
        odd = {}
        for c in e.children():
            j = c.get_id()
            if j in odd:
                del odd[j]
            else:
                odd[j] = c
        s = [sign(c, d) for c in odd.values()]
        return 0 if 0 in s else min(s + ([1] if len(odd) < e.num_args() else []))
    if k == z3.Z3_OP_DIV:
        s = [sign(c, d) for c in e.children()]
        return s[0] if s[1] == 2 else 0
    if k == z3.Z3_OP_TO_REAL:
        return sign(e.arg(0), d)
    if k == z3.Z3_OP_ITE:
        return min(_branch_sign(e.arg(0), e.arg(1), True, d), _branch_sign(e.arg(0), e.arg(2), False, d))
    if k == z3.Z3_OP_UNINTERPRETED:
        if e.num_args() == 0:
            f = _LETDEFS.get(e.get_id())
            return sign(f, d) if f is not None else 0
        n = e.decl().name()
        if n == "exp":
            return 2
        if n == "sqrt":
            return 2 if sign(e.arg(0), d) == 2 else 1
    return 0


def _branch_sign(c, t, truth, d):
    """the sign of ``t`` where ``c`` is ``truth``"""
    while z3.is_not(c):
        c, truth = c.arg(0), not truth
    k = c.decl().kind()
    if k in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT):
        a, b = c.children()
        if k in (z3.Z3_OP_LE, z3.Z3_OP_LT):
            a, b = b, a
        # a >= b or a > b
        if not truth:
            a, b = b, a
        if a.eq(t):
            s = sign(b, d)
            if s:
                return max(s, sign(t, d))
    return sign(t, d)


def let(x):
    if type(x) is not SymReal:
        return x
    e = x.e
    if e.num_args() == 0:
        return x
    i = e.get_id()
    v = _LETS.get(i)
    if v is None:
        if _size(e, LET) <= LET:
            return x
        # one cheap normalisation, so that operand order does not matter
        s = z3.simplify(e, sort_sums=True)
        w = _LETS.get(s.get_id())
        if w is None:
            c = z3.Real(f"let!{len(_LETS)}")
            w = _LETS[s.get_id()] = (SymReal(c), s)
            _LETDEFS[c.get_id()] = s
        v = _LETS[i] = (w[0], e, s)
    r = v[0]
    g = eng()
    if r.e.get_id() not in g.axioms:
        g.axiom(r.e, SymBool(r.e == v[-1]))
    return r


def mk(e):
    if z3.is_bool(e):
        return mk_bool(e)
    if z3.is_int(e):
        return mk_int(e)
    return mk_real(e)


def as_bool_e(o):
    if type(o) is SymBool:
        return o.e
    if isinstance(o, bool) or type(o).__name__ == "bool":  # incl. numpy.bool
        return z3.BoolVal(bool(o))
    return None


def not_(b):
    if type(b) is SymBool:
        return mk_bool(z3.Not(b.e))
    return not b


def and_(*bs):
    es = []
    for b in bs:
        if type(b) is SymBool:
            es.append(b.e)
        elif not b:
            return False
    if not es:
        return True
    return mk_bool(z3.And(*es)) if len(es) > 1 else mk_bool(es[0])


def or_(*bs):
    es = []
    for b in bs:
        if type(b) is SymBool:
            es.append(b.e)
        elif b:
            return True
    if not es:
        return False
    return mk_bool(z3.Or(*es)) if len(es) > 1 else mk_bool(es[0])


def implies(a, b):
    return or_(not_(a), b)


def iff(a, b):
    if type(a) is SymBool or type(b) is SymBool:
        return mk_bool(as_bool_e(a) == as_bool_e(b))
    return bool(a) == bool(b)


def ite(c, a, b):
    """If-then-else without forking (unless a value is not a finite number)."""
    if type(c) is not SymBool:
        return a if c else b
    if a is b:
        return a
    if _special(a) or _special(b):
        if _special(a) and _special(b) and (a == b):
            return a
        return a if c else b  # forks
    ka, kb = lift(a), lift(b)
    if ka is None or kb is None:
        return a if c else b
    if z3.is_bool(ka) and z3.is_bool(kb):
        return mk_bool(z3.If(c.e, ka, kb))
    if z3.is_bool(ka):
        ka = z3.If(ka, z3.IntVal(1), z3.IntVal(0))
    if z3.is_bool(kb):
        kb = z3.If(kb, z3.IntVal(1), z3.IntVal(0))
    if z3.is_int(ka) and z3.is_int(kb):
        return mk_int(z3.If(c.e, ka, kb))
    if z3.is_int(ka):
        ka = z3.ToReal(ka)
    if z3.is_int(kb):
        kb = z3.ToReal(kb)
    return mk_real(z3.If(c.e, ka, kb))


def lift(x):
    """Python value -> z3 term or None."""
    if isinstance(x, Sym):
        return x.e
    t = type(x)
    if t is bool:
        return z3.BoolVal(x)
    if t is int:
        return z3.IntVal(x)
    if t is Fraction:
        return real_val(x)
    if t is float:
        return None if _special(x) else real_val(x)
    if isinstance(x, (bool,)):
        return z3.BoolVal(bool(x))
    if isinstance(x, int):
        return z3.IntVal(int(x))
    if isinstance(x, float):
        return None if _special(float(x)) else real_val(float(x))
    tn = t.__module__
    if tn == "numpy":
        return lift(x.item())
    return None


def _num(x):
    """numeric z3 term (bool -> int)"""
    e = lift(x)
    if e is not None and z3.is_bool(e):
        e = z3.If(e, z3.IntVal(1), z3.IntVal(0))
    return e


def _both(a, b):
    x, y = _num(a), _num(b)
    if x is None or y is None:
        return None
    if z3.is_real(x) and not z3.is_real(y):
        y = z3.ToReal(y)
    elif z3.is_real(y) and not z3.is_real(x):
        x = z3.ToReal(x)
    return x, y


def _sgn(x):
    """Forks on the sign of a numeric proxy."""
    if x > 0:
        return 1
    if x < 0:
        return -1
    return 0


class SymNum(Sym):
    __slots__ = ()

    # -- arithmetic
    def _bin(self, o, fn, swap=False):
        if _is_tensor(o):
            return NotImplemented
        p = _both(self, o)
        if p is None:
            return None
        x, y = p
        return mk(fn(y, x) if swap else fn(x, y))

    def _isreal_pair(self, o):
        return z3.is_real(self.e) or type(o) is SymReal or isinstance(o, (float, Fraction))

    def __add__(self, o):
        if _is_tensor(o):
            return _tensor_binop("add", self, o)
        if _special(o):
            return o
        if type(o) in (int, Fraction, float) and o == 0:
            return self if z3.is_real(self.e) or type(o) is int else mk_real(z3.ToReal(self.e))
        r = self._bin(o, lambda a, b: a + b)
        return NotImplemented if r is None else r

    __radd__ = __add__

    def __sub__(self, o):
        if _is_tensor(o):
            return _tensor_binop("sub", self, o)
        if _special(o):
            return -o
        r = self._bin(o, lambda a, b: a - b)
        return NotImplemented if r is None else r

    def __rsub__(self, o):
        if _is_tensor(o):
            return _tensor_binop("rsub", self, o)
        if _special(o):
            return o
        r = self._bin(o, lambda a, b: a - b, swap=True)
        return NotImplemented if r is None else r

    def __mul__(self, o):
        if _is_tensor(o):
            return _tensor_binop("mul", self, o)
        if _special(o):
            s = _sgn(self)
            return o * s
        if isinstance(o, (str, list, tuple, bytes)):
            return o * self.__index__()
        if type(o) in (int, Fraction, float):
            if o == 0:
                return 0 if not z3.is_real(self.e) and type(o) is int else Fraction(0)
            if o == 1 and (z3.is_real(self.e) or type(o) is int):
                return self
        r = self._bin(o, lambda a, b: a * b)
        return NotImplemented if r is None else r

    __rmul__ = __mul__

    def __truediv__(self, o):
        if _is_tensor(o):
            return _tensor_binop("div", self, o)
        if _special(o):
            return 0.0 if math.isinf(o) else o
        return div(self, o)

    def __rtruediv__(self, o):
        if _is_tensor(o):
            return _tensor_binop("rdiv", self, o)
        if _special(o):
            if self == 0:
                raise ZeroDivisionError("division by zero")
            return o * _sgn(self)
        return div(o, self)

    def __neg__(self):
        return mk(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return mk(z3.If(self.e >= 0, self.e, -self.e))

    def __floordiv__(self, o):
        return floordiv(self, o)

    def __rfloordiv__(self, o):
        return floordiv(o, self)

    def __mod__(self, o):
        return mod(self, o)

    def __rmod__(self, o):
        if isinstance(o, str):
            return NotImplemented
        return mod(o, self)

    def __divmod__(self, o):
        return floordiv(self, o), mod(self, o)

    def __rdivmod__(self, o):
        return floordiv(o, self), mod(o, self)

    def __pow__(self, o, m=None):
        return power(self, o)

    def __rpow__(self, o):
        return power(o, self)

    # -- comparison
    def _cmp(self, o, fn):
        p = _both(self, o)
        if p is None:
            return None
        return mk_bool(fn(*p))

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        if _is_tensor(o):
            return _tensor_binop("eq", self, o)
        if _special(o):
            return False
        r = self._cmp(o, lambda a, b: a == b)
        return NotImplemented if r is None else r

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not_(r)

    def __lt__(self, o):
        if _is_tensor(o):
            return _tensor_binop("lt", self, o)
        if _special(o):
            return 0.0 < o
        r = self._cmp(o, lambda a, b: a < b)
        return NotImplemented if r is None else r

    def __le__(self, o):
        if _is_tensor(o):
            return _tensor_binop("le", self, o)
        if _special(o):
            return 0.0 <= o
        r = self._cmp(o, lambda a, b: a <= b)
        return NotImplemented if r is None else r

    def __gt__(self, o):
        if _is_tensor(o):
            return _tensor_binop("gt", self, o)
        if _special(o):
            return 0.0 > o
        r = self._cmp(o, lambda a, b: a > b)
        return NotImplemented if r is None else r

    def __ge__(self, o):
        if _is_tensor(o):
            return _tensor_binop("ge", self, o)
        if _special(o):
            return 0.0 >= o
        r = self._cmp(o, lambda a, b: a >= b)
        return NotImplemented if r is None else r

    def __bool__(self):
        return eng().decide(self.e != 0)

    def conjugate(self):
        return self


class SymInt(SymNum):
    __slots__ = ()

    @property
    def __class__(self):
        return int

    def __index__(self):
        return eng().concretize(self.e).as_long()

    def __int__(self):
        return self.__index__()

    def __float__(self):
        return float(self.__index__())

    def __hash__(self):
        return hash(self.__index__())

    def __round__(self, n=None):
        return self

    def __floor__(self):
        return self

    def __ceil__(self):
        return self

    def __trunc__(self):
        return self

    def bit_length(self):
        return self.__index__().bit_length()

    def __lshift__(self, o):
        return self.__index__() << int(o)

    def __rshift__(self, o):
        return self.__index__() >> int(o)

    def __and__(self, o):
        return self.__index__() & int(o)

    def __or__(self, o):
        return self.__index__() | int(o)

    def __rlshift__(self, o):
        return o << self.__index__()

    @property
    def real(self):
        return self

    @property
    def numerator(self):
        return self

    @property
    def denominator(self):
        return 1


class SymReal(SymNum):
    __slots__ = ()

    @property
    def __class__(self):
        return float

    def __float__(self):
        eng().stats.concretized += 1
        v = eng().concretize(self.e)
        return float(v.as_fraction())

    def __int__(self):
        return int(self.__trunc__())

    def __hash__(self):
        return hash(self.__float__())

    def __floor__(self):
        return mk_int(z3.ToInt(self.e))

    def __ceil__(self):
        return mk_int(-z3.ToInt(-self.e))

    def __trunc__(self):
        return mk_int(z3.If(self.e >= 0, z3.ToInt(self.e), -z3.ToInt(-self.e)))

    def __round__(self, n=None):
        if n is not None:
            raise Unsupported("round(x, n)")
        f = z3.ToInt(self.e + z3.RealVal("1/2"))
        # banker's rounding on ties
        tie = z3.ToReal(f) == self.e + z3.RealVal("1/2")
        return mk_int(z3.If(z3.And(tie, f % 2 != 0), f - 1, f))

    def is_integer(self):
        return mk_bool(z3.IsInt(self.e))


def div(a, b):
    y = _num(b)
    if y is None:
        return NotImplemented
    if isinstance(b, Sym):
        if mk_bool(y == 0):
            raise ZeroDivisionError("division by zero")
    elif b == 0:
        raise ZeroDivisionError("division by zero")
    x = _num(a)
    if x is None:
        return NotImplemented
    if z3.is_int(x):
        x = z3.ToReal(x)
    if z3.is_int(y):
        y = z3.ToReal(y)
    return mk_real(x / y)


SMALL_QUOTIENTS = None  # largest quotient a division by a symbolic number forks over (None: leave it to the solver)


def floordiv(a, b):
    if not isinstance(b, Sym):
        if b == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
    elif b == 0:
        raise ZeroDivisionError("integer division or modulo by zero")
    p = _both(a, b)
    if p is None:
        return NotImplemented
    x, y = p
    if z3.is_int(x):
        if b > 0:
            if SMALL_QUOTIENTS is not None and not z3.is_int_value(y):
                # fork over the quotient: every term stays linear
                for c in range(SMALL_QUOTIENTS + 1):
                    if mk_bool(z3.And(c * y <= x, x < (c + 1) * y)):
                        return c
            return mk_int(x / y)
        return mk_int((-x) / (-y))
    return mk_real(z3.ToReal(z3.ToInt(x / y)))


def mod(a, b):
    q = floordiv(a, b)
    if q is NotImplemented:
        return q
    return a - q * b


UF = {}


def uf(name, n=1, sort=None):
    k = (name, n)
    if k not in UF:
        s = sort or z3.RealSort()
        UF[k] = z3.Function(name, *([z3.RealSort()] * n), s)
    return UF[k]


def _realterm(x):
    e = _num(x)
    return z3.ToReal(e) if z3.is_int(e) else e


def power(a, b):
    if not isinstance(b, Sym):
        if _special(b):
            raise Unsupported("power")
        fb = to_frac(b)
        if fb.denominator == 1 and 0 <= fb.numerator <= 16:
            r = 1
            for _ in range(fb.numerator):
                r = r * a
            return r if fb.numerator else (1 if isinstance(b, int) else Fraction(1))
        if fb.denominator == 1 and -16 <= fb.numerator < 0:
            return div(1, power(a, -fb.numerator))
        if fb == Fraction(1, 2):
            return usqrt(a)
        if fb == Fraction(-1, 2):
            return ursqrt(a)
    elif type(b) is SymInt and not isinstance(a, Sym):
        if a == 1:
            return a
        n = b.__index__()  # forks over the exponent
        return a**n if not isinstance(a, float) else Fraction(a**n)
    r = mk_real(uf("pow", 2)(_realterm(a), _realterm(b)))
    if isinstance(r, SymReal):
        eng().axiom(r.e, implies(a > 0, r > 0))
    return r


def usqrt(a):
    if not isinstance(a, Sym):
        fa = to_frac(a)
        n, d = math.isqrt(fa.numerator) if fa >= 0 else 0, math.isqrt(fa.denominator)
        if fa >= 0 and n * n == fa.numerator and d * d == fa.denominator:
            return Fraction(n, d)
        return Fraction(math.sqrt(float(fa)))
    r = mk_real(uf("sqrt")(_canon(_realterm(a))))
    eng().axiom(r.e, implies(a >= 0, and_(r >= 0, r * r == a)))
    return r


def ursqrt(a):
    if not isinstance(a, Sym):
        return div(1, usqrt(a))
    r = mk_real(uf("rsqrt")(_canon(_realterm(a))))
    eng().axiom(r.e, implies(a > 0, and_(r > 0, r * r * a == 1)))
    return r


def _canon(e):
    """canonical argument, so that equal applications are identical terms"""
    i = e.get_id()
    r = _CANON.get(i)
    if r is None:
        if len(_CANON) > 50000:
            _CANON.clear()
        r = _CANON[i] = (e, z3.simplify(e, som=True, som_blowup=2000))  # keeps `e`, so that its id stays taken
    return r[1]


_CANON, _UFUN = {}, {}


def ufun(name, x):
    """Uninterpreted real function with its basic axioms; concrete when x is."""
    if not isinstance(x, Sym):
        if _special(x):
            return {"exp": lambda v: 0.0 if v < 0 else INF, "log": lambda v: INF}[name](x)
        v = getattr(math, name)
        v = _ORIG_MATH.get(name, v)
        if name == "log" and x == 0:
            return -INF
        r = v(float(x))
        if r == int(r) if not _special(r) else False:
            return Fraction(int(r))
        return Fraction(r) if not _special(r) else r
    e = _canon(_realterm(x))
    if z3.is_rational_value(e):
        return ufun(name, e.as_fraction())
    g = eng()
    key = (name, e.get_id())
    m = _UFUN.get(key)
    if m is None:
        r = mk_real(uf(name)(e))
        ax = []
        at = {"exp": (0, 1), "log": (1, 0), "sin": (0, 0), "cos": (0, 1), "tanh": (0, 0), "erf": (0, 0)}.get(name)
        if at is not None:
            ax.append(mk_bool(z3.Implies(e == at[0], r.e == at[1])))
        if name == "exp":
            ax.append(r > 0)
        elif name in ("sin", "cos", "tanh", "erf"):
            ax.append(and_(r >= -1, r <= 1))
        elif name == "sigmoid":
            ax.append(and_(r > 0, r < 1))
        if len(_UFUN) > 50000:
            _UFUN.clear()
        m = _UFUN[key] = (e, r, ax)
    for a in m[2]:
        g.axiom(m[1].e, a)
    return m[1]


_ORIG_MATH = {}


def patch_math():
    """math.* functions accept proxies (concrete arguments are untouched)."""
    if _ORIG_MATH:
        return
    for n in ("exp", "log", "sin", "cos", "tanh", "sqrt", "pow", "isinf", "isnan", "isfinite", "log2", "log10", "fabs", "erf"):
        _ORIG_MATH[n] = getattr(math, n)

    def unary(n):
        o = _ORIG_MATH[n]

        def f(x, *a):
            if isinstance(x, Sym):
                if a:
                    return ufun("log", x) / ufun("log", a[0])
                return ufun(n, x)
            if a and any(isinstance(q, Sym) for q in a):
                return ufun("log", x) / ufun("log", a[0])
            return o(x, *a)

        return f

    for n in ("exp", "log", "sin", "cos", "tanh", "log2", "log10", "erf"):
        setattr(math, n, unary(n))
    o_sqrt, o_pow = _ORIG_MATH["sqrt"], _ORIG_MATH["pow"]
    math.sqrt = lambda x: usqrt(x) if isinstance(x, Sym) else o_sqrt(x)
    math.pow = lambda x, y: power(x, y) if isinstance(x, Sym) or isinstance(y, Sym) else o_pow(x, y)
    math.fabs = lambda x, o=_ORIG_MATH["fabs"]: abs(x) if isinstance(x, Sym) else o(x)
    for n, v in (("isinf", False), ("isnan", False), ("isfinite", True)):
        setattr(math, n, lambda x, o=_ORIG_MATH[n], v=v: v if isinstance(x, Sym) else o(x))


def _isinf(x):
    return _ORIG_MATH.get("isinf", math.isinf)(x)


def _tensor_binop(op, s, t):
    from symx import tensor as T

    return T.scalar_tensor_binop(op, s, t)


# ---- sym-aware helpers for oracles ---------------------------------------


def smax(a, b):
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        return max(a, b)
    return ite(a >= b, a, b)


def smin(a, b):
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        return min(a, b)
    return ite(a <= b, a, b)


def model_value(m, e):
    v = m.eval(e, model_completion=True)
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return float(v.as_fraction())
    if z3.is_algebraic_value(v):
        return float(v.approx(20).as_fraction())
    raise Unsupported(f"model value {v}")
