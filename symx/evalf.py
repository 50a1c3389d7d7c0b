"""
Numerical evaluation of symbolic terms, to compare the values that the symbolic
interpretation assigns to an explored path with those of the plain code.
"""

from __future__ import annotations

import math
import time

from symx import core
from symx.core import z3

_FN = {
    "exp": math.exp, "log": math.log, "sin": math.sin, "cos": math.cos, "tanh": math.tanh, "erf": math.erf,
    "sqrt": math.sqrt, "rsqrt": lambda x: 1 / math.sqrt(x), "sigmoid": lambda x: 1 / (1 + math.exp(-x)) if x > -700 else 0.0,
    "pow": lambda a, b: a**b, "atan": math.atan, "log1p": math.log1p, "expm1": math.expm1,
    "round_bfloat16": lambda x: _torch_round(x, "bfloat16"), "round_float16": lambda x: _torch_round(x, "float16"),
}


def _torch_round(x, name):
    import torch
    from torch.utils._python_dispatch import _disable_current_modes

    with _disable_current_modes():
        return torch.tensor(x, dtype=torch.float64).to(torch.float32).to(getattr(torch, name)).item()


class Unknown(Exception):
    pass


class Eval:
    def __init__(self, env, budget_s=4.0):
        self.env = env  # name -> value
        self.memo = {}
        self.keep = []
        self.end = time.time() + budget_s

    def __call__(self, x):
        if isinstance(x, core.Sym):
            return self.term(x.e)
        return float(x) if not isinstance(x, (bool, int)) else x

    def term(self, root):
        memo = self.memo
        stack = [root]
        n = 0
        while stack:
            e = stack[-1]
            i = e.get_id()
            if i in memo:
                stack.pop()
                continue
            n += 1
            if n % 256 == 0 and time.time() > self.end:
                raise Unknown("time")
            d = core._LETDEFS.get(i)
            if d is not None:
                j = d.get_id()
                if j not in memo:
                    stack.append(d)
                    continue
                memo[i] = memo[j]
                self.keep.append((e, d))
                stack.pop()
                continue
            k = e.decl().kind()
            if k == z3.Z3_OP_ITE:
                c, a, b = e.children()
                if c.get_id() not in memo:
                    stack.append(c)
                    continue
                t = a if memo[c.get_id()] else b
                if t.get_id() not in memo:
                    stack.append(t)
                    continue
                memo[i] = memo[t.get_id()]
                self.keep.append(e)
                stack.pop()
                continue
            ch = e.children()
            todo = [c for c in ch if c.get_id() not in memo]
            if todo:
                stack.extend(todo)
                continue
            memo[i] = self.apply(e, k, [memo[c.get_id()] for c in ch])
            self.keep.append(e)
            stack.pop()
        return memo[root.get_id()]

    def apply(self, e, k, a):
        if z3.is_int_value(e):
            return e.as_long()
        if z3.is_rational_value(e):
            f = e.as_fraction()
            return float(f)
        if k == z3.Z3_OP_ADD:
            return sum(a)
        if k == z3.Z3_OP_MUL:
            r = 1
            for x in a:
                r *= x
            return r
        if k == z3.Z3_OP_SUB:
            r = a[0]
            for x in a[1:]:
                r -= x
            return r
        if k == z3.Z3_OP_UMINUS:
            return -a[0]
        if k == z3.Z3_OP_DIV:
            if a[1] == 0:
                raise Unknown("division by zero")
            return a[0] / a[1]
        if k in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD, z3.Z3_OP_REM):
            if a[1] == 0:
                raise Unknown("division by zero")
            m = a[0] % abs(a[1])
            return (a[0] - m) // a[1] if k == z3.Z3_OP_IDIV else m
        if k == z3.Z3_OP_TO_REAL:
            return float(a[0])
        if k == z3.Z3_OP_TO_INT:
            return math.floor(a[0])
        if k == z3.Z3_OP_IS_INT:
            return a[0] == math.floor(a[0])
        if k == z3.Z3_OP_POWER:
            return a[0] ** a[1]
        if k == z3.Z3_OP_LE:
            return a[0] <= a[1]
        if k == z3.Z3_OP_LT:
            return a[0] < a[1]
        if k == z3.Z3_OP_GE:
            return a[0] >= a[1]
        if k == z3.Z3_OP_GT:
            return a[0] > a[1]
        if k in (z3.Z3_OP_EQ, z3.Z3_OP_IFF):
            return a[0] == a[1]
        if k == z3.Z3_OP_DISTINCT:
            return len(set(a)) == len(a)
        if k == z3.Z3_OP_NOT:
            return not a[0]
        if k == z3.Z3_OP_AND:
            return all(a)
        if k == z3.Z3_OP_OR:
            return any(a)
        if k == z3.Z3_OP_XOR:
            return a[0] != a[1]
        if k == z3.Z3_OP_IMPLIES:
            return (not a[0]) or a[1]
        if k == z3.Z3_OP_TRUE:
            return True
        if k == z3.Z3_OP_FALSE:
            return False
        if k == z3.Z3_OP_UNINTERPRETED:
            nm = e.decl().name()
            if not a:
                if nm in self.env:
                    return self.env[nm]
                raise Unknown(nm)
            f = _FN.get(nm)
            if f is None:
                raise Unknown(nm)
            try:
                return f(*map(float, a))
            except (ValueError, OverflowError, ZeroDivisionError):
                raise Unknown(nm)
        raise Unknown(str(e.decl()))


def numeric_sample(ctx, engine, vals, bounds, rnd):
    """(values, trace): random reals where the path allows them, else the solver's model; trace = expected numbers."""
    for attempt in range(3):
        env = dict(vals)
        if attempt < 2:
            for name, kind, v in ctx.vars:
                if kind == "real":
                    lo, hi = bounds.get(name, (None, None))
                    lo = float(lo) if lo is not None else (-1.0 if hi is None else float(hi) - 2)
                    hi = float(hi) if hi is not None else lo + 2
                    env[name] = rnd.uniform(lo, hi)
        for name in env:
            if "~h" in name:
                env[name] = _torch_round(float(env[name]), "bfloat16")
        ev = Eval(env)
        try:
            if attempt < 2 and not all(ev.term(e) == t for t, e in list(engine.pc_ids.values())):
                continue
            out = []
            for label, xs in ctx.trace:
                for x in xs:
                    out.append((label, ev(x)))
            return env, out
        except (Unknown, OverflowError, TypeError):
            continue
    return vals, None
