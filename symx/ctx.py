"""
Harness context: the same harness source runs in two modes.

* symbolic: inputs are z3 proxies, ``check`` is discharged by the solver;
* concrete: inputs are plain Python / torch values (taken from a counterexample),
  nothing is patched, ``check`` just evaluates the assertion. Counterexamples are
  only reported when the concrete mode fails too, on the real code.
"""

from __future__ import annotations

import math
import random
from contextlib import contextmanager
from fractions import Fraction

import torch

from symx import core, tensor as T
from symx.core import SymBool, SymInt, SymReal, and_, implies, iff, ite, not_, or_, z3


class ConcreteViolation(BaseException):
    def __init__(self, label, detail=""):
        self.label, self.detail = label, detail


class Discard(BaseException):
    """a concrete replay left the assumed input space"""


class Ctx:
    sym = True

    def __init__(self):
        self.vars = []  # (name, kind, term)
        self.names = set()
        self.notes = []
        self.trace = []  # (label, values) of the first comparisons on this path
        self.bounds = {}

    def _note(self, label, xs):
        if len(self.trace) < 60:
            self.trace.append((label, [x for x in xs[:40] if not (type(x) is float and not math.isfinite(x))]))

    # -- symbolic inputs -------------------------------------------------
    def _name(self, name):
        if name in self.names:
            i = 2
            while f"{name}#{i}" in self.names:
                i += 1
            name = f"{name}#{i}"
        self.names.add(name)
        return name

    def int(self, name, lo=None, hi=None):
        name = self._name(name)
        v = z3.Int(name)
        self.vars.append((name, "int", v))
        e = core.eng()
        if lo is not None:
            e.assume(core.mk_bool(v >= lo) if not isinstance(lo, SymInt) else core.mk_bool(v >= lo.e))
        if hi is not None:
            e.assume(core.mk_bool(v <= hi) if not isinstance(hi, SymInt) else core.mk_bool(v <= hi.e))
        return core.mk_int(v)

    def real(self, name, lo=None, hi=None):
        name = self._name(name)
        v = z3.Real(name)
        self.vars.append((name, "real", v))
        if lo is not None or hi is not None:
            self.bounds[name] = (lo, hi)
        e = core.eng()
        if lo is not None:
            e.assume(core.mk_bool(v >= core.real_val(lo)))
        if hi is not None:
            e.assume(core.mk_bool(v <= core.real_val(hi)))
        return core.mk_real(v)

    def bool(self, name):
        name = self._name(name)
        v = z3.Bool(name)
        self.vars.append((name, "bool", v))
        return core.mk_bool(v)

    def choice(self, name, options):
        """An input from a finite set; the engine forks over it."""
        options = list(options)
        if len(options) == 1:
            return options[0]
        i = self.int(name, 0, len(options) - 1)
        return options[int(i)]

    def flag(self, name):
        """A Boolean input the engine forks over immediately."""
        return bool(self.bool(name))

    # -- tensors ----------------------------------------------------------
    def tensor(self, name, shape, dtype=torch.float32, lo=None, hi=None):
        a = T.obj(tuple(shape))
        import numpy as np

        name = _half(name, dtype)
        for ix in np.ndindex(*shape):
            nm = f"{name}[{','.join(map(str, ix))}]"
            a[ix] = self.real(nm, lo, hi)
        return T.SymTensor(a, dtype)

    def itensor(self, name, shape, lo, hi, dtype=torch.int64):
        import numpy as np

        a = T.obj(tuple(shape))
        for ix in np.ndindex(*shape):
            nm = f"{name}[{','.join(map(str, ix))}]"
            a[ix] = self.int(nm, lo, hi)
        return T.SymTensor(a, dtype)

    def btensor(self, name, shape):
        import numpy as np

        a = T.obj(tuple(shape))
        for ix in np.ndindex(*shape):
            a[ix] = self.bool(f"{name}[{','.join(map(str, ix))}]")
        return T.SymTensor(a, torch.bool)

    def const(self, data, dtype=None):
        return torch.tensor(data, dtype=dtype)

    def params(self, module, prefix="w", only=None):
        """Makes every parameter of ``module`` a symbolic input."""
        import numpy as np

        for n, p in list(module.named_parameters()):
            if only is not None and not only(n):
                continue
            a = p._a
            for ix in np.ndindex(*a.shape):
                a[ix] = self.real(f"{_half(f'{prefix}.{n}', p.dtype)}[{','.join(map(str, ix))}]")
        return module

    def mode(self):
        return T.SymMode()

    # -- obligations --------------------------------------------------------
    def assume(self, c):
        core.eng().assume(c)

    def check(self, c, label, detail=""):
        core.eng().check(c, label, detail)

    def eq(self, a, b, label, detail=""):
        """exact equality of two numbers (tolerant in concrete mode)"""
        if not isinstance(a, str) and not isinstance(b, str):
            self._note(label, [a, b])
        self._eq(a, b, label, detail)

    def _eq(self, a, b, label, detail=""):
        if T.special(a) or T.special(b):
            ok = (a != a and b != b) or a == b
            core.eng().check(ok, label, detail)
            return
        if isinstance(b, core.Sym):  # Fraction.__eq__ does not know symbolic numbers
            a, b = b, a
        r = a == b
        if r is True and isinstance(a, core.Sym):
            r = core.SymBool(core.z3.BoolVal(True))  # equal for all values: the same term
        core.eng().check(r, label, detail or self._show(a, b))

    @staticmethod
    def _show(a, b):
        if isinstance(a, core.Sym) or isinstance(b, core.Sym):
            return ""
        return f"{a!r} vs {b!r}"

    def teq(self, a, b, label, detail=""):
        """elementwise equality of two tensors"""
        if tuple(a.shape) != tuple(b.shape):
            core.eng().check(False, label, f"shape {tuple(a.shape)} vs {tuple(b.shape)} {detail}")
            return
        x, y = T.payload(a).reshape(-1), T.payload(b).reshape(-1)
        self._note(label, list(x))
        for i in range(x.size):
            self._eq(T.conv(x[i], "i") if isinstance(x[i], bool) else x[i], T.conv(y[i], "i") if isinstance(y[i], bool) else y[i], label, f"element {i} {detail}")
        if not x.size:
            core.eng().check(True, label)

    def fail(self, label, detail=""):
        core.eng().check(False, label, detail)

    def raises(self, exc, fn, label, detail=""):
        """checks that fn raises exc"""
        try:
            fn()
        except exc:
            core.eng().check(True, label)
            return
        core.eng().check(False, label, detail or "no error was raised")

    # -- counterexamples -----------------------------------------------------
    def extract(self, model):
        out = {}
        for name, kind, v in self.vars:
            out[name] = core.model_value(model, v)
        return out


def _half(name, dtype):
    """marks inputs of a 16-bit type: their sampled values are representable"""
    return name + "~h" if dtype in (torch.bfloat16, torch.float16) else name


class CCtx(Ctx):
    """concrete mode"""

    sym = False

    def __init__(self, vals, seed=None):
        super().__init__()
        self.vals = vals
        self.rnd = random.Random(seed) if seed is not None else None
        self.reached = set()

    def _get(self, name, kind, lo, hi):
        if kind == "real":
            if self.rnd is not None:
                a = -2.0 if lo is None else float(lo)
                b = 2.0 if hi is None else float(hi)
                if lo is not None and hi is None:
                    b = a + 4.0
                if hi is not None and lo is None:
                    a = b - 4.0
                return self.rnd.uniform(a, b)
            v = self.vals.get(name)
            return float(v) if v is not None else (float(lo) if lo is not None else 0.25)
        v = self.vals.get(name)
        if v is None:
            v = (lo if lo is not None else 0) if kind == "int" else False
        return bool(v) if kind == "bool" else int(v)

    def int(self, name, lo=None, hi=None):
        name = self._name(name)
        v = self._get(name, "int", lo, hi)
        if lo is not None and v < lo or hi is not None and v > hi:
            raise Discard()
        return v

    def real(self, name, lo=None, hi=None):
        name = self._name(name)
        v = self._get(name, "real", lo, hi)
        return v

    def bool(self, name):
        return self._get(self._name(name), "bool", None, None)

    def tensor(self, name, shape, dtype=torch.float32, lo=None, hi=None):
        import numpy as np

        r = torch.empty(tuple(shape), dtype=dtype)
        name = _half(name, dtype)
        for ix in np.ndindex(*shape):
            r[ix] = self.real(f"{name}[{','.join(map(str, ix))}]", lo, hi)
        return r

    def itensor(self, name, shape, lo, hi, dtype=torch.int64):
        import numpy as np

        r = torch.empty(tuple(shape), dtype=dtype)
        for ix in np.ndindex(*shape):
            r[ix] = self.int(f"{name}[{','.join(map(str, ix))}]", lo, hi)
        return r

    def btensor(self, name, shape):
        import numpy as np

        r = torch.empty(tuple(shape), dtype=torch.bool)
        for ix in np.ndindex(*shape):
            r[ix] = self.bool(f"{name}[{','.join(map(str, ix))}]")
        return r

    def params(self, module, prefix="w", only=None):
        import numpy as np

        with torch.no_grad():
            for n, p in list(module.named_parameters()):
                if only is not None and not only(n):
                    continue
                for ix in np.ndindex(*p.shape):
                    p[ix] = self.real(f"{_half(f'{prefix}.{n}', p.dtype)}[{','.join(map(str, ix))}]")
        return module

    @contextmanager
    def mode(self):
        yield

    known = ()  # labels of listed findings: recorded, not raised

    def _violated(self, label, detail):
        if label not in self.known:
            raise ConcreteViolation(label, detail)
        self.known_seen = {**getattr(self, "known_seen", {}), label: detail}

    def assume(self, c):
        if not c:
            raise Discard()

    def check(self, c, label, detail=""):
        self.reached.add(label)
        if not c:
            return self._violated(label, detail)

    def eq(self, a, b, label, detail="", rtol=2e-3, atol=2e-4):
        self.reached.add(label)
        if not isinstance(a, str) and not isinstance(b, str):
            self._note(label, [float(x) if not isinstance(x, (bool, int)) else x for x in (a, b)])
        a, b = (float(x) if not isinstance(x, (bool, int, str)) else x for x in (a, b))
        ok = (a != a and b != b) or a == b
        if not ok and (isinstance(a, float) or isinstance(b, float)):
            ok = math.isclose(a, b, rel_tol=rtol, abs_tol=atol)
        if not ok:
            return self._violated(label, f"{a!r} != {b!r} {detail}")

    def teq(self, a, b, label, detail="", rtol=2e-3, atol=2e-4):
        self.reached.add(label)
        if tuple(a.shape) != tuple(b.shape):
            return self._violated(label, f"shape {tuple(a.shape)} vs {tuple(b.shape)} {detail}")
        self._note(label, a.detach().reshape(-1).tolist())
        if a.dtype.is_floating_point or b.dtype.is_floating_point:
            ok = torch.allclose(a.detach().double(), b.detach().double(), rtol=rtol, atol=atol, equal_nan=True)
        else:
            ok = bool((a == b).all())
        if not ok:
            return self._violated(label, f"{a.tolist()} != {b.tolist()} {detail}")

    def fail(self, label, detail=""):
        return self._violated(label, detail)

    def raises(self, exc, fn, label, detail=""):
        self.reached.add(label)
        try:
            fn()
        except exc:
            return
        return self._violated(label, detail or "no error was raised")

    def extract(self, model):
        return self.vals
