"""What property modules import."""
import fairseq2n

fairseq2n.DOC_MODE = True

import math
from fractions import Fraction

import torch

from symx import core, tensor as T
from symx.core import SymBool, SymInt, SymReal, Unsupported, and_, floordiv, iff, implies, ite, mod, not_, or_, smax, smin
from symx.ctx import Ctx, CCtx

HARNESSES = {}


class Harness:
    def __init__(self, fn, name, bounds, labels, params, tensor, max_paths, timeout_ms, known, let=None, eager=False):
        self.fn, self.name, self.bounds, self.labels = fn, name, bounds, list(labels)
        self.params, self.tensor, self.max_paths, self.timeout_ms = params, tensor, max_paths, timeout_ms
        self.known, self.let, self.eager = known, let, eager


def harness(bounds, labels, params=None, tensor=False, max_paths=60000, timeout_ms=20000, let=None, eager=False):
    """Registers a harness. ``params(tier)`` lists the configurations to explore."""

    def deco(fn):
        HARNESSES[fn.__name__] = Harness(fn, fn.__name__, bounds, labels, params or (lambda tier: [{}]), tensor, max_paths, timeout_ms, (), let, eager)
        return fn

    return deco


def grid(**kw):
    """cartesian product of parameter lists"""
    import itertools

    keys = list(kw)
    return [dict(zip(keys, vs)) for vs in itertools.product(*kw.values())]
