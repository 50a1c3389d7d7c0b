"""torcheval's metric synchronization over simulated ranks."""
import contextlib
import types
from unittest.mock import patch

from symx import spmd
from symx.api import *

import torcheval.metrics.toolkit as toolkit


class DistModel:
    """stands in for torch.distributed inside torcheval"""

    group = types.SimpleNamespace(WORLD=None)

    @staticmethod
    def is_available():
        return True

    is_initialized = is_available

    @staticmethod
    def get_world_size(group=None):
        return group.size

    @staticmethod
    def get_rank(group=None):
        return group.rank

    @staticmethod
    def get_backend(group=None):
        return "gloo"


def copy_state(v):
    return v.detach().clone() if isinstance(v, torch.Tensor) else v


def sync_states(states, devices, order, process_group=None):
    mine = {m: {s: copy_state(v) for s, v in st.items()} for m, st in states.items()}
    res = process_group._meet("sync_states", tuple(order), mine, lambda ps: [ps] * len(ps))
    return [{m: {s: copy_state(v) for s, v in st.items()} for m, st in r.items()} for r in res]


@contextlib.contextmanager
def dist_model():
    with patch.object(toolkit, "dist", DistModel), patch.object(toolkit, "sync_states", sync_states), patch.object(spmd.SimGang, "as_process_group", lambda self: self):
        yield


def num(x):
    """value of a computed metric as a number"""
    if isinstance(x, torch.Tensor):
        return T.payload(x)[()] if isinstance(x, T.SymTensor) else x.item()
    return x


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, float)


class SymFloat(metaclass=_FloatMeta):
    """``float`` that keeps a symbolic number symbolic"""

    def __new__(cls, x=0.0):
        if isinstance(x, T.SymTensor):
            x = T.out_scalar(T.payload(x).reshape(-1)[0])
        return x if isinstance(x, core.Sym) else float(x)


def symbolic_float(module):
    return patch.object(module, "float", SymFloat, create=True)
