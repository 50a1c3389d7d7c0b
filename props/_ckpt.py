"""The real StandardCheckpointManager over an in-memory disk and simulated ranks."""
import builtins
from concurrent.futures import Future
from copy import deepcopy
from pathlib import Path

from symx import spmd
from symx.api import *
from symx.memfs import Crash, MemFS, Partial

import fairseq2.checkpoint.manager as mgr
from fairseq2.io import CorruptFileError, TensorFileDumper, TensorFileLoader

mgr._flush_nfs_lookup_cache = lambda p: None  # touches the real disk

OUT = Path("/out")


def float_(x=0.0):
    if isinstance(x, str):
        v = core.untoken(x)
        if v is not None:
            return v
    return builtins.float(x)


class Dumper(TensorFileDumper):
    def __init__(self, fs):
        self.fs = fs

    def dump(self, data, file, options=None):
        self.fs.put(file, deepcopy(dict(data)))


class Loader(TensorFileLoader):
    def __init__(self, fs):
        self.fs = fs

    def load(self, file, options=None):
        c = self.fs.get(file)
        if isinstance(c, Partial):
            raise CorruptFileError(file)
        return deepcopy(c)


class Pool:
    """runs a queued operation when its result is needed, or at once"""

    def __init__(self, when="now"):
        self.when = when

    def queue(self, callback, *a, **k):
        pool = self

        class F(Future):
            def _go(self):
                if not super().done():
                    try:
                        self.set_result(callback(*a, **k))
                    except Exception as ex:
                        self.set_exception(ex)

            def done(self):
                if pool.when != "now" and not super().done():
                    if pool.when():
                        self._go()
                return super().done()

            def result(self, timeout=None):
                self._go()
                return super().result(timeout)

        f = F()
        if self.when == "now":
            f._go()
        return f


class St:
    """a stateful object"""

    def __init__(self, **s):
        self.s = s
        self.loaded = None

    def state_dict(self):
        return self.s

    def load_state_dict(self, s):
        self.loaded = s


def manager(fs, gangs, when="now"):
    if core.ENGINE is not None:
        mgr.float = float_
    return mgr.StandardCheckpointManager(OUT, gangs, fs, Loader(fs), Dumper(fs), Pool(when))


KINDS = ("trainer", "model", "optimizer", "data_reader")


def load(m, step, kind):
    o = St()
    getattr(m, f"load_{kind}_state")(step, o)
    return o.loaded
