"""Ambient device, data type, gang and seed scopes nest and always restore."""
from contextlib import ExitStack
from types import SimpleNamespace
from unittest.mock import patch

from symx.api import *
from symx.spmd import Sim

import fairseq2.data_type as data_type_mod
import fairseq2.device as device_mod
import fairseq2.gang as gang_mod
from fairseq2.data_type import DataTypeContext, _DataTypeModeStack, _StandardDataTypeContext, _tensor_constructors, get_current_dtype, set_dtype
from fairseq2.device import CPU, META_DEVICE, DeviceContext, _StandardDeviceContext, get_current_device, set_device
from fairseq2.gang import FakeGang, GangContext, Gangs, _GangManager, _StandardGangContext, create_fake_gangs, get_current_gangs, set_default_gangs, set_gangs
from fairseq2.utils.rng import RngBag
from fairseq2.utils.threading import _StandardThreadLocalStorage

OUTSIDE = "CUDA devices; scopes opened in one thread and closed in another; preemption inside a scope's enter or exit code"
ASSUMPTIONS = ["torch's own device scope behaves as documented (it is executed as is)"]


class Boom(Exception):
    pass


def env():
    """fairseq2's real context objects, wired as in its composition module"""
    st = ExitStack()
    st.enter_context(patch.multiple(torch, **T.ORIGINAL))  # no symbolic tensors here; scopes recognize functions by identity
    tls = _StandardThreadLocalStorage()
    dev = _StandardDeviceContext()
    gm = _GangManager(dev, tls)
    objs = {
        DeviceContext: dev,
        DataTypeContext: _StandardDataTypeContext(_DataTypeModeStack(_tensor_constructors(), tls)),
        GangContext: _StandardGangContext(gm),
        _GangManager: gm,
    }
    for m in (data_type_mod, device_mod, gang_mod):
        st.enter_context(patch.object(m, "get_dependency_resolver", lambda: SimpleNamespace(resolve=lambda k: objs[k])))
    return st


class Model:
    """what must be current: one stack per thing"""

    def __init__(self, defaults):
        self.device, self.dtype = [CPU], [torch.get_default_dtype()]
        self.gangs = {CPU: [defaults.get(CPU)], META_DEVICE: [defaults.get(META_DEVICE)]}
        self.defaults = defaults


def look(ctx, m, gen, label):
    ctx.check(get_current_device() == m.device[-1], label, f"device {get_current_device()}")
    ctx.check(get_current_dtype() == m.dtype[-1], label, f"dtype {get_current_dtype()}")
    t = torch.empty(())
    ctx.check(t.dtype == m.dtype[-1] and t.device == m.device[-1], label, f"tensor made as {t.dtype} on {t.device}")
    ctx.check(torch.zeros(1, dtype=torch.int32).dtype == torch.int32 and torch.zeros(1, device="cpu").device == CPU, "explicit arguments win")
    for d in (CPU, META_DEVICE):
        e = m.gangs[d][-1]
        g = get_current_gangs(d)
        if e is None:
            ctx.check(g.root.size == 1 and g is get_current_gangs(d), label, "default gangs")
        else:
            ctx.check(g is e, label, f"gangs of {d}")
    e = m.gangs[m.device[-1]][-1]
    if e is not None:
        ctx.check(get_current_gangs() is e, label, "gangs of the current device")


KINDS = ["bf16", "f16", "meta", "cpu", "g1", "g2", "g1meta", "with g2", "seed"]


def fake(n):
    g = FakeGang(CPU, size=n)
    return Gangs(root=g, dp=g, rdp=g, sdp=g, tp=g, pp=g)


def scope(kind, m, G):
    """(context manager, model stacks it pushes)"""
    if kind in ("bf16", "f16"):
        d = {"bf16": torch.bfloat16, "f16": torch.float16}[kind]
        return set_dtype(d), [(m.dtype, d)]
    if kind in ("meta", "cpu"):
        d = {"meta": META_DEVICE, "cpu": CPU}[kind]
        return set_device(d), [(m.device, d)]
    g = G["g2" if "g2" in kind else "g1"]
    if kind == "with g2":
        return g, [(m.gangs[CPU], g)]
    meta = kind == "g1meta"
    return set_gangs(g, meta=meta), [(m.gangs[CPU], g)] + ([(m.gangs[META_DEVICE], g)] if meta else [])


def nest(ctx, kinds, m, G, boom, pause=lambda: None, rng=None):
    """enters the scopes one inside the other, raising `boom` levels below (0: at the end of this scope, whatever is nested in it already left); checks at every level on the way in and out"""
    if not kinds:
        return
    k, rest = kinds[0], kinds[1:]
    caught = False
    if k == "seed":
        bag = RngBag(torch.default_generator) if rng is None else rng
        before = bag._generators[0].get_state()
        try:
            with bag.temporary_manual_seed(7):
                ctx.check(bag._generators[0].initial_seed() == 7, "inside")
                torch.rand(2, generator=bag._generators[0], device="cpu", dtype=torch.float32)
                nest(ctx, rest, m, G, boom - 1, pause, rng)
                if boom == 0:
                    raise Boom()
        except Boom:
            caught = True
        ctx.check(bool((bag._generators[0].get_state() == before).all()), "restored", "random state")
    else:
        c, pushes = scope(k, m, G)
        look(ctx, m, None, "not in effect before entering")
        try:
            with c:
                for s, v in pushes:
                    s.append(v)
                look(ctx, m, None, "inside")
                pause()
                look(ctx, m, None, "inside")
                nest(ctx, rest, m, G, boom - 1, pause, rng)
                look(ctx, m, None, "inside after a nested scope")
                if boom == 0:
                    raise Boom()
                pause()
        except Boom:
            caught = True
        for s, v in pushes:
            s.pop()
    pause()
    look(ctx, m, None, "restored") if k != "seed" else None
    if caught:
        raise Boom()


@harness(
    "all nestings of depth 2 (thorough 3) over 9 scope kinds; an exception raised at any level or not at all; default gangs set or not, for the meta device or not",
    ["inside", "inside after a nested scope", "restored", "explicit arguments win", "not in effect before entering", "exception passes through"],
    params=lambda t: [{"first": k, "depth": 2 if t == "quick" else 3} for k in KINDS],
)
def nesting(ctx, first, depth):
    kinds = [first] + [ctx.choice(f"scope{i}", KINDS) for i in range(1, depth)]
    boom = int(ctx.int("raise at", -1, depth - 1))
    dflt = ctx.choice("default gangs", ["none", "cpu", "cpu and meta"])
    with env():
        G = {"g1": fake(2), "g2": fake(3)}
        d = {}
        if dflt != "none":
            g = fake(4)
            set_default_gangs(g, meta=dflt == "cpu and meta")
            d = {CPU: g}
            if dflt == "cpu and meta":
                d[META_DEVICE] = g
        m = Model(d)
        rng = RngBag(torch.Generator())
        try:
            nest(ctx, kinds, m, G, boom, rng=rng)
            raised = False
        except Boom:
            raised = True
        ctx.check(raised == (boom >= 0), "exception passes through")
        look(ctx, m, None, "restored")


@harness(
    "two threads, each in a scope of any kind with or without an exception, every interleaving of their steps",
    ["inside", "restored", "threads independent"],
    params=lambda t: [{"a": a, "b": b} for a in (["bf16", "meta", "g1", "with g2", "g1meta"] if t == "quick" else KINDS[:-1]) for b in (["f16", "meta", "g2", "g1meta"] if t == "quick" else KINDS[:-1])],
)
def threads(ctx, a, b):
    boom = [-int(ctx.int("raise", 0, 1)), -1]
    order = [0]

    def schedule(ready):
        order[0] += 1
        return ready[int(ctx.int(f"step{order[0]}", 0, len(ready) - 1))]

    with env():
        G = {"g1": fake(2), "g2": fake(3)}
        sim = Sim(2, schedule=schedule)

        def run(me):
            m = Model({})
            try:
                nest(ctx, [[a], [b]][me], m, G, boom[me], pause=lambda: sim.pause(me))
            except Boom:
                pass
            look(ctx, m, None, "threads independent")

        sim.run(run)
        look(ctx, Model({}), None, "threads independent")
