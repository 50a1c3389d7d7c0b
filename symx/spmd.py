"""
Simulation of several ranks inside one process. Every rank is a thread, but exactly one runs
at a time; control moves only when a rank waits in a collective, so the symbolic engine sees a
deterministic program. Collectives whose participants disagree and deadlocks are detected.
"""

from __future__ import annotations

import threading

import torch

from fairseq2.device import CPU
from fairseq2.error import NotSupportedError
from fairseq2.gang import Gang, Gangs, ReduceOperation, _check_ranks
from symx import core, tensor as T


class CollectiveMismatch(Exception):
    pass


class Deadlock(Exception):
    pass


class _Abort(BaseException):
    pass


class Group:
    """The shared part of a gang: its members (global ranks) and the collective being formed."""

    def __init__(self, sim, ranks):
        self.sim, self.ranks = sim, list(ranks)
        self.arrived, self.gen, self.result = {}, 0, {}
        self.log = []

    def meet(self, me, op, sig, payload, compute):
        """``compute(payloads in member order) -> list of results``"""
        sim = self.sim
        if me in self.arrived:
            raise CollectiveMismatch(f"rank {me} entered {op} twice")
        self.arrived[me] = (op, sig, payload)
        gen = self.gen
        if len(self.arrived) == len(self.ranks):
            kinds = {(o, s) for o, s, _ in self.arrived.values()}
            if len(kinds) != 1:
                raise CollectiveMismatch(f"ranks disagree on the collective: { {r: (o, s) for r, (o, s, _) in self.arrived.items()} }")
            res = compute([self.arrived[r][2] for r in self.ranks])
            self.result[gen] = dict(zip(self.ranks, res))
            self.log.append((op, sig))
            self.arrived, self.gen = {}, gen + 1
        else:
            sim.block(me, lambda: gen in self.result, f"{op}{sig} on ranks {self.ranks}")
        return self.result[gen][me]


class Sim:
    def __init__(self, size, tensor=False, schedule=None):
        self.size, self.tensor, self.schedule = size, tensor, schedule
        self.groups = {}
        self.sem = [threading.Semaphore(0) for _ in range(size)]
        self.main = threading.Semaphore(0)
        self.wait = [None] * size  # None: runnable; (pred, text); "done"
        self.aborting = False
        self.error = [None] * size
        self.results = [None] * size

    def group(self, ranks):
        """the n-th gang a rank creates over the same members is the same gang on every member"""
        k = tuple(ranks)
        if k not in self.groups:
            self.groups[k] = Group(self, k)
        return self.groups[k]

    # -- rank side
    def block(self, me, pred, text):
        self.wait[me] = (pred, text)
        self.main.release()
        self.sem[me].acquire()
        if self.aborting:
            raise _Abort()

    def pause(self, me):
        """a scheduling point"""
        self.block(me, lambda: True, "pause")

    def _thread(self, r, fn):
        self.sem[r].acquire()
        try:
            if not self.aborting:
                if self.tensor and core.ENGINE is not None:
                    with T.SymMode():
                        self.results[r] = fn(r)
                else:
                    self.results[r] = fn(r)
        except _Abort:
            pass
        except BaseException as ex:  # noqa: BLE001
            self.error[r] = ex
        self.wait[r] = "done"
        self.main.release()

    # -- main side
    def run(self, fn, collect=False):
        """runs fn(rank) on all ranks; with ``collect`` a failed rank is recorded and the others go on"""
        ts = [threading.Thread(target=self._thread, args=(r, fn), daemon=True) for r in range(self.size)]
        for t in ts:
            t.start()
        blocked = []
        try:
            while True:
                ready = []
                for r in range(self.size):
                    w = self.wait[r]
                    if w == "done":
                        continue
                    if w is None or w[0]():
                        ready.append(r)
                if not ready:
                    break
                r = ready[0] if self.schedule is None or len(ready) == 1 else self.schedule(ready)
                self.wait[r] = None
                self.sem[r].release()
                self.main.acquire()
                ex = self.error[r]
                if ex is not None and (not collect or not isinstance(ex, Exception)):
                    raise ex
            blocked = [(r, self.wait[r][1]) for r in range(self.size) if self.wait[r] != "done"]
            if blocked and not collect:
                raise Deadlock(f"ranks wait forever: {blocked}")
        finally:
            self.aborting = True
            for r in range(self.size):
                if self.wait[r] != "done":
                    self.sem[r].release()
            for t in ts:
                t.join(5)
        self.blocked = [b for b, _ in blocked]
        return self.results

    def gang(self, me, ranks=None):
        return SimGang(self.group(range(self.size) if ranks is None else ranks), me)


class SimGang(Gang):
    def __init__(self, group, me, device=CPU):
        self.group, self.me, self._device = group, me, device
        self._rank = group.ranks.index(me)
        self.closed = False

    def create_gang(self, ranks):
        _check_ranks(ranks, self.size)
        if self._rank not in ranks:
            return None
        return SimGang(self.group.sim.group([self.group.ranks[r] for r in ranks]), self.me)

    def close(self):
        self.closed = True

    def as_process_group(self):
        raise NotSupportedError("simulated")

    def _meet(self, op, sig, payload, compute):
        if len(self.group.ranks) == 1:
            return compute([payload])[0]
        return self.group.meet(self.me, op, sig, payload, compute)

    def barrier(self):
        self._meet("barrier", (), None, lambda ps: [None] * len(ps))

    @staticmethod
    def _snap(t):
        return t.detach().clone()

    def all_reduce(self, tensor, op):
        def compute(ps):
            acc = ps[0].clone()
            for p in ps[1:]:
                if op in (ReduceOperation.SUM, ReduceOperation.MEAN):
                    acc = acc + p
                elif op == ReduceOperation.PRODUCT:
                    acc = acc * p
                elif op == ReduceOperation.MIN:
                    acc = torch.minimum(acc, p)
                elif op == ReduceOperation.MAX:
                    acc = torch.maximum(acc, p)
            if op == ReduceOperation.MEAN:
                acc = acc / len(ps)
            return [acc] * len(ps)

        res = self._meet("all_reduce", (op.name, tuple(tensor.shape), tensor.dtype), self._snap(tensor), compute)
        with torch.no_grad():
            tensor.copy_(res)

    def all_gather(self, output_tensor, input_tensor):
        res = self._meet("all_gather", (tuple(output_tensor.shape), tuple(input_tensor.shape)), self._snap(input_tensor), lambda ps: [ps] * len(ps))
        if output_tensor.dim() == input_tensor.dim() + 1:
            out = torch.stack(res)
        else:
            out = torch.cat(res)
        with torch.no_grad():
            output_tensor.copy_(out.view(output_tensor.shape))

    def all_gather_to_list(self, output_tensors, input_tensor):
        res = self._meet("all_gather_to_list", (len(output_tensors), tuple(input_tensor.shape)), self._snap(input_tensor), lambda ps: [ps] * len(ps))
        with torch.no_grad():
            for o, i in zip(output_tensors, res):
                o.copy_(i)

    def broadcast(self, tensor, source_rank=0):
        res = self._meet("broadcast", (source_rank, tuple(tensor.shape), tensor.dtype), self._snap(tensor), lambda ps: [ps[source_rank]] * len(ps))
        with torch.no_grad():
            tensor.copy_(res)

    def broadcast_objects(self, objects, source_rank=0):
        res = self._meet("broadcast_objects", (source_rank, len(objects)), list(objects), lambda ps: [ps[source_rank]] * len(ps))
        if self._rank != source_rank:
            objects[:] = list(res)

    @property
    def rank(self):
        return self._rank

    @property
    def size(self):
        return len(self.group.ranks)

    @property
    def device(self):
        return self._device

    @property
    def supports_process_group(self):
        return False


def gangs(sim, me, tp=1, sdp=1):
    """dp x tp gangs (tp innermost), dp split into rdp x sdp (sdp innermost); independent of the code under test"""
    n = sim.size
    dp = n // tp
    d, t = divmod(me, tp)
    i, j = divmod(d, sdp)
    G = lambda ranks: sim.gang(me, ranks)
    return Gangs(
        root=G(range(n)),
        dp=G([x * tp + t for x in range(dp)]),
        rdp=G([(x * sdp + j) * tp + t for x in range(dp // sdp)]),
        sdp=G([(i * sdp + x) * tp + t for x in range(sdp)]),
        tp=G([d * tp + x for x in range(tp)]),
        pp=G([me]),
    )
