"""A real Trainer surrounded by recording stubs."""
from symx.api import *
from torch.nn import Module, Parameter

from fairseq2.checkpoint import NOOP_HG_EXPORTER
from fairseq2.device import CPU
from fairseq2.early_stopper import NOOP_EARLY_STOPPER, EarlyStopper
from fairseq2.gang import create_fake_gangs
from fairseq2.metrics import Sum
from fairseq2.metrics.recorders import NOOP_METRIC_RECORDER
from fairseq2.optim.fp16_loss_scaler import NOOP_FP16_LOSS_SCALER, Float16LossScaler, Float16LossScaleResult
from fairseq2.profilers import NOOP_PROFILER
from fairseq2.task import TaskStopException
from fairseq2.trainer import Trainer, TrainUnit
from fairseq2.utils.device_stat import NOOP_DEVICE_STAT_TRACKER
from fairseq2.utils.gc import NOOP_GARBAGE_COLLECTOR
from fairseq2.utils.progress import NOOP_PROGRESS_REPORTER
from fairseq2.utils.stopwatch import Stopwatch
from fairseq2.validator import NOOP_VALIDATOR, Validator


class Crash(BaseException):
    pass


class TooLong(Exception):
    """the run did more than any correct run could"""


class World:
    """Everything that outlives a trainer object: data, disk and the event log."""

    def __init__(self, epochs, limit=60):
        self.epochs = epochs  # function epoch index (0-based) -> number of batches
        self.log = []
        self.disk = {}
        self.model_only = set()
        self.scores = {}
        self.limit = limit
        self.on_event = lambda ev: None

    def ev(self, *a):
        self.log.append(a)
        if len(self.log) > self.limit * 8:
            raise TooLong()
        self.on_event(a)


class Batch:
    def __init__(self, ident):
        self.ident = ident

    def to(self, device, *, non_blocking=False):
        pass


class Reader:
    def __init__(self, w):
        self.w, self.epoch, self.pos = w, 0, 0

    def __iter__(self):
        return self

    def __next__(self):
        if self.pos >= self.w.epochs(self.epoch):
            self.w.ev("eod", self.epoch)
            raise StopIteration
        b = Batch((self.epoch, self.pos))
        self.pos += 1
        self.w.ev("read", b.ident)
        return [b]

    def reset(self):
        self.epoch, self.pos = self.epoch + 1, 0

    def state_dict(self):
        return {"epoch": self.epoch, "pos": self.pos}

    def load_state_dict(self, s):
        self.epoch, self.pos = s["epoch"], s["pos"]


class Net(Module):
    def __init__(self):
        super().__init__()
        self.w = Parameter(torch.zeros(1))
        self.upd = 0  # number of optimizer updates contained in this model

    def state_dict(self, *a, **k):
        return {"upd": self.upd}

    def load_state_dict(self, s, *a, **k):
        self.upd = s["upd"]


class Opt:
    """stand-in optimizer: counts updates"""

    def __init__(self, net):
        self.net, self.param_groups, self.n = net, [{"params": [net.w], "lr": 0.1}], 0

    def zero_grad(self, set_to_none=True):
        self.net.w.grad = None

    def step(self, closure=None):
        self.n += 1
        self.net.upd += 1

    def state_dict(self):
        return {"n": self.n}

    def load_state_dict(self, s):
        self.n = s["n"]


class Sched:
    def __init__(self):
        self.k = 0

    def get_last_lr(self):
        return [float(self.k)]

    def step(self):
        self.k += 1

    def state_dict(self):
        return {"k": self.k}

    def load_state_dict(self, s):
        self.k = s["k"]


class Scaler(Float16LossScaler):
    """overflows when told to"""

    def __init__(self, overflow):
        self.overflow, self.n = overflow, 0

    def run_optimizer_step(self, optimizer, closure=None):
        self.n += 1
        if self.overflow(self.n):
            return Float16LossScaleResult(2.0, 1.0, overflowed=True)
        optimizer.step()
        return Float16LossScaleResult(1.0, 1.0)

    def unscale_grads_(self, optimizer):
        pass

    def backward(self, loss):
        loss.backward()

    @property
    def scale_window(self):
        return 1

    def state_dict(self):
        return {"n": self.n}

    def load_state_dict(self, s):
        self.n = s["n"]


class Unit(TrainUnit):
    def __init__(self, w, net):
        self.w, self.net, self.step, self.epoch, self.sched = w, net, None, None, None

    def prepare_metric_bag(self, metric_bag):
        metric_bag.add("seen", Sum())
        metric_bag.add("total_seen", Sum())

    def set_step_nr(self, n):
        self.step = n

    def set_data_epoch_nr(self, n):
        self.epoch = n

    def process_batch(self, batch, metric_bag):
        self.w.ev("batch", batch.ident, self.step, self.epoch, self.net.training, self.sched.k, torch.rand(1).item())
        metric_bag.get("seen", Sum).update(1)
        metric_bag.get("total_seen", Sum).update(1)
        return self.net.w.sum(), None

    def process_metric_values(self, values):
        pass


class Recorder:
    def __init__(self, w):
        self.w = w

    def record_metric_values(self, category, values, step_nr=None):
        self.w.ev("publish", step_nr, float(values["seen"]), float(values["total_seen"]), values["lr"], values["data_epoch"])

    def close(self):
        pass


class Val(Validator):
    def __init__(self, w, net, score):
        self.w, self.net, self.score = w, net, score

    def run(self, train_step_nr):
        self.w.ev("validate", train_step_nr, self.net.training, self.net.upd)
        return self.score(train_step_nr)

    def reset(self):
        pass


class Stopper(EarlyStopper):
    def __init__(self, should):
        self.should = should

    def should_stop(self, step_nr, score):
        return self.should(step_nr)


class Ckpt:
    """stand-in checkpoint manager with an in-memory disk; an asynchronous save completes when the trainer polls"""

    def __init__(self, w):
        self.w, self.pending = w, None

    @property
    def is_saving(self):
        return self.pending is not None

    def _save(self, kind, step_nr, state, ready_callback, saved_callback, blocking):
        if self.pending is not None:
            raise RuntimeError("a save is already in progress")
        self.w.ev("ckpt", step_nr, kind, blocking)
        ready_callback(step_nr, blocking)

        def commit():
            self.pending = None
            self.w.disk[step_nr] = state
            if kind == "model":
                self.w.model_only.add(step_nr)
            self.w.ev("committed", step_nr)
            saved_callback(step_nr, blocking)

        if blocking:
            commit()
        else:
            self.pending = commit

    def save_checkpoint(self, step_nr, trainer, model, optimizer, data_reader, *, ready_callback=None, saved_callback=None, blocking=False):
        from copy import deepcopy

        state = deepcopy({"trainer": trainer.state_dict(), "model": model.state_dict(), "optimizer": optimizer.state_dict(), "reader": data_reader.state_dict()})
        self._save("full", step_nr, state, ready_callback, saved_callback, blocking)

    def save_model_only(self, step_nr, model, *, ready_callback=None, saved_callback=None, blocking=False):
        self._save("model", step_nr, {"model": model.state_dict()}, ready_callback, saved_callback, blocking)

    def maybe_complete_save_operation(self, *, blocking=False):
        if self.pending is None:
            return None
        self.pending()
        return True

    def save_score(self, step_nr, score):
        self.w.ev("score", step_nr, score)
        self.w.scores[step_nr] = score

    def get_stale_step_numbers(self, a, b, c):
        return []

    def get_step_numbers(self, *, exclude_model_only=False):
        return sorted(s for s in self.w.disk if not (exclude_model_only and s in self.w.model_only))

    def maybe_get_last_step_number(self, *, exclude_model_only=False):
        s = self.get_step_numbers(exclude_model_only=exclude_model_only)
        return s[-1] if s else None

    def delete_checkpoint(self, step_nr, *, keep_model=False):
        self.w.ev("delete", step_nr, keep_model)
        if keep_model:
            self.w.model_only.add(step_nr)
        else:
            self.w.disk.pop(step_nr, None)

    def load_trainer_state(self, n, t):
        from copy import deepcopy

        t.load_state_dict(deepcopy(self.w.disk[n]["trainer"]))

    def load_model_state(self, n, m):
        m.load_state_dict(dict(self.w.disk[n]["model"]))

    def load_optimizer_state(self, n, o):
        o.load_state_dict(dict(self.w.disk[n]["optimizer"]))

    def load_data_reader_state(self, n, r):
        r.load_state_dict(dict(self.w.disk[n]["reader"]))

    def close(self):
        pass


def make(w, *, validator=True, score=lambda n: 1.0, early=None, overflow=None, **kw):
    net, unit, sched = Net(), None, Sched()
    unit = Unit(w, net)
    unit.sched = sched
    gangs = create_fake_gangs(CPU)
    t = Trainer(
        model=net,
        unit=unit,
        data_reader=Reader(w),
        gangs=gangs,
        amp=False,
        amp_dtype=torch.float32,
        optimizer=Opt(net),
        lr_scheduler=sched,
        fp16_loss_scaler=NOOP_FP16_LOSS_SCALER if overflow is None else Scaler(overflow),
        validator=Val(w, net, score) if validator else NOOP_VALIDATOR,
        early_stopper=NOOP_EARLY_STOPPER if early is None else Stopper(early),
        checkpoint_manager=Ckpt(w),
        hg_exporter=NOOP_HG_EXPORTER,
        metric_recorder=Recorder(w),
        garbage_collector=NOOP_GARBAGE_COLLECTOR,
        profiler=NOOP_PROFILER,
        device_stat_tracker=NOOP_DEVICE_STAT_TRACKER,
        wall_watch=Stopwatch(),
        progress_reporter=NOOP_PROGRESS_REPORTER,
        seed=1,
        **kw,
    )
    t._net = net
    return t


KW = {"ckpt": "checkpoint", "publish": "publish_metrics", "validate": "validate"}


def kwargs(cfg):
    out = {}
    for a, (x, y, z, t) in cfg.items():
        out[KW[a] + "_after_n_steps"] = x
        out[KW[a] + "_every_n_steps"] = y
        out[KW[a] + "_after_n_data_epochs"] = z
        out[KW[a] + "_every_n_data_epochs"] = t
    return out
