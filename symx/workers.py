"""A process pool that survives workers that die or stall (a lost worker must not stop a check)."""

from __future__ import annotations

import faulthandler
import multiprocessing as mp
import multiprocessing.connection as mpc
import os
import signal
import sys
import time


def _loop(conn, fn, close):
    for c in close:
        c.close()
    try:
        faulthandler.enable()
        faulthandler.register(signal.SIGUSR1, all_threads=True)
    except Exception:
        pass
    while True:
        try:
            task = conn.recv()
        except (EOFError, OSError):
            os._exit(0)
        if task is None:
            os._exit(0)
        conn.send(fn(task))


def _cpu(pid):
    try:
        with open(f"/proc/{pid}/stat") as fp:
            f = fp.read().rsplit(")", 1)[1].split()
        return (int(f[11]) + int(f[12])) / os.sysconf("SC_CLK_TCK")
    except (OSError, IndexError, ValueError):
        return 0.0


class _Worker:
    def __init__(self, fn, others):
        ctx = mp.get_context("fork")
        self.conn, child = ctx.Pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        self.proc = ctx.Process(target=_loop, args=(child, fn, [self.conn] + [w.conn for w in others]), daemon=True)
        self.proc.start()
        child.close()
        self.task = None

    def give(self, i, task):
        self.task = i
        self.since = self.moved = time.time()
        self.cpu = _cpu(self.proc.pid)
        self.conn.send(task)

    def stop(self):
        try:
            self.conn.close()
        except OSError:
            pass
        if self.proc.is_alive():
            self.proc.kill()
        self.proc.join(5)


def run(fn, tasks, nproc, hard_deadline, lost, limit, stall=25):
    """Yields fn(task) for every task; lost(task, why) stands for a task that had no result in two attempts."""
    tries = [0] * len(tasks)
    todo = list(range(len(tasks)))[::-1]
    workers = []
    done = 0
    try:
        while done < len(tasks):
            while len(workers) < min(nproc, len(tasks) - done) and todo:
                workers.append(_Worker(fn, workers))
                workers[-1].give(todo[-1], tasks[todo[-1]])
                todo.pop()
            for w in workers:
                if w.task is None and todo:
                    w.give(todo[-1], tasks[todo[-1]])
                    todo.pop()
            ready = mpc.wait([w.conn for w in workers if w.task is not None], timeout=2)
            now = time.time()
            for w in list(workers):
                if w.task is None:
                    continue
                why = None
                if w.conn in ready:
                    try:
                        r = w.conn.recv()
                        w.task = None
                        done += 1
                        yield r
                        continue
                    except (EOFError, OSError):
                        why = "the worker ended"
                elif now > hard_deadline or now - w.since > limit:
                    why = "no result within the time limit"
                    tries[w.task] = 9
                elif now - w.moved > 5:
                    cpu = _cpu(w.proc.pid)
                    if cpu - w.cpu > 0.2:
                        w.cpu, w.moved = cpu, now
                    elif now - w.moved > stall:
                        why = "the worker stalled"
                        if os.environ.get("VERIF_DEBUG"):
                            os.kill(w.proc.pid, signal.SIGUSR1)
                            time.sleep(1)
                if why is not None:
                    i, w.task = w.task, None
                    w.stop()
                    workers.remove(w)
                    tries[i] += 1
                    if os.environ.get("VERIF_DEBUG"):
                        print(f"LOST {why}: {tasks[i][:2]}", file=sys.stderr)
                    if tries[i] < 2:
                        todo.append(i)
                    else:
                        done += 1
                        yield lost(tasks[i], why)
    finally:
        for w in workers:
            w.stop()
