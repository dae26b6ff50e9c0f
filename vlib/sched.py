"""Deterministic interleaving of threads at source lines of the code under test.

Exactly one thread runs at a time.  Before every line of the package each thread asks the scheduler,
which hands over to another thread where the schedule (a list of gaps, counted in lines) says so.
The same functions and the same schedule give the same interleaving."""
from __future__ import annotations

import os
import sys
import threading
import time


STUCK_S = 3.0


class Interleaver:
    stuck = 0  # how often threads waited for each other in this process

    def __init__(self, funs, gaps, root):
        self.funs, self.gaps, self.root = funs, list(gaps), os.path.realpath(root) + os.sep
        self.sems = [threading.Semaphore(0) for _ in funs]
        self.alive = [True] * len(funs)
        self.out = [None] * len(funs)
        self.done = threading.Event()
        self.switches = self.ticks = 0
        self.free = Interleaver.stuck > 1
        self.k = 0
        self.left = self._gap()

    def _release_all(self):
        self.free = True
        for x in self.sems:
            x.release()

    def _gap(self):
        g = self.gaps[self.k % len(self.gaps)]
        self.k += 1
        return g

    def _next(self, i):
        n = len(self.funs)
        for d in range(1, n + 1):
            j = (i + d) % n
            if self.alive[j]:
                return j
        return None

    def _line(self, i):
        self.ticks += 1
        if self.free:
            return
        self.left -= 1
        if self.left > 0:
            return
        self.left = self._gap()
        j = self._next(i)
        if j != i:
            self.switches += 1
            self.sems[j].release()
            self.sems[i].acquire()

    def _tracer(self, i):
        root, line = self.root, self._line
        known = {}

        def local(frame, event, arg):
            if event == "line":
                line(i)
            return local

        def glob(frame, event, arg):
            f = frame.f_code.co_filename
            if frame.f_code.co_name == "<module>":  # holds the import lock
                return None
            ok = known.get(f)
            if ok is None:
                ok = known[f] = os.path.realpath(f).startswith(root)
            return local if ok else None

        return glob

    def _run(self, i):
        self.sems[i].acquire()
        sys.settrace(self._tracer(i))
        try:
            self.out[i] = (True, self.funs[i]())
        except BaseException as e:  # noqa: B902
            self.out[i] = (False, e)
        finally:
            sys.settrace(None)
            self.alive[i] = False
            j = self._next(i)
            if j is None:
                self.done.set()
            else:
                self.sems[j].release()

    def run(self, timeout=40):
        ts = [threading.Thread(target=self._run, args=(i,), daemon=True) for i in range(len(self.funs))]
        for t in ts:
            t.start()
        if self.free:
            self._release_all()
        self.sems[0].release()
        # A thread which waits for a lock of another one would wait forever. This is no fault of its own: let all of them run.
        t0, last = time.monotonic(), -1
        while not self.done.wait(STUCK_S):
            if self.ticks == last and not self.free:
                Interleaver.stuck += 1
                self._release_all()
            last = self.ticks
            if time.monotonic() - t0 > timeout:
                return None
        for t in ts:
            t.join(5)
        return self.out
