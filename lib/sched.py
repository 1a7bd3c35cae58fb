"""A controlled scheduler for two Python threads, and line/opcode fault injection.

Both use sys.settrace on frames of the code under test only. Exactly one thread runs at any time; a schedule is the
list of run lengths (number of source-line events of the code under test) after which control passes to the other
thread. The last thread standing runs freely.
"""
import os
import sys
import threading

from .mc import REPO

PKG = os.path.realpath(os.path.join(REPO, "drdmannturb")) + os.sep


_mine = {}


def is_target(frame):
    fn = frame.f_code.co_filename
    r = _mine.get(fn)
    if r is None:
        r = _mine[fn] = os.path.realpath(fn).startswith(PKG)
    return r


class Run2:
    def __init__(self, bodies, first, lengths, patience=20.0):
        self.bodies, self.lengths = bodies, list(lengths)
        self.cv = threading.Condition()
        self.running = first
        self.left = self.lengths.pop(0) if self.lengths else None
        self.done = [False, False]
        self.err = [None, None]
        self.result = [None, None]
        self.count = [0, 0]
        self.switches = 0
        self.patience = patience
        self.lines = ([], [])  # source locations of the points of each thread

    def _switch(self, me):
        other = 1 - me
        if self.done[other]:
            self.left = None
            return
        self.running = other
        self.switches += 1
        self.left = self.lengths.pop(0) if self.lengths else None
        self.cv.notify_all()
        while self.running != me:
            if not self.cv.wait(self.patience):
                # the other thread is blocked on something we hold: this schedule is infeasible, go on
                self.running = me
                self.left = None

    def point(self, me, where=None):
        with self.cv:
            self.count[me] += 1
            if where is not None:
                self.lines[me].append(where)
            if self.left is not None and self.running == me:
                if self.left == 0:
                    self._switch(me)
                else:
                    self.left -= 1

    def _thread(self, me):
        def local(frame, event, arg):
            if event == "line":
                self.point(me, (frame.f_code.co_filename, frame.f_lineno))
            return local

        def tracer(frame, event, arg):
            return local if is_target(frame) else None

        with self.cv:
            while self.running != me:
                self.cv.wait()
        sys.settrace(tracer)
        try:
            self.result[me] = self.bodies[me]()
        except BaseException as e:  # noqa: BLE001
            self.err[me] = e
        finally:
            sys.settrace(None)
            with self.cv:
                self.done[me] = True
                self.running = 1 - me
                self.left = self.lengths.pop(0) if self.lengths and not self.done[1 - me] else None
                self.cv.notify_all()

    def go(self):
        ts = [threading.Thread(target=self._thread, args=(i,), daemon=True) for i in (0, 1)]
        for t in ts:
            t.start()
        for t in ts:
            t.join(120)
            if t.is_alive():
                raise RuntimeError("a thread did not finish")
        for e in self.err:
            if e is not None:
                raise e
        return self.result


def first_occurrences(lines, most):
    """Indices of the events that are among the first `most` executions of their source line."""
    seen, out = {}, []
    for i, w in enumerate(lines):
        seen[w] = seen.get(w, 0) + 1
        if seen[w] <= most:
            out.append(i)
    return out


class Injected(BaseException):
    """The fault: stands for KeyboardInterrupt, MemoryError, ... at that point."""


def run_with_fault(fn, at, opcodes=False, exc=Injected):
    """Run fn; raise exc at the at-th event (None: never). Returns (number of events, raised?)."""
    n = [0]
    fired = [False]

    def local(frame, event, arg):
        if event == ("opcode" if opcodes else "line"):
            if n[0] == at and not fired[0]:
                fired[0] = True
                n[0] += 1
                raise exc("injected")
            n[0] += 1
        return local

    def tracer(frame, event, arg):
        if not is_target(frame):
            return None
        if opcodes:
            frame.f_trace_opcodes = True
        return local

    old = sys.gettrace()
    sys.settrace(tracer)
    try:
        fn()
    except exc:
        if not fired[0]:
            raise
    finally:
        sys.settrace(old)
    return n[0], fired[0]
