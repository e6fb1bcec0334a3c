"""
Threads under a generated schedule: every line (or byte code) of the library is a point at which
the running thread can be stopped and another one continued, and only one of them runs at a time.
"""
import sys
import threading

from harness.core import REPO, HarnessError

PREFIX = REPO + "/bartpy"


class Interleaving(object):
    """
    schedule: list of [gap, choice]: after `gap` points, hand over to the choice-th of the other
    threads that are still running.  When it is used up threads run to their end one after another.
    """

    def __init__(self, schedule, opcodes=False, patience=60., focus=None):
        # focus: only lines of this file are points
        self.focus = "/{}.py".format(focus) if focus else ""
        self.schedule, self.opcodes, self.patience = list(schedule), opcodes, patience
        self.switches = self.points = 0
        self.failed = None

    def run(self, functions):
        n = len(functions)
        self.turns = [threading.Semaphore(0) for _ in range(n)]
        self.alive = set(range(n))
        self.results, self.errors = [None] * n, [None] * n
        self.left = self._next_gap()

        def body(i, f):
            if not self.turns[i].acquire(timeout=self.patience):
                self.errors[i] = HarnessError("a thread never got its turn")
                return
            sys.settrace(self._tracer(i))
            try:
                self.results[i] = f()
            except BaseException as e:  # noqa: B902
                self.errors[i] = e
            finally:
                sys.settrace(None)
                self.alive.discard(i)
                if self.alive:
                    self.turns[min(self.alive)].release()

        threads = [threading.Thread(target=body, args=(i, f), daemon=True) for i, f in enumerate(functions)]
        for t in threads:
            t.start()
        self.turns[0].release()
        for t in threads:
            t.join(self.patience)
            if t.is_alive():
                raise HarnessError("a thread did not come to its end")
        return self.results, self.errors

    def _next_gap(self):
        return self.schedule[0][0] if self.schedule else None

    def _tracer(self, i):
        def local(frame, event, arg):
            if event == ("opcode" if self.opcodes else "line"):
                self._point(i)
            return local

        def on_call(frame, event, arg):
            if not frame.f_code.co_filename.startswith(PREFIX):
                return None
            if not frame.f_code.co_filename.endswith(self.focus):
                return None
            if self.opcodes:
                frame.f_trace_opcodes = True
                frame.f_trace_lines = False
            return local
        return on_call

    def _point(self, i):
        self.points += 1
        if self.left is None:
            return
        self.left -= 1
        if self.left > 0:
            return
        _, choice = self.schedule.pop(0)
        self.left = self._next_gap()
        others = sorted(self.alive - {i})
        if not others:
            return
        self.switches += 1
        self.turns[others[choice % len(others)]].release()
        if not self.turns[i].acquire(timeout=self.patience):
            raise HarnessError("a thread never got its turn back")
