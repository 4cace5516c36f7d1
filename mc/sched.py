"""Two threads under control: which line of the code under test each of them executes next is
decided here. Everything outside that code (libraries, this harness) happens in one step."""
import os
import sys
import threading

import fedservice

SRC = os.path.dirname(os.path.abspath(fedservice.__file__)) + os.sep
PATIENCE = [10.0]    # a thread that hasn't come further within this time is waiting for the other


class Turn:
    """One run of two functions. plan: [(thread, lines)]: let that thread execute that many lines
    of the code under test, and so on; after the last step the first thread mentioned finishes, then
    the other."""

    def __init__(self, funcs, plan):
        self.funcs = funcs
        self.plan = list(plan)
        self.result = [None, None]
        self.lines = [0, 0]
        self.where = [[], []]
        self.record = False
        self.done = [False, False]
        self.go = [threading.Event(), threading.Event()]
        self.back = threading.Event()
        self.budget = [0, 0]
        self.blocked = 0

    # in the threads
    def _line(self, n, frame):
        if self.record:
            self.where[n].append((frame.f_code.co_filename[len(SRC):], frame.f_lineno))
        self.lines[n] += 1
        if self.budget[n] is None:
            return
        if self.budget[n] == 0:
            self._pause(n)
            if self.budget[n] is None:
                return
        self.budget[n] -= 1

    def _pause(self, n):
        self.go[n].clear()
        self.back.set()
        self.go[n].wait()

    def _tracer(self, n):
        def local(frame, event, arg):
            if event == "line":
                self._line(n, frame)
            return local

        def glob(frame, event, arg):
            if frame.f_code.co_filename.startswith(SRC):
                return local
            return None
        return glob

    def _body(self, n):
        self.go[n].wait()
        sys.settrace(self._tracer(n))
        try:
            self.result[n] = self.funcs[n]()
        except BaseException as err:
            self.result[n] = ("exception", repr(err))
        finally:
            sys.settrace(None)
            self.done[n] = True
            self.back.set()

    # in charge
    def _let(self, n, budget):
        if self.done[n]:
            return
        self.budget[n] = budget
        self.back.clear()
        self.go[n].set()
        if not self.back.wait(PATIENCE[0]):
            self.blocked += 1        # it waits for something the other one has
            PATIENCE[0] = max(0.5, PATIENCE[0] / 2)

    def run(self):
        threads = [threading.Thread(target=self._body, args=(n,), daemon=True) for n in (0, 1)]
        for t in threads:
            t.start()
        for n, k in self.plan:
            self._let(n, k)
        first = self.plan[0][0] if self.plan else 0
        for _ in range(50):
            for n in (first, 1 - first):
                self._let(n, None)
            if all(self.done):
                break
        for t in threads:
            t.join(10)
        if not all(self.done):
            self.result = ["stuck", "stuck"]
        return self.result
