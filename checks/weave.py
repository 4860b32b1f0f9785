"""Two or more threads under the symbolic engine, every interleaving of their accesses to writable static data explored."""

import threading
from engine import core
from engine.core import Violation
from .omp import Abort

threading.stack_size(256 << 20)


class Weave:
    """one thread runs at a time; before each access to shared data the next thread to proceed is chosen"""

    def __init__(self, cx, bodies, switches=None):
        self.cx = cx
        self.bodies = bodies
        self.n = len(bodies)
        self.left = switches            # preemptions that may still happen (None: any number)
        self.gates = [threading.Semaphore(0) for _ in bodies]
        self.end = threading.Semaphore(0)
        self.started = [False] * self.n
        self.done = [False] * self.n
        self.results = [None] * self.n
        self.cur = 0
        self.exc = None
        self.trace = []
        self.points = 0

    def hand(self, t):
        me = self.cur
        if t == me:
            return
        self.cur = t
        self.gates[t].release()
        self.gates[me].acquire()
        if self.exc is not None:
            raise Abort()

    def access(self, cx, a, n, w):
        o = cx.slots.get(a >> 16)
        if o is None or o.const or o.kind != "global":
            return
        for t in range(self.n):
            if not self.started[t]:
                self.started[t] = True
                self.hand(t)
                break
        else:
            self.hand(self.pick(True))
        self.points += 1
        self.trace.append((self.cur, "w" if w else "r", o.name, a - o.base, n))

    def pick(self, running):
        alive = [t for t in range(self.n) if not self.done[t]]
        if running:
            alive.remove(self.cur)
            alive.insert(0, self.cur)
            if self.left is not None and self.left <= 0:
                return self.cur
        t = alive[self.cx.choose(len(alive))]
        if running and t != self.cur and self.left is not None:
            self.left -= 1
        if len(alive) > 1:
            self.cx.user.setdefault("schedule", []).append(t)
        return t

    def body(self, t):
        try:
            self.gates[t].acquire()
            if self.exc is None:
                self.results[t] = self.bodies[t]()
        except Abort:
            pass
        except BaseException as e:
            if self.exc is None:
                self.exc = e
        self.done[t] = True
        if self.exc is not None:
            self.finish()
            return
        if all(self.done):
            self.end.release()
            return
        try:
            for u in range(self.n):
                if not self.started[u]:
                    self.started[u] = True
                    break
            else:
                u = self.pick(False)
        except BaseException as e:
            self.exc = e
            self.finish()
            return
        self.cur = u
        self.gates[u].release()

    def finish(self):
        for g in self.gates:
            g.release()
        self.end.release()

    def run(self):
        cx = self.cx
        ths = [threading.Thread(target=self.body, args=(t,), daemon=True) for t in range(self.n)]
        for th in ths:
            th.start()
        old = cx.sched
        cx.sched = self.access
        self.started[0] = True
        self.gates[0].release()
        self.end.acquire()
        for th in ths:
            th.join()
        cx.sched = old
        if self.exc is not None:
            raise self.exc
        return self.results
