"""The OpenMP runtime as the symbolic engine sees it: a team of threads that run one at a time between
synchronisation points, with every conflicting access of two threads in the same epoch reported.  Without such
conflicts every interleaving gives the result of the explored one."""

import threading
from engine import core, terms as tm
from engine.core import PathEnd, Violation

threading.stack_size(256 << 20)


class Abort(BaseException):
    pass


class Team:
    def __init__(self, cx, size):
        self.cx = cx
        self.size = size
        self.cur = 0
        self.gates = [threading.Semaphore(0) for _ in range(size)]
        self.waiting = [False] * size
        self.done = [False] * size
        self.exc = None
        self.single = {}
        self.nsingle = [0] * size
        self.locked = False
        self.clear()

    def clear(self):
        n = self.size
        self.R = [set() for _ in range(n)]
        self.W = [set() for _ in range(n)]
        self.LR = [set() for _ in range(n)]
        self.LW = [set() for _ in range(n)]

    # ---- accesses
    def access(self, cx, a, n, w):
        o = cx.slots.get(a >> 16)
        if o is None or o.const:
            return
        t = self.cur
        s = (self.LW if w else self.LR)[t] if self.locked else (self.W if w else self.R)[t]
        s.update(range(a, a + n))

    def races(self):
        n = self.size
        for t in range(n):
            for u in range(n):
                if t == u:
                    continue
                c = self.W[t] & self.W[u] or self.W[t] & self.R[u] or self.W[t] & self.LR[u] or self.W[t] & self.LW[u] \
                    or self.LW[t] & self.R[u]
                if c:
                    a = min(c)
                    o = self.cx.slots.get(a >> 16)
                    self.cx.user["race"] = True
                    self.cx.obl += 1
                    raise Violation("threads %d and %d race on byte %d of %s" % (t, u, a - o.base, o.name), dict(self.cx.model),
                                    self.cx)
        self.cx.obl += 1
        self.clear()

    # ---- switching
    def order(self):
        r = range(self.size)
        return list(r) if self.cx.user.get("forward", True) else list(reversed(r))

    def next(self):
        """hand the baton on; called by a thread that waits or is done"""
        for t in self.order():
            if not self.waiting[t] and not self.done[t]:
                return t
        return None

    def barrier(self):
        t = self.cur
        self.waiting[t] = True
        n = self.next()
        if n is None:
            # everybody is here
            self.races()
            self.waiting = [False] * self.size
            n = self.next()
        if n == t:
            self.waiting[t] = False
            return
        self.cur = n
        self.gates[n].release()
        self.gates[t].acquire()
        if self.exc is not None:
            raise Abort()

    def body(self, t, fn):
        try:
            self.gates[t].acquire()
            if self.exc is None:
                fn(t)
        except Abort:
            pass
        except BaseException as e:
            if self.exc is None:
                self.exc = e
        self.done[t] = True
        if self.exc is not None:
            self.finish()
            return
        n = self.next()
        if n is None:
            if all(self.done):
                self.end.release()
                return
            # the others wait at a barrier this thread never reaches
            self.exc = core.Unsupported("barrier not reached by all threads")
            self.finish()
            return
        self.cur = n
        self.gates[n].release()

    def finish(self):
        for t in range(self.size):
            self.gates[t].release()
        self.end.release()

    def run(self, fn):
        cx = self.cx
        self.end = threading.Semaphore(0)
        ths = [threading.Thread(target=self.body, args=(t, fn), daemon=True) for t in range(self.size)]
        for th in ths:
            th.start()
        old = cx.sched
        cx.sched = self.access
        first = self.next()
        self.cur = first
        self.gates[first].release()
        self.end.acquire()
        for th in ths:
            th.join()
        cx.sched = old
        if self.exc is not None:
            raise self.exc
        self.races()


def fork_call(cx, loc, argc, fn, *args):
    size = cx.user.get("team", 2)
    team = Team(cx, size)
    outer = cx.user.get("omp")
    cx.user["omp"] = team
    ids = []
    for t in range(size):
        o = cx.alloc(4, "gtid%d" % t)
        cx.store(o.base, t, 4)
        ids.append(o.base)
    team.run(lambda t: cx.prog.icall(cx, fn, ids[t], ids[t], *args))
    cx.user["omp"] = outer


def team_of(cx):
    return cx.user.get("omp")


def single(cx, loc, gtid):
    t = team_of(cx)
    if t is None:
        return 1
    k = t.nsingle[t.cur]
    t.nsingle[t.cur] += 1
    if k not in t.single:
        t.single[k] = t.cur
        return 1
    return 0


def end_single(cx, loc, gtid):
    return None


def barrier(cx, loc, gtid):
    t = team_of(cx)
    if t is not None:
        t.barrier()


def num_threads(cx):
    t = team_of(cx)
    return t.size if t else 1


def thread_num(cx):
    t = team_of(cx)
    return t.cur if t else 0


def static_init(w, signed):
    n = w // 8

    def f(cx, loc, gtid, sched, plast, plower, pupper, pstride, incr, chunk):
        T = num_threads(cx)
        me = thread_num(cx)
        lo = cx.concretize(cx.load(plower, n))
        hi = cx.concretize(cx.load(pupper, n))
        s = lambda v: v - (1 << w) if signed and v >> (w - 1) else v
        lo, hi, step, chunk = s(lo), s(hi), s(cx.concretize(incr)), s(cx.concretize(chunk))
        sched = cx.concretize(sched) & 0xff
        if step <= 0:
            raise core.Unsupported("omp loop step")
        count = (hi - lo) // step + 1 if hi >= lo else 0
        m = (1 << w) - 1
        if sched == 33:
            chunk = max(1, chunk)
            a = lo + me * chunk * step
            cx.store(plower, a & m, n)
            cx.store(pupper, (a + (chunk - 1) * step) & m, n)
            cx.store(pstride, (T * chunk * step) & m, n)
            last = count and ((count - 1) // chunk) % T == me
        elif sched == 34:
            small, extra = divmod(count, T)
            k0 = me * small + min(me, extra)
            k1 = k0 + small + (1 if me < extra else 0)
            cx.store(plower, (lo + k0 * step) & m, n)
            cx.store(pupper, (lo + (k1 - 1) * step) & m, n)
            cx.store(pstride, (count * step) & m, n)
            last = k1 == count and k1 > k0
        else:
            raise core.Unsupported("omp schedule %d" % sched)
        cx.store(plast, 1 if last else 0, 4)
    return f


def static_fini(cx, loc, gtid):
    return None


def reduce_(cx, loc, gtid, nvars, size, data, func, lock):
    t = team_of(cx)
    if t:
        t.locked = True
    return 1


def end_reduce(nowait):
    def f(cx, loc, gtid, lock):
        t = team_of(cx)
        if t:
            t.locked = False
            if not nowait:
                t.barrier()
    return f


def critical(cx, loc, gtid, lock):
    t = team_of(cx)
    if t:
        t.locked = True


def end_critical(cx, loc, gtid, lock):
    t = team_of(cx)
    if t:
        t.locked = False


BUILTINS = {
    "__kmpc_fork_call": fork_call, "__kmpc_single": single, "__kmpc_end_single": end_single, "__kmpc_barrier": barrier,
    "__kmpc_master": lambda cx, l, g: 1 if thread_num(cx) == 0 else 0, "__kmpc_end_master": lambda cx, l, g: None,
    "__kmpc_masked": lambda cx, l, g, f: 1 if thread_num(cx) == 0 else 0, "__kmpc_end_masked": lambda cx, l, g: None,
    "__kmpc_for_static_init_4": static_init(32, True), "__kmpc_for_static_init_4u": static_init(32, False),
    "__kmpc_for_static_init_8": static_init(64, True), "__kmpc_for_static_init_8u": static_init(64, False),
    "__kmpc_for_static_fini": static_fini, "__kmpc_reduce": reduce_, "__kmpc_reduce_nowait": reduce_,
    "__kmpc_end_reduce": end_reduce(False), "__kmpc_end_reduce_nowait": end_reduce(True),
    "__kmpc_critical": critical, "__kmpc_end_critical": end_critical,
    "__kmpc_global_thread_num": lambda cx, l: thread_num(cx), "__kmpc_push_num_threads": lambda cx, l, g, n: None,
    "omp_get_num_threads": num_threads, "omp_get_thread_num": thread_num,
    "omp_get_max_threads": lambda cx: cx.user.get("team", 2), "omp_set_num_threads": lambda cx, n: None,
}
