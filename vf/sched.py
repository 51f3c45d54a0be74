"""Interleavings of the forest's per-tree tasks: every task is a thread, exactly one of
which runs at a time; which one continues at each point is a solver variable.

Points: the start of a task, every call of a stand-in, acquiring a lock, and every write
into an existing array (between computing the new values and storing them)."""
import threading
import types

import numpy as np

from . import forest as fo


class Abort(BaseException):
    pass


class Watched(np.ndarray):
    """Real world: an array whose in-place updates can be interrupted."""
    hook = None

    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kw):
        ins = [x.view(np.ndarray) if isinstance(x, Watched) else x for x in inputs]
        if method == "at":
            return ufunc.at(*ins, **kw)
        r = getattr(ufunc, method)(*ins, **kw)
        if out is not None:
            if Watched.hook is not None:
                Watched.hook()
            o = out[0]
            o.view(np.ndarray)[...] = r
            return o
        return r.view(Watched) if isinstance(r, np.ndarray) else r

    def __setitem__(self, k, v):
        if Watched.hook is not None:
            Watched.hook()
        self.view(np.ndarray)[k] = v


class NumpyProxy(types.ModuleType):
    """numpy whose new arrays are watched."""

    def __init__(self, base):
        super().__init__("numpy")
        self.__dict__["base"] = base

    def __getattr__(self, name):
        f = getattr(self.base, name)
        if name in ("zeros", "empty", "ones", "full", "zeros_like", "empty_like"):
            return lambda *a, **k: f(*a, **k).view(Watched)
        return f


class Task:
    def __init__(self, s, i, call):
        self.s, self.i, self.call = s, i, call
        self.go = threading.Semaphore(0)
        self.done, self.error, self.result, self.waits = False, None, None, None
        self.thread = threading.Thread(target=self.run, daemon=True)

    def run(self):
        self.go.acquire()
        try:
            if not self.s.abort:
                f, a, kw = self.call
                self.result = f(*a, **kw)
        except Abort:
            pass
        except BaseException as ex:
            self.error = ex
        self.done = True
        self.s.back.release()


class Scheduler:
    """Stands in for joblib.Parallel."""

    def __init__(self, W, switches):
        self.W, self.switches = W, switches
        self.count, self.tasks, self.cur = 0, [], None
        self.steps = 0

    def parallel(self, n_jobs=None, **kw):
        return self.run

    def run(self, it):
        calls = list(it)
        self.count += 1
        self.back = threading.Semaphore(0)
        self.abort = False
        self.tasks = [Task(self, i, c) for i, c in enumerate(calls)]
        for t in self.tasks:
            t.thread.start()
        left, last = self.switches, None
        self.hooks(self.point)
        try:
            while True:
                live = [t for t in self.tasks if not t.done]
                if not live:
                    break
                ready = [t for t in live if t.waits is None or t.waits.owner is None]
                if not ready:
                    self.W.fail("no deadlock")
                    break
                if last is not None and last in ready and left == 0:
                    t = last
                else:
                    k = 0
                    if len(ready) > 1:
                        # the running task first
                        ready.sort(key=lambda u: (u is not last, u.i))
                        k = self.W.conc(self.W.int("switch%d" % self.steps, 0,
                                                   len(ready) - 1))
                        self.steps += 1
                    t = ready[k]
                    if last is not None and last in ready and t is not last:
                        left -= 1
                self.cur = last = t
                t.go.release()
                if not self.back.acquire(timeout=60):
                    raise RuntimeError("a task does not come back (unmodelled lock)")
                if t.error is not None:
                    raise t.error
        finally:
            self.hooks(None)
            self.abort = True
            for t in self.tasks:
                while not t.done:
                    t.go.release()
                    if not self.back.acquire(timeout=60):
                        break
            self.cur = None
        return [t.result for t in self.tasks]

    def hooks(self, f):
        Watched.hook = f
        fo.StubTree.point = staticmethod(f or (lambda: None))
        if self.W.symbolic:
            self.W.sh.SArr.watch = f

    def point(self):
        t = self.cur
        if t is None or threading.current_thread() is not t.thread or self.abort:
            return
        self.back.release()
        t.go.acquire()
        if self.abort:
            raise Abort()

    def lock(self):
        return Lock(self)

    def install(self):
        """Replace joblib's runner, the locks and (real world) numpy's arrays."""
        W = self.W
        ok = W.patch(fo.FOREST, "Parallel", self.parallel)
        ns = types.SimpleNamespace(Lock=self.lock, RLock=self.lock)
        locks = [W.patch(fo.FOREST, "threading", ns), W.patch(fo.FOREST, "Lock", self.lock),
                 W.patch(fo.FOREST, "RLock", self.lock)]
        if not W.symbolic:
            m = W.mod(fo.FOREST)
            W.patch(fo.FOREST, "np", NumpyProxy(m.np))
        return ok and any(locks)


class Lock:
    """Reentrant for the harness' purposes: a deadlock shows as one."""

    def __init__(self, s):
        self.s, self.owner = s, None

    def acquire(self, blocking=True, timeout=-1):
        s = self.s
        me = s.cur
        if me is None:
            return True
        s.point()
        while self.owner is not None:
            me.waits = self
            s.point()
        me.waits = None
        self.owner = me
        return True

    def release(self):
        self.owner = None
        self.s.point()

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.owner = None
        if a[0] is None:
            self.s.point()
