"""Threads of the code under test, run one at a time: at every access to shared state the scheduler decides which one
goes on.  The decisions are inputs of the scenario (w.choice), so the schedule is symbolic like any other input, and a
recorded one is replayed on the real code."""
import bisect
import collections
import heapq
import threading
import types

_real = threading


class _Kill(BaseException):
    pass


class _Thread:
    def __init__(self, sched, n, fn):
        self.sched, self.n, self.fn = sched, n, fn
        self.go = _real.Semaphore(0)
        self.done = False
        self.blocked = None                  # the lock waited for
        self.os = None

    def main(self):
        self.go.acquire()
        s = self.sched
        try:
            if not s.dead:
                self.fn()
        except _Kill:
            pass
        except BaseException as e:           # control flow of the engine, or an error of the scenario
            if s.error is None:
                s.error = e
        self.done = True
        s.back.release()


class Scheduler:
    """run(fns): all functions as threads; `switches` bounds the switches away from a thread that could go on"""

    def __init__(self, w, switches):
        self.w, self.switches = w, switches
        self.current = None
        self.threads = []
        self.dead = False
        self.error = None
        self.back = None
        self.clock = 0
        self.used = 0

    def point(self):
        """called before each access to shared state"""
        t = self.current
        if t is None:
            return
        if self.dead:
            raise _Kill()
        if self.used >= self.switches and t.blocked is None:
            return
        if t.blocked is None and not any(not o.done and o is not t and (o.blocked is None or o.blocked.free(o)) for o in self.threads):
            return
        self.back.release()
        t.go.acquire()
        if self.dead:
            raise _Kill()

    def tick(self):
        self.clock += 1
        return self.clock

    def run(self, fns):
        old = _real.stack_size(32 << 20)
        self.back = _real.Semaphore(0)
        self.threads = [_Thread(self, i, f) for i, f in enumerate(fns)]
        try:
            for t in self.threads:
                t.os = _real.Thread(target=t.main, daemon=True)
                t.os.start()
            cur = None
            while self.error is None:
                ready = [t for t in self.threads if not t.done and (t.blocked is None or t.blocked.free(t))]
                if not ready:
                    break
                # the one that was running comes first: going on is the first alternative
                ready.sort(key=lambda t: (t is not cur, t.n))
                if cur is not None and ready[0] is cur and self.used >= self.switches:
                    ready = ready[:1]
                nxt = self.w.choice("thread", ready) if len(ready) > 1 else ready[0]
                if cur is not None and not cur.done and ready[0] is cur and nxt is not cur:
                    self.used += 1
                cur = self.current = nxt
                nxt.go.release()
                if not self.back.acquire(timeout=60):
                    raise RuntimeError("a thread waits for something outside the model")
            stuck = [t for t in self.threads if not t.done]
        finally:
            self.current = None
            self.dead = True
            for t in self.threads:
                if t.os is not None:
                    t.go.release()
                    t.os.join(10)
            self.dead = False
            _real.stack_size(old)
        if self.error is not None:
            raise self.error
        return not stuck

    # ---- what the modules under test see
    def modules(self):
        s = self

        def wrap(m):
            out = types.ModuleType(m.__name__)
            for n, v in vars(m).items():
                if n.startswith("__"):
                    continue
                out.__dict__[n] = s.atomic(v) if isinstance(v, types.BuiltinFunctionType) else v
            return out
        th = types.ModuleType("threading")
        th.__dict__.update({n: v for n, v in vars(_real).items() if not n.startswith("__")})
        th.Lock = lambda: Lock(s)
        th.RLock = lambda: Lock(s, True)
        th.Condition = lambda lock=None: Condition(s, lock)
        return {"threading": th, "heapq": wrap(heapq), "bisect": wrap(bisect)}

    def atomic(self, f):
        """a C function: nothing happens in the middle of it"""
        def call(*a, **k):
            self.point()
            return f(*a, **k)
        call.__name__ = getattr(f, "__name__", "f")
        return call

    def share(self, cls):
        """a subclass whose instances' attributes are shared state"""
        s = self
        base = cls

        def ga(o, n):
            d = object.__getattribute__(o, "__dict__") if n[:2] != "__" else {}
            # a container's own methods are switch points; a lock is never replaced while it is in use
            if n in d and not isinstance(d[n], (Lock, Condition)):
                s.point()
            return base.__getattribute__(o, n)

        def sa(o, n, v):
            s.point()
            base.__setattr__(o, n, s.wrap(v))

        def da(o, n):
            s.point()
            base.__delattr__(o, n)
        return type(base.__name__, (base,), {"__getattribute__": ga, "__setattr__": sa, "__delattr__": da})

    def wrap(self, v):
        t = CONTAINERS.get(type(v))
        if t is None:
            return v
        r = t(v)
        r._sched = self
        return r


def _container(base):
    def method(n):
        f = getattr(base, n)

        def call(o, *a, **k):
            s = getattr(o, "_sched", None)
            if s is not None:
                s.point()
            return f(o, *a, **k)
        call.__name__ = n
        return call
    skip = ("__class__", "__new__", "__init__", "__getattribute__", "__setattr__", "__delattr__", "__dict__", "__init_subclass__", "__subclasshook__",
            "__class_getitem__", "__reduce__", "__reduce_ex__", "__sizeof__", "__dir__", "__format__", "__doc__", "__hash__", "__getstate__", "__repr__", "__str__")
    d = {n: method(n) for n in dir(base) if callable(getattr(base, n)) and n not in skip}
    d["__hash__"] = None
    return type(base.__name__, (base,), d)


CONTAINERS = {t: _container(t) for t in (list, dict, collections.deque, collections.OrderedDict)}


class Lock:
    def __init__(self, s, re=False):
        self.s, self.re, self.owner, self.n = s, re, None, 0

    def free(self, t):
        return self.owner is None or (self.re and self.owner is t)

    def acquire(self, blocking=True, timeout=-1):
        s = self.s
        t = s.current or "main"
        s.point()
        while not self.free(t):
            if not blocking or (timeout is not None and timeout >= 0):
                return False                 # a wait may always end without the lock
            if t == "main":
                raise RuntimeError("the lock is never released")
            t.blocked = self
            s.point()
            t.blocked = None
        self.owner, self.n = t, self.n + 1
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        self.n -= 1
        if not self.n:
            self.owner = None

    def locked(self): return self.owner is not None

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        if self.s.dead and self.owner is None:
            return
        self.release()


class Condition:
    """only its lock; nobody waits in the code modelled"""

    def __init__(self, s, lock=None):
        self.lock = lock or Lock(s, True)
        self.acquire, self.release = self.lock.acquire, self.lock.release

    def __enter__(self): return self.lock.acquire()
    def __exit__(self, *a): self.lock.__exit__(*a)
    def notify(self, n=1): pass
    def notify_all(self): pass
