"""Environment components shared by the symbolic and the concrete world: they are written over values that may
be symbolic or plain, and make no choice of their own except through the world's inputs.

  pyuv       one libuv loop: Async, Timer, Signal, driven by the world's clock
  psutil     a process table given by the scenario
  portalocker  exclusive advisory locks on files, optionally held by others for a given time
  uuid/random  identifiers supplied by the scenario
"""
import types


class Deadlock(Exception):
    """the simulated loop has nothing left to wait for"""


# ------------------------------------------------------------------------------------------ pyuv
def _call(callback, *args):
    """as pyuv: an exception leaving a handle's callback is printed and the loop goes on (SystemExit ends the process)"""
    try:
        callback(*args)
    except Deadlock:
        raise
    except Exception as e:
        args[0].loop.w.uv_errors.append(e)


class _Loop:
    W = None

    def __init__(self):
        self.w = _Loop.W
        self.async_pending = []
        self.timers = []
        self.signals = []
        self.stopped = False
        self.update_time()
        self.seq = 0
        self.w.uv_loops.append(self)
        self.steps = 0

    @classmethod
    def default_loop(cls):
        return cls()

    def update_time(self):
        # libuv keeps whole milliseconds of a monotonic clock (phase against the wall clock is arbitrary)
        self.loop_time = (self.w.now_us() + self.w.uv_phase) // 1000

    def now(self):
        return self.loop_time

    def stop(self):
        self.stopped = True

    def run(self, mode=None):
        """Async and signal handles keep the loop alive, as in libuv."""
        w = self.w
        self.stopped = False
        while not self.stopped:
            self.steps += 1
            if self.steps > w.uv_max_steps:
                w.uv_exhausted = True
                return
            self.update_time()
            if w.uv_hook is not None:
                w.uv_hook(self)          # the scenario may deliver signals, push work or stop the run here
                if self.stopped:
                    return
            if self.async_pending:
                batch, self.async_pending = self.async_pending, []
                for a in batch:
                    a.queued = False
                    _call(a.callback, a)
                    if self.stopped:
                        break
                continue
            due = self._due()
            if due is not None:
                t = due
                self.timers.remove(t)
                t.active = False
                if t.repeat_ms is not None:
                    t._arm(t.repeat_ms)
                _call(t.callback, t)
                continue
            if not self.timers:
                if w.uv_idle():
                    continue
                return
            nxt = self._next()
            w.uv_wait(nxt.due * 1000 - w.uv_phase)

    def _due(self):
        t = self._next()
        return t if t is not None and t.due <= self.loop_time else None

    def _next(self):
        best = None
        for t in self.timers:
            if best is None or t.due < best.due:
                best = t
        return best


class _Async:
    def __init__(self, loop, callback):
        self.loop, self.callback, self.queued, self.closed = loop, callback, False, False

    def send(self):
        if not self.queued:
            self.queued = True
            self.loop.async_pending.append(self)

    def close(self, cb=None):
        self.closed = True


class _Timer:
    def __init__(self, loop):
        self.loop = loop
        self.active = False
        self.due = None
        self.repeat_ms = None
        self.callback = None

    def start(self, callback, timeout, repeat):
        if timeout < 0:
            raise ValueError("a positive value or zero is required")
        if repeat < 0:
            raise ValueError("a positive value or zero is required")
        self.stop()
        self.callback = callback
        w = self.loop.w
        # libuv counts whole milliseconds: pyuv passes (uint64)(timeout * 1000)
        self.repeat_ms = None if repeat == 0 else w.floor_int(repeat * 1000)
        self._arm(w.floor_int(timeout * 1000))

    def _arm(self, ms):
        self.due = self.loop.loop_time + ms
        self.active = True
        self.loop.timers.append(self)

    def stop(self):
        if self.active:
            self.loop.timers.remove(self)
            self.active = False

    def again(self):
        self._arm(self.repeat_ms or 0)

    def close(self, cb=None):
        self.stop()


class _Signal:
    def __init__(self, loop):
        self.loop, self.active, self.signum, self.callback = loop, False, None, None

    def start(self, callback, signum):
        self.stop()
        self.callback, self.signum, self.active = callback, signum, True
        self.loop.signals.append(self)

    def stop(self):
        if self.active:
            self.loop.signals.remove(self)
            self.active = False

    def close(self, cb=None):
        self.stop()


def deliver_signal(loop, signum):
    for s in list(loop.signals):
        if s.signum == signum:
            _call(s.callback, s, signum)


def pyuv_module(world):
    m = types.ModuleType("pyuv")
    L = type("Loop", (_Loop,), {})
    _Loop.W = world
    m.Loop, m.Async, m.Timer, m.Signal = L, _Async, _Timer, _Signal
    m.UV_RUN_DEFAULT = 0
    return m


# ------------------------------------------------------------------------------------------ psutil
class Proc:
    """one row of the process table"""

    def __init__(self, world, pid, ppid, cmdline, name="python", gone=False, denied=False):
        self._w, self.pid, self._ppid, self._cmd, self._name = world, pid, ppid, cmdline, name
        self._gone, self._denied = gone, denied
        self.live = None                  # number of operations until the process has ended

    def _chk(self):
        if self.live is not None:
            if self.live == 0:
                self._gone = True
            else:
                self.live -= 1
        if self._gone:
            raise self._w.psutil.NoSuchProcess(self.pid)

    def cmdline(self):
        self._chk()
        if self._denied:
            raise self._w.psutil.AccessDenied(self.pid)
        return list(self._cmd)

    def ppid(self):
        self._chk()
        return self._ppid

    def name(self):
        return self._name

    def parent(self):
        for p in self._w.procs:
            if p.pid == self._ppid:
                return p
        return None

    def is_running(self): return not self._gone
    def status(self): return "sleeping"

    @property
    def info(self):
        return {"pid": self.pid, "ppid": self._ppid, "name": self._name, "cmdline": None if self._denied else list(self._cmd)}

    def kill(self):
        self._chk()
        self._w.signals_sent.append((self.pid, "KILL"))

    def terminate(self):
        self._chk()
        self._w.signals_sent.append((self.pid, "TERM"))

    def send_signal(self, sig):
        self._chk()
        self._w.signals_sent.append((self.pid, {9: "KILL", 15: "TERM"}.get(int(sig), int(sig))))


def psutil_module(world):
    m = types.ModuleType("psutil")

    class Error(Exception):
        pass

    class NoSuchProcess(Error):
        def __init__(self, pid=None, name=None, msg=None):
            self.pid = pid

    class AccessDenied(Error):
        def __init__(self, pid=None, name=None, msg=None):
            self.pid = pid

    class ZombieProcess(NoSuchProcess):
        pass
    m.Error, m.NoSuchProcess, m.AccessDenied, m.ZombieProcess = Error, NoSuchProcess, AccessDenied, ZombieProcess

    def process_iter(attrs=None, ad_value=None):
        return iter(list(world.procs))

    def pids():
        return [p.pid for p in world.procs]

    def Process(pid=None):
        pid = world.getpid() if pid is None else pid
        for p in world.procs:
            if p.pid == pid:
                if p._gone:
                    raise NoSuchProcess(pid)
                return p
        raise NoSuchProcess(pid)

    m.process_iter, m.pids, m.Process = process_iter, pids, Process
    m.pid_exists = lambda pid: any(p.pid == pid and not p._gone for p in world.procs)
    return m


# ------------------------------------------------------------------------------------------ portalocker
class Locks:
    """advisory exclusive locks by path; `foreign(path)` tells whether another process holds the lock now."""

    def __init__(self, world):
        self.w = world
        self.held = {}              # path -> handle that holds the exclusive lock
        self.shared = {}            # path -> handles that hold a shared lock
        self.foreign = None
        self.log = []

    def lock(self, fp, flags=6):
        path = fp.name
        flags = int(flags)
        self.w.trace(("lock?", path))
        waited = 0
        while self.taken(path, fp, flags):
            if flags & 4:
                raise self.w.portalocker.exceptions.AlreadyLocked(fh=fp)
            waited += 1
            if waited > 40:
                raise Deadlock("blocked on the lock of %s" % path)
            self.w.tick(1000000)
        self.forget(fp)
        if flags & 2:
            self.held[path] = fp
        else:
            self.shared.setdefault(path, []).append(fp)
        self.log.append(("lock", path))
        self.w.trace(("locked", path))

    def taken(self, path, fp, flags):
        if self.foreign is not None and self.foreign(path):
            return True
        h = self.held.get(path)
        if h is not None and h is not fp:
            return True
        return bool(flags & 2) and any(h is not fp for h in self.shared.get(path, ()))

    def forget(self, fp):
        if self.held.get(fp.name) is fp:
            del self.held[fp.name]
        if fp.name in self.shared:
            self.shared[fp.name] = [h for h in self.shared[fp.name] if h is not fp]

    def unlock(self, fp):
        if fp.name in self.shared:
            self.shared[fp.name] = [h for h in self.shared[fp.name] if h is not fp]
        if self.held.get(fp.name) is fp:
            del self.held[fp.name]
            self.log.append(("unlock", fp.name))
            self.w.trace(("unlocked", fp.name))

    def drop(self, fp):
        if fp.name in self.shared:
            self.shared[fp.name] = [h for h in self.shared[fp.name] if h is not fp]
        if self.held.get(fp.name) is fp:
            del self.held[fp.name]
            self.log.append(("unlock", fp.name))


def portalocker_module(world):
    m = types.ModuleType("portalocker")
    ex = types.ModuleType("portalocker.exceptions")

    class BaseLockException(Exception):
        LOCK_FAILED = 1

        def __init__(self, *a, fh=None, **k):
            self.fh = fh
            super().__init__(*a)

    class LockException(BaseLockException):
        pass

    class AlreadyLocked(LockException):
        pass

    class FileToLarge(LockException):
        pass
    ex.BaseLockException, ex.LockException, ex.AlreadyLocked, ex.FileToLarge = BaseLockException, LockException, AlreadyLocked, FileToLarge
    m.exceptions = ex
    m.LockException, m.AlreadyLocked = LockException, AlreadyLocked
    m.LOCK_EX, m.LOCK_SH, m.LOCK_NB, m.LOCK_UN = 2, 1, 4, 8

    class LockFlags:
        EXCLUSIVE, SHARED, NON_BLOCKING, UNBLOCK = 2, 1, 4, 8
    m.LockFlags = LockFlags
    m.lock = lambda fp, flags=6: world.locks.lock(fp, flags)
    m.unlock = lambda fp: world.locks.unlock(fp)
    return m


class FakeUUID:
    def __init__(self, n):
        self.int = n

    @property
    def hex(self):
        return "%032x" % int(self.int)

    @property
    def bytes(self):
        return int(self.int).to_bytes(16, "big")

    def __int__(self): return self.int
    def __str__(self): return self.hex


class Crash(BaseException):
    """simulated death of the process (never caught by the code under test)"""
