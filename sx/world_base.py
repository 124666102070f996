"""What scenarios see of the world, identical in symbolic and concrete mode."""
from . import sim
from .vfs import Handle
from .sim import Crash

US = 10 ** 6


class WorldBase:
    UnsupportedOperation = __import__("io").UnsupportedOperation
    Crash = Crash

    def _init_common(self):
        self.uv_loops = []
        self.uv_max_steps = 20000
        self.uv_exhausted = False
        self.uv_hook = None
        self.uv_errors = []               # exceptions that left a pyuv callback
        self.uv_phase = 0
        self.uv_latency = None            # callable(world) -> extra microseconds when waking up late
        self.uv_idle_fn = None
        self.procs = []
        self.signals_sent = []
        self.open_handles = []
        self.crash_at = None
        self.crash_torn = None
        self.op_count = 0
        self.fault_at = None              # the file operation (counted from 0) that fails with fault_error
        self.fault_last = False           # and whether the following ones fail as well
        self.fault_hit = False
        self.fault_n = 0
        self.fault_error = (28, "No space left on device")
        self.fault_kinds = None           # only operations of these kinds
        self.fault_under = None           # only below this directory
        self.ops = []
        self.events = []
        self.on_event = None
        self.locks = sim.Locks(self)
        self.psutil = sim.psutil_module(self)
        self.pyuv = sim.pyuv_module(self)
        self.portalocker = sim.portalocker_module(self)
        self.uuid_fn = None
        self.mounts = []            # directories that are file systems of their own
        self.sleep_fn = None
        self.sleeps = []
        self.stdout = []
        self.pid, self._ppid = 4242, 4241
        self.observations = []
        self.covered = set()
        self.mutating = True
        self.uuid_n = 0

    # ---- clock
    def now_us(self):
        return self._now

    def set_now(self, us):
        """microseconds since local midnight of the base date"""
        self._now = us

    def tick(self, us):
        self._now = self._now + us

    def sleep(self, seconds):
        if seconds < 0:
            raise ValueError("sleep length must be non-negative")
        self.sleeps.append(seconds)
        us = self.floor_int(seconds * US)
        self.tick(us)
        if self.sleep_fn is not None:
            self.sleep_fn(seconds)

    # ---- uv
    def uv_wait(self, due_us):
        if due_us > self._now:
            self._now = due_us
        if self.uv_latency is not None:
            self._now = self._now + self.uv_latency(self)

    def uv_idle(self):
        if self.uv_idle_fn is not None:
            return self.uv_idle_fn(self)
        self.uv_exhausted = True
        return False

    # ---- crash points
    def trace(self, ev):
        self.events.append(ev)
        if self.on_event is not None:
            self.on_event(ev)

    def fault(self, op, path):
        """called before each file operation; it may fail here"""
        if self.fault_at is None or self.fault_kinds is not None and op not in self.fault_kinds or self.fault_under is not None and not path.startswith(self.fault_under):
            return
        i = self.fault_n
        self.fault_n = i + 1
        if self.fault_at == i or self.fault_hit and self.fault_last:
            self.fault_hit = True
            raise OSError(self.fault_error[0], self.fault_error[1], path)

    def mutate(self, op, path):
        """called before each operation that changes the store; the process may die here"""
        if self.crashed:
            raise Crash()
        self.fault(op, path)
        i = self.op_count
        self.op_count = i + 1
        self.ops.append((op, path))
        self.trace(("op", op, path))
        if self.crash_at is not None and self.crash_at == i:
            self._die()

    def before_flush(self, h, data):
        if self.crashed:
            raise Crash()
        self.fault("data", h.name)
        i = self.op_count
        self.op_count = i + 1
        self.ops.append(("data", h.name))
        self.trace(("op", "data", h.name))
        if self.crash_at is not None and self.crash_at == i:
            if self.crash_torn is not None and self.crash_torn:
                half = self.text_half(data)
                if h.kind == "a":
                    self.store.append(h.name, half, h.encoding)
                else:
                    self.store.write_at(h.name, h.pos, half, h.encoding)
            self._die()

    def _die(self):
        self.crash_at = None
        for h in list(self.open_handles):
            h.abandon()
        self.open_handles = []
        self.crashed = True
        raise Crash()

    def file_ops(self, rename, remove):
        pass

    # ---- file system operations used by the os / shutil models
    def device(self, p):
        on = [m for m in self.mounts if p == m or p.startswith(m + "/")]
        return max(on, key=len) if on else ""

    def fs_rename(self, a, b):
        if not self.store.exists(a) and not self.store.isdir(a):
            raise FileNotFoundError(2, "No such file or directory", a)
        if self.mounts and self.device(a) != self.device(b):
            raise OSError(18, "Invalid cross-device link", a)
        self.mutate("rename", b)
        self.store.rename(a, b)

    def fs_remove(self, a):
        if not self.store.exists(a):
            raise FileNotFoundError(2, "No such file or directory", a)
        self.mutate("remove", a)
        self.store.remove(a)

    def fs_copy(self, a, b):
        if not self.store.exists(a):
            raise FileNotFoundError(2, "No such file or directory", a)
        if self.store.isdir(b):
            b = b.rstrip("/") + "/" + a.rsplit("/", 1)[-1]
        self.mutate("truncate", b)
        data = self.store.raw(a)
        self.store.truncate(b)
        self.mutate("data", b)
        self.store.set_raw(b, data)
        return b

    def fs_move(self, a, b):
        if self.store.isdir(b):
            b = b.rstrip("/") + "/" + a.rsplit("/", 1)[-1]
        if self.mounts and self.device(a) != self.device(b):
            self.fs_copy(a, b)
            self.fs_remove(a)
            return b
        self.fs_rename(a, b)
        return b

    def fs_mkdir(self, p, parents=False, exist_ok=False):
        if self.store.isdir(p) or self.store.exists(p):
            if exist_ok and self.store.isdir(p):
                return
            raise FileExistsError(17, "File exists", p)
        par = self.dirname(p)
        if not self.store.isdir(par):
            if not parents:
                raise FileNotFoundError(2, "No such file or directory", p)
            self.fs_mkdir(par, True, True)
        self.mutate("mkdir", p)
        self.store.mkdir(p)

    # ---- ids
    def next_uuid(self):
        if self.uuid_fn is not None:
            return sim.FakeUUID(self.uuid_fn())
        self.uuid_n = self.uuid_n + 1
        return sim.FakeUUID(self.uuid_n * (2 ** 64) + 100000 + self.uuid_n)

    def getpid(self):
        return self.pid

    def getppid(self):
        return self._ppid

    # ---- scenario helpers
    def proc(self, pid, ppid, cmdline, **kw):
        return sim.Proc(self, pid, ppid, cmdline, **kw)

    @property
    def ppid(self):
        return self._ppid

    def raises(self, fn, *a, **k):
        """the exception fn raises (Exception only), or None"""
        try:
            fn(*a, **k)
        except Exception as e:
            return e
        return None

    def attempt(self, fn, *a, **k):
        """(value, exception)"""
        try:
            return fn(*a, **k), None
        except Exception as e:
            return None, e

    def survive(self, fn, *a, **k):
        """run fn; True unless the process died in it"""
        self.crashed = False
        try:
            fn(*a, **k)
            return True
        except Crash:
            return False

    def observe(self, name, value):
        self.observations.append((name, value))

    def cover(self, label):
        self.covered.add(label)


# daylight saving in 2024: POSIX rule, [(first UTC second with the offset, offset in seconds)]
ZONES = {
    "Berlin": ("CET-1CEST,M3.5.0,M10.5.0/3", [(0, 3600), (1711846800, 7200), (1729990800, 3600)]),
    "Auckland": ("NZST-12NZDT,M9.5.0,M4.1.0/3", [(0, 46800), (1712412000, 43200), (1727532000, 46800)]),
    "New York": ("EST5EDT,M3.2.0,M11.1.0", [(0, -18000), (1710054000, -14400), (1730613600, -18000)]),
}
