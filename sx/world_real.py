"""Concrete world: the same scenario API over the unmodified code, run natively (real datetime arithmetic, files,
json, pandas, re, argparse).  Used to replay counterexamples and to validate sampled symbolic paths."""
import builtins
import codecs
import datetime as _dt
import importlib as _il
import importlib.util as _ilu
import io as _io
import json as _json
import math
import os as _os
import posixpath as _pp
import random as _random
import shutil as _sh
import sys as _sys
import tempfile as _tf
import time as _time
import types
import uuid as _uuid

from . import sim
from .vfs import Handle
from .world_base import WorldBase, US
from .sim import Crash

BASE_DATE = (2024, 1, 10)
REPO = _os.environ.get("SX_REPO", "/repo")


class CheckFailed(BaseException):
    def __init__(self, label, detail=""):
        super().__init__(label)
        self.label, self.detail = label, detail


class Pruned(BaseException):
    pass


class Proxy(types.ModuleType):
    """a module with some names replaced"""

    def __init__(self, real, **over):
        types.ModuleType.__init__(self, real.__name__)
        self.__dict__["_real"] = real
        self.__dict__.update(over)

    def __getattr__(self, n):
        return getattr(self.__dict__["_real"], n)


class RealStore:
    def __init__(self, root):
        self.root = root

    def exists(self, p): return _os.path.exists(p)
    def isfile(self, p): return _os.path.isfile(p)
    def isdir(self, p): return _os.path.isdir(p)

    def _guard(self, p):
        if not (p == self.root or p.startswith(self.root + "/")):
            raise PermissionError(1, "write outside the scratch directory", p)

    def truncate(self, p):
        self._guard(p)
        open(p, "wb").close()

    def size(self, p): return _os.path.getsize(p)

    def raw(self, p):
        with open(p, "rb") as f:
            return f.read()

    def set_raw(self, p, d):
        self._guard(p)
        with open(p, "wb") as f:
            f.write(d)

    def mkdir(self, p):
        self._guard(p)
        _os.makedirs(p, exist_ok=True)

    def cut(self, p, n):
        self._guard(p)
        _os.truncate(p, n)

    def rename(self, a, b):
        self._guard(a)
        self._guard(b)
        _os.replace(a, b)

    def remove(self, p):
        self._guard(p)
        _os.unlink(p)

    def length(self, s, enc): return len(s if enc is None else s.encode(enc))

    def append(self, p, s, enc):
        self._guard(p)
        with open(p, "ab") as f:
            f.write(s if enc is None else s.encode(enc))

    def write_at(self, p, pos, s, enc):
        self._guard(p)
        with open(p, "r+b") as f:
            f.seek(pos)
            f.write(s if enc is None else s.encode(enc))

    def read_from(self, p, pos, enc, newline=None, errors=None):
        d = self.raw(p)[pos:]
        if enc is None:
            return d
        t = d.decode(enc, errors or "strict")
        return t.replace("\r\n", "\n").replace("\r", "\n") if newline is None else t

    def advance(self, p, pos, data, enc):
        return pos + len(data if enc is None else data.encode(enc))

    def line_from(self, p, pos, enc, newline=None, errors=None):
        d = self.raw(p)[pos:]
        i = d.find(b"\n")
        d0 = d if i < 0 else d[:i + 1]
        if enc is None:
            return d0, pos + len(d0)
        codecs.getincrementaldecoder(enc)(errors or "strict").decode(d, False)
        if newline is None:
            j = d0.find(b"\r")
            if 0 <= j < len(d0) - 1 and d0[j + 1:j + 2] != b"\n":
                d0 = d0[:j + 1]
        t = d0.decode(enc, errors or "strict")
        if newline is None:
            t = t.replace("\r\n", "\n").replace("\r", "\n")
        return t, pos + len(d0)


class Mods:
    """loads jqtrade from source natively, with environment modules replaced"""

    def __init__(self, world, root, env, bi_over, package="jqtrade"):
        self.w, self.root, self.env, self.package = world, root, env, package
        self.mods = {}
        self.bi = dict(vars(builtins))
        self.bi.update(bi_over)
        self.bi["__import__"] = self._import

    def owns(self, n): return n == self.package or n.startswith(self.package + ".")

    def path_of(self, name):
        p = _os.path.join(self.root, *name.split("."))
        if _os.path.isdir(p):
            return _os.path.join(p, "__init__.py")
        return p + ".py" if _os.path.isfile(p + ".py") else None

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        if name in self.env:
            return self.env[name]
        if not self.owns(name):
            return _il.import_module(name)
        parent = None
        if "." in name:
            parent = self.load(name.rpartition(".")[0])
            if name in self.mods:
                return self.mods[name]
        path = self.path_of(name)
        if path is None:
            raise ModuleNotFoundError("No module named %r" % name, name=name)
        m = types.ModuleType(name)
        m.__file__ = path
        m.__dict__["__builtins__"] = self.bi
        if path.endswith("__init__.py"):
            m.__path__ = [_os.path.dirname(path)]
            m.__package__ = name
        else:
            m.__package__ = name.rpartition(".")[0]
        self.mods[name] = _sys.modules[name] = m
        try:
            src = ""
            if _os.path.exists(path):
                with open(path, encoding="utf-8") as f:
                    src = f.read()
            exec(_compiled(src, path), m.__dict__)
        except BaseException:
            self.mods.pop(name, None)
            _sys.modules.pop(name, None)
            raise
        if parent is not None:
            setattr(parent, name.rpartition(".")[2], m)
        return m

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = (globals or {}).get("__package__") or ""
            for _ in range(level - 1):
                pkg = pkg.rpartition(".")[0]
            name = pkg + ("." + name if name else "")
        if name in self.env or self.owns(name):
            m = self.load(name)
            if fromlist:
                if self.owns(name):
                    for f in fromlist:
                        if f != "*" and not hasattr(m, f) and self.path_of(name + "." + f):
                            self.load(name + "." + f)
                return m
            if "." in name and name in self.env:
                return self.env.get(name.split(".")[0]) or __import__(name)
            return self.load(name.split(".")[0]) if level == 0 else m
        top = name.split(".")[0]
        if top in self.env and not fromlist and "." in name:
            return self.env[top]
        return __import__(name, globals, locals, fromlist, 0)


_codes = {}


def _compiled(src, path):
    k = (path, src)
    if k not in _codes:
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            _codes[k] = compile(src, path, "exec")
    return _codes[k]


class _Meta(type):
    def __instancecheck__(cls, o): return isinstance(o, cls._real)
    def __subclasscheck__(cls, s): return issubclass(s, cls._real)


def datetime_module(w):
    def now(tz=None):
        d = _dt.datetime(*BASE_DATE) + _dt.timedelta(microseconds=w._now)
        return d

    class datetime(_dt.datetime, metaclass=_Meta):
        _real = _dt.datetime

        @classmethod
        def now(cls, tz=None):
            d = now()
            if tz is not None:
                return _dt.datetime.fromtimestamp(w._epoch_us() / US, tz)
            return cls(d.year, d.month, d.day, d.hour, d.minute, d.second, d.microsecond)

        @classmethod
        def today(cls):
            return cls.now()

        @classmethod
        def utcnow(cls):
            d = _dt.datetime(1970, 1, 1) + _dt.timedelta(microseconds=w._epoch_us())
            return cls(d.year, d.month, d.day, d.hour, d.minute, d.second, d.microsecond)

        def date(self):
            return date(self.year, self.month, self.day)

        def __reduce_ex__(self, proto):
            return (_dt.datetime, (self.year, self.month, self.day, self.hour, self.minute, self.second, self.microsecond))

        def __deepcopy__(self, memo):
            return self

        def __copy__(self):
            return self

    class date(_dt.date, metaclass=_Meta):
        _real = _dt.date

        @classmethod
        def today(cls):
            d = now()
            return cls(d.year, d.month, d.day)

        def __deepcopy__(self, memo):
            return self
    m = Proxy(_dt, datetime=datetime, date=date)
    return m


class Collector:
    encoding = "utf-8"

    def __init__(self, w):
        self.w = w

    def write(self, s):
        if not isinstance(s, str):
            raise TypeError
        self.w.stdout.append(s)
        return len(s)

    def flush(self): pass
    def isatty(self): return False
    def fileno(self): raise _io.UnsupportedOperation("fileno")


class Null(Collector):
    def write(self, s): return len(s)


class RealWorld(WorldBase):
    symbolic = False

    def __init__(self, assignment=None, params=None):
        self.assignment = assignment or {}
        self.params = params or {}
        self.names = {}
        self._init_common()
        self.top = _os.path.realpath(_tf.mkdtemp(prefix="sxr-"))
        self.root = self.top + "/w"
        self.store = RealStore(self.top)
        for d in ("w", "w/cwd", "w/home", "tmp"):
            _os.makedirs(self.top + "/" + d)
        self._now = 0
        self.saved = dict(environ=dict(_os.environ), path=list(_sys.path), argv=_sys.argv, cwd=_os.getcwd(),
                          stdout=_sys.stdout, stderr=_sys.stderr, modules=set(_sys.modules))
        _os.environ["HOME"] = self.top + "/w/home"
        self.environ = _os.environ
        self.sys_path = _sys.path
        self.argv = ["jqtrade"]
        _os.chdir(self.top + "/w/cwd")
        self.locale_encoding = "utf-8"
        self.fs_encoding = "utf-8"
        self.set_tz(8 * 3600)
        self.datetime = datetime_module(self)
        self.extra_env = {}
        _sys.stdout = Collector(self)
        _sys.stderr = Null(self)
        _sys.dont_write_bytecode = True
        import logging
        logging.disable(logging.CRITICAL)
        self.modules = None
        self.restart()

    def close(self):
        self._reset_logging()
        self._forget()
        _os.chdir(self.saved["cwd"])
        _os.environ.clear()
        _os.environ.update(self.saved["environ"])
        _time.tzset()
        _sys.path[:] = self.saved["path"]
        _sys.argv = self.saved["argv"]
        _sys.stdout, _sys.stderr = self.saved["stdout"], self.saved["stderr"]
        if self.top.startswith(_tf.gettempdir() + "/sxr-") or "/sxr-" in self.top:
            _sh.rmtree(self.top, ignore_errors=True)

    def _forget(self):
        for n in list(_sys.modules):
            m = _sys.modules[n]
            if n == "jqtrade" or n.startswith("jqtrade.") or (getattr(m, "__file__", None) or "").startswith(self.top):
                del _sys.modules[n]
        _il.invalidate_caches()

    def float_rounding(self, exact=False): pass

    def set_tz(self, seconds):
        self.tz_us, self.zone = seconds * US, None
        a = abs(seconds)
        _os.environ["TZ"] = "XXX%s%d:%02d:%02d" % ("-" if seconds >= 0 else "", a // 3600, a // 60 % 60, a % 60)
        _time.tzset()

    def set_zone(self, name):
        from .world_base import ZONES
        self.zone = ZONES[name][1]
        _os.environ["TZ"] = ZONES[name][0]
        _time.tzset()
        return self.zone

    def restart(self):
        self.crashed = False
        self.uv_loops = []
        self._forget()
        if self.logging_on:
            self.use_logging()
        _sys.argv = self.argv
        self.env = self._environment()
        self.env.update(self.extra_env)
        self.modules = Mods(self, REPO, self.env, dict(open=self._open, print=self._print))

    logging_on = False

    def use_logging(self):
        self.logging_on = True
        self._reset_logging()
        import logging
        logging.disable(logging.NOTSET)

    def _reset_logging(self):
        import logging
        root = logging.getLogger()
        root.setLevel(logging.WARNING)
        for lg in [root] + [x for x in logging.root.manager.loggerDict.values() if isinstance(x, logging.Logger)]:
            for h in list(lg.handlers):
                lg.removeHandler(h)
                if isinstance(h, logging.FileHandler):
                    h.close()
            lg.filters[:] = []
            lg.propagate, lg.disabled = True, False
            if lg is not root:
                lg.setLevel(logging.NOTSET)
        logging.disable(logging.CRITICAL)

    def mod(self, name):
        return self.modules.load(name)

    # ---- inputs
    def _in(self, base, default):
        n = self.names.get(base, 0)
        self.names[base] = n + 1
        return self.assignment.get(base if n == 0 else "%s#%d" % (base, n), default)

    def int(self, name, lo=None, hi=None):
        v = self._in(name, lo if lo is not None else (hi if hi is not None else 0))
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            raise Pruned("input out of range")
        return v

    def bool(self, name): return bool(self._in(name, False))

    def choice(self, name, seq):
        seq = list(seq)
        if len(seq) == 1:
            return seq[0]
        v = self._in(name, 0)
        if not 0 <= v < len(seq):
            raise Pruned("input out of range")
        return seq[v]

    def pick(self, name, lo, hi): return self.choice(name, range(lo, hi + 1))

    def char(self, name, alphabet):
        cs = sorted(set(alphabet))
        if len(cs) == 1:
            return cs[0]
        c = chr(self._in(name, ord(cs[0])))
        if c not in cs:
            raise Pruned("input out of range")
        return c

    def text(self, name, n, alphabet):
        return "".join(self.char("%s[%d]" % (name, k), alphabet) for k in range(n))

    def textv(self, name, lo, hi, alphabet):
        return self.text(name, self.pick(name + ".len", lo, hi), alphabet)

    def price(self, name, lo, hi, den=100):
        v = self._in(name, lo * den)
        if not lo * den <= v <= hi * den:
            raise Pruned("input out of range")
        return v / den

    def digits(self, name, n): return self.text(name, n, "0123456789")

    # ---- logic
    @staticmethod
    def And(*xs): return all(bool(x) for x in xs)
    @staticmethod
    def Or(*xs): return any(bool(x) for x in xs)
    @staticmethod
    def Not(x): return not x
    @staticmethod
    def Implies(a, b): return (not a) or bool(b)
    @staticmethod
    def ite(c, a, b): return a if c else b

    def check(self, cond, label, detail=""):
        if not cond:
            raise CheckFailed(label, detail)

    def assume(self, cond):
        if not cond:
            raise Pruned("assume")

    def conc(self, x): return x
    def conc_bool(self, x): return bool(x)

    def eq(self, a, b):
        """equality of amounts of money / prices (exact in the symbolic world)"""
        if not isinstance(a, (int, float)) or not isinstance(b, (int, float)):
            return a == b
        return math.isclose(a, b, rel_tol=1e-9, abs_tol=1e-9)

    def floor_int(self, x): return int(x)
    def ord(self, c): return ord(c)
    def is_str(self, s): return isinstance(s, str)
    def is_num(self, x): return isinstance(x, (int, float))
    def text_len(self, s): return len(s)
    def text_half(self, s): return s[:len(s) // 2]
    def concat(self, parts): return (b"" if parts and isinstance(parts[0], bytes) else "").join(parts)
    def tostr(self, x): return str(x)

    # ---- files
    def path(self, *parts): return "/".join((self.root,) + parts)
    def dirname(self, p): return _pp.dirname(p)

    def norm(self, p):
        return _os.path.abspath(_os.fspath(p))

    def chdir(self, p):
        self.store._guard(p)
        _os.chdir(p)

    def makedirs(self, p): self.store.mkdir(p)

    def write_file(self, p, text, encoding="utf-8", append=False):
        self.store._guard(p)
        with open(p, "ab" if append else "wb") as f:
            f.write(text.encode(encoding))

    def write_part(self, p, text, start, end, encoding="utf-8"):
        self.store._guard(p)
        with open(p, "ab") as f:
            f.write(text.encode(encoding)[start:end])

    def byte_len(self, text, encoding="utf-8"):
        return len(text.encode(encoding))

    def read_file(self, p, encoding="utf-8"):
        return self.store.read_from(p, 0, encoding, "")

    def exists(self, p): return _os.path.exists(p)

    def _open(self, file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        if isinstance(file, int):
            return open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        p = self.norm(file)
        if not p.startswith(self.top + "/"):
            if set(mode) & set("wax+"):
                raise PermissionError(1, "write outside the scratch directory", p)
            return open(file, mode, buffering, encoding, errors, newline)
        return Handle(self, p, mode, encoding or self.locale_encoding, newline, errors, binary="b" in mode)

    def open(self, *a, **k): return self._open(*a, **k)

    def _print(self, *args, sep=" ", end="\n", file=None, flush=False):
        sep = " " if sep is None else sep
        end = "\n" if end is None else end
        s = sep.join(str(a) for a in args) + end
        (_sys.stdout if file is None else file).write(s)

    def _epoch_us(self):
        d = _dt.datetime(*BASE_DATE, tzinfo=_dt.timezone.utc) - _dt.datetime(1970, 1, 1, tzinfo=_dt.timezone.utc)
        us = d.days * 86400 * US + self._now
        off = self.tz_us
        if self.zone:
            off = self.zone[0][1] * US
            for (_, o), (at, n) in zip(self.zone, self.zone[1:]):
                if us >= (at + max(o, n)) * US:
                    off = n * US
        return us - off

    def _environment(self):
        w = self
        env = {"datetime": self.datetime}
        env["time"] = Proxy(_time, time=lambda: w._epoch_us() / US, time_ns=lambda: w._epoch_us() * 1000,
                            monotonic=lambda: w._now / US + 1000, perf_counter=lambda: w._now / US + 1000,
                            monotonic_ns=lambda: (w._now + 1000 * US) * 1000, sleep=w.sleep,
                            localtime=lambda s=None: _time.localtime(w._epoch_us() / US if s is None else s),
                            gmtime=lambda s=None: _time.gmtime(w._epoch_us() / US if s is None else s),
                            strftime=lambda f, t=None: _time.strftime(f, _time.localtime(w._epoch_us() / US) if t is None else t))

        def listdir(x="."): return sorted(_os.listdir(x))

        def fstat(fd):
            return _os.stat(fd.h.name) if hasattr(fd, "h") else _os.fstat(fd)
        osm = Proxy(_os, mkdir=lambda x, mode=0o777: w.fs_mkdir(w.norm(x)),
                    makedirs=lambda x, mode=0o777, exist_ok=False: w.fs_mkdir(w.norm(x), True, exist_ok),
                    rename=lambda a, b: w.fs_rename(w.norm(a), w.norm(b)), replace=lambda a, b: w.fs_rename(w.norm(a), w.norm(b)),
                    remove=lambda a: w.fs_remove(w.norm(a)), unlink=lambda a: w.fs_remove(w.norm(a)),
                    rmdir=lambda a: (w.store._guard(w.norm(a)), _os.rmdir(a))[1],
                    getpid=w.getpid, getppid=w.getppid, fsync=lambda fd: None, fdatasync=lambda fd: None, fstat=fstat, listdir=listdir,
                    kill=lambda pid, sig: w.signals_sent.append((pid, {9: "KILL", 15: "TERM"}.get(int(sig), int(sig)))),
                    killpg=lambda pid, sig: w.signals_sent.append((pid, int(sig))),
                    system=lambda c: 1, urandom=lambda n: w.next_uuid().bytes[:n], environ=_os.environ)
        env["os"] = osm
        env["os.path"] = _os.path
        env["shutil"] = Proxy(_sh, move=lambda a, b, *x: w.fs_move(w.norm(a), w.norm(b)),
                              copy=lambda a, b, **k: w.fs_copy(w.norm(a), w.norm(b)),
                              copy2=lambda a, b, **k: w.fs_copy(w.norm(a), w.norm(b)),
                              copyfile=lambda a, b, **k: w.fs_copy(w.norm(a), w.norm(b)),
                              rmtree=lambda p, **k: (w.store._guard(w.norm(p)), _sh.rmtree(p))[1])

        def dump(obj, fp, **kw):
            try:
                t = _json.dumps(obj, **kw)
            except (TypeError, ValueError):
                fp.write("{")
                raise
            fp.write(t)
        env["json"] = Proxy(_json, dump=dump)

        class U(sim.FakeUUID):
            pass
        env["uuid"] = Proxy(_uuid, uuid4=lambda: w.next_uuid(), uuid1=lambda *a: w.next_uuid())

        def randint(a, b): return a + w.next_uuid().int % (b - a + 1)
        r = Proxy(_random, randint=randint, randrange=lambda a, b=None: randint(a, b - 1) if b is not None else randint(0, a - 1),
                  getrandbits=lambda n: w.next_uuid().int % (2 ** n), seed=lambda *a: None)
        r.__dict__["SystemRandom"] = lambda: r
        env["random"] = r
        import secrets
        env["secrets"] = Proxy(secrets, randbits=lambda n: w.next_uuid().int % (2 ** n), randbelow=lambda n: randint(0, n - 1))
        env["pyuv"], env["psutil"], env["portalocker"] = self.pyuv, self.psutil, self.portalocker
        env["portalocker.exceptions"] = self.portalocker.exceptions
        env["io"] = Proxy(_io, open=self._open)
        env["io"].__dict__["StringIO"] = _io.StringIO
        w.tmp_n = 0

        class NTF(Handle):
            def __init__(self2, mode="w+b", buffering=-1, encoding=None, newline=None, suffix="", prefix="tmp", dir=None, delete=True, **k):
                w.tmp_n += 1
                Handle.__init__(self2, w, w.norm((dir or w.top + "/tmp") + "/" + (prefix or "tmp") + "%08d" % w.tmp_n + (suffix or "")), mode, encoding,
                                binary="b" in mode)
        env["tempfile"] = Proxy(_tf, NamedTemporaryFile=NTF, gettempdir=lambda: w.top + "/tmp")

        def import_module(name, package=None):
            if name in env or w.modules.owns(name):
                return w.modules.load(name)
            return _il.import_module(name, package)
        env["importlib"] = Proxy(_il, import_module=import_module)
        env["importlib"].__dict__["util"] = _ilu
        env["importlib.util"] = _ilu
        return env
