"""Symbolic world: models of the environment modules and the instrumented program."""
import builtins
import copy as _copy
import json as _json
import math as _math
import os as _os
import posixpath as _pp
import re
import sys as _sys
import types

import z3

from . import core, regex, sim, instrument as I, model_datetime as MD
from . import strings as S
from .core import SymInt, SymFloat, SymBool, Sym, Unsupported, concretize
from .strings import SymStr, Ch, IntTok, Tok, Opaque, mk, is_str, conc_str, sx_str, items_of, lift
from .containers import SxDict, pairs
from . import paths
from .vfs import Handle
from .symbytes import SymBytes, mkbytes, bytes_items, encode_items, decode_items, newlines
from .world_base import WorldBase, US
from .sim import Crash

BASE_DATE = (2024, 1, 10)
REPO = _os.environ.get("SX_REPO", "/repo")


# ------------------------------------------------------------------------------------------ store
class JsonTok(Opaque):
    """text produced by json.dumps of a (symbolic) object"""
    __slots__ = ()


class Store:
    def __init__(self):
        self.files = {}
        self.dirs = {"/"}

    def exists(self, p): return p in self.files or p in self.dirs
    def isfile(self, p): return p in self.files
    def isdir(self, p): return p in self.dirs
    def truncate(self, p): self.files[p] = []
    def size(self, p): return len(self.files[p])
    def raw(self, p): return list(self.files[p])
    def set_raw(self, p, d): self.files[p] = list(d)
    def mkdir(self, p): self.dirs.add(p)
    def cut(self, p, n): self.files[p] = self.files[p][:n]

    def rename(self, a, b):
        if a in self.files:
            self.files[b] = self.files.pop(a)
        else:
            for d in list(self.dirs):
                if d == a or d.startswith(a + "/"):
                    self.dirs.discard(d)
                    self.dirs.add(b + d[len(a):])
            for f in list(self.files):
                if f.startswith(a + "/"):
                    self.files[b + f[len(a):]] = self.files.pop(f)

    def remove(self, p): del self.files[p]

    # every stored item is one byte (a latin-1 character, an ASCII-only symbolic character) or one token of ASCII text
    @staticmethod
    def enc(s, encoding):
        if encoding is None:
            return bytes_items(s)
        return encode_items(s, encoding)

    def length(self, s, encoding): return len(self.enc(s, encoding))

    def append(self, p, s, encoding): self.files[p].extend(self.enc(s, encoding))

    def write_at(self, p, pos, s, encoding):
        f = self.files[p]
        d = self.enc(s, encoding)
        f.extend("\0" * (pos - len(f)))
        f[pos:pos + len(d)] = d

    def read_from(self, p, pos, encoding, newline=None, errors=None):
        rest = self.files[p][pos:]
        if encoding is None:
            return mkbytes(rest)
        units, tail = decode_items(rest, encoding, errors)
        if tail is not None:
            raise tail
        return mk([i for i, n in newlines(units, newline)])

    def advance(self, p, pos, data, encoding): return pos + len(self.enc(data, encoding))

    def line_from(self, p, pos, encoding, newline=None, errors=None):
        rest = self.files[p][pos:]
        if encoding is None:
            units, tail = [(i, 1) for i in rest], None
        else:
            # decoding happens per chunk: an undecodable character anywhere ahead makes the read fail
            units, tail = decode_items(rest, encoding, errors)
            units = newlines(units, newline)
        out, n, ended = [], 0, False
        for it, k in units:
            out.append(it)
            n += k
            if isinstance(it, str):
                ended = it == "\n"
            elif isinstance(it, Ch) and 10 in it.dom:
                ended = bool(S.item_eq(it, "\n"))
            if ended:
                break
        if not ended and tail is not None:
            raise tail
        return (mkbytes(out) if encoding is None else mk(out)), pos + n


# ------------------------------------------------------------------------------------------ world
class SymWorld(WorldBase):
    symbolic = True

    def __init__(self, engine, params=None):
        self.eng = engine
        self.params = params or {}
        self._init_common()
        self.store = Store()
        self.root = "/w"
        self.store.mkdir("/w")
        self.store.mkdir("/tmp")
        self.store.mkdir("/w/cwd")
        self.store.mkdir("/w/home")
        self._now = 0
        self.tz_us = 8 * 3600 * US
        self.environ = SxDict()
        self.sys_path = ["/usr/lib/python3"]
        self.argv = ["jqtrade"]
        self.fs_encoding = "utf-8"
        self.locale_encoding = "utf-8"
        c = MD.CLOCK
        c.now_us = self.now_us
        c.tz_us = self.tz_us
        c.rule = None
        import datetime
        self.base_ord = datetime.date(*BASE_DATE).toordinal()
        c.base_ord = self.base_ord
        self.datetime = MD.make_module()
        I.WORLD_HOOKS.update(print=self._print, open=self._open, exec=self._exec)
        self.extra_env = {}
        self.restart()

    def float_rounding(self, exact=False):
        """model the rounding of double arithmetic on this path (over-approximation, or exactly) instead of exact reals"""
        self.eng.rounding = "exact" if exact else True

    def set_tz(self, seconds):
        self.tz_us = seconds * US
        MD.CLOCK.tz_us = self.tz_us
        MD.CLOCK.rule = None

    def set_zone(self, name):
        """local time with daylight saving (instants of 2024 only); the transitions in seconds since the epoch"""
        from .world_base import ZONES
        MD.CLOCK.rule = [(a * US, o * US) for a, o in ZONES[name][1]]
        return ZONES[name][1]

    def restart(self):
        """fresh interpreter: new module objects, same files"""
        self.crashed = False
        self.uv_loops = []
        self.sysmod = self._sys_module()
        self.env = self._environment()
        self.env.update(self.extra_env)
        extra = {}
        for n in ("argparse", "posixpath", "genericpath", "shlex", "getopt"):
            f = __import__(n).__file__
            extra[n] = f
        if self.logging_on:
            del self.env["logging"]
            extra["logging"] = _os.path.join(_os.path.dirname(_os.path.abspath(__file__)), "model_logging.py")
        self.modules = I.Modules(REPO, self.env, extra=extra)
        self.modules.user_import = self.find_user_module
        for n in self.env:
            self.sysmod.modules[n] = self.env[n]
        self.sysmod.modules["jqtrade"] = types.ModuleType("jqtrade")

    logging_on = False

    def use_logging(self):
        """log messages are written (otherwise they are dropped); call first"""
        self.logging_on = True
        self.restart()

    def mod(self, name):
        return self.modules.load(name)

    # ---- inputs
    def int(self, name, lo=None, hi=None):
        return self.eng.input_int(name, lo, hi)

    def bool(self, name):
        return self.eng.input_bool(name)

    def choice(self, name, seq):
        """one of the alternatives, decided by the solver (forks)"""
        seq = list(seq)
        if len(seq) == 1:
            return seq[0]
        return seq[concretize(self.eng.input_int(name, 0, len(seq) - 1), limit=len(seq) + 1)]

    def pick(self, name, lo, hi):
        """concrete int in lo..hi (forks)"""
        return self.choice(name, range(lo, hi + 1))

    def char(self, name, alphabet):
        dom = frozenset(ord(c) for c in alphabet)
        if len(dom) == 1:
            return chr(next(iter(dom)))
        return SymStr((Ch(self.eng.input_char(name, dom), dom),))

    def text(self, name, n, alphabet):
        return mk([i for k in range(n) for i in items_of(self.char("%s[%d]" % (name, k), alphabet))])

    def textv(self, name, lo, hi, alphabet):
        return self.text(name, self.pick(name + ".len", lo, hi), alphabet)

    def price(self, name, lo, hi, den=100):
        """decimal price k/den for every k with lo <= k/den <= hi"""
        t = self.eng.input_int(name, lo * den, hi * den)
        return SymFloat.q(t, den) if isinstance(t, SymInt) else t / den

    def digits(self, name, n):
        return self.text(name, n, "0123456789")

    # ---- logic
    And = staticmethod(core.And)
    Or = staticmethod(core.Or)
    Not = staticmethod(core.sx_not)
    Implies = staticmethod(core.Implies)
    ite = staticmethod(core.ite)

    def check(self, cond, label, detail=""):
        self.eng.check(cond, label, detail)

    def assume(self, cond):
        self.eng.assume(cond)

    def conc(self, x):
        return conc_str(x) if isinstance(x, SymStr) else concretize(x, 600)

    def conc_bool(self, x):
        return bool(x)

    def floor_int(self, x):
        if isinstance(x, SymFloat):
            return x.trunc()
        if isinstance(x, SymInt):
            return x
        return int(x)

    def eq(self, a, b):
        """equality of amounts of money / prices"""
        return a == b

    def ord(self, c): return I.sx_ord(c)
    def is_str(self, s): return is_str(s)
    def is_num(self, x): return isinstance(x, (int, float, SymInt, SymFloat))

    def text_len(self, s):
        return len(s) if isinstance(s, (bytes, SymBytes)) else len(items_of(s))

    def text_half(self, s):
        if isinstance(s, (bytes, SymBytes)):
            return s[:len(s) // 2]
        it = items_of(s)
        return mk(it[:len(it) // 2])

    def concat(self, parts):
        if parts and isinstance(parts[0], (bytes, SymBytes)):
            return mkbytes([i for p in parts for i in bytes_items(p)])
        return mk([i for p in parts for i in items_of(p)])

    def tostr(self, x): return sx_str(x)

    # ---- files
    def path(self, *parts):
        return "/".join(("/w",) + parts)

    def dirname(self, p):
        return _pp.dirname(p)

    cwd_dir = "/w/cwd"

    def chdir(self, p):
        """the process is in this directory from now on"""
        self.cwd_dir = self.norm(p)

    def norm(self, p):
        if isinstance(p, SymStr):
            p = conc_str(p)
        if hasattr(p, "__fspath__"):
            p = p.__fspath__()
        if not isinstance(p, str):
            raise TypeError("expected str, bytes or os.PathLike object, not %s" % type(p).__name__)
        if not p.startswith("/"):
            p = self.cwd_dir + "/" + p
        return _pp.normpath(p)

    def makedirs(self, p):
        cur = ""
        for part in p.strip("/").split("/"):
            cur += "/" + part
            self.store.mkdir(cur)

    def write_file(self, p, text, encoding="utf-8", append=False):
        """the outside world (broker, user) writes a file; not a crash point"""
        if not append or not self.store.isfile(p):
            self.store.truncate(p)
        self.store.append(p, text, encoding)

    def write_part(self, p, text, start, end, encoding="utf-8"):
        """append only the bytes start:end of the encoded text"""
        if not self.store.isfile(p):
            self.store.truncate(p)
        self.store.append(p, mkbytes(encode_items(text, encoding)[start:end]), None)

    def byte_len(self, text, encoding="utf-8"):
        return len(encode_items(text, encoding))

    def read_file(self, p, encoding="utf-8"):
        return self.store.read_from(p, 0, encoding, "")

    def exists(self, p): return self.store.exists(p)

    def _open(self, file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        p = self.norm(file)
        return Handle(self, p, mode, encoding or self.locale_encoding, newline, errors, binary="b" in mode)

    def open(self, *a, **k):
        return self._open(*a, **k)

    def _print(self, *args, sep=None, end=None, file=None, flush=False):
        sep = " " if sep is None else sep
        end = "\n" if end is None else end
        out = []
        for k, a in enumerate(args):
            if k:
                out.append(sep)
            out.append(sx_str(a))
        out.append(end)
        if file is None:
            file = self.sysmod.stdout
        for o in out:
            file.write(o)
        if flush:
            file.flush()

    def _exec(self, src, g=None, loc=None):
        if isinstance(src, I.Compiled):
            src = src.source
        if isinstance(src, str):
            ns = g if g is not None else {}
            ns.setdefault("__builtins__", self.modules.bi)
            ns["__builtins__"] = self.modules.bi
            code = I.compile_source(src, "<exec>", "exec")
            exec(code, ns, loc if loc is not None else ns)
            return
        if isinstance(src, types.CodeType):
            exec(src, g, loc)
            return
        # symbolic source text: lines NAME = <decimal integer>
        target = loc if loc is not None else g
        for line in src.split("\n"):
            if len(items_of(line)) == 0:
                continue
            name, eq, val = lift(line).partition(" = ")
            if not eq:
                raise core.ENG.stop(Unsupported("exec of symbolic text"))
            I.real_dict_set(target, name, S.str_to_int(lift(val))) if not isinstance(target, SxDict) else target.__setitem__(name, S.str_to_int(lift(val)))

    # ---- module models
    def _sys_module(self):
        w = self
        m = types.ModuleType("sys")

        class Out:
            encoding = "utf-8"

            def write(self, s):
                if not is_str(s):
                    raise TypeError("write() argument must be str")
                w.stdout.append(s)
                return len(items_of(s))

            def flush(self): pass
            def isatty(self): return False
            def fileno(self): return 1

        class SysExit(SystemExit):
            pass
        m.stdout = m.__stdout__ = Out()
        m.stderr = m.__stderr__ = type("Err", (Out,), {"write": lambda s, t: len(items_of(t))})()
        m.path = self.sys_path
        m.argv = self.argv
        m.modules = {}
        m.platform = "linux"
        m.version_info = _sys.version_info
        m.version = _sys.version
        m.executable = "/usr/bin/python3"
        m.maxsize = _sys.maxsize
        m.byteorder = _sys.byteorder
        m.getfilesystemencoding = lambda: w.fs_encoding
        m.getdefaultencoding = lambda: "utf-8"
        m.exc_info = _sys.exc_info
        m.intern = lambda s: s

        def _exit(code=None):
            raise SystemExit(code)
        m.exit = _exit
        return m

    def _environment(self):
        w = self
        env = {"datetime": self.datetime, "re": regex, "sys": self.sysmod}

        t = types.ModuleType("time")

        def _time():
            return SymFloat.q(w._epoch_us(), US)
        t.time = _time
        t.time_ns = lambda: w._epoch_us() * 1000
        t.monotonic = t.perf_counter = lambda: SymFloat.q(w._now, US) + 1000
        t.monotonic_ns = lambda: (w._now + 1000 * US) * 1000
        t.sleep = self.sleep
        t.localtime = lambda s=None: MD.datetime.fromtimestamp(_time() if s is None else s).timetuple()
        t.strftime = lambda f, tt=None: (MD.datetime.now() if tt is None else tt._dt).strftime(f)

        def mktime(tt):
            d = tt._dt
            us = d.replace(microsecond=0).timestamp()
            return us
        t.mktime = mktime
        t.tzset = lambda: None
        env["time"] = t

        cal = types.ModuleType("calendar")
        import calendar as _cal
        for n in dir(_cal):
            if not n.startswith("_"):
                setattr(cal, n, getattr(_cal, n))

        def timegm(tt):
            d = tt._dt
            return (d.ord - MD.EPOCH) * 86400 + d.usd // US
        cal.timegm = timegm
        env["calendar"] = cal

        env["os"] = self._os_module()
        env["os.path"] = env["os"].path
        env["pathlib"] = paths.module(self, env["os"])
        env["posixpath"] = None
        del env["posixpath"]

        sh = types.ModuleType("shutil")
        sh.move = lambda a, b, *x: w.fs_move(w.norm(a), w.norm(b))
        sh.copy = sh.copy2 = sh.copyfile = lambda a, b, **k: w.fs_copy(w.norm(a), w.norm(b))
        sh.get_terminal_size = lambda fallback=(80, 24): _os.terminal_size((80, 24))
        sh.rmtree = lambda p, **k: self._rmtree(p)
        env["shutil"] = sh

        env["json"] = self._json_module()

        u = types.ModuleType("uuid")
        u.uuid4 = u.uuid1 = lambda: w.next_uuid()
        u.UUID = sim.FakeUUID
        env["uuid"] = u
        r = types.ModuleType("random")

        def randint(a, b):
            return a + w.next_uuid().int % (b - a + 1)
        r.randint, r.randrange = randint, (lambda a, b=None: randint(a, b - 1) if b is not None else randint(0, a - 1))
        r.getrandbits = lambda n: w.next_uuid().int % (2 ** n)
        r.SystemRandom = lambda: r
        r.seed = lambda *a: None
        env["random"] = r
        sec = types.ModuleType("secrets")
        sec.randbits = r.getrandbits
        sec.randbelow = lambda n: randint(0, n - 1)
        env["secrets"] = sec

        env["pyuv"] = self.pyuv
        env["psutil"] = self.psutil
        env["portalocker"] = self.portalocker
        env["portalocker.exceptions"] = self.portalocker.exceptions
        env["logging"] = _logging_module()
        env["pandas"] = PandasProxy(self)
        env["pandas.errors"] = PandasErrors()
        env["importlib"] = self._importlib_module()
        env["importlib.util"] = env["importlib"].util
        env["gettext"] = _gettext()
        io = types.ModuleType("io")
        import io as _io
        io.StringIO = SxStringIO
        io.open = self._open
        io.UnsupportedOperation = _io.UnsupportedOperation
        io.SEEK_SET, io.SEEK_CUR, io.SEEK_END = 0, 1, 2
        io.TextIOWrapper = _io.TextIOWrapper
        env["io"] = io
        tf = types.ModuleType("tempfile")

        class NTF(Handle):
            def __init__(self2, mode="w+b", buffering=-1, encoding=None, newline=None, suffix="", prefix="tmp", dir=None, delete=True, **k):
                w.tmp_n = getattr(w, "tmp_n", 0) + 1
                Handle.__init__(self2, w, w.norm((dir or "/tmp") + "/" + (prefix or "tmp") + "%08d" % w.tmp_n + (suffix or "")), mode, encoding)
        tf.NamedTemporaryFile = NTF
        tf.gettempdir = lambda: "/tmp"
        env["tempfile"] = tf
        return env

    def _rmtree(self, p):
        p = self.norm(p)
        for f in list(self.store.files):
            if f.startswith(p + "/"):
                self.fs_remove(f)
        self.store.dirs = {d for d in self.store.dirs if d != p and not d.startswith(p + "/")}

    def _epoch_us(self):
        us = (self.base_ord - MD.EPOCH) * MD.DAY + self._now
        return us - MD.CLOCK.off_local(us)

    def _os_module(self):
        w = self
        m = types.ModuleType("os")
        p = types.ModuleType("posixpath")
        sympp = {}

        def wrap(name):
            real = getattr(_pp, name)

            def f(*a, **k):
                if core.has_sym(a):
                    if "m" not in sympp:
                        sympp["m"] = w.modules.load("posixpath")
                    return getattr(sympp["m"], name)(*a, **k)
                return real(*a, **k)
            return f
        for n in ("join", "split", "splitext", "basename", "dirname", "normpath", "isabs", "splitdrive", "commonprefix",
                  "commonpath", "relpath", "normcase"):
            setattr(p, n, wrap(n))

        def abspath(x):
            if isinstance(x, SymStr):
                return p.normpath(p.join(w.cwd_dir, x))
            return w.norm(x)

        def expanduser(x):
            if isinstance(x, SymStr):
                if not bool(x.startswith("~")):
                    return x
                x = conc_str(x)
            return "/w/home" + x[1:] if x == "~" or x.startswith("~/") else x
        p.abspath, p.expanduser = abspath, expanduser
        p.realpath = lambda x, **k: abspath(x)

        def expandvars(x):
            if isinstance(x, SymStr):
                x = conc_str(x)

            def value(m):
                n = m.group(1).strip("{}")
                return conc_str(w.environ[n]) if n in w.environ else m.group(0)
            return re.sub(r"\$(\w+|\{[^}]*\})", value, x)
        p.expandvars = expandvars
        p.exists = lambda x: w.store.exists(w.norm(x))
        p.lexists = p.exists
        p.isfile = lambda x: w.store.isfile(w.norm(x))
        p.isdir = lambda x: w.store.isdir(w.norm(x))
        p.islink = lambda x: False

        def getsize(x):
            x = w.norm(x)
            if not w.store.isfile(x):
                raise FileNotFoundError(2, "No such file or directory", x)
            return w.store.size(x)
        p.getsize = getsize
        p.sep, p.altsep, p.pardir, p.curdir, p.pathsep, p.extsep = "/", None, "..", ".", ":", "."
        p.fspath = lambda x: x.__fspath__() if hasattr(x, "__fspath__") else x
        p.samefile = lambda a, b: w.norm(a) == w.norm(b)
        m.path = p
        m.sep, m.altsep, m.pardir, m.curdir, m.pathsep, m.extsep, m.linesep, m.name = "/", None, "..", ".", ":", ".", "\n", "posix"
        m.SEEK_SET, m.SEEK_CUR, m.SEEK_END = 0, 1, 2
        m.environ = self.environ
        m.getenv = lambda k, d=None: w.environ.get(k, d)
        m.putenv = lambda k, v: w.environ.__setitem__(k, v)
        m.getpid, m.getppid = w.getpid, w.getppid
        m.getcwd = lambda: w.cwd_dir
        m.chdir = w.chdir
        m.fspath = lambda x: x.__fspath__() if hasattr(x, "__fspath__") else x
        m.PathLike = _os.PathLike
        m.fsync = lambda fd: None
        m.fdatasync = lambda fd: None
        m.sync = lambda: None

        def stat(x):
            if isinstance(x, int):
                h = x.h
                return types.SimpleNamespace(st_size=w.store.size(h.name), st_mode=0o100644)
            x = w.norm(x)
            if not w.store.exists(x):
                raise FileNotFoundError(2, "No such file or directory", x)
            return types.SimpleNamespace(st_size=w.store.size(x) if w.store.isfile(x) else 0, st_mode=0o100644 if w.store.isfile(x) else 0o40755)
        m.stat = m.lstat = m.fstat = stat
        m.mkdir = lambda x, mode=0o777: w.fs_mkdir(w.norm(x))
        m.makedirs = lambda x, mode=0o777, exist_ok=False: w.fs_mkdir(w.norm(x), True, exist_ok)
        m.rename = m.replace = lambda a, b: w.fs_rename(w.norm(a), w.norm(b))
        m.remove = m.unlink = lambda a: w.fs_remove(w.norm(a))

        def listdir(x="."):
            x = w.norm(x)
            if not w.store.isdir(x):
                raise FileNotFoundError(2, "No such file or directory", x)
            return sorted({q[len(x) + 1:].split("/")[0] for q in list(w.store.files) + list(w.store.dirs) if q.startswith(x.rstrip("/") + "/")})
        m.listdir = listdir
        m.urandom = lambda n: w.next_uuid().bytes[:n]
        m.kill = lambda pid, sig: w.signals_sent.append((pid, {9: "KILL", 15: "TERM"}.get(int(sig), int(sig))))
        m.strerror = _os.strerror
        m.terminal_size = _os.terminal_size
        m.error = OSError
        m.access = lambda x, mode: w.store.exists(w.norm(x))
        m.R_OK, m.W_OK, m.X_OK, m.F_OK = 4, 2, 1, 0
        return m

    def _json_module(self):
        m = types.ModuleType("json")

        class JSONDecodeError(ValueError):
            pass

        def norm(o, default, depth=0):
            if depth > 40:
                raise RecursionError
            if o is None or isinstance(o, (bool, int, float, str)) or isinstance(o, Sym):
                if isinstance(o, (int, float, str)) and not isinstance(o, bool):
                    return o if type(o) in (int, float, str) else (o.value if hasattr(o, "value") else o)
                return o
            if isinstance(o, dict):
                r = SxDict()
                for k, v in pairs(o):
                    if isinstance(k, bool):
                        k = "true" if k else "false"
                    elif k is None:
                        k = "null"
                    elif isinstance(k, (int, float)) or (isinstance(k, Sym) and not isinstance(k, SymStr)):
                        k = sx_str(k)
                    elif not is_str(k):
                        raise TypeError("keys must be str, int, float, bool or None, not %s" % type(k).__name__)
                    r[k] = norm(v, default, depth + 1)
                return r
            if isinstance(o, (list, tuple)):
                return [norm(v, default, depth + 1) for v in o]
            if default is not None:
                return norm(I.sx_call(default, o), default, depth + 1)
            raise TypeError("Object of type %s is not JSON serializable" % type(o).__name__)

        def dumps(obj, *, default=None, **kw):
            return SymStr((JsonTok(norm(obj, default)),))

        def dump(obj, fp, *, default=None, **kw):
            # the real encoder writes piece by piece and may fail half way
            try:
                t = dumps(obj, default=default)
            except (TypeError, ValueError):
                fp.write("{")
                raise
            fp.write(t)

        def fresh(o):
            if isinstance(o, dict):
                r = SxDict()
                for k, v in pairs(o):
                    r[k] = fresh(v)
                return r
            if isinstance(o, list):
                return [fresh(v) for v in o]
            return o

        def loads(s, **kw):
            if isinstance(s, SymStr):
                it = s.strip()
                it = it.items if isinstance(it, SymStr) else it
                if len(it) == 1 and isinstance(it[0], JsonTok):
                    return fresh(it[0].v)
                if any(isinstance(i, JsonTok) for i in it):
                    raise JSONDecodeError("Extra data")
                s = conc_str(s)
            try:
                return fresh(_json.loads(s, **kw))
            except _json.JSONDecodeError as e:
                raise JSONDecodeError(*e.args)

        def load(fp, **kw):
            return loads(fp.read(), **kw)
        m.dumps, m.dump, m.loads, m.load, m.JSONDecodeError = dumps, dump, loads, load, JSONDecodeError
        m.decoder = types.SimpleNamespace(JSONDecodeError=JSONDecodeError)
        return m

    def _importlib_module(self):
        w = self
        m = types.ModuleType("importlib")
        u = types.ModuleType("importlib.util")

        def import_module(name, package=None):
            if w.modules.owns(name):
                return w.modules.load(name)
            hit = w.find_user_module(name)
            if hit is not None:
                return hit
            return w.modules.load(name)
        m.import_module = import_module
        m.reload = lambda mod: mod
        m.invalidate_caches = lambda: None

        class Spec:
            def __init__(self, name, path):
                self.name, self.origin = name, path
                self.loader = self
                self.submodule_search_locations = None

            def exec_module(self, mod):
                w.run_user_file(self.origin, mod)

            def load_module(self, name=None):
                mod = module_from_spec(self)
                self.exec_module(mod)
                return mod

            def create_module(self, spec):
                return None

        def spec_from_file_location(name, location=None, *, loader=None, submodule_search_locations=None):
            return Spec(name, w.norm(location if location is not None else loader.path))

        def module_from_spec(spec):
            mod = types.ModuleType(conc_str(spec.name))
            mod.__file__ = spec.origin
            mod.__spec__ = spec
            mod.__loader__ = spec.loader
            mod.__package__ = ""
            return mod
        u.spec_from_file_location, u.module_from_spec = spec_from_file_location, module_from_spec
        u.find_spec = lambda name, package=None: None
        u.spec_from_loader = lambda name, loader, **k: Spec(name, w.norm(loader.path))
        m.util = u
        mach = types.ModuleType("importlib.machinery")

        class SourceFileLoader(Spec):
            def __init__(self, name, path):
                Spec.__init__(self, name, w.norm(path))
                self.path = path
        mach.SourceFileLoader = SourceFileLoader
        m.machinery = mach
        rp = types.ModuleType("runpy")
        return m

    # ---- user modules by file (Loader)
    def find_user_module(self, name):
        """import machinery over the store: already imported, else first hit on sys.path"""
        if isinstance(name, SymStr):
            name = conc_str(name)
        loaded = self.sysmod.modules
        if name in loaded:
            return loaded[name]
        parts = name.split(".")
        if len(parts) > 1:
            return None
        for d in list(self.sys_path):
            d = conc_str(d) if isinstance(d, SymStr) else d
            f = _pp.normpath((d if d.startswith("/") else self.cwd_dir + "/" + d) + "/" + name + ".py")
            if self.store.isfile(f):
                mod = types.ModuleType(name)
                mod.__file__ = f
                mod.__package__ = ""
                loaded[name] = mod
                self.run_user_file(f, mod)
                return mod
        return None

    def run_user_file(self, path, mod):
        if not self.store.isfile(path):
            raise FileNotFoundError(2, "No such file or directory", path)
        src = conc_str(mk(self.store.dec(self.store.files[path], "utf-8"))) if any(not isinstance(i, str) for i in self.store.files[path]) else "".join(self.store.files[path])
        mod.__dict__["__builtins__"] = self.modules.bi
        exec(I.compile_source(src, path, mod.__name__), mod.__dict__)


class SxStringIO:
    def __init__(self, init="", newline="\n"):
        self.parts = [init] if items_of(init) else []

    def write(self, s):
        self.parts.append(s)
        return len(items_of(s))

    def getvalue(self): return mk([i for p in self.parts for i in items_of(p)])
    def flush(self): pass
    def close(self): pass
    def __enter__(self): return self
    def __exit__(self, *a): return False


def _gettext():
    m = types.ModuleType("gettext")
    m.gettext = lambda s: s
    m.ngettext = lambda a, b, n: a if n == 1 else b
    return m


def _logging_module():
    m = types.ModuleType("logging")

    class Logger:
        def __init__(self, name="root"):
            self.name, self.handlers, self.level = name, [], 0
            self.propagate = True

        def _n(self, *a, **k): pass
        debug = info = warning = warn = error = exception = critical = log = _n
        def getChild(self, n): return Logger(n)
        def addHandler(self, h): self.handlers.append(h)
        def removeHandler(self, h): pass
        def setLevel(self, x): pass
        def isEnabledFor(self, x): return True
        def addFilter(self, f): pass

    class Handler:
        def __init__(self, *a, **k): pass
        def setFormatter(self, f): pass
        def setLevel(self, x): pass
        def addFilter(self, f): pass

    class Formatter:
        def __init__(self, *a, **k): pass

    class Filter:
        def __init__(self, *a, **k): pass
    roots = {}
    m.getLogger = lambda name=None: roots.setdefault(name, Logger(name))
    m.Logger, m.Handler, m.StreamHandler, m.FileHandler, m.NullHandler = Logger, Handler, type("StreamHandler", (Handler,), {}), type("FileHandler", (Handler,), {}), type("NullHandler", (Handler,), {})
    m.Formatter, m.Filter = Formatter, Filter
    m.DEBUG, m.INFO, m.WARNING, m.ERROR, m.CRITICAL = 10, 20, 30, 40, 50
    m.basicConfig = lambda **k: None
    m.disable = lambda *a: None
    for n in ("debug", "info", "warning", "error", "exception", "critical"):
        setattr(m, n, lambda *a, **k: None)
    return m


# ------------------------------------------------------------------------------------------ pandas
def _real_pandas():
    if "/opt/venv/lib/python3.12/site-packages" not in _sys.path:
        _sys.path.append("/opt/venv/lib/python3.12/site-packages")
    import pandas
    return pandas


class PandasErrors(types.ModuleType):
    def __init__(self):
        types.ModuleType.__init__(self, "pandas.errors")

    def __getattr__(self, n):
        _real_pandas()
        import pandas.errors as e
        return getattr(e, n)


class PandasProxy(types.ModuleType):
    """real pandas data structures over symbolic cells; only read_csv (file access and parsing) is a model"""

    def __init__(self, world):
        types.ModuleType.__init__(self, "pandas")
        self._w = world

    def __getattr__(self, n):
        if n == "errors":
            return PandasErrors()
        return getattr(_real_pandas(), n)

    def read_csv(self, path, sep=",", dtype=None, encoding=None, header="infer", names=None, usecols=None, index_col=None,
                 skiprows=None, skip_blank_lines=True, na_filter=True, keep_default_na=True, engine=None, **kw):
        if kw:
            raise core.ENG.stop(Unsupported("read_csv options %s" % sorted(kw)))
        pd = _real_pandas()
        import numpy as np
        w = self._w
        with w._open(path, "r", encoding=encoding or "utf-8") as f:
            lines = []
            while True:
                l = f.readline()
                if not items_of(l):
                    break
                lines.append(lift(l).rstrip("\r\n"))
        lines = [l for l in lines if items_of(l)]
        if not lines:
            raise PandasErrors().EmptyDataError("No columns to parse from file")
        cols = [conc_str(c) for c in lift(lines[0]).split(sep)]
        rows = []
        for l in lines[1:]:
            cells = lift(l).split(sep)
            if len(cells) > len(cols):
                raise PandasErrors().ParserError("Error tokenizing data")
            rows.append(cells + [""] * (len(cols) - len(cells)))
        data = {}
        for j, c in enumerate(cols):
            want = dtype.get(c) if isinstance(dtype, dict) else dtype
            if want is not None and c not in (dtype or {}) and isinstance(dtype, dict):
                want = None
            data[c] = column([r[j] for r in rows], want, np, keep_default_na)
        df = pd.DataFrame({c: pd.Series(v, dtype=object) for c, v in data.items()}, columns=cols)
        if usecols is not None:
            df = df[list(usecols)]
        return df


NA = {"", "#N/A", "#N/A N/A", "#NA", "-1.#IND", "-1.#QNAN", "-NaN", "-nan", "1.#IND", "1.#QNAN", "<NA>", "N/A", "NA", "NULL", "NaN", "None", "n/a", "nan", "null"}


def column(cells, want, np, keep_na):
    nan = float("nan")
    out = np.empty(len(cells), dtype=object)
    txt = []
    for c in cells:
        if isinstance(c, str) and c in NA:
            txt.append(None)
        else:
            txt.append(c)
    if want is str or want == "str" or want == "object" or want is object:
        for i, c in enumerate(txt):
            out[i] = nan if c is None else c
        return out
    vals = []
    kind = "int"
    for c in txt:
        if c is None:
            vals.append(None)
            continue
        try:
            vals.append(I.sx_int(c))
            continue
        except ValueError:
            pass
        try:
            vals.append(I.sx_float(c))
            if kind == "int":
                kind = "float"
        except ValueError:
            kind = "str"
            break
    if want in (int, "int") and (kind != "int" or any(v is None for v in vals)):
        raise ValueError("Integer column has NA values")
    if kind == "str":
        for i, c in enumerate(txt):
            out[i] = nan if c is None else c
        return out
    if want in (float, "float", "float64") or kind == "float" or any(v is None for v in vals):
        for i, v in enumerate(vals):
            out[i] = nan if v is None else I.sx_float(v)
        return out
    for i, v in enumerate(vals):
        out[i] = v
    return out


for _n, _f in (("floor", lambda x: x.__floor__() if isinstance(x, Sym) else _math.floor(x)),
               ("ceil", lambda x: x.__ceil__() if isinstance(x, Sym) else _math.ceil(x)),
               ("trunc", lambda x: x.__trunc__() if isinstance(x, Sym) else _math.trunc(x)),
               ("fabs", lambda x: abs(x)),
               ("isnan", lambda x: False if isinstance(x, Sym) else _math.isnan(x)),
               ("isinf", lambda x: False if isinstance(x, Sym) else _math.isinf(x)),
               ("isfinite", lambda x: True if isinstance(x, Sym) else _math.isfinite(x)),
               ("modf", lambda x: (x - x.__trunc__(), x.__trunc__() * 1.0) if isinstance(x, Sym) else _math.modf(x))):
    I.register(getattr(_math, _n), _f)
