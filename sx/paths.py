"""pathlib over the modelled files (the part that programs like this one use)"""
import types

from .strings import SymStr, is_str


def module(w, os_module):
    P = os_module.path

    class PurePosixPath:
        def __init__(self, *parts):
            parts = [x.__fspath__() if hasattr(x, "__fspath__") else x for x in parts]
            for x in parts:
                if not is_str(x):
                    raise TypeError("argument should be a str or an os.PathLike object where __fspath__ returns a str, not %r" % type(x).__name__)
            s = P.join(*parts) if parts else "."
            self._s = self._clean(s)

        @staticmethod
        def _clean(s):
            if isinstance(s, SymStr):
                return s
            head = "/" if s.startswith("/") else ""
            return head + "/".join(x for x in s.split("/") if x not in ("", ".")) or "."

        def _new(self, *a):
            return type(self)(*a)

        def __fspath__(self): return self._s
        def __str__(self): return self._s
        def __repr__(self): return "PosixPath(%r)" % (self._s,)
        def __truediv__(self, o): return self._new(self._s, o)
        def __rtruediv__(self, o): return self._new(o, self._s)
        def joinpath(self, *o): return self._new(self._s, *o)
        def __eq__(self, o): return isinstance(o, PurePosixPath) and self._s == o._s
        def __lt__(self, o): return self._s < o._s
        def __hash__(self): return hash(self._s)
        @property
        def name(self): return "" if self._is(".") else P.basename(self._s)
        def _is(self, t): return isinstance(self._s, str) and self._s == t
        @property
        def suffix(self): return P.splitext(self.name)[1]
        @property
        def stem(self): return P.splitext(self.name)[0]
        @property
        def parent(self): return self._new(P.dirname(self._s) or ".")
        @property
        def parts(self):
            s = self._s
            return (("/",) if s.startswith("/") else ()) + tuple(x for x in s.split("/") if x)
        @property
        def parents(self):
            out, p = [], self
            while p.parent != p:
                p = p.parent
                out.append(p)
            return out
        def as_posix(self): return self._s
        def is_absolute(self): return P.isabs(self._s)
        def with_name(self, n): return self.parent / n
        def with_suffix(self, x): return self.parent / (self.stem + x)
        def with_stem(self, x): return self.parent / (x + self.suffix)

    class Path(PurePosixPath):
        def exists(self): return P.exists(self._s)
        def is_file(self): return P.isfile(self._s)
        def is_dir(self): return P.isdir(self._s)
        def is_symlink(self): return False
        def stat(self): return os_module.stat(self._s)
        def open(self, mode="r", buffering=-1, encoding=None, errors=None, newline=None):
            return w.open(self._s, mode, buffering, encoding, errors, newline)
        def read_text(self, encoding=None, errors=None):
            with self.open("r", encoding=encoding, errors=errors) as f:
                return f.read()
        def read_bytes(self):
            with self.open("rb") as f:
                return f.read()
        def write_text(self, data, encoding=None, errors=None, newline=None):
            with self.open("w", encoding=encoding, errors=errors, newline=newline) as f:
                return f.write(data)
        def write_bytes(self, data):
            with self.open("wb") as f:
                return f.write(data)
        def mkdir(self, mode=0o777, parents=False, exist_ok=False):
            if parents:
                return os_module.makedirs(self._s, mode, exist_ok)
            if exist_ok and self.is_dir():
                return None
            return os_module.mkdir(self._s, mode)
        def rename(self, target):
            os_module.rename(self._s, target)
            return Path(target)
        def replace(self, target):
            os_module.replace(self._s, target)
            return Path(target)
        def unlink(self, missing_ok=False):
            try:
                os_module.unlink(self._s)
            except FileNotFoundError:
                if not missing_ok:
                    raise
        def touch(self, mode=0o666, exist_ok=True):
            self.open("a").close()
        def expanduser(self): return Path(P.expanduser(self._s))
        def absolute(self): return Path(P.join(os_module.getcwd(), self._s))
        def resolve(self, strict=False): return Path(P.realpath(self._s))
        def iterdir(self): return iter([self / n for n in os_module.listdir(self._s)])
        @classmethod
        def cwd(cls): return cls(os_module.getcwd())
        @classmethod
        def home(cls): return cls(P.expanduser("~"))

    PurePosixPath.__name__ = "PurePosixPath"
    m = types.ModuleType("pathlib")
    m.Path = m.PosixPath = Path
    m.PurePath = m.PurePosixPath = PurePosixPath
    return m
