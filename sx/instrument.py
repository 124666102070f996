"""AST instrumentation of the code under test and the loader that executes it symbolically.

The instrumented program is the repository's current source with every construct that C-level CPython would
evaluate on concrete data only (calls of builtins, f-strings, `in`, subscripts, `%`, dict/set displays) routed
through hooks that also handle symbolic values.  Everything else is executed by CPython itself."""
import ast
import builtins
import os
import sys
import types

from . import core
from . import strings as S
from .core import Sym, SymBool, SymInt, SymFloat, Unsupported
from .symbytes import SymBytes
from .strings import SymStr, sx_str, sx_repr, sx_format, mk, is_str, lift, conc_str
from .containers import SxDict, SxSet, SxDefaultDict, pairs, scan, _MISSING, _hashable_native, ById

LEAVE = {"super", "locals", "globals", "vars", "dir", "eval"}


class Tr(ast.NodeTransformer):
    def __init__(self, modname, record):
        self.mod = modname
        self.record = record
        self.stack = []

    @staticmethod
    def name(n):
        return ast.Name(id=n, ctx=ast.Load())

    def call(self, fn, *args):
        return ast.Call(func=self.name(fn), args=list(args), keywords=[])

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and (n.func.id in LEAVE or n.func.id.startswith("__sx_")):
            return n
        return ast.copy_location(ast.Call(func=self.name("__sx_call__"), args=[n.func] + n.args, keywords=n.keywords), n)

    def visit_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                val = self.visit(v.value)
                spec = self.visit(v.format_spec) if v.format_spec else ast.Constant(value="")
                parts.append(ast.Tuple(elts=[val, ast.Constant(value=v.conversion), spec], ctx=ast.Load()))
        return ast.copy_location(self.call("__sx_fstr__", *parts), n)

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1:
            if isinstance(n.ops[0], ast.In):
                return ast.copy_location(self.call("__sx_in__", n.left, n.comparators[0]), n)
            if isinstance(n.ops[0], ast.NotIn):
                return ast.copy_location(ast.UnaryOp(op=ast.Not(), operand=self.call("__sx_in__", n.left, n.comparators[0])), n)
            if isinstance(n.ops[0], (ast.Is, ast.IsNot)) and not (isinstance(n.comparators[0], ast.Constant) and n.comparators[0].value is None):
                c = self.call("__sx_is__", n.left, n.comparators[0])
                if isinstance(n.ops[0], ast.IsNot):
                    c = ast.UnaryOp(op=ast.Not(), operand=c)
                return ast.copy_location(c, n)
        return n

    def visit_Subscript(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load):
            sl = n.slice
            if isinstance(sl, ast.Slice):
                none = ast.Constant(value=None)
                sl = self.call("__sx_slice__", sl.lower or none, sl.upper or none, sl.step or none)
            elif isinstance(sl, ast.Tuple) and any(isinstance(e, ast.Slice) for e in sl.elts):
                return n
            return ast.copy_location(self.call("__sx_getitem__", n.value, sl), n)
        return n

    def visit_AnnAssign(self, n):
        if n.value is None:
            return None if not isinstance(n.target, ast.Name) else ast.copy_location(ast.Pass(), n)
        n.target = self.visit(n.target)
        n.value = self.visit(n.value)
        return ast.copy_location(ast.Assign(targets=[n.target], value=n.value), n)

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod):
            return ast.copy_location(self.call("__sx_mod__", n.left, n.right), n)
        return n

    def visit_Dict(self, n):
        self.generic_visit(n)
        elts = []
        for k, v in zip(n.keys, n.values):
            elts.append(ast.Tuple(elts=[k if k is not None else ast.Constant(value=None), v,
                                        ast.Constant(value=k is None)], ctx=ast.Load()))
        return ast.copy_location(self.call("__sx_dict__", *elts), n)

    def visit_Set(self, n):
        self.generic_visit(n)
        return ast.copy_location(self.call("__sx_set__", ast.List(elts=n.elts, ctx=ast.Load())), n)

    def visit_DictComp(self, n):
        self.generic_visit(n)
        g = ast.ListComp(elt=ast.Tuple(elts=[n.key, n.value], ctx=ast.Load()), generators=n.generators)
        return ast.copy_location(self.call("__sx_dictcomp__", g), n)

    def visit_SetComp(self, n):
        self.generic_visit(n)
        g = ast.ListComp(elt=n.elt, generators=n.generators)
        return ast.copy_location(self.call("__sx_set__", g), n)

    def _fn(self, n):
        self.stack.append(n.name)
        # annotations are irrelevant and may use unsupported syntax
        n.returns = None
        a = n.args
        for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
            x.annotation = None
        self.generic_visit(n)
        q = ".".join(self.stack)
        self.stack.pop()
        mark = ast.Expr(value=self.call("__sx_fn__", ast.Constant(value="%s:%s" % (self.mod, q))))
        at = 1 if n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) else 0
        n.body.insert(at, mark)
        return n

    visit_FunctionDef = _fn
    visit_AsyncFunctionDef = _fn

    def visit_ClassDef(self, n):
        self.stack.append(n.name)
        self.generic_visit(n)
        self.stack.pop()
        return n

    def _loop(self, n):
        self.generic_visit(n)
        n.body.insert(0, ast.Expr(value=self.call("__sx_step__")))
        return n

    visit_While = _loop
    visit_For = _loop


# -------------------------------------------------------------------------------------------- hooks
def sx_fn(name):
    core.ENG.stats.functions.add(name)
    core.ENG.step()


def sx_step():
    core.ENG.step()


def sx_fstr(*parts):
    out = []
    for p in parts:
        if isinstance(p, str):
            out.append(p)
            continue
        v, conv, spec = p
        if conv == 114 or conv == 97:
            v = sx_repr(v)
        elif conv == 115:
            v = sx_str(v)
        out.append(sx_format(v, spec))
    if all(type(p) is str for p in out):
        return "".join(out)
    return mk([i for p in out for i in S.items_of(p)])


def sx_in(a, b):
    if isinstance(b, SymStr):
        return b.contains(a)
    if isinstance(b, str):
        return SymStr(tuple(b)).contains(a) if isinstance(a, SymStr) else a in b
    if isinstance(b, (SxDict, SxSet)):
        return a in b
    if isinstance(b, (list, tuple)):
        conds = []
        for x in b:
            r = True if x is a else (x == a)
            if isinstance(r, SymBool):
                conds.append(r)
            elif r is True or (r is not NotImplemented and bool(r)):
                return True
        return core.Or(*conds) if conds else False
    if isinstance(b, (dict, types.MappingProxyType, set, frozenset, type({}.keys()))):
        if _hashable_native(a):
            return a in b
        return scan_iter(b, a) is not _MISSING
    if isinstance(b, type({}.values())):
        return sx_in(a, list(b))
    return a in b


def scan_iter(b, a):
    for q in list(b):
        if q is a or bool(q == a):
            return q
    return _MISSING


def sx_is(a, b):
    if isinstance(b, bool) and isinstance(a, SymBool):
        return a == b
    if isinstance(a, bool) and isinstance(b, SymBool):
        return b == a
    if isinstance(b, TypeProxy) or isinstance(a, TypeProxy):
        return a == b
    return a is b


def sx_slice(a, b, c):
    return slice(*(core.concretize(x) if isinstance(x, Sym) else x for x in (a, b, c)))


def sx_getitem(o, k):
    if isinstance(o, str) and isinstance(k, Sym):
        return o[core.concretize(k)]
    if isinstance(k, Sym) or (isinstance(k, tuple) and not _hashable_native(k)):
        if isinstance(o, SxDict):
            return o[k]
        if isinstance(o, (dict, types.MappingProxyType)):
            q = scan_iter(o, k)
            if q is _MISSING:
                if hasattr(type(o), "__missing__"):
                    return o[k]
                raise KeyError(k)
            return o[q]
        if isinstance(k, SymInt) and isinstance(o, (list, tuple, range)):
            return o[core.concretize(k)]
        if isinstance(o, type) and isinstance(k, SymStr):      # Enum["name"]
            return o[conc_str(k)]
    return o[k]


def sx_mod(a, b):
    if isinstance(a, str):
        if type(a) is str and not isinstance(b, (tuple, Sym)) and not core.has_sym(b):
            return a % b
        return S.sx_percent(a, b)
    return a % b


def sx_dict(*elts):
    d = SxDict()
    for k, v, star in elts:
        if star:
            d.update(v)
        else:
            d[k] = v
    return d


# -------------------------------------------------------------------------------------------- types
class TypeProxy:
    """type(x) of a symbolic value: compares equal to / behaves like the modelled builtin type."""
    def __init__(self, t):
        self.t = t
        self.__name__ = t.__name__

    def __eq__(self, o):
        return o is self.t or (isinstance(o, TypeProxy) and o.t is self.t)

    def __hash__(self):
        return hash(self.t)

    def __call__(self, *a, **k):
        return sx_call(self.t, *a, **k)


TYPE_OF = {SymInt: int, SymFloat: float, SymBool: bool, SymStr: str}


def modelled_type(x):
    return TYPE_OF.get(type(x))


def sx_isinstance(x, t):
    m = modelled_type(x)
    if m is None:
        if isinstance(t, tuple):
            return any(sx_isinstance(x, u) for u in t)
        if isinstance(t, TypeProxy):
            t = t.t
        return isinstance(x, t)
    if isinstance(t, tuple):
        return any(sx_isinstance(x, u) for u in t)
    if isinstance(t, types.UnionType):
        return any(sx_isinstance(x, u) for u in t.__args__)
    if isinstance(t, TypeProxy):
        t = t.t
    import numbers
    from collections import abc
    if m is str and t in (abc.Iterable, abc.Sequence, abc.Sized, abc.Collection):
        return True
    try:
        return issubclass(m, t)
    except TypeError:
        return isinstance(x, t)


def sx_type(*a, **k):
    if len(a) == 1:
        x = a[0]
        m = modelled_type(x)
        if m is not None:
            return TypeProxy(m)
        t = type(x)
        if t is SxDict:
            return dict
        if t is SxSet:
            return set
        return t
    if len(a) == 3 and isinstance(a[0], SymStr):
        a = (conc_str(a[0]),) + a[1:]
    if len(a) == 3:
        a = (a[0], a[1], dict(pairs(a[2])))
    return type(*a, **k)


def sx_int(x=0, base=None):
    if base is not None:
        return S.str_to_int(x, base) if isinstance(x, SymStr) else int(x, base)
    if isinstance(x, SymInt):
        return x
    if isinstance(x, SymBool):
        return x._int()
    if isinstance(x, SymFloat):
        return x.trunc()
    if isinstance(x, SymStr):
        return S.str_to_int(x)
    return int(x)


def sx_float(x=0.0):
    if isinstance(x, SymFloat):
        return x
    if isinstance(x, SymInt):
        return SymFloat._rnd(x._fl().t)
    if isinstance(x, SymBool):
        return x._int()._fl()
    if isinstance(x, SymStr):
        return S.str_to_float(x)
    return float(x)


def sx_strcall(x="", *a, **k):
    if a or k:
        return x.decode(*a, **k) if isinstance(x, SymBytes) else str(x, *a, **k)
    return sx_str(x)


def sx_bytescall(*a, **k):
    x = a[0] if a else k.get("source")
    if isinstance(x, SymStr) and (len(a) > 1 or "encoding" in k):
        return x.encode(*a[1:], **{n: v for n, v in k.items() if n != "source"})
    if isinstance(x, SymBytes):
        return x
    return bytes(*a, **k)


def sx_len(x):
    return len(x)


def sx_bool(x=False):
    return bool(x)


def sx_ord(c):
    if isinstance(c, SymStr):
        it = c.chars()
        if len(it) != 1:
            raise TypeError("ord() expected a character")
        return it[0] if False else (SymInt(it[0].t) if not isinstance(it[0], str) else ord(it[0]))
    return ord(c)


def sx_chr(n):
    if isinstance(n, SymInt):
        return chr(core.concretize(n, 256))
    return chr(n)


def sx_map(f, *its):
    return (sx_call(f, *xs) for xs in zip(*its))


def sx_filter(f, it):
    if f is None:
        return (x for x in it if x)
    return (x for x in it if sx_call(f, x))


def keyfn(key):
    return None if key is None else (lambda x: sx_call(key, x))


def sx_sorted(it, *, key=None, reverse=False):
    return sorted(it, key=keyfn(key), reverse=reverse)


def sx_min(*a, **k):
    if "key" in k:
        k["key"] = keyfn(k["key"])
    return min(*a, **k)


def sx_max(*a, **k):
    if "key" in k:
        k["key"] = keyfn(k["key"])
    return max(*a, **k)


def sx_getattr(o, n, *d):
    if isinstance(n, SymStr):
        names = list(getattr(o, "__dict__", {})) + [a for a in dir(type(o)) if a not in getattr(o, "__dict__", {})]
        q = scan_iter(names, n)
        if q is _MISSING:
            if d:
                return d[0]
            raise AttributeError(n)
        if isinstance(q, SymStr):
            with ById():
                return o.__dict__[q]
        n = q
    return getattr(o, n, *d)


def sx_hasattr(o, n):
    if isinstance(n, SymStr):
        try:
            sx_getattr(o, n)
            return True
        except AttributeError:
            return False
    return hasattr(o, n)


def sx_setattr(o, n, v):
    if isinstance(n, SymStr):
        q = scan_iter(list(o.__dict__), n)
        if q is _MISSING:
            with ById():
                o.__dict__[n] = v
            return
        if isinstance(q, SymStr):
            with ById():
                o.__dict__[q] = v
            return
        n = q
    setattr(o, n, v)


def sx_hash(x):
    if isinstance(x, Sym):
        if isinstance(x, SymStr):
            return hash(conc_str(x))
        return hash(core.concretize(x))
    return hash(x)


def sx_round(number, ndigits=None):
    x, n = number, ndigits
    if isinstance(x, (SymInt, SymFloat)):
        return x.__round__(n)
    return round(x, n) if n is not None else round(x)


def sx_divmod(a, b):
    return a // b, a % b


def sx_reversed(x):
    if isinstance(x, SymStr):
        return iter(list(x)[::-1])
    return reversed(x)


def sx_all(it):
    for x in it:
        if not x:
            return False
    return True


def sx_dictcall(*a, **k):
    return SxDict(*a, **k)


def sx_setcall(*a):
    return SxSet(*a)


def sx_frozenset(*a):
    s = SxSet(*a)
    return frozenset(s) if not s._sym else s


def sx_print(*args, **kw):
    return WORLD_HOOKS["print"](*args, **kw)


def sx_open(*args, **kw):
    return WORLD_HOOKS["open"](*args, **kw)


def sx_exec(*args, **kw):
    return WORLD_HOOKS["exec"](*args, **kw)


class Compiled:
    """compile(text, name, "exec"): the text is instrumented when it is executed"""

    def __init__(self, source):
        self.source = source


def sx_compile(source, filename, mode, *a, **k):
    if mode == "exec" and is_str(source):
        return Compiled(source)
    return compile(source, filename, mode, *a, **k)


WORLD_HOOKS = {}

INTERCEPT = {int: sx_int, float: sx_float, str: sx_strcall, bytes: sx_bytescall, isinstance: sx_isinstance, type: sx_type, repr: sx_repr,
             ascii: sx_repr, format: sx_format, map: sx_map, filter: sx_filter, sorted: sx_sorted, min: sx_min,
             max: sx_max, getattr: sx_getattr, setattr: sx_setattr, hasattr: sx_hasattr, hash: sx_hash, ord: sx_ord,
             chr: sx_chr, round: sx_round, divmod: sx_divmod, dict: sx_dictcall, set: sx_setcall, frozenset: sx_frozenset,
             print: sx_print, open: sx_open, exec: sx_exec, compile: sx_compile, reversed: sx_reversed, bool: sx_bool}
INTERCEPT_BY_ID = {id(k): (k, v) for k, v in INTERCEPT.items()}

NATIVE_OK = {min, max, sum, any, all, abs, enumerate, zip, iter, next, list, tuple, callable, id, issubclass, range, len,
             object, slice, property, staticmethod, classmethod}
NATIVE_OK_IDS = {id(x): x for x in NATIVE_OK}
STR_METHODS = {m for m in dir(str) if callable(getattr(str, m))}


def register(f, g):
    INTERCEPT_BY_ID[id(f)] = (f, g)


def has_symstr(xs):
    for x in xs:
        if isinstance(x, SymStr):
            return True
        if isinstance(x, (tuple, list)) and any(isinstance(y, SymStr) for y in x):
            return True
    return False


def conc_any(x):
    if isinstance(x, SymStr):
        return conc_str(x)
    if isinstance(x, (SymInt, SymBool)):
        return core.concretize(x)
    if isinstance(x, SymFloat):
        raise core.ENG.stop(Unsupported("symbolic float passed to native code"))
    if isinstance(x, (list, tuple)) and core.has_sym(x):
        return type(x)(conc_any(y) for y in x)
    return x


def sx_call(f, /, *args, **kw):
    e = core.ENG
    if e.control is not None:
        raise e.control
    h = INTERCEPT_BY_ID.get(id(f))
    if h is not None and h[0] is f:
        return h[1](*args, **kw)
    t = type(f)
    if t is types.BuiltinFunctionType:           # also builtin bound methods
        s = f.__self__
        if isinstance(s, types.ModuleType) or s is None:
            if id(f) in NATIVE_OK_IDS or getattr(s, "__name__", "") in ("_heapq", "_bisect", "_functools", "itertools", "_operator", "_collections", "_weakref"):
                return f(*args, **kw)
            if any(isinstance(a, Sym) or (isinstance(a, (list, tuple)) and core.has_sym(a, 1)) for a in args) or any(isinstance(v, Sym) for v in kw.values()):
                return f(*[conc_any(a) for a in args], **{k: conc_any(v) for k, v in kw.items()})
            return f(*args, **kw)
        if isinstance(s, str):
            n = f.__name__
            if n == "join":
                return S.sx_join(s, args[0])
            if n == "format":
                return S.sx_format_method(s, args, kw) if core.has_sym(args) or core.has_sym(kw) or True else f(*args, **kw)
            if n == "format_map":
                return S.sx_format_method(s, (), args[0])
            if has_symstr(args) or has_symstr(kw.values()):
                return getattr(SymStr(tuple(s)), n)(*args, **kw)
            if any(isinstance(a, Sym) for a in args):
                return f(*[conc_any(a) for a in args], **kw)
            return f(*args, **kw)
        if isinstance(s, dict) and not isinstance(s, SxDict):
            return real_dict_method(s, f, args, kw)
        if isinstance(s, types.MappingProxyType) and args and not _hashable_native(args[0]):
            if f.__name__ == "get":
                q = scan_iter(s, args[0])
                return (args[1] if len(args) > 1 else None) if q is _MISSING else s[q]
        if isinstance(s, list) and f.__name__ == "sort" and kw.get("key") is not None:
            kw = dict(kw, key=keyfn(kw["key"]))
        return f(*args, **kw)
    if t is type:
        if id(f) in NATIVE_OK_IDS:
            return f(*args, **kw)
        if f.__module__ == "collections":
            if f.__name__ == "OrderedDict":
                return SxDict(*args, **kw)
            if f.__name__ == "defaultdict":
                return SxDefaultDict(*args, **kw)
    elif t is types.MethodDescriptorType and f.__objclass__ is str:          # str.strip(x)
        return sx_call(getattr(args[0], f.__name__), *args[1:], **kw)
    elif isinstance(f, type) and issubclass(f, BaseException):
        return f(*args, **kw)
    elif isinstance(f, type(_ENUM)) and args and isinstance(args[0], SymStr):
        for mem in f:
            if bool(mem.value == args[0]):
                return mem
        raise ValueError("%r is not a valid %s" % (args[0], f.__name__))
    return f(*args, **kw)


import enum as _enum                                              # noqa: E402


class _E0(_enum.Enum):
    pass


_ENUM = _E0


def real_dict_method(d, f, args, kw):
    n = f.__name__
    if n == "update":
        for x in args:
            for k, v in (pairs(x) if hasattr(x, "keys") else list(x)):
                real_dict_set(d, k, v)
        for k, v in kw.items():
            d[k] = v
        return None
    if args and not _hashable_native(args[0]):
        q = scan_iter(d, args[0])
        if n == "get":
            return (args[1] if len(args) > 1 else None) if q is _MISSING else _rd(d, q)
        if n == "pop":
            if q is _MISSING:
                if len(args) > 1:
                    return args[1]
                raise KeyError(args[0])
            v = _rd(d, q)
            with ById():
                del d[q]
            return v
        if n == "setdefault":
            if q is _MISSING:
                real_dict_set(d, args[0], args[1] if len(args) > 1 else None)
                return args[1] if len(args) > 1 else None
            return _rd(d, q)
        if n == "__setitem__":
            return real_dict_set(d, *args)
    return f(*args, **kw)


def _rd(d, q):
    with ById():
        return d[q]


def real_dict_set(d, k, v):
    if _hashable_native(k):
        d[k] = v
        return
    q = scan_iter(d, k)
    with ById():
        d[k if q is _MISSING else q] = v


HOOKS = {"__sx_call__": sx_call, "__sx_fstr__": sx_fstr, "__sx_in__": sx_in, "__sx_is__": sx_is,
         "__sx_slice__": sx_slice, "__sx_getitem__": sx_getitem, "__sx_mod__": sx_mod, "__sx_dict__": sx_dict,
         "__sx_dictcomp__": SxDict, "__sx_set__": SxSet, "__sx_fn__": sx_fn, "__sx_step__": sx_step}


# -------------------------------------------------------------------------------------------- loader
_code_cache = {}


def compile_source(src, filename, modname, record=True):
    key = (filename, hash(src), modname)
    c = _code_cache.get(key)
    if c is None:
        tree = ast.parse(src, filename)
        tree = Tr(modname, record).visit(tree)
        ast.fix_missing_locations(tree)
        c = _code_cache[key] = compile(tree, filename, "exec", dont_inherit=True)
    return c


class Modules:
    """A fresh, instrumented set of jqtrade modules with environment modules replaced by models."""

    def __init__(self, root, env, package="jqtrade", extra=None):
        self.root = root
        self.env = env                      # name -> module object used instead of the real one
        self.package = package
        self.mods = {}
        self.extra = extra or {}            # name -> path of further source files to instrument
        self.bi = dict(vars(builtins))
        self.bi.update(HOOKS)
        self.bi["__import__"] = self._import

    user_import = None

    def path_of(self, name):
        if name in self.extra:
            return self.extra[name]
        if name != self.package and not name.startswith(self.package + "."):
            return None
        p = os.path.join(self.root, *name.split("."))
        if os.path.isdir(p):
            return os.path.join(p, "__init__.py")
        if os.path.isfile(p + ".py"):
            return p + ".py"
        return None

    def owns(self, name):
        return name in self.extra or name == self.package or name.startswith(self.package + ".")

    def load(self, name):
        m = self.mods.get(name)
        if m is not None:
            return m
        if name in self.env:
            return self.env[name]
        if not self.owns(name):
            __import__(name)
            return sys.modules[name]
        parent = None
        if "." in name and name not in self.extra:
            parent = self.load(name.rpartition(".")[0])
            if name in self.mods:
                return self.mods[name]
        path = self.path_of(name)
        if path is None:
            raise ModuleNotFoundError("No module named %r" % name, name=name)
        m = types.ModuleType(name)
        m.__file__ = path
        m.__dict__["__builtins__"] = self.bi
        if path.endswith("__init__.py"):
            m.__path__ = [os.path.dirname(path)]
            m.__package__ = name
        else:
            m.__package__ = name.rpartition(".")[0]
        self.mods[name] = m
        try:
            self._exec(m, path, name)
        except BaseException:
            self.mods.pop(name, None)
            raise
        if parent is not None:
            setattr(parent, name.rpartition(".")[2], m)
        return m

    def _exec(self, m, path, name):
        if os.path.exists(path):
            src = _read(path)
        else:
            src = ""
        exec(compile_source(src, path, name), m.__dict__)

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = (globals or {}).get("__package__") or ""
            for _ in range(level - 1):
                pkg = pkg.rpartition(".")[0]
            name = pkg + ("." + name if name else "")
        if name in self.env or self.owns(name):
            m = self.load(name)
            if fromlist:
                if self.owns(name):
                    for f in fromlist:
                        if f == "*":
                            continue
                        if not hasattr(m, f) and self.path_of(name + "." + f):
                            self.load(name + "." + f)
                return m
            if name in self.env and "." in name:
                return self.env.get(name.split(".")[0]) or __import__(name)
            return self.load(name.split(".")[0]) if level == 0 else m
        top = name.split(".")[0]
        if top in self.env and not fromlist and "." in name:
            return self.env[top]
        if self.user_import is not None and top not in self.env:
            m = self.user_import(top)
            if m is not None:
                return m
        return __import__(name, globals, locals, fromlist, 0)


_src_cache = {}


def _read(path):
    s = _src_cache.get(path)
    if s is None:
        with open(path, encoding="utf-8") as f:
            s = _src_cache[path] = f.read()
    return s
