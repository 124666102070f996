"""dict / set that look symbolic keys up by solver-decided equality instead of by hash."""
from collections import OrderedDict

from . import core
from .core import Sym


def _hashable_native(k):
    if isinstance(k, Sym):
        return False
    if isinstance(k, tuple):
        return all(_hashable_native(x) for x in k)
    return not getattr(type(k), "_sx_model", False) or not k._sx_has_sym()


def keys_equal(a, b):
    if a is b:
        return True
    r = a == b
    return bool(r)


def scan(d, k):
    """stored key equal to k, or None-marker."""
    for q in list(dict.keys(d) if isinstance(d, dict) else d.keys()):
        if keys_equal(q, k):
            return q
    return _MISSING


_MISSING = object()


class ById:
    def __enter__(self):
        self.old = core.set_hash_by_id(True)

    def __exit__(self, *a):
        core.set_hash_by_id(self.old)


class SxDict(dict):
    __slots__ = ("_symn",)

    def __init__(self, *a, **k):
        dict.__init__(self)
        self._symn = 0
        self.update(*a, **k)

    def _find(self, k):
        if _hashable_native(k):
            if dict.__contains__(self, k):
                return k
            if not self._symn:
                return _MISSING
            for q in list(dict.keys(self)):
                if not _hashable_native(q) and keys_equal(q, k):
                    return q
            return _MISSING
        return scan(self, k)

    def _get(self, q):
        if _hashable_native(q):
            return dict.__getitem__(self, q)
        with ById():
            return dict.__getitem__(self, q)

    def __contains__(self, k):
        return self._find(k) is not _MISSING

    def __getitem__(self, k):
        q = self._find(k)
        if q is _MISSING:
            m = getattr(type(self), "__missing__", None)
            if m is not None:
                return m(self, k)
            raise KeyError(k)
        return self._get(q)

    def get(self, k, default=None):
        q = self._find(k)
        return default if q is _MISSING else self._get(q)

    def __setitem__(self, k, v):
        q = self._find(k)
        if q is not _MISSING:
            k = q
        if _hashable_native(k):
            dict.__setitem__(self, k, v)
        else:
            with ById():
                if q is _MISSING:
                    self._symn += 1
                dict.__setitem__(self, k, v)

    def __delitem__(self, k):
        q = self._find(k)
        if q is _MISSING:
            raise KeyError(k)
        if _hashable_native(q):
            dict.__delitem__(self, q)
        else:
            with ById():
                dict.__delitem__(self, q)
                self._symn -= 1

    def pop(self, k, *d):
        q = self._find(k)
        if q is _MISSING:
            if d:
                return d[0]
            raise KeyError(k)
        v = self._get(q)
        del self[q]
        return v

    def popitem(self):
        k = list(dict.keys(self))[-1] if dict.__len__(self) else None
        if k is None and not dict.__len__(self):
            raise KeyError("popitem(): dictionary is empty")
        return k, self.pop(k)

    def setdefault(self, k, d=None):
        q = self._find(k)
        if q is _MISSING:
            self[k] = d
            return d
        return self._get(q)

    def update(self, *a, **kw):
        for x in a:
            if hasattr(x, "keys"):
                for k, v in list(pairs(x)):
                    self[k] = v
            else:
                for k, v in x:
                    self[k] = v
        for k, v in kw.items():
            self[k] = v

    def copy(self):
        return SxDict(self)

    __copy__ = copy

    def clear(self):
        dict.clear(self)
        self._symn = 0

    def __or__(self, o):
        r = SxDict(self)
        r.update(o)
        return r

    def __ior__(self, o):
        self.update(o)
        return self

    def __eq__(self, o):
        if not isinstance(o, dict):
            return NotImplemented
        if len(self) != len(o):
            return False
        rs = []
        for k, v in pairs(self):
            q = o._find(k) if isinstance(o, SxDict) else (k if _hashable_native(k) and dict.__contains__(o, k) else scan(o, k) if not _hashable_native(k) else _MISSING)
            if q is _MISSING:
                return False
            w = o._get(q) if isinstance(o, SxDict) else dict.__getitem__(o, q)
            r = v is w or v == w
            if r is False:
                return False
            rs.append(r)
        return core.And(*rs)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else core.sx_not(r)

    __hash__ = None

    def move_to_end(self, k, last=True):
        v = self.pop(k)
        if last:
            self[k] = v
        else:
            rest = list(pairs(self))
            self.clear()
            self[k] = v
            for a, b in rest:
                self[a] = b

    def __repr__(self):
        return "{%s}" % ", ".join("%r: %r" % p for p in pairs(self))

    @classmethod
    def fromkeys(cls, ks, v=None):
        r = cls()
        for k in ks:
            r[k] = v
        return r

    def __reversed__(self):
        return reversed(list(dict.keys(self)))

    def __reduce__(self):
        return (dict, (dict(pairs(self)),))


class SxDefaultDict(SxDict):
    __slots__ = ("default_factory",)

    def __init__(self, factory=None, *a, **k):
        self.default_factory = factory
        SxDict.__init__(self, *a, **k)

    def __missing__(self, k):
        if self.default_factory is None:
            raise KeyError(k)
        v = self.default_factory()
        self[k] = v
        return v


def pairs(d):
    if isinstance(d, SxDict):
        return [(k, v) for k, v in dict.items(d)]
    if isinstance(d, dict):
        return list(d.items())
    return [(k, d[k]) for k in d.keys()]


class SxSet(set):
    """set with solver-decided membership for symbolic elements (kept in a side list)."""

    def __init__(self, xs=()):
        set.__init__(self)
        self._sym = []
        for x in xs:
            self.add(x)

    def __contains__(self, k):
        if _hashable_native(k):
            if set.__contains__(self, k):
                return True
            return any(keys_equal(q, k) for q in self._sym)
        return any(keys_equal(q, k) for q in list(set.__iter__(self)) + self._sym)

    def add(self, k):
        if k in self:
            return
        if _hashable_native(k):
            set.add(self, k)
        else:
            self._sym.append(k)

    def discard(self, k):
        if _hashable_native(k) and set.__contains__(self, k):
            set.discard(self, k)
            return
        for q in self._sym:
            if keys_equal(q, k):
                self._sym.remove(q)
                return
        if not _hashable_native(k):
            for q in list(set.__iter__(self)):
                if keys_equal(q, k):
                    set.discard(self, q)
                    return

    def remove(self, k):
        if k not in self:
            raise KeyError(k)
        self.discard(k)

    def update(self, *xs):
        for x in xs:
            for y in x:
                self.add(y)

    def __iter__(self):
        return iter(list(set.__iter__(self)) + list(self._sym))

    def __len__(self):
        return set.__len__(self) + len(self._sym)

    def __bool__(self):
        return len(self) > 0

    def union(self, *o):
        r = SxSet(self)
        r.update(*o)
        return r

    def __or__(self, o): return self.union(o)

    def intersection(self, o): return SxSet([x for x in self if x in (o if isinstance(o, (set, dict)) else SxSet(o))])
    def __and__(self, o): return self.intersection(o)
    def difference(self, o): return SxSet([x for x in self if x not in (o if isinstance(o, (set, dict)) else SxSet(o))])
    def __sub__(self, o): return self.difference(o)
    def issubset(self, o): return all(x in o for x in self)
    def copy(self): return SxSet(self)
    def clear(self):
        set.clear(self)
        self._sym = []

    def __eq__(self, o):
        if not isinstance(o, (set, frozenset)):
            return NotImplemented
        return len(self) == len(o) and all(x in o for x in self)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r
    __hash__ = None

    def pop(self):
        for x in self:
            self.discard(x)
            return x
        raise KeyError("pop from an empty set")
