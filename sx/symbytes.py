"""Byte strings with symbolic (ASCII) content, and the text encodings between them and symbolic text.

Every item of a byte string is one byte: a latin-1 character, a symbolic character whose values are all below 128, or
one token of ASCII text (a decimal number or a serialised object) whose length is not looked at."""
import codecs

from . import core, strings as S
from .core import Sym, Unsupported
from .strings import Ch, Tok, mk, items_of, lift, conc_str


def norm_enc(e):
    return codecs.lookup(e or "utf-8").name


def mkbytes(items):
    items = tuple(items)
    if all(isinstance(i, str) for i in items):
        return "".join(items).encode("latin-1")
    return SymBytes(items)


def bytes_items(b):
    if type(b) is SymBytes:
        return b.items
    return tuple(bytes(b).decode("latin-1"))


def inner(b):
    return mk(bytes_items(b))


class SymBytes(Sym):
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = tuple(items)

    __class__ = property(lambda self: bytes)

    def _t(self): return S.SymStr(self.items)

    def _sx_realize(self, m):
        return "".join(S.realize_item(i, m) for i in self.items).encode("latin-1")

    def __repr__(self): return "<SymBytes %r>" % self._t()
    def __len__(self): return len(self._t())
    def __bool__(self): return len(self.items) > 0
    def __hash__(self): return hash(conc_str(self._t()).encode("latin-1"))

    def __iter__(self):
        for i in S.expand_items(self.items):
            yield ord(i) if isinstance(i, str) else core.SymInt(i.t)

    def __getitem__(self, k):
        if isinstance(k, slice):
            return mkbytes(items_of(self._t()[k]))
        return list(self)[core.concretize(k)]

    def __add__(self, o):
        if not isinstance(o, bytes):
            return NotImplemented
        return mkbytes(self.items + bytes_items(o))

    def __radd__(self, o):
        if not isinstance(o, bytes):
            return NotImplemented
        return mkbytes(bytes_items(o) + self.items)

    def __mul__(self, n): return mkbytes(self.items * core.concretize(n))

    def __eq__(self, o):
        if not isinstance(o, bytes):
            return False
        return self._t() == inner(o)

    def __ne__(self, o):
        if not isinstance(o, bytes):
            return True
        return self._t() != inner(o)

    def __contains__(self, o):
        return bool(self._t().contains(inner(o) if isinstance(o, bytes) else chr(o)))

    def _arg(self, a):
        if a is None:
            return None
        if isinstance(a, tuple):
            return tuple(inner(x) for x in a)
        return inner(a) if isinstance(a, bytes) else a

    def _same(name):
        def f(self, *a):
            return getattr(self._t(), name)(*[self._arg(x) for x in a])
        return f

    def _back(name):
        def f(self, *a):
            return mkbytes(items_of(getattr(self._t(), name)(*[self._arg(x) for x in a])))
        return f

    def _many(name):
        def f(self, *a, **k):
            r = getattr(self._t(), name)(*[self._arg(x) for x in a], **{n: self._arg(v) for n, v in k.items()})
            return type(r)(mkbytes(items_of(x)) for x in r)
        return f

    for _n in ("startswith", "endswith", "find", "rfind", "index", "rindex", "count", "isdigit", "isspace", "isalpha", "isalnum", "isascii"):
        locals()[_n] = _same(_n)
    for _n in ("replace", "removeprefix", "removesuffix", "lower", "upper"):
        locals()[_n] = _back(_n)
    for _n in ("split", "rsplit", "partition", "rpartition", "splitlines"):
        locals()[_n] = _many(_n)

    def _strip(name):
        def f(self, chars=None):
            c = " \t\n\r\x0b\x0c" if chars is None else inner(chars)
            return mkbytes(items_of(getattr(self._t(), name)(c)))
        return f

    strip, lstrip, rstrip = _strip("strip"), _strip("lstrip"), _strip("rstrip")

    def join(self, xs):
        return mkbytes(items_of(S.sx_join(self._t(), [inner(x) for x in xs])))

    def decode(self, encoding="utf-8", errors="strict"):
        units, tail = decode_items(self.items, encoding, errors)
        if tail is not None:
            raise tail
        return mk([i for i, n in units])


def encode_items(s, encoding):
    e = norm_enc(encoding)
    out = []
    for i in items_of(s):
        if isinstance(i, Ch) and any(c > 127 for c in i.dom):
            i = conc_str(S.SymStr((i,)))
        if isinstance(i, str):
            if ord(i) < 128:
                out.append(i)
            else:
                out.extend(i.encode(e).decode("latin-1"))
        else:
            out.append(i)
    if any(x in e for x in ("utf-16", "utf-32", "utf16", "utf32")):
        raise core.ENG.stop(Unsupported("encoding " + e))
    return out


def decode_items(items, encoding, errors=None):
    """([(character item, number of bytes)], the error of an unfinished character at the end or None)"""
    e = norm_enc(encoding)
    if any(x in e for x in ("utf-16", "utf-32", "utf16", "utf32")):
        raise core.ENG.stop(Unsupported("encoding " + e))
    dec = codecs.getincrementaldecoder(e)(errors or "strict")
    out, n, pending = [], 0, b""
    for i in items:
        if not isinstance(i, str):
            if not pending:
                out.append((i, 1 + n))
                n = 0
                continue
            if isinstance(i, Tok):
                raise core.ENG.stop(Unsupported("token after an unfinished character"))
            i = conc_str(S.SymStr((i,)))
        if ord(i) < 128 and not pending:
            out.append((i, 1 + n))
            n = 0
            continue
        n += 1
        pending += i.encode("latin-1")
        t = dec.decode(i.encode("latin-1"), False)
        if t:
            out.append((t[0], n))
            out.extend((x, 0) for x in t[1:])
            n = 0
        pending = dec.getstate()[0]
    tail = None
    if pending:
        try:
            t = dec.decode(b"", True)
            if t:
                out.append((t[0], n))
                out.extend((x, 0) for x in t[1:])
        except UnicodeDecodeError as ex:
            tail = ex
    return out, tail


def newlines(units, newline):
    """universal newline translation of text mode"""
    if newline is not None:
        return units
    out, k = [], 0
    while k < len(units):
        i, n = units[k]
        k += 1
        if i == "\r" if isinstance(i, str) else (isinstance(i, Ch) and 13 in i.dom and bool(S.item_eq(i, "\r"))):
            if k < len(units) and (units[k][0] == "\n" if isinstance(units[k][0], str) else bool(S.item_eq(units[k][0], "\n"))):
                n += units[k][1]
                k += 1
            i = "\n"
        out.append((i, n))
    return out
