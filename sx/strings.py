"""Symbolic strings: a sequence of items of which each is a concrete character, a symbolic character
(Ch: Z3 code point with a finite domain) or a symbolic decimal number (Tok).  The number of items is
concrete on a path; characters are decided by the solver."""
import unicodedata
from fractions import Fraction

import z3

from . import core
from .core import (Sym, SymBool, SymInt, SymFloat, Unsupported, dom_formula, intervals)

DIGITS = frozenset(range(48, 58))


class Ch:
    __slots__ = ("t", "dom", "src")

    def __init__(self, t, dom, src=None):
        self.t, self.dom, self.src = t, frozenset(dom), src

    def inset(self, s):
        """z3/py condition: this character is in the code point set s."""
        inter = self.dom & s
        if not inter:
            return False
        if len(inter) == len(self.dom):
            return True
        if len(inter) * 2 > len(self.dom):
            return SymBool(z3.Not(dom_formula(self.t, self.dom - inter)))
        return SymBool(dom_formula(self.t, inter))


class Tok:
    __slots__ = ("v", "width")
    dom = frozenset()


class IntTok(Tok):
    """str(int) of a symbolic integer; with width: zero padded to exactly that many digits."""
    __slots__ = ()

    def __init__(self, v, width=None):
        self.v, self.width = v, width

    @property
    def dom(self):
        return DIGITS if self.width else DIGITS | {45}

    def expand(self):
        v = self.v
        if not isinstance(v, SymInt):
            return tuple(str(v).rjust(self.width or 0, "0"))
        neg = False
        t = v.t
        if self.width is None:
            neg = bool(v < 0)
            if neg:
                t = -t
            n = 1
            while core.ENG.branch(t >= 10 ** n):
                n += 1
                if n > 25:
                    raise core.ENG.stop(Unsupported("integer too long to print"))
        else:
            n = self.width
        out = []
        for i in range(n):
            p = 10 ** (n - 1 - i)
            d = t / p if p > 1 else t
            if i > 0 or self.width is None:
                d = d % 10
            out.append(Ch(z3.simplify(48 + d), DIGITS, (self, i, n, neg)))
        return (("-",) if neg else ()) + tuple(out)


class RealTok(Tok):
    """repr of a symbolic float (shortest decimal that denotes it)."""
    __slots__ = ()
    dom = frozenset(ord(c) for c in "0123456789.-+einfa")

    def __init__(self, v):
        self.v, self.width = v, None

    def expand(self):
        raise core.ENG.stop(Unsupported("characters of a printed symbolic float"))


class Opaque(Tok):
    """Text whose characters are not modelled (log messages); any inspection is unsupported."""
    __slots__ = ()
    dom = frozenset(range(0x110000)) if False else frozenset()

    def __init__(self, v):
        self.v, self.width = v, None

    def expand(self):
        raise core.ENG.stop(Unsupported("text of %r" % (self.v,)))


def char_in(it, s):
    """truth (forking) of `item in code point set s`."""
    if isinstance(it, str):
        return ord(it) in s
    return bool(it.inset(s))


def item_eq(a, b):
    """equality of two character items as py bool or SymBool."""
    if a is b:
        return True
    if isinstance(a, str):
        if isinstance(b, str):
            return a == b
        a, b = b, a
    if isinstance(b, str):
        c = ord(b)
        if c not in a.dom:
            return False
        if len(a.dom) == 1:
            return True
        return SymBool(a.t == c)
    if not (a.dom & b.dom):
        return False
    if z3.eq(a.t, b.t):
        return True
    return SymBool(a.t == b.t)


class PredSet:
    """Lazy code point sets given by a predicate on characters."""
    def __init__(self, pred):
        self.pred = pred
        self.memo = {}

    def of(self, dom):
        k = dom
        r = self.memo.get(k)
        if r is None:
            r = self.memo[k] = frozenset(c for c in dom if self.pred(chr(c)))
        return r


P = {n: PredSet(getattr(str, n)) for n in
     ("isdigit", "isdecimal", "isnumeric", "isalpha", "isalnum", "isspace", "isupper", "islower")}


def char_pred(it, ps):
    if isinstance(it, str):
        return ps.pred(it)
    return bool(it.inset(ps.of(it.dom)))


def mk(items):
    """SymStr, or plain str when everything is concrete."""
    items = tuple(items)
    for i in items:
        if type(i) is not str:
            return SymStr(items)
    return "".join(items)


def items_of(s):
    if isinstance(s, SymStr):
        return s.items
    return tuple(s)


def is_str(x):
    return isinstance(x, (str, SymStr))


def expand_items(items):
    if any(isinstance(i, Tok) for i in items):
        out = []
        for i in items:
            if isinstance(i, Tok):
                out.extend(i.expand())
            else:
                out.append(i)
        return tuple(out)
    return items


def _cset(chars):
    return frozenset(ord(c) for c in chars)


class SymStr(Sym):
    __slots__ = ("items",)
    _sx_is_str = True

    def __init__(self, items):
        self.items = tuple(items)

    # -- basics
    def chars(self):
        """items with every Tok expanded to characters."""
        self.items = expand_items(self.items)
        return self.items

    def _sx_realize(self, m):
        return "".join(realize_item(i, m) for i in self.items)

    def __repr__(self):
        return "<SymStr %s>" % "".join(i if isinstance(i, str) else "?" if isinstance(i, Ch) else "{#}" for i in self.items)

    def __str__(self):
        return repr(self)

    def __format__(self, spec):
        return repr(self)

    def __len__(self):
        if all(not isinstance(i, Tok) for i in self.items):
            return len(self.items)
        if all(not isinstance(i, Tok) or i.width for i in self.items):
            return sum(i.width if isinstance(i, Tok) else 1 for i in self.items)
        return len(self.chars())

    def __bool__(self):
        return len(self.items) > 0

    def __hash__(self):
        if core.HASH_BY_ID:
            return id(self) >> 4
        return hash(conc_str(self))

    def __copy__(self): return self
    def __deepcopy__(self, memo): return self

    def __iter__(self):
        for i in self.chars():
            yield mk((i,))

    def __getitem__(self, k):
        if isinstance(k, slice):
            k = slice(core.concretize(k.start) if k.start is not None else None,
                      core.concretize(k.stop) if k.stop is not None else None,
                      core.concretize(k.step) if k.step is not None else None)
            return mk(self.chars()[k])
        return mk((self.chars()[core.concretize(k)],))

    def __add__(self, o):
        if not is_str(o):
            return NotImplemented
        return mk(self.items + items_of(o))

    def __radd__(self, o):
        if not is_str(o):
            return NotImplemented
        return mk(items_of(o) + self.items)

    def __mul__(self, n):
        return mk(self.items * core.concretize(n))
    __rmul__ = __mul__

    def __mod__(self, args):
        return sx_percent(self, args)

    # -- comparison
    def eq(self, o):
        if not is_str(o):
            return False
        return str_eq(self.items, items_of(o), self, o)

    def __eq__(self, o):
        return self.eq(o)

    def __ne__(self, o):
        return core.sx_not(self.eq(o))

    def _lex(self, o, strict, less):
        if not is_str(o):
            return NotImplemented
        a, b = self.chars(), expand_items(items_of(o))
        for x, y in zip(a, b):
            if x is y:
                continue
            if bool(item_eq(x, y)):
                continue
            tx = z3.IntVal(ord(x)) if isinstance(x, str) else x.t
            ty = z3.IntVal(ord(y)) if isinstance(y, str) else y.t
            return SymBool(z3.simplify(tx < ty if less else tx > ty))
        if len(a) == len(b):
            return not strict
        return (len(a) < len(b)) == less

    def __lt__(self, o): return self._lex(o, True, True)
    def __le__(self, o): return self._lex(o, False, True)
    def __gt__(self, o): return self._lex(o, True, False)
    def __ge__(self, o): return self._lex(o, False, False)

    # -- searching
    def _find_from(self, sub, start, end, rev=False):
        items = self.items
        sub = items_of(sub)
        n = len(sub)
        if n == 1 and isinstance(sub[0], str) and any(isinstance(i, Tok) for i in items):
            c = ord(sub[0])
            if any(isinstance(i, Tok) and (c in i.dom or isinstance(i, Opaque)) for i in items):
                items = self.chars()
        else:
            items = self.chars()
            sub = expand_items(sub)
            n = len(sub)
        rng = range(start, min(end, len(items)) - n + 1)
        for k in (reversed(rng) if rev else rng):
            if self._match_at(items, k, sub):
                return k
        return -1

    def _match_at(self, items, k, sub):
        if k + len(sub) > len(items):
            return False
        conds = []
        for a, b in zip(items[k:k + len(sub)], sub):
            if isinstance(a, Tok) or isinstance(b, Tok):
                if isinstance(a, Tok) and isinstance(b, str) and ord(b) not in a.dom:
                    return False
                raise core.ENG.stop(Unsupported("substring match against a number token"))
            c = item_eq(a, b)
            if c is False:
                return False
            if c is not True:
                conds.append(c.t)
        if not conds:
            return True
        return core.ENG.branch(z3.And(conds) if len(conds) > 1 else conds[0])

    def _bounds(self, start, end):
        n = len(self.chars()) if (start not in (0, None) or end is not None) else len(self.items)
        start = 0 if start is None else core.concretize(start)
        end = n if end is None else core.concretize(end)
        if start < 0:
            start = max(0, n + start)
        if end < 0:
            end = max(0, n + end)
        return start, min(end, n)

    def find(self, sub, start=None, end=None):
        self.chars()
        s, e = self._bounds(start, end)
        return self._find_from(sub, s, e)

    def rfind(self, sub, start=None, end=None):
        self.chars()
        s, e = self._bounds(start, end)
        return self._find_from(sub, s, e, True)

    def index(self, sub, start=None, end=None):
        r = self.find(sub, start, end)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def rindex(self, sub, start=None, end=None):
        r = self.rfind(sub, start, end)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def __contains__(self, sub):
        if not is_str(sub):
            raise TypeError("'in <string>' requires string as left operand")
        if len(items_of(sub)) == 0:
            return True
        return self._find_from(sub, 0, len(self.items) + 10 ** 6) >= 0

    def contains(self, sub):
        return self.__contains__(sub)

    def count(self, sub, start=None, end=None):
        self.chars()
        s, e = self._bounds(start, end)
        n, k = 0, s
        m = max(1, len(items_of(sub)))
        while True:
            k = self._find_from(sub, k, e)
            if k < 0:
                return n
            n += 1
            k += m

    def startswith(self, p, start=None, end=None):
        if isinstance(p, tuple):
            return any(self.startswith(q, start, end) for q in p)
        if start is not None or end is not None:
            return self[slice(start, end)].startswith(p) if is_str(self[slice(start, end)]) else False
        p = items_of(p)
        if not p:
            return True
        pi = expand_items(p)
        items = self.items
        if any(isinstance(i, Tok) for i in items[:len(pi)]):
            for i, (a, b) in enumerate(zip(items, pi)):
                if isinstance(a, Tok):
                    if isinstance(b, str) and ord(b) not in a.dom and not isinstance(a, Opaque):
                        return False
                    items = self.chars()
                    break
                if item_eq(a, b) is False:
                    return False
        return SymStr._match_at(self, items, 0, pi)

    def endswith(self, p, start=None, end=None):
        if isinstance(p, tuple):
            return any(self.endswith(q, start, end) for q in p)
        if start is not None or end is not None:
            return lift(self[slice(start, end)]).endswith(p)
        pi = expand_items(items_of(p))
        if not pi:
            return True
        items = self.items
        if any(isinstance(i, Tok) for i in items[-len(pi):]):
            items = self.chars()
        if len(items) < len(pi):
            return False
        return self._match_at(items, len(items) - len(pi), pi)

    # -- splitting
    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            return self._split_ws(maxsplit)
        if not is_str(sep):
            raise TypeError("must be str or None")
        sp = items_of(sep)
        if not sp:
            raise ValueError("empty separator")
        out, k = [], 0
        while maxsplit < 0 or len(out) < maxsplit:
            j = self._find_from(sep, k, 10 ** 9)
            if j < 0:
                break
            out.append(mk(self.items[k:j]))
            k = j + len(sp)
        out.append(mk(self.items[k:]))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit < 0:
            return self.split(sep)
        if sep is None:
            raise core.ENG.stop(Unsupported("rsplit by whitespace with maxsplit"))
        out, e = [], len(self.items)
        sp = items_of(sep)
        while len(out) < maxsplit:
            j = self._find_from(sep, 0, e, True)
            if j < 0:
                break
            out.append(mk(self.items[j + len(sp):e]))
            e = j
        out.append(mk(self.items[:e]))
        return out[::-1]

    def _split_ws(self, maxsplit=-1):
        items = self.items
        out, cur = [], []
        i = 0
        while i < len(items):
            it = items[i]
            if not isinstance(it, Tok) and char_pred(it, P["isspace"]):
                if cur:
                    out.append(mk(cur))
                    cur = []
                i += 1
                continue
            if not cur and 0 <= maxsplit <= len(out):
                rest = lift(mk(items[i:])).rstrip()
                out.append(rest)
                return out
            cur.append(it)
            i += 1
        if cur:
            out.append(mk(cur))
        return out

    def partition(self, sep):
        j = self._find_from(sep, 0, 10 ** 9)
        if j < 0:
            return (self, "", "")
        n = len(items_of(sep))
        return (mk(self.items[:j]), sep, mk(self.items[j + n:]))

    def rpartition(self, sep):
        j = self._find_from(sep, 0, len(self.items), True)
        if j < 0:
            return ("", "", self)
        n = len(items_of(sep))
        return (mk(self.items[:j]), sep, mk(self.items[j + n:]))

    def splitlines(self, keepends=False):
        out, cur = [], []
        nl = _cset("\n\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029")
        items = self.items
        i = 0
        while i < len(items):
            it = items[i]
            if not isinstance(it, Tok) and char_in(it, nl):
                end = [it]
                if bool(item_eq(it, "\r")) and i + 1 < len(items) and not isinstance(items[i + 1], Tok) \
                        and bool(item_eq(items[i + 1], "\n")):
                    end.append(items[i + 1])
                    i += 1
                out.append(mk(cur + (end if keepends else [])))
                cur = []
            else:
                cur.append(it)
            i += 1
        if cur:
            out.append(mk(cur))
        return out

    # -- stripping
    def _strip(self, chars, left, right):
        if chars is None:
            def test(it): return not isinstance(it, Tok) and char_pred(it, P["isspace"])
        else:
            cs = expand_items(items_of(chars))
            if all(isinstance(c, str) for c in cs):
                st = _cset(cs)
                if any(isinstance(i, Tok) and i.dom & st for i in self.items):
                    self.chars()

                def test(it): return not isinstance(it, Tok) and char_in(it, st)
            else:
                self.chars()

                def test(it): return any(bool(item_eq(it, c)) for c in cs)
        items = self.items
        a, b = 0, len(items)
        if left:
            while a < b and test(items[a]):
                a += 1
        if right:
            while b > a and test(items[b - 1]):
                b -= 1
        return mk(items[a:b])

    def strip(self, chars=None): return self._strip(chars, True, True)
    def lstrip(self, chars=None): return self._strip(chars, True, False)
    def rstrip(self, chars=None): return self._strip(chars, False, True)

    def removeprefix(self, p):
        return mk(self.chars()[len(p):]) if p and self.startswith(p) else self

    def removesuffix(self, p):
        return mk(self.chars()[:-len(p)]) if p and self.endswith(p) else self

    # -- transformation
    def replace(self, old, new, count=-1):
        o, n = items_of(old), items_of(new)
        if not o:
            raise core.ENG.stop(Unsupported("replace of empty string"))
        items = self.items
        if any(isinstance(i, Tok) and (len(o) > 1 or ord(o[0]) in i.dom) and
               any(isinstance(c, str) and ord(c) in i.dom for c in o) for i in items):
            items = self.chars()
        out, k = [], 0
        while k < len(items):
            hit = False
            if count != 0 and k + len(o) <= len(items) and not any(isinstance(i, Tok) for i in items[k:k + len(o)]):
                hit = self._match_at(items, k, o)
            if hit:
                out.extend(n)
                k += len(o)
                count -= 1
            else:
                out.append(items[k])
                k += 1
        return mk(out)

    def _map(self, f):
        out = []
        for it in self.items:
            if isinstance(it, str):
                out.extend(f(it))
            elif isinstance(it, Tok):
                out.append(it)
            else:
                if all(f(chr(c)) == chr(c) for c in it.dom):
                    out.append(it)
                    continue
                if any(len(f(chr(c))) != 1 for c in it.dom):
                    raise core.ENG.stop(Unsupported("case mapping changes length"))
                t = it.t
                r = t
                for c in it.dom:
                    u = ord(f(chr(c)))
                    if u != c:
                        r = z3.If(t == c, z3.IntVal(u), r)
                out.append(Ch(r, frozenset(ord(f(chr(c))) for c in it.dom)))
        return mk(out)

    def upper(self): return self._map(str.upper)
    def lower(self): return self._map(str.lower)
    def casefold(self): return self._map(str.casefold)
    def swapcase(self): return self._map(str.swapcase)

    def _all_pred(self, name):
        if not self.items:
            return False
        conds = []
        for it in self.items:
            if isinstance(it, IntTok):
                if name in ("isdigit", "isdecimal", "isnumeric", "isalnum"):
                    if it.width is None and isinstance(it.v, SymInt):
                        conds.append((it.v >= 0).t)
                    continue
                return False
            if isinstance(it, Tok):
                raise core.ENG.stop(Unsupported(name + " of a token"))
            if isinstance(it, str):
                if not getattr(it, name)():
                    return False
                continue
            c = it.inset(P[name].of(it.dom))
            if c is False:
                return False
            if c is not True:
                conds.append(c.t)
        if not conds:
            return True
        return SymBool(z3.And(conds) if len(conds) > 1 else conds[0])

    def isdigit(self): return self._all_pred("isdigit")
    def isdecimal(self): return self._all_pred("isdecimal")
    def isnumeric(self): return self._all_pred("isnumeric")
    def isalpha(self): return self._all_pred("isalpha")
    def isalnum(self): return self._all_pred("isalnum")
    def isspace(self): return self._all_pred("isspace")

    def isascii(self):
        return core.And(*[True if isinstance(i, Tok) else (ord(i) < 128 if isinstance(i, str) else i.inset(frozenset(range(128)))) for i in self.items])

    def isidentifier(self): return conc_str(self).isidentifier()
    def isupper(self): return conc_str(self).isupper()
    def islower(self): return conc_str(self).islower()
    def isprintable(self): return conc_str(self).isprintable()
    def istitle(self): return conc_str(self).istitle()
    def title(self): return conc_str(self).title()
    def capitalize(self): return conc_str(self).capitalize()
    def expandtabs(self, n=8): return conc_str(self).expandtabs(n)
    def translate(self, tbl): return conc_str(self).translate(tbl)

    def encode(self, encoding="utf-8", errors="strict"):
        from .symbytes import mkbytes, encode_items
        if errors != "strict":
            return conc_str(self).encode(encoding, errors)
        return mkbytes(encode_items(self, encoding))

    def zfill(self, w):
        items = self.chars()
        pad = w - len(items)
        if pad <= 0:
            return self
        if items and bool(core.Or(item_eq(items[0], "-"), item_eq(items[0], "+"))):
            return mk(items[:1] + ("0",) * pad + items[1:])
        return mk(("0",) * pad + items)

    def ljust(self, w, f=" "): return mk(self.items + tuple(f) * max(0, core.concretize(w) - len(self)))
    def rjust(self, w, f=" "): return mk(tuple(f) * max(0, core.concretize(w) - len(self)) + self.items)

    def center(self, w, f=" "):
        pad = max(0, core.concretize(w) - len(self))
        left = pad // 2 + (pad & w & 1)
        return mk(tuple(f) * left + self.items + tuple(f) * (pad - left))

    def join(self, xs):
        return sx_join(self, xs)

    def format(self, *a, **k):
        return sx_format_method(conc_str(self), a, k)

    def format_map(self, m):
        return sx_format_method(conc_str(self), (), m)


def lift(s):
    return s if isinstance(s, SymStr) else SymStr(tuple(s))


def realize_item(i, m):
    if isinstance(i, str):
        return i
    if isinstance(i, Ch):
        return chr(m.eval(i.t, model_completion=True).as_long())
    if isinstance(i, IntTok):
        v = core.realize(i.v, m)
        return str(v).rjust(i.width or 0, "0")
    if isinstance(i, RealTok):
        return repr(core.realize(i.v, m))
    return "<opaque>"


def conc_str(s):
    """Concretise a symbolic string by forking on its characters (complete)."""
    if isinstance(s, str):
        return s
    out = []
    for it in s.chars():
        if isinstance(it, str):
            out.append(it)
        elif len(it.dom) == 1:
            out.append(chr(next(iter(it.dom))))
        else:
            out.append(chr(core.concretize(SymInt(it.t), limit=max(64, len(it.dom) + 1))))
    return "".join(out)


def try_real(text):
    try:
        f = float(text)
    except ValueError:
        return None
    return f if repr(f) == text else None


def str_eq(a, b, sa=None, sb=None):
    if len(a) == 1 and len(b) >= 1 and isinstance(a[0], Tok) or len(b) == 1 and isinstance(b[0], Tok):
        if not (len(a) == 1 and isinstance(a[0], Tok)):
            a, b = b, a
            sa, sb = sb, sa
        x = a[0]
        if len(b) == 1 and isinstance(b[0], Tok):
            y = b[0]
            if x is y:
                return True
            if isinstance(x, IntTok) and isinstance(y, IntTok) and x.width == y.width:
                return core.mkint(core.to_int(x.v)) == y.v
            if isinstance(x, RealTok) and isinstance(y, RealTok):
                return core.SymFloat(core.to_real(x.v)) == y.v
            if isinstance(x, RealTok) or isinstance(y, RealTok):
                if isinstance(x, IntTok) or isinstance(y, IntTok):
                    return False           # repr of a float always has '.', 'e' or 'n'
        elif all(isinstance(i, str) for i in b):
            txt = "".join(b)
            if isinstance(x, IntTok) and x.width is None:
                try:
                    v = int(txt)
                except ValueError:
                    return False
                return core.mkint(core.to_int(x.v)) == v if str(v) == txt else False
            if isinstance(x, RealTok):
                f = try_real(txt)
                return False if f is None else core.SymFloat(core.to_real(x.v)) == f
    hasa = any(isinstance(i, Tok) for i in a)
    hasb = any(isinstance(i, Tok) for i in b)
    if hasa or hasb:
        r = _segment_eq(a, b)
        if r is not None:
            return r
        a = sa.chars() if isinstance(sa, SymStr) else expand_items(a)
        b = sb.chars() if isinstance(sb, SymStr) else expand_items(b)
    if len(a) != len(b):
        return False
    conds = []
    for x, y in zip(a, b):
        c = item_eq(x, y)
        if c is False:
            return False
        if c is not True:
            conds.append(c.t)
    if not conds:
        return True
    return SymBool(z3.And(conds) if len(conds) > 1 else conds[0])


def _segment_eq(a, b):
    """Try to align two item sequences containing number tokens at concrete delimiters."""
    def delims(items):
        out, cur = [], []
        for i in items:
            if isinstance(i, str) and i not in "0123456789.-+einfa":
                out.append((tuple(cur), i))
                cur = []
            elif isinstance(i, Ch) and not (i.dom <= RealTok.dom):
                return None
            else:
                cur.append(i)
        out.append((tuple(cur), None))
        return out
    # a cheap special case: same length, Tok against Tok in the same place
    if len(a) == len(b) and all((isinstance(x, Tok) and isinstance(y, Tok) and type(x) is type(y)) or
                                (not isinstance(x, Tok) and not isinstance(y, Tok)) for x, y in zip(a, b)):
        ok = True
        for k, x in enumerate(a):
            if isinstance(x, Tok) and not (x.width and x.width == b[k].width):
                for s in (a, b):
                    for kk in (k - 1, k + 1):
                        if 0 <= kk < len(s):
                            n = s[kk]
                            if isinstance(n, Tok) or (ord(n) in x.dom if isinstance(n, str) else bool(n.dom & x.dom)):
                                ok = False
        if ok:
            rs = []
            for x, y in zip(a, b):
                if isinstance(x, Tok):
                    r = str_eq((x,), (y,)) if x is not y else True
                else:
                    r = item_eq(x, y)
                if r is False:
                    return False
                rs.append(r)
            return core.And(*rs)
    da, db = delims(a), delims(b)
    if da is None or db is None:
        return None
    if len(da) != len(db) or any(x[1] != y[1] for x, y in zip(da, db)):
        return False
    rs = []
    for (xa, _), (xb, _) in zip(da, db):
        if xa == xb:
            continue
        if len(da) == 1:
            return None
        r = str_eq(xa, xb)
        if r is False:
            return False
        rs.append(r)
    return core.And(*rs)


# -------------------------------------------------------------------------------------------- conversions
WS = P["isspace"]


def str_to_int(s, base=10):
    """int(text) with Python's grammar, for symbolic text."""
    if base != 10:
        return int(conc_str(s), base)
    items = s.items
    a, b = 0, len(items)
    while a < b and not isinstance(items[a], Tok) and char_pred(items[a], WS):
        a += 1
    while b > a and not isinstance(items[b - 1], Tok) and char_pred(items[b - 1], WS):
        b -= 1
    items = items[a:b]
    if len(items) == 1 and isinstance(items[0], IntTok):
        return items[0].v
    if len(items) == 1 and isinstance(items[0], RealTok):
        raise ValueError("invalid literal for int() with base 10")
    if any(isinstance(i, RealTok) for i in items):
        raise ValueError("invalid literal for int() with base 10")
    items = expand_items(items)
    # whole fixed-width number recovered from its own digits
    if items and all(isinstance(i, Ch) and i.src for i in items):
        tok, _, n, neg = items[0].src
        if len(items) == n and all(i.src[0] is tok and i.src[1] == k for k, i in enumerate(items)):
            return -tok.v if neg else tok.v
    err = ValueError("invalid literal for int() with base 10")
    if not items:
        raise err
    neg = False
    k = 0
    if char_in(items[0], frozenset((43, 45))):
        neg = bool(item_eq(items[0], "-"))
        k = 1
    val, n, lastus = None, 0, True
    for it in items[k:]:
        if not lastus and bool(item_eq(it, "_")):
            lastus = True
            continue
        d = digit_value(it)
        if d is None:
            raise err
        val = d if val is None else val * 10 + d
        n += 1
        lastus = False
    if n == 0 or lastus:
        raise err
    if isinstance(val, z3.ExprRef):
        val = core.mkint(val)
    return -val if neg else val


DEC = P["isdecimal"]


def digit_value(it):
    """digit value as python int / z3 term, None when not a decimal digit (forks)."""
    if isinstance(it, str):
        return unicodedata.decimal(it, None) if it.isdecimal() else None
    if bool(it.inset(DIGITS)):
        return it.t - 48
    ds = DEC.of(it.dom) - DIGITS
    if not ds or not bool(it.inset(ds)):
        return None
    r = z3.IntVal(0)
    for c in ds:
        r = z3.If(it.t == c, z3.IntVal(unicodedata.decimal(chr(c))), r)
    return r


def str_to_float(s):
    s = s.strip() if isinstance(s, SymStr) else s.strip()
    if isinstance(s, str):
        return float(s)
    items = s.items
    if len(items) == 1 and isinstance(items[0], RealTok):
        return items[0].v
    if len(items) == 1 and isinstance(items[0], IntTok):
        v = items[0].v
        return v._fl() if isinstance(v, SymInt) else float(v)
    err = ValueError("could not convert string to float")
    # structure: [sign] digits-or-IntTok [. digits]
    k = 0
    neg = False
    out = None
    if items and not isinstance(items[0], Tok) and char_in(items[0], frozenset((43, 45))):
        neg = bool(item_eq(items[0], "-"))
        k = 1
    nd = 0
    scale = None
    for it in items[k:]:
        its = it.expand() if isinstance(it, Tok) else (it,)
        for c in its:
            if scale is None and bool(item_eq(c, ".")):
                scale = 0
                continue
            d = digit_value(c)
            if d is None:
                # exponents, underscores, inf, nan: decided on concrete text
                return float(conc_str(s))
            out = d if out is None else out * 10 + d
            nd += 1
            if scale is not None:
                scale += 1
    if nd == 0:
        raise err
    if not isinstance(out, z3.ExprRef):
        r = Fraction(out)
        r = r / 10 ** (scale or 0)
        return -float(r) if neg else float(r)
    r = core.SymFloat.q(out, 10 ** (scale or 0))
    return -r if neg else r


def sx_join(sep, xs):
    xs = list(xs)
    for i, x in enumerate(xs):
        if not is_str(x):
            raise TypeError("sequence item %d: expected str instance, %s found" % (i, type(x).__name__))
    if isinstance(sep, str) and all(isinstance(x, str) for x in xs):
        return sep.join(xs)
    out = []
    for i, x in enumerate(xs):
        if i:
            out.extend(items_of(sep))
        out.extend(items_of(x))
    return mk(out)


# -------------------------------------------------------------------------------------------- str() / repr() / format()
def sx_str(x):
    if isinstance(x, SymStr):
        return x
    if isinstance(x, str):
        return x if type(x) is str else str(x)
    if isinstance(x, SymInt):
        return SymStr((IntTok(x),))
    if isinstance(x, SymBool):
        return "True" if x else "False"
    if isinstance(x, SymFloat):
        return SymStr((RealTok(x),))
    if isinstance(x, BaseException):
        if type(x).__str__ in (BaseException.__str__, Exception.__str__) or (isinstance(x, OSError) and type(x).__str__ is OSError.__str__ and len(x.args) == 1):
            if len(x.args) == 0:
                return ""
            return sx_str(x.args[0]) if len(x.args) == 1 else sx_repr(tuple(x.args))
        return call_dunder(x, "__str__")
    if isinstance(x, (list, tuple, dict, set, frozenset)) and type(x).__str__ is object.__str__:
        return sx_repr(x)
    f = type(x).__str__
    if f is object.__str__:
        return sx_repr(x)
    return call_dunder(x, "__str__")


def call_dunder(x, name):
    f = getattr(type(x), name)
    r = f(x)
    if not is_str(r):
        raise TypeError("%s returned non-string" % name)
    return r


def sx_repr(x, depth=0):
    if depth > 6:
        return SymStr((Opaque("deep repr"),))
    if isinstance(x, SymStr):
        return mk(("'",) + x.items + ("'",))
    if isinstance(x, Sym):
        return sx_str(x)
    if isinstance(x, (list, tuple)) and type(x).__repr__ in (list.__repr__, tuple.__repr__):
        o, c = ("[", "]") if isinstance(x, list) else ("(", ",)" if len(x) == 1 else ")")
        return o + sx_join(", ", [sx_repr(v, depth + 1) for v in x]) + c
    if isinstance(x, dict) and type(x).__repr__ in (dict.__repr__,):
        return "{" + sx_join(", ", [sx_repr(k, depth + 1) + ": " + sx_repr(v, depth + 1) for k, v in x.items()]) + "}"
    if isinstance(x, (set, frozenset)):
        return "{" + sx_join(", ", [sx_repr(k, depth + 1) for k in x]) + "}"
    try:
        return call_dunder(x, "__repr__")
    except core.SxControl:
        raise
    except Exception:
        return SymStr((Opaque(type(x).__name__),))


def sx_format(x, spec=""):
    if isinstance(spec, SymStr):
        spec = conc_str(spec)
    if not isinstance(x, Sym):
        if spec == "" and not getattr(type(x), "_sx_model", False):
            if type(x).__format__ is object.__format__:
                return sx_str(x)
            if isinstance(x, (str, int, float)):
                return format(x, spec)
            return sx_str(x)
        r = type(x).__format__(x, spec)
        return r
    if spec == "":
        return sx_str(x)
    if isinstance(x, (SymInt, SymBool)):
        if isinstance(x, SymBool):
            x = x._int()
        if spec in ("d",):
            return sx_str(x)
        if len(spec) in (2, 3) and spec[0] == "0" and spec[1].isdigit() and spec[2:] in ("", "d"):
            return pad_int(x, int(spec[1]))
        if spec == ",":
            return format(core.concretize(x), spec)
        if spec[-1] in "fFeEgG%":
            return sx_format(x._fl(), spec)
        return format(core.concretize(x), spec)
    if isinstance(x, SymFloat):
        if spec.endswith("f") and spec.startswith(".") and spec[1:-1].isdigit():
            n = int(spec[1:-1])
            neg = bool(x < 0)
            k = (-x if neg else x).rhe(10 ** n)
            ip = k // (10 ** n)
            s = ("-" if neg else "") + sx_str(ip)
            if n:
                s = s + "." + pad_int(k % (10 ** n), n)
            return s
        if spec[-1:] in ("g", "G") and (spec[:-1] == "" or (spec[0] == "." and spec[1:-1].isdigit())):
            return general(x, int(spec[1:-1] or 6) or 1)
        raise core.ENG.stop(Unsupported("format %r of symbolic float" % spec))
    if isinstance(x, SymStr):
        if spec in ("s",):
            return x
        if spec.isdigit():
            return x.ljust(int(spec))
        if spec[0] in "<>^" and spec[1:].isdigit():
            w = int(spec[1:])
            return {"<": x.ljust, ">": x.rjust, "^": x.center}[spec[0]](w)
        return format(conc_str(x), spec)
    raise core.ENG.stop(Unsupported("format"))


def general(x, p):
    """'%.<p>g': p significant digits, trailing zeros removed"""
    if bool(x == 0):
        return "0"
    neg = bool(x < 0)
    a = -x if neg else x
    for e in range(-4, 13):
        k = a.rhe(10 ** (p - 1 - e)) if e <= p - 1 else (a / 10 ** (e - p + 1)).rhe(1)
        if bool(k < 10 ** p):
            break
    else:
        raise core.ENG.stop(Unsupported("%g of a very large float"))
    if e == -4 and bool(k < 10 ** (p - 1)):
        raise core.ENG.stop(Unsupported("%g of a very small float"))
    d = p - 1 - e if e < p else p - 1
    while d > 0 and bool(k % 10 == 0):
        k, d = k // 10, d - 1
    s = ("-" if neg else "") + sx_str(k // 10 ** d if d else k)
    if d:
        s = s + "." + pad_int(k % 10 ** d, d)
    return s if e < p else s + "e+%02d" % e


def pad_int(x, w):
    """'%0wd' of a (symbolic) int; fixed-width token when it provably fits."""
    if not isinstance(x, SymInt):
        return ("%0" + str(w) + "d") % x
    if bool(core.And(x >= 0, x < 10 ** w)):
        return SymStr((IntTok(x, w),))
    s = sx_str(x)
    return s.zfill(w)


def sx_percent(fmt, args):
    if isinstance(fmt, SymStr):
        fmt = conc_str(fmt)
    import re as _re
    out = []
    pos = 0
    tup = args if isinstance(args, tuple) else (args,)
    idx = 0
    for m in _re.finditer(r"%(\((?P<key>[^)]*)\))?(?P<flags>[#0\- +]*)(?P<w>\d*)(\.(?P<p>\d+))?(?P<c>[diouxXeEfFgGcrsa%])", fmt):
        out.extend(fmt[pos:m.start()])
        pos = m.end()
        c = m.group("c")
        if c == "%":
            out.append("%")
            continue
        if m.group("key") is not None:
            v = args[m.group("key")]
        else:
            if idx >= len(tup):
                raise TypeError("not enough arguments for format string")
            v = tup[idx]
            idx += 1
        w = int(m.group("w") or 0)
        if c == "s":
            r = sx_str(v)
        elif c in "ra":
            r = sx_repr(v)
        elif c in "di":
            if isinstance(v, (SymInt, SymBool)):
                r = pad_int(v, w) if "0" in m.group("flags") and w else sx_str(v if isinstance(v, SymInt) else v._int())
            elif isinstance(v, SymFloat):
                r = sx_str(v.trunc())
            elif is_str(v):
                raise TypeError("%d format: a real number is required, not str")
            else:
                r = _re.sub(r"\([^)]*\)", "", m.group(0)) % v
        elif isinstance(v, Sym):
            if c in "fF":
                r = sx_format(v if isinstance(v, SymFloat) else v._fl(), "." + (m.group("p") or "6") + "f")
            elif c in "gG":
                r = sx_format(v if isinstance(v, SymFloat) else v._fl(), "." + (m.group("p") or "6") + "g")
            else:
                raise core.ENG.stop(Unsupported("%" + c))
        else:
            r = _re.sub(r"\([^)]*\)", "", m.group(0)) % v
        if w and len(r) < w:
            r = lift(r).ljust(w) if "-" in m.group("flags") else lift(r).rjust(w, "0" if "0" in m.group("flags") else " ")
        out.extend(items_of(r))
    if idx < len(tup) and (isinstance(args, tuple) or not isinstance(args, dict)):
        raise TypeError("not all arguments converted during string formatting")
    out.extend(fmt[pos:])
    return mk(out)


def sx_format_method(fmt, args, kwargs):
    import string
    out = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(fmt):
        out.extend(lit)
        if field is None:
            continue
        first, rest = string._string.formatter_field_name_split(field)
        if first == "":
            first = auto
            auto += 1
        obj = args[first] if isinstance(first, int) else kwargs[first]
        for is_attr, i in rest:
            obj = getattr(obj, i) if is_attr else obj[i]
        if conv == "r" or conv == "a":
            obj = sx_repr(obj)
        elif conv == "s":
            obj = sx_str(obj)
        if spec and "{" in spec:
            spec = sx_format_method(spec, args, kwargs)
        out.extend(items_of(sx_format(obj, spec or "")))
    return mk(out)
