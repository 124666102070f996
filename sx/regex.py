"""`re` for symbolic strings: a backtracking matcher over CPython's own parse tree; every character
test on a symbolic character is a solver-decided branch."""
import re as _re
from re import _parser, _constants as C

from . import core
from .core import Unsupported
from .strings import SymStr, Tok, mk, items_of, is_str, lift, conc_str

IGN = _re.IGNORECASE
_cache = {}


def _cat(cat, ch, flags):
    if flags & _re.ASCII:
        d = ch in "0123456789"
        s = ch in " \t\n\r\f\v"
        w = ch.isascii() and (ch.isalnum() or ch == "_")
    else:
        d, s, w = ch.isdecimal(), ch.isspace(), (ch.isalnum() or ch == "_")
    return {C.CATEGORY_DIGIT: d, C.CATEGORY_NOT_DIGIT: not d, C.CATEGORY_SPACE: s, C.CATEGORY_NOT_SPACE: not s,
            C.CATEGORY_WORD: w, C.CATEGORY_NOT_WORD: not w}[cat]


def _pred(op, av, ch, flags):
    if flags & IGN:
        for c in {ch, ch.lower(), ch.upper()}:
            if len(c) == 1 and _pred1(op, av, c, flags):
                return True
        return False
    return _pred1(op, av, ch, flags)


def _pred1(op, av, ch, flags):
    o = ord(ch)
    if op is C.LITERAL:
        return o == av
    if op is C.NOT_LITERAL:
        return o != av
    if op is C.ANY:
        return bool(flags & _re.DOTALL) or ch != "\n"
    if op is C.IN:
        neg = False
        hit = False
        for o2, a2 in av:
            if o2 is C.NEGATE:
                neg = True
            elif o2 is C.LITERAL:
                hit = hit or o == a2
            elif o2 is C.RANGE:
                hit = hit or a2[0] <= o <= a2[1]
            elif o2 is C.CATEGORY:
                hit = hit or _cat(a2, ch, flags)
            else:
                raise core.ENG.stop(Unsupported("regex set %s" % o2))
        return hit != neg
    if op is C.CATEGORY:
        return _cat(av, ch, flags)
    raise core.ENG.stop(Unsupported("regex %s" % op))


class Pattern:
    def __init__(self, pattern, flags=0):
        if isinstance(pattern, SymStr):
            pattern = conc_str(pattern)
        self.pattern = pattern
        self.real = _re.compile(pattern, flags)
        self.flags = self.real.flags
        self.tree = _parser.parse(pattern, flags)
        self.groups = self.real.groups
        self.groupindex = dict(self.real.groupindex)
        self._ps = {}

    # one character
    def char(self, node, it):
        op, av = node
        if isinstance(it, str):
            return _pred(op, av, it, self.flags)
        k = (id(node), it.dom)
        s = self._ps.get(k)
        if s is None:
            s = frozenset(c for c in it.dom if _pred(op, av, chr(c), self.flags))
            self._ps[k] = (s, node)
        else:
            s = s[0]
        return bool(it.inset(s))

    def m(self, nodes, i, pos, g, S, k):
        """match nodes[i:] at pos; k(pos, groups) continues; returns first success or None."""
        while True:
            if i == len(nodes):
                return k(pos, g)
            op, av = nodes[i]
            if op in (C.LITERAL, C.NOT_LITERAL, C.ANY, C.IN, C.CATEGORY):
                if pos < len(S) and self.char(nodes[i], S[pos]):
                    pos += 1
                    i += 1
                    continue
                return None
            break
        if op is C.AT:
            n = len(S)
            if av in (C.AT_BEGINNING, C.AT_BEGINNING_STRING):
                ok = pos == 0
                if av is C.AT_BEGINNING and self.flags & _re.MULTILINE and pos > 0:
                    ok = self.char((C.LITERAL, 10), S[pos - 1])
            elif av is C.AT_END:
                ok = pos == n or (pos == n - 1 and self.char(_NL, S[pos]))
            elif av is C.AT_END_STRING:
                ok = pos == n
            elif av in (C.AT_BOUNDARY, C.AT_NON_BOUNDARY):
                a = pos > 0 and self.char(_W, S[pos - 1])
                b = pos < n and self.char(_W, S[pos])
                ok = (a != b) == (av is C.AT_BOUNDARY)
            else:
                raise core.ENG.stop(Unsupported("regex anchor"))
            return self.m(nodes, i + 1, pos, g, S, k) if ok else None
        if op is C.SUBPATTERN:
            gid, af, df, sub = av
            sub = list(sub)

            def done(p, g2, pos=pos):
                if gid is not None:
                    g2 = dict(g2)
                    g2[gid] = (pos, p)
                return self.m(nodes, i + 1, p, g2, S, k)
            return self.m(self.lst(av[3]), 0, pos, g, S, done)
        if op is C.BRANCH:
            for alt in av[1]:
                r = self.m(self.lst(alt), 0, pos, g, S, lambda p, g2: self.m(nodes, i + 1, p, g2, S, k))
                if r is not None:
                    return r
            return None
        if op in (C.MAX_REPEAT, C.MIN_REPEAT, C.POSSESSIVE_REPEAT):
            lo, hi, sub = av
            sub = self.lst(sub)
            if hi is C.MAXREPEAT:
                hi = 1 << 30

            def rep(n, p, g2, last):
                def after(): return self.m(nodes, i + 1, p, g2, S, k)

                def more():
                    if n >= hi or (p == last and n > lo):
                        return None
                    return self.m(sub, 0, p, g2, S, lambda p2, g3: rep(n + 1, p2, g3, p))
                if n < lo:
                    return more()
                if op is C.MIN_REPEAT:
                    r = after()
                    return r if r is not None else more()
                r = more()
                return r if r is not None else after()
            return rep(0, pos, g, -1)
        if op is C.GROUPREF:
            if av not in g:
                return None
            a, b = g[av]
            for d in range(b - a):
                if pos + d >= len(S):
                    return None
                from .strings import item_eq
                if not bool(item_eq(S[a + d], S[pos + d])):
                    return None
            return self.m(nodes, i + 1, pos + b - a, g, S, k)
        if op in (C.ASSERT, C.ASSERT_NOT):
            d, sub = av
            if d < 0:
                w = sub.getwidth()
                if w[0] != w[1]:
                    raise core.ENG.stop(Unsupported("lookbehind"))
                r = None if pos - w[0] < 0 else self.m(self.lst(sub), 0, pos - w[0], g, S, lambda p, g2: (p, g2))
            else:
                r = self.m(self.lst(sub), 0, pos, g, S, lambda p, g2: (p, g2))
            if (r is not None) != (op is C.ASSERT):
                return None
            return self.m(nodes, i + 1, pos, r[1] if op is C.ASSERT else g, S, k)
        raise core.ENG.stop(Unsupported("regex op %s" % op))

    def lst(self, sub):
        k = id(sub)
        r = self._ps.get(("l", k))
        if r is None:
            r = (list(sub), sub)
            self._ps[("l", k)] = r
        return r[0]

    def _at(self, s, pos, full=False):
        S = lift(s).chars() if isinstance(s, SymStr) else tuple(s)
        end = (lambda p, g: (p, g) if p == len(S) else None) if full else (lambda p, g: (p, g))
        r = self.m(self.lst(self.tree), 0, pos, {}, S, end)
        return None if r is None else Match(self, s, S, pos, r[0], r[1])

    def match(self, s, pos=0):
        if isinstance(s, str):
            return self.real.match(s, pos)
        return self._at(s, pos)

    def fullmatch(self, s, pos=0):
        if isinstance(s, str):
            return self.real.fullmatch(s, pos)
        return self._at(s, pos, True)

    def search(self, s, pos=0):
        if isinstance(s, str):
            return self.real.search(s, pos)
        for p in range(pos, len(s) + 1):
            r = self._at(s, p)
            if r is not None:
                return r
        return None

    def finditer(self, s):
        if isinstance(s, str):
            yield from self.real.finditer(s)
            return
        pos, n = 0, len(s)
        while pos <= n:
            r = self.search(s, pos)
            if r is None:
                return
            yield r
            pos = r.end() if r.end() > r.start() else r.end() + 1

    def findall(self, s):
        if isinstance(s, str):
            return self.real.findall(s)
        out = []
        for r in self.finditer(s):
            if self.groups == 0:
                out.append(r.group())
            elif self.groups == 1:
                out.append(r.group(1) if r.group(1) is not None else "")
            else:
                out.append(tuple(x if x is not None else "" for x in r.groups()))
        return out

    def split(self, s, maxsplit=0):
        if isinstance(s, str):
            return self.real.split(s, maxsplit)
        out, last = [], 0
        for r in self.finditer(s):
            if maxsplit and len(out) // (1 + self.groups) >= maxsplit:
                break
            out.append(mk(s.chars()[last:r.start()]))
            out.extend(r.groups())
            last = r.end()
        out.append(mk(s.chars()[last:]))
        return out

    def sub(self, repl, s, count=0):
        if isinstance(s, str) and isinstance(repl, str):
            return self.real.sub(repl, s, count)
        s = lift(s)
        out, last, n = [], 0, 0
        for r in self.finditer(s):
            if count and n >= count:
                break
            n += 1
            out.extend(s.chars()[last:r.start()])
            if callable(repl):
                out.extend(items_of(repl(r)))
            elif isinstance(repl, str) and "\\" in repl:
                raise core.ENG.stop(Unsupported("regex template"))
            else:
                out.extend(items_of(repl))
            last = r.end()
        out.extend(s.chars()[last:])
        return mk(out)


_NL = (C.LITERAL, 10)
_W = (C.IN, [(C.CATEGORY, C.CATEGORY_WORD)])


class Match:
    def __init__(self, pat, s, S, a, b, g):
        self.re, self.string, self.S, self.a, self.b, self.g = pat, s, S, a, b, g
        self.pos = 0
        self.lastindex = max(g) if g else None

    def _id(self, k):
        return self.re.groupindex[k] if is_str(k) else k

    def span(self, k=0):
        k = self._id(k)
        if k == 0:
            return self.a, self.b
        return self.g.get(k, (-1, -1))

    def start(self, k=0): return self.span(k)[0]
    def end(self, k=0): return self.span(k)[1]

    def _g(self, k):
        a, b = self.span(k)
        return None if a < 0 else mk(self.S[a:b])

    def group(self, *ks):
        if not ks:
            return self._g(0)
        if len(ks) == 1:
            return self._g(ks[0])
        return tuple(self._g(k) for k in ks)

    def __getitem__(self, k): return self._g(k)

    def groups(self, default=None):
        return tuple(default if self._g(i) is None else self._g(i) for i in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return {n: (default if self._g(i) is None else self._g(i)) for n, i in self.re.groupindex.items()}

    def __bool__(self): return True


def compile(pattern, flags=0):
    if isinstance(pattern, Pattern):
        return pattern
    if isinstance(pattern, _re.Pattern):
        pattern, flags = pattern.pattern, pattern.flags & ~_re.UNICODE
    k = (pattern, int(flags)) if isinstance(pattern, str) else None
    if k in _cache:
        return _cache[k]
    p = Pattern(pattern, flags)
    if k:
        _cache[k] = p
    return p


def match(p, s, flags=0): return compile(p, flags).match(s)
def fullmatch(p, s, flags=0): return compile(p, flags).fullmatch(s)
def search(p, s, flags=0): return compile(p, flags).search(s)
def findall(p, s, flags=0): return compile(p, flags).findall(s)
def finditer(p, s, flags=0): return compile(p, flags).finditer(s)
def split(p, s, maxsplit=0, flags=0): return compile(p, flags).split(s, maxsplit)
def sub(p, r, s, count=0, flags=0): return compile(p, flags).sub(r, s, count)


escape = lambda s: _re.escape(s) if isinstance(s, str) else _re.escape(conc_str(s))
error = _re.error
for _n in ("IGNORECASE", "I", "MULTILINE", "M", "DOTALL", "S", "ASCII", "A", "VERBOSE", "X", "UNICODE", "U"):
    globals()[_n] = getattr(_re, _n)
