"""Symbolic execution core: path exploration by re-execution, Z3-backed integers/reals/booleans.

One Engine explores one scenario.  Every branch on a symbolic condition asks Z3 which sides are
feasible under the path condition; both feasible -> the path forks (the other side is queued and
later re-executed from the start with the recorded decisions).  `unknown` is never treated as an answer.
"""
import time
from fractions import Fraction

import z3


class SxControl(BaseException):
    """Base of engine control flow: never catchable by `except Exception` in code under test."""


class PathPruned(SxControl):
    pass


class Violation(SxControl):
    def __init__(self, label, detail=""):
        super().__init__(label)
        self.label = str(label)
        self.detail = "" if detail is None else detail


class Inconclusive(SxControl):
    pass


class Unsupported(Inconclusive):
    pass


ENG = None          # the engine running in this process (symbolic mode), or None (concrete mode)


def eng():
    return ENG


# --------------------------------------------------------------------------------------------
class Stats:
    FIELDS = ("paths", "pruned", "decisions", "forced", "queries", "obligations", "trivial", "model_hits")

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)
        self.solver_s = 0.0
        self.functions = set()
        self.covers = {}
        self.labels = {}

    def merge(self, o):
        for f in self.FIELDS:
            setattr(self, f, getattr(self, f) + getattr(o, f))
        self.solver_s += o.solver_s
        self.functions |= o.functions
        for k, v in o.covers.items():
            self.covers[k] = self.covers.get(k, 0) + v
        for k, v in o.labels.items():
            self.labels[k] = self.labels.get(k, 0) + v


class Engine:
    def __init__(self, query_timeout_ms=20000, max_steps=400000):
        self.stats = Stats()
        self.query_timeout_ms = query_timeout_ms
        self.max_steps = max_steps
        self.pending = []
        self.trace = []

    # -- one path ---------------------------------------------------------------------------
    def start_path(self, prefix):
        self.prefix = prefix
        self.decisions = []
        self.inputs = {}
        self.names = {}
        self.solver = z3.Solver()
        self.solver.set("timeout", self.query_timeout_ms)
        self.model = None
        self.steps = 0
        self.control = None
        self.trace = []
        self.fresh_n = 0
        self.bounds = {}
        self.atoms = {}
        self.quots = {}
        self.rounding = False
        self.model_hint = None
        self.keep = []

    def step(self):
        if self.control is not None:
            raise self.control
        self.steps += 1
        if self.steps > self.max_steps:
            raise self.stop(Inconclusive("step bound exceeded (unwinding bound)"))

    def stop(self, exc):
        """Remember a control exception so that code swallowing BaseException cannot hide it."""
        self.control = exc
        return exc

    # -- solver -----------------------------------------------------------------------------
    def _check(self, *assumptions):
        t = time.time()
        r = self.solver.check(*assumptions)
        self.stats.solver_s += time.time() - t
        self.stats.queries += 1
        if r == z3.unknown:
            t = time.time()
            r = self._second_opinion(assumptions)
            self.stats.solver_s += time.time() - t
        if r == z3.unknown:
            raise self.stop(Inconclusive("solver answered unknown: %s" % self.solver.reason_unknown()))
        return r == z3.sat

    def _second_opinion(self, assumptions):
        """the same query with another arithmetic core and other seeds"""
        for opt in (dict(), dict(arith=6), dict(arith=2), dict(seed=7)):
            s = z3.SimpleSolver() if "arith" in opt else z3.Solver()
            s.set("timeout", self.query_timeout_ms)
            if "arith" in opt:
                s.set("arith.solver", opt["arith"])
            if "seed" in opt:
                s.set("random_seed", opt["seed"])
            s.add(self.solver.assertions())
            s.add(*assumptions)
            r = s.check()
            if r != z3.unknown:
                if r == z3.sat and not assumptions:
                    self.model_hint = s.model()
                return r
        return z3.unknown

    def add(self, cond):
        """Assume without feasibility check (used for input domains)."""
        self.solver.add(cond)
        if self.model is not None and not z3.is_true(self.model.eval(cond, model_completion=True)):
            self.model = None

    def ensure_model(self):
        if self.model is None:
            if not self._check():
                raise self.stop(PathPruned("infeasible"))
            self.model = self.model_hint if self.model_hint is not None else self.solver.model()
            self.model_hint = None
        return self.model

    def branch(self, cond):
        if self.control is not None:
            raise self.control
        if isinstance(cond, bool):
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        i = len(self.decisions)
        if i < len(self.prefix):
            choice, forced = self.prefix[i]
            self.decisions.append((choice, forced))
            if not forced:
                self.solver.add(cond if choice else z3.Not(cond))
                self.model = None
            return choice
        ncond = z3.Not(cond)
        m = self.ensure_model()
        v = m.eval(cond, model_completion=True)
        if z3.is_true(v):
            cur = True
        elif z3.is_false(v):
            cur = False
        else:
            raise self.stop(Inconclusive("model does not evaluate a condition"))
        self.stats.model_hits += 1
        other = self._check(ncond if cur else cond)
        if other:
            alt_model = None
            self.pending.append(self.decisions + [(not cur, False)])
            self.stats.decisions += 1
            self.decisions.append((cur, False))
            self.solver.add(cond if cur else ncond)
        else:
            self.stats.forced += 1
            self.decisions.append((cur, True))
        return cur

    def assume(self, cond):
        if isinstance(cond, SymBool):
            cond = cond.t
        if isinstance(cond, bool):
            if not cond:
                raise self.stop(PathPruned("assume"))
            return
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return
        self.solver.add(cond)
        if self.model is not None and not z3.is_true(self.model.eval(cond, model_completion=True)):
            self.model = None
        if z3.is_false(cond):
            raise self.stop(PathPruned("assume"))
        if len(self.decisions) >= len(self.prefix):
            self.ensure_model()          # raises PathPruned when infeasible

    def check(self, cond, label, detail=""):
        """Property assertion: discharged iff path condition and not(cond) is unsat."""
        if self.control is not None:
            raise self.control
        st = self.stats
        st.labels[label] = st.labels.get(label, 0) + 1
        if isinstance(cond, SymBool):
            cond = cond.t
        if isinstance(cond, z3.BoolRef):
            cond = z3.simplify(cond)
            if z3.is_true(cond):
                cond = True
            elif z3.is_false(cond):
                cond = False
        else:
            cond = bool(cond)
        if cond is True:
            st.trivial += 1              # decided by constant folding on this path
            return
        if cond is False:
            self.ensure_model()
            raise self.stop(Violation(label, detail))
        st.obligations += 1
        if self._check(z3.Not(cond)):
            self.solver.add(z3.Not(cond))
            self.model = self.solver.model() if False else None
            self.ensure_model()
            raise self.stop(Violation(label, detail))
        self.solver.add(cond)            # entailed: a lemma for later queries

    # -- inputs -----------------------------------------------------------------------------
    def name(self, base):
        n = self.names.get(base, 0)
        self.names[base] = n + 1
        return base if n == 0 else "%s#%d" % (base, n)

    def input_int(self, name, lo=None, hi=None):
        name = self.name(name)
        t = z3.Int(name)
        self.inputs[name] = t
        if lo is not None:
            self.add(t >= lo)
        if hi is not None:
            self.add(t <= hi)
        if lo is not None and lo == hi:
            return lo
        if lo is not None and hi is not None:
            self.bounds[((t.get_id(), 1),)] = (lo, hi)
        return SymInt(t)

    def input_bool(self, name):
        name = self.name(name)
        t = z3.Bool(name)
        self.inputs[name] = t
        return SymBool(t)

    def input_char(self, name, dom):
        name = self.name(name)
        t = z3.Int(name)
        self.inputs[name] = t
        self.add(dom_formula(t, dom))
        self.bounds[((t.get_id(), 1),)] = (min(dom), max(dom))
        return t

    def fresh(self, sort="int"):
        self.fresh_n += 1
        n = "__f%d" % self.fresh_n
        return z3.Int(n) if sort == "int" else (z3.Real(n) if sort == "real" else z3.Bool(n))

    def define_quot(self, q, b, d):
        """q = floor(b/d)"""
        self.solver.add(q * d <= b, b < q * d + d)
        if self.model is not None:
            v = self.model.eval(b, model_completion=True)
            if z3.is_int_value(v):
                self.model.update_value(q, z3.IntVal(v.as_long() // d))
            else:
                self.model = None

    def assignment(self):
        m = self.ensure_model()
        out = {}
        for n, t in self.inputs.items():
            v = m.eval(t, model_completion=True)
            if z3.is_bool(t):
                out[n] = z3.is_true(v)
            else:
                out[n] = v.as_long()
        return out

    def value_of(self, x):
        """Concrete value of a symbolic value under the current model (for reports)."""
        m = self.ensure_model()
        return realize(x, m)


def intervals(values):
    out = []
    for v in sorted(values):
        if out and out[-1][1] == v - 1:
            out[-1][1] = v
        else:
            out.append([v, v])
    return out


def dom_formula(t, dom):
    fs = []
    for lo, hi in intervals(dom):
        fs.append(t == lo if lo == hi else z3.And(t >= lo, t <= hi))
    return z3.BoolVal(False) if not fs else (fs[0] if len(fs) == 1 else z3.Or(fs))


def realize(x, m):
    if isinstance(x, SymBool):
        return z3.is_true(m.eval(x.t, model_completion=True))
    if isinstance(x, SymInt):
        return m.eval(x.t, model_completion=True).as_long()
    if isinstance(x, SymFloat):
        return float(m.eval(x.t, model_completion=True).as_fraction())
    if hasattr(x, "_sx_realize"):
        return x._sx_realize(m)
    if isinstance(x, dict):
        return {realize(k, m): realize(v, m) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [realize(v, m) for v in x]
    return x


# --------------------------------------------------------------------------------------------
class Sym:
    __slots__ = ()


def is_sym(x):
    return isinstance(x, Sym)


def has_sym(x, depth=3):
    if isinstance(x, Sym):
        return True
    if depth and isinstance(x, (list, tuple, set, frozenset)):
        return any(has_sym(v, depth - 1) for v in x)
    if depth and isinstance(x, dict):
        return any(has_sym(k, depth - 1) or has_sym(v, depth - 1) for k, v in x.items())
    return getattr(type(x), "_sx_model", False) and x._sx_has_sym()


class SymBool(Sym):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return ENG.branch(self.t)

    def _b(self, o):
        if isinstance(o, SymBool):
            return o.t
        if isinstance(o, bool):
            return z3.BoolVal(o)
        return None

    def __and__(self, o):
        b = self._b(o)
        return NotImplemented if b is None else SymBool(z3.And(self.t, b))
    __rand__ = __and__

    def __or__(self, o):
        b = self._b(o)
        return NotImplemented if b is None else SymBool(z3.Or(self.t, b))
    __ror__ = __or__

    def __xor__(self, o):
        b = self._b(o)
        return NotImplemented if b is None else SymBool(z3.Xor(self.t, b))
    __rxor__ = __xor__

    def __invert__(self):
        return ~self._int()

    def _int(self):
        t = z3.If(self.t, z3.IntVal(1), z3.IntVal(0))
        ENG.atoms[t.get_id()] = t
        ENG.bounds[((t.get_id(), 1),)] = (0, 1)
        return SymInt.lf({t.get_id(): 1}, 0)

    def __eq__(self, o):
        b = self._b(o)
        if b is not None:
            return SymBool(self.t == b)
        if isinstance(o, (int, float, SymInt, SymFloat)):
            return self._int() == o
        return False

    def __ne__(self, o):
        return sx_not(self.__eq__(o))

    def __hash__(self):
        return hash(bool(self))

    def __add__(self, o): return self._int() + o
    __radd__ = __add__
    def __sub__(self, o): return self._int() - o
    def __rsub__(self, o): return o - self._int()
    def __mul__(self, o): return self._int() * o
    __rmul__ = __mul__
    def __lt__(self, o): return self._int() < o
    def __le__(self, o): return self._int() <= o
    def __gt__(self, o): return self._int() > o
    def __ge__(self, o): return self._int() >= o
    def __index__(self): return int(bool(self))
    def __int__(self): return int(bool(self))

    def __repr__(self):
        return "<SymBool %s>" % self.t


def sx_not(x):
    if isinstance(x, SymBool):
        return SymBool(z3.Not(x.t))
    return not x


def zbool(x):
    """z3 term of a python/symbolic truth value (no forking)."""
    if isinstance(x, SymBool):
        return x.t
    return z3.BoolVal(bool(x))


def And(*xs):
    ts = []
    for x in xs:
        if isinstance(x, SymBool):
            ts.append(x.t)
        elif not x:
            return False
    if not ts:
        return True
    return SymBool(z3.And(ts))


def Or(*xs):
    ts = []
    for x in xs:
        if isinstance(x, SymBool):
            ts.append(x.t)
        elif x:
            return True
    if not ts:
        return False
    return SymBool(z3.Or(ts))


Not = sx_not


def Implies(a, b):
    return Or(sx_not(a), b)


def ite(c, a, b):
    """If-then-else on ints without forking."""
    if isinstance(c, SymBool):
        if isinstance(a, (SymFloat, float)) or isinstance(b, (SymFloat, float)):
            qa, qb = as_q(a), as_q(b)
            if qa is not None and qb is not None and qa[1] == qb[1]:
                return SymFloat.q(ite(c, qa[0], qb[0]), qa[1])
            return SymFloat(z3.If(c.t, to_real(a), to_real(b)))
        d = a - b
        if isinstance(d, int):
            if d == 0:
                return a
            return c._int() * d + b
        r = SymInt(z3.If(c.t, to_int(a), to_int(b)))
        ra, rb = rng(a), rng(b)
        lo = None if ra[0] is None or rb[0] is None else min(ra[0], rb[0])
        hi = None if ra[1] is None or rb[1] is None else max(ra[1], rb[1])
        if lo is not None and hi is not None:
            note_bounds_lf(r.co, r.k, lo, hi)
        return r
    return a if c else b


def to_int(x):
    if isinstance(x, SymInt):
        return x.t
    if isinstance(x, SymBool):
        return x._int().t
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    return None


def frac(x):
    if isinstance(x, float):
        return Fraction(repr(x))        # floats are idealised as the decimal they print as
    return Fraction(x)


def to_real(x):
    if isinstance(x, SymFloat):
        return x.t
    if isinstance(x, SymInt):
        return z3.ToReal(x.t)
    if isinstance(x, SymBool):
        return z3.ToReal(x._int().t)
    if isinstance(x, (bool, int)):
        return z3.RealVal(int(x))
    if isinstance(x, float):
        if x != x or x in (float("inf"), float("-inf")):
            return None
        f = frac(x)
        return z3.RealVal(str(f))
    return None


def mkint(t):
    if isinstance(t, (int, SymInt)):
        return t
    t = z3.simplify(t)
    if z3.is_int_value(t):
        return t.as_long()
    return SymInt(t)


def mkfloat(t):
    t = z3.simplify(t)
    if z3.is_rational_value(t):
        return float(t.as_fraction())
    return SymFloat(t)


def linear(t):
    """({id: coef}, const, {id: term}) of a z3 integer term; non-linear subterms are atoms."""
    co, at, k = {}, {}, 0
    stack = [(t, 1)]
    while stack:
        x, c = stack.pop()
        if z3.is_int_value(x):
            k += c * x.as_long()
            continue
        kind = x.decl().kind()
        if kind == z3.Z3_OP_ADD:
            for y in x.children():
                stack.append((y, c))
        elif kind == z3.Z3_OP_SUB:
            ch = x.children()
            stack.append((ch[0], c))
            for y in ch[1:]:
                stack.append((y, -c))
        elif kind == z3.Z3_OP_UMINUS:
            stack.append((x.arg(0), -c))
        elif kind == z3.Z3_OP_MUL:
            num, rest = 1, []
            for y in x.children():
                if z3.is_int_value(y):
                    num *= y.as_long()
                else:
                    rest.append(y)
            if not rest:
                k += c * num
            elif len(rest) == 1:
                stack.append((rest[0], c * num))
            else:
                y = rest[0]
                for z in rest[1:]:
                    y = y * z
                y = z3.simplify(y)
                i = y.get_id()
                co[i] = co.get(i, 0) + c * num
                at[i] = y
        else:
            i = x.get_id()
            co[i] = co.get(i, 0) + c
            at[i] = x
    return {i: c for i, c in co.items() if c}, k, at


def unlinear(co, k, at):
    ts = [at[i] if c == 1 else at[i] * c for i, c in co.items()]
    if k or not ts:
        ts.append(z3.IntVal(k))
    return ts[0] if len(ts) == 1 else z3.Sum(ts)


def var_range(co):
    """interval of the variable part, from the bounds known on this path (None = unbounded)"""
    lo = hi = 0
    B = ENG.bounds
    for i, c in co.items():
        b = B.get(((i, 1),))
        if b is None:
            lo = hi = None
            break
        a, z = (b[0] * c, b[1] * c) if c > 0 else (b[1] * c, b[0] * c)
        lo += a
        hi += z
    b = B.get(tuple(sorted(co.items())))
    if b is not None:
        lo = b[0] if lo is None else max(lo, b[0])
        hi = b[1] if hi is None else min(hi, b[1])
    return lo, hi


def rng(x):
    """known (lo, hi) of an int or SymInt"""
    if isinstance(x, SymInt):
        lo, hi = var_range(x.co)
        return (None if lo is None else lo + x.k), (None if hi is None else hi + x.k)
    return int(x), int(x)


def note_bounds_lf(co, k, lo, hi):
    """the form is known to lie in lo..hi from here on"""
    if co:
        key = tuple(sorted(co.items()))
        b = ENG.bounds.get(key)
        lo, hi = lo - k, hi - k
        if b is not None:
            lo, hi = max(lo, b[0]), min(hi, b[1])
        ENG.bounds[key] = (lo, hi)


def quot_lf(co, k, d):
    """floor((co+k)/d) for d > 0 as a linear form: exact division where possible, else one fresh integer with its
    defining bounds"""
    if d == 1:
        return co, k
    A = {i: c // d for i, c in co.items() if c % d == 0}
    B = {i: c for i, c in co.items() if c % d}
    ka, kb = divmod(k, d)
    if not B:
        return A, ka
    lo, hi = var_range(B)
    if lo is not None and hi is not None and (lo + kb) // d == (hi + kb) // d:
        return A, ka + (lo + kb) // d
    key = (tuple(sorted(B.items())), kb, d)
    q = ENG.quots.get(key)
    if q is None:
        b = unlinear(B, kb, ENG.atoms)
        q = ENG.fresh()
        ENG.define_quot(q, b, d)
        ENG.quots[key] = q
        ENG.atoms[q.get_id()] = q
        if lo is not None and hi is not None:
            ENG.bounds[((q.get_id(), 1),)] = ((lo + kb) // d, (hi + kb) // d)
    i = q.get_id()
    A[i] = A.get(i, 0) + 1
    if A[i] == 0:
        del A[i]
    return A, ka


def quot(t, d):
    if d == 1:
        return t
    co, k, at = linear(t)
    ENG.atoms.update(at)
    co, k = quot_lf(co, k, d)
    return unlinear(co, k, ENG.atoms)


def floordiv_t(a, b):
    """floor division of z3 int a by python int b != 0."""
    if b > 0:
        return quot(a, b)
    return quot(-a, -b)


def mod_t(a, b):
    q = floordiv_t(a, b)
    co, k, at = linear(a - q * b)
    ENG.atoms.update(at)
    return unlinear(co, k, at)


class SymInt(Sym):
    """linear form over z3 integer atoms; the z3 term is built when needed"""
    __slots__ = ("_t", "co", "k")

    def __init__(self, t):
        co, k, at = linear(t)
        ENG.atoms.update(at)
        self.co, self.k = co, k
        self._t = t

    @staticmethod
    def lf(co, k):
        if not co:
            return k
        r = SymInt.__new__(SymInt)
        r.co, r.k, r._t = co, k, None
        return r

    @property
    def t(self):
        if self._t is None:
            self._t = unlinear(self.co, self.k, ENG.atoms)
        return self._t

    # arithmetic
    @staticmethod
    def _co(x):
        """(coefs, const) of an int-like operand"""
        if isinstance(x, SymInt):
            return x.co, x.k
        if isinstance(x, int):
            return {}, int(x)
        if isinstance(x, SymBool):
            x = x._int()
            return x.co, x.k
        return None

    def _lin(self, o, s1, s2):
        b = self._co(o)
        if b is None:
            return NotImplemented
        co2, k2 = b
        if s1 == 1:
            co = dict(self.co)
        else:
            co = {i: -c for i, c in self.co.items()}
        for i, c in co2.items():
            c = co.get(i, 0) + s2 * c
            if c:
                co[i] = c
            else:
                del co[i]
        return SymInt.lf(co, s1 * self.k + s2 * k2)

    def _fl(self):
        return SymFloat.q(self, 1)

    def __add__(self, o):
        if isinstance(o, float): return self._fl() + o
        return self._lin(o, 1, 1)

    def __radd__(self, o):
        if isinstance(o, float): return self._fl() + o
        return self._lin(o, 1, 1)

    def __sub__(self, o):
        if isinstance(o, float): return self._fl() - o
        return self._lin(o, 1, -1)

    def __rsub__(self, o):
        if isinstance(o, float): return o - self._fl()
        return self._lin(o, -1, 1)

    def __mul__(self, o):
        if isinstance(o, float): return self._fl() * o
        if isinstance(o, (str, list, tuple)):
            return o * concretize(self)
        if getattr(o, "_sx_is_str", False):
            return o * concretize(self)
        if isinstance(o, int):
            o = int(o)
            if o == 0:
                return 0
            return SymInt.lf({i: c * o for i, c in self.co.items()}, self.k * o)
        b = to_int(o)
        if b is None:
            return NotImplemented
        return mkint(self.t * b)

    __rmul__ = __mul__

    def _divisor(self, o):
        if isinstance(o, SymInt):
            if o == 0:
                raise ZeroDivisionError("integer division or modulo by zero")
            return concretize(o)
        if isinstance(o, bool):
            o = int(o)
        return o

    def _quot(self, d):
        if d > 0:
            return SymInt.lf(*quot_lf(self.co, self.k, d))
        return SymInt.lf(*quot_lf({i: -c for i, c in self.co.items()}, -self.k, -d))

    def __floordiv__(self, o):
        if isinstance(o, float): return self._fl() // o
        if not isinstance(o, (int, SymInt)): return NotImplemented
        o = self._divisor(o)
        if o == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        return self._quot(o)

    def __mod__(self, o):
        if isinstance(o, float): return self._fl() % o
        if not isinstance(o, (int, SymInt)): return NotImplemented
        o = self._divisor(o)
        if o == 0:
            raise ZeroDivisionError("integer modulo by zero")
        return self - self._quot(o) * o

    def __rfloordiv__(self, o): return o // concretize(self)
    def __rmod__(self, o):
        if isinstance(o, int): return o % concretize(self)
        return NotImplemented

    def __divmod__(self, o): return self // o, self % o
    def __rdivmod__(self, o): return o // self, o % self

    def __truediv__(self, o): return self._fl() / o
    def __rtruediv__(self, o): return o / self._fl()

    def __pow__(self, o):
        o = o if isinstance(o, int) else concretize(o)
        r = 1
        for _ in range(o):
            r = self * r
        return r

    def __neg__(self): return self._lin(0, -1, 1)
    def __pos__(self): return self
    def __abs__(self):
        lo, hi = var_range(self.co)
        if lo is not None and lo + self.k >= 0:
            return self
        if hi is not None and hi + self.k <= 0:
            return -self
        return SymInt(z3.If(self.t >= 0, self.t, -self.t))


    def __and__(self, o):
        if isinstance(o, int) and o >= 0 and (o & (o + 1)) == 0:
            return self % (o + 1)
        if isinstance(o, int):
            return concretize(self) & o
        return NotImplemented
    __rand__ = __and__

    def __rshift__(self, o): return self // (1 << (o if isinstance(o, int) else concretize(o)))
    def __lshift__(self, o): return self * (1 << (o if isinstance(o, int) else concretize(o)))
    def __or__(self, o): return concretize(self) | o
    __ror__ = __or__
    def __xor__(self, o): return concretize(self) ^ o
    __rxor__ = __xor__
    def __invert__(self): return -self - 1

    # comparison
    def _cmp(self, o, f, op):
        if isinstance(o, (SymFloat, float)):
            return self._fl()._cmp(o, f)
        d = self._lin(o, 1, -1)
        if d is NotImplemented:
            return NotImplemented
        if isinstance(d, int):
            return f(d, 0)
        lo, hi = var_range(d.co)
        lo = None if lo is None else lo + d.k
        hi = None if hi is None else hi + d.k
        if op == "lt":
            if hi is not None and hi < 0: return True
            if lo is not None and lo >= 0: return False
        elif op == "le":
            if hi is not None and hi <= 0: return True
            if lo is not None and lo > 0: return False
        elif op == "gt":
            if lo is not None and lo > 0: return True
            if hi is not None and hi <= 0: return False
        elif op == "ge":
            if lo is not None and lo >= 0: return True
            if hi is not None and hi < 0: return False
        else:
            if (hi is not None and hi < 0) or (lo is not None and lo > 0): return False
        return SymBool(f(unlinear(d.co, 0, ENG.atoms), z3.IntVal(-d.k)))

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b, "lt")
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b, "le")
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b, "gt")
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b, "ge")

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b, "eq")
        return False if r is NotImplemented else r

    def __ne__(self, o):
        return sx_not(self.__eq__(o))

    def __hash__(self):
        if HASH_BY_ID:
            return id(self) >> 4
        return hash(concretize(self))

    def __bool__(self): return bool(sx_not(self == 0))
    def __index__(self): return concretize(self)
    def __int__(self): return concretize(self)
    def __float__(self): return float(concretize(self))
    def __round__(self, n=None): return self
    def __trunc__(self): return self
    def __floor__(self): return self
    def __ceil__(self): return self

    def bit_length(self): return concretize(self).bit_length()
    @property
    def real(self): return self
    @property
    def imag(self): return 0
    def is_integer(self): return True
    def conjugate(self): return self

    def __format__(self, spec):
        return "<sym>"

    def __repr__(self):
        return "<SymInt %s>" % self.t


HASH_BY_ID = False


def set_hash_by_id(v):
    global HASH_BY_ID
    old = HASH_BY_ID
    HASH_BY_ID = v
    return old


class SymFloat(Sym):
    """float, idealised as an exact real (see DESIGN.md: rounding is outside the claim unless
    Engine.rounding is on, in which case every inexact operation is over-approximated).
    Kept as integer/constant (n/d, n a SymInt) as long as possible so that queries stay in linear integer arithmetic."""
    __slots__ = ("_t", "n", "d")

    def __init__(self, t, n=None, d=None):
        self._t = t
        self.n = n
        self.d = d

    @staticmethod
    def q(n, d):
        """n/d; n int, SymInt or z3 int term, d python int > 0"""
        if isinstance(n, z3.ExprRef):
            n = mkint(n)
        if isinstance(n, int):
            return float(Fraction(int(n), d))
        return SymFloat(None, n, d)

    @property
    def t(self):
        if self._t is None:
            self._t = z3.ToReal(self.n.t) / self.d if self.d != 1 else z3.ToReal(self.n.t)
        return self._t

    @staticmethod
    def _rnd(t):
        if ENG is not None and getattr(ENG, "rounding", False):
            return rounded(t)
        return t if isinstance(t, SymFloat) else SymFloat(t)

    def _bin(self, o, op):
        rnd = ENG is not None and getattr(ENG, "rounding", False)
        if rnd != True and self.n is not None:
            b = as_q(o)
            if b is not None:
                r = q_op(op, (self.n, self.d), b)
                if r is not None:
                    r = SymFloat.q(*r)
                    return r if not rnd or not isinstance(r, SymFloat) else rounded(r)
        b = to_real(o)
        if b is None:
            return NotImplemented
        a = self.t
        t = {"add": lambda: a + b, "sub": lambda: a - b, "rsub": lambda: b - a, "mul": lambda: a * b,
             "div": lambda: a / b, "rdiv": lambda: b / a}[op]()
        return rounded(t) if rnd else SymFloat(t)

    def __add__(self, o): return self._bin(o, "add")
    def __radd__(self, o): return self._bin(o, "add")
    def __sub__(self, o): return self._bin(o, "sub")
    def __rsub__(self, o): return self._bin(o, "rsub")
    def __mul__(self, o): return self._bin(o, "mul")
    def __rmul__(self, o): return self._bin(o, "mul")

    def __truediv__(self, o):
        b = to_real(o)
        if b is None:
            return NotImplemented
        if SymBool(b == 0):
            raise ZeroDivisionError("float division by zero")
        return self._bin(o, "div")

    def __rtruediv__(self, o):
        if to_real(o) is None:
            return NotImplemented
        if self == 0:
            raise ZeroDivisionError("float division by zero")
        return self._bin(o, "rdiv")

    def __floordiv__(self, o):
        q = self / o
        q = q if isinstance(q, SymFloat) else SymFloat(to_real(q))
        return SymFloat.q(q.floor_i(), 1)

    def __mod__(self, o):
        return self - (self // o) * o

    def __rmod__(self, o):
        o = SymFloat(to_real(o))
        return o - (o // self) * self

    def __rfloordiv__(self, o):
        return SymFloat(to_real(o)) // self

    def __divmod__(self, o): return self // o, self % o

    def __pow__(self, o):
        o = o if isinstance(o, int) else concretize(o)
        r = 1.0
        for _ in range(o):
            r = self * r
        return r

    def __neg__(self): return SymFloat.q(-self.n, self.d) if self.n is not None else SymFloat(-self.t)
    def __pos__(self): return self
    def __abs__(self):
        if self.n is not None:
            return SymFloat.q(abs(self.n), self.d)
        return SymFloat(z3.If(self.t >= 0, self.t, -self.t))

    def _cmp(self, o, f):
        if isinstance(o, float) and (o != o or o in (float("inf"), float("-inf"))):
            return bool(f(0.0, o))
        if self.n is not None:
            b = as_q(o)
            if b is not None:
                return f(self.n * b[1], b[0] * self.d)
        b = to_real(o)
        if b is None:
            return NotImplemented
        return SymBool(f(self.t, b))

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o): return sx_not(self.__eq__(o))
    def __hash__(self):
        if HASH_BY_ID:
            return id(self) >> 4
        raise ENG.stop(Unsupported("hash of symbolic float"))
    def __bool__(self): return bool(self.n != 0) if self.n is not None else ENG.branch(self.t != 0)

    def floor_i(self):
        if self.n is not None:
            return self.n // self.d
        return mkint(z3.ToInt(self.t))

    def trunc(self):
        if self.n is not None:
            if self.d == 1:
                return self.n
            lo, hi = var_range(self.n.co)
            if lo is not None and lo + self.n.k >= 0:
                return self.n // self.d
            return ite(self.n >= 0, self.n // self.d, -(-self.n // self.d))
        return mkint(z3.If(self.t >= 0, z3.ToInt(self.t), -z3.ToInt(-self.t)))

    def __floor__(self): return self.floor_i()
    def __ceil__(self): return -((-self).floor_i())
    def __trunc__(self): return self.trunc()

    def __int__(self):
        r = self.trunc()
        return r if isinstance(r, int) else concretize(r)

    def __float__(self):
        raise ENG.stop(Unsupported("float() of a symbolic float in uninstrumented code"))

    def is_integer(self):
        if self.n is not None:
            return (self.n % self.d == 0) if self.d != 1 else True
        return SymBool(z3.IsInt(self.t))

    def rhe(self, k=1):
        """round half even of self*k, as int or SymInt."""
        if self.n is not None:
            if k % self.d == 0:
                return self.n * (k // self.d)
            num, den = self.n * k, self.d
            f = num // den
            r2 = (num - f * den) * 2
            return ite(r2 < den, f, ite(r2 > den, f + 1, ite(f % 2 == 0, f, f + 1)))
        return mkint(round_half_even(self.t * k if k != 1 else self.t))

    def __round__(self, n=None):
        if n is None:
            return self.rhe()
        n = n if isinstance(n, int) else concretize(n)
        if n < 0:
            raise ENG.stop(Unsupported("round to negative digits"))
        if self.n is not None and (10 ** n) % self.d == 0:
            return self
        return SymFloat.q(self.rhe(10 ** n), 10 ** n)

    def __format__(self, spec): return "<sym>"
    def __repr__(self): return "<SymFloat %s>" % self.t


def as_q(o):
    """(int or SymInt, python int denominator) of an exactly rational operand, or None."""
    if isinstance(o, SymFloat):
        return None if o.n is None else (o.n, o.d)
    if isinstance(o, SymBool):
        return o._int(), 1
    if isinstance(o, SymInt):
        return o, 1
    if isinstance(o, int):
        return int(o), 1
    if isinstance(o, float):
        if o != o or o in (float("inf"), float("-inf")):
            return None
        f = frac(o)
        return f.numerator, f.denominator
    return None


def q_op(op, a, b):
    import math
    (an, ad), (bn, bd) = a, b
    if op in ("add", "sub", "rsub"):
        l = ad * bd // math.gcd(ad, bd)
        x = an * (l // ad) if l != ad else an
        y = bn * (l // bd) if l != bd else bn
        return x + y if op == "add" else x - y if op == "sub" else y - x, l
    if op == "mul":
        if isinstance(bn, int):
            an, ad, bn, bd = bn, bd, an, ad
        if not isinstance(an, int):
            return an * bn, ad * bd
        d = ad * bd
        g = math.gcd(abs(an), d) or 1
        return bn * (an // g), d // g
    if op == "div" and isinstance(bn, int):
        if bn == 0:
            return None
        if bn < 0:
            an, bn = -an, -bn
        num, den = bd, ad * bn
        g = math.gcd(num, den)
        return an * (num // g), den // g
    return None


def round_half_even(t):
    f = ENG.fresh()
    h = ENG.fresh()
    half = z3.RealVal("1/2")
    d = t - z3.ToReal(f)
    ENG.add(z3.And(d <= half, -d <= half, z3.Implies(z3.Or(d == half, d == -half), f == 2 * h)))
    return f


def rounded_exact(n, d, most=64):
    """the IEEE double nearest to n/d, exactly (round half to even), forking over sign, zero and the binades of
    its known range; None when the range is unknown or spans more than `most` binades."""
    lo, hi = rng(n)
    if lo is None or hi is None:
        return None
    if lo < 0:
        if hi >= 0:
            if n >= 0:
                if isinstance(n, SymInt):
                    note_bounds_lf(n.co, n.k, 0, hi)
                return rounded_exact(n, d, most)
            note_bounds_lf(n.co, n.k, lo, -1)
            return None if (r := rounded_exact(-n, d, most)) is None else -r
        r = rounded_exact(-n, d, most)
        return None if r is None else -r
    if lo == 0:
        if n == 0:
            return 0.0
        lo = 1

    def binade(x):
        e = x.numerator.bit_length() - x.denominator.bit_length()
        return e if Fraction(2) ** e <= x else e - 1
    a, b = binade(Fraction(lo, d)), binade(Fraction(hi, d))
    if b - a >= most or a < -900 or b > 900:
        return None
    for e in range(a, b + 1):
        if e == b or (n < (2 ** (e + 1) * d if e >= -1 else -(-d // 2 ** (-e - 1)))):
            break
    lo = max(lo, d * 2 ** e if e >= 0 else -(-d // 2 ** -e))
    hi = min(hi, d * 2 ** (e + 1) - 1 if e >= -1 else -(-d // 2 ** (-e - 1)) - 1)
    if isinstance(n, SymInt):
        note_bounds_lf(n.co, n.k, lo, hi)
    k = 52 - e
    if k >= 0:
        if 2 ** k % d == 0:
            return SymFloat.q(n, d)
        m = SymFloat.q(n, d).rhe(2 ** k)
        if isinstance(m, SymInt):
            note_bounds_lf(m.co, m.k, max(2 ** 52, lo * 2 ** k // d), min(2 ** 53, -(-hi * 2 ** k // d)))
        return SymFloat.q(m, 2 ** k)
    return SymFloat.q(SymFloat.q(n, d * 2 ** -k).rhe() * 2 ** -k, 1)


def rounded(t):
    """IEEE double result of an exact real t. Engine.rounding == "exact": exactly, where the range of the operand is
    known; otherwise over-approximated by relative error 2^-53, never crossing an integer of magnitude < 2^53
    (integers are representable and rounding is monotone)."""
    if isinstance(t, SymFloat) and ENG.rounding == "exact" and t.n is not None:
        r = rounded_exact(t.n, t.d)
        if r is not None:
            return r
    if isinstance(t, SymFloat):
        if t.n is not None and t.d == 1:
            lo, hi = rng(t.n)
            if lo is not None and hi is not None and -2 ** 53 < lo and hi < 2 ** 53:
                return t
        t = t.t
    t = z3.simplify(t)
    if z3.is_rational_value(t):
        return SymFloat(z3.RealVal(str(Fraction(float(t.as_fraction())))))
    r = ENG.fresh("real")
    e = z3.RealVal(str(Fraction(1, 2 ** 53)))
    a = z3.If(t >= 0, t, -t)
    ENG.add(z3.And(r - t <= a * e, t - r <= a * e,
                   z3.ToReal(z3.ToInt(t)) <= r, r <= z3.ToReal(-z3.ToInt(-t)),
                   *[z3.Implies(a < 2 ** k, z3.And(r - t <= h, t - r <= h))
                     for k in (31, 32, 33, 34, 43, 44) for h in [z3.RealVal(str(Fraction(2) ** (k - 54)))]]))
    return SymFloat(r)


def concretize(x, limit=64):
    """Fork over the feasible concrete values of a symbolic int (complete: the last branch has no
    other value; more than `limit` values is inconclusive, never silently truncated)."""
    if isinstance(x, SymBool):
        return int(bool(x))
    if not isinstance(x, SymInt):
        return x
    t = z3.simplify(x.t)
    if z3.is_int_value(t):
        return t.as_long()
    for _ in range(limit):
        i = len(ENG.decisions)
        if i < len(ENG.prefix):
            v = ENG.conc_replay(t)
        else:
            v = None
        if v is None:
            v = ENG.ensure_model().eval(t, model_completion=True).as_long()
        ENG.conc_log(v)
        if ENG.branch(t == v):
            return v
    raise ENG.stop(Inconclusive("too many values to concretise"))


# concretisation must be deterministic on re-execution: remember the candidate values by decision index
def _conc_replay(self, t):
    return self.prefix_vals.get(len(self.decisions))


def _conc_log(self, v):
    self.vals[len(self.decisions)] = v


Engine.conc_replay = _conc_replay
Engine.conc_log = _conc_log


# --------------------------------------------------------------------------------------------
class Work:
    """A pending path: decisions plus the concretisation candidates used along them."""
    __slots__ = ("decisions", "vals")

    def __init__(self, decisions, vals):
        self.decisions = decisions
        self.vals = vals


class PathResult:
    __slots__ = ("status", "label", "detail", "assignment", "obs", "n")

    def __init__(self, status, label="", detail="", assignment=None, obs=None):
        self.status, self.label, self.detail, self.assignment, self.obs = status, label, detail, assignment, obs


def run_path(engine, work, fn, want_assignment=False):
    """Execute fn once along work; push the alternatives it discovers on engine.pending (as Work)."""
    global ENG
    ENG = engine
    engine.start_path(work.decisions)
    engine.prefix_vals = work.vals
    engine.vals = dict(work.vals)
    engine.pending = []
    try:
        obs = fn(engine)
        if engine.control is not None:
            raise engine.control
        engine.stats.paths += 1
        res = PathResult("ok", obs=None)
        if want_assignment:
            res.assignment = engine.assignment()
            m = engine.model
            res.obs = realize(obs, m) if obs is not None else None
    except PathPruned:
        engine.stats.pruned += 1
        res = PathResult("pruned")
    except Violation as v:
        engine.stats.paths += 1
        res = PathResult("violation", v.label, v.detail, engine.assignment())
    except Inconclusive as e:
        res = PathResult("inconclusive", str(e) or type(e).__name__, "", None)
        res.detail = describe_tb(e)
    except Exception as e:     # escaped exception of the code under test / the scenario
        if engine.control is not None:
            return _from_control(engine)
        engine.stats.paths += 1
        try:
            res = PathResult("violation", "uncaught %s" % type(e).__name__, describe_tb(e), engine.assignment())
        except SxControl:
            engine.stats.pruned += 1
            res = PathResult("pruned")
    out = [Work(d, {k: v for k, v in engine.vals.items() if k < len(d)}) for d in engine.pending]
    engine.pending = []
    return res, out


def _from_control(engine):
    c = engine.control
    out = [Work(d, {k: v for k, v in engine.vals.items() if k < len(d)}) for d in engine.pending]
    engine.pending = []
    if isinstance(c, PathPruned):
        engine.stats.pruned += 1
        return PathResult("pruned"), out
    if isinstance(c, Violation):
        engine.stats.paths += 1
        return PathResult("violation", c.label, c.detail, engine.assignment()), out
    return PathResult("inconclusive", str(c), describe_tb(c)), out


def describe_tb(e):
    import traceback
    tb = traceback.extract_tb(e.__traceback__)
    return "%s: %s\n%s" % (type(e).__name__, safe_str(e), "\n".join("  %s:%s %s: %s" % (f.filename, f.lineno, f.name, f.line) for f in tb[-14:]))


def safe_str(e):
    try:
        return str(e)
    except BaseException:
        try:
            return repr(e.args)
        except BaseException:
            return "<unprintable>"
