"""Symbolic values and path exploration (z3 back end).

SymReal / SymInt / SymBool wrap z3 terms and overload Python's operators, so the
*real* festim source is executed on them unchanged.  A branch on a SymBool asks
z3 which outcomes are feasible under the current path condition and the
exploration is a depth first search by re-execution.

Solver front end: divisions are removed by bringing every (in)equality over a
common denominator, exp/sqrt/pow/... applications become atoms with axioms
(`Prep`), and the resulting polynomial query is handed to z3.
"""
import sys
import time
from fractions import Fraction

_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _VT not in sys.path:
    sys.path.append(_VT)
import z3  # noqa: E402


class EngineError(BaseException):
    """The engine met something it does not model (never a property verdict)."""


class PathAbort(BaseException):
    """The current path is infeasible or deliberately cut."""


class StopHarness(BaseException):
    """A harness has seen enough of this path."""


def frac(x):
    """exact rational of a constant; floats are read to 13 significant digits"""
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, int):
        return Fraction(x)
    if isinstance(x, Fraction):
        return x
    x = float(x)
    if x != x or x in (float("inf"), float("-inf")):
        raise EngineError("nan/inf constant")
    return Fraction(format(x, ".13g"))


def zreal(x):
    f = frac(x)
    return z3.RealVal(str(f.numerator) + "/" + str(f.denominator)) if f.denominator != 1 else z3.RealVal(f.numerator)


R = z3.RealSort()
EXP = z3.Function("EXP", R, R)
SQRT = z3.Function("SQRT", R, R)
POW = z3.Function("POW", R, R, R)
UNARY = {n: z3.Function(n.upper(), R, R) for n in ("sin", "cos", "tan", "log", "tanh", "atan", "erf", "asin", "acos", "sinh", "cosh")}


# ---------------------------------------------------------------- values
def is_num(x):
    import numbers

    if isinstance(x, (SymReal, SymInt)):
        return True
    return isinstance(x, numbers.Real) and not isinstance(x, SymBool)


def term(x):
    """z3 real term of a number (symbolic or not)"""
    if isinstance(x, SymReal):
        return x.z
    if isinstance(x, SymInt):
        return z3.ToReal(x.z)
    if isinstance(x, SymBool):
        return z3.If(x.z, z3.RealVal(1), z3.RealVal(0))
    return zreal(x)


def _is_ufl(x):
    return hasattr(x, "ufl_shape")


def _is_sympy(x):
    return hasattr(x, "free_symbols") and hasattr(x, "is_commutative")


class _Num:
    __slots__ = ()
    __array_priority__ = -1.0
    ufl_hook = None  # set by the fake fenics module: SymReal -> ufl leaf

    def _co(self, o):
        if isinstance(o, (SymReal, SymInt)):
            return o
        if _is_ufl(o) or _is_sympy(o):
            return None
        if isinstance(o, SymBool):
            return SymReal(term(o))
        if is_num(o):
            return o
        return None

    def _bin(self, o, op, rop=False):
        if _is_ufl(o) or type(o).__name__ in ("Measure", "Form", "MeasureSum"):
            leaf = _Num.ufl_hook(self)
            return op(o, leaf) if rop else op(leaf, o)
        c = self._co(o)
        if c is None:
            return NotImplemented
        a, b = (c, self) if rop else (self, c)
        return _arith(op, a, b)

    def __add__(self, o):
        return self._bin(o, _add)

    def __radd__(self, o):
        return self._bin(o, _add, True)

    def __sub__(self, o):
        return self._bin(o, _sub)

    def __rsub__(self, o):
        return self._bin(o, _sub, True)

    def __mul__(self, o):
        return self._bin(o, _mul)

    def __rmul__(self, o):
        return self._bin(o, _mul, True)

    def __truediv__(self, o):
        return self._bin(o, _div)

    def __rtruediv__(self, o):
        return self._bin(o, _div, True)

    def __pow__(self, o):
        return self._bin(o, _pow)

    def __rpow__(self, o):
        return self._bin(o, _pow, True)

    def __mod__(self, o):
        return self._bin(o, _mod)

    def __rmod__(self, o):
        return self._bin(o, _mod, True)

    def __floordiv__(self, o):
        return self._bin(o, _floordiv)

    def __rfloordiv__(self, o):
        return self._bin(o, _floordiv, True)

    def __divmod__(self, o):
        return self // o, self % o

    def __neg__(self):
        return self * (-1)

    def __pos__(self):
        return self

    def __abs__(self):
        return type(self)(z3.If(self.z >= 0, self.z, -self.z))

    def _cmp(self, o, f):
        if o is None:
            return NotImplemented
        if _is_ufl(o):
            return NotImplemented
        if _is_sympy(o):
            return NotImplemented
        if not is_num(o):
            return NotImplemented
        if isinstance(self, SymInt) and isinstance(o, SymInt):
            return SymBool(f(self.z, o.z))
        if isinstance(self, SymInt) and isinstance(o, int):
            return SymBool(f(self.z, z3.IntVal(int(o))))
        if isinstance(o, float) and o in (float("inf"), float("-inf")):
            return bool(f(0, o))
        return SymBool(f(term(self), term(o)))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b)

    def __hash__(self):
        return 7

    def __bool__(self):
        return bool(SymBool(self.z != 0))

    def __float__(self):
        raise EngineError("float() of a symbolic value at a C boundary")

    def __format__(self, spec):
        return "<%s|%s>" % (name_of(self), spec) if spec else "<%s>" % name_of(self)

    def __repr__(self):
        return "<%s>" % name_of(self)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def _sympy_(self):
        import sympy

        return sympy.Symbol(name_of(self))

    def item(self):
        return self

    # numpy object array hooks
    def exp(self):
        return SymReal(EXP(term(self)))

    def sqrt(self):
        return SymReal(SQRT(term(self)))

    def conjugate(self):
        return self

    @property
    def real(self):
        return self


for _n in UNARY:

    def _mk(n):
        def fn(self):
            return SymReal(UNARY[n](term(self)))

        return fn

    setattr(_Num, _n, _mk(_n))


class SymReal(_Num):
    __slots__ = ("z",)

    def __init__(self, z):
        self.z = z

    def __int__(self):
        raise EngineError("int() of a symbolic real")

    def __round__(self, n=None):
        return CTX().fresh_real("round")

    def is_integer(self):
        return SymBool(z3.IsInt(self.z))

    def __floor__(self):
        return SymInt(z3.ToInt(self.z))

    def __ceil__(self):
        return SymInt(-z3.ToInt(-self.z))

    def __trunc__(self):
        return SymInt(z3.If(self.z >= 0, z3.ToInt(self.z), -z3.ToInt(-self.z)))

    def floor(self):
        return SymReal(z3.ToReal(z3.ToInt(self.z)))

    def ceil(self):
        return SymReal(-z3.ToReal(z3.ToInt(-self.z)))


class SymInt(_Num):
    __slots__ = ("z",)

    def __init__(self, z):
        self.z = z

    def __index__(self):
        raise EngineError("symbolic int used as an index")

    def __int__(self):
        raise EngineError("int() of a symbolic int")

    def __round__(self, n=None):
        return self


class SymBool:
    __slots__ = ("z",)

    def __init__(self, z):
        self.z = z

    def __bool__(self):
        return CTX().branch(self.z)

    def __and__(self, o):
        return SymBool(z3.And(self.z, zbool(o)))

    __rand__ = __and__

    def __or__(self, o):
        return SymBool(z3.Or(self.z, zbool(o)))

    __ror__ = __or__

    def __invert__(self):
        return SymBool(z3.Not(self.z))

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            return SymBool(self.z == zbool(o))
        return NotImplemented

    def __ne__(self, o):
        if isinstance(o, (bool, SymBool)):
            return SymBool(self.z != zbool(o))
        return NotImplemented

    def __hash__(self):
        return 11

    def __mul__(self, o):
        return SymReal(term(self)) * o

    __rmul__ = __mul__


def zbool(x):
    if isinstance(x, SymBool):
        return x.z
    if z3.is_expr(x):
        return x
    return z3.BoolVal(bool(x))


class _Op:
    def __init__(self, name):
        self.name = name

    def __call__(self, a, b):  # used for ufl operands
        import operator as op

        return {"add": op.add, "sub": op.sub, "mul": op.mul, "div": op.truediv, "pow": op.pow, "mod": op.mod, "fdiv": op.floordiv}[self.name](a, b)


_add, _sub, _mul, _div, _pow, _mod, _floordiv = (_Op(n) for n in ("add", "sub", "mul", "div", "pow", "mod", "fdiv"))


def _arith(op, a, b):
    n = op.name
    ia, ib = isinstance(a, SymInt), isinstance(b, SymInt)
    if (ia or (isinstance(a, int) and not isinstance(a, bool))) and (ib or (isinstance(b, int) and not isinstance(b, bool))):
        x = a.z if ia else z3.IntVal(a)
        y = b.z if ib else z3.IntVal(b)
        if n == "add":
            return SymInt(x + y)
        if n == "sub":
            return SymInt(x - y)
        if n == "mul":
            return SymInt(x * y)
        if n in ("mod", "fdiv"):
            CTX().guard(y == 0, ZeroDivisionError("integer division or modulo by zero"))
            # python floor semantics for a positive divisor coincide with z3's
            CTX().guard(y < 0, EngineError("modulo by a negative symbolic int"))
            return SymInt(x % y) if n == "mod" else SymInt(x / y)
    x, y = term(a), term(b)
    if n == "add":
        return SymReal(x + y)
    if n == "sub":
        return SymReal(x - y)
    if n == "mul":
        return SymReal(x * y)
    if n == "div":
        if z3.is_rational_value(z3.simplify(y)):
            if z3.is_true(z3.simplify(y == 0)):
                raise ZeroDivisionError("division by zero")
        else:
            CTX().nonzero(y)
        return SymReal(x / y)
    if n == "pow":
        return spow(a, b)
    if n in ("mod", "fdiv"):
        q = z3.ToReal(z3.ToInt(x / y))
        return SymReal(q if n == "fdiv" else x - y * q)
    raise EngineError(n)


def spow(a, b):
    if isinstance(b, (SymReal, SymInt)):
        zb = z3.simplify(term(b))
        if z3.is_rational_value(zb):
            b = Fraction(zb.numerator_as_long(), zb.denominator_as_long())
        else:
            return SymReal(POW(term(a), zb))
    f = frac(b)
    ta = term(a)
    if f.denominator == 1 and abs(f.numerator) <= 12:
        k = abs(f.numerator)
        if k == 0:
            return 1.0
        r = ta
        for _ in range(k - 1):
            r = r * ta
        if f.numerator < 0:
            CTX().nonzero(ta)
            r = z3.RealVal(1) / r
        return SymReal(r)
    if f == Fraction(1, 2):
        return SymReal(SQRT(ta))
    return SymReal(POW(ta, zreal(f)))


# names of symbolic values for sympy / C code strings
_names = {}
_by_name = {}


def name_of(v):
    z = v.z
    key = (z.get_id(), z.sort().name())
    if key not in _names:
        nm = "Q_%d" % len(_by_name)
        _names[key] = nm
        _by_name[nm] = v
    return _names[key]


def lookup_name(nm):
    return _by_name.get(nm)


# ---------------------------------------------------------------- front end
from .prep import Prep  # noqa: E402


# ---------------------------------------------------------------- exploration
class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.unknown = 0
        self.paths = 0
        self.aborted = 0
        self.decisions = 0
        self.obligations = 0
        self.proved = 0
        self.vacuity = 0


SLOW = None  # debugging hook
_vars = {}


def _free(e):
    """names of the uninterpreted constants of a formula"""
    k = e.get_id()
    if k in _vars and _vars[k][0].eq(e):
        return _vars[k][1]
    out, seen, st = set(), set(), [e]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_const(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.decl().name())
        else:
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.decl().name())
            st += x.children()
    if len(_vars) > 200000:
        _vars.clear()
    _vars[k] = (e, frozenset(out))
    return _vars[k][1]


def _slice(goals, ctxt):
    """goals plus the formulas of ctxt connected to them through shared variables:
    the rest is satisfiable on its own, because the path is feasible"""
    seen = set()
    for g in goals:
        seen |= _free(g)
    rest = [(c, _free(c)) for c in ctxt]
    out = list(goals)
    ch = True
    while ch and rest:
        ch = False
        nxt = []
        for c, v in rest:
            if not v or v & seen:
                out.append(c)
                if not v <= seen:
                    seen |= v
                    ch = True
            else:
                nxt.append((c, v))
        rest = nxt
    return out


class Context:
    """One exploration: list of decisions, path condition, obligations."""

    current = None

    def __init__(self, stats=None, max_paths=2000, timeout_ms=20000):
        self.stats = stats or Stats()
        self.prefix = []
        self.max_paths = max_paths
        self.timeout_ms = timeout_ms
        self.cex = []  # (label, model values, info)
        self.inputs = {}
        self.pure = 0

    # --- per path state
    def _start_path(self):
        self.pc = []
        self.pos = 0
        self.trace = []
        self.pending = getattr(self, "pending", [])
        self.prep = Prep()
        self._fresh = 0
        self.inputs = {}
        self.assumed = 0
        # decisions before the last of these were taken identically on the previous
        # path: obligations met there have been decided already
        self.start_len = len(self.prefix)

    def real(self, name, *constraints):
        s = SymReal(z3.Real(name))
        self.inputs[name] = s.z
        return s

    def int(self, name):
        s = SymInt(z3.Int(name))
        self.inputs[name] = s.z
        return s

    def boolvar(self, name):
        b = z3.Bool(name)
        self.inputs[name] = b
        return SymBool(b)

    def fresh_real(self, hint):
        self._fresh += 1
        return SymReal(z3.Real("%s!f%d" % (hint, self._fresh)))

    def assume(self, c, check=False):
        z = zbool(c)
        if z3.is_true(z):
            return
        self.pc.append(z)
        if check and self.solve([]) == z3.unsat:
            raise PathAbort("assumption")

    def nonzero(self, t):
        self.pc.append(t != 0)

    def guard(self, cond, exc):
        """raise exc on the paths where cond can hold"""
        c = z3.simplify(cond)
        if z3.is_false(c):
            return
        if self.branch(cond):
            raise exc

    def solve(self, extra, model=False, timeout=None, prep=None):
        p = prep or self.prep
        fs = [p.boolean(c) for c in self.pc] + [p.boolean(c) for c in extra]
        if extra and not model:
            k = len(fs) - len(extra)
            fs = _slice(fs[k:], p.side() + fs[:k])
        else:
            fs = p.side() + fs
        t0 = time.time()
        s = z3.Solver()
        s.set("timeout", timeout or self.timeout_ms)
        s.add(fs)
        r = s.check()
        if r == z3.unknown:
            t = z3.Then(z3.With("simplify", som=True), "solve-eqs", z3.With("simplify", som=True), "qfnra-nlsat")
            s = t.solver()
            s.set("timeout", timeout or self.timeout_ms)
            s.add(fs)
            try:
                r = s.check()
            except z3.Z3Exception:
                r = z3.unknown
        self.stats.queries += 1
        self.stats.solver_s += time.time() - t0
        if SLOW is not None and time.time() - t0 > 0.5:
            SLOW(time.time() - t0, r, extra, fs)
        if r == z3.unknown:
            self.stats.unknown += 1
        if model:
            return r, (s.model() if r == z3.sat else None)
        return r

    def branch(self, z):
        z = z3.simplify(z)
        if z3.is_true(z):
            return True
        if z3.is_false(z):
            return False
        if self.pure:
            raise EngineError("branch on a symbolic value in a specification")
        # implied by an identical earlier decision?
        for c in self.pc:
            if c.eq(z):
                return True
            if z3.is_not(c) and c.arg(0).eq(z):
                return False
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
        else:
            rt = self.solve([z], timeout=4000)
            if rt == z3.unsat:
                d = (False, True)
            else:
                rf = self.solve([z3.Not(z)], timeout=4000)
                if rf == z3.unsat:
                    d = (True, True)
                else:
                    d = (True, False)
            self.prefix.append(d)
        self.pos += 1
        if not d[1]:
            self.stats.decisions += 1
        self.pc.append(z if d[0] else z3.Not(z))
        return d[0]

    def explore(self, fn):
        """run fn on every feasible path"""
        self.prefix = []
        n = 0
        while True:
            self._start_path()
            Context.current = self
            try:
                fn()
                self.stats.paths += 1
            except PathAbort:
                self.stats.aborted += 1
            except StopHarness:
                self.stats.paths += 1
            n += 1
            self.prefix = self.prefix[: self.pos]
            while self.prefix and (self.prefix[-1][1] or self.prefix[-1][0] is False):
                self.prefix.pop()
            if not self.prefix:
                break
            self.prefix[-1] = (False, False)
            # mark: second alternative taken, not to be flipped again
            if n >= self.max_paths:
                self.cut = True
                raise EngineError("path budget exhausted (%d)" % n)
        return n


def CTX():
    if Context.current is None:
        raise EngineError("no exploration running")
    return Context.current
