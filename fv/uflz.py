"""Pointwise evaluation of UFL integrands over an abstract number domain.

`world` supplies coefficient values / gradients at a point, the number domain is
whatever those values are (SymReal in the symbolic world, float in the real one).
"""
import sys
import math

from .sym import EngineError, SymReal, SymInt, SymBool, EXP, SQRT, UNARY, spow, term, z3, zbool


def _issym(*xs):
    return any(isinstance(x, (SymReal, SymInt, SymBool)) for x in xs)


def nexp(a):
    return SymReal(EXP(term(a))) if _issym(a) else math.exp(a)


def nsqrt(a):
    return SymReal(SQRT(term(a))) if _issym(a) else math.sqrt(a)


def nfun(name, a):
    if _issym(a):
        if name in UNARY:
            return SymReal(UNARY[name](term(a)))
        raise EngineError("function " + name)
    return getattr(math, name)(a)


def npow(a, b):
    if _issym(a, b):
        return spow(a, b)
    return a**b


def nif(c, a, b):
    if isinstance(c, SymBool):
        c2 = z3.simplify(c.z)
        if z3.is_true(c2):
            return a
        if z3.is_false(c2):
            return b
        return SymReal(z3.If(c.z, term(a), term(b)))
    return a if c else b


class Evaluator:
    """ufl: the ufl module in use; cb: callbacks object with
    coefficient(coef, comp, p), coefficient_grad(coef, comp, dirs, p),
    argument(number, comp, p), argument_grad(...), coordinate(i,p), normal(i,p)"""

    def __init__(self, ufl, cb):
        self.ufl = ufl
        self.cb = cb
        self.cache = {}

    def lower(self, form):
        k = id(form)
        if k not in self.cache:
            from importlib import import_module

            name = self.ufl.__name__
            alg = import_module(name + ".algorithms.apply_algebra_lowering")
            der = import_module(name + ".algorithms.apply_derivatives")
            f = alg.apply_algebra_lowering(form)
            f = der.apply_derivatives(f)
            self.cache[k] = (f, form)
        return self.cache[k][0]

    # ------------------------------------------------------------ forms
    def lower_expr(self, e):
        k = id(e)
        if k not in self.cache:
            from importlib import import_module

            name = self.ufl.__name__
            alg = import_module(name + ".algorithms.apply_algebra_lowering")
            der = import_module(name + ".algorithms.apply_derivatives")
            self.cache[k] = (der.apply_derivatives(alg.apply_algebra_lowering(e)), e)
        return self.cache[k][0]

    def integrand(self, form, p, ascell=False):
        """value at point p of the sum of the integrands that apply there"""
        total = 0
        if isinstance(form, (int, float)):
            return form
        for itg in self.lower(form).integrals():
            if not self.applies(itg, p, ascell):
                continue
            total = total + self.ev(itg.integrand(), (), {}, p)
        return total

    def applies(self, itg, p, ascell=False):
        ty = itg.integral_type()
        if ty == "cell":
            if p.kind != "cell" and not ascell:
                return False
        elif ty == "exterior_facet":
            if p.kind != "facet" or ascell:
                return False
        else:
            raise EngineError("integral type " + ty)
        sid = itg.subdomain_id()
        if sid in ("everywhere", "otherwise"):
            return True
        data = itg.subdomain_data()
        ids = sid if isinstance(sid, tuple) else (sid,)
        return self.cb.marker(data, p) in ids

    # ------------------------------------------------------- expressions
    def ev(self, e, comp, env, p):
        name = type(e).__name__
        m = getattr(self, "_" + name, None)
        if m is None:
            for c in type(e).__mro__:
                m = getattr(self, "_" + c.__name__, None)
                if m is not None:
                    break
        if m is None:
            raise EngineError("ufl node " + name)
        return m(e, comp, env, p)

    def _RealValue(self, e, comp, env, p):
        return float(e._value) if not isinstance(e._value, int) else int(e._value)

    _FloatValue = _IntValue = _RealValue

    def _Zero(self, e, comp, env, p):
        return 0

    def _Identity(self, e, comp, env, p):
        return 1 if comp[0] == comp[1] else 0

    def _Argument(self, e, comp, env, p):
        return self.cb.argument(e.number(), self._flat(e, comp), p)

    def _flat(self, e, comp):
        if not comp:
            return 0
        if len(comp) == 1:
            return comp[0]
        raise EngineError("tensor valued coefficient")

    def _Coefficient(self, e, comp, env, p):
        return self.cb.coefficient(e, self._flat(e, comp), p)

    def _SpatialCoordinate(self, e, comp, env, p):
        return self.cb.coordinate(comp[0], p)

    def _FacetNormal(self, e, comp, env, p):
        return self.cb.normal(comp[0], p)

    def _Grad(self, e, comp, env, p):
        o = e.ufl_operands[0]
        dirs = []
        while type(o).__name__ == "Grad":
            dirs.append(comp[-1])
            comp = comp[:-1]
            o = o.ufl_operands[0]
        d = (comp[-1],) + tuple(dirs)
        c = comp[:-1]
        if type(o).__name__ == "ReferenceValue":
            raise EngineError("reference value")
        if hasattr(o, "number"):
            return self.cb.argument_grad(o.number(), self._flat(o, c), d, p)
        return self.cb.coefficient_grad(o, self._flat(o, c), d, p)

    def _Sum(self, e, comp, env, p):
        a, b = e.ufl_operands
        return self.ev(a, comp, env, p) + self.ev(b, comp, env, p)

    def _Product(self, e, comp, env, p):
        a, b = e.ufl_operands
        x = self.ev(a, (), env, p)
        if isinstance(x, (int, float)) and x == 0:
            return 0
        return x * self.ev(b, (), env, p)

    def _Division(self, e, comp, env, p):
        a, b = e.ufl_operands
        x = self.ev(a, (), env, p)
        y = self.ev(b, (), env, p)
        if isinstance(x, (int, float)) and x == 0:
            return 0
        return x / y

    def _Power(self, e, comp, env, p):
        a, b = e.ufl_operands
        return npow(self.ev(a, (), env, p), self.ev(b, (), env, p))

    def _Conj(self, e, comp, env, p):
        return self.ev(e.ufl_operands[0], comp, env, p)

    _Real = _Conj

    def _Abs(self, e, comp, env, p):
        return abs(self.ev(e.ufl_operands[0], comp, env, p))

    def _Exp(self, e, comp, env, p):
        return nexp(self.ev(e.ufl_operands[0], (), env, p))

    def _Sqrt(self, e, comp, env, p):
        return nsqrt(self.ev(e.ufl_operands[0], (), env, p))

    def _Ln(self, e, comp, env, p):
        return nfun("log", self.ev(e.ufl_operands[0], (), env, p))

    def _MathFunction(self, e, comp, env, p):
        return nfun(e._name, self.ev(e.ufl_operands[0], (), env, p))

    def _Indexed(self, e, comp, env, p):
        o, mi = e.ufl_operands
        c = []
        for i in mi:
            c.append(int(i) if type(i).__name__ == "FixedIndex" else env[i.count()])
        return self.ev(o, tuple(c), env, p)

    def _IndexSum(self, e, comp, env, p):
        o, mi = e.ufl_operands
        (i,) = mi
        tot = 0
        for k in range(e.dimension()):
            env2 = dict(env)
            env2[i.count()] = k
            tot = tot + self.ev(o, comp, env2, p)
        return tot

    def _ComponentTensor(self, e, comp, env, p):
        o, mi = e.ufl_operands
        env2 = dict(env)
        for i, c in zip(mi, comp):
            env2[i.count()] = c
        return self.ev(o, (), env2, p)

    def _ListTensor(self, e, comp, env, p):
        return self.ev(e.ufl_operands[comp[0]], comp[1:], env, p)

    def _Variable(self, e, comp, env, p):
        return self.ev(e.ufl_operands[0], comp, env, p)

    _Label = None

    def _CellAvg(self, e, comp, env, p):
        raise EngineError("cell average")

    def _Conditional(self, e, comp, env, p):
        c, a, b = e.ufl_operands
        return nif(self.ev(c, (), env, p), self.ev(a, comp, env, p), self.ev(b, comp, env, p))

    def _LT(self, e, comp, env, p):
        a, b = e.ufl_operands
        return self.ev(a, (), env, p) < self.ev(b, (), env, p)

    def _GT(self, e, comp, env, p):
        a, b = e.ufl_operands
        return self.ev(a, (), env, p) > self.ev(b, (), env, p)

    def _LE(self, e, comp, env, p):
        a, b = e.ufl_operands
        return self.ev(a, (), env, p) <= self.ev(b, (), env, p)

    def _GE(self, e, comp, env, p):
        a, b = e.ufl_operands
        return self.ev(a, (), env, p) >= self.ev(b, (), env, p)

    def _EQ(self, e, comp, env, p):
        a, b = e.ufl_operands
        return self.ev(a, (), env, p) == self.ev(b, (), env, p)

    def _NE(self, e, comp, env, p):
        a, b = e.ufl_operands
        return self.ev(a, (), env, p) != self.ev(b, (), env, p)

    def _AndCondition(self, e, comp, env, p):
        a, b = (self.ev(o, (), env, p) for o in e.ufl_operands)
        return SymBool(z3.And(zbool(a), zbool(b))) if _issym(a, b) else (a and b)

    def _OrCondition(self, e, comp, env, p):
        a, b = (self.ev(o, (), env, p) for o in e.ufl_operands)
        return SymBool(z3.Or(zbool(a), zbool(b))) if _issym(a, b) else (a or b)

    def _NotCondition(self, e, comp, env, p):
        a = self.ev(e.ufl_operands[0], (), env, p)
        return SymBool(z3.Not(zbool(a))) if _issym(a) else (not a)

    def _MaxValue(self, e, comp, env, p):
        a, b = (self.ev(o, (), env, p) for o in e.ufl_operands)
        return nif(a > b, a, b)

    def _MinValue(self, e, comp, env, p):
        a, b = (self.ev(o, (), env, p) for o in e.ufl_operands)
        return nif(a < b, a, b)


# ---------------------------------------------------------------- C strings
class CExpr:
    """Small C expression parser/evaluator for dolfin Expression strings."""

    def __init__(self, code):
        self.code = code
        self.toks = self._lex(code)
        self.i = 0
        self.tree = self._ternary()
        if self.i != len(self.toks):
            raise EngineError("C expression: " + code)

    def _lex(self, s):
        import re

        out = []
        pat = re.compile(r"\s*(?:(\d+\.?\d*(?:[eE][-+]?\d+)?L?|\.\d+(?:[eE][-+]?\d+)?)|([A-Za-z_]\w*(?:::\w+)?)|(<=|>=|==|!=|&&|\|\||[-+*/%()<>?:,!\[\]]))")
        pos = 0
        s = s.rstrip()
        while pos < len(s):
            m = pat.match(s, pos)
            if not m:
                raise EngineError("C expression: " + s)
            out.append(m.group(m.lastindex))
            pos = m.end()
        return out

    def _peek(self):
        return self.toks[self.i] if self.i < len(self.toks) else None

    def _eat(self, t=None):
        x = self._peek()
        if t is not None and x != t:
            raise EngineError("C expression: expected %s in %s" % (t, self.code))
        self.i += 1
        return x

    def _ternary(self):
        c = self._bin(0)
        if self._peek() == "?":
            self._eat()
            a = self._ternary()
            self._eat(":")
            b = self._ternary()
            return ("?", c, a, b)
        return c

    LEVELS = [["||"], ["&&"], ["==", "!="], ["<", "<=", ">", ">="], ["+", "-"], ["*", "/", "%"]]

    def _bin(self, lv):
        if lv == len(self.LEVELS):
            return self._unary()
        a = self._bin(lv + 1)
        while self._peek() in self.LEVELS[lv]:
            o = self._eat()
            a = (o, a, self._bin(lv + 1))
        return a

    def _unary(self):
        t = self._peek()
        if t in ("-", "+", "!"):
            self._eat()
            a = self._unary()
            return ("neg", a) if t == "-" else a if t == "+" else ("not", a)
        return self._primary()

    def _primary(self):
        t = self._eat()
        if t == "(":
            a = self._ternary()
            self._eat(")")
            return a
        if t is None:
            raise EngineError("C expression: " + self.code)
        if t[0].isdigit() or t[0] == ".":
            t = t.rstrip("L")
            # ints: sympy only prints them where integer division cannot bite
            return ("num", int(t) if t.isdigit() else float(t))
        if self._peek() == "(":
            self._eat()
            args = []
            if self._peek() != ")":
                args.append(self._ternary())
                while self._peek() == ",":
                    self._eat()
                    args.append(self._ternary())
            self._eat(")")
            return ("call", t.split("::")[-1], args)
        if self._peek() == "[":
            self._eat()
            k = self._eat()
            self._eat("]")
            return ("idx", t, int(k))
        return ("id", t)

    # ---- tree queries
    def ids(self, t=None):
        t = self.tree if t is None else t
        if t[0] == "id":
            return {t[1]}
        out = set()
        for c in t[1:]:
            if isinstance(c, tuple):
                out |= self.ids(c)
            elif isinstance(c, list):
                for q in c:
                    out |= self.ids(q)
        return out

    @staticmethod
    def uses_x(t):
        if t[0] == "idx":
            return True
        for c in t[1:]:
            if isinstance(c, tuple) and CExpr.uses_x(c):
                return True
            if isinstance(c, list) and any(CExpr.uses_x(q) for q in c):
                return True
        return False

    def at0(self, t=None):
        """the tree with every coordinate replaced by zero"""
        t = self.tree if t is None else t
        if t[0] == "idx":
            return ("num", 0.0)
        return tuple(self.at0(c) if isinstance(c, tuple) else [self.at0(q) for q in c] if isinstance(c, list) else c for c in t)

    def diff(self, i, t=None):
        """d/dx_i as a tree, None when not supported"""
        t = self.tree if t is None else t
        k = t[0]
        Z, ONE = ("num", 0.0), ("num", 1.0)
        if not self.uses_x(t):
            return Z
        if k == "idx":
            return ONE if t[2] == i else Z
        if k == "neg":
            d = self.diff(i, t[1])
            return None if d is None else Z if d == Z else ("neg", d)
        if k in ("+", "-"):
            a, b = self.diff(i, t[1]), self.diff(i, t[2])
            if a is None or b is None:
                return None
            if b == Z:
                return a
            if a == Z:
                return b if k == "+" else ("neg", b)
            return (k, a, b)
        if k == "*":
            a, b = self.diff(i, t[1]), self.diff(i, t[2])
            if a is None or b is None:
                return None
            x = Z if a == Z else t[2] if a == ONE else ("*", a, t[2])
            y = Z if b == Z else t[1] if b == ONE else ("*", t[1], b)
            return y if x == Z else x if y == Z else ("+", x, y)
        if k == "/" and not self.uses_x(t[2]):
            a = self.diff(i, t[1])
            return None if a is None else Z if a == Z else ("/", a, t[2])
        if k == "call" and t[1] == "pow" and t[2][1][0] == "num":
            n = t[2][1][1]
            a = self.diff(i, t[2][0])
            if a is None:
                return None
            return ("*", ("*", ("num", float(n)), ("call", "pow", [t[2][0], ("num", n - 1)])), a)
        return None

    def evtree(self, t, x, params):
        return self.ev(x, lookup(params, x), t)

    def ev(self, x, look, t=None):
        t = self.tree if t is None else t
        k = t[0]
        if k == "num":
            return t[1]
        if k == "id":
            return look(t[1])
        if k == "idx":
            if t[1] != "x":
                raise EngineError("C expression index " + t[1])
            return x[t[2]]
        if k == "neg":
            return -self.ev(x, look, t[1])
        if k == "not":
            a = self.ev(x, look, t[1])
            return SymBool(z3.Not(zbool(a))) if _issym(a) else not a
        if k == "?":
            return nif(self.ev(x, look, t[1]), self.ev(x, look, t[2]), self.ev(x, look, t[3]))
        if k == "call":
            a = [self.ev(x, look, u) for u in t[2]]
            f = t[1]
            if f == "pow":
                return npow(*a)
            if f == "exp":
                return nexp(a[0])
            if f == "sqrt":
                return nsqrt(a[0])
            if f in ("fabs", "abs"):
                return abs(a[0])
            if f in ("fmax", "max"):
                return nif(a[0] > a[1], a[0], a[1])
            if f in ("fmin", "min"):
                return nif(a[0] < a[1], a[0], a[1])
            if f in UNARY:
                return nfun(f, a[0])
            raise EngineError("C function " + f)
        a, b = self.ev(x, look, t[1]), self.ev(x, look, t[2])
        if k == "+":
            return a + b
        if k == "-":
            return a - b
        if k == "*":
            if isinstance(a, SymBool) or isinstance(b, SymBool):
                return nif(a, b, 0) if isinstance(a, SymBool) else nif(b, a, 0)
            return a * b
        if k == "/":
            if isinstance(a, int) and isinstance(b, int):
                return a // b if (a >= 0) == (b > 0) else -((-a) // b)
            return a / b
        if k in ("&&", "||"):
            if _issym(a, b):
                return SymBool((z3.And if k == "&&" else z3.Or)(zbool(a), zbool(b)))
            return (a and b) if k == "&&" else (a or b)
        return {"<": lambda: a < b, "<=": lambda: a <= b, ">": lambda: a > b, ">=": lambda: a >= b, "==": lambda: a == b, "!=": lambda: a != b}[k]()


def lookup(params, x):
    from .sym import lookup_name

    def look(nm):
        if nm not in params:
            if nm in ("pi", "DOLFIN_PI", "M_PI"):
                return math.pi
            if nm == "DOLFIN_EPS":
                return 3e-16
            v = lookup_name(nm)
            if v is None:
                raise EngineError("unknown name %s in expression" % nm)
            return v
        v = params[nm]
        if hasattr(v, "ufl_shape"):
            if hasattr(v, "v"):
                return v.v
            if x is None:
                raise EngineError("coefficient parameter")
            return v(x)
        return v

    return look
