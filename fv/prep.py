"""Solver front end: z3 terms -> division free polynomial constraints.

Every real term is rewritten to numerator / product-of-factors with Python
polynomials over *atoms* (input constants, exp/sqrt/... applications, if-then-else
terms).  exp(sum c_i m_i / d) becomes a product of powers of atoms exp(|c| m / d),
so that algebraically equal Arrhenius factors become the same atom.
"""
from fractions import Fraction

import z3


def _fr(v):
    return Fraction(v.numerator_as_long(), v.denominator_as_long())


ONE = ()


def padd(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + k * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def mmul(m, n):
    if not m:
        return n
    if not n:
        return m
    d = dict(m)
    for v, p in n:
        d[v] = d.get(v, 0) + p
    return tuple(sorted(d.items()))


def pmul(a, b):
    if len(b) < len(a):
        a, b = b, a
    r = {}
    for m, c in a.items():
        for n, e in b.items():
            k = mmul(m, n)
            v = r.get(k, 0) + c * e
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    return r


def pscale(a, c):
    return {m: v * c for m, v in a.items()} if c else {}


def const(c):
    return {ONE: Fraction(c)} if c else {}


class Prep:
    def __init__(self):
        self.memo = {}
        self.bmemo = {}
        self.keep = []
        self.vars = []  # z3 constants by atom index
        self.index = {}
        self.axioms = []
        self.nonzero = {}
        self.funcs = {}  # (name) -> list of (args, atom)
        self.exp_base = {}
        self.sq = {}
        self.nfresh = 0
        self.max_terms = 60000

    # ------------------------------------------------------------- atoms
    def atom(self, c):
        k = c.get_id()
        if k not in self.index:
            self.index[k] = len(self.vars)
            self.vars.append(c)
            self.keep.append(c)
        return self.index[k]

    def fresh(self, hint):
        self.nfresh += 1
        c = z3.Real("%s!%d" % (hint, self.nfresh))
        return c, {((self.atom(c), 1),): Fraction(1)}

    # --------------------------------------------------------- polynomials
    def z(self, p):
        """z3 term of a polynomial"""
        if not p:
            return z3.RealVal(0)
        ts = []
        for m, c in p.items():
            fs = []
            for v, k in m:
                fs += [self.vars[v]] * k
            if c != 1 or not fs:
                fs.insert(0, z3.RealVal(str(c)))
            t = fs[0]
            for f in fs[1:]:
                t = t * f
            ts.append(t)
        return ts[0] if len(ts) == 1 else z3.Sum(ts)

    def key(self, p):
        return tuple(sorted(p.items()))

    def factor(self, p):
        """p = c * prod f**k ; f given by key"""
        ms = list(p)
        if not ms:
            return Fraction(0), {}
        common = dict(ms[0])
        for m in ms[1:]:
            d = dict(m)
            common = {v: min(k, d[v]) for v, k in common.items() if v in d}
            if not common:
                break
        fs = {}
        rest = p
        if common:
            for v, k in common.items():
                fs[self.key({((v, 1),): Fraction(1)})] = k
            rest = {}
            for m, c in p.items():
                d = dict(m)
                for v, k in common.items():
                    d[v] -= k
                rest[tuple(sorted((v, k) for v, k in d.items() if k))] = c
        if len(rest) == 1:
            return next(iter(rest.values())), fs
        lead = max(rest)
        c = rest[lead]
        rest = pscale(rest, 1 / c)
        kk = self.key(rest)
        fs[kk] = fs.get(kk, 0) + 1
        return c, fs

    def fprod(self, fs):
        r = const(1)
        for f, k in fs.items():
            for _ in range(k):
                r = pmul(r, dict(f))
                self.guard(r)
        return r

    def guard(self, p):
        if len(p) > self.max_terms:
            from .sym import EngineError

            raise EngineError("polynomial too large")

    def cancel(self, n, d):
        """remove common monomial content and a common whole factor"""
        if not n:
            return {}, {}
        if not d:
            return n, d
        d = dict(d)
        for f in list(d):
            if len(f) == 1 and len(f[0][0]) == 1 and f[0][0][0][1] == 1:
                v = f[0][0][0][0]
                low = min((dict(m).get(v, 0) for m in n), default=0)
                k = min(low, d[f])
                if k:
                    n2 = {}
                    for m, c in n.items():
                        q = dict(m)
                        q[v] -= k
                        n2[tuple(sorted((a, b) for a, b in q.items() if b))] = c
                    n = n2
                    d[f] -= k
                    if not d[f]:
                        del d[f]
        for f in list(d):
            if len(f) > 1 and len(n) == len(f):
                lead = max(n)
                if self.key(pscale(n, 1 / n[lead])) == f:
                    n = const(n[lead])
                    d[f] -= 1
                    if not d[f]:
                        del d[f]
                    break
        return n, d

    @staticmethod
    def lcm(*ds):
        t = {}
        for d in ds:
            for f, k in d.items():
                if k > t.get(f, 0):
                    t[f] = k
        return t

    def lift(self, n, d, t):
        miss = {f: k - d.get(f, 0) for f, k in t.items() if k > d.get(f, 0)}
        return pmul(n, self.fprod(miss)) if miss else n

    # ----------------------------------------------------------------- terms
    def rf(self, e):
        i = e.get_id()
        if i in self.memo:
            return self.memo[i]
        n, d = self._rf(e)
        self.guard(n)
        r = self.cancel(*self.unroot(n, d))
        self.memo[i] = r
        self.keep.append(e)
        return r

    def _rf(self, e):
        from .sym import EngineError

        k = e.decl().kind()
        if z3.is_rational_value(e):
            return const(_fr(e)), {}
        if z3.is_int_value(e):
            return const(e.as_long()), {}
        if e.num_args() == 0:
            c = z3.ToReal(e) if z3.is_int(e) else e
            return {((self.atom(c), 1),): Fraction(1)}, {}
        if k == z3.Z3_OP_TO_REAL:
            a = e.arg(0)
            if z3.is_int_value(a):
                return const(a.as_long()), {}
            if a.num_args() and a.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS):
                op = a.decl().kind()
                cs = [self.rf(z3.ToReal(c)) for c in a.children()]
                return self._comb(op, cs)
            return {((self.atom(e), 1),): Fraction(1)}, {}
        if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS):
            return self._comb(k, [self.rf(c) for c in e.children()])
        if k == z3.Z3_OP_DIV:
            n, d = self.rf(e.arg(0))
            n2, d2 = self.rf(e.arg(1))
            c, fs = self.factor(n2)
            if c == 0:
                # division by an identically zero term
                q, p = self.fresh("div0")
                return p, {}
            for f in fs:
                self.nonzero.setdefault(f, None)
            n = pscale(n, 1 / c)
            # cancel d2 against fs / d
            if d2:
                up = dict(d2)
                dd = dict(d)
                for f in list(up):
                    t = min(up[f], dd.get(f, 0))
                    if t:
                        up[f] -= t
                        dd[f] -= t
                        if not dd[f]:
                            del dd[f]
                    if not up[f]:
                        del up[f]
                n = pmul(n, self.fprod(up)) if up else n
                d = dd
            out = dict(d)
            for f, q in fs.items():
                out[f] = out.get(f, 0) + q
            return n, out
        if k == z3.Z3_OP_POWER and z3.is_rational_value(e.arg(1)):
            q = _fr(e.arg(1))
            if q.denominator == 1 and q > 0:
                n, d = self.rf(e.arg(0))
                r = const(1)
                for _ in range(q.numerator):
                    r = pmul(r, n)
                return r, {f: kk * q.numerator for f, kk in d.items()}
        if k == z3.Z3_OP_ITE:
            c = self.boolean(e.arg(0))
            if z3.is_true(c):
                return self.rf(e.arg(1))
            if z3.is_false(c):
                return self.rf(e.arg(2))
            a, b = self.rf(e.arg(1)), self.rf(e.arg(2))
            if a == b:
                return a
            t = self.lcm(a[1], b[1])
            zc, p = self.fresh("ite")
            na, nb = self.lift(a[0], a[1], t), self.lift(b[0], b[1], t)
            self.axioms.append(z3.If(c, zc == self.z(na), zc == self.z(nb)))
            return p, t
        if k == z3.Z3_OP_UNINTERPRETED:
            nm = e.decl().name()
            args = [self.rf(a) for a in e.children()]
            if nm == "EXP":
                return self.exp(args[0])
            if nm == "SQRT":
                return self.sqrt(args[0])
            return self.opaque(nm, args)
        raise EngineError("rf: " + str(e.decl()))

    def _comb(self, k, cs):
        if k == z3.Z3_OP_UMINUS:
            return pscale(cs[0][0], -1), cs[0][1]
        if k == z3.Z3_OP_MUL:
            n, d = cs[0]
            for n2, d2 in cs[1:]:
                n = pmul(n, n2)
                d = dict(d)
                for f, q in d2.items():
                    d[f] = d.get(f, 0) + q
                n, d = self.cancel(n, d)
            return n, d
        t = self.lcm(*[d for _, d in cs])
        r = self.lift(*cs[0], t)
        for n, d in cs[1:]:
            r = padd(r, self.lift(n, d, t), 1 if k == z3.Z3_OP_ADD else -1)
        return r, t

    # ------------------------------------------------------------- functions
    def same(self, a, b):
        t = self.lcm(a[1], b[1])
        return not padd(self.lift(*a, t), self.lift(*b, t), -1)

    def find(self, nm, args):
        for aa, p in self.funcs.setdefault(nm, []):
            if all(self.same(x, y) for x, y in zip(aa, args)):
                return p
        return None

    def opaque(self, nm, args):
        p = self.find(nm, args)
        if p is None:
            c, p = self.fresh(nm.lower())
            # congruence with earlier applications whose arguments may be equal
            for aa, q in self.funcs[nm]:
                eqs = [self.eq0(x, y) for x, y in zip(aa, args)]
                self.axioms.append(z3.Implies(z3.And(eqs), c == self.z(q)))
            self.funcs[nm].append((args, p))
            if nm in ("COS", "SIN"):
                self.axioms += [c >= -1, c <= 1]
        return p, {}

    def eq0(self, x, y):
        t = self.lcm(x[1], y[1])
        return self.z(self.lift(*x, t)) == self.z(self.lift(*y, t))

    def exp(self, a):
        n, d = a
        N, D = const(1), {}
        for m, c in n.items():
            dd = dict(d)
            mm = dict(m)
            for f in list(dd):
                if len(f) == 1 and len(f[0][0]) == 1:
                    v = f[0][0][0][0]
                    t = min(dd[f], mm.get(v, 0))
                    if t:
                        dd[f] -= t
                        mm[v] -= t
                        if not dd[f]:
                            del dd[f]
            lbl = (tuple(sorted((v, k) for v, k in mm.items() if k)), tuple(sorted(dd.items())))
            lst = self.exp_base.setdefault(lbl, [])
            hit = None
            for c0, cc, pp in lst:
                q = abs(c) / c0
                if q.denominator == 1 and q <= 8:
                    hit = (cc, pp, q.numerator)
                    break
            if hit is None:
                cc, pp = self.fresh("exp")
                self.axioms.append(cc > 0)
                lst.append((abs(c), cc, pp))
                hit = (cc, pp, 1)
            cc, pp, k = hit
            if c > 0:
                for _ in range(k):
                    N = pmul(N, pp)
            else:
                f = self.key(pp)
                D[f] = D.get(f, 0) + k
        return self.cancel(N, D)

    def sqrt(self, a):
        p = self.find("SQRT", [a])
        if p is None:
            c, p = self.fresh("sqrt")
            self.funcs["SQRT"].append(([a], p))
            n, d = a
            den = self.z(self.fprod(d)) if d else z3.RealVal(1)
            # only meaningful where the argument is non-negative: values for which
            # the code takes the root of a negative number are outside the claim
            self.axioms += [c >= 0, c * c * den == self.z(n)]
            self.sq[next(iter(p))[0][0]] = a
            for (aa,), q in self.funcs["SQRT"][:-1]:
                self.axioms.append(z3.Implies(self.eq0(aa, a), c == self.z(q)))
        return p, {}

    def unroot(self, n, d):
        """replace sqrt(a)**2 by a"""
        for s, (na, da) in self.sq.items():
            K = max((dict(m).get(s, 0) // 2 for m in n), default=0)
            if K:
                DA = self.fprod(da)
                parts = {}
                for m, c in n.items():
                    q = dict(m)
                    k = q.pop(s, 0)
                    if k % 2:
                        q[s] = 1
                    parts.setdefault(k // 2, {})[tuple(sorted(q.items()))] = c
                r = {}
                for k, part in parts.items():
                    for _ in range(k):
                        part = pmul(part, na)
                        self.guard(part)
                    for _ in range(K - k):
                        part = pmul(part, DA)
                        self.guard(part)
                    r = padd(r, part)
                n = r
                d = dict(d)
                for f, q in da.items():
                    d[f] = d.get(f, 0) + q * K
            fs = self.key({((s, 1),): Fraction(1)})
            K = d.get(fs, 0) // 2
            if K:
                c, fa = self.factor(na)
                d = dict(d)
                d[fs] -= 2 * K
                if not d[fs]:
                    del d[fs]
                for _ in range(K):
                    n = pscale(pmul(n, self.fprod(da)), 1 / c)
                    self.guard(n)
                for f, q in fa.items():
                    self.nonzero.setdefault(f, None)
                    d[f] = d.get(f, 0) + q * K
        return n, d

    # -------------------------------------------------------------- booleans
    def cmp0(self, n, d, op):
        if not n:
            return z3.BoolVal(op in ("==", "<=", ">="))
        if len(n) == 1 and ONE in n and not d:
            v = n[ONE]
            return z3.BoolVal({"==": v == 0, "!=": v != 0, "<": v < 0, "<=": v <= 0, ">": v > 0, ">=": v >= 0}[op])
        if op in ("==", "!="):
            t = self.z(n)
            return t == 0 if op == "==" else t != 0
        odd = {f: 1 for f, k in d.items() if k % 2}
        m = self.z(n)
        if odd:
            m = m * self.z(self.fprod(odd))
        return {"<": m < 0, "<=": m <= 0, ">": m > 0, ">=": m >= 0}[op]

    def boolean(self, b):
        i = b.get_id()
        if i not in self.bmemo:
            self.bmemo[i] = self._boolean(b)
            self.keep.append(b)
        return self.bmemo[i]

    def _boolean(self, b):
        from .sym import EngineError

        k = b.decl().kind()
        if z3.is_true(b) or z3.is_false(b) or b.num_args() == 0:
            return b
        if k == z3.Z3_OP_NOT:
            return z3.Not(self.boolean(b.arg(0)))
        if k == z3.Z3_OP_AND:
            return z3.And([self.boolean(c) for c in b.children()])
        if k == z3.Z3_OP_OR:
            return z3.Or([self.boolean(c) for c in b.children()])
        if k == z3.Z3_OP_IMPLIES:
            return z3.Implies(self.boolean(b.arg(0)), self.boolean(b.arg(1)))
        if k in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT, z3.Z3_OP_IFF) and z3.is_bool(b.arg(0)):
            x, y = self.boolean(b.arg(0)), self.boolean(b.arg(1))
            return x != y if k == z3.Z3_OP_DISTINCT else x == y
        if k == z3.Z3_OP_ITE:
            return z3.If(self.boolean(b.arg(0)), self.boolean(b.arg(1)), self.boolean(b.arg(2)))
        ops = {z3.Z3_OP_EQ: "==", z3.Z3_OP_DISTINCT: "!=", z3.Z3_OP_LT: "<", z3.Z3_OP_LE: "<=", z3.Z3_OP_GT: ">", z3.Z3_OP_GE: ">="}
        if k in ops:
            x, y = b.arg(0), b.arg(1)
            if z3.is_int(x) and z3.is_int(y):
                return b
            a, c = self.rf(x), self.rf(y)
            t = self.lcm(a[1], c[1])
            n = padd(self.lift(*a, t), self.lift(*c, t), -1)
            self.guard(n)
            n, t = self.cancel(*self.unroot(n, t))
            return self.cmp0(n, t, ops[k])
        if k == z3.Z3_OP_IS_INT:
            return b
        raise EngineError("boolean: " + str(b.decl()))

    def side(self):
        out = list(self.axioms)
        for f in list(self.nonzero):
            if self.nonzero[f] is None:
                self.nonzero[f] = self.z(dict(f)) != 0
            out.append(self.nonzero[f])
        return out
