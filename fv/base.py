"""Pieces shared by the symbolic and the real world."""
import math


class Event:
    """what the nonlinear solver was handed"""

    def __init__(self, **k):
        self.__dict__.update(k)


class FileRec:
    def __init__(self, **k):
        self.__dict__.update(k)


class WorldBase:
    """API used by the harnesses (see DESIGN.md)"""

    K_B = 8.6173303e-5
    prefix = ""  # of the names of the inputs being created

    # weak form coefficients: integrand(v) = A v + B . grad v for test component k
    def wf(self, form, p, k):
        A = self.evform(form, p, {0: ({k: 1}, {})})
        B = [self.evform(form, p, {0: ({}, {(k, i): 1})}) for i in range(self.dim)]
        return A, B

    def arr(self, A0, E, T):
        """Arrhenius law"""
        return A0 * self.exp(-E / (self.K_B * T))

    def cellpts(self, mark=None):
        return [p for p in self.points if p.kind == "cell" and (mark is None or p.mark == mark)]

    def facetpts(self, mark=None):
        return [p for p in self.points if p.kind == "facet" and (mark is None or p.mark == mark)]

    def dot(self, a, b):
        r = 0
        for x, y in zip(a, b):
            r = r + x * y
        return r

    def pick(self, name, options):
        """one of the options, by an index which is an input"""
        i = self.int(name, 0, len(options) - 1)
        for j, o in enumerate(options[:-1]):
            if bool(i == j):
                return o
        return options[-1]

    def stored(self, filename, label, step):
        """the affine field held by an XDMF file under (label, step)"""
        nm = "xdmf_%s_%s_%s" % (filename, label, step)
        nm = "".join(ch if ch.isalnum() else "_" for ch in nm)
        lo, hi = getattr(self, "xdmf_ranges", {}).get(filename, (0.5, 2.0))
        return Aff(self, self.real(nm + "_a", lo=lo, hi=hi), [self.real(nm + "_b%d" % i, lo=0.02 * hi, hi=0.1 * hi) for i in range(self.dim)])

    def affine(self, name, lo=0.5, hi=2.0, time=False, **kw):
        """symbolic affine scalar field: returns an Aff object"""
        a = self.real(name + "_0", lo=lo, hi=hi, **kw)
        b = [self.real("%s_x%d" % (name, i), lo=0.02 * abs(hi), hi=0.2 * abs(hi)) for i in range(self.dim)]
        c = self.real(name + "_t", lo=0.02 * abs(hi), hi=0.1 * abs(hi)) if time else 0
        return Aff(self, a, b, c)


class Aff:
    """a + b.x + c t, with its sympy form for the public API"""

    def __init__(self, W, a, b, c=0):
        self.W, self.a, self.b, self.c = W, a, b, c

    def __call__(self, x, t=0):
        r = self.a
        for bi, xi in zip(self.b, x):
            r = r + bi * xi
        if not (isinstance(self.c, (int, float)) and self.c == 0):
            r = r + self.c * t
        return r

    def grad(self, i):
        return self.b[i]

    def sympy(self):
        F = self.W.F
        W = self.W
        xs = (F.x, F.y, F.z)
        e = W.sp(self.a)
        for bi, xi in zip(self.b, xs):
            e = e + W.sp(bi) * xi
        if not (isinstance(self.c, (int, float)) and self.c == 0):
            e = e + W.sp(self.c) * F.t
        return e


SAVETXT = ("fmt", "delimiter", "newline", "header", "footer", "comments", "encoding")


def saved_record(fname, X, a, k):
    """what a call of numpy.savetxt was asked to write"""
    import numpy as np

    k = dict(zip(SAVETXT, a), **k)
    return str(getattr(fname, "name", fname)), np.array(X, dtype=object), k
