"""The symbolic world: festim runs on fakefenics with z3-backed values."""
import importlib
import math
import os
import sys
import types
import warnings

import numpy as np

from . import fakefenics as ff
from . import base
from .sym import (
    CTX,
    Context,
    EngineError,
    PathAbort,
    Prep,
    StopHarness,
    SymBool,
    SymInt,
    SymReal,
    _Num,
    frac,
    lookup_name,
    term,
    z3,
    zbool,
    zreal,
)
from .uflz import Evaluator, nexp, nsqrt, npow, nfun
import ufl_legacy as ufl

_festim = None


# ------------------------------------------------ shadows of builtins in festim
class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (float, SymReal))

    def __call__(cls, x=0.0):
        if isinstance(x, (SymReal, SymInt)):
            return x
        if isinstance(x, ff.Constant):
            return x.v if isinstance(x.v, _Num) else float(x.v)
        return float(x)

    def __eq__(cls, o):
        return o is cls or o is float

    def __hash__(cls):
        return hash(float)


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (int, SymInt))

    def __call__(cls, *x):
        if x and isinstance(x[0], SymInt):
            return x[0]
        if x and isinstance(x[0], SymReal):
            z = x[0].z
            # truncation towards zero
            return SymInt(z3.If(z >= 0, z3.ToInt(z), -z3.ToInt(-z)))
        return int(*x)

    def __eq__(cls, o):
        return o is cls or o is int

    def __hash__(cls):
        return hash(int)


class FloatShadow(metaclass=_FloatMeta):
    pass


class IntShadow(metaclass=_IntMeta):
    pass


def _isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    if any(_symbolic(v) for v in (a, b, rtol, atol)):
        if _scalar(a) and _scalar(b):
            return abs(a - b) <= atol + rtol * abs(b)
        a, b = np.broadcast_arrays(np.array(a, dtype=object), np.array(b, dtype=object))
        out = np.empty(a.shape, dtype=object)
        for i in np.ndindex(a.shape):
            out[i] = abs(a[i] - b[i]) <= atol + rtol * abs(b[i])
        return out
    return _np_isclose(a, b, rtol=rtol, atol=atol, equal_nan=equal_nan)


def _allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    r = _isclose(a, b, rtol=rtol, atol=atol, equal_nan=equal_nan)
    return bool(all(r.flat)) if isinstance(r, np.ndarray) else r


def _scalar(v):
    return isinstance(v, _Num) or np.ndim(v) == 0


def _symbolic(v):
    if isinstance(v, _Num):
        return True
    if isinstance(v, np.ndarray):
        return v.dtype == object and any(isinstance(e, _Num) for e in v.flat)
    return isinstance(v, (list, tuple)) and any(_symbolic(e) for e in v)


def _finite(name, val):
    orig = getattr(np, name)

    def fn(x, *a, **k):
        if _symbolic(x):
            return val if _scalar(x) else np.full(np.shape(np.array(x, dtype=object)), val)
        return orig(x, *a, **k)

    return fn


def _mathisclose(a, b, *, rel_tol=1e-9, abs_tol=0.0):
    if isinstance(a, _Num) or isinstance(b, _Num):
        d = abs(a - b)
        return (d <= rel_tol * abs(b)) | (d <= rel_tol * abs(a)) | (d <= abs_tol)
    return _m_isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)


_np_isclose, _np_allclose, _m_isclose = np.isclose, np.allclose, math.isclose
_np_savetxt = np.savetxt


def _savetxt(fname, X, *a, **k):
    W = ff.WORLD
    if W is None:
        return _np_savetxt(fname, X, *a, **k)
    W.saved.append(base.saved_record(fname, X, a, k))


def _wrapmath(name):
    orig = getattr(math, name)

    def fn(x, *a):
        if isinstance(x, _Num):
            return nexp(x) if name == "exp" else nsqrt(x) if name == "sqrt" else nfun(name, x)
        return orig(x, *a)

    return fn


def _mathfinite(name, val):
    orig = getattr(math, name)
    return lambda x: val if isinstance(x, _Num) else orig(x)


def load_festim():
    """import festim from /repo on top of the stand-in (once per process)"""
    global _festim
    if _festim is not None:
        return _festim
    repo = os.environ.get("FV_REPO", "/repo")
    if repo not in sys.path:
        sys.path.insert(0, repo)
    if "festim" in sys.modules:
        raise EngineError("festim already imported")
    ff.install()
    sys.dont_write_bytecode = True
    np.isclose = _isclose
    np.allclose = _allclose
    np.savetxt = _savetxt
    math.isclose = _mathisclose
    for n in ("exp", "sqrt", "cos", "sin", "log", "tan"):
        setattr(math, n, _wrapmath(n))
    for n, v in (("isfinite", True), ("isnan", False), ("isinf", False)):
        setattr(np, n, _finite(n, v))
        setattr(math, n, _mathfinite(n, v))
    import festim

    if not os.path.realpath(festim.__file__).startswith(os.path.realpath(repo)):
        raise EngineError("festim imported from " + festim.__file__)
    for n, m in list(sys.modules.items()):
        if (n == "festim" or n.startswith("festim.")) and isinstance(m, types.ModuleType):
            m.__dict__.setdefault("float", FloatShadow)
            m.__dict__.setdefault("int", IntShadow)
    _festim = festim
    return festim


class Snap:
    """the components of a field at one moment"""

    def __init__(self, contents):
        self.c = list(contents)

    def val(self, k, p):
        return self.c[k].val(p)

    def grad(self, k, p, i):
        return self.c[k].grad(i, p)


class SymWorld(base.WorldBase):
    symbolic = True

    def __init__(self, ctx, cfg=None):
        self.ctx = ctx
        self.F = load_festim()
        self.f = sys.modules["fenics"]
        self.points = []
        self.dim = 1
        self.assembled = []
        self.newtons = []
        self.mesh_files = {}
        self.files = []
        self.saved = []
        self.handler = None
        self.script = None
        self.max_newton = 40
        self.evalr = Evaluator(ufl, self)
        self.args = {}
        self.ascell = False
        self._fg = {}
        self.nsolve = 0
        self.field_kind = "affine"
        self.range_of = None
        self.hints = {}
        self._n = 0
        self.k_main = 0
        ff.WORLD = self

    # ------------------------------------------------------------- numbers
    def real(self, name, lo=0.5, hi=2.0, pos=False, nonneg=False, nonzero=False, bound=False):
        name = self.prefix + name
        s = self.ctx.real(name)
        self.hints[name] = (lo, hi)
        if pos:
            self.ctx.assume(s > 0)
        if nonneg:
            self.ctx.assume(s >= 0)
        if nonzero:
            self.ctx.assume(s != 0)
        if bound:
            self.ctx.assume((s >= lo) & (s <= hi))
        return s

    def int(self, name, lo, hi):
        name = self.prefix + name
        s = self.ctx.int(name)
        self.hints[name] = (lo, hi)
        self.ctx.assume((s >= lo) & (s <= hi))
        return s

    def bool(self, name):
        name = self.prefix + name
        self.hints[name] = (0, 1)
        return bool(self.ctx.boolvar(name))

    def sp(self, v):
        import sympy

        return v._sympy_() if isinstance(v, _Num) else sympy.sympify(v)

    def exp(self, a):
        return nexp(a)

    def sqrt(self, a):
        return nsqrt(a)

    def pow(self, a, b):
        return npow(a, b)

    def cos(self, a):
        return nfun("cos", a)

    def assume(self, c):
        self.ctx.assume(c)

    def written(self, name):
        """the tables saved under this name"""
        if os.path.isfile(name) and os.path.getsize(name):
            raise EngineError("%s written by other means than numpy.savetxt" % name)
        return [(X, k) for nm, X, k in self.saved if nm == name]

    def implies(self, a, b):
        return SymBool(z3.Implies(zbool(a), zbool(b)))

    def and_(self, *cs):
        return SymBool(z3.And([zbool(c) for c in cs]))

    def or_(self, *cs):
        return SymBool(z3.Or([zbool(c) for c in cs]))

    def not_(self, c):
        return SymBool(z3.Not(zbool(c)))

    def ite(self, c, a, b):
        from .uflz import nif

        return nif(c, a, b)

    def stop(self):
        raise StopHarness()

    def cval(self, c):
        """number held by a fenics Constant"""
        return c.v

    # --------------------------------------------------------------- meshes
    def mesh(self, dim, marks, npts=1, left=1, right=2, bottoms=None, weights=False, files=None):
        """logical cells k = [1+k, 2+k] x [0,1]^(dim-1) with volume ids `marks`;
        returns (mesh, volume markers, surface markers)"""
        self.dim = dim
        n = len(marks)
        pad = [0.5] * (dim - 1)
        cells = [[1.5 + k] + pad for k in range(n)]
        fac = []
        e0 = lambda s, i: [s if j == i else 0 for j in range(dim)]
        if dim == 1:
            m = ff.interval([float(1 + k) for k in range(n + 1)])
            vm = ff.MeshFunction("size_t", m, 1, 0)
            sm = ff.MeshFunction("size_t", m, 0, 0)
            sm[0], sm[n] = left, right
            fidx = [(0, 0, left, [1.0], [-1]), (n, n - 1, right, [float(n + 1)], [1])]
        else:
            m = ff.Mesh()
            fac = [([1.0] + pad, [0], e0(-1, 0)), ([1.0 + n] + pad, [n - 1], e0(1, 0))]
            for k in range(n):
                fac.append(([1.5 + k, 0.0] + [0.5] * (dim - 2), [k], e0(-1, 1)))
            m._build(dim, cells, fac)
            vm = ff.MeshFunction("size_t", m, dim, 0)
            sm = ff.MeshFunction("size_t", m, dim - 1, 0)
            sm[0], sm[1] = left, right
            fidx = [(0, 0, left, None, e0(-1, 0)), (1, n - 1, right, None, e0(1, 0))]
            bottoms = bottoms or [3] * n
            for k in range(n):
                sm[2 + k] = bottoms[k]
                fidx.append((2 + k, k, bottoms[k], None, e0(-1, 1)))
        for k in range(n):
            vm[k] = marks[k]
            for q in range(npts):
                nm = "p%d%s" % (k, "abc"[q])
                x = [self.real("%s_x" % nm, lo=1.15 + k + 0.3 * q, hi=1.4 + k + 0.3 * q)]
                self.ctx.assume((x[0] > 1 + k) & (x[0] < 2 + k))
                for j in range(1, dim):
                    y = self.real("%s_y%d" % (nm, j), lo=0.3, hi=0.7)
                    self.ctx.assume((y > 0) & (y < 1))
                    x.append(y)
                w = self.real(nm + "_w", lo=0.3, hi=1.2, pos=True) if weights else 1
                self.points.append(ff.Pt("cell", k, x, w=w, mark=marks[k], name=nm))
        for i, (fi, c, mk, x, nrm) in enumerate(fidx):
            nm = "f%d" % fi
            if x is None:
                x = []
                for j in range(dim):
                    if nrm[j] == 0:
                        lo = (1 + c) if j == 0 else 0
                        y = self.real("%s_x%d" % (nm, j), lo=lo + 0.2, hi=lo + 0.8)
                        self.ctx.assume((y > lo) & (y < lo + 1))
                    else:
                        y = (1.0 if nrm[0] < 0 else 1.0 + n) if j == 0 else 0.0
                    x.append(y)
            w = (self.real(nm + "_w", lo=0.3, hi=1.2, pos=True) if dim > 1 else 1) if weights else 1
            self.points.append(ff.Pt("facet", c, x, facet=fi, n=nrm, w=w, mark=mk, name=nm, vertex=fi if dim == 1 else None))
        if dim == 1:
            for k in range(n):
                for v in (k, k + 1):
                    self.points.append(ff.Pt("dof", k, [m.verts[v]], mark=marks[k], name="d%d_%d" % (k, v), vertex=v))
        if files:
            self.mesh_files.update({files[0]: vm, files[1]: sm})
        return m, vm, sm

    def simplices(self, verts, cellv, marks, surfs):
        """mesh of triangles/tetrahedra; surfs: {vertices of an exterior facet: mark}"""
        self.dim = dim = len(verts[0])
        m = ff.simplices(verts, cellv)
        vm = ff.MeshFunction("size_t", m, dim, 0)
        sm = ff.MeshFunction("size_t", m, dim - 1, 0)
        for c, mk in enumerate(marks):
            vm[c] = mk
            self.points.append(ff.Pt("cell", c, m.cells_[c]._x, w=1, mark=mk, name="p%da" % c))
        for i, fv in enumerate(m.facetv):
            if fv in surfs:
                c = m.facets_[i].cells_[0]
                sm[i] = surfs[fv]
                self.points.append(ff.Pt("facet", c, m.facets_[i]._x, facet=i, n=m.normals[i], w=1, mark=surfs[fv], name="f%s" % "".join(map(str, fv))))
                for v in fv:
                    p = ff.Pt("sdof", c, m._vx(v), w=1, mark=marks[c], name="s%s_%d" % ("".join(map(str, fv)), v), vertex=v)
                    p.smark = surfs[fv]
                    self.points.append(p)
        for c, vs in enumerate(m.cellv):
            for v in vs:
                self.points.append(ff.Pt("dof", c, m._vx(v), mark=marks[c], name="d%d_%d" % (c, v), vertex=v))
        return m, vm, sm

    def register_interval(self, m):
        """points of a 1D mesh built by the code under test"""
        self.dim = 1
        self.points = [p for p in self.points if p.kind == "x"]
        n = len(m.verts) - 1
        for k in range(n):
            nm = "q%d" % k
            s = self.real(nm + "_s", lo=0.3, hi=0.7)
            self.ctx.assume((s > 0) & (s < 1))
            x = m.verts[k] + s * (m.verts[k + 1] - m.verts[k])
            self.points.append(ff.Pt("cell", k, [x], w=1, name=nm))
        for v, c, nrm in ((0, 0, -1), (n, n - 1, 1)):
            self.points.append(ff.Pt("facet", c, [m.verts[v]], facet=v, n=[nrm], w=1, name="f%d" % v, vertex=v))
        for k in range(n):
            for v in (k, k + 1):
                self.points.append(ff.Pt("dof", k, [m.verts[v]], name="d%d_%d" % (k, v), vertex=v))

    def marker(self, data, p):
        if data is None:
            raise EngineError("no subdomain data")
        if isinstance(data, ff.MeshFunction):
            m = data.mesh()
            want = m.dim if (p.kind != "facet" or self.ascell) else m.dim - 1
            if data.dim() != want:
                raise RuntimeError("subdomain data of the wrong dimension")
            return data[p.cell] if want == m.dim else data[p.facet]
        raise EngineError("subdomain data")

    # callbacks of the evaluator
    def argument(self, num, comp, p):
        if num not in self.args:
            raise EngineError("free argument")
        return self.args[num][0].get(comp, 0)

    def argument_grad(self, num, comp, dirs, p):
        if len(dirs) != 1:
            raise EngineError("second derivatives")
        if num not in self.args:
            raise EngineError("free argument")
        return self.args[num][1].get((comp, dirs[0]), 0)

    def coefficient(self, e, comp, p):
        return ff.coefficient_value(e, comp, p)

    def coefficient_grad(self, e, comp, dirs, p):
        return ff.coefficient_grad(e, comp, dirs, p)

    def coordinate(self, i, p):
        return p.x[i]

    def normal(self, i, p):
        if p.n is None:
            raise EngineError("normal at an interior point")
        return p.n[i]

    def evform(self, form, p, args, ascell=False):
        norm = {}
        for k, v in args.items():
            norm[k] = v if isinstance(v, tuple) else (v, {})
        old, oc = self.args, self.ascell
        self.args, self.ascell = norm, ascell
        try:
            return self.evalr.integrand(form, p, ascell)
        finally:
            self.args, self.ascell = old, oc

    def evalu(self, e, p):
        if isinstance(e, (int, float)) or isinstance(e, _Num):
            return e
        if type(e).__name__ in ("Function", "Constant", "Expression"):
            return ff.coefficient_value(e, 0, p)
        return self.evalr.ev(self.evalr.lower_expr(e), (), {}, p)

    def val(self, e, p):
        return self.evalu(e, p)

    def snap(self, fn):
        return Snap([fn.content(k) for k in range(fn.ncomp())])

    def grad(self, fn, p, i):
        return ff.coefficient_grad(fn, 0, (i,), p)

    def fresh_grad(self, content, i, p):
        k = (content.uid, i, p.name)
        if k not in self._fg:
            self._fg[k] = self.ctx.fresh_real("grad_%s_%d" % (p.name, i))
        return self._fg[k]

    def fresh_grad_expr(self, e, i, p):
        k = ("e", id(e), i, p.name)
        if k not in self._fg:
            self._fg[k] = self.ctx.fresh_real("grade_%s_%d" % (p.name, i))
        return self._fg[k]

    def dof_value(self, mesh, c, key):
        if isinstance(c, ff.DofContent):
            if key in c.v:
                return c.v[key]
            return c.key(*(key[1:] if key[0] == "cv" else (self._cell_of(mesh, key[1]), key[1])))
        if isinstance(c, ff.Affine):
            x = mesh._vx(key[-1]) if key[0] in ("v", "cv") else [0] * mesh.dim
            return c.at(x)
        if key[0] == "cv":
            cell, v = key[1], key[2]
        elif key[0] == "v":
            v = key[1]
            cell = self._cell_of(mesh, v)
        else:
            cell, v = (key[1] if key[0] == "c" else 0), None
        for p in self.points:
            if p.cell == cell and (p.vertex == v if v is not None else p.kind == "cell"):
                return c.val(p)
        raise EngineError("dof value")

    def _cell_of(self, mesh, v):
        return max(c for c, vs in enumerate(mesh.cellv) if v in vs)

    # --------------------------------------------------------------- solves
    def new_content(self, tag, u):
        V = u.V
        out = []
        for k in range(len(V.elems)):
            nm = "%s_%d" % (tag, k)
            lo, hi = (self.range_of(u, k) if self.range_of else None) or (0.5, 2.0)
            a = self.real(nm + "_a", lo=lo, hi=hi)
            if ff._family(V.elems[k]) == "R":
                out.append(ff.Affine(a, [0] * 3))
            elif self.field_kind == "dofs":
                m = V._mesh
                vals = {}
                fam = V._fam(k)
                for c in range(len(m.cells_)):
                    for v in m.cellv[c]:
                        key = V._key(k, c, v)
                        if key not in vals:
                            vals[key] = self.real("%s_%s" % (nm, "_".join(map(str, key))), lo=lo, hi=hi)
                out.append(ff.DofContent(m, vals))
            else:
                b = [self.real("%s_b%d" % (nm, i), lo=0.05 * hi, hi=0.2 * hi) for i in range(self.dim)]
                out.append(ff.Affine(a, b))
        return out

    def newton(self, solver, problem, x):
        self.nsolve += 1
        if self.nsolve > self.max_newton:
            raise EngineError("too many solves")
        self.assembled = []
        b, A = object(), object()
        try:
            problem.F(b, x)
            nF = list(self.assembled)
            self.assembled = []
            problem.J(A, x)
            nJ = list(self.assembled)
        except Exception as e:  # noqa: BLE001
            raise EngineError("assembly: %r" % e)
        if not nF and not nJ:
            raise EngineError("assembled without a system assembler")
        sa = nF[0][0] if nF else None
        sj = nJ[0][0] if nJ else None
        u = x.fn
        ev = base.Event(
            n=self.nsolve,
            solver=solver,
            params=dict(solver.parameters),
            problem=problem,
            F=sa.L if sa is not None else None,
            J=sj.a if sj is not None else None,
            bcs=list(sa.bcs or []) if sa is not None else [],
            residual_assembly=[n for _, n in nF],
            jacobian_assembly=[n for _, n in nJ],
            u=u,
            name=u.name(),
            ncomp=u.ncomp(),
        )
        self.newtons.append(ev)
        ev.guess = Snap([u.content(k) for k in range(u.ncomp())])
        new = self.new_content("u%d" % self.nsolve, u)
        for k, c in enumerate(new):
            u.set_content(k, c)
        ev.sol = Snap(new)
        it, conv = 3, True
        if self.handler is not None:
            r = self.handler(ev)
            if r is not None:
                it, conv = r
        if not conv and solver.parameters.get("error_on_nonconvergence"):
            raise RuntimeError("*** Error: Unable to solve nonlinear system with NewtonSolver.")
        return it, conv

    def dirichlet(self, ev, p):
        """[(component, value)] imposed at facet point p by ev.bcs"""
        out = []
        for bc in ev.bcs:
            if not isinstance(bc, ff.DirichletBC):
                raise EngineError("bc object")
            if p.facet is not None and bc.mf[p.facet] == bc.id:
                comp = bc.V.component()
                out.append((comp[0] if comp else 0, ff.coefficient_value(bc.val, 0, p)))
        return out

    # ----------------------------------------------------------------- files
    def read_checkpoint(self, filename, fn, label, step):
        g = self.stored(filename, label, step)
        fn.set_content(0, ff.Affine(g.a, g.b))

    def record_file(self, kind, filename, fn, t, label=None, append=None, file=None):
        vals = {p: fn.content(0).val(p) for p in self.points}
        self.files.append(base.FileRec(kind=kind, filename=filename, t=t, label=label, append=append, vals=vals, params=dict(file.parameters)))

    # ----------------------------------------------------------- obligations
    def check_eq(self, label, a, b):
        self.res.obligation(label, term(a) == term(b))

    def check(self, label, cond):
        self.res.obligation(label, zbool(cond))

    def is_stamp(self, txt, v, fmt=""):
        """txt is v written with the given format"""
        if not isinstance(v, _Num):
            return txt == format(v, fmt)
        if not (txt.startswith("<") and txt.endswith(">")):
            return False
        nm, _, spec = txt[1:-1].partition("|")
        got = lookup_name(nm)
        if got is None or spec != fmt:
            return False
        return self.eq(got, v)

    def eq(self, a, b):
        return SymBool(term(a) == term(b))

    def check_stamp(self, label, txt, v, fmt=""):
        self.check(label, self.is_stamp(txt, v, fmt))

    def fail(self, label):
        self.res.obligation(label, z3.BoolVal(False))

    def raises(self, fn):
        """the exception fn raises, or None"""
        try:
            fn()
        except Exception as e:  # noqa: BLE001
            return e
        return None
