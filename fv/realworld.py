"""The concrete world: unpatched festim on the real dolfin, with numbers.

Used to replay solver counterexamples and to validate the stand-in.  dolfin's
meshes, function spaces, functions, compiled expressions, user expressions and
UFL are the real ones; replaced are only the nonlinear solve (scripted), pointwise
mass solves / assembly (evaluated at the same points) and file output (recorded).
"""
import contextlib
import io
import json
import math
import os
import random
import sys
import time
import traceback
import types
import warnings

import numpy as np

from . import base

WORLD = None


class Invalid(BaseException):
    """the values violate an assumption of the harness"""


class Stop(BaseException):
    pass


class Pt:
    def __init__(self, kind, cell, x, facet=None, n=None, w=1.0, mark=None, name="", vertex=None):
        self.kind, self.cell, self.x, self.facet, self.n, self.w, self.mark, self.name, self.vertex = kind, cell, x, facet, n, w, mark, name, vertex


_festim = None


def load_festim():
    global _festim
    if _festim is not None:
        return _festim
    repo = os.environ.get("FV_REPO", "/repo")
    if repo not in sys.path:
        sys.path.insert(0, repo)
    sys.dont_write_bytecode = True
    import fenics as f
    import dolfin

    f.set_log_level(50)

    class SystemAssembler:
        def __init__(self, a, L, bcs=None):
            self.a, self.L, self.bcs = a, L, bcs

        def assemble(self, *args):
            WORLD.assembled.append((self, len(args)))

    class NewtonSolver(f.NewtonSolver):
        def __init__(self, *a):
            super().__init__(*a)

        def solve(self, problem, x):
            return WORLD.newton(self, problem, x)

    class DirichletBC(f.DirichletBC):
        def __init__(self, *a, **k):
            super().__init__(*a, **k)
            if len(a) < 4 or not hasattr(a[2], "where_equal"):
                raise Invalid("DirichletBC on something else than marked facets")
            self._fv = (a[0], a[1], a[2], a[3])

    real_file = f.XDMFFile

    class XDMFFile:
        Encoding = f.XDMFFile.Encoding

        def __init__(self, *a):
            self.filename = str(a[-1])
            self.parameters = {}

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return None

        def close(self):
            return None

        def read(self, *a):
            return real_file(self.filename).read(*a)

        def read_checkpoint(self, fn, label, step=-1):
            WORLD.read_checkpoint(self.filename, fn, label, step)

        def write_checkpoint(self, fn, label, t=0, enc=None, append=False):
            WORLD.record_file("checkpoint", self.filename, fn, t, label=label, append=append, file=self)

        def write(self, fn, t=None, *a):
            if not isinstance(fn, f.Function):
                return real_file(self.filename).write(fn)
            if isinstance(fn, f.Function):
                WORLD.record_file("write", self.filename, fn, t, label=fn.name(), append=None, file=self)

    def guarded(orig):
        """a stand-in that cannot deal with its arguments: dolfin's own error if it has one, otherwise the run decides nothing"""

        def wrap(hook):
            def fn(*a, **k):
                try:
                    return hook(*a, **k)
                except (KeyError, TypeError, AttributeError, IndexError, NotImplementedError, AssertionError) as e:
                    why = repr(e)
                orig(*a, **k)
                raise Invalid("stand-in for %s: %s" % (orig.__name__, why))

            return fn

        return wrap

    class LinearVariationalProblem:
        def __init__(self, a, L, u, bcs=None, form_compiler_parameters=None):
            if bcs:
                raise Invalid("linear problem with boundary conditions")
            self.a, self.L, self.u, self.bcs = a, L, u, bcs

    class LinearVariationalSolver:
        def __init__(self, problem):
            self.p = problem
            self.parameters = {}

        def solve(self):
            q = self.p
            W = WORLD

            def at(p):
                a = W.evform(q.a, p, {0: ({0: 1}, {}), 1: ({0: 1}, {})}, ascell=True)
                b = W.evform(q.L, p, {0: ({0: 1}, {})}, ascell=True)
                if a == 0:
                    raise RuntimeError("singular system (no equation for part of the domain)")
                return b / a

            W.set_nodal(q.u, at)

    @guarded(f.solve)
    def solve(eq, *args, **kw):
        u = args[0]
        W = WORLD
        if (args[1:] or [kw.get("bcs")])[0] or not hasattr(eq, "lhs"):
            raise NotImplementedError
        if not isinstance(eq.rhs, (int, float)):
            return LinearVariationalSolver(LinearVariationalProblem(eq.lhs, eq.rhs, u)).solve()

        def at(p):
            W.override = (u, 0.0)
            try:
                b = W.evform(eq.lhs, p, {0: ({0: 1}, {})}, ascell=True)
                W.override = (u, 1.0)
                a = W.evform(eq.lhs, p, {0: ({0: 1}, {})}, ascell=True)
            finally:
                W.override = None
            if a == b:
                raise RuntimeError("singular system (no equation for part of the domain)")
            return -b / (a - b)

        W.set_nodal(u, at)

    @guarded(f.project)
    def project(v, V=None, *args, **kw):
        if args or kw.get("bcs") or kw.get("function") is not None:
            raise NotImplementedError
        if V is None:
            V = v.function_space()
        g = f.Function(V)
        WORLD.set_nodal(g, lambda p: WORLD.evalu(v, p))
        return g

    @guarded(f.assemble)
    def assemble(form, tensor=None, **kw):
        if len(form.arguments()):
            raise NotImplementedError
        return float(sum(p.w * WORLD.evform(form, p, {}) for p in WORLD.points if p.kind != "dof"))

    for k, v in dict(
        SystemAssembler=SystemAssembler,
        NewtonSolver=NewtonSolver,
        DirichletBC=DirichletBC,
        XDMFFile=XDMFFile,
        LinearVariationalProblem=LinearVariationalProblem,
        LinearVariationalSolver=LinearVariationalSolver,
        solve=solve,
        project=project,
        assemble=assemble,
    ).items():
        setattr(f, k, v)
    orig = np.savetxt

    def savetxt(fname, X, *a, **k):
        if WORLD is None:
            return orig(fname, X, *a, **k)
        WORLD.saved.append(base.saved_record(fname, X, a, k))

    np.savetxt = savetxt
    import festim

    _festim = festim
    return festim


class Snap:
    def __init__(self, W, fn):
        self.W = W
        self.fns = []
        V = fn.function_space()
        g = fn.copy(deepcopy=True)
        self.fns = list(g.split(deepcopy=True)) if V.num_sub_spaces() else [g]

    def val(self, k, p):
        return self.W.fnval(self.fns[k], p)

    def grad(self, k, p, i):
        return self.W.fngrad(self.fns[k], p, i)


class _Ufc:
    def __init__(self, p, dim):
        self.index = p.cell
        self.topological_dimension = self.geometric_dimension = dim
        self.local_facet = -1


class RealWorld(base.WorldBase):
    symbolic = False

    def __init__(self, values, seed=1, tol=1e-6):
        global WORLD
        import fenics

        self.F = load_festim()
        self.f = fenics
        import ufl_legacy as ufl
        from .uflz import Evaluator

        self.evalr = Evaluator(ufl, self)
        self.values = dict(values)
        self.used = {}
        self.seed = seed
        self.tol = tol
        self.points = []
        self.dim = 1
        self.assembled, self.newtons, self.files, self.saved = [], [], [], []
        self.handler = None
        self.max_newton = 40
        self.nsolve = 0
        self.override = None
        self.args = {}
        self.ascell = False
        self.failures = []
        self.checked = 0
        self.field_kind = "affine"
        self.range_of = None
        self.cover = set()
        WORLD = self

    # ------------------------------------------------------------- numbers
    def real(self, name, lo=0.5, hi=2.0, pos=False, nonneg=False, nonzero=False, bound=False):
        name = self.prefix + name
        v = self.values.get(name)
        if v is None:
            v = random.Random("%s/%s" % (name, self.seed)).uniform(lo, hi)
        v = float(v)
        self.used[name] = v
        if (pos and not v > 0) or (nonneg and not v >= 0) or (nonzero and v == 0) or (bound and not lo <= v <= hi):
            raise Invalid(name)
        return v

    def int(self, name, lo, hi):
        name = self.prefix + name
        v = self.values.get(name)
        if v is None:
            v = random.Random("%s/%s" % (name, self.seed)).randint(lo, hi)
        v = int(v)
        self.used[name] = v
        if not lo <= v <= hi:
            raise Invalid(name)
        return v

    def bool(self, name):
        name = self.prefix + name
        v = self.values.get(name)
        if v is None:
            v = random.Random("%s/%s" % (name, self.seed)).random() < 0.5
        self.used[name] = bool(v)
        return bool(v)

    def sp(self, v):
        import sympy

        return sympy.sympify(v)

    def exp(self, a):
        return math.exp(a)

    def sqrt(self, a):
        return math.sqrt(a)

    def pow(self, a, b):
        return a**b

    def cos(self, a):
        return math.cos(a)

    def assume(self, c):
        if not c:
            raise Invalid("assumption")

    def written(self, name):
        """the tables saved under this name"""
        if os.path.isfile(name) and os.path.getsize(name):
            raise Invalid("%s written by other means than numpy.savetxt" % name)
        return [(X, k) for nm, X, k in self.saved if nm == name]

    def implies(self, a, b):
        return (not a) or bool(b)

    def and_(self, *cs):
        return all(cs)

    def or_(self, *cs):
        return any(cs)

    def not_(self, c):
        return not c

    def ite(self, c, a, b):
        return a if c else b

    def stop(self):
        raise Stop()

    def cval(self, c):
        return float(c)

    # --------------------------------------------------------------- meshes
    def mesh(self, dim, marks, npts=1, left=1, right=2, bottoms=None, weights=False, files=None):
        f = self.f
        self.dim = dim
        n = len(marks)
        cps = []
        for k in range(n):
            for q in range(npts):
                nm = "p%d%s" % (k, "abc"[q])
                x = [self.real("%s_x" % nm, lo=1.15 + k + 0.3 * q, hi=1.4 + k + 0.3 * q)]
                if not 1 + k < x[0] < 2 + k:
                    raise Invalid(nm)
                for j in range(1, dim):
                    y = self.real("%s_y%d" % (nm, j), lo=0.3, hi=0.7)
                    if not 0 < y < 1:
                        raise Invalid(nm)
                    x.append(y)
                w = self.real(nm + "_w", lo=0.3, hi=1.2, pos=True) if weights else 1
                cps.append((nm, k, x, w))
        bottoms = bottoms or [3] * n
        e0 = lambda s, i: [s if j == i else 0 for j in range(dim)]
        if dim == 1:
            specs = [(0, left, e0(-1, 0), [1.0]), (n, right, e0(1, 0), [1.0 + n])]
        else:
            specs = []
            for fi, mk, nrm, c in [(0, left, e0(-1, 0), 0), (1, right, e0(1, 0), n - 1)] + [(2 + k, bottoms[k], e0(-1, 1), k) for k in range(n)]:
                x = []
                for j in range(dim):
                    if nrm[j] == 0:
                        lo = (1 + c) if j == 0 else 0
                        y = self.real("f%d_x%d" % (fi, j), lo=lo + 0.2, hi=lo + 0.8)
                        if not lo < y < lo + 1:
                            raise Invalid("f%d" % fi)
                    else:
                        y = (1.0 if nrm[0] < 0 else 1.0 + n) if j == 0 else 0.0
                    x.append(y)
                specs.append((fi, mk, nrm, x))
        if dim == 1:
            self.lverts = [float(1 + k) for k in range(n + 1)]
            vs = sorted(set([float(1 + k) for k in range(n + 1)] + [c[2][0] for c in cps]))
            m = f.Mesh()
            ed = f.MeshEditor()
            ed.open(m, "interval", 1, 1)
            ed.init_vertices(len(vs))
            ed.init_cells(len(vs) - 1)
            for i, v in enumerate(vs):
                ed.add_vertex(i, np.array([v]))
            for i in range(len(vs) - 1):
                ed.add_cell(i, np.array([i, i + 1], dtype=np.uintp))
            ed.close()
        else:
            m = self.cones(dim, n, cps, [q[3] for q in specs])
        m.init()
        vm = f.MeshFunction("size_t", m, dim, 0)
        sm = f.MeshFunction("size_t", m, dim - 1, 0)
        for c in f.cells(m):
            vm[c] = marks[min(int(c.midpoint().x() - 1), n - 1)]
        eps = 1e-12
        for fc in f.facets(m):
            x, y = fc.midpoint().x(), fc.midpoint().y()
            if abs(x - 1.0) < eps:
                sm[fc] = left
            elif abs(x - 1.0 - n) < eps:
                sm[fc] = right
            elif dim > 1 and abs(y) < eps and fc.exterior():
                sm[fc] = bottoms[min(int(x - 1), n - 1)]
        if files:
            f.XDMFFile(files[0]).write(vm)
            f.XDMFFile(files[1]).write(sm)
            m = f.Mesh()
            f.XDMFFile(files[0]).read(m)
            m.init()
        self._m = m
        for nm, k, x, w in cps:
            self.points.append(Pt("cell", self.locate(m, x, k), x, w=w, mark=marks[k], name=nm))
        for fi, mk, nrm, x in specs:
            nm = "f%d" % fi
            w = (self.real(nm + "_w", lo=0.3, hi=1.2, pos=True) if dim > 1 else 1) if weights else 1
            cell = self.locate(m, x)
            facet = None
            for fc in f.facets(f.Cell(m, cell)):
                if fc.exterior():
                    d = sum(nrm[j] * (fc.midpoint().array()[j] - x[j]) for j in range(dim))
                    t = fc.normal().array()[:dim] if dim > 1 else None
                    if abs(d) < 1e-10 and (dim == 1 or abs(sum(a * b for a, b in zip(t, nrm)) - 1) < 1e-9):
                        facet = fc.index()
            if facet is None:
                raise RuntimeError("facet not found")
            self.points.append(Pt("facet", cell, x, facet=facet, n=nrm, w=w, mark=mk, name=nm))
        if dim == 1:
            for k in range(n):
                for v in (k, k + 1):
                    x = [1.0 + v]
                    self.points.append(Pt("dof", self.locate(m, x, k), x, mark=marks[k], name="d%d_%d" % (k, v), vertex=v))
        return m, vm, sm

    def cones(self, dim, n, cps, fps):
        """unit boxes in a row; every evaluation point is a vertex: each box is the cone
        of its boundary from its interior point, and the sides that carry a point are
        fans around it"""
        f = self.f
        verts, index = [], {}

        def vid(x):
            k = tuple(float(v) for v in x)
            if k not in index:
                index[k] = len(verts)
                verts.append(k)
            return index[k]

        def inside(x, corners):
            return all(min(c[j] for c in corners) <= x[j] <= max(c[j] for c in corners) for j in range(dim))

        def side(corners):
            pt = [x for x in fps if inside(x, corners)]
            c = [vid(x) for x in corners]
            if dim == 2:
                if not pt:
                    return [tuple(c)]
                q = vid(pt[0])
                return [(c[0], q), (q, c[1])]
            if not pt:  # corners in cyclic order; the diagonal starts at the lowest corner
                i = corners.index(min(corners))
                c = c[i:] + c[:i]
                return [(c[0], c[1], c[2]), (c[0], c[2], c[3])]
            q = vid(pt[0])
            return [(c[i], c[(i + 1) % 4], q) for i in range(4)]

        cellv = []
        boxes = []
        for k in range(n):  # one box per interior point
            mine = sorted(c[2] for c in cps if c[1] == k)
            cuts = [1.0 + k] + [(u[0] + v[0]) / 2 for u, v in zip(mine, mine[1:])] + [2.0 + k]
            if any(u >= v for u, v in zip(cuts, cuts[1:])) or any(x[0] in cuts[1:-1] for x in fps):
                raise Invalid("points on top of each other")
            boxes += list(zip(mine, cuts, cuts[1:]))
        for e, a, b in boxes:
            e = vid(e)
            if dim == 2:
                sides = [((a, 0.0), (b, 0.0)), ((b, 0.0), (b, 1.0)), ((b, 1.0), (a, 1.0)), ((a, 1.0), (a, 0.0))]
            else:
                sq = [(0.0, 0.0), (1.0, 0.0), (1.0, 1.0), (0.0, 1.0)]
                ab = [(a, 0.0), (b, 0.0), (b, 1.0), (a, 1.0)]
                sides = [[(v, y, z) for y, z in sq] for v in (a, b)]
                sides += [[(x, v, z) for x, z in ab] for v in (0.0, 1.0)]
                sides += [[(x, y, v) for x, y in ab] for v in (0.0, 1.0)]
            for s in sides:
                cellv += [t + (e,) for t in side(list(s))]
        m = f.Mesh()
        ed = f.MeshEditor()
        ed.open(m, {2: "triangle", 3: "tetrahedron"}[dim], dim, dim)
        ed.init_vertices(len(verts))
        ed.init_cells(len(cellv))
        for i, v in enumerate(verts):
            ed.add_vertex(i, np.array(v))
        for i, t in enumerate(cellv):
            ed.add_cell(i, np.array(sorted(t), dtype=np.uintp))
        ed.close()
        return m

    def simplices(self, verts, cellv, marks, surfs):
        f = self.f
        self.dim = dim = len(verts[0])
        m = f.Mesh()
        ed = f.MeshEditor()
        ed.open(m, {2: "triangle", 3: "tetrahedron"}[dim], dim, dim)
        ed.init_vertices(len(verts))
        ed.init_cells(len(cellv))
        for i, v in enumerate(verts):
            ed.add_vertex(i, np.array(v, dtype=float))
        for i, c in enumerate(cellv):
            ed.add_cell(i, np.array(sorted(c), dtype=np.uintp))
        ed.close()
        m.init()
        self._m = m
        vm = f.MeshFunction("size_t", m, dim, 0)
        sm = f.MeshFunction("size_t", m, dim - 1, 0)
        for c in f.cells(m):
            mk = vm[c] = marks[c.index()]
            self.points.append(Pt("cell", c.index(), list(c.midpoint().array()[:dim]), mark=mk, name="p%da" % c.index()))
        for fc in f.facets(m):
            fv = tuple(sorted(int(v) for v in fc.entities(0)))
            if fv in surfs:
                c = int(fc.entities(dim)[0])
                sm[fc] = surfs[fv]
                self.points.append(Pt("facet", c, list(fc.midpoint().array()[:dim]), facet=fc.index(), n=list(fc.normal().array()[:dim]), mark=surfs[fv], name="f%s" % "".join(map(str, fv))))
                for v in fv:
                    p = Pt("sdof", c, list(verts[v]), mark=marks[c], name="s%s_%d" % ("".join(map(str, fv)), v), vertex=v)
                    p.smark = surfs[fv]
                    self.points.append(p)
        for c, vs in enumerate(cellv):
            for v in sorted(vs):
                self.points.append(Pt("dof", c, list(verts[v]), mark=marks[c], name="d%d_%d" % (c, v), vertex=v))
        return m, vm, sm

    def locate(self, m, x, logical=None):
        f = self.f
        pt = f.Point(*x)
        cands = m.bounding_box_tree().compute_entity_collisions(pt)
        best = None
        for c in cands:
            c = int(c)
            if logical is not None and int(f.Cell(m, c).midpoint().x() - 1) != logical:
                continue
            best = c
            break
        if best is None:
            raise Invalid("point outside")
        return best

    def register_interval(self, m):
        """points of a 1D mesh built by the code under test"""
        self.dim = 1
        self.points = []
        xs = sorted(v[0] for v in m.coordinates())
        self._m = m
        f = self.f
        n = len(xs) - 1
        mids = sorted((c.midpoint().x(), c.index()) for c in f.cells(m))
        for k in range(n):
            s = self.real("q%d_s" % k, lo=0.3, hi=0.7)
            if not 0 < s < 1:
                raise Invalid("s")
            self.points.append(Pt("cell", mids[k][1], [xs[k] + s * (xs[k + 1] - xs[k])], name="q%d" % k))
        for v, c, nrm in ((0, 0, -1), (n, n - 1, 1)):
            fi = [fc.index() for fc in f.facets(m) if fc.midpoint().x() == xs[v]][0]
            self.points.append(Pt("facet", mids[c][1], [xs[v]], facet=fi, n=[nrm], name="f%d" % v, vertex=v))
        for k in range(n):
            for v in (k, k + 1):
                self.points.append(Pt("dof", mids[k][1], [xs[v]], name="d%d_%d" % (k, v), vertex=v))

    def marker(self, data, p):
        m = data.mesh()
        want = m.topology().dim() if (p.kind != "facet" or self.ascell) else m.topology().dim() - 1
        if data.dim() != want:
            raise RuntimeError("subdomain data of the wrong dimension")
        return int(data[p.cell] if want == m.topology().dim() else data[p.facet])

    # ----------------------------------------------------------- evaluation
    def fnval(self, fn, p, x=None):
        v = np.zeros(int(np.prod(fn.ufl_shape)) if fn.ufl_shape else 1)
        fn.eval_cell(v, np.array(p.x if x is None else x, dtype=float), self.f.Cell(fn.function_space().mesh(), p.cell))
        return v[0] if len(v) == 1 else v

    def fngrad(self, fn, p, i):
        h = 0.01
        x1, x2 = list(p.x), list(p.x)
        x1[i] += h
        x2[i] -= h
        return (self.fnval(fn, p, x1) - self.fnval(fn, p, x2)) / (2 * h)

    def coefficient(self, e, comp, p):
        f = self.f
        if self.override is not None and e is self.override[0]:
            return self.override[1]
        if isinstance(e, f.Function):
            v = self.fnval(e, p)
            return v if np.isscalar(v) else v[comp]
        if isinstance(e, f.Constant):
            return float(e)
        if isinstance(e, f.UserExpression):
            v = np.zeros(1)
            if hasattr(type(e), "eval_cell") and "eval_cell" in _own(type(e), f.UserExpression):
                e.eval_cell(v, np.array(p.x, dtype=float), _Ufc(p, self.dim))
            else:
                e.eval(v, np.array(p.x, dtype=float))
            return v[0]
        if isinstance(e, f.Expression):
            return e(*p.x)
        raise RuntimeError("coefficient " + type(e).__name__)

    def coefficient_grad(self, e, comp, dirs, p):
        f = self.f
        if len(dirs) != 1:
            return 0.0
        if isinstance(e, f.Constant):
            return 0.0
        i = dirs[0]
        h = 0.01
        x1, x2 = list(p.x), list(p.x)
        x1[i] += h
        x2[i] -= h
        q1 = Pt(p.kind, p.cell, x1, facet=p.facet)
        q2 = Pt(p.kind, p.cell, x2, facet=p.facet)
        return (self.coefficient(e, comp, q1) - self.coefficient(e, comp, q2)) / (2 * h)

    def argument(self, num, comp, p):
        return self.args[num][0].get(comp, 0)

    def argument_grad(self, num, comp, dirs, p):
        if len(dirs) != 1:
            raise RuntimeError("second derivatives")
        return self.args[num][1].get((comp, dirs[0]), 0)

    def coordinate(self, i, p):
        return p.x[i]

    def normal(self, i, p):
        return p.n[i]

    def evform(self, form, p, args, ascell=False):
        norm = {k: (v if isinstance(v, tuple) else (v, {})) for k, v in args.items()}
        old, oc = self.args, self.ascell
        self.args, self.ascell = norm, ascell
        try:
            return self.evalr.integrand(form, p, ascell)
        finally:
            self.args, self.ascell = old, oc

    def evalu(self, e, p):
        if isinstance(e, (int, float)):
            return e
        f = self.f
        if isinstance(e, (f.Function, f.Constant, f.Expression, f.UserExpression)):
            return self.coefficient(e, 0, p)
        return self.evalr.ev(self.evalr.lower_expr(e), (), {}, p)

    def val(self, e, p):
        return self.evalu(e, p)

    def snap(self, fn):
        return Snap(self, fn)

    def grad(self, fn, p, i):
        return self.coefficient_grad(fn, 0, (i,), p)

    # --------------------------------------------------------------- fields
    def set_nodal(self, u, at):
        V = u.function_space()
        m = V.mesh()
        dm = V.dofmap()
        vec = u.vector().get_local()
        co = V.tabulate_dof_coordinates() if V.ufl_element().family() != "Real" else None
        idx = {d: i for i, d in enumerate(dm.dofs())}
        for c in self.f.cells(m):
            for d in dm.cell_dofs(c.index()):
                x = list(co[idx[d]]) if co is not None and d in idx else [c.midpoint().array()[j] for j in range(self.dim)]
                vec[d] = at(Pt("cell", c.index(), x, name="node"))
        u.vector().set_local(vec)
        u.vector().apply("insert")

    def set_affine(self, u, k, a, b):
        V = u.function_space()
        vec = u.vector().get_local()
        if V.num_sub_spaces():
            S = V.sub(k)
        else:
            S = V
        dofs = S.dofmap().dofs()
        co = V.tabulate_dof_coordinates()
        root = V.dofmap().dofs()
        pos = {d: i for i, d in enumerate(root)}
        real = S.ufl_element().family() == "Real"
        for d in dofs:
            vec[d] = a if real else a + sum(bi * xi for bi, xi in zip(b, co[pos[d]]))
        u.vector().set_local(vec)
        u.vector().apply("insert")

    def new_content(self, tag, u):
        V = u.function_space()
        ns = V.num_sub_spaces()
        for k in range(max(1, ns)):
            S = V.sub(k) if ns else V
            nm = "%s_%d" % (tag, k)
            lo, hi = (self.range_of(u, k) if self.range_of else None) or (0.5, 2.0)
            a = self.real(nm + "_a", lo=lo, hi=hi)
            fam = S.ufl_element().family()
            if fam == "Real":
                self.set_affine(u, k, a, [])
            elif self.field_kind == "dofs":
                self.set_dofs(u, k, nm, lo, hi)
            else:
                b = [self.real("%s_b%d" % (nm, i), lo=0.05 * hi, hi=0.2 * hi) for i in range(self.dim)]
                self.set_affine(u, k, a, b)

    def set_dofs(self, u, k, nm, lo, hi):
        """independent dof values; logical vertices only (1D)"""
        V = u.function_space()
        S = V.sub(k) if V.num_sub_spaces() else V
        m = V.mesh()
        dg = S.ufl_element().family() == "Discontinuous Lagrange"
        if self.dim > 1:
            vec = u.vector().get_local()
            co = V.tabulate_dof_coordinates()
            pos = {d: i for i, d in enumerate(V.dofmap().dofs())}
            for c in self.f.cells(m):
                for d in S.dofmap().cell_dofs(c.index()):
                    v = [int(v) for v in c.entities(0) if np.allclose(m.coordinates()[v], co[pos[d]])][0]
                    key = ("cv", c.index(), v) if dg else ("v", v)
                    vec[d] = self.real("%s_%s" % (nm, "_".join(map(str, key))), lo=lo, hi=hi)
            u.vector().set_local(vec)
            u.vector().apply("insert")
            return
        xs = sorted(v[0] for v in m.coordinates())
        lv = self.logical_vertices(xs)
        vec = u.vector().get_local()
        co = V.tabulate_dof_coordinates()
        pos = {d: i for i, d in enumerate(V.dofmap().dofs())}
        for c in self.f.cells(m):
            mid = c.midpoint().x()
            L = max(i for i in range(len(lv) - 1) if lv[i] <= mid)
            ends = []
            for v in (L, L + 1):
                key = ("cv", L, v) if dg else ("v", v)
                ends.append(self.real("%s_%s" % (nm, "_".join(map(str, key))), lo=lo, hi=hi))
            for d in S.dofmap().cell_dofs(c.index()):
                x = co[pos[d]][0]
                vec[d] = ends[0] + (ends[1] - ends[0]) * (x - lv[L]) / (lv[L + 1] - lv[L])
        u.vector().set_local(vec)
        u.vector().apply("insert")

    def logical_vertices(self, xs):
        return getattr(self, "lverts", None) or xs

    def newton(self, solver, problem, x):
        self.nsolve += 1
        if self.nsolve > self.max_newton:
            raise RuntimeError("too many solves (no termination)")
        self.assembled = []
        try:
            problem.F(object(), x)
            nF = list(self.assembled)
            self.assembled = []
            problem.J(object(), x)
            nJ = list(self.assembled)
        except Exception as e:  # noqa: BLE001
            raise Invalid("assembly: %r" % e)
        if not nF and not nJ:
            raise Invalid("assembled without a system assembler")
        sa = nF[0][0] if nF else None
        sj = nJ[0][0] if nJ else None
        u = self.owner(x, sa)
        V = u.function_space()
        ev = base.Event(
            n=self.nsolve,
            solver=solver,
            params=_params(solver.parameters),
            problem=problem,
            F=sa.L if sa is not None else None,
            J=sj.a if sj is not None else None,
            bcs=list(sa.bcs or []) if sa is not None else [],
            residual_assembly=[n for _, n in nF],
            jacobian_assembly=[n for _, n in nJ],
            u=u,
            name=u.name(),
            ncomp=max(1, V.num_sub_spaces()),
        )
        self.newtons.append(ev)
        ev.guess = Snap(self, u)
        self.new_content("u%d" % self.nsolve, u)
        ev.sol = Snap(self, u)
        it, conv = 3, True
        if self.handler is not None:
            r = self.handler(ev)
            if r is not None:
                it, conv = r
        if not conv and ev.params.get("error_on_nonconvergence"):
            raise RuntimeError("*** Error: Unable to solve nonlinear system with NewtonSolver.")
        return it, conv

    def owner(self, x, sa):
        """the function whose vector is being solved for: the one the Jacobian
        differentiates"""
        from ufl_legacy.differentiation import CoefficientDerivative

        for itg in sa.a.integrals():
            stack = [itg.integrand()]
            while stack:
                e = stack.pop()
                if isinstance(e, CoefficientDerivative):
                    for w in e.ufl_operands[1].ufl_operands:
                        while not isinstance(w, self.f.Function) and w.ufl_operands:
                            w = w.ufl_operands[0]
                        if isinstance(w, self.f.Function):
                            return w
                stack += list(e.ufl_operands)
        for cf in sa.L.coefficients():
            if isinstance(cf, self.f.Function) and cf.vector().id() == x.id():
                return cf
        raise RuntimeError("unknown")

    def dirichlet(self, ev, p):
        out = []
        for bc in ev.bcs:
            V, val, mf, i = bc._fv
            if p.facet is not None and mf[p.facet] == i:
                comp = list(V.component())
                if isinstance(val, (int, float)):
                    v = float(val)
                else:
                    v = self.coefficient(val, 0, p)
                out.append((int(comp[0]) if comp else 0, v))
        return out

    # ----------------------------------------------------------------- files
    def read_checkpoint(self, filename, fn, label, step):
        g = self.stored(filename, label, step)
        self.set_affine(fn, 0, g.a, g.b)

    def record_file(self, kind, filename, fn, t, label=None, append=None, file=None):
        vals = {p: self.fnval(fn, p) for p in self.points}
        self.files.append(base.FileRec(kind=kind, filename=filename, t=t, label=label, append=append, vals=vals, params=dict(file.parameters)))

    # ----------------------------------------------------------- obligations
    def check_eq(self, label, a, b):
        self.checked += 1
        try:
            a, b = float(a), float(b)
            ok = abs(a - b) <= self.tol * max(abs(a), abs(b)) + 1e-300 or (a == b)
        except Exception:  # noqa: BLE001
            ok = False
        if isinstance(b, float) and not math.isfinite(b):
            # the reference itself is undefined or out of range there: not a usable input
            raise Invalid(label)
        if not ok and not (isinstance(a, float) and isinstance(b, float) and abs(a - b) < getattr(self, "abs_tol", 1e-12)):
            self.failures.append({"label": label, "got": repr(a), "expected": repr(b)})

    def check(self, label, cond):
        self.checked += 1
        if not bool(cond):
            self.failures.append({"label": label, "got": "condition false"})

    def is_stamp(self, txt, v, fmt=""):
        """txt is v written with the given format (the last digit may be rounded differently)"""
        return txt in [format(v * (1 + e), fmt) for e in (0, 1e-9, -1e-9)]

    def eq(self, a, b):
        if isinstance(b, float) and not math.isfinite(b):
            raise Invalid("reference out of range")
        return abs(a - b) <= self.tol * max(abs(a), abs(b)) + 1e-12

    def check_stamp(self, label, txt, v, fmt=""):
        self.check(label, self.is_stamp(txt, v, fmt))

    def fail(self, label):
        self.checked += 1
        self.failures.append({"label": label})

    def raises(self, fn):
        try:
            fn()
        except Exception as e:  # noqa: BLE001
            return e
        return None


def _own(cls, stop):
    out = set()
    for c in cls.__mro__:
        if c is stop:
            break
        out |= set(vars(c))
    return out


def _params(p):
    out = {}
    for k in p.keys():
        try:
            out[k] = p[k]
        except Exception:  # noqa: BLE001
            out[k] = None
    return out


def run_case(fn, cfg, values, seed=1):
    """returns dict(status, failures, used)"""
    out = {"status": "ok", "failures": [], "used": {}}
    W = None
    try:
        with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
            warnings.simplefilter("ignore")
            W = RealWorld(values, seed)
            fn(W, cfg)
    except Stop:
        pass
    except Invalid as e:
        out["status"] = "invalid"
        out["why"] = str(e)
    except (ZeroDivisionError, OverflowError, ValueError, TypeError) as e:
        # arithmetic of the harness itself out of range: not a usable input
        last = traceback.extract_tb(e.__traceback__)[-1].filename
        dom = isinstance(e, (ZeroDivisionError, OverflowError)) or "math domain" in str(e) or "complex" in str(e)
        if "/fv/" in last and dom:
            out["status"] = "invalid"
            out["why"] = str(e)
        else:
            W.failures.append({"label": "exception:%s" % type(e).__name__, "got": str(e)[:300], "tb": traceback.format_exc()[-1500:]})
    except Exception as e:  # noqa: BLE001
        W.failures.append({"label": "exception:%s" % type(e).__name__, "got": str(e)[:300], "tb": traceback.format_exc()[-1500:]})
    if W is not None:
        out["used"] = W.used
        out["checked"] = W.checked
        if out["status"] == "ok":
            out["failures"] = W.failures
            if W.failures:
                out["status"] = "fail"
    return out


def main():
    """stdin: json {module, jobs:[{harness,cfg,values,seed}]}; stdout: json list"""
    import importlib

    spec = json.load(sys.stdin)
    mod = importlib.import_module(spec["module"])
    scratch = spec["scratch"]
    os.makedirs(scratch, exist_ok=True)
    os.chdir(scratch)
    real_out = os.dup(1)
    os.dup2(2, 1)
    res = []
    for j in spec["jobs"]:
        r = run_case(mod.HARNESSES[j["harness"]], j["cfg"], j.get("values") or {}, j.get("seed", 1))
        res.append(r)
    os.write(real_out, json.dumps(res, default=str).encode())
    os._exit(0)


if __name__ == "__main__":
    main()
