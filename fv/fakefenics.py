"""A pure Python stand-in for the `fenics` module, installed before festim is
imported, so that festim's own source runs unchanged on symbolic values.

UFL itself is the real `ufl_legacy` package.  What is replaced is dolfin: meshes,
functions, expressions, boundary conditions, solvers and files.  A function holds
*content*; the only thing the stand-in knows about a content is its value (and
gradient) at the points of the current world.  Solves of the nonlinear problem
give the unknown fresh symbolic content.
"""
import sys
import types
from collections import OrderedDict

import numpy as np
import ufl_legacy as ufl

from .sym import EngineError, SymReal, SymInt, SymBool, _Num, term, CTX, z3
from .uflz import Evaluator, CExpr, nexp, nsqrt, nfun, npow, nif

WORLD = None  # current SymWorld


def world():
    if WORLD is None:
        raise EngineError("no world")
    return WORLD


def isnumber(v):
    return isinstance(v, (SymReal, SymInt, int, float, np.floating, np.integer)) and not isinstance(v, bool)


# ------------------------------------------------------------------ points
class Pt:
    """kind: cell | facet | dof ; cell: index of the cell it lies in"""

    def __init__(self, kind, cell, x, facet=None, n=None, w=None, mark=None, name="", vertex=None):
        self.kind, self.cell, self.x, self.facet, self.n, self.w, self.mark, self.name = kind, cell, x, facet, n, w, mark, name
        self.vertex = vertex

    def __repr__(self):
        return self.name


class XArr(list):
    """coordinates handed to eval / eval_cell; remembers its point"""

    def __init__(self, p):
        super().__init__(p.x)
        self.pt = p


# ------------------------------------------------------------------- meshes
class _P3:
    def __init__(self, x):
        self._x = list(x) + [0.0] * (3 - len(x))

    def x(self):
        return self._x[0]

    def y(self):
        return self._x[1]

    def z(self):
        return self._x[2]

    def __getitem__(self, i):
        return self._x[i]

    def array(self):
        return np.array(self._x, dtype=object)


class _Ent:
    def __init__(self, mesh, dim, index, x, cells=()):
        self._mesh, self._dim, self._index, self._x, self.cells_ = mesh, dim, index, x, cells

    def index(self):
        return self._index

    def global_index(self):
        return self._index

    def dim(self):
        return self._dim

    def midpoint(self):
        return _P3(self._x)

    def mesh(self):
        return self._mesh

    def exterior(self):
        return len(self.cells_) == 1

    def entities(self, d):
        if self._dim == 0 and d == 0:
            return np.array([self._index])
        if d == 0 and self._mesh.cellv is not None:
            return np.array(self._mesh.cellv[self._index] if self._dim == self._mesh.dim else self._mesh.facetv[self._index])
        if d == self._mesh.dim:
            return np.array(self.cells_)
        raise EngineError("entities")


class _Topo:
    def __init__(self, d):
        self._d = d

    def dim(self):
        return self._d


class Mesh:
    """cells: list of midpoints; facets: list of (midpoint, [cells], normal)"""

    _n = 0

    def __init__(self, *a):
        Mesh._n += 1
        self.uid = Mesh._n
        self.dim = None
        self.verts = None
        self.cellv = None

    def _build(self, dim, cells, facets, verts=None):
        self.dim = dim
        self.verts = verts
        if dim == 1:
            self.cellv = [(i, i + 1) for i in range(len(cells))]
            self.facetv = [(i,) for i in range(len(facets))]
        self.cells_ = [_Ent(self, dim, i, x, (i,)) for i, x in enumerate(cells)]
        self.facets_ = [_Ent(self, dim - 1, i, x, tuple(cs)) for i, (x, cs, n) in enumerate(facets)]
        self.normals = [n for (_, _, n) in facets]
        self._cell = {1: "interval", 2: "triangle", 3: "tetrahedron"}[dim]
        self._ufl = ufl.Mesh(ufl.VectorElement("Lagrange", self._cell, 1, dim=dim), ufl_id=self.uid, cargo=self)

    def topology(self):
        return _Topo(self.dim)

    def geometry(self):
        return _Topo(self.dim)

    def geometric_dimension(self):
        return self.dim

    def ufl_cell(self):
        return ufl.Cell(self._cell)

    def ufl_domain(self):
        return self._ufl

    def ufl_id(self):
        return self.uid

    def id(self):
        return self.uid

    def bounding_box_tree(self):
        return None

    def num_cells(self):
        return len(self.cells_)

    def num_vertices(self):
        return len(self.verts)

    def num_entities(self, d):
        return len(self.cells_) if d == self.dim else len(self.facets_) if d == self.dim - 1 else len(self.verts)

    def init(self, *a):
        return None

    def coordinates(self):
        return np.array([self._vx(i) for i in range(len(self.verts))], dtype=object)

    def _vx(self, i):
        return [self.verts[i]] if self.dim == 1 else list(self.verts[i])

    def cells(self):
        return np.array(self.cellv)

    def __deepcopy__(self, memo):
        return self


def interval(verts):
    n = len(verts) - 1
    m = Mesh()
    cells = [[(verts[i] + verts[i + 1]) / 2] for i in range(n)]
    facets = []
    for i, v in enumerate(verts):
        cs = [c for c in (i - 1, i) if 0 <= c < n]
        facets.append(([v], cs, [-1] if i == 0 else [1]))
    m._build(1, cells, facets, list(verts))
    return m


def simplices(verts, cellv):
    """mesh of triangles or tetrahedra given by vertices and connectivity"""
    dim = len(verts[0])
    mid = lambda vs: [sum(verts[v][j] for v in vs) / len(vs) for j in range(dim)]
    fv = {}
    for c, vs in enumerate(cellv):
        for o in vs:
            fv.setdefault(tuple(v for v in vs if v != o), []).append(c)
    m = Mesh()
    m.cellv, m.facetv = [tuple(sorted(vs)) for vs in cellv], [tuple(sorted(k)) for k in fv]
    facets = []
    for k, cs in fv.items():
        d = np.array([verts[v] for v in k], dtype=float)
        n = np.linalg.svd(d[1:] - d[0])[2][-1]
        if np.dot(n, np.array(mid(cellv[cs[0]])) - d[0]) > 0:
            n = -n
        facets.append((mid(k), cs, list(n)))
    m._build(dim, [mid(vs) for vs in cellv], facets, [list(v) for v in verts])
    return m


class MeshEditor:
    def open(self, mesh, typ, td, gd, degree=1):
        if str(typ) != "interval":
            raise EngineError("MeshEditor " + str(typ))
        self.m = mesh

    def init_vertices(self, n):
        self.v = [None] * n

    def init_cells(self, n):
        self.c = [None] * n

    def add_vertex(self, i, x):
        self.v[i] = x[0] if hasattr(x, "__len__") else x

    def add_cell(self, i, vs):
        self.c[i] = tuple(int(q) for q in vs)

    def close(self, order=True):
        if self.c != [(i, i + 1) for i in range(len(self.v) - 1)]:
            raise EngineError("unsupported 1D connectivity")
        n = len(self.v) - 1
        v = self.v
        cells = [[(v[i] + v[i + 1]) / 2] for i in range(n)]
        facets = [([v[i]], [c for c in (i - 1, i) if 0 <= c < n], [-1] if i == 0 else [1]) for i in range(n + 1)]
        self.m._build(1, cells, facets, list(v))
        world().register_interval(self.m)


class MeshPartitioning:
    @staticmethod
    def build_distributed_mesh(m):
        return None


def cells(mesh):
    return iter(mesh.cells_)


def facets(mesh):
    return iter(mesh.facets_)


def vertices(mesh):
    return iter([_Ent(mesh, 0, i, mesh._vx(i)) for i in range(len(mesh.verts))])


def Cell(mesh, index):
    return mesh.cells_[index]


def Facet(mesh, index):
    return mesh.facets_[index]


def near(a, b, eps=3e-16):
    if isinstance(a, (SymReal,)) or isinstance(b, (SymReal,)):
        # dolfin: |a-b| < eps; the margin is below the resolution kept here
        return a == b
    return abs(a - b) < max(eps, 3e-16)


class MeshFunction:
    _n = 0

    def __init__(self, typ, mesh, dim=None, value=None):
        MeshFunction._n += 1
        self.uid = MeshFunction._n
        self.typ, self.m = typ, mesh
        if isinstance(dim, MeshValueCollection):
            # entities without a value get the largest number
            self._dim = dim.dim()
            self.v = list(dim.v) if dim.v is not None else [2**64 - 1] * mesh.num_entities(self._dim)
            return
        self._dim = dim
        n = mesh.num_entities(dim)
        self.v = [0 if value is None else value] * n

    def _i(self, k):
        return k.index() if isinstance(k, _Ent) else int(k)

    def __getitem__(self, k):
        return self.v[self._i(k)]

    def __setitem__(self, k, val):
        if isinstance(val, (list, tuple)) or val is None:
            raise TypeError("MeshFunction value must be an integer")
        self.v[self._i(k)] = val

    def __len__(self):
        return len(self.v)

    def size(self):
        return len(self.v)

    def set_all(self, x):
        self.v = [x] * len(self.v)

    def array(self):
        return np.array(self.v)

    def set_value(self, k, val, *a):
        if a:
            raise EngineError("MeshFunction.set_value with a mesh")
        self[k] = val

    def set_values(self, vals):
        if len(vals) != len(self.v):
            raise RuntimeError("set_values: wrong size")
        for i, val in enumerate(vals):
            self[i] = val

    def mesh(self):
        return self.m

    def dim(self):
        return self._dim

    def ufl_id(self):
        return self.uid

    def id(self):
        return self.uid

    def where_equal(self, x):
        return [i for i, y in enumerate(self.v) if y == x]


class MeshValueCollection:
    def __init__(self, typ, mesh, dim=None):
        self.typ, self.m, self._dim, self.v = typ, mesh, dim, None

    def dim(self):
        return self._dim

    def mesh(self):
        return self.m


def SubsetIterator(mf, idx):
    m = mf.mesh()
    ents = m.cells_ if mf.dim() == m.dim else m.facets_
    return iter([e for e in ents if mf[e] == idx])


# ----------------------------------------------------------- function spaces
class _Dofmap:
    def __init__(self, V):
        self.V = V

    def cell_dofs(self, c):
        return np.array(self.V._cell_dofs(c))

    def dofs(self, *a):
        return list(self.V._all_dofs())

    def entity_dofs(self, mesh, dim, ents=None):
        return self.entity_closure_dofs(mesh, dim, ents)

    def entity_closure_dofs(self, mesh, dim, ents=None):
        if mesh.cellv is None or dim not in (mesh.dim, mesh.dim - 1):
            raise EngineError("dofs in 2D/3D")
        if ents is None:
            ents = range(mesh.num_entities(dim))
        out = []
        for e in ents:
            e = int(e)
            if dim == mesh.dim:
                out += self.V._cell_dofs(e)
            else:
                cs = mesh.facets_[e].cells_
                for c in cs if self.V._fam(0) == "DG" else cs[:1]:
                    out += [self.V._dof(0, c, v) for v in mesh.facetv[e]]
        return list(OrderedDict.fromkeys(out))

    def tabulate_local_to_global_dofs(self):
        return np.array(self.dofs())

    def ownership_range(self):
        return (0, len(self.dofs()))


def _family(e):
    n = e.family()
    return {"Lagrange": "CG", "Discontinuous Lagrange": "DG", "Real": "R"}.get(n, n)


class FunctionSpace(ufl.FunctionSpace):
    def __init__(self, mesh, elem, degree=None, *a, root=None, offset=0, is_sub=False, **kw):
        if isinstance(elem, str):
            elem = ufl.FiniteElement(elem, mesh.ufl_cell(), degree)
        ufl.FunctionSpace.__init__(self, mesh.ufl_domain(), elem)
        self._mesh = mesh
        self._elem = elem
        self.mixed = isinstance(elem, ufl.MixedElement) and not isinstance(elem, ufl.VectorElement)
        if isinstance(elem, ufl.VectorElement):
            raise EngineError("vector function space")
        self.elems = list(elem.sub_elements()) if self.mixed else [elem]
        self.root = root or self
        self.offset = offset
        self.is_sub = is_sub

    def mesh(self):
        return self._mesh

    def ufl_element(self):
        return self._elem

    def num_sub_spaces(self):
        return len(self.elems) if self.mixed else 0

    def sub(self, i):
        if not isinstance(i, int):
            raise TypeError("sub(): incompatible function arguments")
        if not self.mixed or not 0 <= i < len(self.elems):
            raise RuntimeError("Unable to extract sub system")
        return FunctionSpace(self._mesh, self.elems[i], root=self.root, offset=self.offset + i, is_sub=True)

    def split(self):
        return tuple(self.sub(i) for i in range(self.num_sub_spaces()))

    def collapse(self, collapsed_dofs=False):
        return FunctionSpace(self._mesh, self._elem)

    def component(self):
        return [self.offset] if self.is_sub else []

    def dofmap(self):
        return _Dofmap(self)

    def dim(self):
        return len(self._all_dofs())

    # --- dofs; numbering is reversed on purpose
    def _fam(self, k):
        return _family(self.elems[k])

    def _keys(self):
        """list of (component, key) of the root space in dof order"""
        r = self.root
        m = r._mesh
        if m.cellv is None:
            raise EngineError("dofs in 2D/3D")
        out = []
        n = len(m.cells_)
        for k in range(len(r.elems)):
            fam, deg = r._fam(k), r.elems[k].degree()
            if fam == "R":
                out.append((k, ("R",)))
            elif fam == "CG" and deg == 1:
                out += [(k, ("v", i)) for i in range(len(m.verts) - 1, -1, -1)]
            elif fam == "DG" and deg == 1:
                out += [(k, ("cv", c, i)) for c in range(n) for i in m.cellv[c]]
            elif fam == "DG" and deg == 0:
                out += [(k, ("c", c)) for c in range(n)]
            else:
                raise EngineError("element")
        # interleave components to make wrong sub-space indexing visible
        out.sort(key=lambda t: (str(t[1]), t[0]), reverse=True)
        return out

    def _index(self):
        if not hasattr(self.root, "_idx"):
            self.root._idx = {k: i for i, k in enumerate(self.root._keys())}
        return self.root._idx

    def _key(self, k, cell, vertex):
        fam = self._fam(k)
        if fam == "R":
            return ("R",)
        if self.elems[k].degree() == 0:
            return ("c", cell)
        return ("v", vertex) if fam == "CG" else ("cv", cell, vertex)

    def _dof(self, k, cell, vertex):
        return self._index()[(self.offset + k, self._key(k, cell, vertex))]

    def _cell_dofs(self, c):
        out = []
        for k in range(len(self.elems)):
            for v in self._mesh.cellv[c]:
                d = self._dof(k, c, v)
                if d not in out:
                    out.append(d)
        return out

    def _all_dofs(self):
        ks = range(self.offset, self.offset + len(self.elems))
        return [i for (k, key), i in self._index().items() if k in ks]

    def tabulate_dof_coordinates(self):
        m = self._mesh
        out = []
        sel = set(self._all_dofs())
        for (k, key), i in sorted(self._index().items(), key=lambda t: t[1]):
            if i in sel:
                out.append(m._vx(key[-1] if key[0] in ("v", "cv") else 0))
        return np.array(out, dtype=object)

    def __deepcopy__(self, memo):
        return self


# ------------------------------------------------------------------ contents
class Content:
    _n = 0

    def __init__(self):
        Content._n += 1
        self.uid = Content._n

    def grad(self, i, p):
        return world().fresh_grad(self, i, p)

    def at(self, x):
        raise EngineError("value of a tabulated field at a free point")


class Affine(Content):
    def __init__(self, a, b):
        super().__init__()
        self.a, self.b = a, b

    def val(self, p):
        return self.at(p.x)

    def at(self, x):
        r = self.a
        for bi, xi in zip(self.b, x):
            if isinstance(bi, (int, float)) and bi == 0:
                continue
            r = r + bi * xi
        return r

    def grad(self, i, p):
        return self.b[i]


class Table(Content):
    def __init__(self, fn, grads=None):
        super().__init__()
        self.fn = fn  # p -> value, evaluated now at every known point
        self.t = {}
        for p in world().points:
            self.t[p] = fn(p)
        self.grads = grads

    def val(self, p):
        if p not in self.t:
            raise EngineError("field evaluated at an unknown point")
        return self.t[p]

    def at(self, x):
        pt = getattr(x, "pt", None)
        if pt is not None:
            return self.val(pt)
        for p in self.t:
            if len(p.x) == len(x) and all(a is b or (not isinstance(a, SymReal) and not isinstance(b, SymReal) and a == b) for a, b in zip(p.x, x)):
                return self.t[p]
        raise EngineError("value of a tabulated field at a free point")

    def grad(self, i, p):
        if self.grads is not None:
            g = self.grads(i, p)
            if g is not None:
                return g
        return super().grad(i, p)


class DofContent(Content):
    """piecewise linear: values per dof key"""

    def __init__(self, mesh, vals):
        super().__init__()
        self.m, self.v = mesh, vals

    def key(self, c, i):
        for k in (("v", i), ("cv", c, i), ("c", c), ("R",)):
            if k in self.v:
                return self.v[k]
        raise EngineError("dof")

    def val(self, p):
        c = p.cell
        if p.vertex is not None:
            return self.key(c, p.vertex)
        if self.m.dim > 1:
            vs = self.m.cellv[c]
            a = self.key(c, vs[0])
            r = a
            for i, g in enumerate(self._grad(c)):
                r = r + g * (p.x[i] - self.m.verts[vs[0]][i])
            return r
        a, b = self.key(c, c), self.key(c, c + 1)
        x0, x1 = self.m.verts[c], self.m.verts[c + 1]
        return a + (b - a) * (p.x[0] - x0) / (x1 - x0)

    def at(self, x):
        if getattr(x, "pt", None) is not None:
            return self.val(x.pt)
        if self.m.dim > 1:
            raise EngineError("value at a free point")
        for c in range(len(self.m.verts) - 1):
            x0, x1 = self.m.verts[c], self.m.verts[c + 1]
            if bool(x[0] >= x0) and bool(x[0] <= x1):
                return self.val(Pt("cell", c, list(x)))
        raise RuntimeError("Unable to evaluate function at point")

    def grad(self, i, p):
        c = p.cell
        if self.m.dim > 1:
            return self._grad(c)[i]
        return (self.key(c, c + 1) - self.key(c, c)) / (self.m.verts[c + 1] - self.m.verts[c])


    def _grad(self, c):
        vs = self.m.cellv[c]
        x = np.array([self.m.verts[v] for v in vs], dtype=float)
        inv = np.linalg.inv(x[1:] - x[0])
        d = [self.key(c, v) - self.key(c, vs[0]) for v in vs[1:]]
        out = []
        for i in range(self.m.dim):
            g = 0
            for j, dj in enumerate(d):
                if abs(inv[i][j]) > 1e-12:
                    g = g + float(inv[i][j]) * dj
            out.append(g)
        return out


def Const(v):
    m = world()
    return Affine(v, [0] * 3)


# ------------------------------------------------------------------ functions
_LOCAL = []  # the last arrays of local values handed out: array, its values, what they were read from


class _Vector:
    def __init__(self, fn):
        self.fn = fn

    def get_local(self, *a):
        v = self.fn._dofvalues()
        _LOCAL.append((v, list(v), list(self.fn.store)))
        del _LOCAL[:-20]
        return v

    def copy_local(self):
        return self.get_local()

    def _write(self, v):
        if isinstance(v, _Vector):
            new = list(v.fn.store)
        elif isinstance(v, (int, float)):
            new = [Const(v)] * len(self.fn.store)
        else:
            new = [src for w, old, src in _LOCAL if w is v and all(x is y for x, y in zip(v, old))][:1]
            if not new:
                raise EngineError("writing a vector")
            new = new[0]
        if len(new) != len(self.fn.store):
            raise RuntimeError("vectors of different sizes")
        self.fn.store[:] = new

    def __getitem__(self, k):
        return self.fn._dofvalues()[k]

    def size(self):
        return len(self.fn._dofvalues())

    def local_size(self):
        return self.size()

    def copy(self):
        return self.fn.copy(deepcopy=True).vector()

    def __len__(self):
        return self.size()

    def max(self):
        return np.max(self.get_local())

    def min(self):
        return np.min(self.get_local())

    def __setitem__(self, k, v):
        if k != slice(None):
            raise EngineError("writing part of a vector")
        self._write(v)

    def set_local(self, v):
        self._write(v)

    def apply(self, *a):
        return None

    def zero(self):
        for i in range(len(self.fn.store)):
            self.fn.store[i] = Const(0)


class Function(ufl.Coefficient):
    _n = 0

    def __init__(self, V, *a, name=None, store=None, index=None, root=None, **kw):
        if isinstance(V, Function):
            self.__init__(V.V, name=name)
            self.assign(V)
            return
        if not isinstance(V, FunctionSpace):
            raise EngineError("Function(%r)" % (V,))
        ufl.Coefficient.__init__(self, V)
        self.V = V
        Function._n += 1
        self._name = name or "f_%d" % Function._n
        if store is None:
            self.store = [Const(0) for _ in V.elems]
            self.lo = 0
            self.rootfn = self
            if a and isinstance(a[0], str):
                raise EngineError("Function from file")
        else:
            self.store, self.lo, self.rootfn = store, index, root

    # content of component k of this function
    def content(self, k=0):
        return self.store[self.lo + k]

    def set_content(self, k, c):
        self.store[self.lo + k] = c

    def ncomp(self):
        return len(self.V.elems)

    def function_space(self):
        return self.V

    def ufl_element(self):
        return self.V._elem

    def name(self):
        return self._name

    def rename(self, name, label):
        self._name = name

    def label(self):
        return self._name

    def sub(self, i, deepcopy=False):
        s = Function(self.V.sub(i), store=self.store, index=self.lo + i, root=self.rootfn)
        if deepcopy:
            g = Function(self.V.sub(i).collapse())
            g.store[0] = s.content(0)
            return g
        return s

    def split(self, deepcopy=False):
        return tuple(self.sub(i, deepcopy) for i in range(self.V.num_sub_spaces()))

    def copy(self, deepcopy=False):
        if not deepcopy:
            return Function(self.V, store=self.store, index=self.lo, root=self.rootfn)
        g = Function(self.V if not self.V.is_sub else self.V.collapse())
        for k in range(self.ncomp()):
            g.store[k] = self.content(k)
        return g

    def assign(self, rhs):
        if isinstance(rhs, Function):
            if rhs.ncomp() != self.ncomp():
                raise RuntimeError("assign: spaces differ")
            for k in range(self.ncomp()):
                self.set_content(k, rhs.content(k))
        elif isinstance(rhs, (Expression, UserExpression, Constant)):
            self.interpolate(rhs)
        else:
            self.set_content(0, tabulate(rhs))

    def interpolate(self, e):
        g = interpolate(e, self.V)
        for k in range(self.ncomp()):
            self.set_content(k, g.content(k))

    def vector(self):
        return _Vector(self.rootfn)

    def _dofvalues(self):
        V = self.V.root if self is self.rootfn else self.rootfn.V
        root = self.rootfn
        W = world()
        out = []
        for k, key in sorted(root.V._index(), key=root.V._index().get):
            c = root.store[k]
            out.append(W.dof_value(root.V._mesh, c, key))
        a = np.empty(len(out), dtype=object)
        a[:] = out
        return a

    def compute_vertex_values(self, mesh=None):
        m = self.V._mesh
        c = self.content(0)
        out = [world().dof_value(m, c, ("v", i)) for i in range(len(m.verts))]
        a = np.empty(len(out), dtype=object)
        a[:] = out
        return a

    def __call__(self, *x, **kw):
        if kw or not x:
            return ufl.Coefficient.__call__(self, *x, **kw)
        if len(x) == 1 and hasattr(x[0], "__len__"):
            x = x[0]
        elif len(x) == 1 and isinstance(x[0], _P3):
            x = x[0]._x
        if not hasattr(x, "pt") and len(x) != self.V._mesh.dim:
            raise RuntimeError("Unable to evaluate function at point: wrong dimension")
        if self.ncomp() != 1:
            return np.array([self.content(k).at(x) for k in range(self.ncomp())], dtype=object)
        return self.content(0).at(x)

    def ufl_evaluate(self, x, component, derivatives):
        if derivatives:
            raise EngineError("pointwise derivative of a UFL expression")
        v = self(x if hasattr(x, "__len__") else [x])
        return v[component[0]] if len(component) else v

    def geometric_dimension(self):
        return self.V._mesh.dim

    def __deepcopy__(self, memo):
        return self


def Argument_(V, n):
    return ufl.Argument(V, n)


def TestFunction(V):
    return ufl.Argument(V, 0)


def TrialFunction(V):
    return ufl.Argument(V, 1)


def TestFunctions(V):
    return split(TestFunction(V))


def TrialFunctions(V):
    return split(TrialFunction(V))


def split(u):
    return ufl.split(u)


class Constant(ufl.Coefficient):
    def __init__(self, value, cell=None, name=None):
        if isinstance(value, Constant):
            value = value.v
        if isinstance(value, (list, tuple, np.ndarray)):
            raise EngineError("vector constant")
        if not isnumber(value) and not isinstance(value, bool):
            raise TypeError("Constant: unsupported value %r" % (value,))
        ufl.Coefficient.__init__(self, ufl.FunctionSpace(None, ufl.FiniteElement("Real", cell, 0)))
        self.v = value
        self._name = name

    def assign(self, v):
        if isinstance(v, Constant):
            v = v.v
        if not isnumber(v):
            raise TypeError("Constant.assign")
        self.v = v

    def values(self):
        return np.array([self.v], dtype=object)

    def value_size(self):
        return 1

    def __float__(self):
        if isinstance(self.v, _Num):
            raise EngineError("float() of a symbolic constant at a C boundary")
        return float(self.v)

    def __call__(self, *a, **k):
        return self.v

    def ufl_evaluate(self, x, component, derivatives):
        return 0.0 if derivatives else self.v

    def eval(self, value, x):
        value[0] = self.v

    def name(self):
        return self._name

    def rename(self, n, l):
        self._name = n

    def __deepcopy__(self, memo):
        return self


class _ExprBase(ufl.Coefficient):
    def _fv_init_ufl(self, degree, element=None):
        el = element or ufl.FiniteElement("Lagrange", None, degree if degree is not None else 2)
        ufl.Coefficient.__init__(self, ufl.FunctionSpace(None, el))

    def name(self):
        return self.__dict__.get("_name", "e")

    def rename(self, n, l):
        self.__dict__["_name"] = n

    def value_rank(self):
        return 0

    def __deepcopy__(self, memo):
        return self


class Expression(_ExprBase):
    _built = ("t_",)

    def __init__(self, cpp_code=None, degree=None, element=None, name=None, label=None, domain=None, cell=None, mpi_comm=None, **params):
        if not isinstance(cpp_code, str):
            raise TypeError("Expression: C++ code string expected")
        if degree is None and element is None:
            raise RuntimeError("Expression: degree or element needed")
        d = self.__dict__
        d["code"] = cpp_code
        d["ast"] = CExpr(cpp_code)
        d["params"] = dict(params)
        d["_degree"] = degree
        d["_name"] = name
        self._fv_init_ufl(degree, element)
        for nm in d["ast"].ids():
            if nm not in params and nm not in ("pi",) and not nm.startswith("Q_") and nm not in ("DOLFIN_PI", "M_PI", "DOLFIN_EPS"):
                raise RuntimeError("Unable to compile C++ code with dijitso: unknown name " + nm)
            if nm in params and params[nm] is None:
                raise RuntimeError("parameter")

    def __getattr__(self, name):
        if name.startswith("_"):
            raise AttributeError(name)
        p = self.__dict__.get("params", {})
        if name in p:
            return p[name]
        raise AttributeError(name)

    def __setattr__(self, name, value):
        p = self.__dict__.get("params")
        if p is not None and name in p:
            if isinstance(value, Constant):
                value = value.v
            if not isnumber(value) and not isinstance(value, (Function, Expression)):
                raise AttributeError("Invalid attribute")
            p[name] = value
        elif name.startswith("_") or p is None:
            object.__setattr__(self, name, value)
        # dolfin silently ignores names that are not parameters

    @property
    def user_parameters(self):
        return self.params

    def evalx(self, x):
        from .uflz import lookup

        return self.ast.ev(x, lookup(self.params, x))

    def __call__(self, *x, **kw):
        if len(x) == 1 and hasattr(x[0], "__len__"):
            x = x[0]
        return self.evalx(x)

    def eval(self, value, x):
        value[0] = self.evalx(x)


def _ufl_evaluate(self, x, component, derivatives):
    if derivatives:
        raise EngineError("pointwise derivative of a UFL expression")
    return self(x if hasattr(x, "__len__") else [x])


_ExprBase.ufl_evaluate = _ufl_evaluate


class _Ufc:
    def __init__(self, p):
        self.index = p.cell
        self.topological_dimension = self.geometric_dimension = len(p.x)
        self.local_facet = -1


class UserExpression(_ExprBase):
    def __init__(self, *args, **kwargs):
        self.__dict__["_user_parameters"] = {}
        self._fv_init_ufl(kwargs.get("degree"), kwargs.get("element"))

    def value_shape(self):
        return ()

    def _fv_at(self, p):
        v = [None]
        x = XArr(p)
        if type(self).eval_cell is not UserExpression.eval_cell:
            self.eval_cell(v, x, _Ufc(p))
        else:
            self.eval(v, x)
        r = v[0]
        if r is None:
            # dolfin leaves the preset value (zero)
            return 0.0
        if hasattr(r, "ufl_shape"):
            r = world().evalu(r, p)
        return r

    def eval_cell(self, value, x, cell):
        raise NotImplementedError

    def eval(self, value, x):
        raise NotImplementedError

    def __call__(self, *x, **kw):
        if len(x) == 1 and hasattr(x[0], "__len__"):
            x = x[0]
        pt = getattr(x, "pt", None)
        if pt is None:
            v = [None]
            self.eval(v, list(x))
            return v[0]
        return self._fv_at(pt)


class SymLeaf(ufl.Coefficient):
    """a symbolic number inside a UFL expression"""

    def __init__(self, v):
        ufl.Coefficient.__init__(self, ufl.FunctionSpace(None, ufl.FiniteElement("Real", None, 0)))
        self.v = v

    def ufl_evaluate(self, x, component, derivatives):
        return 0.0 if derivatives else self.v


_Num.ufl_hook = staticmethod(lambda v: SymLeaf(v))


def coefficient_value(e, comp, p):
    if isinstance(e, Function):
        return e.content(comp).val(p)
    if isinstance(e, (Constant, SymLeaf)):
        return e.v
    if isinstance(e, Expression):
        return e.evalx(XArr(p))
    if isinstance(e, UserExpression):
        return e._fv_at(p)
    raise EngineError("coefficient %s" % type(e).__name__)


def coefficient_grad(e, comp, dirs, p):
    if len(dirs) != 1:
        c = e.content(comp) if isinstance(e, Function) else None
        if isinstance(c, (Affine, DofContent)):
            return 0
        raise EngineError("second derivatives")
    if isinstance(e, Function):
        return e.content(comp).grad(dirs[0], p)
    if isinstance(e, (Constant, SymLeaf)):
        return 0
    if isinstance(e, Expression):
        d = e.ast.diff(dirs[0])
        if d is not None:
            return e.ast.evtree(d, XArr(p), e.params)
    return world().fresh_grad_expr(e, dirs[0], p)


def tabulate(e):
    """content of a pointwise expression, evaluated now"""
    W = world()
    if isinstance(e, Function) and e.ncomp() == 1:
        return e.content(0)
    if isinstance(e, (Constant, SymLeaf)):
        return Const(e.v)
    if isnumber(e):
        return Const(e)
    grads = None
    if isinstance(e, Expression) and not any(hasattr(v, 'ufl_shape') and not isinstance(v, Constant) for v in e.params.values()):
        ds = [e.ast.diff(i) for i in range(3)]
        if all(d is not None and not CExpr.uses_x(d) for d in ds):
            snap = [e.ast.evtree(d, None, e.params) for d in ds]
            return Affine(e.ast.evtree(e.ast.at0(), None, e.params), snap)
    return Table(lambda p: W.evalu(e, p), grads)


def interpolate(v, V):
    if not isinstance(V, FunctionSpace):
        raise TypeError("interpolate: function space expected")
    g = Function(V)
    if isinstance(v, Function) and v.ncomp() == g.ncomp():
        for k in range(g.ncomp()):
            g.store[k] = v.content(k)
        return g
    if g.ncomp() != 1:
        raise EngineError("interpolate into a mixed space")
    if not isinstance(v, (Function, Expression, UserExpression, Constant)):
        raise TypeError("interpolate: cannot interpolate %s" % type(v).__name__)
    g.store[0] = tabulate(v)
    return g


def project(v, V=None, bcs=None, mesh=None, function=None, solver_type="lu", preconditioner_type="default", form_compiler_parameters=None):
    if V is None:
        raise EngineError("project without a space")
    g = function if function is not None else Function(V)
    if g.ncomp() != 1:
        raise EngineError("project into a mixed space")
    g.set_content(0, tabulate(v))
    return g


class FunctionAssigner:
    def __init__(self, a, b):
        self.a, self.b = a, b

    def assign(self, r, g):
        assign(r, g)


def assign(receiving, giving):
    if isinstance(receiving, Function) and isinstance(giving, Function):
        receiving.assign(giving)
    elif isinstance(receiving, Function) and isinstance(giving, (list, tuple)):
        for k, g in enumerate(giving):
            receiving.set_content(k, g.content(0))
    else:
        raise EngineError("assign")


# ------------------------------------------------------------------- solvers
def _mass_solve(form, u, bcs):
    """form(u; v) == 0, pointwise linear in u"""
    if bcs:
        raise EngineError("solve with boundary conditions")
    W = world()
    if u.ncomp() != 1:
        raise EngineError("solve on a mixed space")
    vals = {}
    save = u.content(0)
    try:
        for p in W.points:
            u.set_content(0, _One(0))
            b = W.evform(form, p, {0: {0: 1}}, ascell=True)
            u.set_content(0, _One(1))
            a = W.evform(form, p, {0: {0: 1}}, ascell=True)
            d = a - b
            if isinstance(d, (int, float)) and d == 0:
                raise RuntimeError("singular system (no equation for part of the domain)")
            vals[p] = -b / d
    finally:
        u.set_content(0, save)
    u.set_content(0, Table(vals.__getitem__))


class _One(Content):
    def __init__(self, v):
        self.v = v

    def val(self, p):
        return self.v

    def grad(self, i, p):
        raise EngineError("gradient in a pointwise solve")


def solve(eq, *args, **kw):
    if type(eq).__name__ != "Equation":
        raise EngineError("solve(A, x, b)")
    u = args[0]
    bcs = args[1] if len(args) > 1 else kw.get("bcs", [])
    if eq.rhs == 0 if isinstance(eq.rhs, (int, float)) else False:
        _mass_solve(eq.lhs, u, bcs)
    else:
        LinearVariationalSolver(LinearVariationalProblem(eq.lhs, eq.rhs, u, bcs)).solve()


class LinearVariationalProblem:
    def __init__(self, a, L, u, bcs=None, form_compiler_parameters=None):
        self.a, self.L, self.u, self.bcs = a, L, u, bcs


class LinearVariationalSolver:
    def __init__(self, problem):
        self.p = problem
        self.parameters = {}

    def solve(self):
        q = self.p
        if q.bcs:
            raise EngineError("solve with boundary conditions")
        W = world()
        vals = {}
        for p in W.points:
            a = W.evform(q.a, p, {0: {0: 1}, 1: {0: 1}}, ascell=True)
            b = W.evform(q.L, p, {0: {0: 1}}, ascell=True)
            if isinstance(a, (int, float)) and a == 0:
                raise RuntimeError("singular system (no equation for part of the domain)")
            vals[p] = b / a
        q.u.set_content(0, Table(vals.__getitem__))


class NonlinearProblem:
    def __init__(self):
        pass


class SystemAssembler:
    def __init__(self, a, L, bcs=None):
        self.a, self.L, self.bcs = a, L, bcs
        self.calls = []

    def assemble(self, *args):
        world().assembled.append((self, len(args)))


class _Params(dict):
    def __setitem__(self, k, v):
        dict.__setitem__(self, k, v)


class NewtonSolver:
    def __init__(self, *a):
        self.parameters = _Params(error_on_nonconvergence=True, absolute_tolerance=1e-10, relative_tolerance=1e-9, maximum_iterations=50, linear_solver="default", preconditioner="default", report=True, relaxation_parameter=1.0, convergence_criterion="residual")
        # marks values never set by festim
        self.defaults = dict(self.parameters)

    def solve(self, problem, x):
        return world().newton(self, problem, x)

    def converged(self, *a):
        raise EngineError("converged hook")


class NonlinearVariationalSolver:
    def __init__(self, *a):
        raise EngineError("NonlinearVariationalSolver")


NonlinearVariationalProblem = NonlinearVariationalSolver


class DirichletBC:
    def __init__(self, V, value, sub=None, domain_id=None, method=None):
        if not isinstance(V, FunctionSpace):
            raise TypeError("DirichletBC: function space")
        if not isinstance(sub, MeshFunction):
            raise EngineError("DirichletBC on a sub domain object")
        if isnumber(value):
            value = Constant(value)
        if not isinstance(value, ufl.Coefficient):
            raise TypeError("DirichletBC: value")
        if not isinstance(domain_id, (int, np.integer, SymInt)):
            raise TypeError("DirichletBC: domain id")
        self.V, self.val, self.mf, self.id = V, value, sub, domain_id

    def function_space(self):
        return self.V

    def value(self):
        return self.val

    def apply(self, *a):
        raise EngineError("DirichletBC.apply")


def assemble(form, tensor=None, **kw):
    W = world()
    if isinstance(form, (int, float)):
        raise TypeError("assemble: not a form")
    if len(form.arguments()) != 0:
        return None
    tot = 0
    for p in W.points:
        if p.kind == "dof":
            continue
        tot = tot + p.w * W.evform(form, p, {})
    return tot


def derivative(F, u, du=None, coefficient_derivatives=None):
    if du is None:
        du = TrialFunction(u.function_space())
    return ufl.derivative(F, u, du)


# ---------------------------------------------------------------------- misc
class XDMFFile:
    class Encoding:
        HDF5 = "HDF5"
        ASCII = "ASCII"

    def __init__(self, *a):
        self.filename = str(a[-1])
        self.parameters = {}

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None

    def close(self):
        return None

    def read(self, obj, *a):
        st = world().mesh_files.get(self.filename)
        if st is None:
            raise RuntimeError("Unable to open file " + self.filename)
        if isinstance(obj, Mesh):
            # the mesh of the facets is another one
            if st.dim() != st.mesh().dim:
                raise EngineError("mesh of a boundary file")
            uid = obj.uid
            obj.__dict__.update({k: v for k, v in st.mesh().__dict__.items() if k not in ("uid", "_ufl")})
            obj.uid = uid
            if obj.dim is not None:
                obj.cells_ = [_Ent(obj, e._dim, e._index, e._x, e.cells_) for e in obj.cells_]
                obj.facets_ = [_Ent(obj, e._dim, e._index, e._x, e.cells_) for e in obj.facets_]
                obj._ufl = ufl.Mesh(ufl.VectorElement("Lagrange", obj._cell, 1, dim=obj.dim), ufl_id=obj.uid, cargo=obj)
        elif isinstance(obj, (MeshFunction, MeshValueCollection)):
            if a and a[0] not in ("", "f"):
                raise RuntimeError("no data named %r in %s" % (a[0], self.filename))
            if obj.dim() != st.dim():
                raise RuntimeError("dimension of the data of " + self.filename)
            obj.v = list(st.v)
        else:
            raise EngineError("XDMFFile.read")

    def read_checkpoint(self, fn, label, step=-1):
        world().read_checkpoint(self.filename, fn, label, step)

    def write_checkpoint(self, fn, label, t=0, enc=None, append=False):
        world().record_file("checkpoint", self.filename, fn, t, label=label, append=append, file=self)

    def write(self, fn, t=None, *a):
        if isinstance(fn, Function):
            world().record_file("write", self.filename, fn, t, label=fn.name(), append=None, file=self)


class _Comm:
    rank = 0
    size = 1

    def Get_rank(self):
        return 0

    def Barrier(self):
        pass

    barrier = Barrier


class MPI:
    comm_world = _Comm()
    comm_self = comm_world

    @staticmethod
    def rank(c):
        return 0

    @staticmethod
    def size(c):
        return 1


class Timer:
    def __init__(self, *a):
        pass

    def stop(self):
        return 0.0

    def start(self):
        pass

    def elapsed(self):
        return (0.0, 0.0, 0.0)


def set_log_level(x):
    pass


def begin(*a):
    pass


def end(*a):
    pass


class LogLevel:
    ERROR, WARNING, INFO, DEBUG = 40, 30, 20, 10


class Point(_P3):
    def __init__(self, *x):
        super().__init__(list(x[0]) if len(x) == 1 and hasattr(x[0], "__len__") else list(x))


DOLFIN_EPS = 3e-16
parameters = {"form_compiler": {}, "std_out_all_processes": True}


def _mathfun(name, uname=None):
    def fn(a):
        if isnumber(a):
            if name == "exp":
                return nexp(a)
            if name == "sqrt":
                return nsqrt(a)
            return nfun(name, a)
        return getattr(ufl, uname or name)(a)

    fn.__name__ = name
    return fn


exp, sqrt, cos, sin, tan, tanh, atan, erf = (_mathfun(n) for n in ("exp", "sqrt", "cos", "sin", "tan", "tanh", "atan", "erf"))
ln = _mathfun("log", "ln")


def _callable_hook():
    pass


def FacetNormal(mesh):
    return ufl.FacetNormal(mesh.ufl_domain() if isinstance(mesh, Mesh) else mesh)


def SpatialCoordinate(mesh):
    return ufl.SpatialCoordinate(mesh.ufl_domain() if isinstance(mesh, Mesh) else mesh)


def _unsupported(name):
    def fn(*a, **k):
        raise EngineError("fenics.%s is not modelled" % name)

    return fn


def _mesh_builder(name):
    def fn(*a):
        if name == "UnitIntervalMesh":
            n = a[0]
            m = interval([i / n for i in range(n + 1)])
        elif name == "IntervalMesh":
            n, lo, hi = a
            m = interval([lo + (hi - lo) * i / n for i in range(n + 1)])
        else:
            raise EngineError(name)
        world().register_interval(m)
        return m

    return fn


UnitIntervalMesh, IntervalMesh = _mesh_builder("UnitIntervalMesh"), _mesh_builder("IntervalMesh")

_MINE = [n for n in dir() if not n.startswith("_") and n not in ("sys", "types", "np", "z3", "OrderedDict", "ufl", "CTX", "term", "WORLD", "world", "isnumber", "SymReal", "SymInt", "SymBool", "EngineError", "Evaluator", "CExpr", "nexp", "nsqrt", "nfun", "npow", "nif", "annotations")]


def install():
    """put the stand-in into sys.modules as `fenics` (and `dolfin`)"""
    m = types.ModuleType("fenics")
    g = globals()
    names = []
    for n in dir(ufl):
        if not n.startswith("_") and not isinstance(getattr(ufl, n), types.ModuleType):
            setattr(m, n, getattr(ufl, n))
            names.append(n)
    for n in _MINE:
        setattr(m, n, g[n])
        names.append(n)
    # names of the real module that are not modelled raise when *used*
    for n in ("HDF5File", "RectangleMesh", "BoxMesh", "UnitSquareMesh", "UnitCubeMesh", "CompiledSubDomain", "SubDomain", "AutoSubDomain", "File", "PETScSNESSolver", "as_backend_type", "refine", "norm", "errornorm", "BoundaryMesh", "SubMesh", "MeshView", "LUSolver", "KrylovSolver", "Vector", "Matrix", "PETScVector", "PETScMatrix", "assemble_system", "plot", "compile_cpp_code", "CompiledExpression"):
        if not hasattr(m, n):
            setattr(m, n, type(n, (), {"__init__": _unsupported(n)}))
            names.append(n)
    m.__all__ = sorted(set(names))
    sys.modules["fenics"] = m
    sys.modules["dolfin"] = m
    return m
