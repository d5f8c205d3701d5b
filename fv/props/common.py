"""A reference simulation: builds a festim.Simulation from a configuration and knows,
from the documented physics alone, which residual the solver must be handed."""


def aslist(v):
    return list(v) if isinstance(v, (list, tuple)) else [v]


class Val:
    """a user-supplied scalar: number or expression of space/time; with the prefix
    "f:" given as a fenics object instead of a number or a sympy expression"""

    def __init__(self, W, name, kind="num", lo=0.5, hi=2.0, pos=True):
        raw = kind.startswith("f:")
        kind = kind[2:] if raw else kind
        self.W, self.kind = W, kind
        if kind == "num":
            self.v = W.real(name, lo=lo, hi=hi, pos=pos)
            self.arg = self.v
        else:
            self.a = W.affine(name, lo=lo, hi=hi, time="t" in kind)
            if "x" not in kind:
                self.a.b = [0] * W.dim
            self.arg = self.a.sympy()
            if raw:
                import sympy as sp

                self.arg = W.f.Expression(sp.printing.ccode(self.arg), t=0, degree=2)

    def __call__(self, x, t):
        if self.kind == "num":
            return self.v
        return self.a(x, t if "t" in self.kind else 0)

    @property
    def positive(self):
        return True


class Const:
    def __init__(self, W, v):
        self.W, self.v = W, v

    def __call__(self, x, t=0):
        return self.v

    def grad(self, i):
        return 0


class Mat:
    pass


def lin(W, name, kind, lo, hi, T0=500.0):
    """number or callable of temperature; returns (argument, reference)"""
    a = W.real(name, lo=lo, hi=hi, pos=True)
    if kind != "fun":
        return a, (lambda T: a)
    b = W.real(name + "_b", lo=lo / 1000.0, hi=hi / 1000.0, pos=True)
    f = lambda T: a + b * T
    return f, f


# vertices, cells, marks of exterior facets
SIMPLEX = {
    2: ([(1.0, 0.0), (2.0, 0.0), (1.0, 1.0), (2.0, 1.5), (3.0, 0.0)], [(0, 1, 2), (1, 2, 3), (1, 3, 4)], {"01": 1, "02": 2, "23": 2, "14": 1}),
    3: ([(1.0, 0.0, 0.0), (2.0, 0.0, 0.0), (1.0, 1.0, 0.0), (1.0, 0.0, 1.0), (2.0, 1.0, 1.0)], [(0, 1, 2, 3), (1, 2, 3, 4)], {"012": 1, "013": 1, "124": 2}),
}


class Model:
    def __init__(self, W, cfg):
        self.W, self.cfg = W, cfg
        F = W.F
        self.transient = cfg.get("transient", True)
        self.chem = cfg.get("chem", False)
        self.coords = cfg.get("coords", "cartesian")
        self.soret = cfg.get("soret")
        dim = cfg.get("dim", 1)
        if cfg.get("verts"):
            self.line()
        else:
            self.given()
        self.by_mark = {}
        self.mats = []
        self.steps = cfg.get("steps", 2)
        self.hist = []
        self.heat_hist = []
        self.times = None
        self.temperature()
        self.materials()
        self.traps()
        self.initial()
        self.sources()
        self.boundary()

    # ------------------------------------------------------------- pieces
    def line(self):
        """1D mesh from vertices at arbitrary positions; marks is the volume of each cell"""
        W, F, cfg = self.W, self.W.F, self.cfg
        marks = cfg["marks"]
        n = len(marks)
        v = [0] + [W.real("vx%d" % i, lo=0.8 * i, hi=0.8 * i + 0.4) for i in range(1, n + 1)]
        for a, b in zip(v, v[1:]):
            W.assume(b > a + 1e-3)
        self.verts = v
        self.mesh = F.MeshFromVertices([v[i] for i in cfg.get("perm", range(n + 1))], type=self.coords)
        W.register_interval(self.mesh.mesh)
        for p in W.points:
            if p.kind == "facet":
                p.mark = 1 if p.vertex == 0 else 2
            else:
                p.mark = marks[int(p.name[1:].split("_")[0])]
        # intervals of each volume
        self.spans = {}
        a = 0
        for i in range(1, n + 1):
            if i == n or marks[i] != marks[a]:
                self.spans.setdefault(marks[a], []).append([v[a], v[i]])
                a = i

    def given(self):
        W, F, cfg = self.W, self.W.F, self.cfg
        dim = cfg.get("dim", 1)
        if cfg.get("simplex"):
            verts, cellv, surfs = SIMPLEX[dim]
            n = len(cfg.get("marks", [1, 2]))
            cellv = cellv[:n]
            used = {v for c in cellv for v in c}
            self.mk = W.simplices(verts[: max(used) + 1], cellv, cfg.get("marks", [1, 2]), {tuple(map(int, k)): s for k, s in surfs.items()})
            self.mesh = F.Mesh(*self.mk, type=self.coords)
            return
        self.mk = W.mesh(dim, cfg.get("marks", [1, 2]), bottoms=cfg.get("bottoms"), npts=cfg.get("npts", 1), weights=cfg.get("weights", False), left=cfg.get("left", 1), right=cfg.get("right", 2), files=cfg.get("files"))
        if cfg.get("files"):
            self.mesh = F.MeshFromXDMF(*cfg["files"], type=self.coords)
            return
        m, vm, sm = self.mk
        self.mesh = F.Mesh(m, vm, sm, type=self.coords)

    def temperature(self):
        W, F, cfg = self.W, self.W.F, self.cfg
        kind = cfg.get("T", "xt" if self.transient else "x")
        self.Tkind = kind
        if kind == "heat":
            h = self.heat = cfg.get("heat", {})
            self.heat_transient = h.get("transient", self.transient)
            kw = {}
            if self.heat_transient:
                ik = h.get("ic", "x")
                if ik == "xdmf":
                    W.xdmf_ranges = {"T0.xdmf": (400, 700)}
                    self.T0 = W.stored("T0.xdmf", "temp", 3)
                    kw["initial_condition"] = F.InitialCondition(field="T", value="T0.xdmf", label="temp", time_step=3)
                elif ik == "num":
                    v = W.real("T0", lo=400, hi=700)
                    self.T0 = Const(W, v)
                    kw["initial_condition"] = v
                else:
                    self.T0 = W.affine("T0", lo=400, hi=700, time="t" in ik)
                    kw["initial_condition"] = self.T0.sympy()
            for k in ("absolute_tolerance", "relative_tolerance", "maximum_iterations", "linear_solver", "preconditioner"):
                if k in h:
                    kw[k] = h[k]
            self.Tobj = F.HeatTransferProblem(transient=self.heat_transient, **kw)
            W.range_of = lambda u, k: (400, 700) if u is self.sim.T.T else None
            return
        if kind == "xdmf":
            W.xdmf_ranges = {"T.xdmf": (400, 700)}
            self.Tval = W.stored("T.xdmf", "temp", -1)
            with open("T.xdmf", "w") as fo:
                fo.write("<Xdmf><Domain><Grid><Grid><Time Value='0' /><Attribute Name='temp' /></Grid></Grid></Domain></Xdmf>")
            self.Tobj = F.TemperatureFromXDMF("T.xdmf", "temp")
            return
        self.Tval = W.affine("T", lo=400, hi=700, time="t" in kind)
        if "x" not in kind or kind == "x0":
            self.Tval.b = [0] * W.dim
        self.Tobj = F.Temperature(self.Tval.sympy())

    def T(self, p, n):
        """temperature at step n (0: initial)"""
        if self.Tkind != "heat":
            return self.Tval(p.x, self.time(n))
        if not self.heat_transient:
            return self.heat_hist[0].sol.val(0, p)
        return self.T0(p.x) if n == 0 else self.heat_hist[n - 1].sol.val(0, p)

    def Tgrad(self, p, n, i):
        if self.Tkind != "heat":
            return self.Tval.grad(i)
        if not self.heat_transient:
            return self.heat_hist[0].sol.grad(0, p, i)
        return self.T0.grad(i) if n == 0 else self.heat_hist[n - 1].sol.grad(0, p, i)

    # ------------------------------------------------------------------ heat
    def heat_inputs(self):
        """sources and boundary conditions of the temperature"""
        W, F, h = self.W, self.W.F, self.heat
        self.hsrc, self.hflux, self.hdir = [], [], []
        srcs, bcs = [], []
        for q, sp in enumerate(h.get("sources", [])):
            v = Val(W, "hs%d" % q, sp.get("kind", "num"))
            srcs.append(F.Source(v.arg, volume=sp["vol"], field="T"))
            self.hsrc.append((aslist(sp["vol"]), v))
        for q, sp in enumerate(h.get("fluxes", [])):
            nm, vk = "hf%d" % q, sp.get("val", "num")
            if sp["kind"] == "flux":
                v = Val(W, nm, vk)
                bcs.append(F.FluxBC(surfaces=sp["surf"], value=v.arg, field="T"))
                ref = lambda x, t, T, v=v: v(x, t)
            elif sp["kind"] == "conv":
                a, b = Val(W, nm + "_h", vk), Val(W, nm + "_Te", vk, lo=300, hi=400)
                bcs.append(F.ConvectiveFlux(h_coeff=a.arg, T_ext=b.arg, surfaces=sp["surf"]))
                ref = lambda x, t, T, a=a, b=b: -a(x, t) * (T - b(x, t))
            else:
                a, b = Val(W, nm + "_a", vk), Val(W, nm + "_b", vk)
                bcs.append(F.CustomFlux(surfaces=sp["surf"], function=lambda T, c, a, b: a * T * T + 2 * b, field="T", a=a.arg, b=b.arg))
                ref = lambda x, t, T, a=a, b=b: a(x, t) * T * T + 2 * b(x, t)
            self.hflux.append((aslist(sp["surf"]), ref))
        for q, sp in enumerate(h.get("dirichlets", [])):
            v = Val(W, "hd%d" % q, sp.get("val", "num"), lo=400, hi=700)
            bcs.append(F.DirichletBC(surfaces=sp["surf"], value=v.arg, field="T"))
            self.hdir.append((aslist(sp["surf"]), v))
        return srcs, bcs

    def check_heat(self, ev, n, tag="heat: "):
        """residual of the temperature problem of step n (0 if stationary)"""
        W = self.W
        t = self.time(n)
        for p in W.cellpts():
            m = self.by_mark[p.mark]
            T = ev.sol.val(0, p)
            k = m.kth(T)
            J = [k * ev.sol.grad(0, p, i) for i in range(W.dim)]
            a = 0
            if self.heat_transient:
                a = m.rho(T) * m.cp(T) * (T - self.T(p, n - 1)) / self.dt
            if self.coords == "cylindrical":
                a = a - J[0] / p.x[0]
            elif self.coords == "spherical":
                a = a - 2 * J[0] / p.x[0]
            for vols, v in self.hsrc:
                if p.mark in vols:
                    a = a - v(p.x, t)
            A, B = W.wf(ev.F, p, 0)
            W.check_eq("%srate of change of the temperature (%s, step %d)" % (tag, p.name, n), A, a)
            for i in range(W.dim):
                W.check_eq("%sconductive flux in direction %d (%s, step %d)" % (tag, i, p.name, n), B[i], J[i])
        for p in W.facetpts():
            T = ev.sol.val(0, p)
            a = 0
            for surfs, ref in self.hflux:
                if p.mark in surfs:
                    a = a - ref(p.x, t, T)
            A, B = W.wf(ev.F, p, 0)
            W.check_eq("%sboundary flux (%s, step %d)" % (tag, p.name, n), A, a)
            for i in range(W.dim):
                W.check_eq("%sboundary flux, gradient part (%s, step %d)" % (tag, p.name, n), B[i], 0)
            got = W.dirichlet(ev, p)
            want = [v for surfs, v in self.hdir if p.mark in surfs]
            if len(got) != len(want):
                W.fail("%simposed temperature on surface %d (step %d)" % (tag, p.mark, n))
            else:
                for (_, g), v in zip(got, want):
                    W.check_eq("%simposed temperature on surface %d (%s, step %d)" % (tag, p.mark, p.name, n), g, v(p.x, t))

    def materials(self):
        W, F, cfg = self.W, self.W.F, self.cfg
        ids = cfg.get("ids", [1, 2])
        laws = cfg.get("laws", ["sievert"] * len(ids))
        for j, i in enumerate(ids):
            m = Mat()
            m.idx = j
            m.ids = aslist(i)
            m.D0 = W.real("D0_%d" % j, pos=True)
            m.ED = W.real("ED_%d" % j, lo=0.05, hi=0.3)
            kw = {}
            m.Q = None
            if self.soret:
                arg, m.Q = lin(W, "Q_%d" % j, self.soret, 0.5, 2.0)
                kw["Q"] = arg
            m.law = laws[j]
            if self.chem or cfg.get("solub"):
                m.S0 = W.real("S0_%d" % j, pos=True)
                m.ES = W.real("ES_%d" % j, lo=0.05, hi=0.3)
                kw.update(S_0=m.S0, E_S=m.ES, solubility_law=m.law)
            if self.Tkind == "heat" or cfg.get("thermal"):
                pk = cfg.get("heat", {}).get("props", "num")
                arg, m.kth = lin(W, "kth_%d" % j, pk, 0.5, 2.0)
                kw["thermal_cond"] = arg
                m.rho = m.cp = None
                if getattr(self, "heat_transient", False):
                    arg, m.rho = lin(W, "rho_%d" % j, pk, 0.5, 2.0)
                    kw["rho"] = arg
                    arg, m.cp = lin(W, "cp_%d" % j, pk, 0.5, 2.0)
                    kw["heat_capacity"] = arg
            if cfg.get("verts") and cfg.get("borders", True):
                iv = [x for k in m.ids for x in self.spans[k]]
                kw["borders"] = iv[0] if len(iv) == 1 else iv
            m.obj = F.Material(id=i, D_0=m.D0, E_D=m.ED, name="mat%d" % j, **kw)
            self.mats.append(m)
            for k in m.ids:
                self.by_mark[k] = m
        order = cfg.get("order", range(len(ids)))
        self.matsobj = F.Materials([self.mats[j].obj for j in order])

    def traps(self):
        W, F, cfg = self.W, self.W.F, self.cfg
        self.tr = []
        for q, sp in enumerate(cfg.get("traps", [])):
            t = Mat()
            t.spec = sp
            t.mats = sp.get("mats", [0])
            t.as_list = sp.get("list", False)
            n = len(t.mats) if t.as_list else 1
            t.k0 = [W.real("k0_%d_%d" % (q, a), pos=True) for a in range(n)]
            t.Ek = [W.real("Ek_%d_%d" % (q, a), lo=0.05, hi=0.3) for a in range(n)]
            t.p0 = [W.real("p0_%d_%d" % (q, a), pos=True) for a in range(n)]
            t.Ep = [W.real("Ep_%d_%d" % (q, a), lo=0.05, hi=0.3) for a in range(n)]
            t.kind = sp.get("kind", "trap")
            t.dhist = []
            if t.kind == "trap":
                t.dens = [Val(W, "nt_%d_%d" % (q, a), sp.get("dens", "num"), lo=3.0, hi=5.0) for a in range(n)]
            how = sp.get("ref", "name")
            mats = [self.mats[a].obj if how == "obj" else "mat%d" % a for a in t.mats]
            if len(mats) == 1 and not t.as_list:
                mats = mats[0]
            pick = (lambda l: list(l)) if t.as_list else (lambda l: l[0])
            kw = {"id": sp["id"]} if "id" in sp else {}
            if t.kind != "trap":
                names = ["phi_0", "n_amax", "n_bmax", "eta_a", "eta_b", "f_a", "f_b"] if t.kind == "ext" else ["phi", "K", "n_max", "A_0", "E_A"]
                t.prm = {}
                for i, nm in enumerate(names):
                    pk = sp.get("prm", "num")
                    if isinstance(pk, list):
                        pk = pk[i % len(pk)]
                    lo, hi = (0.05, 0.3) if nm == "E_A" else (3.0, 5.0) if nm.startswith("n_") else (0.5, 1.5)
                    t.prm[nm] = Val(W, "ex%d_%s" % (q, nm), pk, lo=lo, hi=hi)
                cls = F.ExtrinsicTrap if t.kind == "ext" else F.NeutronInducedTrap
                for k in ("absolute_tolerance", "relative_tolerance", "maximum_iterations", "linear_solver", "preconditioner"):
                    if k in sp:
                        kw[k] = sp[k]
                t.obj = cls(pick(t.k0), pick(t.Ek), pick(t.p0), pick(t.Ep), mats, **{nm: v.arg for nm, v in t.prm.items()}, **kw)
                t.comp = q + 1
                t.obj_id = sp.get("num", sp.get("id", q + 1))
                self.tr.append(t)
                continue
            d = [v.arg for v in t.dens]
            t.obj = F.Trap(pick(t.k0), pick(t.Ek), pick(t.p0), pick(t.Ep), mats, pick(d), **kw)
            t.comp = q + 1
            t.obj_id = sp.get("num", sp.get("id", q + 1))
            self.tr.append(t)

    def initial(self):
        W, F, cfg = self.W, self.W.F, self.cfg
        self.ic = {}
        self.icobj = []
        if not self.transient:
            return
        want = cfg.get("ic", ["mobile"] + list(range(1, len(self.tr) + 1)))
        for w in want:
            if isinstance(w, dict):
                k = w["sp"]
                nm, kind = "i%d" % k, w.get("kind", "x")
                fld = w.get("field", 0 if k == 0 else self.tr[k - 1].spec.get("id", k))
                if kind == "xdmf":
                    self.ic[k] = W.stored(w.get("file", "ic.xdmf"), w.get("label", "lab%d" % k), w.get("step", k))
                    self.icobj.append(F.InitialCondition(field=fld, value=w.get("file", "ic.xdmf"), label=w.get("label", "lab%d" % k), time_step=w.get("step", k)))
                elif kind == "num":
                    self.ic[k] = Const(W, W.real(nm))
                    self.icobj.append(F.InitialCondition(field=fld, value=self.ic[k].v))
                else:
                    self.ic[k] = W.affine(nm, lo=0.5, hi=2.0, time="t" in kind)
                    self.icobj.append(F.InitialCondition(field=fld, value=self.ic[k].sympy()))
                continue
            if w == "mobile":
                a = W.affine("c0", lo=0.5, hi=2.0)
                self.ic[0] = a
                self.icobj.append(F.InitialCondition(field=cfg.get("ic0", 0), value=a.sympy()))
            else:
                a = W.affine("ct0_%d" % w, lo=0.5, hi=2.0)
                self.ic[w] = a
                i = self.tr[w - 1].spec.get("id", w)
                self.icobj.append(F.InitialCondition(field=i, value=a.sympy()))

    def sources(self):
        W, F, cfg = self.W, self.W.F, self.cfg
        self.src = []
        for q, sp in enumerate(cfg.get("sources", [])):
            s = Mat()
            s.vol = aslist(sp["vol"])
            s.field = sp.get("field", 0)
            kind = sp.get("kind", "num")
            s.kind = kind
            if kind == "decay":
                lam = W.real("lam_%d" % q, pos=True)
                s.obj = F.RadioactiveDecay(lam, volume=sp["vol"], field=s.field)
                s.ref = lambda x, t, c, lam=lam: -lam * c
            elif kind == "implant":
                W.assume(W.dim == 1)
                ff = Val(W, "ifl_%d" % q, sp.get("flux", "num"))
                if sp.get("sym"):
                    d = Val(W, "dep_%d" % q, "t", lo=1.0, hi=1.5)
                else:
                    d = Val(W, "dep_%d" % q, "num", lo=1.0, hi=1.5)
                w = W.real("wid_%d" % q, lo=0.4, hi=0.8, pos=True)
                s.obj = F.ImplantationFlux(ff.arg, d.arg, w, volume=sp["vol"])
                import math

                def ref(x, t, c, ff=ff, d=d, w=w):
                    z = (x[0] - d(x, t)) / w
                    return ff(x, t) * W.exp(-0.5 * z * z) / (w * math.sqrt(2 * math.pi))

                s.ref = ref
                s.field = 0
            else:
                v = Val(W, "src_%d" % q, kind)
                s.obj = F.Source(v.arg, volume=sp["vol"], field=s.field)
                s.ref = lambda x, t, c, v=v: v(x, t)
            names = {"solute": [0], "0": [0], 0: [0], "mobile": [0], "all": list(range(len(self.tr) + 1))}
            if s.field in names:
                s.comps = names[s.field]
            else:
                s.comps = [t.comp for t in self.tr if str(t.obj_id) == str(s.field)]
                assert len(s.comps) == 1
            self.src.append(s)

    def boundary(self):
        self.bcs = []
        self.bcobj = []
        for q, sp in enumerate(self.cfg.get("fluxes", [])):
            obj, ref = make_flux(self.W, self, sp, q)
            self.bcs.append((aslist(sp["surf"]), ref))
            self.bcobj.append(obj)
        self.kin = []
        comp = len(self.tr) + 1
        for q, sp in enumerate(self.cfg.get("kinetics", [])):
            obj, rates, prm = make_kinetics(self.W, self, sp, q)
            self.bcobj.append(obj)
            for s in aslist(sp["surf"]):
                k = Mat()
                k.surf, k.comp, k.rates, k.obj = s, comp, rates, obj
                k.lam, k.nsurf, k.nIS, k.init = prm
                comp += 1
                self.kin.append(k)
        self.dcs = []
        for q, sp in enumerate(self.cfg.get("dirichlets", [])):
            obj, ref = make_dirichlet(self.W, self, sp, q)
            fld = sp.get("field", 0)
            comp = 0 if fld in (0, "0", "solute") else [t.comp for t in self.tr if str(t.obj_id) == str(fld)][0]
            self.dcs.append((aslist(sp["surf"]), comp, ref))
            self.bcobj.append(obj)

    # ------------------------------------------------------------ simulation
    def build(self, exports=None, **extra):
        W, F, cfg = self.W, self.W.F, self.cfg
        kw = {}
        skw = {}
        for k in ("traps_element_type", "update_jacobian"):
            if k in cfg:
                skw[k] = cfg[k]
        if self.transient:
            self.dt = W.real("dt", pos=True, lo=0.5, hi=1.0)
            ft = W.real("final", pos=True, lo=50, hi=60)
            W.assume(ft > 10 * self.dt)
            self.final = ft
            kw["dt"] = F.Stepsize(self.dt)
            st = F.Settings(1e-10, 1e-10, transient=True, final_time=ft, soret=bool(self.soret), chemical_pot=self.chem, **skw)
        else:
            self.dt = None
            st = F.Settings(1e-10, 1e-10, transient=False, soret=bool(self.soret), chemical_pot=self.chem, **skw)
        kw["settings"] = st
        kw.update(extra)
        if exports is not None:
            kw["exports"] = exports
        hs, hb = self.heat_inputs() if self.Tkind == "heat" else ([], [])
        self.sim = F.Simulation(
            mesh=self.mesh,
            materials=self.matsobj,
            temperature=self.Tobj,
            traps=[t.obj for t in self.tr] if self.tr else None,
            sources=hs + [s.obj for s in self.src],
            boundary_conditions=self.bcobj + hb,
            initial_conditions=self.icobj,
            log_level=40,
            **kw
        )
        return self.sim

    def time(self, n):
        if not self.transient:
            return 0
        if self.times is not None:
            return self.times[n]
        return n * self.dt if self.dt is not None else 0

    # ------------------------------------------------------------- reference
    def S(self, m, T):
        return self.W.arr(m.S0, m.ES, T)

    def conc(self, m, val, T):
        """mobile concentration from the primary unknown"""
        if not self.chem:
            return val
        return val * val * self.S(m, T) if m.law == "henry" else val * self.S(m, T)

    def conc_grad(self, m, val, g, T, gT):
        if not self.chem:
            return g
        S = self.S(m, T)
        dS = S * m.ES / (self.W.K_B * T * T) * gT
        if m.law == "henry":
            return 2 * val * g * S + val * val * dS
        return g * S + val * dS

    def prev(self, n, k, p):
        """(unknown k before step n) as the primary unknown"""
        if n > 1:
            return self.hist[n - 2].sol.val(k, p)
        if k not in self.ic:
            return 0
        c = self.ic[k](p.x)
        return c

    def prev_conc(self, n, p, m):
        Tn = self.T(p, n - 1)
        if n == 1:
            return self.ic[0](p.x) if 0 in self.ic else 0
        return self.conc(m, self.hist[n - 2].sol.val(0, p), Tn)

    def mobile_at(self, ev, p, n, m):
        return self.conc(m, ev.sol.val(0, p), self.T(p, n))

    def trap_rate(self, t, m, p, n, c, ct):
        """net trapping rate at p (0 outside the trap's materials)"""
        if m.idx not in t.mats:
            return None
        a = t.mats.index(m.idx) if t.as_list else 0
        T = self.T(p, n)
        k = self.W.arr(t.k0[a], t.Ek[a], T)
        pp = self.W.arr(t.p0[a], t.Ep[a], T)
        return k * c * (self.density(t, a, p, n) - ct) - pp * ct

    def field(self, fl, p, n):
        """value of an exportable field after step n at a cell point"""
        ev = self.hist[n - 1]
        m = self.mat_at(p)
        if fl in ("solute", "0", 0):
            return self.mobile_at(ev, p, n, m)
        if fl == "T":
            return self.T(p, n)
        if fl == "retention":
            r = self.mobile_at(ev, p, n, m)
            for t in self.tr:
                r = r + ev.sol.val(t.comp, p)
            return r
        for t in self.tr:
            if str(t.obj_id) == str(fl):
                return ev.sol.val(t.comp, p)
        raise KeyError(fl)

    def check_density(self, ev, tr, n):
        """evolution of the density of an extrinsic trap over step n"""
        W = self.W
        t = self.time(n)
        for p in W.cellpts():
            g = {k: v(p.x, t) for k, v in tr.prm.items()}
            d = ev.sol.val(0, p)
            prev = tr.dhist[-1].val(0, p) if tr.dhist else 0
            a = (d - prev) / self.dt
            if tr.kind == "ext":
                a = a - g["phi_0"] * ((1 - d / g["n_amax"]) * g["eta_a"] * g["f_a"] + (1 - d / g["n_bmax"]) * g["eta_b"] * g["f_b"])
            else:
                a = a - g["phi"] * g["K"] * (1 - d / g["n_max"]) + W.arr(g["A_0"], g["E_A"], self.T(p, n)) * d
            A, B = W.wf(ev.F, p, 0)
            W.check_eq("evolution of the density of trap %d (%s, step %d)" % (tr.comp, p.name, n), A, a)
            for i in range(W.dim):
                W.check_eq("density of trap %d does not diffuse (%s, step %d)" % (tr.comp, p.name, n), B[i], 0)
        for p in W.facetpts():
            W.check_eq("density of trap %d has no boundary flux (%s, step %d)" % (tr.comp, p.name, n), W.wf(ev.F, p, 0)[0], 0)
        if ev.bcs:
            W.fail("density of trap %d is not imposed" % tr.comp)

    def density(self, t, a, p, n):
        if t.kind != "trap":
            # densities are advanced at the end of each step
            return t.dhist[n - 2].val(0, p) if n > 1 else 0
        return t.dens[a](p.x, self.time(n))

    def flux_vec(self, ev, p, n):
        m = self.by_mark[p.mark]
        T = self.T(p, n)
        D = self.W.arr(m.D0, m.ED, T)
        val = ev.sol.val(0, p)
        c = self.conc(m, val, T)
        J = []
        for i in range(self.W.dim):
            g = self.conc_grad(m, val, ev.sol.grad(0, p, i), T, self.Tgrad(p, n, i))
            J.append(D * g)
            if m.Q is not None:
                J[i] = J[i] + D * m.Q(T) * c / (self.W.K_B * T * T) * self.Tgrad(p, n, i)
        return J

    def expected(self, ev, p, n, k):
        """(A, [B_i]) of the residual for test component k at cell point p"""
        W = self.W
        m = self.by_mark[p.mark]
        t = self.time(n)
        T = self.T(p, n)
        val = ev.sol.val(0, p)
        c = self.conc(m, val, T)
        zero = [0] * W.dim
        if k == 0:
            J = self.flux_vec(ev, p, n)
            a = 0
            if self.transient:
                a = (c - self.prev_conc(n, p, m)) / self.dt
            if self.coords == "cylindrical":
                a = a - J[0] / p.x[0]
            elif self.coords == "spherical":
                a = a - 2 * J[0] / p.x[0]
            for tr in self.tr:
                r = self.trap_rate(tr, m, p, n, c, ev.sol.val(tr.comp, p))
                if r is not None:
                    a = a + r
            for s in self.src:
                if 0 in s.comps and p.mark in s.vol:
                    a = a - s.ref(p.x, t, c)
            return a, J
        if k <= len(self.tr):
            tr = self.tr[k - 1]
            ct = ev.sol.val(k, p)
            a = 0
            r = self.trap_rate(tr, m, p, n, c, ct)
            if self.transient:
                a = (ct - self.prev(n, k, p)) / self.dt
            elif r is None:
                a = ct
            if r is not None:
                a = a - r
            for s in self.src:
                if k in s.comps and p.mark in s.vol:
                    a = a - s.ref(p.x, t, ct)
            return a, zero
        return 0, zero

    def expected_facet(self, ev, p, n, k):
        m = self.mat_of_facet(p)
        T = self.T(p, n)
        t = self.time(n)
        c = self.conc(m, ev.sol.val(0, p), T)
        a = 0
        for kn in self.kin:
            if p.mark != kn.surf or k not in (0, kn.comp):
                continue
            cs = ev.sol.val(kn.comp, p)
            ksb, kbs, Jvs = kn.rates(p.x, t, T, cs, c)
            Jbs = kbs * c * (1 - cs / kn.nsurf)
            Jsb = ksb * cs * (1 - c / kn.nIS)
            if k == 0:
                a = a + Jbs - Jsb
                if self.transient:
                    a = a + kn.lam * (c - self.prev_conc(n, p, m)) / self.dt
            else:
                a = a - (Jbs - Jsb + Jvs)
                if self.transient:
                    a = a + (cs - (kn.init if n == 1 else self.hist[n - 2].sol.val(k, p))) / self.dt
        if k != 0:
            return a
        for surfs, ref in self.bcs:
            if p.mark in surfs:
                a = a - ref(p.x, self.time(n), T, c)
        return a

    def check_dirichlet(self, ev, n):
        """the values imposed on every surface before the solve of step n"""
        W = self.W
        for p in W.facetpts():
            got = W.dirichlet(ev, p)
            want = [(comp, ref) for surfs, comp, ref in self.dcs if p.mark in surfs]
            if sorted(c for c, _ in got) != sorted(c for c, _ in want):
                W.fail("species imposed on surface %d (%s, step %d)" % (p.mark, p.name, n))
                continue
            T = self.T(p, n)
            m = self.mat_of_facet(p)
            for comp, v in got:
                ref = [r for c, r in want if c == comp][0]
                c = ref(p.x, self.time(n), T)
                lab = "value imposed on species %d at surface %d (%s, step %d)" % (comp, p.mark, p.name, n)
                if comp == 0 and self.chem:
                    S = self.S(m, T)
                    if m.law == "henry":
                        # the code adds the machine epsilon under the root
                        W.assume(c / S >= 0)
                        W.check(lab, v >= 0)
                        d = v * v - c / S
                        W.check(lab, W.and_(d <= 1e-10, d >= -1e-10))
                    else:
                        W.check_eq(lab, v, c / S)
                else:
                    W.check_eq(lab, v, c)

    def mat_at(self, p):
        return self.mat_of_facet(p) if p.kind == "facet" else self.by_mark[p.mark]

    def mat_of_facet(self, p):
        marks = self.cfg.get("marks", [1, 2])
        # facet points: f0 left, f_n right, bottoms in order
        j = p.name[1:]
        j = int(j)
        if self.W.dim == 1:
            k = 0 if j == 0 else len(marks) - 1
        else:
            k = 0 if j == 0 else len(marks) - 1 if j == 1 else j - 2
        return self.by_mark[marks[k]]

    def check_residual(self, ev, n, comps=None, cells=True, facets=True, tag=""):
        W = self.W
        comps = range(ev.ncomp) if comps is None else comps
        for k in comps:
            who = "mobile" if k == 0 else "trap %d" % k
            if cells:
                for p in W.cellpts():
                    A, B = W.wf(ev.F, p, k)
                    a, b = self.expected(ev, p, n, k)
                    W.check_eq("%srate of change of %s in volume (%s, step %d)" % (tag, who, p.name, n), A, a)
                    for i in range(W.dim):
                        W.check_eq("%sflux of %s in direction %d (%s, step %d)" % (tag, who, i, p.name, n), B[i], b[i])
            if facets:
                for p in W.facetpts():
                    A, B = W.wf(ev.F, p, k)
                    W.check_eq("%sboundary flux of %s (%s, step %d)" % (tag, who, p.name, n), A, self.expected_facet(ev, p, n, k))
                    for i in range(W.dim):
                        W.check_eq("%sboundary flux of %s, gradient part (%s, step %d)" % (tag, who, p.name, n), B[i], 0)

    def run(self, check=None, exports=None, after=None, hcheck=None, **extra):
        """after(n): called when step n is complete, exports included"""
        W = self.W
        self.build(exports=exports, **extra)
        check = check or (lambda ev, n: self.check_residual(ev, n))

        def solve(ev):
            n = len(self.hist) + 1
            if self.Tkind == "heat" and ev.u is self.sim.T.T:
                hn = n if self.heat_transient else 0
                if hn <= self.steps:
                    if hcheck:
                        hcheck(ev, hn)
                    if len(self.heat_hist) != max(0, hn - 1):
                        W.fail("one temperature solve per step")
                    self.heat_hist.append(ev)
                return 3, True
            for tr in self.tr:
                if tr.kind != "trap" and ev.u is tr.obj.density[0]:
                    if len(tr.dhist) != n - 2:
                        W.fail("one solve of the density of trap %d per step" % tr.comp)
                    self.check_density(ev, tr, n - 1)
                    tr.dhist.append(ev.sol)
                    return 3, True
            if after is not None and n > 1:
                after(n - 1)
            if any(tr.kind != "trap" and len(tr.dhist) != n - 1 for tr in self.tr):
                W.fail("the densities of evolving traps are solved at every step")
                W.stop()
            if n > self.steps:
                W.stop()
            check(ev, n)
            self.hist.append(ev)
            if n == self.steps and after is None:
                W.stop()
            return 3, True

        W.handler = solve
        self.sim.initialise()
        self.sim.run()
        if after is not None:
            after(len(self.hist))


    def march(self, steps, outcome, check=None, hcheck=None, accepted=None, dens=True, cut=None):
        """run self.sim with scripted outcomes: outcome(n, attempt) -> (iterations,
        converged); check(ev, n, attempt) at every transport solve with self.times and
        self.dt set to the attempted time and step; accepted(n) after each accepted
        step, cut(n) instead when the last solve converges (the run is then abandoned).
        Returns normally when the run ends by itself."""
        W = self.W
        acc = [0]
        state = dict(att=0)
        self.conv_its = []
        self.acc = acc
        self.over = False

        def attempt_time():
            self.dt = W.cval(self.sim.dt.value)
            self.times = acc + [acc[-1] + self.dt]

        def solve(ev):
            n = len(self.hist) + 1
            if self.Tkind == "heat" and ev.u is self.sim.T.T:
                if not self.heat_transient:
                    self.times = [0]
                    if hcheck:
                        hcheck(ev, 0)
                    self.heat_hist[:] = [ev]
                    return 3, True
                if n > steps:
                    finish()
                if len(self.heat_hist) < n - 1:
                    W.fail("one temperature solve per step")
                    W.stop()
                attempt_time()
                if hcheck:
                    hcheck(ev, n)
                self.heat_hist[n - 1:] = [ev]
                return 3, True
            for tr in self.tr:
                if tr.kind != "trap" and ev.u is tr.obj.density[0]:
                    if len(tr.dhist) != n - 2:
                        W.fail("one solve of the density of trap %d per step" % tr.comp)
                        W.stop()
                    self.times = acc
                    self.dt = acc[-1] - acc[-2]
                    if dens:
                        self.check_density(ev, tr, n - 1)
                    tr.dhist.append(ev.sol)
                    return 3, True
            if state["att"] == 0 and n > 1 and state.get("seen") != n:
                state["seen"] = n
                done(n - 1)
            if n > steps:
                finish()
            state["att"] += 1
            if self.transient:
                attempt_time()
            if check:
                check(ev, n, state["att"])
            it, conv = outcome(n, state["att"])
            if conv:
                self.hist.append(ev)
                self.conv_its.append(it)
                state["att"] = 0
                if self.transient:
                    acc.append(self.times[-1])
                if cut and n == steps:
                    self.times = acc
                    cut(n)
                    W.stop()
            return it, conv

        def done(n):
            self.times = acc
            if accepted:
                accepted(n)

        def finish():
            n = len(self.hist)
            if state.get("seen") != n + 1:
                done(n)
            W.stop()

        W.handler = solve
        self.sim.initialise()
        self.sim.run()
        self.over = True
        done(len(self.hist))


def check_exports(W, M, fields, points=("cell",)):
    """(exports, after): field files written at every step with the right values"""
    F = W.F
    ex = [F.XDMFExport(fl, filename="f%d.xdmf" % i, mode=1, checkpoint=i % 2 == 0) for i, fl in enumerate(fields)]

    def after(n):
        for i, fl in enumerate(fields):
            recs = [r for r in W.files if r.filename == "f%d.xdmf" % i]
            if len(recs) != n:
                W.fail("field %s written once per step (step %d)" % (fl, n))
                continue
            r = recs[n - 1]
            if M.transient:
                W.check_eq("time of the export of %s (step %d)" % (fl, n), r.t, M.time(n))
            for p in W.points:
                if p.kind in points:
                    W.check_eq("exported %s (%s, step %d)" % (fl, p.name, n), r.vals[p], M.field(fl, p, n))

    return ex, after


def make_flux(W, M, sp, q):
    """(festim boundary condition, reference inward flux (x, t, T, c))"""
    F = W.F
    kind = sp["kind"]
    surf = sp["surf"]
    vk = sp.get("val", "num")
    nm = "bc%d" % q
    if kind == "flux":
        v = Val(W, nm + "_v", vk)
        return F.FluxBC(surfaces=surf, value=v.arg, field=sp.get("field", 0)), lambda x, t, T, c: v(x, t)
    if kind == "mass":
        h, ce = Val(W, nm + "_h", vk), Val(W, nm + "_ce", vk)
        return F.MassFlux(h_coeff=h.arg, c_ext=ce.arg, surfaces=surf), lambda x, t, T, c: -h(x, t) * (c - ce(x, t))
    if kind == "recomb":
        K, E = Val(W, nm + "_K", vk), Val(W, nm + "_E", vk, lo=0.05, hi=0.3)
        order = sp["order"]
        if order == "sym":
            order = W.real(nm + "_order", lo=1.2, hi=1.8, pos=True)
        return F.RecombinationFlux(Kr_0=K.arg, E_Kr=E.arg, order=order, surfaces=surf), lambda x, t, T, c: -W.arr(K(x, t), E(x, t), T) * W.pow(c, order)
    if kind == "dissoc":
        K, E, P = Val(W, nm + "_K", vk), Val(W, nm + "_E", vk, lo=0.05, hi=0.3), Val(W, nm + "_P", vk)
        return F.DissociationFlux(Kd_0=K.arg, E_Kd=E.arg, P=P.arg, surfaces=surf), lambda x, t, T, c: W.arr(K(x, t), E(x, t), T) * P(x, t)
    if kind == "custom":
        a, b = Val(W, nm + "_a", vk), Val(W, nm + "_b", vk)
        fn = lambda T, c, a, b: a * c * c + b * T
        return F.CustomFlux(surfaces=surf, function=fn, field=sp.get("field", 0), a=a.arg, b=b.arg), lambda x, t, T, c: a(x, t) * c * c + b(x, t) * T
    raise KeyError(kind)


def make_kinetics(W, M, sp, q):
    F = W.F
    nm = "sk%d" % q
    a = Val(W, nm + "_a", sp.get("a", "num"))
    b = Val(W, nm + "_b", sp.get("b", "num"))
    lam, ns, ni = (W.real(nm + s, pos=True, lo=lo, hi=hi) for s, lo, hi in (("_lam", 0.5, 2.0), ("_nsurf", 3.0, 5.0), ("_nIS", 3.0, 6.0)))
    c0 = W.real(nm + "_c0")
    if sp.get("fun", True):
        ksb = lambda T, cs, cm, a, b: a + b * T / 1000 * cm + cs / 8
        kbs = lambda T, cs, cm, a, b: b + a * a * T / 1000 + cs * cm / 4
        J = lambda T, cs, cm, a, b: a * b * cs + T / 1000 * cm + a
        obj = F.SurfaceKinetics(k_sb=ksb, k_bs=kbs, lambda_IS=lam, n_surf=ns, n_IS=ni, J_vs=J, surfaces=sp["surf"], initial_condition=c0, a=a.arg, b=b.arg)

        def rates(x, t, T, cs, cm):
            A, B = a(x, t), b(x, t)
            return ksb(T, cs, cm, A, B), kbs(T, cs, cm, A, B), J(T, cs, cm, A, B)
    else:
        r = [W.real(nm + "_r%d" % i, pos=True) for i in range(3)]
        obj = F.SurfaceKinetics(k_sb=r[0], k_bs=r[1], lambda_IS=lam, n_surf=ns, n_IS=ni, J_vs=r[2], surfaces=sp["surf"], initial_condition=c0)
        rates = lambda x, t, T, cs, cm: r
    return obj, rates, (lam, ns, ni, c0)


def make_dirichlet(W, M, sp, q):
    """(festim boundary condition, reference value (x, t, T))"""
    F = W.F
    kind, surf, vk = sp["kind"], sp["surf"], sp.get("val", "num")
    nm = "dc%d" % q
    fld = sp.get("field", 0)
    if kind == "value":
        v = Val(W, nm + "_v", vk)
        return F.DirichletBC(surfaces=surf, value=v.arg, field=fld), lambda x, t, T: v(x, t)
    if kind == "custom":
        a, b = Val(W, nm + "_a", vk), Val(W, nm + "_b", vk)
        return F.CustomDirichlet(surfaces=surf, function=lambda T, a, b: a * a + b * T, field=fld, a=a.arg, b=b.arg), lambda x, t, T: a(x, t) * a(x, t) + b(x, t) * T
    if kind in ("sieverts", "henrys"):
        S0 = W.real(nm + "_S0", pos=True)
        ES = W.real(nm + "_ES", lo=0.05, hi=0.3)
        P = Val(W, nm + "_P", vk)
        if kind == "sieverts":
            return F.SievertsBC(surfaces=surf, S_0=S0, E_S=ES, pressure=P.arg), lambda x, t, T: W.arr(S0, ES, T) * W.sqrt(P(x, t))
        return F.HenrysBC(surfaces=surf, H_0=S0, E_H=ES, pressure=P.arg), lambda x, t, T: W.arr(S0, ES, T) * P(x, t)
    if kind == "implant":
        phi, Rp = Val(W, nm + "_phi", vk), Val(W, nm + "_Rp", vk)
        D0, ED = W.real(nm + "_D0", pos=True), W.real(nm + "_ED", lo=0.05, hi=0.3)
        kw = {}
        rec, dis = sp.get("rec", False), sp.get("dis", False)
        if rec:
            K, E = W.real(nm + "_K", pos=True), W.real(nm + "_EK", lo=0.05, hi=0.3)
            kw.update(Kr_0=K, E_Kr=E)
        if dis:
            K2, E2 = W.real(nm + "_K2", pos=True), W.real(nm + "_EK2", lo=0.05, hi=0.3)
            P = Val(W, nm + "_P", vk)
            kw.update(Kd_0=K2, E_Kd=E2, P=P.arg)

        def ref(x, t, T):
            r = phi(x, t) * Rp(x, t) / W.arr(D0, ED, T)
            if rec:
                s = phi(x, t)
                if dis:
                    s = s + W.arr(K2, E2, T) * P(x, t)
                r = r + W.sqrt(s / W.arr(K, E, T))
            return r

        return F.ImplantationDirichlet(surf, phi.arg, Rp.arg, D0, ED, **kw), ref
    raise KeyError(kind)
