"""C16: invalid models are rejected, valid ones are not."""
import itertools
import math

BOUNDS = "models of 1-3 materials, 0-3 traps and 2-3 boundary conditions on 2-3 surfaces in 1D-3D; every presence/absence pattern, every equality pattern of identifiers (numbers 1-4, single or in lists), every pair of boundary-condition kinds on every sets of surfaces and every field spelling, arbitrary angular ranges and decay constants"


def judge(W, what, valid, make):
    """make() builds a simulation; it must be rejected exactly when invalid"""
    W.handler = lambda ev: (3, True)

    def go():
        sim = make()
        if sim is not None:
            sim.initialise()

    e = W.raises(go)
    if valid is True and e is not None:
        raise e
    if valid is True:
        W.check("%s: valid model accepted" % what, True)
    elif valid is False:
        W.check("%s: invalid model rejected" % what, e is not None)
    else:
        W.check("%s: %s" % (what, "rejected model is invalid" if e is not None else "accepted model is valid"), W.not_(valid) if e is not None else valid)


class Small:
    """a small valid model, parts of which can be replaced"""

    def __init__(self, W, dim=1, marks=(1, 2), type="cartesian", mats=None, line=False, **kw):
        F = self.F = W.F
        self.W = W
        if line:
            v = [0, W.real("v1", lo=0.8, hi=1.2), W.real("v2", lo=1.6, hi=2.0), W.real("v3", lo=2.4, hi=2.8)]
            for a, b in zip(v, v[1:]):
                W.assume(b > a + 1e-3)
            self.v = v
            self.mesh = F.MeshFromVertices(v, type=type)
            W.register_interval(self.mesh.mesh)
        else:
            bot = [3] * len(marks) if dim > 1 else None
            m, vm, sm = W.mesh(dim, list(marks), bottoms=bot)
            self.mesh = F.Mesh(m, vm, sm, type=type)
        self.kw = kw
        self.mats = mats

    def mat(self, i, **k):
        return self.F.Material(**dict(dict(id=i, D_0=1.5 + 0.5 * (i if isinstance(i, int) else i[0]), E_D=0.1, name="mat%s" % i), **k))

    def trap(self, mats="mat1", **k):
        return self.F.Trap(1.0, 0.1, 2.0, 0.2, mats, 3.0, **k)

    def sim(self, **over):
        F = self.F
        kw = dict(
            mesh=self.mesh,
            materials=self.mats if self.mats is not None else [self.mat(1), self.mat(2)],
            temperature=500.0,
            settings=F.Settings(1e-10, 1e-10, transient=False),
            log_level=40,
        )
        kw.update(self.kw)
        kw.update(over)
        return F.Simulation(**kw)

    def heat(self, transient=False, ic=True):
        return self.F.HeatTransferProblem(transient=transient, **(dict(initial_condition=400.0) if transient and ic else {}))


# ------------------------------------------------------------------ settings
def settings(W, cfg):
    F = W.F
    s = Small(W)
    transient = W.bool("transient")
    has_final, has_dt, has_T = W.bool("has_final"), W.bool("has_dt"), W.bool("has_T")
    has_mesh = has_mat = has_set = True
    if cfg.get("parts"):
        has_mesh, has_mat, has_set = W.bool("has_mesh"), W.bool("has_mat"), W.bool("has_set")
    dt = W.real("dt", pos=True, lo=0.1, hi=1.0)
    final = W.real("final", pos=True, lo=2.0, hi=3.0)
    step = dict(num=lambda: dt, obj=lambda: F.Stepsize(dt), adapt=lambda: F.Stepsize(dt, stepsize_change_ratio=1.5, dt_min=1e-3))[cfg.get("dt", "num")]
    mats = [s.mat(i, thermal_cond=1.0, heat_capacity=1.0, rho=1.0) for i in (1, 2)]
    if cfg.get("T") == "heat":
        htr, ic = W.bool("heat_transient"), W.bool("heat_ic")
        T = lambda: s.heat(htr, ic)
        T_ok = (not htr) or (transient and ic)
    else:
        T, T_ok = (lambda: W.real("T", lo=400, hi=600, pos=True)), True
    valid = has_mesh and has_mat and has_set and has_T and T_ok and ((transient and has_final and has_dt) or (not transient and not has_dt))
    opts = dict(final_time=final) if has_final else {}
    late = cfg.get("late")

    def make():
        kw = dict(
            mesh=s.mesh if has_mesh else None,
            materials=mats if has_mat else None,
            temperature=T() if has_T else None,
            dt=step() if has_dt else None,
            settings=F.Settings(1e-10, 1e-10, transient=transient, **opts) if has_set else None,
        )
        if not late:
            return s.sim(**kw)
        sim = F.Simulation(log_level=40)
        sim.mesh, sim.materials, sim.T, sim.dt, sim.settings = kw["mesh"], kw["materials"], kw["temperature"], kw["dt"], kw["settings"]
        return sim

    judge(W, "settings", bool(valid), make)


# ----------------------------------------------------------------- materials
PROPS = {
    "S": (dict(S_0=1.0, E_S=0.1), dict(S_0=0.0, E_S=0.0)),
    "thermal_cond": (dict(thermal_cond=2.0), dict(thermal_cond=lambda T: 2.0)),
    "heat_capacity": (dict(heat_capacity=2.0), dict(heat_capacity=lambda T: 2.0)),
    "rho": (dict(rho=2.0), dict(rho=lambda T: 2.0)),
    "Q": (dict(Q=2.0), dict(Q=0.0)),
}


def materials(W, cfg):
    """every material has the property or none, and all those needed are there"""
    F = W.F
    n = cfg.get("n", 2)
    s = Small(W, marks=list(range(1, n + 1)))
    prop = cfg["prop"]
    T = cfg.get("T", "num")
    chem, soret = cfg.get("chem", False), cfg.get("soret", False)
    base = {}
    for q in cfg.get("with", []):
        base.update(PROPS[q][0])
    has = [W.bool("has%d" % i) for i in range(n)]
    mats = []
    for i in range(n):
        k = dict(base)
        if has[i]:
            k.update(PROPS[prop][cfg.get("alt", 0)])
        mats.append(s.mat(i + 1, **k))
    need = set()
    if T == "heat":
        need |= {"thermal_cond"}
    if T == "heatt":
        need |= {"thermal_cond", "heat_capacity", "rho"}
    if chem:
        need.add("S")
    if soret:
        need.add("Q")
    valid = all(has) or not any(has)
    if prop in need and not any(has):
        valid = False
    transient = T == "heatt"
    st = F.Settings(1e-10, 1e-10, transient=transient, chemical_pot=chem, soret=soret, **(dict(final_time=2.0) if transient else {}))
    temp = 500.0 if T == "num" else s.heat(transient)
    perm = cfg.get("order", list(range(n)))
    judge(W, "property %s of the materials" % prop, valid, lambda: s.sim(materials=[mats[i] for i in perm], temperature=temp, settings=st, dt=0.5 if transient else None))


def borders(W, cfg):
    """1D meshes: every material has borders, or there is a single material"""
    n = cfg["n"]
    s = Small(W, line=True)
    cut = [s.v[0]] + [s.v[i + 1] for i in range(n - 1)] + [s.v[3]]
    has = [W.bool("has%d" % i) for i in range(n)]
    mats = [s.mat(i + 1, **(dict(borders=[cut[i], cut[i + 1]]) if has[i] else {})) for i in range(n)]
    judge(W, "borders of the materials", all(has) or n == 1, lambda: s.sim(materials=mats))


def solubility(W, cfg):
    """S_0 and E_S come together; the law is a known one"""
    s = Small(W)
    a, b = W.bool("S_0"), W.bool("E_S")
    law = W.pick("law", ["sievert", "henry", "Sievert", "none", None])
    k = {}
    if a:
        k["S_0"] = W.real("S0")
    if b:
        k["E_S"] = W.real("ES")
    valid = a == b and law in ("sievert", "henry")
    judge(W, "solubility", bool(valid), lambda: (s.mat(1, solubility_law=law, **k), None)[1])


def henry(W, cfg):
    """traps live in sievert materials only when chemical potential is conserved"""
    F = W.F
    s = Small(W)
    laws = [W.pick("law%d" % i, ["sievert", "henry"]) for i in (1, 2)]
    mats = [s.mat(i, S_0=1.0, E_S=0.1, solubility_law=laws[i - 1]) for i in (1, 2)]
    chem = W.bool("chem")
    where = [W.pick("where%d" % q, [["mat1"], ["mat2"], ["mat1", "mat2"]]) for q in range(cfg.get("traps", 1))]
    trapped = {m for w in where for m in w}
    valid = not (chem and any(laws[i - 1] == "henry" and "mat%d" % i in trapped for i in (1, 2)))
    judge(W, "henry materials with traps", valid, lambda: s.sim(materials=mats, traps=[s.trap(w) for w in where], settings=F.Settings(1e-10, 1e-10, transient=False, chemical_pot=chem)))


def ids(W, cfg):
    """volumes are those of one material each"""
    s = Small(W, marks=[1, 2, 3])
    mats, seen = [], []
    for i, n in enumerate(cfg["shape"]):
        mine = [W.pick("id%d_%d" % (i, j), [1, 2, 3]) for j in range(abs(n) or 1)]
        seen += mine
        mats.append(s.mat(mine[0] if n == 0 else mine))
    judge(W, "ids of the materials", len(set(seen)) == len(seen), lambda: s.sim(materials=mats))


def traps(W, cfg):
    """numbers of traps differ; their materials exist and differ"""
    s = Small(W)
    n = cfg["n"]
    num = [W.pick("id%d" % i, cfg.get("nums", [None, 1, 2, 3])) for i in range(n)]
    given = [i for i in num if i is not None]
    valid = len(set(given)) == len(given)
    judge(W, "numbers of the traps", valid, lambda: s.sim(traps=[s.trap(**({} if i is None else dict(id=i))) for i in num]))


def trapmats(W, cfg):
    s = Small(W)
    mats = [s.mat(1), s.mat(2)]
    opts = ["mat1", "mat2", "mat3", mats[0], mats[1], 4, None]
    pick = [W.pick("m%d" % i, list(range(len(opts)))) for i in range(cfg["n"])]
    key = ["mat1", "mat2", None, "mat1", "mat2", None, None]
    who = [key[i] for i in pick]
    valid = None not in who and len(set(who)) == len(who)
    given = [opts[i] for i in pick]

    def make():
        return s.sim(materials=mats, traps=[s.trap(given if cfg.get("list") or cfg["n"] > 1 else given[0])])

    judge(W, "materials of a trap", valid, make)


# --------------------------------------------------------- boundary conditions
def bc(W, F, kind, surf, field, q):
    v = W.real("bc%d" % q, pos=True)
    one = lambda T, c, a: a
    if kind == "value":
        return F.DirichletBC(surfaces=surf, value=v, field=field)
    if kind == "custom":
        return F.CustomDirichlet(surfaces=surf, function=lambda T, a: a * T, field=field, a=v)
    if kind == "flux":
        return F.FluxBC(surfaces=surf, value=v, field=field)
    if kind == "cflux":
        return F.CustomFlux(surfaces=surf, function=lambda T, c, a: a * c, field=field, a=v)
    if kind == "sieverts":
        return F.SievertsBC(surfaces=surf, S_0=1.0, E_S=0.1, pressure=v)
    if kind == "henrys":
        return F.HenrysBC(surfaces=surf, H_0=1.0, E_H=0.1, pressure=v)
    if kind == "implant":
        return F.ImplantationDirichlet(surf, v, 1.0, 1.0, 0.1)
    if kind == "recomb":
        return F.RecombinationFlux(Kr_0=v, E_Kr=0.1, order=2, surfaces=surf)
    if kind == "dissoc":
        return F.DissociationFlux(Kd_0=v, E_Kd=0.1, P=1.0, surfaces=surf)
    if kind == "mass":
        return F.MassFlux(h_coeff=v, c_ext=1.0, surfaces=surf)
    if kind == "conv":
        return F.ConvectiveFlux(h_coeff=v, T_ext=300.0, surfaces=surf)
    if kind == "kinetics":
        return F.SurfaceKinetics(k_sb=1.0, k_bs=1.0, lambda_IS=1.0, n_surf=3.0, n_IS=6.0, J_vs=v, surfaces=surf, initial_condition=1.0)
    raise KeyError(kind)


FREE = ("value", "custom", "flux", "cflux")
IMPOSED = ("value", "custom", "sieverts", "henrys", "implant", "kinetics")
ENDS = [1, 2, [1], [2], [1, 2], [2, 1]]


def conditions(W, cfg):
    F = W.F
    dim = cfg.get("dim", 1)
    s = Small(W, dim=dim)
    heat = cfg.get("heat", False)
    surfs = cfg.get("surfs", [1, 2, [1, 2]])
    fields = cfg.get("fields", [0, "0", "solute", 1, "1"])
    spec, valid = [], True
    known = {"0": 0, "solute": 0, 0: 0, "T": "T"}
    nums = cfg.get("traps", [1])
    for i in nums:
        known[i] = known[str(i)] = ("trap", i)
    for q, kind in enumerate(cfg["kinds"]):
        sf = W.pick("surf%d" % q, surfs)
        fl = W.pick("field%d" % q, fields) if kind in FREE else ("T" if kind == "conv" else 0)
        spec.append((kind, sf, fl))
        if fl not in known:
            valid = False
            continue
        if known[fl] == "T" and not heat:
            valid = False
        if kind in ("flux", "cflux") and known[fl] not in (0, "T"):
            valid = False
        if kind == "kinetics" and dim != 1:
            valid = False
    for (k1, s1, f1), (k2, s2, f2) in itertools.combinations(spec, 2):
        l1, l2 = [x if isinstance(x, list) else [x] for x in (s1, s2)]
        if set(l1) & set(l2) and known.get(f1) == known.get(f2) and (k1 in IMPOSED or k2 in IMPOSED):
            valid = False
    mats = [s.mat(i, thermal_cond=1.0) for i in (1, 2)]

    def make():
        return s.sim(materials=mats, temperature=s.heat() if heat else 500.0, traps=[s.trap(id=i) for i in nums], boundary_conditions=[bc(W, F, k, sf, fl, q) for q, (k, sf, fl) in enumerate(spec)])

    judge(W, "boundary conditions", valid, make)


def fields(W, cfg):
    """sources, initial conditions of known fields"""
    F = W.F
    s = Small(W)
    heat = cfg.get("heat", False)
    kind = cfg["kind"]
    fl = W.pick("field", [0, "0", "solute", "mobile", 1, "1", 2, "2", "3", "T", "all", "retention", "cm"])
    ok = [0, "0", "solute", 1, "1", 2, "2"]
    if kind != "ic":
        ok.append("mobile")
    if kind == "decay":
        ok.append("all")
    if kind == "source" and heat:
        ok.append("T")
    if kind == "decay" and fl == "T":
        W.stop()
    transient = kind == "ic"

    def make():
        kw = {}
        if kind == "ic":
            kw["initial_conditions"] = [F.InitialCondition(field=fl, value=1.0)]
        elif kind == "decay":
            kw["sources"] = [F.RadioactiveDecay(0.5, volume=1, field=fl)]
        else:
            kw["sources"] = [F.Source(0.5, volume=1, field=fl)]
        if transient:
            kw.update(settings=F.Settings(1e-10, 1e-10, transient=True, final_time=2.0), dt=0.5)
        return s.sim(materials=[s.mat(i, thermal_cond=1.0) for i in (1, 2)], temperature=s.heat() if heat else 500.0, traps=[s.trap(), s.trap("mat2")], **kw)

    judge(W, "field of the %s" % dict(ic="initial condition", source="source", decay="decay")[kind], fl in ok, make)


def coordinates(W, cfg):
    s = Small(W, dim=cfg["dim"], type=cfg["type"])
    valid = cfg["type"] == "cartesian" or (cfg["type"] == "cylindrical" and cfg["dim"] < 3) or cfg["dim"] == 1
    judge(W, "coordinates of the mesh", valid, lambda: s.sim())


def adsorbed(W, cfg):
    """the hydrogen adsorbed on a surface needs surface kinetics there"""
    F = W.F
    s = Small(W)
    kin = [W.pick("kin%d" % q, ENDS[:5]) for q in range(cfg["n"])]
    asked = [W.pick("asked%d" % q, [1, 2]) for q in range(cfg["asked"])]
    flat = [x for k in kin for x in (k if isinstance(k, list) else [k])]
    valid = set(asked) <= set(flat) and len(set(flat)) == len(flat)

    def make():
        return s.sim(
            boundary_conditions=[bc(W, F, "kinetics", k, 0, q) for q, k in enumerate(kin)] + [bc(W, F, "flux", 1, "0", 9)] * cfg.get("flux", 0),
            exports=[F.DerivedQuantities([F.TotalVolume("solute", 1)])] + [F.DerivedQuantities([F.HydrogenFlux(1), F.AdsorbedHydrogen(a)]) for a in asked],
        )

    judge(W, "adsorbed hydrogen", valid, make)


# ------------------------------------------------------------------- values
def ranges(W, cfg):
    """angular ranges lie within the turn"""
    F = W.F
    cls = getattr(F, cfg["cls"])
    a, b = W.real("a", lo=-4.0, hi=4.0), W.real("b", lo=0.0, hi=8.0)
    W.assume(a <= b)
    lo, hi = cfg["range"]
    lo, hi = lo * math.pi, hi * math.pi
    valid = W.and_(a >= lo, b <= hi)
    args = dict(surface=1) if "Surface" in cfg["cls"] else dict(volume=1)
    how = cfg.get("how", "new")

    def make():
        if how == "new":
            cls(field="solute", **args, **{cfg["arg"]: (a, b)})
        else:
            setattr(cls(field="solute", **args), cfg["arg"], (a, b))

    judge(W, "angular range", valid, make)


def decay(W, cfg):
    F = W.F
    v = W.real("lam", lo=-1.0, hi=1.0)

    def make():
        if cfg["how"] == "new":
            F.RadioactiveDecay(v, volume=1)
        else:
            F.RadioactiveDecay(1.0, volume=1).decay_constant = v

    judge(W, "decay constant", v > 0, make)


def mode(W, cfg):
    F = W.F
    v = W.int("mode", -3, 5)

    def make():
        if cfg["how"] == "new":
            F.XDMFExport("solute", mode=v)
        else:
            F.XDMFExport("solute").mode = v

    judge(W, "period of an export", v >= 1, make)


def kinds(F, W):
    """(name, valid, call) for values of various types"""
    import fenics as f

    mat = lambda: F.Material(id=1, D_0=1.0, E_D=0.1)
    trap = lambda: F.Trap(1.0, 0.1, 2.0, 0.2, "mat1", 3.0)
    exp = lambda: F.XDMFExport("solute", filename="a.xdmf")
    dq = lambda: F.DerivedQuantities([F.TotalVolume("solute", 1)])
    q = lambda: F.TotalVolume("solute", 1)
    out = []

    def add(name, good, bad, call):
        for g in good:
            out.append((name, True, lambda g=g: call(g())))
        for b in bad:
            out.append((name, False, lambda b=b: call(b())))

    junk = [lambda: "coucou", lambda: 3j, lambda: {}]
    add("traps", [lambda: None, lambda: [], lambda: trap(), lambda: [trap(), trap()], lambda: F.Traps([trap()])], junk + [lambda: 1, lambda: mat(), lambda: [mat()], lambda: [trap(), "a"], lambda: [trap(), None]], lambda v: F.Simulation(traps=v))
    add("materials", [lambda: None, lambda: mat(), lambda: [mat(), mat()], lambda: F.Materials([mat()])], junk + [lambda: 1, lambda: trap(), lambda: [trap()], lambda: [mat(), 1], lambda: [mat(), None]], lambda v: F.Simulation(materials=v))
    add("exports", [lambda: None, lambda: exp(), lambda: dq(), lambda: [exp(), dq()], lambda: F.Exports([exp()])], junk + [lambda: 1, lambda: trap(), lambda: [trap()], lambda: [exp(), 1], lambda: [exp(), None]], lambda v: F.Simulation(exports=v))
    add("temperature", [lambda: None, lambda: 500, lambda: 500.0, lambda: 500 + 2 * F.x, lambda: F.Temperature(500.0), lambda: F.HeatTransferProblem()], junk + [lambda: [500.0], lambda: trap()], lambda v: F.Simulation(temperature=v))
    add("dt", [lambda: None, lambda: 1, lambda: 0.5, lambda: F.Stepsize(0.5)], junk + [lambda: [0.5], lambda: F.Temperature(1.0)], lambda v: F.Simulation(dt=v))

    def container(cls, first, good, bad):
        def grow(how):
            def call(v):
                c = cls([first()])
                if how == "append":
                    c.append(v)
                elif how == "insert":
                    c.insert(0, v)
                elif how == "set":
                    c[0] = v
                elif how == "extend":
                    c.extend([v])
                else:
                    c.extend([first(), v])

            return call

        for how in ("append", "insert", "set", "extend", "extend2"):
            add("%s.%s" % (cls.__name__, how), good, bad, grow(how))
        add("%s of" % cls.__name__, [lambda: [], lambda: [first()]], [lambda: "coucou", lambda: first(), lambda: (first(),), lambda: None], lambda v: cls(v))

    container(F.Traps, trap, [trap], [mat, lambda: 1, lambda: "trap", lambda: None])
    container(F.Materials, mat, [mat], [trap, lambda: 1, lambda: "mat", lambda: None])
    container(F.Exports, exp, [exp, dq], [trap, lambda: 1, lambda: "solute", lambda: None])
    container(F.DerivedQuantities, q, [q], [exp, lambda: 1, lambda: "solute", lambda: None])

    num = [lambda: 1, lambda: 7]
    bad = [lambda: "1", lambda: 1.5, lambda: [1], lambda: None, lambda: True]
    for cls in ("TotalVolume", "AverageVolume", "MinimumVolume", "MaximumVolume"):
        add(cls, num, bad, lambda v, cls=cls: getattr(F, cls)("solute", v))
    for cls in ("TotalSurface", "AverageSurface", "MinimumSurface", "MaximumSurface", "SurfaceFlux"):
        add(cls, num, bad, lambda v, cls=cls: getattr(F, cls)("solute", v))
    add("AdsorbedHydrogen", num, bad, lambda v: F.AdsorbedHydrogen(v))
    add("HydrogenFlux", num, bad, lambda v: F.HydrogenFlux(v))
    add("ThermalFlux", num, bad, lambda v: F.ThermalFlux(v))
    notname = [lambda: "a.csvx", lambda: "txt", lambda: "a", lambda: 2, lambda: ["a.txt"]]
    add("TXTExport filename", [lambda: "a.txt", lambda: "b/c.txt", lambda: None], notname + [lambda: "a.xdmf"], lambda v: F.TXTExport("solute", filename=v))
    add("XDMFExport filename", [lambda: "a.xdmf", lambda: "b/c.xdmf", lambda: None], notname + [lambda: "a.txt"], lambda v: F.XDMFExport("solute", filename=v))
    add("DerivedQuantities filename", [lambda: "a.csv", lambda: "b/c.csv", lambda: None], notname + [lambda: "a.txt"], lambda v: F.DerivedQuantities([q()], filename=v))
    add("XDMFExport folder", [lambda: "a", lambda: None], [lambda: 1, lambda: ["a"]], lambda v: F.XDMFExport("solute", folder=v))
    add("XDMFExport mode", [lambda: 1, lambda: 10, lambda: "last"], [lambda: 0, lambda: -1, lambda: 2.5, lambda: "first", lambda: None, lambda: [1]], lambda v: F.XDMFExport("solute", mode=v))
    add("XDMFExport checkpoint", [lambda: True, lambda: False], [lambda: 1, lambda: "yes", lambda: None], lambda v: F.XDMFExport("solute", checkpoint=v))
    add("decay constant", [lambda: 1, lambda: 0.5], [lambda: 0, lambda: -1, lambda: "1", lambda: None, lambda: [1.0]], lambda v: F.RadioactiveDecay(v, volume=1))
    add("material of a trap", [lambda: "a", lambda: mat(), lambda: ["a", mat()]], [lambda: 1, lambda: None, lambda: [1], lambda: ["a", 2], lambda: trap()], lambda v: F.Trap(1.0, 0.1, 2.0, 0.2, v, 3.0))
    solver = [lambda: None, lambda: f.NewtonSolver()]
    nosolver = [lambda: "mumps", lambda: 1, lambda: []]
    add("solver of the temperature", solver, nosolver, lambda v: setattr(F.HeatTransferProblem(), "newton_solver", v))
    add("solver of the trap density", solver, nosolver, lambda v: setattr(F.ExtrinsicTrap(1.0, 0.1, 2.0, 0.2, "a", 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0), "newton_solver", v))
    add("solver of the transport", solver, nosolver, lambda v: setattr(F.HTransportProblem(F.Mobile(), F.Traps([]), F.Temperature(500), F.Settings(1.0, 1.0), []), "newton_solver", v))
    for lab in (None, "a"):
        for st in (None, 0, 2, -1):
            ok = lab is not None and st is not None
            out.append(("stored initial condition", ok, lambda lab=lab, st=st: F.InitialCondition(field=0, value="a.xdmf", label=lab, time_step=st)))
            out.append(("plain initial condition", True, lambda lab=lab, st=st: F.InitialCondition(field=0, value=1.0, label=lab, time_step=st)))
    return out


def types(W, cfg):
    table = kinds(W.F, W)
    part = [t for i, t in enumerate(table) if i % cfg["of"] == cfg["part"]]
    i = W.pick("case", list(range(len(part))))
    name, valid, call = part[i]
    judge(W, "%s (%d)" % (name, i), valid, lambda: (call(), None)[1])


def lists(W, cfg):
    """a list of parts, however it is filled, holds these parts in their order"""
    F = W.F
    mk = dict(
        Traps=lambda: F.Trap(1.0, 0.1, 2.0, 0.2, "mat1", 3.0),
        Materials=lambda: F.Material(id=1, D_0=1.0, E_D=0.1),
        Exports=lambda: F.XDMFExport("solute", filename="a.xdmf"),
        DerivedQuantities=lambda: F.TotalVolume("solute", 1),
    )[cfg["cls"]]
    cls = getattr(F, cfg["cls"])
    start = [mk() for _ in range(W.pick("start", [0, 1, 2]))]
    c, ref = (cls(list(start)) if start or W.bool("empty") else cls()), list(start)
    for k in range(cfg.get("ops", 2)):
        op = W.pick("op%d" % k, ["append", "insert", "set", "extend", "extend own", "extend none"])
        new = [mk(), mk()]
        at = W.int("at%d" % k, 0, max(len(ref) - (op == "set"), 0))
        i = [j for j in range(len(ref) + 1) if at == j][0]
        if op == "append":
            c.append(new[0])
            ref.append(new[0])
        elif op == "insert":
            c.insert(i, new[0])
            ref.insert(i, new[0])
        elif op == "set":
            if not ref:
                W.stop()
            c[i] = new[0]
            ref[i] = new[0]
        elif op == "extend":
            c.extend(new)
            ref += new
        elif op == "extend own":
            c.extend(cls(new))
            ref += new
        else:
            c.extend([])
        W.check("%s after %s" % (cfg["cls"], op), len(c) == len(ref) and all(a is b for a, b in zip(c, ref)))


def lookup(W, cfg):
    """materials and traps are found by their identifiers, names or themselves"""
    F = W.F
    n = [W.int("id%d" % i, 1, 9) for i in range(3)]
    for a, b in itertools.combinations(n, 2):
        W.assume(a != b)
    q = W.int("q", 1, 9)
    if cfg["what"] == "traps":
        tr = [F.Trap(1.0, 0.1, 2.0, 0.2, "a", 3.0, id=i) for i in n]
        owner = list(zip(n, tr))
        call = lambda: F.Traps(tr).get_trap(q)
    else:
        ms = [F.Material(id=n[0], D_0=1.0, E_D=0.1, name="a"), F.Material(id=n[1:] if cfg["what"] == "lists" else n[1], D_0=1.0, E_D=0.1, name="b")]
        mats = F.Materials(ms)
        owner = [(n[0], ms[0]), (n[1], ms[1])] + ([(n[2], ms[1])] if cfg["what"] == "lists" else [])
        call = lambda: mats.find_material_from_id(q)
        nm = W.pick("name", ["a", "b", "c"])
        got = []
        e = W.raises(lambda: got.append(mats.find_material(nm)))
        W.check("material found by its name", (e is not None) if nm == "c" else (e is None and got[0] is ms["ab".index(nm)]))
        W.check("material found by itself", mats.find_material(ms[1]) is ms[1])
    got = []
    e = W.raises(lambda: got.append(call()))
    hit = [o for i, o in owner if q == i]
    W.check("%s found by identifier" % cfg["what"], (e is not None) if not hit else (e is None and got[0] is hit[0]))


def labels(W, cfg):
    """a temperature field read from a file must be there under its label"""
    F = W.F
    s = Small(W)
    there = [W.pick("there%d" % i, ["temp", "T", "u"]) for i in range(2)]
    asked = W.pick("asked", ["temp", "T", "u", "te"])
    with open("Tl.xdmf", "w") as fo:
        fo.write("<Xdmf><Domain>%s</Domain></Xdmf>" % "".join("<Grid><Grid><Time Value='%d' /><Attribute Name='%s' /></Grid></Grid>" % (i, l) for i, l in enumerate(there)))
    judge(W, "label of a stored temperature", asked in there, lambda: (F.TemperatureFromXDMF("Tl.xdmf", asked), None)[1])


def evolving(W, cfg):
    """densities and temperatures which evolve need a transient simulation"""
    F = W.F
    s = Small(W)
    transient, ext = W.bool("transient"), W.bool("ext")
    kind = W.pick("kind", ["ext", "neutron"])

    def make():
        tr = s.trap()
        if ext:
            mk = dict(ext=lambda: F.ExtrinsicTrap(1.0, 0.1, 2.0, 0.2, "mat1", 1.0, 3.0, 3.0, 0.5, 0.5, 0.5, 0.5), neutron=lambda: F.NeutronInducedTrap(1.0, 0.1, 2.0, 0.2, "mat1", 1.0, 0.5, 3.0, 0.5, 0.1))
            tr = mk[kind]()
        kw = dict(settings=F.Settings(1e-10, 1e-10, transient=True, final_time=2.0), dt=0.5) if transient else {}
        return s.sim(traps=[tr], **kw)

    judge(W, "evolving trap density", bool(transient or not ext), make)


HARNESSES = dict(lists=lists, lookup=lookup, labels=labels, evolving=evolving, settings=settings, materials=materials, borders=borders, solubility=solubility, henry=henry, ids=ids, traps=traps, trapmats=trapmats, conditions=conditions, fields=fields, coordinates=coordinates, adsorbed=adsorbed, ranges=ranges, decay=decay, mode=mode, types=types)

ALL = ["S", "thermal_cond", "heat_capacity", "rho", "Q"]
CONFIGS = [
    ("settings", dict()),
    ("settings", dict(dt="obj", T="heat")),
    ("settings", dict(dt="adapt", late=True)),
    ("settings", dict(dt="obj", parts=True, late=True)),
    ("settings", dict(parts=True)),
]
CONFIGS += [("materials", dict(prop=p)) for p in ALL]
CONFIGS += [("materials", dict(prop=p, T="heat", **{"with": [q for q in ALL if q != p]}, n=3, alt=1)) for p in ALL]
CONFIGS += [
    ("materials", dict(prop="thermal_cond", T="heatt", **{"with": ["heat_capacity", "rho"]})),
    ("materials", dict(prop="heat_capacity", T="heatt", **{"with": ["thermal_cond", "rho"]})),
    ("materials", dict(prop="rho", T="heatt", order=[1, 0], **{"with": ["thermal_cond", "heat_capacity"]})),
    ("materials", dict(prop="S", chem=True)),
    ("materials", dict(prop="S", chem=True, n=3, order=[2, 0, 1])),
    ("materials", dict(prop="Q", soret=True)),
    ("borders", dict(n=1)),
    ("borders", dict(n=2)),
    ("borders", dict(n=3)),
    ("solubility", dict()),
    ("henry", dict()),
    ("henry", dict(traps=2)),
    ("ids", dict(shape=[0, 0])),
    ("ids", dict(shape=[0, 0, 0])),
    ("ids", dict(shape=[1, 2])),
    ("ids", dict(shape=[2, 0])),
    ("ids", dict(shape=[0, 1, 1])),
    ("traps", dict(n=2)),
    ("traps", dict(n=3)),
    ("trapmats", dict(n=1)),
    ("trapmats", dict(n=1, list=True)),
    ("trapmats", dict(n=2)),
    ("fields", dict(kind="source")),
    ("fields", dict(kind="source", heat=True)),
    ("fields", dict(kind="decay")),
    ("fields", dict(kind="ic")),
    ("adsorbed", dict(n=1, asked=1, flux=0)),
    ("adsorbed", dict(n=1, asked=2, flux=0)),
    ("adsorbed", dict(n=2, asked=2, flux=0)),
    ("decay", dict(how="new")),
    ("decay", dict(how="set")),
    ("mode", dict(how="new")),
    ("mode", dict(how="set")),
    ("labels", dict()),
    ("evolving", dict()),
]
CONFIGS += [("coordinates", dict(dim=d, type=t)) for d in (1, 2, 3) for t in ("cartesian", "cylindrical", "spherical")]
CONFIGS += [
    ("conditions", dict(kinds=k))
    for k in (["value", "value"], ["value", "flux"], ["custom", "custom"], ["cflux", "custom"], ["flux", "flux"], ["kinetics", "kinetics"], ["kinetics", "flux"], ["recomb", "kinetics"], ["sieverts", "value"], ["implant", "recomb"], ["henrys", "mass"], ["dissoc", "custom"], ["kinetics", "value"], ["mass", "sieverts"], ["sieverts", "kinetics"], ["kinetics", "implant"])
]
CONFIGS += [
    ("conditions", dict(kinds=["value"], fields=[0, "0", "solute", 1, "1", 2, "2", "3", 3, "T", "retention", "cm", None], traps=[1, 3])),
    ("conditions", dict(kinds=["flux"], fields=[0, "0", "solute", 1, "1", 2, "2", "3", 3, "T", "retention", "cm", None], traps=[2])),
    ("conditions", dict(kinds=["value"], fields=[0, "0", "solute", 1, "1", "2", "T", "cm"], traps=[], heat=True)),
    ("conditions", dict(kinds=["value", "value"], fields=["T", 0, 1], heat=True)),
    ("conditions", dict(kinds=["flux", "custom"], fields=["T", "0", 1], heat=True)),
    ("conditions", dict(kinds=["conv", "value"], fields=["T", 0], heat=True)),
    ("conditions", dict(kinds=["conv"])),
    ("conditions", dict(kinds=["value", "conv", "flux"], fields=["T", 0], surfs=[1, 2], heat=True)),
    ("conditions", dict(kinds=["kinetics"], dim=2)),
    ("conditions", dict(kinds=["kinetics"], dim=3)),
    ("conditions", dict(kinds=["flux", "value", "recomb"], fields=[0, 1], surfs=[1, 2, [2, 1]])),
    ("conditions", dict(kinds=["value", "value"], dim=2, surfs=[[1], [3], [2, 3], [1, 2, 3]], fields=[0, "1"])),
    ("conditions", dict(kinds=["value", "value"], traps=[3, 1], fields=[3, "3", 1, "1"], surfs=[1, [1, 2]])),
]
ANGLES = [
    ("SurfaceFluxCylindrical", "azimuth_range", (0, 2)),
    ("SurfaceFluxSpherical", "azimuth_range", (0, 1)),
    ("SurfaceFluxSpherical", "polar_range", (-1, 1)),
    ("TotalVolumeCylindrical", "azimuth_range", (0, 2)),
    ("TotalVolumeSpherical", "azimuth_range", (0, 2)),
    ("TotalVolumeSpherical", "polar_range", (0, 1)),
    ("TotalSurfaceCylindrical", "azimuth_range", (0, 2)),
    ("TotalSurfaceSpherical", "azimuth_range", (0, 2)),
    ("TotalSurfaceSpherical", "polar_range", (0, 1)),
]
CONFIGS += [("ranges", dict(cls=c, arg=a, range=r, how=h)) for c, a, r in ANGLES for h in ("new", "set")]
CONFIGS += [("types", dict(part=i, of=4)) for i in range(4)]
CONFIGS += [("lists", dict(cls=c)) for c in ("Traps", "Materials", "Exports", "DerivedQuantities")]
CONFIGS += [("lookup", dict(what=w)) for w in ("traps", "materials", "lists")]
THOROUGH = [
    ("conditions", dict(kinds=[a, b])) for a, b in itertools.product(["value", "custom", "sieverts", "kinetics", "flux", "cflux", "recomb", "dissoc", "mass", "implant", "henrys"], repeat=2)
] + [
    ("ids", dict(shape=[2, 1, 0])),
    ("traps", dict(n=4)),
    ("trapmats", dict(n=3)),
    ("conditions", dict(kinds=["value", "flux", "custom"], fields=[0, "1", 1])),
]
