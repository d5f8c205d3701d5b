"""C23: initialising and running again."""
import copy

from . import c19, c20, mixed
from .common import Model
from .stepping import Policy

BOUNDS = "two runs (three in the thorough tier) of the same simulation object, or of a second simulation made of the same inputs, or two simulations of different inputs (except the mesh) filled in by appending, the second run in the middle of the first; each run complete or abandoned after 1-3 accepted steps of varying size with up to 1 diverging solve; inputs unchanged, replaced or modified in place in between; every kind of input, several of each; 1D/2D models of 1-2 volumes"


class Enough(Exception):
    pass


class Second(Model):
    """other inputs for the mesh of a first model"""

    def __init__(self, W, first, cfg):
        self.first = first
        Model.__init__(self, W, cfg)

    def given(self):
        self.mesh = self.first.mesh

    def line(self):
        self.mesh, self.spans, self.verts = self.first.mesh, self.first.spans, self.first.verts


PARTS = dict(
    materials=["mats", "by_mark", "matsobj"],
    traps=["tr"],
    initial=["ic", "icobj"],
    sources=["src"],
    boundary=["bcs", "bcobj", "kin", "dcs"],
    temperature=["Tkind", "Tobj", "Tval", "T0", "heat", "heat_transient"],
)


def heat_parts(M):
    return M.heat_inputs() if M.Tkind == "heat" else ([], [])


def start(M):
    """a copy of the reference, ready for a run"""
    R = copy.copy(M)
    R.hist, R.heat_hist, R.times = [], [], None
    R.tr = [copy.copy(t) for t in M.tr]
    for t in R.tr:
        t.dhist = []
    return R


def again(W, cfg):
    F = W.F
    P = Policy(W, dict(dict(long=True), **cfg.get("policy", {})))
    mcfg = dict(dict(T="x0"), **cfg["model"])
    M = Model(W, mcfg)
    fl, txt = c19.make(W, P, dict(x=cfg.get("x", []), p=cfg.get("p", [])))
    tables = [c20.Table(W, M, sp, i) for i, sp in enumerate(cfg.get("tables", []))]
    exports = [o for _, _, o in fl + txt] + [t.dq for t in tables]
    opts = {k: mcfg[k] for k in ("traps_element_type", "update_jacobian") if k in mcfg}
    if M.transient:
        kw = dict(dt=P.dt, settings=P.settings(soret=bool(M.soret), chemical_pot=M.chem, **opts))
    else:
        kw = {}
    M.build(exports=exports, **kw)
    steps = cfg.get("steps", [2, 2])
    changes = cfg.get("changes", [[]] * (len(steps) - 1))
    R = start(M)
    ran = []
    for r, n in enumerate(steps):
        if r:
            W.prefix = "r%d_" % r
            R = start(R)
            P = change(W, cfg, R, P, changes[r - 1], opts)
            W.prefix = ""
            del W.files[:]
            del W.saved[:]
        ran.append(once(W, cfg, R, P, n, fl, txt, tables, r))
    if not any(changes) and M.transient:
        for r in range(1, len(steps)):
            for k, (a, b) in enumerate(zip(ran[0], ran[r])):
                W.check_eq("run %d: time of step %d" % (r + 1, k), b, a)


def once(W, cfg, M, P, n, fl, txt, tables, r):
    tag = "run %d: " % (r + 1)
    if hasattr(P, "nfail"):
        P.nfail = 0
    W.range_of = lambda u, k: (400, 700) if M.Tkind == "heat" and u is M.sim.T.T else None
    for t in tables:
        t.M = M
    last = r == len(cfg.get("steps", [2, 2])) - 1

    def check(ev, k, att):
        if last:
            M.check_residual(ev, k, tag=tag)
            M.check_dirichlet(ev, k)

    def hcheck(ev, k):
        if last:
            M.check_heat(ev, k, tag=tag + "heat: ")

    def accepted(k):
        if not last or k == 0:
            return
        for name, e, o in fl:
            c19.check_field(W, M, name, e, o, k, M.over)
        for name, e, o in txt:
            c19.check_profile(W, M, P, name, e, k, M.over)
        for t in tables:
            t.check(k, M.over)

    def outcome(k, att):
        if not M.transient:
            return 3, True
        it, conv = P.outcome(k, att)
        st["fail"] = not conv
        return it, conv

    st = dict(fail=False)

    def enough():
        raise Enough()

    W.stop = enough
    try:
        M.march(n, outcome, check=check, hcheck=hcheck if M.Tkind == "heat" else None, accepted=accepted, dens=last)
    except Enough:
        pass
    except ValueError:
        # the smallest step was reached
        if not st["fail"]:
            raise
    finally:
        del W.stop
    return list(M.acc)


def change(W, cfg, M, P, what, opts):
    """apply the changes to the simulation and to its reference; returns the policy"""
    F, sim = W.F, M.sim
    if not what:
        return P
    other = dict(M.cfg, **cfg.get("other", {}))
    if "chem" in what:
        other["chem"] = not M.chem
    X = Second(W, M, other)
    for part in what:
        if part in PARTS:
            for a in PARTS[part]:
                if hasattr(X, a):
                    setattr(M, a, getattr(X, a))
    if "temperature" in what:
        sim.T = M.Tobj
    if "materials" in what:
        sim.materials = M.matsobj
    if "traps" in what:
        sim.traps = [t.obj for t in M.tr] if M.tr else None
    if "initial" in what:
        sim.initial_conditions = M.icobj
    if "sources" in what or "boundary" in what or "temperature" in what:
        hs, hb = heat_parts(M)
        sim.sources = hs + [s.obj for s in M.src]
        sim.boundary_conditions = M.bcobj + hb
    if "chem" in what:
        M.chem = not M.chem
        sim.settings.chemical_pot = M.chem
    # in place
    if "D" in what:
        for m, x in zip(M.mats, X.mats):
            m.D0 = m.obj.D_0 = x.D0
            m.ED = m.obj.E_D = x.ED
    if "trapping" in what:
        for t, x in zip(M.tr, X.tr):
            for a, b in (("k0", "k_0"), ("Ek", "E_k"), ("p0", "p_0"), ("Ep", "E_p")):
                v = getattr(x, a)
                setattr(t, a, v)
                setattr(t.obj, b, list(v) if t.as_list else v[0])
    if "values" in what:
        M.bcs, M.dcs = X.bcs, X.dcs
        for o, x in zip(M.bcobj, X.bcobj):
            o.value = x.value
    if "final" in what:
        P.final = W.real("final2", pos=True, lo=1.0, hi=4.0)
        sim.settings.final_time = P.final
    if "init" in what:
        P.init = sim.dt.initial_value = W.real("dt2", pos=True, lo=0.5, hi=1.5)
    if "dt" in what:
        P = Policy(W, dict(dict(long=True), **cfg.get("policy2", cfg.get("policy", {}))))
        sim.dt = P.dt
        sim.settings = P.settings(soret=bool(M.soret), chemical_pot=M.chem, **opts)
    if "transient" in what:
        M.transient = True
        sim.dt = P.dt
        sim.settings = P.settings(soret=bool(M.soret), chemical_pot=M.chem, **opts)
    if "object" in what:
        old = sim
        M.sim = F.Simulation(mesh=old.mesh, materials=old.materials, temperature=old.T, traps=old.traps, sources=old.sources, boundary_conditions=old.boundary_conditions, initial_conditions=old.initial_conditions, exports=old.exports, dt=old.dt, settings=old.settings, log_level=40)
    return P


def assemble(W, M, exports, **kw):
    """a simulation filled in after its creation, whose defaults it appends to"""
    F = W.F
    hs, hb = heat_parts(M)
    sim = M.sim = F.Simulation(log_level=40)
    sim.mesh, sim.materials, sim.T = M.mesh, M.matsobj, M.Tobj
    for a, v in kw.items():
        setattr(sim, a, v)
    for l, xs in ((sim.traps, [t.obj for t in M.tr]), (sim.sources, hs + [s.obj for s in M.src]), (sim.boundary_conditions, M.bcobj + hb), (sim.initial_conditions, M.icobj), (sim.exports, exports)):
        for x in xs:
            l.append(x)


def apart(W, cfg):
    """two simulations of different inputs; the second is set up and run in the middle
    of the first"""
    F = W.F
    first, second = [], []
    Ps, Ms, Fs = [], [], []
    for i, m in enumerate((cfg["model"], cfg["other"])):
        W.prefix = "s%d_" % i
        mcfg = dict(dict(T="x0"), **m)
        M = Second(W, Ms[0], mcfg) if i else Model(W, mcfg)
        P = Policy(W, dict(dict(long=True), **cfg.get("policy", {})))
        fl, txt = c19.make(W, P, dict(x=cfg.get("x", []), p=[], pre="s%d" % i))
        kw = dict(dt=P.dt, settings=P.settings(soret=bool(M.soret), chemical_pot=M.chem)) if M.transient else dict(settings=F.Settings(1e-10, 1e-10, transient=False, soret=bool(M.soret), chemical_pot=M.chem))
        W.prefix = ""
        Ps.append(P), Ms.append(M), Fs.append((fl, kw))
    for M, (fl, kw) in zip(Ms, Fs):
        assemble(W, M, [o for _, _, o in fl], **kw)

    def drive(i, n, mid=None):
        M, P, fl = Ms[i], Ps[i], Fs[i][0]
        tag = "simulation %d: " % (i + 1)

        def ranges():
            W.range_of = lambda u, k: (400, 700) if any(X.Tkind == "heat" and getattr(X.sim.T, "T", None) is u for X in Ms) else None

        def enough():
            raise Enough()

        def outcome(k, att):
            return P.outcome(k, att) if M.transient else (3, True)

        def accepted(k):
            if k:
                for name, e, o in fl:
                    c19.check_field(W, M, name, e, o, k, M.over)
            if mid and k == 1:
                h = W.handler
                mid()
                W.handler, W.stop = h, enough

        ranges()
        W.stop = enough
        try:
            M.march(n, outcome, check=lambda ev, k, att: (M.check_residual(ev, k, tag=tag), M.check_dirichlet(ev, k)), hcheck=(lambda ev, k: M.check_heat(ev, k, tag=tag + "heat: ")) if M.Tkind == "heat" else None, accepted=accepted)
        except Enough:
            pass

    try:
        drive(0, cfg.get("steps", [2, 2])[0], lambda: drive(1, cfg.get("steps", [2, 2])[1]))
    finally:
        del W.stop


HARNESSES = {"again": again, "apart": apart}


def C(model, **k):
    return ("again", dict(model=model, **k))


ONE = dict(marks=[1], ids=[1])
TWO = dict(marks=[1, 2], ids=[1, 2])
X2 = [dict(field="solute", cp=True), dict(field="T", mode=2)]
Q = dict(units=False)
TAB = [dict(q=[dict(kind="TotalVolume", field="solute", at=1), dict(kind="SurfaceFlux", field="solute", at=1), dict(kind="PointValue", field="T", at=0)], units=False)]
TABT = [dict(q=[dict(kind="AverageVolume", field="1", at=1), dict(kind="TotalSurface", field="retention", at=2)], units=False, export=1)]
ADAPT = dict(adaptive=True, fails=1)
CONFIGS = [
    # nothing changes
    C(dict(ONE, T="xt", weights=True), x=X2, tables=TAB, p=[dict(field="solute")], steps=[2, 2]),
    C(dict(ONE, T="t", traps=[dict(mats=[0]), dict(mats=[0], dens="t")], weights=True), x=[dict(field="1"), dict(field="retention", cp=True)], tables=TABT, policy=ADAPT, steps=[2, 2]),
    C(dict(TWO, T="x", traps=[dict(mats=[0, 1], list=True, dens="t"), dict(mats=[1])], sources=[dict(vol=1, kind="t"), dict(vol=[1, 2], kind="num"), dict(vol=2, kind="t", field="1"), dict(vol=1, kind="num", field="2"), dict(vol=1, field="2", kind="t")]), steps=[2, 2]),
    C(dict(TWO, T="x", traps=[dict(mats=[0]), dict(mats=[1])], sources=[dict(vol=[1, 2], field="all", kind="decay"), dict(vol=1, field="1", kind="decay"), dict(vol=2, field="0", kind="decay")]), steps=[1, 2]),
    C(dict(ONE, T="t", fluxes=[dict(kind=k, surf=s, val=v, **(dict(order=2) if k == "recomb" else {})) for k, s in (("flux", 1), ("recomb", [1, 2]), ("mass", 2), ("dissoc", 1), ("custom", 2)) for v in ("num", "t")]), steps=[2, 1]),
    C(dict(ONE, T="t", dirichlets=[dict(kind="value", surf=1, val="t"), dict(kind="custom", surf=2, val="t")]), policy=ADAPT, steps=[2, 2]),
    C(dict(ONE, T="t", dirichlets=[dict(kind="sieverts", surf=1, val="t"), dict(kind="implant", surf=2, val="t", rec=True, dis=True)]), steps=[2, 2]),
    C(dict(TWO, T="t", chem=True, dirichlets=[dict(kind="value", surf=1, val="t"), dict(kind="henrys", surf=2, val="t")]), x=[dict(field="solute")], steps=[2, 2]),
    C(dict(TWO, T="x", chem=True, laws=["sievert", "henry"], fluxes=[dict(kind="recomb", order=2, surf=1, val="t")]), x=[dict(field="0")], steps=[1, 2]),
    C(dict(ONE, T="t", kinetics=[dict(surf=[1], a="t", b="num"), dict(surf=[2], a="num", b="t")]), tables=[dict(q=[dict(kind="AdsorbedHydrogen", field="adsorbed", at=2)], units=False)], steps=[2, 2]),
    C(dict(TWO, T="heat", heat=dict(sources=[dict(vol=1, kind="t"), dict(vol=2, kind="num")], fluxes=[dict(kind="conv", surf=1, val="t"), dict(kind="flux", surf=2, val="t")], dirichlets=[])), x=[dict(field="T")], steps=[2, 2]),
    C(dict(ONE, T="heat", heat=dict(ic="xdmf", fluxes=[dict(kind="custom", surf=1, val="t")], dirichlets=[dict(surf=2, val="t")])), steps=[2, 1], policy=ADAPT),
    C(dict(ONE, T="heat", heat=dict(transient=False, sources=[dict(vol=1)], dirichlets=[dict(surf=1)])), x=[dict(field="T")], steps=[1, 2]),
    C(dict(ONE, T="xt", traps=[dict(mats=[0], kind="ext", prm="t"), dict(mats=[0], kind="neutron", prm="t"), dict(mats=[0])]), steps=[2, 2], policy=ADAPT),
    C(dict(ONE, transient=False, T="x", traps=[dict(mats=[0])], sources=[dict(vol=1), dict(vol=1, field="1"), dict(vol=1, kind="decay", field="all")], fluxes=[dict(kind="recomb", order=2, surf=1)], dirichlets=[dict(kind="value", surf=2)], weights=True), x=[dict(field="solute"), dict(field="1", mode="last")], tables=TAB, p=[dict(field="retention")], steps=[1, 1, 1]),
    C(dict(TWO, transient=False, T="heat", chem=True, heat=dict(sources=[dict(vol=1)], dirichlets=[dict(surf=1)]), dirichlets=[dict(kind="sieverts", surf=1)]), x=[dict(field="solute")], steps=[1, 1]),
    C(dict(ONE, T="xt", ic=[dict(sp=0, kind="xdmf"), dict(sp=1, kind="num"), dict(sp=2, kind="xt")], traps=[dict(mats=[0]), dict(mats=[0], id=5)]), steps=[2, 1]),
    C(dict(TWO, T="t", soret="fun", dim=2, sources=[dict(vol=1, kind="xt")], fluxes=[dict(kind="flux", surf=3, val="xt")]), steps=[1, 1]),
    # complete runs and requested times
    C(dict(ONE, ic=["mobile"]), x=[dict(field="solute", mode="last"), dict(field="solute", mode=2)], policy=dict(long=False, nm=1), steps=[3, 3]),
    C(dict(ONE, ic=["mobile"]), p=[dict(field="solute", times=[0])], policy=dict(long=False, nt=1), steps=[2, 2]),
    C(dict(ONE, ic=["mobile"]), p=[dict(field="solute", times=[1, 0])], policy=dict(long=False, nt=2), steps=[1, 2]),
    C(dict(ONE, ic=["mobile"]), x=[dict(field="solute")], policy=dict(nm=1, adaptive=True, cap="num"), steps=[1, 2]),
    # other inputs in between
    C(dict(TWO, T="t", traps=[dict(mats=[0]), dict(mats=[1])], sources=[dict(vol=1, kind="t"), dict(vol=2, field="1"), dict(vol=2, field="2", kind="t")], fluxes=[dict(kind="flux", surf=1, val="t")]), changes=[["sources"]], other=dict(sources=[dict(vol=2, kind="t"), dict(vol=2, field="2")]), steps=[2, 2]),
    C(dict(TWO, T="t", traps=[dict(mats=[0])], fluxes=[dict(kind="flux", surf=1, val="t")], dirichlets=[dict(kind="value", surf=2)]), changes=[["boundary"]], other=dict(fluxes=[dict(kind="mass", surf=2, val="t")], dirichlets=[dict(kind="custom", surf=1, val="t")]), steps=[1, 2]),
    C(dict(TWO, T="t", traps=[dict(mats=[0]), dict(mats=[1])]), x=[dict(field="1"), dict(field="retention")], changes=[["traps", "initial"]], other=dict(traps=[dict(mats=[1], dens="t")]), steps=[2, 2]),
    C(dict(TWO, T="t", traps=[dict(mats=[0])]), x=[dict(field="solute")], changes=[["traps", "initial"]], other=dict(traps=[], ic=[]), steps=[1, 1]),
    C(dict(TWO, T="t", weights=True), x=[dict(field="T")], tables=TAB, changes=[["temperature"]], other=dict(T="xt"), steps=[2, 2]),
    C(dict(TWO, T="t", thermal=True), x=[dict(field="T")], changes=[["temperature"]], other=dict(T="heat", heat=dict(transient=False, sources=[dict(vol=1)], dirichlets=[dict(surf=2)])), steps=[2, 2]),
    C(dict(TWO, T="t", chem=True, weights=True, dirichlets=[dict(kind="value", surf=1)]), x=[dict(field="solute")], tables=[dict(q=[dict(kind="TotalVolume", field="solute", at=2), dict(kind="AverageSurface", field="retention", at=1)], units=False)], changes=[["materials"]], steps=[1, 2]),
    C(dict(TWO, T="t", solub=True, traps=[dict(mats=[0])], dirichlets=[dict(kind="value", surf=1)]), x=[dict(field="solute")], changes=[["chem"]], steps=[1, 2]),
    C(dict(TWO, T="x", chem=True, fluxes=[dict(kind="flux", surf=1)]), x=[dict(field="solute")], changes=[["chem"]], steps=[1, 2]),
    C(dict(TWO, T="t", weights=True, traps=[dict(mats=[0, 1], list=True)]), tables=TAB, changes=[["D", "trapping"]], steps=[1, 1]),
    C(dict(ONE, T="t", traps=[dict(mats=[0])], fluxes=[dict(kind="flux", surf=1, val="t")], dirichlets=[dict(kind="value", surf=2, val="t"), dict(kind="value", surf=1, field=1)]), changes=[["values"]], steps=[1, 2]),
    C(dict(ONE, ic=["mobile"]), policy=dict(long=False), changes=[["final"]], x=[dict(field="solute", mode="last")], steps=[2, 2]),
    C(dict(ONE, T="t", ic=["mobile"]), changes=[["init"]], policy=dict(adaptive=True), steps=[2, 2]),
    C(dict(ONE, T="t", ic=["mobile"]), changes=[["dt"]], policy=dict(adaptive=True), policy2=dict(adaptive=False), steps=[2, 2]),
    C(dict(TWO, T="t", weights=True), x=[dict(field="solute")], tables=TAB, changes=[["materials"]], steps=[1, 2]),
    # another simulation of the same inputs
    C(dict(TWO, T="xt", weights=True, traps=[dict(mats=[0], dens="t"), dict(mats=[1], kind="neutron", prm="t")], sources=[dict(vol=1, kind="t"), dict(vol=2, field="1"), dict(vol=[1, 2], field="all", kind="decay")], fluxes=[dict(kind="recomb", order=2, surf=1, val="t")], dirichlets=[dict(kind="value", surf=2, val="t")]), x=[dict(field="2"), dict(field="solute", cp=True)], tables=TAB, p=[dict(field="1")], changes=[["object"]], steps=[2, 2]),
    C(dict(ONE, T="heat", heat=dict(sources=[dict(vol=1, kind="t")], dirichlets=[dict(surf=1, val="t")]), kinetics=[dict(surf=[1, 2], a="t")]), x=[dict(field="T")], changes=[["object"]], steps=[2, 1]),
    C(dict(TWO, T="t", chem=True, dirichlets=[dict(kind="value", surf=1, val="t")]), x=[dict(field="solute")], policy=ADAPT, changes=[["object"]], steps=[2, 2]),
]
def A(model, other, **k):
    return ("apart", dict(model=model, other=other, **k))


RICH = dict(TWO, T="t", ic=["mobile"], traps=[dict(mats=[0])], sources=[dict(vol=1, kind="t"), dict(vol=2, field="1")], fluxes=[dict(kind="flux", surf=1, val="t")], dirichlets=[dict(kind="value", surf=2)])
BARE = dict(TWO, T="x0", ic=[])
CONFIGS += [
    A(RICH, BARE, x=[dict(field="solute")]),
    A(BARE, RICH, x=[dict(field="solute")]),
    A(RICH, dict(RICH, T="xt", traps=[dict(mats=[1], dens="t"), dict(mats=[0])]), x=[dict(field="retention")], steps=[2, 1]),
    A(dict(TWO, T="heat", heat=dict(sources=[dict(vol=1, kind="t")], dirichlets=[dict(surf=2, val="t")])), dict(TWO, T="t", chem=True, sources=[dict(vol=2)]), x=[dict(field="T")]),
    A(dict(TWO, T="t", chem=True, fluxes=[dict(kind="recomb", order=2, surf=1)]), dict(TWO, T="heat", heat=dict(sources=[dict(vol=2)], fluxes=[dict(kind="conv", surf=1)], dirichlets=[])), x=[dict(field="solute")]),
    A(RICH, dict(RICH, transient=False, ic=[]), steps=[2, 1]),
]
# every pair of features of a model, initialised and run twice
PAIRS = [C(c, x=[dict(field="solute"), dict(field="retention", cp=True)], steps=[1, 1]) for _, c in mixed.on(None, 43, "x")]
CONFIGS += PAIRS[::3]
THOROUGH = PAIRS[1::3] + PAIRS[2::3] + [
    C(dict(TWO, T="xt", traps=[dict(mats=[0], dens="t"), dict(mats=[1], kind="neutron", prm="t")], sources=[dict(vol=1, kind="t"), dict(vol=2, field="1")], fluxes=[dict(kind="recomb", order=2, surf=1, val="t")], dirichlets=[dict(kind="value", surf=2, val="t")]), x=X2, policy=ADAPT, steps=[2, 2, 3]),
    C(dict(TWO, T="heat", heat=dict(props="fun", sources=[dict(vol=2, kind="t")], dirichlets=[dict(surf=1, val="t")]), chem=True, laws=["sievert", "henry"]), x=[dict(field="solute"), dict(field="T")], steps=[2, 3], policy=ADAPT),
    C(dict(ONE, ic=["mobile"]), p=[dict(field="solute", times=[1, 0], write_at_last=True)], x=[dict(field="solute")], policy=dict(long=False, nt=2, nm=1, adaptive=True, fails=1), steps=[3, 3]),
]
