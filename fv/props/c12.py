"""C12: unconverged solves, solver settings, Jacobian."""
from . import mixed
from .common import Model
from .stepping import Policy

BOUNDS = "up to 3 steps with up to 3 diverging solves at arbitrary positions, adaptive step with or without minimum, constant step, steady runs; arbitrary tolerances and limits of every solver; Jacobian of the listed models; plus a quarter (thorough: all) of two all-pairs covering sets of feature combinations in 1D-3D (mixed.py)"


def retry(W, cfg):
    P = Policy(W, dict(dict(long=True, adaptive=True, fails=1), **cfg["policy"]))
    F = W.F
    ex = [F.XDMFExport("solute", filename="f.xdmf", mode=1, checkpoint=False)]
    M = P.model(W, base={}, exports=ex, **cfg.get("model", {}))
    st = dict(fail=False)

    def check(ev, n, att):
        lab = "step %d, attempt %d: " % (n, att)
        if st["fail"] and (not P.adaptive or P.dtmin is None):
            W.fail(lab + "no retry without an adaptive step and a minimum step")
        if len(W.files) != n - 1:
            W.fail(lab + "nothing is exported for an unconverged step")
        if att == 1:
            st["guess"], st["t"] = ev.guess, M.times[-1]
        else:
            W.check(lab + "earlier time than the attempt before", M.times[-1] < st["t"])
            st["t"] = M.times[-1]
            for p in W.points:
                for k in range(ev.ncomp):
                    W.check_eq(lab + "initial guess of component %d (%s)" % (k, p.name), ev.guess.val(k, p), st["guess"].val(k, p))
        # previous state, step, and everything else of the equations
        M.check_residual(ev, n, tag=lab)

    def outcome(n, att):
        it, conv = P.outcome(n, att)
        st["fail"] = not conv
        return it, conv

    e = None
    try:
        M.march(cfg.get("steps", 2), outcome, check=check, cut=lambda n: None)
    except Exception as err:  # noqa: BLE001
        e = err
    if e is None and st["fail"]:
        W.fail("the run stops with an error when a step cannot be retried")
    if e is not None:
        if not st["fail"]:
            raise e
        if len(W.files) != len(M.hist):
            W.fail("nothing is exported for an unconverged step")


def steady(W, cfg):
    F = W.F
    M = Model(W, dict(transient=False, **cfg.get("model", {})))
    M.build()
    st = {}

    def outcome(n, att):
        st["conv"] = W.bool("conv")
        return W.int("it", 0, 40), st["conv"]

    e = None
    try:
        M.march(1, outcome, check=lambda ev, n, att: M.check_residual(ev, 1))
    except Exception as err:  # noqa: BLE001
        e = err
    if e is not None and st.get("conv", True):
        raise e
    if not st["conv"] and e is None:
        W.fail("a steady run that did not converge reports an error")


def heatfail(W, cfg):
    """an unconverged temperature or density never enters the model"""
    M = Model(W, dict(dict(steps=3), **cfg["model"]))
    M.build()
    st = dict(bad=False, n=0)

    def handler(ev):
        if st["bad"]:
            W.fail("an unconverged auxiliary solve stops the run")
            W.stop()
        st["n"] += 1
        if st["n"] > cfg.get("solves", 6):
            W.stop()
        main = not (M.Tkind == "heat" and ev.u is M.sim.T.T) and not any(t.kind != "trap" and ev.u is t.obj.density[0] for t in M.tr)
        if main:
            return 3, True
        conv = W.bool("conv%d" % st["n"])
        st["bad"] = not conv
        return 3, conv

    W.handler = handler
    e = None
    try:
        M.sim.initialise()
        M.sim.run()
    except Exception as err:  # noqa: BLE001
        e = err
    if e is not None and not st["bad"]:
        raise e
    W.check("an unconverged auxiliary solve stops the run", not (e is None and st["bad"]))


def settings(W, cfg):
    """the solvers receive the settings of the user and the derivative of the residual"""
    F = W.F
    ul = W.f
    names = ("absolute_tolerance", "relative_tolerance")

    def draw(tag):
        d = {k: W.real("%s_%s" % (tag, k[:3]), pos=True, lo=1e-10, hi=1e-3) for k in names}
        d["maximum_iterations"] = W.int(tag + "_max", 1, 60)
        d["linear_solver"] = cfg.get("lin", {}).get(tag, "mumps")
        d["preconditioner"] = cfg.get("pre", {}).get(tag, "jacobi")
        return d

    m = dict(cfg["model"])
    want = {"h": draw("h"), "T": draw("T")}
    if m.get("T") == "heat":
        m["heat"] = dict(m.get("heat", {}), **want["T"])
    trs = []
    for i, t in enumerate(m.get("traps", [])):
        t = dict(t)
        if t.get("kind", "trap") != "trap":
            want["d%d" % i] = draw("d%d" % i)
            t.update(want["d%d" % i])
        trs.append(t)
    m["traps"] = trs
    M = Model(W, m)
    extra = {}
    if M.transient:
        extra["dt"] = F.Stepsize(W.real("dt", pos=True, lo=0.5, hi=1.0))
    fin = W.real("final", pos=True, lo=50, hi=60)
    h = want["h"]
    extra["settings"] = F.Settings(
        h["absolute_tolerance"], h["relative_tolerance"], transient=M.transient, final_time=fin if M.transient else None, soret=bool(M.soret), chemical_pot=M.chem,
        maximum_iterations=h["maximum_iterations"], linear_solver=h["linear_solver"], preconditioner=h["preconditioner"],
        **{k: m[k] for k in ("traps_element_type", "update_jacobian") if k in m}
    )
    M.build(**extra)
    if M.transient:
        W.assume(fin > 10 * W.cval(M.sim.dt.value))
    st = dict(n=0)

    def handler(ev):
        st["n"] += 1
        if st["n"] > cfg.get("solves", 3):
            W.stop()
        key, who = "h", "transport"
        if M.Tkind == "heat" and ev.u is M.sim.T.T:
            key, who = "T", "temperature"
        for i, t in enumerate(M.tr):
            if key == "h" and t.kind != "trap" and ev.u is t.obj.density[0]:
                key, who = "d%d" % i, "density %d" % i
        for k, v in want[key].items():
            g = ev.params.get(k)
            if isinstance(v, str):
                if g != v:
                    W.fail("%s of the %s solver (solve %d)" % (k, who, st["n"]))
            else:
                W.check_eq("%s of the %s solver (solve %d)" % (k, who, st["n"]), g, v)
        # exact derivative: every (test, trial) pair of components and derivatives
        ref = ul.derivative(ev.F, ev.u, ul.TrialFunction(ev.u.function_space()))
        for p in W.cellpts() + W.facetpts():
            for a in range(ev.ncomp):
                for b in range(ev.ncomp):
                    basis = lambda k: [({k: 1}, {})] + [({}, {(k, i): 1}) for i in range(W.dim)]
                    for ia, va in enumerate(basis(a)):
                        for ib, vb in enumerate(basis(b)):
                            args = {0: va, 1: vb}
                            W.check_eq("Jacobian %s: (%d,%d) (%d,%d) %s (solve %d)" % (who, a, ia, b, ib, p.name, st["n"]), W.evform(ev.J, p, args), W.evform(ref, p, args))
        if who == "transport":
            M.hist.append(ev)
        if who == "temperature":
            M.heat_hist.append(ev)
        return 3, True

    W.handler = handler
    M.sim.initialise()
    M.sim.run()


HARNESSES = {"retry": retry, "steady": steady, "heatfail": heatfail, "settings": settings}
ONE = dict(marks=[1], ids=[1])
TR = dict(ONE, traps=[dict(mats=[0])])
CONFIGS = [
    ("retry", dict(policy=dict(fails=2), model=dict(ONE, T="x"), steps=2)),
    ("retry", dict(policy=dict(fails=1), model=dict(TR, T="xt"), steps=3)),
    ("retry", dict(policy=dict(fails=1), model=dict(marks=[1, 2], ids=[1, 2], chem=True, laws=["sievert", "henry"]), steps=2)),
    ("retry", dict(policy=dict(fails=1), model=dict(TR, T="heat", heat=dict(sources=[dict(vol=1, kind="t")])), steps=2)),
    ("retry", dict(policy=dict(fails=1), model=dict(ONE, traps=[dict(mats=[0], kind="neutron", prm="t")], traps_element_type="DG"), steps=3)),
    ("retry", dict(policy=dict(fails=1), model=dict(ONE, kinetics=[dict(surf=1)]), steps=2)),
    ("retry", dict(policy=dict(fails=1, dtmin=False), model=TR, steps=2)),
    ("retry", dict(policy=dict(fails=1, adaptive=False), model=TR, steps=2)),
    ("retry", dict(policy=dict(fails=1, adaptive=False, plain=True, long=True), model=dict(ONE, update_jacobian=False), steps=2)),
    ("retry", dict(policy=dict(fails=1, adaptive=False, nm=1), model=ONE, steps=2)),
    ("steady", dict(model=TR)),
    ("steady", dict(model=dict(ONE, chem=True, T="heat", heat=dict(transient=False)))),
    ("heatfail", dict(model=dict(ONE, T="heat"))),
    ("heatfail", dict(model=dict(ONE, T="heat", heat=dict(transient=False), transient=False))),
    ("heatfail", dict(model=dict(ONE, traps=[dict(mats=[0], kind="ext"), dict(mats=[0], kind="neutron")]))),
    ("settings", dict(model=dict(TR, transient=False), solves=1)),
    ("settings", dict(model=dict(marks=[1, 2], ids=[1, 2], chem=True, laws=["henry", "sievert"], soret="num", fluxes=[dict(kind="recomb", order=2, surf=[1])]), solves=2)),
    ("settings", dict(model=dict(TR, update_jacobian=False, sources=[dict(vol=1, kind="decay", field="all")], fluxes=[dict(kind="custom", surf=[1, 2])]), solves=2, lin=dict(h="gmres"), pre=dict(h="ilu"))),
    ("settings", dict(model=dict(ONE, T="heat", heat=dict(props="fun", fluxes=[dict(kind="conv", surf=[1])])), solves=3, lin=dict(T="gmres"), pre=dict(T="ilu"))),
    ("settings", dict(model=dict(ONE, T="heat", heat=dict(transient=False), transient=False), solves=2)),
    ("settings", dict(model=dict(ONE, traps=[dict(mats=[0], kind="ext"), dict(mats=[0], kind="neutron")]), solves=3, lin=dict(d0="gmres", d1="bicgstab"), pre=dict(d0="ilu", d1="sor"))),
    ("settings", dict(model=dict(ONE, coords="cylindrical", kinetics=[dict(surf=[1, 2])]), solves=2)),
]
# feature combinations (all-pairs covering sets; a quarter of them on every change)
PAIRS = [("retry", dict(policy=dict(fails=1), model=c)) for _, c in mixed.on(None, 33, "retry", transient=[True])]
JAC = [("settings", dict(model=c, solves=2)) for _, c in mixed.on(None, 34, "settings")]
CONFIGS += PAIRS[::4] + JAC[::4]
THOROUGH = [c for i, c in enumerate(PAIRS) if i % 4] + [c for i, c in enumerate(JAC) if i % 4]
THOROUGH += [
    ("retry", dict(policy=dict(fails=3), model=dict(TR, T="xt"), steps=3)),
    ("retry", dict(policy=dict(fails=2, cap="fun"), model=dict(TR, T="xt"), steps=3)),
    ("retry", dict(policy=dict(fails=2), model=dict(marks=[1, 2], ids=[1, 2], chem=True, laws=["henry", "sievert"]), steps=3)),
    ("retry", dict(policy=dict(fails=2), model=dict(TR, T="heat", heat=dict(props="fun", dirichlets=[dict(surf=1, val="t")])), steps=3)),
    ("settings", dict(model=dict(dim=2, traps=[dict(mats=[0, 1], list=True), dict(mats=[1])], marks=[1, 2], ids=[1, 2], soret="fun"), solves=2)),
]
