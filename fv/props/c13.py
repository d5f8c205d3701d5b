"""C13: time-dependent inputs are evaluated at the time being solved for."""
from . import mixed
from .stepping import Policy

BOUNDS = "2-3 accepted steps of varying size, up to 2 diverging solves at arbitrary positions; every kind of time-dependent input affine in time (and space), 1D and 2D models of 1-2 volumes; plus a third (thorough: all) of an all-pairs covering set of feature combinations in 1D-3D (mixed.py) and models with eight volumes, five materials, six traps and nine surfaces"


def times(W, cfg):
    P = Policy(W, dict(dict(long=True, adaptive=True, fails=1), **cfg.get("policy", {})))
    F = W.F
    fields = cfg.get("fields", [])
    ex = [F.XDMFExport(fl, filename="f%d.xdmf" % i, mode=1, checkpoint=False) for i, fl in enumerate(fields)]
    M = P.model(W, base={}, exports=ex, **cfg.get("model", {}))

    def check(ev, n, att):
        M.check_residual(ev, n, tag="attempt %d: " % att)
        M.check_dirichlet(ev, n)

    def accepted(n):
        for i, fl in enumerate(fields):
            r = [r for r in W.files if r.filename == "f%d.xdmf" % i][-1]
            for p in W.cellpts():
                W.check_eq("exported %s (%s, step %d)" % (fl, p.name, n), r.vals[p], M.field(fl, p, n))

    st = dict(fail=False)

    def outcome(n, att):
        it, conv = P.outcome(n, att)
        st["fail"] = not conv
        return it, conv

    try:
        M.march(cfg.get("steps", 2), outcome, check=check, hcheck=M.check_heat if M.Tkind == "heat" else None, accepted=accepted, cut=None if cfg.get("whole") else (lambda n: None))
    except ValueError:
        if not st["fail"]:
            raise


HARNESSES = {"times": times}
ONE = dict(marks=[1], ids=[1])
TWO = dict(marks=[1, 2], ids=[1, 2])
TS = dict(T="xt")


def C(model, **k):
    return ("times", dict(model=model, **k))


CONFIGS = [
    C(dict(ONE, T="xt"), fields=["T", "solute"], whole=True),
    C(dict(ONE, T="t", traps=[dict(mats=[0], dens="t")]), steps=3),
    C(dict(TWO, T="x", traps=[dict(mats=[0, 1], dens="xt", list=True)])),
    C(dict(ONE, T="xt", sources=[dict(vol=1, kind="t"), dict(vol=1, kind="implant", flux="t", sym=True)])),
    C(dict(TWO, T="x0", sources=[dict(vol=[1, 2], kind="xt"), dict(vol=2, kind="t", field="1")], traps=[dict(mats=[1])])),
    C(dict(ONE, T="t", fluxes=[dict(kind="flux", surf=1, val="t"), dict(kind="recomb", order=2, surf=2, val="t")])),
    C(dict(ONE, T="x", fluxes=[dict(kind="mass", surf=[1, 2], val="t"), dict(kind="dissoc", surf=2, val="t"), dict(kind="custom", surf=1, val="t")])),
    C(dict(ONE, T="t", dirichlets=[dict(kind="value", surf=1, val="t"), dict(kind="custom", surf=2, val="t")])),
    C(dict(ONE, T="t", dirichlets=[dict(kind="sieverts", surf=1, val="t"), dict(kind="henrys", surf=2, val="t")])),
    C(dict(ONE, T="t", dirichlets=[dict(kind="implant", surf=1, val="t", rec=True, dis=True)])),
    C(dict(TWO, T="t", chem=True, dirichlets=[dict(kind="value", surf=1, val="t"), dict(kind="sieverts", surf=2, val="t")])),
    C(dict(ONE, T="t", kinetics=[dict(surf=[1], a="t", b="t")])),
    C(dict(ONE, T="heat", heat=dict(sources=[dict(vol=1, kind="t")], fluxes=[dict(kind="flux", surf=1, val="t"), dict(kind="conv", surf=2, val="t")])), fields=["T"], whole=True),
    C(dict(ONE, T="heat", heat=dict(fluxes=[dict(kind="custom", surf=1, val="t")], dirichlets=[dict(surf=2, val="t")]), traps=[dict(mats=[0], kind="neutron", prm="t")])),
    C(dict(ONE, T="xt", traps=[dict(mats=[0], kind="ext", prm="t"), dict(mats=[0], kind="neutron", prm="t")]), steps=3),
    # several inputs of the same kind
    C(dict(TWO, T="t", traps=[dict(mats=[0], dens="num"), dict(mats=[1], dens="t"), dict(mats=[0, 1], dens="t", list=True)], sources=[dict(vol=1, kind="num"), dict(vol=2, kind="t"), dict(vol=1, kind="t"), dict(vol=1, kind="num", field="2"), dict(vol=2, kind="t", field="2"), dict(vol=1, kind="t", field="3")])),
    C(dict(ONE, T="t", fluxes=[dict(kind=k, surf=1, val=v, **(dict(order=2) if k == "recomb" else {})) for k in ("flux", "recomb", "mass", "dissoc", "custom") for v in ("num", "t")])),
    C(dict(ONE, T="t", traps=[dict(mats=[0]), dict(mats=[0])], dirichlets=[dict(kind="value", surf=1), dict(kind="value", surf=2, val="t"), dict(kind="value", surf=1, val="t", field=1), dict(kind="custom", surf=2, val="t", field=1), dict(kind="custom", surf=1, field=2), dict(kind="value", surf=2, val="t", field=2)])),
    C(dict(ONE, T="t", kinetics=[dict(surf=[1], a="num", b="t"), dict(surf=[2], a="t", b="num")])),
    C(dict(TWO, T="heat", heat=dict(sources=[dict(vol=1, kind="num"), dict(vol=2, kind="t"), dict(vol=1, kind="t")], fluxes=[dict(kind="flux", surf=1, val="num"), dict(kind="flux", surf=1, val="t"), dict(kind="conv", surf=1, val="num"), dict(kind="conv", surf=1, val="t"), dict(kind="custom", surf=1, val="t")], dirichlets=[dict(surf=2, val="t")]))),
    C(dict(ONE, T="xt", traps=[dict(mats=[0], kind="ext", prm="num"), dict(mats=[0], kind="ext", prm="t"), dict(mats=[0], kind="neutron", prm="t")])),
    C(dict(ONE, T="t", dim=2, sources=[dict(vol=1, kind="xt")], fluxes=[dict(kind="flux", surf=3, val="xt")], dirichlets=[dict(kind="value", surf=1, val="xt")])),
]
CONFIGS += [
    # inputs given as fenics expressions
    C(dict(TWO, T="t", traps=[dict(mats=[0], dens="f:t"), dict(mats=[1], kind="ext", prm=["f:t", "num"])], sources=[dict(vol=1, kind="f:t"), dict(vol=2, kind="f:xt", field="1")])),
    C(dict(ONE, T="heat", heat=dict(sources=[dict(vol=1, kind="f:t")]), traps=[dict(mats=[0], kind="neutron", prm="f:t")])),
]
# feature combinations (an all-pairs covering set; a third of it on every change)
PAIRS = [("times", dict(model=c)) for _, c in mixed.on(None, 23, "times", transient=[True], T=["xt", "t", "heatd", "heats"])]
CONFIGS += PAIRS[::3]
# many of everything
CONFIGS += [("times", dict(model=c)) for c in mixed.large()[1:2]]
THOROUGH = [("times", dict(model=c)) for c in mixed.large()[:3:2]] + [
    C(dict(TWO, T="xt", traps=[dict(mats=[0], dens="t"), dict(mats=[1], kind="neutron", prm="t")], sources=[dict(vol=2, kind="t", field="2")], fluxes=[dict(kind="recomb", order=2, surf=1, val="t")], dirichlets=[dict(kind="value", surf=2, val="t", field=1)]), steps=3, policy=dict(fails=2)),
    C(dict(TWO, T="heat", heat=dict(props="fun", sources=[dict(vol=2, kind="t")], dirichlets=[dict(surf=1, val="t")]), chem=True, laws=["sievert", "henry"]), steps=3, policy=dict(fails=2)),
    C(dict(ONE, T="t", soret="num", dirichlets=[dict(kind="sieverts", surf=1, val="t")], fluxes=[dict(kind="flux", surf=2, val="t")]), steps=4, policy=dict(fails=2)),
]
THOROUGH += [c for i, c in enumerate(PAIRS) if i % 3]
