"""C07: surface kinetics."""
from . import mixed
from .common import Model

BOUNDS = "1D meshes of 2-3 volumes, one or two surfaces, one or two conditions, constant and user-defined rate laws (polynomial in temperature, coverage, concentration and two parameters affine in space/time), up to 2 traps, with and without chemical potential, steady state and 2-3 time steps; plus an all-pairs covering set of feature combinations (mixed.py)"


def kinetics(W, cfg):
    F = W.F
    M = Model(W, cfg)
    surfs = [(k.surf, k) for k in M.kin]
    dq = F.DerivedQuantities([F.AdsorbedHydrogen(s) for s, _ in surfs], show_units=False)

    def after(n):
        for q, (s, k) in zip(dq, surfs):
            p = W.facetpts(s)[0]
            if len(q.data) != n:
                W.fail("adsorbed hydrogen recorded once per step")
                return
            W.check_eq("adsorbed hydrogen reported on surface %d (step %d)" % (s, n), q.data[-1], M.hist[n - 1].sol.val(k.comp, p))

    def check(ev, n):
        M.check_residual(ev, n)
        # hydrogen leaving the bulk reaches the surface: with no gas exchange the sum of
        # the boundary terms is the change of what is stored on the surface
        for k in M.kin:
            p = W.facetpts(k.surf)[0]
            A0 = W.wf(ev.F, p, 0)[0]
            As = W.wf(ev.F, p, k.comp)[0]
            m = M.mat_of_facet(p)
            T = M.T(p, n)
            c = M.conc(m, ev.sol.val(0, p), T)
            cs = ev.sol.val(k.comp, p)
            Jvs = k.rates(p.x, M.time(n), T, cs, c)[2]
            want = -Jvs
            if M.transient:
                prev = k.init if n == 1 else M.hist[n - 2].sol.val(k.comp, p)
                want = want + (cs - prev) / M.dt + k.lam * (c - M.prev_conc(n, p, m)) / M.dt
            for surfs2, ref in M.bcs:
                if k.surf in surfs2:
                    want = want - ref(p.x, M.time(n), T, c)
            if sum(1 for q in M.kin if q.surf == k.surf) == 1:
                W.check_eq("exchange between surface %d and bulk (step %d)" % (k.surf, n), A0 + As, want)

    M.run(check, exports=[dq], after=after)


def K(surf, **k):
    return dict(surf=surf, **k)


HARNESSES = {"kinetics": kinetics}
CONFIGS = []
for tr in (True, False):
    for ch in ({}, dict(chem=True, laws=["sievert", "henry"])):
        CONFIGS += [
            ("kinetics", dict(ch, transient=tr, kinetics=[K([1], fun=False)])),
            ("kinetics", dict(ch, transient=tr, kinetics=[K([1, 2], a="t" if tr else "num")])),
            ("kinetics", dict(ch, transient=tr, kinetics=[K(2, b="t" if tr else "num"), K(1, fun=False)], traps=[dict(mats=[0])])),
        ]
CONFIGS += [
    ("kinetics", dict(kinetics=[K([2, 1])], traps=[dict(mats=[0]), dict(mats=[1], id=5)], steps=3)),
    ("kinetics", dict(kinetics=[K([1], a="xt", b="t")], coords="spherical", soret="num", traps_element_type="DG", traps=[dict(mats=[1])])),
    ("kinetics", dict(kinetics=[K([1], a="t")], dirichlets=[dict(kind="sieverts", surf=2)], sources=[dict(vol=1, kind="xt")], update_jacobian=False)),
    ("kinetics", dict(kinetics=[K([2])], chem=True, T="x0", traps=[dict(mats=[0])])),
    ("kinetics", dict(kinetics=[K([1]), K([2])], ids=[[1, 3], 2], marks=[1, 2, 3], coords="cylindrical")),
]
# every pair of features of a model, with this one always present
CONFIGS += mixed.on("kinetics", 17, "kinetics")
THOROUGH = [(h, dict(c, steps=3)) for h, c in mixed.on("kinetics", 117, "kinetics")]
