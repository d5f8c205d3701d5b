"""C02: trapping kinetics and exact exchange with the mobile population."""
from . import mixed
from .common import Model

BOUNDS = "1D/2D meshes, up to 3 materials (one with two volume ids), up to 3 traps, steady state and 2 time steps, 3 coordinate systems, CG and DG traps; plus an all-pairs covering set of feature combinations (mixed.py) and models with eight volumes, five materials, six traps and nine surfaces"
ASSUMPTIONS = []


def trapping(W, cfg):
    M = Model(W, cfg)

    def check(ev, n):
        M.check_residual(ev, n)
        # exchange: what leaves the mobile population enters the traps, at every point,
        # whatever the traps' own parameters: summed residual has no trapping term
        for p in W.cellpts():
            m = M.by_mark[p.mark]
            bulk = [0] + [tr.comp for tr in M.tr]
            tot = sum(W.wf(ev.F, p, k)[0] for k in bulk)
            want = 0
            c = M.mobile_at(ev, p, n, m)
            if M.transient:
                want = (c - M.prev_conc(n, p, m)) / M.dt
                for k in bulk[1:]:
                    want = want + (ev.sol.val(k, p) - M.prev(n, k, p)) / M.dt
            else:
                for tr in M.tr:
                    if m.idx not in tr.mats:
                        want = want + ev.sol.val(tr.comp, p)
            for s in M.src:
                if p.mark in s.vol:
                    for k in s.comps:
                        want = want - s.ref(p.x, M.time(n), ev.sol.val(k, p) if k else c)
            if M.coords == "cartesian":
                W.check_eq("total hydrogen balance (%s, step %d)" % (p.name, n), tot, want)

    M.run(check)


HARNESSES = {"trapping": trapping}
one = [dict(mats=[0])]
CONFIGS = []
for tr in (True, False):
    CONFIGS += [
        ("trapping", dict(transient=tr, traps=one)),
        ("trapping", dict(transient=tr, traps=[dict(mats=[0, 1])])),
        ("trapping", dict(transient=tr, traps=[dict(mats=[1, 0], list=True, dens="x")])),
        ("trapping", dict(transient=tr, traps=[dict(mats=[0], dens="xt"), dict(mats=[1]), dict(mats=[0, 1], list=True)])),
        ("trapping", dict(transient=tr, ids=[[1, 3], 2], marks=[1, 2, 3], traps=[dict(mats=[0]), dict(mats=[1])])),
        ("trapping", dict(transient=tr, chem=True, traps=[dict(mats=[0, 1], list=True), dict(mats=[1])])),
    ]
CONFIGS += [
    ("trapping", dict(transient=True, dim=2, traps=[dict(mats=[1]), dict(mats=[0, 1])])),
    ("trapping", dict(transient=True, coords="cylindrical", traps=[dict(mats=[1], dens="t")], traps_element_type="DG")),
    ("trapping", dict(transient=True, coords="spherical", traps=[dict(mats=[0, 1], dens="x")])),
    ("trapping", dict(transient=True, ids=[1, 2, 3], marks=[1, 2, 3], order=[2, 0, 1], traps=[dict(mats=[2, 0], list=True, ref="obj"), dict(mats=[1])])),
    ("trapping", dict(transient=True, traps=[dict(mats=[0]), dict(mats=[1])], ic=["mobile", 2])),
    ("trapping", dict(transient=True, traps=[dict(mats=[0], dens="t"), dict(mats=[1])], update_jacobian=False)),
]
CONFIGS += [
    # densities given as fenics expressions
    ("trapping", dict(transient=True, traps=[dict(mats=[0], dens="f:xt"), dict(mats=[1, 0], list=True, dens="f:t")])),
    ("trapping", dict(transient=False, traps=[dict(mats=[0, 1], dens="f:x"), dict(mats=[1], dens="num")])),
]
# every pair of features of a model, with this one always present
CONFIGS += mixed.on("traps", 12, "trapping", skip=("ext", "neutron"))
# many of everything
CONFIGS += [("trapping", dict(c)) for c in mixed.large()]
THOROUGH = [(h, dict(c, steps=3)) for h, c in mixed.on("traps", 112, "trapping", skip=("ext", "neutron"))]
