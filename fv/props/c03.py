"""C03: conservation of chemical potential."""
from . import mixed
from .common import Model, check_exports

BOUNDS = "1D/2D meshes of 2-3 volumes, Sievert/Henry materials in any mix, steady state and 2-3 time steps, 3 coordinate systems, up to 2 traps, sources, flux conditions; temperature prescribed in space and time or computed (steady/transient, with and without heat sources and conditions); exports of mobile and retention at every step; plus an all-pairs covering set of feature combinations (mixed.py) and models with eight volumes, five materials, six traps and nine surfaces"


def chem(W, cfg):
    M = Model(W, dict(cfg, chem=True))
    exports, after = check_exports(W, M, ["solute", "retention"] + [str(t.obj_id) for t in M.tr])

    M.run(exports=exports, after=after)


HARNESSES = {"chem": chem}
SS, HH, SH, HS = (["sievert"] * 2, ["henry"] * 2, ["sievert", "henry"], ["henry", "sievert"])
CONFIGS = []
for laws in (SS, HH, SH, HS):
    for tr in (True, False):
        CONFIGS.append(("chem", dict(laws=laws, transient=tr)))
        sv = [i for i, q in enumerate(laws) if q == "sievert"]
        if sv:
            CONFIGS.append(("chem", dict(laws=laws, transient=tr, traps=[dict(mats=sv, list=True), dict(mats=sv[-1:])], soret="num")))
CONFIGS += [
    ("chem", dict(laws=SH, coords="cylindrical", soret="fun")),
    ("chem", dict(laws=HS, coords="spherical")),
    ("chem", dict(laws=HS, T="t")),
    ("chem", dict(laws=SH, dim=2, traps=[dict(mats=[0])])),
    ("chem", dict(laws=SH, ids=[[1, 3], 2], marks=[1, 2, 3], traps=[dict(mats=[0])])),
    ("chem", dict(laws=HS, ids=[[1, 3], 2], marks=[1, 2, 3], order=[1, 0], steps=3)),
    ("chem", dict(laws=HS, sources=[dict(vol=[1, 2], kind="decay"), dict(vol=2, kind="xt")], fluxes=[dict(kind="recomb", surf=[1, 2], order=2), dict(kind="mass", surf=2)])),
    ("chem", dict(laws=SH, transient=False, sources=[dict(vol=[1, 2], kind="decay")], fluxes=[dict(kind="custom", surf=[1, 2])])),
    ("chem", dict(laws=SH, T="x0", traps=[dict(mats=[0])])),
    ("chem", dict(laws=HS, T="x", traps=[dict(mats=[1])])),
    ("chem", dict(laws=["sievert", "henry", "sievert"], ids=[1, 2, 3], marks=[1, 2, 3], traps=[dict(mats=[2, 0], list=True)], traps_element_type="DG")),
    # a computed temperature, with and without sources and conditions of its own
    ("chem", dict(laws=SH, T="heat", heat=dict())),
    ("chem", dict(laws=HS, T="heat", heat=dict(dirichlets=[dict(surf=[1, 2], val="t")]), traps=[dict(mats=[1])])),
    ("chem", dict(laws=SH, T="heat", heat=dict(fluxes=[dict(kind="conv", surf=1, val="t")]), sources=[dict(vol=2, kind="t")])),
    ("chem", dict(laws=HS, T="heat", heat=dict(sources=[dict(vol=1)]), fluxes=[dict(kind="recomb", surf=1, order=2)])),
    ("chem", dict(laws=SH, T="heat", heat=dict(transient=False, dirichlets=[dict(surf=1)]), traps=[dict(mats=[0])])),
    ("chem", dict(laws=HS, transient=False, T="heat", heat=dict(sources=[dict(vol=[1, 2])], dirichlets=[dict(surf=2)]))),
    ("chem", dict(laws=SH, T="xt", steps=3)),
]
# every pair of features of a model, with this one always present
CONFIGS += mixed.on("chem", 13, "chem")
# many of everything
CONFIGS += [("chem", dict(c)) for c in mixed.large()[2:3]] + [("chem", dict(c)) for c in mixed.large(laws=["henry", "sievert", "henry", "henry", "sievert"], traps=[dict(mats=[4, 1], list=True), dict(mats=[1])], sources=[dict(vol=[1, 3, 8, 7])], dirichlets=[])[:2]]
THOROUGH = [(h, dict(c, steps=3)) for h, c in mixed.on("chem", 113, "chem")]
