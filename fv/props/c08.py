"""C08: the heat equation."""
from . import mixed
from .common import Model, check_exports

BOUNDS = "1D/2D/3D meshes of 2-3 volumes, constant and temperature-dependent properties, up to 3 heat sources, flux/convective/user-defined heat fluxes and imposed temperatures affine in space and time, stationary and 2-3 time steps, 3 coordinate systems, coupled to transport with thermodiffusion, traps or chemical potential; plus an all-pairs covering set of feature combinations (mixed.py) and models with eight volumes, five materials, six traps and nine surfaces"


def heat(W, cfg):
    M = Model(W, dict(cfg, T="heat"))
    exports, after = check_exports(W, M, ["T", "solute"])
    comps = cfg.get("comps")
    M.run(lambda ev, n: M.check_residual(ev, n, comps=comps), hcheck=M.check_heat, exports=exports, after=after)


HARNESSES = {"heat": heat}


def Q(vol, kind="num"):
    return dict(vol=vol, kind=kind)


def B(kind, surf, val="num"):
    return dict(kind=kind, surf=surf, val=val)


def D(surf, val="num"):
    return dict(surf=surf, val=val)


CONFIGS = []
for tr, ht in ((True, True), (True, False), (False, False)):
    v = "xt" if ht else "x"
    for c in ("cartesian", "cylindrical", "spherical"):
        CONFIGS.append(("heat", dict(transient=tr, coords=c, heat=dict(transient=ht, props="fun" if c != "cylindrical" else "num", sources=[Q(1, v)], fluxes=[B("conv", 1, v)], dirichlets=[D(2, v)]))))
    CONFIGS += [
        ("heat", dict(transient=tr, heat=dict(transient=ht, props="num", sources=[Q([1, 2], v), Q(2)], fluxes=[B("flux", [1, 2], v), B("custom", 2, v)], dirichlets=[]), soret="num")),
        ("heat", dict(transient=tr, heat=dict(transient=ht, props="fun", fluxes=[B("flux", 1, v), B("conv", [1, 2], v)], dirichlets=[]), traps=[dict(mats=[0]), dict(mats=[0, 1])])),
        ("heat", dict(transient=tr, chem=True, laws=["sievert", "henry"], heat=dict(transient=ht, props="fun", dirichlets=[D(1, v), D(2, v)]))),
        ("heat", dict(transient=tr, dim=2, bottoms=[3, 4], heat=dict(transient=ht, props="fun", sources=[Q(2, v)], fluxes=[B("conv", [3], v), B("flux", [4, 2], v)], dirichlets=[D(1, v)]))),
    ]
CONFIGS += [
    ("heat", dict(dim=3, heat=dict(props="num", sources=[Q(1, "xt")], fluxes=[B("custom", [1, 3], "xt")]))),
    ("heat", dict(ids=[[1, 3], 2], marks=[1, 2, 3], heat=dict(props="fun", sources=[Q([3, 2], "t")], dirichlets=[D([1, 2], "t")]), soret="fun", steps=3)),
    ("heat", dict(dim=2, coords="cylindrical", heat=dict(props="fun", fluxes=[B("conv", [1, 2, 3], "t")]), fluxes=[dict(kind="recomb", surf=[1, 2], order=2)])),
    ("heat", dict(heat=dict(props="num", sources=[Q(1), Q(2, "t"), Q([1, 2], "xt")], fluxes=[B("flux", 1), B("flux", 1, "t"), B("conv", 1, "t"), B("custom", 1), B("custom", 1, "t")], dirichlets=[D(2, "t")]), steps=2)),
    ("heat", dict(heat=dict(props="num", sources=[Q(2, "t"), Q(1, "t")], fluxes=[B("conv", 1), B("conv", 2, "t")], dirichlets=[]), dim=2, steps=2)),
    ("heat", dict(heat=dict(sources=[Q(1)]), sources=[dict(vol=2, kind="t"), dict(vol=1, kind="decay")], dirichlets=[dict(kind="sieverts", surf=1)], update_jacobian=False)),
]
CONFIGS += [
    # heat sources given as fenics expressions
    ("heat", dict(heat=dict(sources=[Q(1, "f:xt"), Q([2, 1], "f:t")]), steps=3)),
    ("heat", dict(heat=dict(transient=False, sources=[Q(1, "f:x")]), transient=False)),
]
# every pair of features of a model, with this one always present
CONFIGS += mixed.on(None, 18, "heat", T=["heat0", "heatd", "heats", "heatss"])
# many of everything
CONFIGS += [("heat", dict(c)) for c in mixed.large(T="heat", heat=dict(props="fun", sources=[dict(vol=v, kind=k) for v, k in (([1, 8, 4, 6], "num"), (5, "t"), ([2, 7], "xt"), ([8, 3, 4], "t"))], fluxes=[dict(kind=k, surf=s, val=v) for k, s, v in (("flux", [3, 4, 9], "t"), ("conv", [5, 1, 4], "num"), ("conv", [4, 9], "t"), ("custom", [9, 5, 3], "t"), ("flux", 5, "num"), ("custom", 1, "num"))], dirichlets=[dict(surf=[2, 6], val="t"), dict(surf=7), dict(surf=[8], val="xt")]))[::2]]
THOROUGH = [(h, dict(c, steps=3)) for h, c in mixed.on(None, 118, "heat", T=["heat0", "heatd", "heats", "heatss"])]
CONFORM = [0, 1, 5, 8, 12, 16, 18, 22, 27, 28, 45, 60, 75, 90]
