"""C06: imposed concentrations."""
from . import mixed
from .common import Model

BOUNDS = "1D/2D/3D meshes of 2-3 volumes with up to 4 surfaces, up to 4 conditions of every kind on any species, parameters constant or affine in space and time, temperature affine in space and time, with and without chemical potential (Sievert and Henry materials), steady state and 2-3 time steps; plus an all-pairs covering set of feature combinations (mixed.py) and models with eight volumes, five materials, six traps and nine surfaces"


def imposed(W, cfg):
    M = Model(W, cfg)

    def check(ev, n):
        M.check_dirichlet(ev, n)
        if cfg.get("residual"):
            M.check_residual(ev, n)

    M.run(check)


def D(kind, surf, field=0, **k):
    return dict(kind=kind, surf=surf, field=field, **k)


HARNESSES = {"imposed": imposed}
CONFIGS = []
for tr in (True, False):
    v = "xt" if tr else "x"
    for ch in (None, ["sievert", "henry"], ["henry", "sievert"]):
        k = dict(transient=tr) if ch is None else dict(transient=tr, chem=True, laws=ch)
        CONFIGS += [
            ("imposed", dict(k, dirichlets=[D("value", [1, 2], val=v)])),
            ("imposed", dict(k, dirichlets=[D("custom", 1, val=v), D("sieverts", 2, val=v)])),
            ("imposed", dict(k, dirichlets=[D("henrys", 1, val=v), D("custom", 2)])),
            ("imposed", dict(k, dirichlets=[D("implant", 1, val=v), D("implant", 2, rec=True, val=v)])),
            ("imposed", dict(k, dirichlets=[D("implant", [1, 2], rec=True, dis=True, val=v)])),
        ]
uid = [dict(mats=[0], id=4), dict(mats=[0, 1], id=2)]
CONFIGS += [
    ("imposed", dict(traps=[dict(mats=[0]), dict(mats=[1])], dirichlets=[D("value", 1, 1, val="xt"), D("custom", [1, 2], "2", val="t"), D("sieverts", [1, 2], val="t")])),
    ("imposed", dict(traps=uid, dirichlets=[D("value", 1, 4, val="xt"), D("value", [1, 2], 2), D("henrys", 2, val="t")], steps=3)),
    ("imposed", dict(traps=[dict(mats=[0], id=4)], chem=True, dirichlets=[D("value", [1, 2], 4, val="xt"), D("value", [2], "solute", val="xt")])),
    ("imposed", dict(dim=2, bottoms=[3, 4], dirichlets=[D("value", [1, 4], val="xt"), D("sieverts", 3, val="xt"), D("custom", 2, val="x")])),
    ("imposed", dict(dim=2, bottoms=[3, 3], chem=True, laws=["henry", "sievert"], dirichlets=[D("value", [3], val="xt"), D("henrys", [1, 2], val="t")])),
    ("imposed", dict(dim=3, bottoms=[2, 5], dirichlets=[D("implant", [2, 5], rec=True, val="xt")], traps=[dict(mats=[1])])),
    ("imposed", dict(ids=[[1, 3], 2], marks=[1, 2, 3], laws=["henry", "sievert"], chem=True, dirichlets=[D("sieverts", [1, 2], val="t")])),
    ("imposed", dict(residual=True, dirichlets=[D("sieverts", [1], val="t")], fluxes=[dict(kind="recomb", surf=2, order=2)], traps=[dict(mats=[0])])),
    ("imposed", dict(T="x", chem=True, laws=["sievert", "henry"], dirichlets=[D("value", [1, 2], val="t")], steps=3)),
    ("imposed", dict(T="t", dirichlets=[D("sieverts", [1, 2]), D("custom", 1, 1)], traps=[dict(mats=[0])], steps=3, update_jacobian=False)),
]
# every pair of features of a model, with this one always present
CONFIGS += mixed.on("dirichlet", 16, "imposed")
# many of everything
CONFIGS += [("imposed", dict(c, residual=True)) for c in mixed.large()]
THOROUGH = [(h, dict(c, steps=3)) for h, c in mixed.on("dirichlet", 116, "imposed")]
CONFORM = [0, 6, 12, 18, 24, 31, 33, 34, 36, 45, 60, 75, 90]
