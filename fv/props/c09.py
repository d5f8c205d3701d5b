"""C09: evolving trap densities."""
from . import mixed
from .common import Model

BOUNDS = "1D/2D meshes of 2-3 volumes, up to 3 traps of which up to 2 have an evolving density (both laws), parameters constant or affine in space and time, temperature affine in space/time or solved, 3-4 time steps; plus an all-pairs covering set of feature combinations (mixed.py) and models with eight volumes, five materials, six traps and nine surfaces"


def evolve(W, cfg):
    M = Model(W, dict(dict(steps=3), **cfg))
    M.run(hcheck=M.check_heat if cfg.get("T") == "heat" else None)


HARNESSES = {"evolve": evolve}


def E(mats, kind="ext", prm="num", **k):
    return dict(mats=mats, kind=kind, prm=prm, **k)


CONFIGS = [
    ("evolve", dict(traps=[E([0])])),
    ("evolve", dict(traps=[E([0, 1], "neutron")])),
    ("evolve", dict(traps=[E([0], "ext", "xt")])),
    ("evolve", dict(traps=[E([1], "neutron", "xt")])),
    ("evolve", dict(traps=[E([0], "ext", ["t", "num", "x"]), E([1], "neutron", ["num", "t"])], steps=4)),
    ("evolve", dict(traps=[dict(mats=[1]), E([0, 1], "neutron", "t", id=6), dict(mats=[0], dens="t")])),
    ("evolve", dict(traps=[E([0, 1], "ext", "num", list=True), E([0], "neutron")], chem=True)),
    ("evolve", dict(traps=[E([0], "neutron", "t")], T="heat", heat=dict(sources=[dict(vol=1, kind="t")]))),
    ("evolve", dict(traps=[E([0], "neutron"), E([1], "ext")], dim=2, sources=[dict(vol=1, kind="decay", field="all")])),
    ("evolve", dict(traps=[E([0], "ext", "t")], ids=[[1, 3], 2], marks=[1, 2, 3], coords="spherical", T="t")),
    ("evolve", dict(traps=[E([0], "neutron", "t"), dict(mats=[0])], traps_element_type="DG", coords="cylindrical", update_jacobian=False)),
]
CONFIGS += [
    # parameters given as fenics expressions
    ("evolve", dict(traps=[E([0], "ext", ["f:xt", "num"]), E([1], "neutron", ["num", "f:t"])])),
]
# every pair of features of a model, with this one always present
CONFIGS += mixed.on(None, 19, "evolve", traps=["ext", "neutron"])
# many of everything
CONFIGS += [("evolve", dict(c)) for c in mixed.large(sources=[], dirichlets=[], fluxes=[], traps=[E([0, 1, 2, 3, 4], "ext", ["t", "num", "x"], list=True), E([4], "neutron", ["num", "t"]), dict(mats=[1, 3], id=9), E([0], "ext", "num"), E([2, 4, 0], "neutron", "t"), E([3, 1], "neutron", "num", id=3)])[:2]]
THOROUGH = [(h, dict(c, steps=3)) for h, c in mixed.on(None, 119, "evolve", traps=["ext", "neutron"])]
