"""C04: volumetric sources."""
from . import mixed
from .common import Model

BOUNDS = "1D/2D meshes of 2-3 volumes, up to 3 traps (automatic or user-defined numbers), up to 4 simultaneous sources, constant/space/time dependent values, implantation profiles with constant or time-dependent parameters, radioactive decay of any species, steady state and 2-3 time steps; plus an all-pairs covering set of feature combinations (mixed.py) and models with eight volumes, five materials, six traps and nine surfaces"


def sources(W, cfg):
    M = Model(W, cfg)
    M.run()


HARNESSES = {"sources": sources}
two = [dict(mats=[0]), dict(mats=[0, 1])]
uid = [dict(mats=[0], id=4), dict(mats=[0, 1], id=2)]


def S(vol, kind="num", field=0, **k):
    return dict(vol=vol, kind=kind, field=field, **k)


CONFIGS = [
    ("sources", dict(transient=False, sources=[S(1, "x")])),
    ("sources", dict(transient=False, sources=[S([1, 2], "num", "solute"), S(2, "x", "0")])),
    ("sources", dict(sources=[S(1, "xt"), S(2, "t"), S([2, 1], "x")], steps=3)),
    ("sources", dict(traps=two, sources=[S(1, "xt", 1), S(2, "t", "2"), S(1, "num", 0)])),
    ("sources", dict(traps=two, transient=False, sources=[S(1, "x", 1), S([1, 2], "num", 2)])),
    ("sources", dict(traps=uid, sources=[S(1, "xt", 4), S(2, "t", 2), S(2, "x", "2")])),
    ("sources", dict(traps=uid, sources=[S([1, 2], "decay", "all"), S(2, "decay", 4)])),
    ("sources", dict(traps=two, sources=[S(1, "decay", 0), S(1, "decay", 2), S(2, "decay", "1")])),
    ("sources", dict(traps=two, sources=[S(1, "decay", "all"), S(2, "xt", 0), S(1, "implant")])),
    ("sources", dict(traps=two, transient=False, sources=[S([1, 2], "decay", "all")])),
    ("sources", dict(sources=[S(1, "implant"), S(2, "implant", flux="t", sym=True)])),
    ("sources", dict(sources=[S([1, 2], "implant", flux="xt")], transient=True, coords="cylindrical")),
    ("sources", dict(transient=False, sources=[S(2, "implant", flux="x"), S(2, "decay")], coords="spherical")),
    ("sources", dict(ids=[[1, 3], 2], marks=[1, 2, 3], sources=[S([1, 3], "xt"), S(3, "decay"), S(2, "t")], traps=[dict(mats=[0])])),
    ("sources", dict(dim=2, sources=[S([1, 2], "xt"), S(2, "decay", "all")], traps=[dict(mats=[1], id=3)])),
    ("sources", dict(chem=True, laws=["sievert", "henry"], sources=[S([1, 2], "decay", "all"), S(2, "xt")], traps=[dict(mats=[0])])),
    ("sources", dict(traps=uid + [dict(mats=[1], id=7)], traps_element_type="DG", sources=[S(2, "xt", 7), S(1, "decay", "2"), S([1, 2], "t", "4")])),
    ("sources", dict(traps=two, soret="num", coords="cylindrical", sources=[S(1, "t", "solute"), S(2, "decay", 1)], update_jacobian=False)),
]
CONFIGS += [
    # values given as fenics expressions
    ("sources", dict(sources=[S([1, 2], "f:xt"), S(2, "t"), S(1, "f:t", 1)], traps=[dict(mats=[0])], steps=3)),
    ("sources", dict(transient=False, sources=[S(1, "f:x"), S([1, 2], "f:x", 2)], traps=two, coords="spherical")),
]
# every pair of features of a model, with this one always present
CONFIGS += mixed.on("sources", 14, "sources")
# many of everything
CONFIGS += [("sources", dict(c)) for c in mixed.large()]
THOROUGH = [(h, dict(c, steps=3)) for h, c in mixed.on("sources", 114, "sources")]
