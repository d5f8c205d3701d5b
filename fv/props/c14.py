"""C14: initial conditions."""
from . import mixed
from .common import Model

BOUNDS = "1D/2D meshes of 1-3 volumes, up to 3 traps (automatic and user-defined numbers), 1-2 adsorbed species, initial values given as numbers, expressions of space (and time) or stored fields, both formulations, first two solves; plus an all-pairs covering set of feature combinations (mixed.py) and models with eight volumes, five materials, six traps and nine surfaces"


def start(W, cfg):
    M = Model(W, dict(dict(steps=2), **cfg))

    def check(ev, n):
        M.check_residual(ev, n)
        if n == 1:
            # with no unknown changing, the storage terms are those of the initial state
            W.cover.add("first")

    M.run(check=check, hcheck=M.check_heat if cfg.get("T") == "heat" else None)


HARNESSES = {"start": start}


def I(sp, kind="x", **k):
    return dict(sp=sp, kind=kind, **k)


T1, T2 = dict(mats=[0]), dict(mats=[1])
ONE = dict(marks=[1], ids=[1])
CONFIGS = [
    ("start", dict(ic=[])),
    ("start", dict(ic=[I(0, "num")])),
    ("start", dict(ic=[I(0, "xt", field="solute")])),
    ("start", dict(ic=[I(0, "xdmf", field="0")])),
    ("start", dict(traps=[T1, T2], ic=[I(2, "num")])),
    ("start", dict(traps=[T1, T2], ic=[I(1, field="1"), I(0)])),
    ("start", dict(traps=[dict(T1, id=7), dict(T2, id=3)], ic=[I(1, "num"), I(2, "x", field="3")])),
    ("start", dict(traps=[dict(T1, id=2), dict(T2, id=1), dict(mats=[0, 1])], ic=[I(1, "xdmf"), I(2, "num"), I(3, "x"), I(0, "xdmf", step=5)])),
    ("start", dict(traps=[T1, T2], ic=[I(2, "xdmf"), I(1, "xdmf"), I(0, "x")], traps_element_type="DG")),
    ("start", dict(chem=True, ic=[I(0, "num")])),
    ("start", dict(chem=True, laws=["henry", "sievert"], ic=[I(0, "x")])),
    ("start", dict(chem=True, laws=["sievert", "henry"], ic=[I(0, "xdmf")], T="t")),
    ("start", dict(chem=True, traps=[T1, dict(T2, id=9)], ic=[I(2), I(0), I(1, "num")])),
    ("start", dict(chem=True, ids=[[1, 3], 2], marks=[1, 2, 3], laws=["henry", "henry"], ic=[I(0, "x")], T="x")),
    ("start", dict(ONE, kinetics=[dict(surf=[1]), dict(surf=[2])], traps=[T1], ic=[I(1), I(0, "num")])),
    ("start", dict(ONE, kinetics=[dict(surf=[1, 2])], ic=[I(0, "x")])),
    ("start", dict(ONE, T="heat", heat=dict(ic="xdmf"), ic=[I(0)])),
    ("start", dict(ONE, T="heat", heat=dict(ic="num"), ic=[I(0)], chem=True)),
    ("start", dict(ONE, T="heat", heat=dict(ic="xt"), ic=[I(0)])),
    ("start", dict(T="xdmf", ic=[I(0)], traps=[T1])),
    ("start", dict(T="xdmf", ic=[I(0)], chem=True, laws=["sievert", "henry"])),
    ("start", dict(dim=2, traps=[T1, T2], ic=[I(2, "x"), I(0, "xt")])),
    ("start", dict(ONE, traps=[dict(mats=[0], kind="neutron"), T1], ic=[I(1, "num"), I(2, "x")], steps=2)),
]


def starts(rows):
    """covering set in which the given species and the way they are given vary"""
    out = []
    for i, (h, c) in enumerate(rows):
        n = len(c["traps"])
        sp = [k for k in ([0] + list(range(1, n + 1)))[:: 1 if i % 2 else -1] if (i + k) % 4]
        ic = [I(k, ["num", "x", "xt", "xdmf"][(i + j) % 4]) for j, k in enumerate(sp)]
        out.append((h, dict(c, ic=ic)))
    return out


# feature combinations: an all-pairs covering set
CONFIGS += starts(mixed.on(None, 41, "start", transient=[True]))
# many of everything
CONFIGS += [("start", dict(c, ic=[I(k, ["num", "x", "xt", "xdmf"][k % 4]) for k in (4, 6, 0, 1, 3, 5)])) for c in mixed.large(sources=[], fluxes=[], dirichlets=[])[:3]]
THOROUGH = [(h, dict(c, steps=3)) for h, c in starts(mixed.on("traps", 42, "start", transient=[True]))]
