"""C05: flux boundary conditions of the mobile species."""
from . import mixed
from .common import Model

BOUNDS = "1D/2D/3D meshes of 2-3 volumes with up to 4 surfaces, up to 4 simultaneous flux conditions of every kind, coefficients constant or affine in space and time, recombination orders 1, 2, 3, a non-integer symbolic order, with and without chemical potential and traps, steady state and 2-3 time steps; plus an all-pairs covering set of feature combinations (mixed.py) and models with eight volumes, five materials, six traps and nine surfaces"


def fluxes(W, cfg):
    M = Model(W, cfg)
    M.run(lambda ev, n: M.check_residual(ev, n, cells=cfg.get("cells", False)))


def B(kind, surf, **k):
    return dict(kind=kind, surf=surf, **k)


HARNESSES = {"fluxes": fluxes}
CONFIGS = []
for tr in (True, False):
    v = "xt" if tr else "x"
    CONFIGS += [
        ("fluxes", dict(transient=tr, fluxes=[B("flux", 1, val=v)], cells=True)),
        ("fluxes", dict(transient=tr, fluxes=[B("flux", [1, 2]), B("flux", 2, val=v)])),
        ("fluxes", dict(transient=tr, fluxes=[B("mass", [1, 2], val=v)])),
        ("fluxes", dict(transient=tr, fluxes=[B("recomb", 1, order=1), B("recomb", 2, order=2, val=v)])),
        ("fluxes", dict(transient=tr, fluxes=[B("recomb", [1, 2], order="sym")])),
        ("fluxes", dict(transient=tr, fluxes=[B("dissoc", [2], val=v), B("recomb", 2, order=2), B("flux", 1)])),
        ("fluxes", dict(transient=tr, fluxes=[B("custom", [1, 2], val=v)], cells=True)),
        ("fluxes", dict(transient=tr, chem=True, laws=["sievert", "henry"], fluxes=[B("recomb", [1, 2], order=2), B("mass", [1, 2]), B("custom", 2, val=v)])),
        ("fluxes", dict(transient=tr, traps=[dict(mats=[0, 1])], fluxes=[B("recomb", [1, 2], order=3), B("dissoc", 1, val=v), B("custom", 2)])),
    ]
CONFIGS += [
    ("fluxes", dict(dim=2, bottoms=[3, 4], fluxes=[B("flux", [1, 4], val="xt"), B("mass", [3]), B("recomb", [2, 3], order=2)])),
    ("fluxes", dict(dim=2, bottoms=[3, 3], chem=True, laws=["henry", "sievert"], fluxes=[B("recomb", [3], order=2, val="xt"), B("custom", [1, 3]), B("dissoc", 2)])),
    ("fluxes", dict(dim=3, bottoms=[1, 4], fluxes=[B("custom", [1, 4], val="xt"), B("flux", 4)], traps=[dict(mats=[1])])),
    ("fluxes", dict(fluxes=[B("flux", 1, val="t"), B("mass", 1, val="t"), B("recomb", 1, order=2, val="t"), B("dissoc", 1, val="t")], steps=3)),
    ("fluxes", dict(coords="cylindrical", fluxes=[B("flux", 1, val="t"), B("recomb", 2, order=2)])),
    ("fluxes", dict(coords="spherical", soret="num", fluxes=[B("mass", 1, val="t"), B("custom", 2)])),
    ("fluxes", dict(chem=True, T="x0", fluxes=[B("mass", [1, 2], val="t"), B("recomb", [1, 2], order=2)])),
]
# every pair of features of a model, with this one always present
CONFIGS += mixed.on("flux", 15, "fluxes")
# many of everything
CONFIGS += [("fluxes", dict(c)) for c in mixed.large()]
THOROUGH = [(h, dict(c, steps=3)) for h, c in mixed.on("flux", 115, "fluxes")]
