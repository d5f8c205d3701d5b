"""C01: bulk transport of mobile hydrogen (Fick + Soret, every coordinate system)."""
from . import mixed
from .common import Model

BOUNDS = "1D/2D/3D meshes of 2-3 volumes, up to 3 materials (one covering two volumes), steady state and 2-3 time steps, cartesian/cylindrical/spherical, with and without thermodiffusion (constant or temperature-dependent heat of transport), temperature affine in space and time, with and without traps; plus an all-pairs covering set of feature combinations (mixed.py) and models with eight volumes, five materials, six traps and nine surfaces"
ASSUMPTIONS = ["no interior facet carries a flux term other than through the volume integrals (the weak form is compared pointwise in volumes and on the boundary)"]


def transport(W, cfg):
    M = Model(W, cfg)
    M.run(lambda ev, n: M.check_residual(ev, n, comps=[0]))


HARNESSES = {"transport": transport}
CONFIGS = []
for c in ("cartesian", "cylindrical", "spherical"):
    for tr in (True, False):
        for s in (None, "num", "fun"):
            CONFIGS.append(("transport", dict(coords=c, transient=tr, soret=s)))
CONFIGS += [
    ("transport", dict(dim=2, soret="num")),
    ("transport", dict(dim=2, transient=False)),
    ("transport", dict(dim=3, soret="fun")),
    ("transport", dict(dim=3, transient=False)),
    ("transport", dict(dim=2, coords="cylindrical", soret="num")),
    ("transport", dict(dim=2, coords="cylindrical", transient=False)),
    ("transport", dict(ids=[[1, 3], 2], marks=[1, 2, 3], soret="fun")),
    ("transport", dict(ids=[[1, 3], 2], marks=[1, 2, 3], transient=False)),
    ("transport", dict(ids=[3, 1, 2], marks=[1, 2, 3], order=[1, 2, 0], soret="num", steps=3)),
    ("transport", dict(ids=[7, 4], marks=[4, 7], T="x", steps=3)),
    ("transport", dict(ids=[1], marks=[1], T="t", steps=3, coords="cylindrical")),
    ("transport", dict(ic=[], soret="num", update_jacobian=False)),
    ("transport", dict(soret="num", traps=[dict(mats=[0]), dict(mats=[1, 0], list=True)], coords="cylindrical")),
    ("transport", dict(soret="fun", traps=[dict(mats=[1])], coords="spherical", transient=False, traps_element_type="DG")),
    ("transport", dict(soret="num", traps=[dict(mats=[0])], sources=[dict(vol=1, kind="xt")], fluxes=[dict(kind="flux", surf=[1, 2])])),
    ("transport", dict(soret="num", sources=[dict(vol=[1, 2], kind="x")], fluxes=[dict(kind="recomb", surf=2, order=2)], transient=False)),
]
# every pair of features of a model, with this one always present
CONFIGS += mixed.on(None, 11, "transport")
# many of everything
CONFIGS += [("transport", dict(c)) for c in mixed.large()]
THOROUGH = [
    ("transport", dict(dim=d, coords=c, soret=s, transient=tr, steps=4, ids=[[1, 3], 2], marks=[1, 2, 3], npts=2, traps=[dict(mats=[0])]))
    for d in (1, 2, 3)
    for c in ("cartesian", "cylindrical", "spherical")
    for s in (None, "num", "fun")
    for tr in (True, False)
    if (d, c) in ((1, "cartesian"), (1, "cylindrical"), (1, "spherical"), (2, "cartesian"), (2, "cylindrical"), (3, "cartesian"))
]
THOROUGH += [(h, dict(c, steps=3)) for h, c in mixed.on(None, 111, "transport")]
CONFORM = [1, 4, 8, 13, 18, 20, 24, 30, 45, 60, 75, 90]
