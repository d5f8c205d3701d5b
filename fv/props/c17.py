"""C17: integral derived quantities."""
from math import pi as PI

from . import mixed
from .common import Model

BOUNDS = "1D/2D/3D meshes of 2-3 volumes with one or two integration points per cell and one per facet, each with an arbitrary position and an arbitrary positive weight; every total/average/flux class of the three coordinate systems, angular ranges arbitrary within the accepted ones, all fields, quantities spread over one or two tables, 1-3 computations; the integrals themselves are represented by these weighted sums; plus an all-pairs covering set of feature combinations (mixed.py) and models with eight volumes, five materials, six traps and nine surfaces"

VOL, SURF = ("TotalVolume", "AverageVolume"), ("TotalSurface", "AverageSurface", "SurfaceFlux")


def expected(W, M, q, n):
    kind, fl, at = q["kind"], q["field"], q["at"]
    suffix = "Cylindrical" if "Cylindrical" in kind else "Spherical" if "Spherical" in kind else ""
    base = kind[: len(kind) - len(suffix)]
    # measure of the coordinate system
    g = {"": lambda p: 1, "Cylindrical": lambda p: p.x[0], "Spherical": lambda p: p.x[0] * p.x[0]}[suffix]
    vol = base in VOL
    pts = W.cellpts(at) if vol else W.facetpts(at)
    if base.startswith("Total") or base.startswith("Average"):
        tot = sum(p.w * g(p) * M.field(fl, p, n) for p in pts)
        if base.startswith("Average"):
            return tot, sum(p.w * g(p) for p in pts)
        return tot * q["angle"], 1
    # fluxes
    tot = 0
    thermal = fl == "T"
    for p in pts:
        m = M.mat_at(p)
        T = M.T(p, n)
        if thermal:
            prop = m.kth(T)
        else:
            prop = W.arr(m.D0, m.ED, T)
        for i in range(W.dim):
            if thermal:
                G = M.Tgrad(p, n, i)
            elif M.chem:
                G = W.grad(M.sim.mobile.post_processing_solution, p, i)
            else:
                G = M.hist[n - 1].sol.grad(0, p, i)
            J = prop * G
            if M.soret and not thermal:
                J = J + prop * M.field("solute", p, n) * m.Q(T) / (W.K_B * T * T) * M.Tgrad(p, n, i)
            tot = tot + p.w * g(p) * J * p.n[i]
    return tot * q["angle"], 1


def ranges(W, q, i):
    """keyword arguments of the angular ranges and the angle they cover"""
    kind = q["kind"]
    if "rng" not in q:
        q["angle"] = 2 * PI if "Cylindrical" in kind else 4 * PI if "Spherical" in kind else 1
        return {}
    names = q["rng"]
    kw, ang = {}, 1
    sph_flux = kind == "SurfaceFluxSpherical"
    for nm in names:
        if nm == "azimuth":
            lo, hi = 0, PI if sph_flux else 2 * PI
        else:
            lo, hi = (-PI, PI) if sph_flux else (0, PI)
        a, b = W.real("%s%d_a" % (nm, i), lo=lo + 0.1, hi=1.0), W.real("%s%d_b" % (nm, i), lo=1.2, hi=3.0)
        W.assume(a >= lo)
        W.assume(b <= hi)
        W.assume(a <= b)
        kw[nm + "_range"] = (a, b)
        # the angle measured from the pole enters through its cosine
        pole = nm == ("azimuth" if sph_flux else "polar") and "Spherical" in kind
        ang = ang * (W.cos(a) - W.cos(b) if pole else b - a)
    if "Spherical" in kind and len(names) == 1:
        other = "polar" if names[0] == "azimuth" else "azimuth"
        ang = ang * (2 if other == ("azimuth" if sph_flux else "polar") else 2 * PI)
    q["angle"] = ang
    return kw


def integrals(W, cfg):
    F = W.F
    qs = [dict(q) for q in cfg["q"]]
    M = Model(W, dict(dict(weights=True), **cfg.get("model", {})))
    objs = []
    for i, q in enumerate(qs):
        kw = ranges(W, q, i)
        cls = q["kind"]
        if cls in ("HydrogenFlux", "ThermalFlux"):
            objs.append(getattr(F, cls)(surface=q["at"]))
            q["field"] = "T" if cls == "ThermalFlux" else "solute"
            q["kind"] = "SurfaceFlux"
        else:
            objs.append(getattr(F, cls)(q["field"], q["at"], **kw))
    tables = [F.DerivedQuantities(part, show_units=False) for part in (objs[::2], objs[1::2]) if part]

    def after(n):
        for i, (q, o) in enumerate(zip(qs, objs)):
            if len(o.data) != n:
                W.fail("%s recorded once per step" % q["kind"])
                continue
            num, den = expected(W, M, q, n)
            W.check_eq("%s of %s on %s (step %d)" % (cfg["q"][i]["kind"], q["field"], q["at"], n), o.data[-1] * den, num)

    M.run(lambda ev, n: None, exports=[F.XDMFExport("T", filename="other.xdmf", checkpoint=False)] + tables, after=after)
    # the quantities computed on their own, with what they were given
    n = len(M.hist) if cfg.get("alone") else 0
    for i, (q, o) in enumerate(zip(qs, objs)):
        if n:
            if hasattr(o, "r"):
                o.r = None
            num, den = expected(W, M, q, n)
            W.check_eq("%s of %s on %s computed again" % (cfg["q"][i]["kind"], q["field"], q["at"]), o.compute() * den, num)


HARNESSES = {"integrals": integrals}


def I(kind, field, at, *rng):
    return dict(dict(kind=kind, field=field, at=at), **(dict(rng=list(rng)) if rng else {}))


def C(q, **model):
    return ("integrals", dict(q=q, model=model))


TR = [dict(mats=[0]), dict(mats=[0, 1])]
CONFIGS = [
    # volumes
    C([I("TotalVolume", "solute", 1), I("AverageVolume", "solute", 1), I("TotalVolume", "solute", 2), I("AverageVolume", 0, 2)], npts=2),
    C([I("TotalVolume", "retention", 1), I("AverageVolume", "retention", 2), I("TotalVolume", "1", 1), I("AverageVolume", 2, 1), I("TotalVolume", "T", 2), I("AverageVolume", "T", 1)], traps=TR),
    C([I("TotalVolume", "retention", 2), I("TotalVolume", "0", 1), I("AverageVolume", "retention", 1), I("AverageVolume", "T", 2)], traps=TR, chem=True, dim=2),
    C([I("TotalVolume", "solute", 3), I("AverageVolume", "solute", 1), I("TotalVolume", "T", 1)], ids=[[1, 3], 2], marks=[1, 2, 3], T="heat", heat={}, transient=False),
    C([I("TotalVolumeCylindrical", "solute", 1, "azimuth"), I("AverageVolumeCylindrical", "solute", 1), I("TotalVolumeCylindrical", "retention", 2), I("AverageVolumeCylindrical", "T", 2)], coords="cylindrical", traps=TR, npts=2),
    C([I("TotalVolumeCylindrical", "1", 1, "azimuth"), I("AverageVolumeCylindrical", "retention", 2)], coords="cylindrical", traps=TR, dim=2, transient=False),
    C([I("TotalVolumeSpherical", "solute", 1, "azimuth", "polar"), I("AverageVolumeSpherical", "solute", 2), I("TotalVolumeSpherical", "T", 2), I("AverageVolumeSpherical", "T", 1)], coords="spherical", npts=2),
    C([I("TotalVolumeSpherical", "retention", 1, "polar"), I("AverageVolumeSpherical", "retention", 2), I("TotalVolumeSpherical", "1", 2, "azimuth")], coords="spherical", traps=TR, chem=True),
    # surfaces
    C([I("TotalSurface", "solute", 1), I("AverageSurface", "solute", 3), I("TotalSurface", "retention", 3), I("AverageSurface", "retention", 2), I("AverageSurface", "T", 3), I("TotalSurface", 1, 3)], dim=2, traps=TR),
    C([I("TotalSurface", "solute", 2), I("AverageSurface", "T", 1), I("TotalSurface", "T", 4)], dim=3, bottoms=[3, 4], chem=True, laws=["sievert", "henry"]),
    C([I("TotalSurfaceCylindrical", "solute", 2, "azimuth"), I("AverageSurfaceCylindrical", "solute", 3), I("TotalSurfaceCylindrical", "T", 3), I("AverageSurfaceCylindrical", "retention", 1)], coords="cylindrical", dim=2, traps=TR),
    C([I("TotalSurfaceSpherical", "solute", 2, "azimuth", "polar"), I("AverageSurfaceSpherical", "solute", 1), I("TotalSurfaceSpherical", "T", 1), I("TotalSurfaceSpherical", "retention", 2, "polar")], coords="spherical", traps=TR),
    # fluxes
    C([I("SurfaceFlux", "solute", 1), I("SurfaceFlux", 0, 2), I("HydrogenFlux", "solute", 2), I("SurfaceFlux", "0", 1)], T="xt", steps=3),
    C([I("SurfaceFlux", "solute", 1), I("SurfaceFlux", "0", 2), I("HydrogenFlux", "solute", 1)], soret="num", T="xt"),
    C([I("SurfaceFlux", "solute", 3), I("SurfaceFlux", 0, 2), I("SurfaceFlux", "T", 3), I("ThermalFlux", "T", 1)], dim=2, soret="fun", T="heat", heat=dict(props="fun")),
    C([I("SurfaceFlux", "T", 1), I("ThermalFlux", "T", 2), I("SurfaceFlux", "solute", 2)], T="heat", heat=dict(props="num"), transient=False),
    C([I("SurfaceFlux", "solute", 3), I("SurfaceFlux", "0", 4), I("SurfaceFlux", 0, 1)], dim=3, bottoms=[3, 4], chem=True, laws=["sievert", "henry"]),
    C([I("SurfaceFlux", "solute", 2), I("TotalVolume", "solute", 2), I("SurfaceFlux", "0", 1)], ids=[[1, 3], 2], marks=[1, 2, 3], traps=TR, chem=True),
    C([I("SurfaceFluxCylindrical", "solute", 1, "azimuth"), I("SurfaceFluxCylindrical", "0", 2), I("SurfaceFluxCylindrical", 0, 3)], coords="cylindrical", dim=2, bottoms=[3, 4], soret="num"),
    C([I("SurfaceFluxCylindrical", "T", 1, "azimuth"), I("SurfaceFluxCylindrical", "solute", 2, "azimuth")], coords="cylindrical", T="heat", heat=dict(props="fun"), soret="fun"),
    C([I("SurfaceFluxSpherical", "solute", 1, "azimuth", "polar"), I("SurfaceFluxSpherical", "0", 2), I("SurfaceFluxSpherical", 0, 2, "polar")], coords="spherical", soret="num"),
    C([I("SurfaceFluxSpherical", "T", 1, "azimuth"), I("SurfaceFluxSpherical", "solute", 2, "polar", "azimuth"), I("SurfaceFluxSpherical", "T", 2)], coords="spherical", T="heat", heat=dict(props="num"), transient=False),
]

CONFIGS = [(h, dict(c, alone="coords" in c["model"])) for h, c in CONFIGS]


def quantities(c):
    """integral quantities that suit a model"""
    sfx = {"cartesian": "", "cylindrical": "Cylindrical", "spherical": "Spherical"}[c["coords"]]
    rng = {"": [], "Cylindrical": ["azimuth"], "Spherical": ["azimuth", "polar"]}[sfx]
    tids = [str(t.get("id", i + 1)) for i, t in enumerate(c["traps"])]
    vols, surfs = c.get("marks", [1, 2]), [1, 2] + ([3] if c["dim"] > 1 else [])
    fields = ["solute", "retention", "T"] + tids
    q = []
    for i, fl in enumerate(fields):
        v, s = vols[i % len(vols)], surfs[i % len(surfs)]
        r = rng if i % 2 else []
        q += [I("TotalVolume" + sfx, fl, v, *r), I("AverageVolume" + sfx, fl, vols[-1 - i % len(vols)])]
        q += [I("TotalSurface" + sfx, fl, s, *r), I("AverageSurface" + sfx, fl, surfs[-1 - i % len(surfs)])]
    for s in surfs:
        q.append(I("SurfaceFlux" + sfx, "solute", s, *(rng if s == 1 else [])))
    if c["T"] == "heat":
        q.append(I("SurfaceFlux" + sfx, "T", surfs[-1]))
    return q


# feature combinations (an all-pairs covering set)
PAIRS = [("integrals", dict(q=quantities(c), model=c)) for _, c in mixed.on(None, 37, "x")]
CONFIGS += PAIRS
# many of everything
CONFIGS += [("integrals", dict(q=quantities(c) + [I("TotalVolume", "retention", v) for v in range(1, 9)] + [I("TotalSurface", "solute", 3 + v) for v in range(7 if c["dim"] > 1 else 0)], model=dict(c, coords="cartesian"))) for c in mixed.large(weights=True, coords="cartesian")]
THOROUGH = [
    C([I("TotalVolume", "retention", 1), I("AverageVolume", "retention", 3), I("SurfaceFlux", "solute", 2), I("TotalSurface", "retention", 1), I("AverageSurface", 2, 2)], ids=[[1, 3], 2], marks=[1, 2, 3], traps=TR, chem=True, dim=2, npts=2, T="heat", heat=dict(props="fun"), steps=3),
    C([I("TotalVolume", "retention", 1), I("AverageVolume", "retention", 2), I("SurfaceFlux", "solute", 2), I("SurfaceFlux", "T", 5), I("AverageSurface", 1, 4)], dim=3, bottoms=[4, 5], traps=TR, npts=3, T="heat", heat=dict(props="fun"), soret="fun", steps=3),
]
