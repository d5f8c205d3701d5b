"""Models that combine features: all-pairs covering sets.

Every pair of values of two features (temperature kind, formulation, coordinates,
layout of volumes, traps, sources, conditions, ...) that can occur together occurs in at
least one configuration of a set.  The sets are deterministic."""
import itertools
import random

FACTORS = dict(
    T=["xt", "x0", "t", "heat0", "heatd", "heats", "heatss"],
    chem=[None, "SS", "SH", "HS"],
    coords=["cartesian", "cylindrical", "spherical"],
    dim=[1, 2, 3],
    layout=["two", "one", "split", "rev"],
    transient=[True, False],
    traps=[None, "one", "list", "two", "ids", "ext", "neutron"],
    elem=["CG", "DG"],
    jac=[True, False],
    sources=[None, "xt", "vols", "trap", "decay", "implant"],
    flux=[None, "flux", "mass", "recomb", "dissoc", "custom", "two"],
    dirichlet=[None, "value", "custom", "sieverts", "implant", "trap", "henry"],
    kinetics=[None, "one"],
    soret=[None, "num", "fun"],
    ic=[True, False],
)


def valid(c):
    if c["coords"] == "spherical" and c["dim"] != 1 or c["coords"] == "cylindrical" and c["dim"] == 3:
        return False
    if not c["transient"] and (c["traps"] in ("ext", "neutron") or c["T"] in ("t", "xt", "heat0", "heatd", "heats") or c["ic"]):
        return False
    if c["kinetics"] and c["dim"] != 1:
        return False
    # one condition of a kind that excludes the others per surface
    if c["kinetics"] and c["dirichlet"] not in (None, "trap"):
        return False
    if c["elem"] == "DG" and not c["traps"]:
        return False
    if (c["dirichlet"] == "trap" or c["sources"] == "trap") and c["traps"] not in ("one", "list", "two", "ids"):
        return False
    if c["chem"] in ("SH", "HS") and c["layout"] == "one":
        return False
    # traps only in Sievert materials
    if c["chem"] in ("SH", "HS") and c["traps"] == "list":
        return False
    if c["layout"] == "one" and c["traps"] == "list":
        return False
    if c["sources"] == "implant" and c["dim"] != 1:
        return False
    if c["T"] == "heatss" and c["coords"] == "spherical" and c["dim"] != 1:
        return False
    return True


def build(c):
    """the model configuration of one combination"""
    tr = c["transient"]
    k = dict(transient=tr, coords=c["coords"], dim=c["dim"], soret=c["soret"], update_jacobian=c["jac"])
    T = c["T"]
    tv = "t" if tr else "num"
    if T.startswith("heat"):
        k["T"] = "heat"
        k["heat"] = {
            "heat0": dict(),
            "heatd": dict(dirichlets=[dict(surf=2, val="t")], ic="num", props="fun"),
            "heats": dict(sources=[dict(vol=1, kind="t")], fluxes=[dict(kind="conv", surf=1, val="t")]),
            "heatss": dict(transient=False, props="fun", sources=[dict(vol=1)], dirichlets=[dict(surf=1)]),
        }[T]
    else:
        k["T"] = T if tr else {"x0": "x0"}[T]
    lay = c["layout"]
    k.update(dict(two={}, one=dict(ids=[1], marks=[1]), split=dict(ids=[[1, 3], 2], marks=[1, 2, 3]), rev=dict(ids=[2, 1], marks=[1, 2], order=[1, 0]))[lay])
    n = 1 if lay == "one" else 2
    mats = list(range(n))
    if c["chem"]:
        k["chem"] = True
        laws = [dict(S="sievert", H="henry")[x] for x in c["chem"]][:n]
        k["laws"] = laws
        mats = [i for i in range(n) if laws[i] == "sievert"]
    a = mats[-1]
    k["traps"] = {
        None: [],
        "one": [dict(mats=[a], dens=tv if tr else "num")],
        "list": [dict(mats=mats[::-1], list=True)],
        "two": [dict(mats=mats), dict(mats=[a], dens="xt" if tr else "x")],
        "ids": [dict(mats=[a], id=4), dict(mats=mats[:1], id=2)],
        "ext": [dict(mats=[a], kind="ext", prm="t"), dict(mats=mats[:1])],
        "neutron": [dict(mats=mats[:1]), dict(mats=[a], kind="neutron", prm="t")],
    }[c["traps"]]
    if c["traps"]:
        k["traps_element_type"] = c["elem"]
    tid = k["traps"][0].get("id", 1) if k["traps"] else None
    vols = k.get("marks", [1, 2])
    k["sources"] = {
        None: [],
        "xt": [dict(vol=1, kind="xt" if tr else "x")],
        "vols": [dict(vol=vols, kind=tv), dict(vol=vols[-1])],
        "trap": [dict(vol=vols[-1], field=str(tid), kind=tv), dict(vol=1)],
        "implant": [dict(vol=vols, kind="implant", flux=tv if tr else "x"), dict(vol=vols[-1], kind=tv)],
        "decay": [dict(vol=vols, kind="decay", field="all"), dict(vol=1, kind="xt" if tr else "x")],
    }[c["sources"]]
    if c["dim"] > 1 and c["flux"]:
        k["bottoms"] = [3] * len(vols)
    fs = 3 if c["dim"] > 1 else 1
    k["fluxes"] = [] if not c["flux"] else [
        dict(kind="custom", surf=[fs], val=tv), dict(kind="mass", surf=fs, val=tv)] if c["flux"] == "two" else [dict(kind=c["flux"], surf=[fs] if c["flux"] != "custom" else fs, val=tv, **(dict(order=2) if c["flux"] == "recomb" else {}))]
    k["dirichlets"] = {
        None: [],
        "value": [dict(kind="value", surf=2, val=tv)],
        "custom": [dict(kind="custom", surf=[2], val=tv)],
        "sieverts": [dict(kind="sieverts", surf=[2], val=tv)],
        "implant": [dict(kind="implant", surf=2, val=tv, rec=True)],
        "trap": [dict(kind="value", surf=2, field=tid, val=tv)],
        "henry": [dict(kind="henrys", surf=[2], val=tv)],
    }[c["dirichlet"]]
    if c["kinetics"]:
        k["kinetics"] = [dict(surf=[2], a=tv)]
    if not c["ic"]:
        k["ic"] = []
    return k


def covering(tries=60, fixed=None, seed=7):
    """combinations that cover every pair of feature values"""
    rnd = random.Random(seed)
    fac = dict(FACTORS)
    for f, v in (fixed or {}).items():
        fac[f] = v
    names = sorted(fac)

    def rand(start=None):
        for _ in range(400):
            c = {f: rnd.choice(fac[f]) for f in names}
            if start:
                c.update(start)
            if valid(c):
                return c
        return None

    pairs = {}
    for f, g in itertools.combinations(names, 2):
        for a, b in itertools.product(fac[f], fac[g]):
            pairs[(f, a, g, b)] = None
    todo = set(map(str, pairs))
    bykey = {str(p): p for p in pairs}
    out = []

    def cover(c):
        return {str((f, c[f], g, c[g])) for f, g in itertools.combinations(names, 2)}

    while todo:
        p = bykey[min(todo)]
        best, score = None, -1
        for _ in range(tries):
            c = rand({p[0]: p[1], p[2]: p[3]})
            if c is None:
                break
            s = len(cover(c) & todo)
            if s > score:
                best, score = c, s
        if best is None:
            todo.discard(str(p))  # cannot occur together
            continue
        out.append(best)
        todo -= cover(best)
    return [build(c) for c in out]


def on(feature, seed, harness, skip=(), **more):
    """a covering set in which a feature is always present, as (harness, cfg) pairs"""
    vals = [v for v in FACTORS[feature] if v and v not in skip] if feature else None
    fixed = dict({feature: vals} if feature else {}, **more)
    return [(harness, c) for c in covering(fixed=fixed, seed=seed)]


def large(**over):
    """models with many of everything: volumes, materials with several volumes, traps,
    sources, surfaces and conditions"""
    lay = dict(marks=[1, 2, 3, 4, 5, 6, 7, 8], ids=[[1, 8, 4], 2, [6, 3], 7, 5], order=[2, 0, 4, 1, 3])
    traps = [
        dict(mats=[0, 1, 2, 3, 4], list=True),
        dict(mats=[4], dens="t"),
        dict(mats=[1, 3], id=9),
        dict(mats=[0], dens="xt"),
        dict(mats=[2, 4, 0]),
        dict(mats=[3], id=3),
    ]
    nums = ["1", "2", "9", "4", "5", "3"]
    sources = [dict(vol=[1, 8, 4, 6], kind="t"), dict(vol=5), dict(vol=[2, 7], kind="xt"), dict(vol=[3, 1, 8], kind="decay", field="all")]
    sources += [dict(vol=[8, 2, 5][: 1 + i % 3], field=f, kind=["num", "t", "xt"][i % 3]) for i, f in enumerate(nums)]
    flux = [dict(kind=k, surf=s, val="t", **(dict(order=2) if k == "recomb" else {})) for k, s in (("flux", [3, 4, 9]), ("recomb", [5, 1, 4]), ("mass", [4, 9]), ("dissoc", 1), ("custom", [9, 5, 3]), ("flux", 5))]
    dirs = [
        dict(kind="value", surf=[2, 6], val="t"),
        dict(kind="custom", surf=7, val="xt"),
        dict(kind="sieverts", surf=[8], val="t"),
        dict(kind="value", surf=[1, 6, 3], field=9),
        dict(kind="custom", surf=[2, 6], field="4", val="t"),
        dict(kind="value", surf=[2, 5, 8], field=3, val="xt"),
    ]
    two = dict(lay, dim=2, bottoms=[3, 4, 5, 6, 3, 7, 8, 9], traps=traps, sources=sources, fluxes=flux, dirichlets=dirs, T="xt", steps=2, ic=[])
    end = lambda s: [x for x in s if x in (1, 2)]
    fl1 = [dict(f, surf=s) for f, s in zip(flux + flux, [1, [1, 2], 2, [2, 1], [1], [2]])]
    ds1 = [dict(kind="value", surf=[2, 1], field=9), dict(kind="custom", surf=1, field="4", val="t"), dict(kind="value", surf=2, field=3, val="t"), dict(kind="value", surf=[1], field=3)]
    one = dict(lay, dim=1, traps=traps, sources=sources, fluxes=fl1, dirichlets=ds1, T="xt", steps=2, ic=[])
    laws = ["sievert", "sievert", "sievert", "henry", "sievert"]
    chem = dict(two, chem=True, laws=laws, traps=[dict(t, mats=[m for m in t["mats"] if m != 3] or [0]) for t in traps])
    still = lambda d: {k: (still(v) if isinstance(v, dict) else [still(x) if isinstance(x, dict) else x for x in v] if isinstance(v, list) else {"t": "num", "xt": "x"}[v] if k in ("kind", "val", "dens", "T") and v in ("t", "xt") else v) for k, v in d.items()}
    return [dict(c, **over) for c in (two, one, chem, dict(still(one), transient=False, soret="num"))]
