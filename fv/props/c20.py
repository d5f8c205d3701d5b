"""C20: the table of derived quantities."""
from .common import Model
from .stepping import BARE, Policy
from . import c17

BOUNDS = "tables of 1-9 quantities of every kind, periods of computation 1-3 and of export 1-3 or at the end, complete runs and prefixes of up to 4 accepted steps of varying size with up to 2 diverging solves, runs of 6-12 steps with periods up to 7, steady runs; 1D/2D/3D meshes, every coordinate system; selections among 4-8 quantities of arbitrary surfaces and volumes by arbitrary lists of at most 2 identifiers"

FLUX = ("SurfaceFlux", "HydrogenFlux", "ThermalFlux")


def title(q, dim, units):
    """heading documented for a quantity"""
    kind, fl, at = q["kind"], q["field"], q["at"]
    coord = 1 if "Cylindrical" in kind else 2 if "Spherical" in kind else 0
    base = kind.replace("Cylindrical", "").replace("Spherical", "")
    T = fl == "T"
    if base in FLUX:
        s = ("Heat flux surface %d" if T else "%s flux surface %%d" % fl) % at
        e = 0 if coord == 2 else dim - 3 + coord
        u = "W" + power(e) if T else "H" + power(e) + " s-1"
    elif base == "PointValue":
        s, u = "%s value at %s" % (fl, at), "K" if T else "H m-3"
    elif base == "AdsorbedHydrogen":
        s, u = "Adsorbed H on surface %d" % at, "H m-2"
    else:
        what = [w for w in ("Total", "Average", "Maximum", "Minimum") if base.startswith(w)][0]
        where = base[len(what):].lower()
        s = "%s %s %s %d" % (what, fl, where, at)
        if what == "Total":
            if T:
                n = 3 if coord == 2 else dim + coord
                u = "K" + power(n if where == "volume" else n - 1)
            else:
                u = "H" + power(0 if coord == 2 else dim - 3 + coord)
        else:
            u = "K" if T else "H m-3"
    return s + " (%s)" % u if units else s


def power(e):
    return "" if e == 0 else " m" if e == 1 else " m%d" % e


def objects(W, M, qs):
    F = W.F
    out = []
    for q in qs:
        k = q["kind"]
        if k in ("HydrogenFlux", "ThermalFlux"):
            q["field"] = "T" if k == "ThermalFlux" else "solute"
            out.append(getattr(F, k)(surface=q["at"]))
        elif k == "AdsorbedHydrogen":
            q["field"] = "adsorbed"
            out.append(F.AdsorbedHydrogen(surface=q["at"]))
        elif k == "PointValue":
            q["pt"] = W.cellpts()[q["at"]]
            out.append(F.PointValue(q["field"], list(q["pt"].x)))
            q["at"] = out[-1].x
        else:
            c17.ranges(W, q, 0)
            out.append(getattr(F, k)(q["field"], q["at"]))
    return out


def reference(W, M, q, n):
    """(numerator, denominator) of the value after step n, or None"""
    k = q["kind"]
    if k == "PointValue":
        return M.field(q["field"], q["pt"], n), 1
    if k == "AdsorbedHydrogen":
        kn = [kn for kn in M.kin if kn.surf == q["at"]][0]
        return sum(p.w * M.hist[n - 1].sol.val(kn.comp, p) for p in W.facetpts(q["at"])), 1
    if "Maximum" in k or "Minimum" in k:
        return None
    return c17.expected(W, M, dict(q, kind="SurfaceFlux" if k in FLUX else k, angle=q.get("angle", 1)), n)


class Table:
    def __init__(self, W, M, spec, i):
        F = W.F
        self.W, self.M, self.spec = W, M, spec
        self.qs = [dict(q) for q in spec["q"]]
        self.objs = objects(W, M, self.qs)
        kw = {}
        if "compute" in spec:
            kw["nb_iterations_between_compute"] = spec["compute"]
        if "export" in spec:
            kw["nb_iterations_between_exports"] = spec["export"]
        if "units" in spec:
            kw["show_units"] = spec["units"]
        self.name = spec.get("folder", "") + "t%d.csv" % i
        if spec.get("file", True):
            kw["filename"] = self.name
        self.dq = F.DerivedQuantities(self.objs, **kw)

    def check(self, n, ended):
        """after step n"""
        W, M, sp = self.W, self.M, self.spec
        lab = "table %s after step %d: " % (self.name, n)
        rows = [k for k in range(1, n + 1) if (k - 1) % sp.get("compute", 1) == 0]
        self.compare(lab, self.dq.data, rows, n)
        if len(self.dq.t) != len(rows):
            W.fail(lab + "times recorded")
        for i, (q, o) in enumerate(zip(self.qs, self.objs)):
            if len(o.data) != len(rows) or len(o.t) != len(rows):
                W.fail(lab + "series of %s" % q["kind"])
                continue
            for j, k in enumerate(rows):
                if k < n and n > 1 and not ended:
                    continue
                self.time(lab + "time of the series of %s" % q["kind"], o.t[j], k)
                if len(self.dq.t) == len(rows):
                    self.time(lab + "time of the table", self.dq.t[j], k)
                if len(self.dq.data) > 1 + j and len(self.dq.data[1 + j]) == len(self.qs) + 1:
                    W.check_eq(lab + "column of %s equals its series" % q["kind"], self.dq.data[1 + j][1 + i], o.data[j])
        # file
        saved = W.written(self.name)
        if not sp.get("file", True):
            W.check(lab + "no file", not saved and not W.saved)
            return
        if not M.transient or sp.get("export") is None:
            upto = n if ended else None
        else:
            upto = max(k for k in range(1, n + 1) if (k - 1) % sp["export"] == 0)
        if upto is None:
            if saved:
                W.fail(lab + "file written at the end only")
            return
        if not saved:
            W.fail(lab + "file written")
            return
        X, kw = saved[-1]
        W.check(lab + "separator", kw.get("delimiter") == "," and kw.get("fmt") == "%s")
        self.compare(lab + "file: ", [list(r) for r in X], [k for k in rows if k <= upto], n, txt=True)

    def time(self, lab, t, k):
        self.W.check_eq(lab, t, self.M.time(k) if self.M.transient else 0)

    def compare(self, lab, data, rows, n, txt=False):
        W, M = self.W, self.M
        if len(data) != 1 + len(rows) or any(len(r) != 1 + len(self.qs) for r in data):
            W.fail(lab + "rows")
            return
        head = ["t(s)"] + [title(q, W.dim, self.spec.get("units", True)) for q in self.qs]
        if [str(h) for h in data[0]] != head:
            W.fail(lab + "headings")
        for j, k in enumerate(rows):
            if k < n - 1:
                continue
            r = data[1 + j]
            self.time(lab + "time of row %d" % k, num(r[0]), k)
            for i, q in enumerate(self.qs):
                ref = reference(W, M, q, k)
                if ref is not None:
                    W.check_eq(lab + "%s of %s in row %d" % (q["kind"], q["field"], k), num(r[1 + i]) * ref[1], ref[0])


def num(v):
    return float(v) if isinstance(v, str) else v


def table(W, cfg):
    P = Policy(W, cfg)
    M = P.model(W, base=dict(BARE, weights=True), **cfg.get("model", {}))
    tabs = [Table(W, M, s, i) for i, s in enumerate(cfg["tabs"])]
    M.sim.exports = [t.dq for t in tabs]
    st = dict(fail=False)

    def outcome(n, att):
        it, conv = P.outcome(n, att)
        st["fail"] = not conv
        return it, conv

    try:
        M.march(cfg.get("steps", 3), outcome, accepted=lambda n: [t.check(n, M.over) for t in tabs])
    except ValueError:
        if not st["fail"]:
            raise


def steady(W, cfg):
    M = Model(W, dict(dict(weights=True, transient=False), **cfg.get("model", {})))
    tabs = [Table(W, M, s, i) for i, s in enumerate(cfg["tabs"])]
    M.run(lambda ev, n: None, exports=[t.dq for t in tabs], after=lambda n: [t.check(n, True) for t in tabs])


def select(W, cfg):
    """filter returns exactly the matching quantities, in order"""
    F = W.F
    ids = []
    objs = []
    for i, (k, fl) in enumerate(cfg["q"]):
        at = W.int("id%d" % i, 1, 3)
        ids.append(at)
        if k == "PointValue":
            objs.append(F.PointValue(fl, 1.5))
        elif k in ("HydrogenFlux", "ThermalFlux", "AdsorbedHydrogen"):
            objs.append(getattr(F, k)(surface=at))
        else:
            objs.append(getattr(F, k)(fl, at))
    dq = F.DerivedQuantities(objs)
    kw, wants = {}, []
    for what in ("surfaces", "volumes"):
        c = cfg.get(what)
        if c is None:
            continue
        vals = [W.int("%s%d" % (what, j), 1, 3) for j in range(max(1, c))]
        kw[what] = vals if c else vals[0]
        wants.append((what, vals))
    for what in ("fields", "instances"):
        if what in cfg:
            v = cfg[what]
            if what == "instances":
                v = [getattr(F, n) for n in v] if isinstance(v, list) else getattr(F, v)
            kw[what] = v
            wants.append((what, v if isinstance(v, list) else [v]))
    got = dq.filter(**kw)
    want = []
    for (k, fl), at, o in zip(cfg["q"], ids, objs):
        ok = True
        for what, vals in wants:
            if what == "fields":
                hit = o.field in vals
            elif what == "instances":
                hit = isinstance(o, tuple(vals))
            else:
                kind = "surface" if ("Surface" in k or "Flux" in k or k == "AdsorbedHydrogen") else "volume" if "Volume" in k else None
                hit = False
                if kind == what[:-1]:
                    for v in vals:
                        if v == at:
                            hit = True
            ok = ok and hit
        if ok:
            want.append(o)
    res = got if isinstance(got, list) else [got]
    W.check("the selected quantities", len(res) == len(want) and all(a is b for a, b in zip(res, want)))
    W.check("a single quantity is returned itself", isinstance(got, list) == (len(want) != 1))
    W.check("the table is unchanged", len(dq) == len(objs) and all(a is b for a, b in zip(dq, objs)))


HARNESSES = {"table": table, "steady": steady, "select": select}
A = dict(adaptive=True)
TR = [dict(mats=[0])]


def Q(kind, field=None, at=1):
    return dict(kind=kind, field=field, at=at)


BASE = [Q("TotalVolume", "solute"), Q("AverageVolume", "T"), Q("SurfaceFlux", "solute", 2), Q("PointValue", "T", 0)]
SEL = [("TotalVolume", "solute"), ("SurfaceFlux", "T"), ("AverageSurface", "solute"), ("MaximumVolume", "T"), ("PointValue", "solute")]
CONFIGS = [
    ("table", dict(steps=4, tabs=[dict(q=BASE)])),
    ("table", dict(steps=4, plain=True, tabs=[dict(q=BASE[:2], compute=2), dict(q=BASE[2:], compute=3, export=2, units=False), dict(q=BASE[:1], file=False, compute=1)][:2])),
    ("table", dict(steps=4, tabs=[dict(q=BASE[1:], compute=2, export=3, folder="out/deep/"), dict(q=BASE[:3], export=2)])),
    ("table", dict(steps=3, tabs=[dict(q=BASE[:2], file=False)])),
    ("table", dict(A, steps=2, fails=2, long=True, dtmin=False, tabs=[dict(q=BASE[:2], export=1), dict(q=BASE[2:], compute=2)])),
    ("table", dict(A, steps=2, fails=1, dtmin=False, tabs=[dict(q=BASE[:2])])),
    ("table", dict(steps=2, nm=1, tabs=[dict(q=[Q("AverageVolume", "retention"), Q("TotalVolume", "1"), Q("PointValue", "retention", 0), Q("HydrogenFlux", at=1), Q("AdsorbedHydrogen", at=1)][:4], export=1)], model=dict(traps=TR, ic=["mobile", 1]))),
    ("table", dict(steps=2, tabs=[dict(q=[Q("AdsorbedHydrogen", at=2), Q("HydrogenFlux", at=1), Q("AdsorbedHydrogen", at=1), Q("SurfaceFlux", 0, 2)], export=1)], model=dict(kinetics=[dict(surf=[1]), dict(surf=[2])]))),
    ("table", dict(steps=2, tabs=[dict(q=[Q("AdsorbedHydrogen", at=2), Q("AdsorbedHydrogen", at=1)], export=1)], model=dict(kinetics=[dict(surf=[1, 2])]))),
    ("steady", dict(tabs=[dict(q=[Q("TotalVolume", "solute", 2), Q("AverageSurface", "T", 1), Q("MaximumVolume", "solute", 1), Q("MinimumSurface", "T", 2), Q("ThermalFlux", at=1), Q("TotalVolume", "T", 1), Q("TotalSurface", "T", 2), Q("PointValue", "solute", 1), Q("MaximumSurface", "0", 1)]), dict(q=[Q("SurfaceFlux", "T", 2), Q("MinimumVolume", "T", 2), Q("TotalSurface", "solute", 1)], units=False, compute=3, export=5)], model=dict(T="heat", heat={}))),
    ("steady", dict(tabs=[dict(q=[Q("TotalVolume", "retention", 2), Q("TotalVolume", "T", 1), Q("TotalSurface", "T", 3), Q("TotalSurface", "retention", 1), Q("SurfaceFlux", "T", 3), Q("SurfaceFlux", "solute", 1), Q("AverageVolume", "1", 1)])], model=dict(dim=2, traps=TR, T="heat", heat={}))),
    ("steady", dict(tabs=[dict(q=[Q("TotalVolume", "retention", 2), Q("TotalVolume", "T", 1), Q("TotalSurface", "T", 3), Q("TotalSurface", "solute", 1), Q("SurfaceFlux", "T", 3), Q("HydrogenFlux", at=1), Q("PointValue", "1", 1)])], model=dict(dim=3, traps=TR, T="heat", heat={}))),
    ("steady", dict(tabs=[dict(q=[Q("TotalVolumeCylindrical", "retention", 2), Q("TotalVolumeCylindrical", "T", 1), Q("AverageVolumeCylindrical", "T", 1), Q("TotalSurfaceCylindrical", "T", 2), Q("TotalSurfaceCylindrical", "1", 1), Q("SurfaceFluxCylindrical", "solute", 1), Q("SurfaceFluxCylindrical", "T", 2), Q("AverageSurfaceCylindrical", "solute", 1)])], model=dict(coords="cylindrical", traps=TR, T="heat", heat={}))),
    ("steady", dict(tabs=[dict(q=[Q("TotalVolumeCylindrical", "solute", 2), Q("TotalVolumeCylindrical", "T", 1), Q("TotalSurfaceCylindrical", "T", 2), Q("TotalSurfaceCylindrical", "retention", 3), Q("SurfaceFluxCylindrical", "solute", 3), Q("SurfaceFluxCylindrical", "T", 1)])], model=dict(coords="cylindrical", dim=2, traps=TR, T="heat", heat={}))),
    ("steady", dict(tabs=[dict(q=[Q("TotalVolumeSpherical", "retention", 2), Q("TotalVolumeSpherical", "T", 1), Q("AverageVolumeSpherical", "solute", 1), Q("TotalSurfaceSpherical", "T", 2), Q("TotalSurfaceSpherical", "solute", 1), Q("SurfaceFluxSpherical", "0", 1), Q("SurfaceFluxSpherical", "T", 2), Q("AverageSurfaceSpherical", "T", 1)])], model=dict(coords="spherical", traps=TR, T="heat", heat={}))),
    ("steady", dict(tabs=[dict(q=[Q(a + b, fl, 1 + i % 2) for i, (a, b, fl) in enumerate((a, b, fl) for a in ("Maximum", "Minimum", "Average") for b in ("Volume", "Surface") for fl in ("T", "solute", "retention", "1"))], units=u) for u in (True, False)], model=dict(traps=TR, T="heat", heat={}))),
    ("select", dict(q=SEL[:4], surfaces=0)),
    ("select", dict(q=SEL[:4], surfaces=2)),
    ("select", dict(q=SEL, volumes=0)),
    ("select", dict(q=SEL, volumes=2, fields="solute")),
    ("select", dict(q=SEL, fields=["T"])),
    ("select", dict(q=SEL, fields=["T", "solute"], surfaces=0)),
    ("select", dict(q=SEL, instances="SurfaceFlux")),
    ("select", dict(q=SEL + [("HydrogenFlux", None)], instances=["SurfaceFlux", "TotalVolume"], surfaces=0)),
    ("select", dict(q=SEL[:4], surfaces=0, volumes=0)),
    ("select", dict(q=SEL)),
    ("select", dict(q=[(k, fl) for fl in ("1", "11", "T", "solute") for k in ("TotalVolume", "AverageSurface")], fields="11", volumes=0)),
    ("select", dict(q=[("TotalVolume", fl) for fl in ("1", "11", "T", "solute", "0")], fields="11")),
]
# longer runs
CONFIGS += [
    ("table", dict(steps=12, plain=True, long=True, tabs=[dict(q=BASE[:2], compute=4), dict(q=BASE[2:], compute=5, export=7), dict(q=BASE[:1], export=5), dict(q=BASE[1:2], compute=6, export=4)])),
    ("table", dict(A, steps=9, rate=1.25, seq="ffsfdf", long=True, tabs=[dict(q=BASE[:2], compute=3, export=4), dict(q=BASE[2:], export=1)])),
]
THOROUGH = [
    ("table", dict(steps=24, plain=True, long=True, tabs=[dict(q=BASE[:2], compute=10), dict(q=BASE[2:], compute=5, export=11)])),
    ("table", dict(steps=6, tabs=[dict(q=BASE, compute=2, export=3), dict(q=BASE[::-1], compute=3), dict(q=BASE[:2], export=4)])),
    ("table", dict(A, steps=3, fails=1, tabs=[dict(q=BASE[:2], export=1), dict(q=BASE[2:], compute=2)])),
    ("select", dict(q=SEL, surfaces=2, fields=["T", "solute"], instances=["SurfaceFlux", "AverageSurface"])),
]
