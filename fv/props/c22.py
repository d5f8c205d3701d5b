"""C22: names of fields."""
from . import mixed
from .common import Model

BOUNDS = "1-3 traps numbered automatically, by the user in any order, or both; every accepted spelling of each species in every input and output at once; 1-2 steps; 1D/2D models of 2 volumes, with or without chemical potential and discontinuous trap elements; plus an all-pairs covering set of feature combinations (mixed.py) and models with eight volumes, five materials, six traps and nine surfaces"


def names(W, cfg):
    F = W.F
    M = Model(W, dict(dict(T="x0"), **cfg.get("model", {})))
    ids = cfg["ids"]  # expected number of each trap
    fields = cfg["fields"]
    strs = [fl for fl in fields if isinstance(fl, str)]
    xd = [F.XDMFExport(fl, filename="x%d.xdmf" % i, checkpoint=True) for i, fl in enumerate(strs)]
    xt = [F.TXTExport(fl, "x%d.txt" % i) for i, fl in enumerate(strs)] if W.dim == 1 else []
    p0 = W.cellpts()[0]
    dq = []
    for fl in fields:
        dq.append((F.PointValue(fl, list(p0.x)), lambda fl, n: M.field(fl, p0, n)))
        dq.append((F.TotalVolume(fl, 1), lambda fl, n: sum(p.w * M.field(fl, p, n) for p in W.cellpts(1))))
        dq.append((F.AverageSurface(fl, 1), None))
    den = [(t, F.TrapDensityXDMF(t.obj, filename="n%d.xdmf" % t.comp, label="n", checkpoint=False)) for t in M.tr] if cfg.get("densities") else []
    exports = xd + xt + [F.DerivedQuantities([q for q, _ in dq], show_units=False)] + [e for _, e in den]
    label = {"solute": "mobile_concentration", "0": "mobile_concentration", "T": "temperature", "retention": "retention"}

    def check(ev, n):
        M.check_residual(ev, n)
        M.check_dirichlet(ev, n)

    def after(n):
        if [t.obj.id for t in M.tr] != ids:
            W.fail("numbers of the traps")
        for i, fl in enumerate(strs):
            r = [r for r in W.files if r.filename == "x%d.xdmf" % i]
            if len(r) != n:
                W.fail("export of field %r" % fl)
                continue
            W.check("label of field %r" % fl, r[-1].label == label.get(fl, "trap_%s_concentration" % fl))
            for p in W.cellpts():
                W.check_eq("exported field %r (%s, step %d)" % (fl, p.name, n), r[-1].vals[p], M.field(fl, p, n))
            if xt:
                X = W.written("x%d.txt" % i)[-1][0]
                rows = [k for k in range(X.shape[0]) if abs(float(X[k, 0]) - 1.0) < 1e-9]
                p = [p for p in W.points if p.kind == "dof"][0]
                W.check("profile of field %r (step %d)" % (fl, n), len(rows) == 1)
                W.check_eq("profile of field %r (step %d)" % (fl, n), X[rows[0], n], M.field(fl, p, n))
        for i, (q, ref) in enumerate(dq):
            fl = fields[i // 3]
            if len(q.data) != n:
                W.fail("derived quantity of field %r" % (fl,))
            elif ref:
                W.check_eq("%s of field %r (step %d)" % (type(q).__name__, fl, n), q.data[-1], ref(fl, n))
            else:
                pts = W.facetpts(1)
                W.check_eq("%s of field %r (step %d)" % (type(q).__name__, fl, n), q.data[-1] * sum(p.w for p in pts), sum(p.w * M.field(fl, p, n) for p in pts))
        for t, e in den:
            r = [r for r in W.files if r.filename == "n%d.xdmf" % t.comp]
            if len(r) != n:
                W.fail("export of the density of trap %d" % t.comp)
                continue
            for p in W.cellpts():
                m = M.mat_at(p)
                want = 0
                if m.idx in t.mats:
                    a = t.mats.index(m.idx) if t.as_list else 0
                    want = t.dhist[n - 1].val(0, p) if t.kind != "trap" else M.density(t, a, p, n)
                W.check_eq("exported density of trap %d (%s, step %d)" % (t.comp, p.name, n), r[-1].vals[p], want)

    M.run(check, exports=exports, after=after)


HARNESSES = {"names": names}


def trap(mats, i=None, **k):
    return dict(dict(mats=mats), **(dict(id=i) if i is not None else {}), **k)


def C(ids, fields, **k):
    model = dict(dict(weights=True), **k.pop("model", {}))
    return ("names", dict(ids=ids, fields=fields, model=model, **k))


def ic(sp, field):
    return dict(sp=sp, field=field)


ONE = [trap([0])]
A2 = [trap([0]), trap([0, 1])]
U2 = [trap([0], 2), trap([0, 1], 1)]
U3 = [trap([1], 7), trap([0]), trap([0, 1], 3)]
CONFIGS = [
    C([1], ["solute", "0", 0, "1", 1, "retention", "T"], densities=True, model=dict(traps=ONE, ic=[ic(0, "solute"), ic(1, "1")], sources=[dict(vol=1, field="solute"), dict(vol=2, field="1")], dirichlets=[dict(kind="value", surf=1, field="solute"), dict(kind="value", surf=2, field="1")])),
    C([1], ["1", "retention"], model=dict(traps=ONE, steps=1, ic=[ic(1, 1), ic(0, 0)], sources=[dict(vol=1, field="mobile"), dict(vol=2, field="0"), dict(vol=1, field=1)], dirichlets=[dict(kind="value", surf=1, field="0"), dict(kind="value", surf=2, field=1)])),
    C([1, 2], ["2", "1", 2, 1, "retention", "0"], densities=True, model=dict(traps=A2, ic=[ic(2, "2"), ic(0, "0")], sources=[dict(vol=2, field=2), dict(vol=1, field="1"), dict(vol=1, field=0)], dirichlets=[dict(kind="custom", surf=1, field=2), dict(kind="value", surf=2, field="1")])),
    C([2, 1], ["2", "1", 2, 1, "retention", "solute"], densities=True, model=dict(traps=U2, ic=[ic(1, 2), ic(2, "1"), ic(0, 0)], sources=[dict(vol=2, field=2), dict(vol=1, field="1"), dict(vol=2, field="2"), dict(vol=1, field=1)], dirichlets=[dict(kind="value", surf=1, field=2), dict(kind="value", surf=1, field="1"), dict(kind="custom", surf=2, field="2")])),
    C([7, 2, 3], ["7", "2", 3, "3", "retention", 7], densities=True, model=dict(traps=U3, steps=1, ic=[ic(1, "7"), ic(3, 3), ic(2, 2)], sources=[dict(vol=2, field=7), dict(vol=1, field="3"), dict(vol=1, field="2")], dirichlets=[dict(kind="value", surf=1, field="7"), dict(kind="value", surf=2, field=3)])),
    C([2, 1], ["1", "2", "retention"], model=dict(traps=[trap([0], None, num=2), trap([0, 1], 1)], steps=1, ic=[ic(2, 1), ic(1, "2")], sources=[dict(vol=1, field=1), dict(vol=1, field="2")])),
    C([3, 2, 4], ["3", "2", "4", 4, "retention"], model=dict(traps=[trap([0], 3), trap([1]), trap([0, 1], None, num=4)], steps=1, ic=[ic(3, 4), ic(2, 2)], sources=[dict(vol=1, field="4"), dict(vol=2, field="2")])),
    C([2, 1], ["2", "1", "retention", "0", "T"], densities=True, model=dict(traps=U2, chem=True, ic=[ic(1, "2"), ic(2, 1), ic(0, "solute")], sources=[dict(vol=1, field=1)], dirichlets=[dict(kind="value", surf=1, field="solute"), dict(kind="value", surf=2, field=1)])),
    C([2, 1], ["2", 1, "retention", "solute"], densities=True, model=dict(traps=U2, traps_element_type="DG", steps=1, ic=[ic(1, 2), ic(2, 1), ic(0, "solute")], sources=[dict(vol=2, field="2")])),
    C([2, 1], ["2", 1, "retention", "T"], model=dict(traps=U2, dim=2, transient=False, T="heat", heat=dict(dirichlets=[dict(surf=3)]), sources=[dict(vol=2, field="2"), dict(vol=1, field=0)], dirichlets=[dict(kind="value", surf=1, field="1"), dict(kind="value", surf=3, field="0")])),
    C([1, 2], ["1", "2", "retention"], densities=True, model=dict(traps=[trap([0, 1], None, list=True, dens="t"), trap([1], None, dens="xt")], T="t")),
    C([4, 2], ["4", "2", "retention"], densities=True, model=dict(traps=[trap([0], 4, kind="ext"), trap([0, 1], None, kind="neutron")], ic=[ic(1, 4), ic(2, "2")])),
    C([], ["solute", "0", 0, "retention", "T"], model=dict(ic=[ic(0, "0")], sources=[dict(vol=1, field="0")], dirichlets=[dict(kind="value", surf=[1], field=0)], dim=2, steps=1)),
    C([2, 1], ["2", "1"], model=dict(traps=U2, steps=1, sources=[dict(vol=[1, 2], field="all", kind="decay"), dict(vol=1, field="2", kind="decay"), dict(vol=2, field=1, kind="decay"), dict(vol=2, field=0, kind="decay")])),
]


def spelled(i, c):
    """every species under one of its names"""
    ids = [t.get("id", j + 1) for j, t in enumerate(c["traps"])]
    fields = [["solute", "0", 0][i % 3], "retention", "T"] + [k if (i + j) % 2 else str(k) for j, k in enumerate(ids)]
    return ids, fields


# feature combinations: an all-pairs covering set
for _i, (_, _c) in enumerate(mixed.on("traps", 45, "names")):
    _ids, _fl = spelled(_i, _c)
    CONFIGS.append(C(_ids, _fl, model=_c, densities=_c["transient"]))
# many of everything
for _c in mixed.large()[:3]:
    CONFIGS.append(C([1, 2, 9, 4, 5, 3], ["1", 2, "9", 4, "5", "3", "retention", "solute", 9, "2"], model=_c, densities=True))
THOROUGH = [
    C([7, 2, 3], ["7", "2", 3, "3", "retention", 7, "0"], densities=True, model=dict(traps=U3, chem=True, steps=2, traps_element_type="DG", ic=[ic(1, "7"), ic(3, 3), ic(2, 2)], sources=[dict(vol=2, field=7), dict(vol=1, field="3"), dict(vol=1, field="2")])),
    C([9, 5, 1, 4], ["9", 5, "1", 4, "retention", "0", "T"], densities=True, model=dict(traps=[trap([0], 9), trap([1], 5), trap([0, 1], 1), trap([1])], dim=3, steps=2, ic=[ic(1, "9"), ic(3, 1), ic(2, "5"), ic(4, 4)], sources=[dict(vol=2, field=9), dict(vol=1, field="4")], dirichlets=[dict(kind="value", surf=1, field="9"), dict(kind="value", surf=2, field=4)])),
]
