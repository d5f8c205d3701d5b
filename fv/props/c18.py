"""C18: extrema and point values."""
from . import mixed
from .common import Model

BOUNDS = "1D meshes of 2-4 cells with arbitrary nodal values (continuous and discontinuous fields), 1-3 volumes, surfaces made of one or both ends; point values at arbitrary positions of 1D/2D/3D meshes; 1-3 computations; the nodal values of a field that is projected before the computation are those of the field itself; point values also for an all-pairs covering set of feature combinations (mixed.py)"


def fold(W, M, fl, pts, n):
    return [M.field(fl, p, n) for p in pts]


def extrema(W, cfg):
    F = W.F
    W.field_kind = "dofs"
    M = Model(W, cfg.get("model", {}))
    objs = [getattr(F, k)(fl, at) for k, fl, at in cfg["q"]]
    dq = F.DerivedQuantities(objs, show_units=False)

    def after(n):
        for (kind, fl, at), o in zip(cfg["q"], objs):
            lab = "%s of %s on %s (step %d)" % (kind, fl, at, n)
            if len(o.data) != n:
                W.fail(lab + ": recorded once per step")
                continue
            v = o.data[-1]
            if kind.endswith("Volume"):
                pts = [p for p in W.points if p.kind == "dof" and p.mark == at]
            elif W.dim > 1:
                pts = [p for p in W.points if p.kind == "sdof" and p.smark == at]
            else:
                pts = W.facetpts(at)
            vals = fold(W, M, fl, pts, n)
            up = kind.startswith("Max")
            W.check(lab + ": bounds every value", W.and_(*[le(W, x, v) if up else le(W, v, x) for x in vals]))
            W.check(lab + ": is one of the values", W.or_(*[W.and_(le(W, x, v), le(W, v, x)) for x in vals]))

    M.run(lambda ev, n: None, exports=[dq], after=after)


def le(W, a, b):
    if W.symbolic:
        return a <= b
    return a <= b + 1e-7 * max(abs(a), abs(b), 1e-3)


def points(W, cfg):
    F = W.F
    if cfg.get("dofs"):
        W.field_kind = "dofs"
    M = Model(W, cfg.get("model", {}))
    objs, where = [], []
    for kind, fl, q in cfg["q"]:
        p = W.cellpts()[q]
        x = {"list": list, "tuple": tuple, "num": lambda v: v[0]}[kind](p.x)
        objs.append(F.PointValue(fl, x))
        where.append(p)
    dq = F.DerivedQuantities(objs, show_units=False)

    def after(n):
        for (kind, fl, q), o, p in zip(cfg["q"], objs, where):
            lab = "value of %s at %s (step %d)" % (fl, p.name, n)
            if len(o.data) != n:
                W.fail(lab + ": recorded once per step")
                continue
            W.check_eq(lab, o.data[-1], M.field(fl, p, n))

    M.run(lambda ev, n: None, exports=[dq], after=after)


HARNESSES = {"extrema": extrema, "points": points}
TR = [dict(mats=[0]), dict(mats=[0, 1])]


def E(q, **model):
    return ("extrema", dict(q=q, model=model))


def P(q, **model):
    return ("points", dict(q=q, model=model))


S1 = dict(transient=False, T="x0")
CONFIGS = []
for a, b in (("Maximum", "Minimum"), ("Minimum", "Maximum")):
    CONFIGS += [
        E([(a + "Volume", "solute", 1)], steps=2, T="t"),
        E([(a + "Volume", 0, 2), (b + "Volume", "solute", 1)], **S1),
        E([(a + "Volume", "solute", 1)], marks=[1, 2, 1], ids=[1, 2], **S1),
        E([(a + "Volume", "2", 2)], marks=[1, 2], traps=TR, traps_element_type="DG", **S1),
        E([(a + "Volume", 1, 1)], marks=[1, 2], traps=TR, **S1),
        E([(a + "Volume", "retention", 2)], traps=TR, **S1),
        E([(a + "Volume", "0", 1)], chem=True, laws=["sievert", "henry"], transient=False),
        E([(a + "Volume", "T", 2)], T="heat", heat={}, transient=False),
        E([(a + "Surface", "solute", 1), (b + "Surface", 0, 2)], steps=2),
        E([(a + "Surface", "1", 1), (b + "Surface", "T", 1), (a + "Surface", "retention", 1)], traps=TR, left=1, right=1, T="heat", heat=dict(fluxes=[dict(kind="flux", surf=1)], dirichlets=[]), transient=False),
        E([(a + "Surface", "solute", 3), (b + "Surface", "2", 3)], traps=TR, left=3, right=3, traps_element_type="DG", T="x0"),
    ]
    CONFIGS += [
        E([(a + "Volume", "solute", 1)], dim=2, simplex=True, marks=[1, 2, 1], **S1),
        E([(a + "Volume", "1", 2)], dim=2, simplex=True, marks=[1, 2], traps=TR, traps_element_type="DG", **S1),
        E([(a + "Volume", "T", 1)], dim=3, simplex=True, marks=[1, 2], T="heat", heat={}, transient=False),
        E([(a + "Surface", "solute", 1)], dim=2, simplex=True, marks=[1, 2, 1], **S1),
        E([(a + "Surface", "2", 2)], dim=2, simplex=True, marks=[1, 2], traps=TR, traps_element_type="DG", **S1),
        E([(a + "Surface", "0", 1), (b + "Surface", "0", 2)], dim=3, simplex=True, marks=[1, 2], **S1),
    ]
CONFIGS += [
    P([("num", "solute", 0), ("list", 0, 1), ("tuple", "T", 1)], steps=3),
    P([("num", "retention", 1), ("num", "1", 0), ("num", 2, 1)], traps=TR),
    P([("num", "solute", 0), ("num", "retention", 1)], traps=TR, chem=True, transient=False),
    P([("list", "solute", 0), ("tuple", "T", 1), ("tuple", "retention", 1)], dim=2, traps=TR, T="heat", heat={}),
    P([("list", "0", 1), ("tuple", "2", 0)], dim=3, traps=TR),
    ("points", dict(q=[("num", "solute", 2), ("num", "1", 0)], dofs=True, model=dict(traps=TR, marks=[1, 2, 1], ids=[1, 2], transient=False))),
]


def samples(c):
    n = len(c.get("marks", [1, 2]))
    fields = ["solute", "retention", "T"] + [str(t.get("id", i + 1)) for i, t in enumerate(c["traps"])]
    kinds = ("num", "list", "tuple") if c["dim"] == 1 else ("list", "tuple")
    return [(kinds[i % len(kinds)], fl, i % n) for i, fl in enumerate(fields)]


# feature combinations: an all-pairs covering set
CONFIGS += [(h, dict(q=samples(c), model=c)) for h, c in mixed.on(None, 43, "points")]
THOROUGH = [
    E([("MaximumVolume", "solute", 1), ("MinimumVolume", "retention", 2)], marks=[1, 2, 2], ids=[1, 2], traps=TR, **S1),
    E([("MaximumVolume", "solute", 1), ("MinimumVolume", "0", 1)], marks=[1, 2, 1], ids=[1, 2], steps=2, T="x0"),
    E([("MaximumVolume", "1", 2), ("MaximumSurface", "1", 1)], marks=[1, 2, 1, 2], ids=[1, 2], traps=TR, traps_element_type="DG", left=1, right=1, **S1),
]
