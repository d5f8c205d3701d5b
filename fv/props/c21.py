"""C21: profiles."""
from .common import Model

BOUNDS = "1D meshes of 1-4 cells with vertices at arbitrary positions, arbitrary nodal values (continuous and discontinuous fields), 1-3 materials of one or two intervals meeting at vertices, 1-3 exported steps; temperature uniform in space when the field is projected from an expression"


def profile(W, cfg):
    F = W.F
    W.field_kind = "dofs"
    M = Model(W, dict(dict(T="x0"), **cfg.get("model", {})))
    marks = M.cfg["marks"]
    nv = len(marks) + 1
    specs = cfg["p"]
    ex = [F.TXTExport(s["field"], "p%d.txt" % i, filter=s.get("filter", True)) for i, s in enumerate(specs)]
    dg = bool(M.chem or M.cfg.get("traps_element_type") == "DG")
    # vertices where the material changes
    inner = [i for i in range(1, nv - 1) if marks[i - 1] != marks[i]] if M.cfg.get("verts") and M.cfg.get("borders", True) else []

    def dof(c, v):
        return [p for p in W.points if p.kind == "dof" and p.name == "d%d_%d" % (c, v)][0]

    def after(n):
        for i, s in enumerate(specs):
            fl = s["field"]
            lab = "profile of %s after step %d: " % (fl, n)
            recs = W.written("p%d.txt" % i)
            if len(recs) != n:
                W.fail(lab + "written once per step")
                continue
            X, kw = recs[-1]
            W.check(lab + "layout of the file", kw.get("delimiter") == "," and kw.get("comments") == "" and kw.get("header", "").split(",")[0] == "x" and len(kw.get("header", "").split(",")) == X.shape[1] == n + 1)
            # (vertex, alternatives) of each row
            want = []
            for v in range(nv):
                cells = [c for c in (v - 1, v) if 0 <= c < nv - 1]
                if dg and len(cells) == 2 and (not s.get("filter", True) or v in inner):
                    want.append((v, cells, 2))
                else:
                    want.append((v, cells, 1))
            if X.shape[0] != sum(w[2] for w in want):
                W.fail(lab + "number of rows")
                continue
            r = 0
            for v, cells, m in want:
                for j in range(m):
                    W.check_eq(lab + "position %d of row %d" % (v, r + j), X[r + j, 0], dof(cells[0], v).x[0])
                for k in range(1, n + 1):
                    if k not in (1, n):
                        continue
                    vals = [M.field(fl, dof(c, v), k) for c in cells]
                    got = [X[r + j, k] for j in range(m)]
                    if m == 2:
                        ok = W.or_(W.and_(W.eq(got[0], vals[0]), W.eq(got[1], vals[1])), W.and_(W.eq(got[0], vals[1]), W.eq(got[1], vals[0])))
                    else:
                        ok = W.or_(*[W.eq(got[0], x) for x in vals])
                    W.check(lab + "value of step %d at vertex %d" % (k, v), ok)
                r += m

    M.run(lambda ev, n: None, exports=ex, after=after)


HARNESSES = {"profile": profile}


def C(p, **model):
    return ("profile", dict(p=[x if isinstance(x, dict) else dict(field=x) for x in p], model=dict(dict(marks=[1, 1], ids=[1], verts=True), **model)))


S = dict(transient=False)
TR1 = [dict(mats=[0])]
TR = [dict(mats=[0]), dict(mats=[0, 1])]
NF = lambda f: dict(field=f, filter=False)
CONFIGS = [
    C(["solute", "T"], steps=2),
    C(["solute", NF("T")], marks=[1, 1, 1, 1], borders=False, steps=3),
    C(["solute", "1", "retention", NF("2")], marks=[1, 2, 2], ids=[1, 2], traps=TR, **S),
    C(["2", "solute", "retention", "T"], marks=[1, 2, 2], ids=[1, 2], traps=TR, traps_element_type="DG", steps=1),
    C([NF("2"), NF("retention"), NF("solute")], marks=[1, 2], ids=[1, 2], traps=TR, traps_element_type="DG", steps=1),
    C(["solute", "retention"], marks=[1, 1, 2], ids=[1, 2], traps=TR1, chem=True, **S),
    C(["solute", NF("solute"), "T"], marks=[1, 2], ids=[1, 2], chem=True, laws=["sievert", "henry"], perm=[1, 2, 0]),
    C(["solute"], marks=[1, 2, 3], ids=[1, 2, 3], chem=True, order=[2, 0, 1], **S),
    C(["solute", "0"], marks=[1, 2, 1], ids=[1, 2], chem=True, **S),
    C(["solute", "0"], marks=[1, 2, 3], ids=[[1, 3], 2], chem=True, order=[1, 0], **S),
    C(["solute", "0"], marks=[2], ids=[2], chem=True, **S),
    C(["1", NF("1")], marks=[1, 1], ids=[1], traps=TR1, traps_element_type="DG", **S),
    C(["1", "solute"], marks=[1, 1], ids=[1], borders=False, traps=TR1, traps_element_type="DG", **S),
    C(["solute", "1", "T"], marks=[1, 2], ids=[1, 2], traps=TR, T="heat", heat={}, **S),
]
THOROUGH = [
    C(["solute", "retention"], marks=[1, 2, 1, 3], ids=[1, 2, 3], traps=TR1, chem=True, **S),
    C(["solute", "1", "retention"], marks=[1, 2, 2, 3], ids=[[1, 3], 2], traps=TR, traps_element_type="DG", steps=2),
    C(["solute", NF("solute")], marks=[1, 2, 3, 4, 5], ids=[[1, 3, 5], [2, 4]], chem=True, perm=[3, 1, 5, 0, 2, 4], **S),
]
