"""C19: when exports are written, and what they carry."""
import itertools

from .stepping import BARE, Policy
from .common import Model

BOUNDS = "complete runs and prefixes of up to 4 accepted steps of varying size with up to 2 diverging solves; runs of 6-12 steps with periods up to 7; field exports of period 1-3 and last, profile exports with 0-2 arbitrary requested times within the run in any order, or none; 1D models of 1-2 volumes, steady and transient; checkpointed or not, with folders and labels"


def make(W, P, cfg):
    """exports of the configuration"""
    F = W.F
    out, pre = [], cfg.get("pre", "")
    for i, e in enumerate(cfg["x"]):
        kw = {k: e[k] for k in ("label", "folder") if k in e}
        o = F.XDMFExport(e["field"], filename=pre + "f%d.xdmf" % i, mode=e.get("mode", 1), checkpoint=e.get("cp", False), **kw)
        out.append((("folder" in e and e["folder"] + "/" or "") + pre + "f%d.xdmf" % i, e, o))
    txt = []
    for i, e in enumerate(cfg.get("p", [])):
        kw = {k: e[k] for k in ("write_at_last", "header_format") if k in e}
        t = e.get("times")
        if t is not None:
            kw["times"] = [P.tt[j] for j in t]
        nm = e.get("folder", "") + "p%d.txt" % i
        txt.append((nm, e, F.TXTExport(e["field"], nm, **kw)))
    return out, txt


def check_field(W, M, name, e, o, n, ended):
    """the field files after step n"""
    recs = [r for r in W.files if r.filename == name]
    mode = e.get("mode", 1)
    want = [k for k in range(1, n + 1) if mode != "last" and (k - 1) % mode == 0]
    if mode == "last" and ended:
        want = [n]
    lab = "%s of mode %s after step %d: " % (e["field"], mode, n)
    if len(recs) != len(want):
        W.fail(lab + "steps written")
        return
    for i, (r, k) in enumerate(zip(recs, want)):
        if k != n:
            continue
        if M.transient:
            W.check_eq(lab + "time", r.t, M.time(k))
        if r.kind == "checkpoint":
            W.check(lab + "earlier steps are kept", bool(r.append) == (i > 0))
        W.check(lab + "kind of file", (r.kind == "checkpoint") == bool(e.get("cp", False)))
        if "label" in e:
            W.check(lab + "label", r.label == e["label"])
        for p in W.points:
            if p.kind in ("cell", "dof"):
                W.check_eq(lab + "value at %s" % p.name, r.vals[p], M.field(e["field"], p, k))


def near(t, times, tol):
    return [abs(u - t) <= tol * t for u in times]


def check_profile(W, M, P, name, e, n, ended):
    recs = W.written(name)
    times = [P.tt[j] for j in e["times"]] if e.get("times") is not None else None
    lab = "profile of %s after step %d: " % (e["field"], n)
    fmt = e.get("header_format", ".2e")
    asked = M.transient and times is not None
    if not recs:
        if not asked:
            if ended or not e.get("write_at_last"):
                W.fail(lab + "written")
        elif e.get("write_at_last"):
            W.check(lab + "written once the last requested time is reached", W.not_(W.and_(*[W.or_(*[near(M.time(k), [t], 0.8e-5)[0] for k in range(1, n + 1)]) for t in times])))
        else:
            W.check(lab + "written at the requested times", W.not_(W.or_(*[c for k in range(1, n + 1) for c in near(M.time(k), times, 0.8e-5)])))
        return
    if e.get("write_at_last"):
        if asked:
            W.check(lab + "written once the last requested time is reached", W.and_(*[t <= M.time(n) * (1 + 1.2e-5) for t in times]))
        elif not ended:
            W.fail(lab + "written at the end only")
            return
    X, kw = recs[-1]
    cols = kw.get("header", "").split(",")[1:]
    if len(cols) != X.shape[1] - 1:
        W.fail(lab + "one heading per column")
        return
    if not asked and len(cols) != n:
        W.fail(lab + "one column per step")
        return
    if len(cols) > n:
        W.fail(lab + "no more columns than steps")
        return
    # rows of the logical vertices
    rows = []
    for p in [p for p in W.points if p.kind == "dof"]:
        r = [i for i in range(X.shape[0]) if abs(float(X[i, 0]) - p.x[0]) < 1e-9]
        if not r:
            W.fail(lab + "position of vertex %s" % p.name)
        elif len(r) == 1:
            rows.append((r[0], p))
    if not M.transient:
        W.check(lab + "heading", cols == ["t=steady"])
        for r, p in rows:
            W.check_eq(lab + "value at %s" % p.name, X[r, 1], M.field(e["field"], p, 1))
        return
    if any(not (c.startswith("t=") and c.endswith("s")) for c in cols):
        W.fail(lab + "headings")
        return
    # the columns are those of some of the steps, in order
    alts = []
    for S in itertools.combinations(range(1, n + 1), len(cols)):
        conj = []
        for j, k in enumerate(S):
            conj.append(W.is_stamp(cols[j][2:-1], M.time(k), fmt))
            conj += [W.eq(X[r, 1 + j], M.field(e["field"], p, k)) for r, p in rows]
            if asked:
                conj.append(W.or_(*near(M.time(k), times, 1.2e-5)))
        if asked:
            conj += [W.not_(c) for k in range(1, n + 1) if k not in S for c in near(M.time(k), times, 0.8e-5)]
        alts.append(W.and_(*conj))
    W.check(lab + "times and values of the columns", W.or_(*alts))
    if asked:
        for t in times:
            W.check(lab + "requested times are not skipped", W.implies(t < M.time(n) * (1 - 1e-4), W.or_(*[near(M.time(k), [t], 1.2e-5)[0] for k in range(1, n + 1)])))


def schedule(W, cfg):
    P = Policy(W, cfg)
    fld, txt = make(W, P, cfg)
    for t in P.tt:
        W.assume(t <= P.final)
        W.assume(t > 0)
    M = P.model(W, base=BARE, exports=[o for _, _, o in fld + txt], **cfg.get("model", {}))
    st = dict(fail=False)

    def outcome(n, att):
        it, conv = P.outcome(n, att)
        st["fail"] = not conv
        return it, conv

    def accepted(n, ended=False):
        for name, e, o in fld:
            check_field(W, M, name, e, o, n, ended)
        for name, e, o in txt:
            check_profile(W, M, P, name, e, n, ended)

    try:
        M.march(cfg.get("steps", 3), outcome, accepted=lambda n: accepted(n, M.over))
    except ValueError:
        if not st["fail"]:
            raise


def steady(W, cfg):
    F = W.F
    P = None
    fld, txt = make(W, P, cfg)
    M = Model(W, dict(cfg.get("model", {}), transient=False))

    def after(n):
        for name, e, o in fld:
            check_field(W, M, name, e, o, 1, True)
        for name, e, o in txt:
            check_profile(W, M, P, name, e, 1, True)

    M.run(lambda ev, n: None, exports=[o for _, _, o in fld + txt], after=after)


HARNESSES = {"schedule": schedule, "steady": steady}
A = dict(adaptive=True)
TR = [dict(mats=[0])]


def X(field, mode=1, **k):
    return dict(field=field, mode=mode, **k)


CONFIGS = [
    ("schedule", dict(steps=4, plain=True, x=[X("solute"), X("solute", 2), X("T", 3), X("solute", "last"), X("0", "last", cp=True)])),
    ("schedule", dict(A, steps=3, x=[X("solute", cp=True, label="here"), X("solute", 2, folder="out"), X("T", "last", folder="out", cp=True)])),
    ("schedule", dict(A, steps=2, fails=2, dtmin=False, long=True, x=[X("solute", cp=True), X("T", 2), X("solute", "last")], p=[dict(field="solute")])),
    ("schedule", dict(A, steps=2, fails=1, dtmin=False, x=[X("solute", cp=True), X("T", 2), X("solute", "last")])),
    ("schedule", dict(steps=3, nt=1, x=[X("solute", 2)], p=[dict(field="solute", times=[0])])),
    ("schedule", dict(steps=2, nt=2, x=[], p=[dict(field="solute", times=[0, 1])])),
    ("schedule", dict(steps=3, nt=2, long=True, x=[], p=[dict(field="solute", times=[0, 1])])),
    ("schedule", dict(steps=2, nt=2, x=[], p=[dict(field="solute", times=[0]), dict(field="T", times=[1], header_format=".4e")])),
    ("schedule", dict(steps=2, nt=2, x=[], p=[dict(field="solute", times=[0, 1], write_at_last=True)])),
    ("schedule", dict(steps=4, x=[], p=[dict(field="solute", write_at_last=True), dict(field="T"), dict(field="solute", header_format=".3f", folder="new/deep/")])),
    ("schedule", dict(A, steps=2, nt=1, long=True, dtmin=False, x=[X("solute", "last")], p=[dict(field="T", times=[0])])),
    ("schedule", dict(A, steps=2, nt=1, fails=1, long=True, dtmin=False, x=[X("solute", 2)], p=[dict(field="solute", times=[0])])),
    ("schedule", dict(steps=2, x=[X("retention", 2), X("1", "last"), X("retention"), X("solute", 2, cp=True)], p=[dict(field="retention"), dict(field="1", write_at_last=True)], model=dict(traps=TR, ic=["mobile", 1]))),
    ("schedule", dict(steps=2, x=[X("solute", 2), X("retention", "last")], p=[dict(field="solute")], model=dict(traps=TR, ic=["mobile", 1], chem=True))),
    ("steady", dict(x=[X("solute"), X("T", "last"), X("solute", 3, cp=True), X("solute", "last", folder="a", cp=True)], p=[dict(field="solute"), dict(field="T", write_at_last=True)])),
    ("steady", dict(x=[X("retention", 2), X("1"), X("retention", "last", cp=True, label="tot")], p=[dict(field="retention", folder="new/"), dict(field="1")], model=dict(traps=TR))),
]
# longer runs
CONFIGS += [
    ("schedule", dict(steps=12, plain=True, long=True, x=[X("solute", 5, cp=True), X("T", 7), X("solute", "last"), X("solute", 4), X("0")], p=[dict(field="solute")])),
    ("schedule", dict(A, steps=9, rate=1.25, seq="ffsfdf", long=True, x=[X("solute", 3), X("T", 4, cp=True), X("solute", "last"), X("0")])),
    ("schedule", dict(steps=7, nt=1, long=True, x=[X("solute", 3)], p=[dict(field="solute", times=[0])])),
]
THOROUGH = [
    ("schedule", dict(steps=24, plain=True, long=True, x=[X("solute", 5), X("T", 11), X("solute", 10, cp=True)], p=[dict(field="solute")])),
    ("schedule", dict(steps=3, nt=2, x=[], p=[dict(field="solute", times=[0, 1])])),
    ("schedule", dict(steps=3, nt=2, x=[], p=[dict(field="solute", times=[0, 1], write_at_last=True)])),
    ("schedule", dict(A, steps=2, fails=2, x=[X("solute", cp=True), X("T", 2), X("solute", "last")], p=[dict(field="solute")])),
    ("schedule", dict(A, steps=2, nt=1, fails=1, x=[X("solute", 2)], p=[dict(field="solute", times=[0])])),
    ("schedule", dict(steps=5, plain=True, x=[X("solute"), X("solute", 2), X("T", 3), X("solute", 4), X("solute", "last")])),
]
