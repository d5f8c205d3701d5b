"""C10: accepted times."""
from .stepping import Policy, check_step_constant, note_rates

BOUNDS = "up to 4 accepted steps from the start (plus one complete run; 6-12 with a fixed step or a fixed pattern of outcomes and ratio), 0-2 milestones at arbitrary reals in any order, constant or adaptive step with an arbitrary ratio > 1, cap absent / constant / function of time / deprecated pair, up to 2 diverging solves, arbitrary iteration counts; 1D one-volume model"


def march(W, cfg):
    P = Policy(W, cfg)
    F = W.F
    M = P.model(W, exports=[F.XDMFExport("solute", filename="f.xdmf", mode=1, checkpoint=False)] + P.txt())
    tol = 1.1e-5

    def accepted(n, export=True):
        lab = "step %d: " % n
        t, tp = M.acc[n], M.acc[n - 1]
        W.check(lab + "time increases", t > tp)
        W.check(lab + "final time is not exceeded", t <= P.final)
        for i, m in enumerate(P.ms):
            W.check(lab + "milestone %d is not passed" % i, W.implies(W.and_(m > tp, m - tp > tol * m), t <= m * (1 + 1e-9)))
        check_step_constant(M, M.hist[n - 1], n, lab + "step used in the equations")
        recs = [r for r in W.files if r.filename == "f.xdmf"]
        if not export:
            return
        if len(recs) != n:
            W.fail(lab + "one export per accepted step")
        else:
            W.check_eq(lab + "time of the exported step", recs[-1].t, t)

    try:
        M.march(cfg.get("steps", 3), P.outcome, check=lambda *a: note_rates(M, *a), accepted=accepted, cut=lambda n: accepted(n, False))
    except ValueError:
        # a diverging step that cannot be reduced any further (see C11, C12)
        if P.nfail == 0:
            W.fail("a converged run does not stop")
        return
    W.check("the run ends at the final time", W.and_(M.acc[-1] <= P.final, M.acc[-1] >= P.final * (1 - tol)))
    W.check_eq("time of the simulation after the run", M.sim.t, M.acc[-1])


HARNESSES = {"march": march}
A = dict(adaptive=True)
CONFIGS = [
    ("march", dict(plain=True, steps=5)),
    ("march", dict(steps=4, nm=1)),
    ("march", dict(steps=3, nm=2)),
    ("march", dict(A, steps=4)),
    ("march", dict(A, steps=3, nm=1)),
    ("march", dict(A, steps=2, nm=2)),
    ("march", dict(A, steps=4, cap="num")),
    ("march", dict(A, steps=2, cap="fun", nm=1)),
    ("march", dict(A, steps=3, cap="stop")),
    ("march", dict(A, steps=2, fails=2)),
    ("march", dict(A, steps=2, fails=1, nm=1, cap="num")),
    ("march", dict(steps=3, nm=1, nt=1)),
    ("march", dict(plain=True, steps=3, nt=2)),
    ("march", dict(A, steps=2, nt=1, nm=1)),
]
# longer runs: a fixed step and a fixed pattern of outcomes
CONFIGS += [
    ("march", dict(plain=True, steps=12)),
    ("march", dict(steps=6, nm=1)),
    ("march", dict(A, steps=10, rate=1.25, seq="ffsffsdfff")),
    ("march", dict(A, steps=8, rate=1.5, cap="num", seq="fffsfd")),
    ("march", dict(A, steps=7, rate=1.25, cap="stop", seq="fffsfs")),
    ("march", dict(A, steps=6, rate=1.25, nm=1, seq="ffsf", long=True)),
]
THOROUGH = [
    ("march", dict(plain=True, steps=30)),
    ("march", dict(A, steps=16, rate=1.25, seq="ffsffsdfff")),
    ("march", dict(A, steps=12, rate=1.25, nm=1, cap="num", seq="ffsfd", long=True)),
    ("march", dict(steps=12, nm=1)),
    ("march", dict(steps=4, nm=2)),
    ("march", dict(steps=2, nm=3)),
    ("march", dict(A, steps=4, nm=1)),
    ("march", dict(A, steps=3, nm=2)),
    ("march", dict(A, steps=3, cap="fun", nm=1)),
    ("march", dict(A, steps=3, fails=2)),
    ("march", dict(A, steps=3, fails=1, nm=1, cap="num")),
]
