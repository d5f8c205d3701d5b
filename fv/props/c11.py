"""C11: the step-size policy."""
from .stepping import Policy

BOUNDS = "up to 4 accepted steps from the start (up to 16 with a fixed ratio), 0-2 milestones, constant or adaptive step with an arbitrary ratio > 1, cap absent / constant / function of time / deprecated pair, minimum step set or not, up to 2 diverging solves, arbitrary iteration counts (0-40); milestones within the comparison tolerance of an accepted time excluded"


def policy(W, cfg):
    P = Policy(W, cfg)
    M = P.model(W)
    st = dict(expect=None, error=False)

    def capped(d, t):
        c = P.cap(t)
        if c is not None:
            if d > c:
                d = c
        return d

    def check(ev, n, att):
        if n == 1 and att == 1:
            d = P.clip(0, P.init)
        elif att == 1:
            t = M.acc[-1]
            if P.near(t):
                W.stop()
            if P.adaptive:
                d = st["d"] * P.ratio if M.conv_its[-1] < 5 else st["d"] / P.ratio
                d = capped(d, t)
            else:
                d = P.init
            d = P.clip(t, d)
        else:
            # retry of the same step
            d = capped(st["d"] / P.ratio, M.acc[-1])
            W.check("step %d, attempt %d: not below the minimum step" % (n, att), st["d"] / P.ratio >= P.dtmin)
        W.check_eq("step %d, attempt %d: step size" % (n, att), M.dt, d)
        st["d"] = d
        st["fail"] = False

    def outcome(n, att):
        it, conv = P.outcome(n, att)
        st["fail"] = not conv
        return it, conv

    e = None
    try:
        M.march(cfg.get("steps", 3), outcome, check=check, cut=lambda n: None)
    except ValueError as err:
        e = err
    if e is not None:
        if not st["fail"]:
            W.fail("a converged run does not stop")
        elif P.dtmin is not None:
            W.check("the run stops only when the reduced step is below the minimum", st["d"] / P.ratio < P.dtmin)
    elif st["fail"]:
        W.fail("a run does not end with a diverged step")


HARNESSES = {"policy": policy}
A = dict(adaptive=True)
CONFIGS = [
    ("policy", dict(plain=True, steps=4)),
    ("policy", dict(steps=4, nm=1)),
    ("policy", dict(steps=3, nm=2)),
    ("policy", dict(A, steps=4)),
    ("policy", dict(A, steps=3, nm=1)),
    ("policy", dict(A, steps=2, nm=2)),
    ("policy", dict(A, steps=4, cap="num")),
    ("policy", dict(A, steps=2, cap="fun", nm=1)),
    ("policy", dict(A, steps=2, cap="fun", fails=1)),
    ("policy", dict(A, steps=3, cap="stop")),
    ("policy", dict(A, steps=3, fails=1)),
    ("policy", dict(A, steps=2, fails=2, cap="num")),
    ("policy", dict(A, steps=2, fails=1, nm=1)),
    ("policy", dict(A, steps=2, fails=1, dtmin=False)),
    ("policy", dict(steps=3, fails=1, nm=1)),
]
# longer runs: a fixed step and a fixed pattern of outcomes
CONFIGS += [
    ("policy", dict(plain=True, steps=12)),
    ("policy", dict(steps=6, nm=1)),
    ("policy", dict(A, steps=10, rate=1.25, seq="ffsffsdfff")),
    ("policy", dict(A, steps=8, rate=1.5, cap="num", seq="fffsfd")),
    ("policy", dict(A, steps=7, rate=1.25, cap="stop", seq="fffsfs")),
    ("policy", dict(A, steps=6, rate=1.25, nm=1, seq="ffsf", long=True)),
]
THOROUGH = [
    ("policy", dict(plain=True, steps=30)),
    ("policy", dict(A, steps=16, rate=1.25, seq="ffsffsdfff")),
    ("policy", dict(A, steps=12, rate=1.25, nm=1, cap="num", seq="ffsfd", long=True)),
    ("policy", dict(steps=12, nm=1)),
    ("policy", dict(steps=4, nm=2)),
    ("policy", dict(A, steps=4, nm=1)),
    ("policy", dict(A, steps=3, cap="fun", nm=1)),
    ("policy", dict(A, steps=4, cap="stop")),
    ("policy", dict(A, steps=3, fails=2)),
    ("policy", dict(A, steps=3, fails=1, nm=1, cap="num")),
]
