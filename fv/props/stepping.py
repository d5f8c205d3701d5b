"""Symbolic step-size policies shared by the time-marching properties."""
from .common import Model

BARE = dict(marks=[1], ids=[1], T="x0", ic=["mobile"])


class Policy:
    """cfg: adaptive, cap (None/"num"/"fun"/"stop"), dtmin, nm (milestones), plain,
    rate (fixed ratio), seq (fixed outcomes), long (the end is out of reach)"""

    def __init__(self, W, cfg):
        self.W, self.cfg = W, cfg
        F = W.F
        self.init = W.real("dt0", pos=True, lo=0.5, hi=1.5)
        self.final = W.real("final", pos=True, lo=1.0, hi=8.0)
        self.ms = [W.real("m%d" % i, lo=0.3, hi=4.0) for i in range(cfg.get("nm", 0))]
        if cfg.get("long"):
            # the end of the run is out of reach of the explored steps
            self.final = 100 * self.init
        self.ratio = self.dtmin = None
        self.cap = lambda t: None
        self.adaptive = cfg.get("adaptive", False)
        kw = {}
        if cfg.get("nm"):
            kw["milestones"] = list(self.ms)
        if self.adaptive:
            self.ratio = cfg["rate"] if "rate" in cfg else W.real("ratio", lo=1.1, hi=2.0)
            W.assume(self.ratio > 1)
            if cfg.get("long"):
                W.assume(self.ratio <= 2)
            kw["stepsize_change_ratio"] = self.ratio
            if cfg.get("dtmin", True):
                self.dtmin = W.real("dtmin", pos=True, lo=0.01, hi=0.4)
                kw["dt_min"] = self.dtmin
            cap = cfg.get("cap")
            if cap == "num":
                c = W.real("cap", pos=True, lo=0.5, hi=2.0)
                self.cap = lambda t: c
                kw["max_stepsize"] = c
            elif cap == "fun":
                c0, c1, ts = W.real("cap", pos=True), W.real("capt", pos=True, lo=0.1, hi=0.5), W.real("capstart", lo=0.5, hi=2.0)

                def fun(t):
                    if t >= ts:
                        return c0 + c1 * t
                    return None

                self.cap = fun
                kw["max_stepsize"] = fun
            elif cap == "stop":
                c0, ts = W.real("cap", pos=True), W.real("capstart", pos=True, lo=0.5, hi=2.0)

                def fun(t):
                    if t >= ts:
                        return c0
                    return None

                self.cap = fun
                kw["t_stop"] = ts
                kw["stepsize_stop_max"] = c0
        self.dt = self.init if cfg.get("plain") else F.Stepsize(self.init, **kw)
        self.settings = lambda **k: F.Settings(1e-10, 1e-10, transient=True, final_time=self.final, **k)
        self.nfail = self.solves = 0
        # requested profile times are milestones too
        self.tt = [W.real("tx%d" % i, pos=True, lo=0.3, hi=4.0) for i in range(cfg.get("nt", 0))]
        self.ms = self.ms + self.tt

    def txt(self, **k):
        return [self.W.F.TXTExport("solute", "p.txt", times=list(self.tt), **k)] if self.tt else []

    def outcome(self, n, att):
        """arbitrary iteration count; failures within the budget of the configuration,
        or a fixed pattern of fast (f), slow (s) and diverging (d) solves"""
        W = self.W
        if "seq" in self.cfg:
            what = self.cfg["seq"][self.solves % len(self.cfg["seq"])]
            self.solves += 1
            self.nfail += what == "d"
            lo, hi = (0, 4) if what == "f" else (5, 40)
            return W.int("it%d_%d" % (n, att), lo, hi), what != "d"
        it = W.int("it%d_%d" % (n, att), 0, 40)
        conv = True
        if self.nfail < self.cfg.get("fails", 0):
            conv = W.bool("conv%d_%d" % (n, att))
            if not conv:
                self.nfail += 1
        return it, conv

    def near(self, t):
        """a milestone ahead within the tolerance of the comparison"""
        W = self.W
        for m in self.ms:
            if W.and_(m > t, m - t <= 1.1e-5 * m):
                return True
        return False

    def clip(self, t, d):
        for m in self.ms:
            if m > t:
                if t + d > m:
                    d = m - t
        if t + d > self.final:
            d = self.final - t
        return d

    def model(self, W, base=BARE, exports=None, **over):
        M = Model(W, dict(base, **over))
        M.build(exports=exports, dt=self.dt, settings=self.settings(soret=bool(M.soret), chemical_pot=M.chem, **{k: M.cfg[k] for k in ("traps_element_type", "update_jacobian") if k in M.cfg}))
        return M


def note_rates(M, ev, n, att):
    """keep the storage terms handed to the solver"""
    ev.rates = {p: M.W.wf(ev.F, p, 0)[0] for p in M.W.cellpts()}


def check_step_constant(M, ev, n, lab):
    """the step in the equations is the difference of the accepted times"""
    W = M.W
    for p, A in ev.rates.items():
        W.check_eq("%s (%s)" % (lab, p.name), A * (M.acc[n] - M.acc[n - 1]), ev.sol.val(0, p) - M.prev(n, 0, p))
