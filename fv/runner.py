"""Symbolic exploration of one harness configuration."""
import contextlib
import io
import os
import sys
import time
import traceback
import warnings

from .sym import Context, EngineError, PathAbort, Stats, StopHarness, SymBool, z3, zbool, zreal, frac


def to_py(v):
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return float(v.numerator_as_long()) / float(v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(12)
        return float(a.numerator_as_long()) / float(a.denominator_as_long())
    return None


class Result:
    def __init__(self, name, cfg):
        self.name, self.cfg = name, cfg
        self.labels = {}
        self.cex = []
        self.unknown = []
        self.engine = []
        self.vacuous = 0
        self.max_cex = 4
        self.sat_labels = set()

    def bind(self, ctx, W):
        self.ctx, self.W = ctx, W

    # ------------------------------------------------------------ obligations
    def obligation(self, label, claim):
        st = self.ctx.stats
        if self.ctx.pos < self.ctx.start_len:
            return
        st.obligations += 1
        self.labels.setdefault(label, [0, 0])
        self.labels[label][0] += 1
        neg = z3.Not(claim)
        r = self.ctx.solve([neg])
        if r == z3.unsat:
            st.proved += 1
            self.labels[label][1] += 1
            return
        if r == z3.unknown:
            self.unknown.append(label)
            return
        if label in self.sat_labels or len(self.cex) >= self.max_cex:
            self.sat_labels.add(label)
            return
        self.sat_labels.add(label)
        self.cex.append({"label": label, "models": self.models(neg)})

    def hint_constraints(self):
        out = []
        for n, (lo, hi) in self.W.hints.items():
            z = self.ctx.inputs.get(n)
            if z is None or z3.is_bool(z):
                continue
            if z3.is_int(z):
                continue
            out += [z >= zreal(lo), z <= zreal(hi)]
        return out

    def models(self, neg=None):
        out = []
        extra = [] if neg is None else [neg]
        for hints in (self.hint_constraints(), []):
            r, m = self.ctx.solve(extra + hints, model=True, timeout=8000)
            if r == z3.sat:
                out.append({n: to_py(m.eval(z, model_completion=True)) for n, z in self.ctx.inputs.items()})
        return out

    def exception(self, exc, tb):
        label = "exception:%s" % type(exc).__name__
        if label in self.sat_labels:
            return
        r = self.ctx.solve([])
        if r == z3.unsat:
            return
        self.sat_labels.add(label)
        self.cex.append({"label": label, "models": self.models(), "info": "%s: %s" % (type(exc).__name__, exc), "tb": tb})


def explore(fn, name, cfg, timeout_ms=20000, max_paths=4000, deadline=None):
    """run harness fn(W, cfg) on every feasible path; returns a plain dict"""
    from .symworld import SymWorld

    st = Stats()
    ctx = Context(st, max_paths=max_paths, timeout_ms=timeout_ms)
    res = Result(name, cfg)
    t0 = time.time()
    cover = set()

    def one():
        if deadline and time.time() > deadline:
            raise EngineError("time budget exhausted")
        W = SymWorld(ctx, cfg)
        W.res = res
        res.bind(ctx, W)
        W.cover = cover
        try:
            with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
                warnings.simplefilter("ignore")
                fn(W, cfg)
        except (EngineError, PathAbort):
            raise
        except StopHarness:
            pass
        except Exception as e:  # noqa: BLE001
            res.exception(e, traceback.format_exc()[-1800:])
        # reachability twin: the path itself must be satisfiable
        r = ctx.solve([], timeout=2000)
        st.vacuity += 1
        if r == z3.unsat:
            res.vacuous += 1

    err = None
    try:
        ctx.explore(one)
    except EngineError as e:
        err = "EngineError: %s" % (e,)
        res.engine.append(err + "\n" + traceback.format_exc()[-1500:])
    except RecursionError as e:
        err = "RecursionError"
        res.engine.append(err)
    except z3.Z3Exception as e:
        err = "Z3Exception %s" % e
        res.engine.append(err + "\n" + traceback.format_exc()[-1500:])
    return {
        "harness": name,
        "cfg": cfg,
        "labels": {k: v for k, v in res.labels.items()},
        "cex": res.cex,
        "unknown": res.unknown,
        "engine": res.engine,
        "vacuous": res.vacuous,
        "paths": st.paths,
        "aborted": st.aborted,
        "decisions": st.decisions,
        "queries": st.queries,
        "solver_s": st.solver_s,
        "obligations": st.obligations,
        "proved": st.proved,
        "vacuity": st.vacuity,
        "wall_s": time.time() - t0,
    }
