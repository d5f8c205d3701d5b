#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]   decide one property
   check.py --replay FILE                      re-run a counterexample on the real code

Solver-based check: the harnesses of fv/props/<id>.py run festim's code from the
current working tree of /repo with symbolic numbers; every obligation is decided by
z3 for all values on every feasible path.  Counterexamples are replayed on the real
festim + dolfin before they are reported.  See DESIGN.md.
"""
import argparse
import concurrent.futures as cf
import importlib
import json
import multiprocessing as mp
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
if os.path.exists(PY) and os.path.realpath(sys.prefix) != os.path.realpath("/opt/venv"):
    os.execv(PY, [PY] + sys.argv)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
REPO = os.environ.get("FV_REPO", "/repo")
for k, v in dict(
    HOME="/root",
    OMP_NUM_THREADS="1",
    OMPI_ALLOW_RUN_AS_ROOT="1",
    OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1",
    PYTHONDONTWRITEBYTECODE="1",
    PYTHONWARNINGS="ignore",
).items():
    os.environ.setdefault(k, v)
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"


# ------------------------------------------------------------------ symbolic part
def _init_worker(scratch):
    d = tempfile.mkdtemp(dir=scratch)
    os.chdir(d)
    os.environ["DIJITSO_CACHE_DIR"] = d
    fd = os.open(os.devnull, os.O_WRONLY)
    os.dup2(fd, 2)
    os.dup2(fd, 1)


_seen = set()


def _start_trace():
    mon = sys.monitoring
    if mon.get_tool(3) is None:
        mon.use_tool_id(3, "fv")
        root = os.path.realpath(REPO) + "/festim/"

        def start(code, off):
            fn = os.path.realpath(code.co_filename)
            if fn.startswith(root):
                _seen.add("%s:%s" % (fn[len(root) - len("festim/"):], code.co_qualname))
            return mon.DISABLE

        mon.register_callback(3, mon.events.PY_START, start)
        mon.set_events(3, mon.events.PY_START)


def _symbolic(args):
    modname, idx, harness, cfg, timeout_ms, deadline = args
    t0 = time.time()
    try:
        sys.setrecursionlimit(20000)
        mod = importlib.import_module(modname)
        from fv.runner import explore
        from fv.symworld import load_festim

        load_festim()
        _start_trace()
        r = explore(mod.HARNESSES[harness], harness, cfg, timeout_ms=timeout_ms, deadline=deadline)
    except BaseException as e:  # noqa: BLE001
        import traceback

        r = dict(
            harness=harness, cfg=cfg, labels={}, cex=[], unknown=[], engine=["%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-1500:])],
            vacuous=0, paths=0, aborted=0, decisions=0, queries=0, solver_s=0.0, obligations=0, proved=0, vacuity=0, wall_s=time.time() - t0,
        )
    r["idx"] = idx
    r["functions"] = sorted(_seen)
    return r


# ------------------------------------------------------------------ concrete part
def run_real(modname, jobs, scratch, timeout):
    """run jobs in one subprocess on the real festim/dolfin; list of result dicts"""
    d = tempfile.mkdtemp(dir=scratch)
    env = dict(os.environ)
    env["DIJITSO_CACHE_DIR"] = os.path.join(scratch, "jit")
    env["PYTHONPATH"] = HERE
    spec = json.dumps({"module": modname, "scratch": d, "jobs": jobs})
    try:
        p = subprocess.run(
            [sys.executable, "-m", "fv.realworld"], input=spec.encode(), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env, cwd=HERE, timeout=timeout
        )
        return json.loads(p.stdout.decode() or "null") or [{"status": "crash", "failures": [], "used": {}}] * len(jobs)
    except subprocess.TimeoutExpired:
        return [{"status": "timeout", "failures": [], "used": {}}] * len(jobs)
    except Exception as e:  # noqa: BLE001
        return [{"status": "crash", "failures": [], "used": {}, "why": str(e)}] * len(jobs)


def known_findings(prop):
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r"known: property=(\S+) harness=(\S+) label=/(.*?)/ cfg=(\{.*?\}) :: (.*)", ln.strip())
            if m and m.group(1) == prop:
                out.append(dict(harness=m.group(2), label=m.group(3), cfg=json.loads(m.group(4)), what=m.group(5)))
    return out


def is_known(kf, harness, cfg, failure):
    for k in kf:
        if k["harness"] == harness and all(cfg.get(a) == b for a, b in k["cfg"].items()):
            if re.fullmatch(k["label"], failure["label"]):
                return k
    return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--only", type=int, nargs="*")
    ap.add_argument("--noconf", action="store_true")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    scratch = tempfile.mkdtemp(prefix="fv_")
    try:
        if a.replay:
            return replay_file(a.replay, scratch)
        return decide(a, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def replay_file(path, scratch):
    d = json.load(open(path))
    r = run_real(d["module"], [dict(harness=d["harness"], cfg=d["cfg"], values=d["values"], seed=d.get("seed", 1))], scratch, 600)[0]
    print(json.dumps({"status": r["status"], "failures": r["failures"]}, indent=1)[:4000])
    return 1 if r["status"] == "fail" else 0


def decide(a, scratch):
    t0 = time.time()
    prop, tier = a.prop, a.tier
    seed = int(os.environ.get("VERIF_SEED", "1"))
    modname = "fv.props." + prop.lower()
    mod = importlib.import_module(modname)
    quick = tier != "thorough"
    configs = list(mod.CONFIGS) + ([] if quick else list(getattr(mod, "THOROUGH", [])))
    idxs = list(range(len(configs)))
    if a.only is not None:
        idxs = a.only
    timeout_ms = 10000 if quick else 60000
    sym_deadline = t0 + (300 if quick else 3000)
    kf = known_findings(prop)

    # --- conformance candidates: configurations x seeds on the real code
    conf_list = getattr(mod, "CONFORM", None)
    if conf_list is None:
        n = len(mod.CONFIGS)
        k = min(n, 6)
        conf_list = sorted({(i * n) // k for i in range(k)}) if n else []
    if not quick:
        conf_list = list(range(len(configs)))
    conf_list = [i for i in conf_list if i in idxs]
    conf_jobs = []
    if not a.noconf:
        for s in ((seed,) if quick else (seed, seed + 1)):
            for i in conf_list:
                h, cfg = configs[i]
                conf_jobs.append((i, dict(harness=h, cfg=cfg, values={}, seed=s)))
    ctx = mp.get_context("spawn")
    results = []
    conf = []
    ncpu = max(2, min(8, os.cpu_count() or 2))
    with cf.ProcessPoolExecutor(max_workers=min(ncpu, max(1, len(idxs))), mp_context=ctx, initializer=_init_worker, initargs=(scratch,)) as ex, cf.ThreadPoolExecutor(max_workers=ncpu // 2) as tx:
        cost = getattr(mod, "COST", lambda h, c: 0)
        order = sorted(idxs, key=lambda i: -cost(*configs[i]))
        futs = [ex.submit(_symbolic, (modname, i, configs[i][0], configs[i][1], timeout_ms, sym_deadline)) for i in order]
        nproc = ncpu // 2
        chunks = [conf_jobs[k::nproc] for k in range(nproc)]
        ctime = 240 if quick else 2400
        cfuts = [(c, tx.submit(run_real, modname, [j for _, j in c], scratch, ctime)) for c in chunks if c]
        for ft, i in zip(futs, order):
            try:
                results.append(ft.result(timeout=max(5, sym_deadline + 60 - time.time())))
            except BaseException as e:  # noqa: BLE001
                results.append(dict(harness=configs[i][0], cfg=configs[i][1], labels={}, cex=[], unknown=[], engine=["worker: %r" % e], vacuous=0, paths=0, aborted=0, decisions=0, queries=0, solver_s=0.0, obligations=0, proved=0, vacuity=0, wall_s=0, idx=i, functions=[]))
        for c, ft in cfuts:
            for (i, j), r in zip(c, ft.result()):
                conf.append((i, j, r))
        for pr in list(getattr(ex, "_processes", {}).values()):
            if any(not ft.done() for ft in futs):
                pr.kill()

    # --- replay
    notes, violations, known = [], [], []
    for i, j, r in conf:
        if r["status"] == "fail":
            for fl in r["failures"]:
                k = is_known(kf, j["harness"], j["cfg"], fl)
                (known.append(k["what"]) if k else violations.append((i, j, r, fl, "conformance run")))
        elif r["status"] != "ok":
            notes.append("conformance %s cfg %d: %s %s" % (j["harness"], i, r["status"], r.get("why", "")))
    jobs = []
    for r in results:
        i = r["idx"]
        h, cfg = configs[i]
        cands = []
        for c in r["cex"]:
            k = is_known(kf, h, cfg, c)
            lst = []
            for m in c["models"]:
                lst.append(dict(harness=h, cfg=cfg, values=m, seed=seed))
            if c["models"]:
                pins = {n: v for n, v in c["models"][0].items() if isinstance(v, (bool, int)) and not isinstance(v, float)}
                for s in range(3):
                    lst.append(dict(harness=h, cfg=cfg, values=pins, seed=seed + 100 + s))
            else:
                for s in range(3):
                    lst.append(dict(harness=h, cfg=cfg, values={}, seed=seed + 100 + s))
            cands.append((c["label"], lst, c, k))
        if (r["unknown"] or r["engine"] or r["vacuous"]) and not cands:
            why = "unknown: %s" % r["unknown"][:2] if r["unknown"] else ("engine: %s" % r["engine"][0][:1200] if r["engine"] else "vacuous path")
            notes.append("INCONCLUSIVE %s cfg %d %s: %s" % (h, i, json.dumps(cfg), why))
            if not any(i == ci for ci, _, _ in conf):
                cands.append(("undecided", [dict(harness=h, cfg=cfg, values={}, seed=seed + 100 + s) for s in range(2)], {"label": "undecided"}, None))
        for lab, lst, c, k in cands:
            jobs.append((i, lab, lst, c, k))
    conf_viol, violations = violations, []
    if jobs:
        # at most 2 labels per configuration, known findings always
        sel, cnt = [], {}
        for jb in jobs:
            cnt[jb[0]] = cnt.get(jb[0], 0) + 1
            if cnt[jb[0]] <= 2 or jb[4]:
                sel.append(jb)
        end = t0 + (800 if quick else 5000)

        def one(jb):
            i, lab, lst, c, k = jb
            left = end - time.time()
            if left < 5 or violations and not k:
                return jb, None
            return jb, run_real(modname, lst, scratch, min(300, left))

        with cf.ThreadPoolExecutor(max_workers=ncpu) as tx:
            for jb, rs in tx.map(one, sel):
                i, lab, lst, c, k = jb
                if rs is None:
                    continue
                hit = False
                free = [r for j, r in zip(lst, rs) if j["seed"] >= seed + 100]
                for j, r in zip(lst, rs):
                    if lab.startswith("exception:") and j["seed"] == seed and not any(fl["label"] == lab for fl in r["failures"]) and not any(x["status"] == "fail" for x in free):
                        # an exception of the symbolic run alone, whose values satisfy nothing that
                        # the harness assumes later on: another failure there proves nothing
                        continue
                    if r["status"] == "fail":
                        for fl in r["failures"]:
                            kk = is_known(kf, j["harness"], j["cfg"], fl)
                            if kk:
                                known.append(kk["what"])
                                hit = True
                            else:
                                violations.append((i, j, r, fl, "solver counterexample to: " + lab))
                                hit = True
                    if hit:
                        break
                if not hit and lab != "undecided":
                    notes.append("SPURIOUS/unreproduced %s cfg %d %s: %s %s (real runs: %s)" % (lst[0]["harness"], i, json.dumps(lst[0]["cfg"]), lab, c.get("info", ""), [r["status"] for r in rs]))

    # the solver's counterexamples come first; a failing conformance run is a concrete
    # violation on the real code as well
    violations += [v for v in conf_viol if not any(v[0] == w[0] for w in violations)]

    # --- report
    proved = sum(r["proved"] for r in results)
    obl = sum(r["obligations"] for r in results)
    for what in sorted(set(known)):
        print("KNOWN-FINDING: property=%s %s" % (prop, what))
    for n in notes:
        print("NOTE:", n if a.v else n[:600])
    rc = 0
    if violations:
        rc = 1
        rdir = os.path.join(HERE, "evidence", "replays")
        os.makedirs(rdir, exist_ok=True)
        seen = set()
        for i, j, r, fl, how in violations:
            if i in seen or len(seen) >= 5:
                continue
            seen.add(i)
            path = os.path.join(rdir, "%s_%s_%d.json" % (prop, j["harness"], i))
            json.dump(dict(property=prop, module=modname, harness=j["harness"], cfg=j["cfg"], values=r.get("used") or j["values"], seed=j["seed"], failures=r["failures"][:10], found_by=how), open(path, "w"), indent=1, default=str)
            print("  %s cfg=%s\n  fails: %s got=%s expected=%s (%s)" % (j["harness"], json.dumps(j["cfg"]), fl["label"], fl.get("got"), fl.get("expected"), how))
            print("VIOLATION property=%s replay=%s" % (prop, path))
    funcs = sorted({x for r in results for x in r["functions"]})
    samples = []
    for r in results[:4]:
        samples.append(dict(harness=r["harness"], cfg=r["cfg"], paths=r["paths"], obligations=list(r["labels"].items())[:6]))
    man = {}
    ev = dict(
        property=prop,
        tier="thorough" if not quick else "quick",
        seed=seed,
        level="model_checking",
        coverage=dict(
            states=sum(r["paths"] for r in results),
            transitions=sum(r["decisions"] for r in results),
            traces_validated_against_impl=sum(1 for _, _, r in conf if r["status"] == "ok"),
            samples=samples,
            configurations=len(results),
            obligations=obl,
            discharged=proved,
            queries=sum(r["queries"] for r in results),
            solver_s=round(sum(r["solver_s"] for r in results), 3),
            reachability_queries=sum(r["vacuity"] for r in results),
            vacuous_paths=sum(r["vacuous"] for r in results),
            undecided=sum(len(r["unknown"]) for r in results),
            engine_errors=sum(1 for r in results if r["engine"]),
            functions_encoded=funcs,
            bounds=getattr(mod, "BOUNDS", ""),
            meaning="states = feasible symbolic paths explored to the end; transitions = symbolic branch decisions; traces validated = concrete runs of the same harness on the real festim+dolfin that agreed",
            notes=notes[:20],
            known_findings=sorted(set(known)),
        ),
        assumptions=list(getattr(mod, "ASSUMPTIONS", [])) + STUBS,
        wall_s=round(time.time() - t0, 2),
        violations=len({v[0] for v in violations}),
    )
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1, default=str)
    print(
        "%s %s: %d configurations, %d paths, %d/%d obligations proved, %d queries, solver %.1fs, %d conformance runs ok of %d, wall %.1fs -> %s"
        % (prop, tier, len(results), ev["coverage"]["states"], proved, obl, ev["coverage"]["queries"], ev["coverage"]["solver_s"], ev["coverage"]["traces_validated_against_impl"], len(conf), time.time() - t0, "VIOLATED" if rc else "held")
    )
    sys.stdout.flush()
    return rc


STUBS = [
    "numbers are exact reals (floats of the source read as decimal rationals to 13 significant digits); exp/log/trigonometric functions are uninterpreted apart from congruence and exp(a)exp(b)=exp(a+b), sqrt by its defining axioms",
    "dolfin is replaced by a pointwise model: form integrands are evaluated at symbolic points of each marked cell/facet; discrete solutions are arbitrary fields",
    "the nonlinear solver is a stub that returns an arbitrary field, iteration count and convergence flag",
]

if __name__ == "__main__":
    sys.exit(main())
