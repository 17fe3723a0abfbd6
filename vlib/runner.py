"""Runs the harness tasks of a property: explores all paths symbolically, replays
counterexamples on the unpatched code, writes the evidence."""
import argparse
import hashlib
import importlib
import inspect
import json
import logging
import multiprocessing as mp
import os
import random
import re
import resource
import subprocess
import sys
import time
import traceback
import warnings
from fractions import Fraction

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")

TASKS = []


class Task:
    def __init__(self, fn, name, cfg, tier, budget, extra, bound, deep):
        self.fn, self.name, self.cfg, self.tier, self.budget = fn, name, cfg, tier, budget
        self.extra, self.bound, self.deep = extra, bound, deep

    @property
    def id(self):
        c = ",".join(f"{k}={v}" for k, v in self.cfg.items())
        return f"{self.name}({c})"


def task(configs=({},), thorough=(), budget=None, extra=(), bound=""):
    """register a harness function; each configuration is one task"""

    def deco(fn):
        for c in configs:
            TASKS.append(Task(fn, fn.__name__, c, "quick", budget, extra, bound, False))
        for c in thorough:
            TASKS.append(Task(fn, fn.__name__, c, "thorough", budget, extra, bound, True))
        return fn

    return deco


_ready = False


def load_real():
    """import the real code (unpatched)"""
    global _ready
    if _ready:
        return
    warnings.filterwarnings("ignore")
    logging.disable(logging.CRITICAL)
    sys.path[:0] = [os.path.join(REPO, "src")]
    import numpy as np

    np.seterr(all="ignore")
    import qp  # noqa
    import qp.metrics  # noqa

    for m in ("qp.metrics.concrete_metric_classes", "qp.metrics.point_estimate_metric_classes", "qp.metrics.pit",
              "qp.metrics.brier", "qp.metrics.array_metrics", "qp.metrics.goodness_of_fit", "qp.packing_utils",
              "qp.sparse_rep", "qp.conversion_funcs", "qp.dict_utils", "qp.utils"):
        try:
            importlib.import_module(m)
        except Exception:  # a tree may not have it any more
            pass
    where = os.path.realpath(qp.__file__)
    if not where.startswith(os.path.realpath(REPO) + os.sep):
        print(f"ERROR: qp was imported from {where}, not from {REPO}", file=sys.stderr)
        sys.exit(2)
    _ready = True


def conc_run(fn, cfg, values, strict=1.0):
    """-> (status, failures, observations); status: ok | assume | exc"""
    from . import ctx, sym

    c = ctx.ConcCtx(values, strict=strict)
    saved = sym.CUR
    sym.CUR = None
    try:
        import numpy as np

        with np.errstate(all="ignore"), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            fn(c, **cfg)
    except sym.AssumeFailed:
        return "assume", [], c.obs
    except Exception as e:  # noqa
        tb = traceback.extract_tb(e.__traceback__)
        last = [f for f in tb if "/verif/" not in f.filename] or tb
        inqp = any("/qp/" in f.filename for f in tb)
        where = f"{os.path.basename(last[-1].filename)}"
        return "exc", [(f"exception:{type(e).__name__}", None, f"{type(e).__name__}: {e} ({where}) qp={inqp}")], c.obs
    finally:
        sym.CUR = saved
    return "ok", c.failed, c.obs


def _variants(values, rng):
    """the model itself, then dyadic roundings of it"""
    yield values
    for k in (6, 12, 20):
        yield {n: (v if v.denominator == 1 else Fraction(round(v * 2**k), 2**k)) for n, v in values.items()}
    for k in range(6):
        yield {n: (v if v.denominator == 1 and k < 3 and n.endswith("!i") else
                   v + Fraction(rng.randint(-64, 64), 64 * 8 ** (k % 3))) if not isinstance(v, int) else v for n, v in values.items()}


class Collect:
    """names of the qp functions executed symbolically"""

    def __init__(self):
        self.fns = {}

    def __call__(self, frame, event, arg):
        if event == "call":
            co = frame.f_code
            f = co.co_filename
            i = f.find("/qp/")
            if i >= 0 and "/src/qp/" in f:
                k = f[i + 1:] + ":" + co.co_qualname
                if k not in self.fns:
                    self.fns[k] = (co.co_firstlineno, f)


def _src_hash(fns):
    h = hashlib.sha256()
    for k in sorted(fns):
        line, f = fns[k]
        try:
            lines = open(f).read().splitlines()
            blk = inspect.getblock([x + "\n" for x in lines[line - 1:]])
            h.update("".join(blk).encode())
        except Exception:  # noqa
            pass
    return h.hexdigest()[:16]


def run_task(t, deadline, maxval=25, verbose=False, maxpaths=100000, report=None):
    """explore one task; returns a plain dict (report: is told of each violation as it is found)"""
    import random as _r

    import z3

    from . import ctx, models, sym

    z3.set_param("smt.random_seed", SEED)
    stats = sym.Stats()
    work = [([], [])]
    col = Collect()
    found = {}
    told = 0
    samples, exc_notes, errors = [], {}, {}
    observed_paths = 0
    pending_val = []
    reached = 0
    rng = _r.Random(SEED)
    t0 = time.time()
    complete = True
    depth = 0
    killed = 0
    while work:
        if report and len(found) > told:
            told = len(found)
            report(_found(found))
        if time.time() > deadline or stats.paths >= maxpaths or len(found) >= 3:
            complete = len(found) >= 3
            break
        # mostly depth-first; with a nearly exhausted budget prefer diversity
        pre = work.pop() if (stats.paths % 4) else work.pop(rng.randrange(len(work)))
        p = sym.Path(pre, stats, work, deadline)
        c = ctx.SymCtx(p)
        models.install(t.extra)
        first = stats.paths == 0 or stats.paths in (3, 10, 30)
        sym.CUR = p
        exc = None
        ok = True
        try:
            if first:
                sys.setprofile(col)
            try:
                t.fn(c, **t.cfg)
            finally:
                sys.setprofile(None)
        except sym.PathAbort as e:
            ok = False
            stats.aborted += 1
            r = str(e)
            exc_notes[r] = exc_notes.get(r, 0) + 1
            if r in ("deadline", "unknown", "integer enumeration"):
                complete = False
        except sym.AssumeFailed:
            ok = False
        except RecursionError as e:
            exc = e
        except z3.Z3Exception as e:
            exc = e
            if time.time() > deadline:  # interrupted
                ok, exc = False, None
                complete = False
                exc_notes["deadline"] = exc_notes.get("deadline", 0) + 1
        except Exception as e:  # noqa
            exc = e
        m = None
        vals = None
        try:
            if ok:
                m = p.model()
                vals = p.input_values(m)
        except sym.PathAbort as e:
            if str(e) == "infeasible":
                ok = False
            elif exc is not None or c.found:
                ok = False
                complete = False
                exc_notes[str(e)] = exc_notes.get(str(e), 0) + 1
            else:  # every assertion was decided; there is only no model to replay
                exc_notes["no model: " + str(e)] = exc_notes.get("no model: " + str(e), 0) + 1
        sym.CUR = None
        if not ok:
            continue
        stats.paths += 1
        depth = max(depth, len(p.trace))
        models.uninstall()
        if exc is not None:
            label = f"exception:{type(exc).__name__}"
            hit = None
            for v in _variants(vals, rng):
                st, fails, _ = conc_run(t.fn, t.cfg, v)
                if st == "exc" or (st == "ok" and fails):
                    hit = (fails[0], v)
                    break
            if hit:
                (lab, kid, det), v = hit
                found.setdefault((lab, kid), (v, det))
            else:
                tb = traceback.format_exception(type(exc), exc, exc.__traceback__)
                key = label + ": " + str(exc)[:100]
                if key not in errors:
                    errors[key] = "".join(tb[-6:])[-1500:]
                stats.errors.append(key)
                complete = False
            continue
        if c.reached:
            reached += 1
        for label, kid, v0 in c.found:
            if (label, kid) in found:
                continue
            hit = None
            seen_assume = 0
            for v in _variants(v0, rng):
                st, fails, _ = conc_run(t.fn, t.cfg, v, strict=0.5)
                same = [f for f in fails if f[1] == kid]
                if st in ("ok", "exc") and same:
                    pick = [f for f in same if f[0] == label] or same
                    hit = (pick[0], v)
                    break
            if hit:
                (lab, kid2, det), v = hit
                found.setdefault((lab, kid2), (v, det))
            else:
                stats.inconclusive.append("unreplayed: " + label)
        # path validation: the real code on this path's model
        if vals is not None and (stats.validated + len(stats.mismatch) < maxval or rng.random() < 0.02):
            try:
                _validate(t, p, c, m, vals, stats)
            except z3.Z3Exception:
                if time.time() <= deadline:
                    raise
        if len(samples) < 3 and vals is not None:
            samples.append({"task": t.id, "path": stats.paths, "branches": len(p.trace),
                            "inputs": {k: str(v) for k, v in list(vals.items())[:16]}})
    models.uninstall()
    sym.CUR = None
    return dict(
        id=t.id, paths=stats.paths, branches=stats.branches, forks=stats.forks, queries=stats.queries,
        solver_s=stats.solver_s, unknown=stats.unknown, checks=stats.checks, discharged=stats.discharged,
        inconclusive=_count(stats.inconclusive), concretized=stats.concretized, opaque=stats.opaque,
        validated=stats.validated, mismatch=stats.mismatch[:5], nmismatch=len(stats.mismatch),
        aborted=exc_notes, errors=errors, nerrors=len(stats.errors), reached=reached,
        complete=complete and not work, left=len(work), wall=time.time() - t0, samples=samples,
        found=_found(found),
        fns=col.fns, depth=depth,
    )


def _found(found):
    return [(lab, kid, {k: str(x) for k, x in v.items()}, det) for (lab, kid), (v, det) in found.items()]


def _count(xs):
    d = {}
    for x in xs:
        d[x] = d.get(x, 0) + 1
    return d


def _validate(t, p, c, m, vals, stats):
    import math

    import z3

    from . import sym

    v = {n: Fraction(float(x)) for n, x in vals.items()}
    st, fails, obs = conc_run(t.fn, t.cfg, v)
    if st == "assume":
        return
    if st == "exc":
        stats.mismatch.append(f"{t.id}: concrete raised {fails[0][2]}")
        return
    d = {}
    for k, x in obs:
        d.setdefault(k, []).append(x)
    s = {}
    for k, x in c.obs:
        s.setdefault(k, []).append(x)
    for k in s:
        if k not in d:
            stats.mismatch.append(f"{t.id}: {k} missing in the concrete run")
            return
        for a, b in zip(s[k], d[k]):
            if isinstance(a, sym.SymBool):
                continue
            if isinstance(a, sym.SymNum):
                if _has_uf(a.e):
                    continue
                e = m.eval(a.e, model_completion=True)
                try:
                    a = float(sym.z3_to_fraction(e))
                except ValueError:
                    continue
            a = float(a)
            b = float(b)
            if math.isnan(a) and math.isnan(b) or a == b:
                continue
            if not abs(a - b) <= 1e-6 * (1 + abs(b)):
                stats.mismatch.append(f"{t.id}: {k} symbolic {a} real {b} inputs { {n: str(x) for n, x in list(vals.items())[:12]} }")
                return
    stats.validated += 1


def _has_uf(e):
    import z3

    seen = set()
    st = [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            n = x.decl().name()
            if n.startswith("uf_") or "sqrt!" in n:
                return n.startswith("uf_")
            st.extend(x.children())
        if len(seen) > 4000:
            return True
    return False


# ---------------------------------------------------------------------------


def load_property(pid):
    sys.path[:0] = [ROOT] if ROOT not in sys.path else []
    hits = [f for f in os.listdir(os.path.join(ROOT, "harness")) if re.match(pid.lower() + r"[_.].*py$", f)]
    if len(hits) != 1:
        print(f"no harness for {pid}", file=sys.stderr)
        sys.exit(2)
    TASKS.clear()
    mod = importlib.import_module("harness." + hits[0][:-3])
    return mod, [t for t in TASKS if t.fn.__module__ == mod.__name__]


def replay(path, quiet=False):
    """replay a counterexample file on the real code: exit 1 if it fails"""
    rec = json.load(open(path))
    load_real()
    mod, tasks = load_property(rec["property"])
    for t in tasks:
        if t.id == rec["task"]:
            vals = {k: Fraction(v) for k, v in rec["inputs"].items()}
            st, fails, _ = conc_run(t.fn, t.cfg, vals, strict=0.5)
            fails = [f for f in fails if f[1] == rec.get("known")]
            if not quiet:
                print(json.dumps({"status": st, "failures": [(a, k, b) for a, k, b in fails]}, indent=1))
            return 1 if fails else 0
    print("unknown task", rec["task"])
    return 2


def known_list(pid):
    f = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(f):
        return {}
    return {e["id"]: e for e in json.load(open(f)).get("findings", []) if e["property"] == pid}


def _watch(deadline):
    """end solver calls that overrun the deadline (z3 does not always keep to its own time limit)"""
    import threading

    import z3

    def w():
        while True:
            time.sleep(max(1.0, deadline + 6 - time.time()))
            z3.main_ctx().interrupt()

    threading.Thread(target=w, daemon=True).start()


def _worker(q, t, deadline, maxval):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception:  # noqa
        pass
    try:
        nul = os.open(os.devnull, os.O_WRONLY)
        os.dup2(nul, 1)
        sys.setrecursionlimit(6000)
        _watch(deadline)
        r = run_task(t, deadline, maxval, report=lambda f: q.put(dict(id=t.id, partial=f)))
    except BaseException as e:  # noqa
        r = dict(id=t.id, crash="".join(traceback.format_exception(type(e), e, e.__traceback__))[-2500:])
    q.put(r)
    q.close()
    q.join_thread()
    os._exit(0)


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--task", default=None, help="regular expression on task ids")
    ap.add_argument("--budget", type=float, default=None)
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--replay", default=None)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args(argv)
    pid = a.property
    if a.replay:
        sys.exit(replay(a.replay))
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    t0 = time.time()
    load_real()
    mod, tasks = load_property(pid)
    total = a.budget or (getattr(mod, "QUICK_S", 90) if tier == "quick" else getattr(mod, "THOROUGH_S", 600))
    sel = [t for t in tasks if tier == "thorough" or t.tier == "quick"]
    if a.task:
        sel = [t for t in sel if re.search(a.task, t.id)]
    per = {"quick": getattr(mod, "TASK_S", 30), "thorough": getattr(mod, "TASK_S_THOROUGH", 200)}[tier]
    end = t0 + total
    hard_extra = 45
    mpc = mp.get_context("fork")
    todo = list(sel)
    running, results = [], []
    while todo or running:
        while todo and len(running) < a.jobs and time.time() < end:
            t = todo.pop(0)
            b = t.budget or per
            if tier == "thorough" and t.budget:
                b = t.budget * 6
            dl = min(end, time.time() + b)
            q = mpc.Queue()
            pr = mpc.Process(target=_worker, args=(q, t, dl, 25 if tier == "quick" else 200))
            pr.start()
            running.append((pr, q, t, dl, []))
        if todo and time.time() >= end:
            for t in todo:
                results.append(dict(id=t.id, skipped=True))
            todo = []
        for item in list(running):
            pr, q, t, dl, early = item
            r = None
            try:
                r = q.get_nowait()
            except Exception:  # noqa
                if not pr.is_alive():
                    try:
                        r = q.get(timeout=1)
                    except Exception:  # noqa
                        r = dict(id=t.id, crash=f"worker ended (exit {pr.exitcode})")
                elif time.time() > dl + hard_extra:
                    pr.kill()
                    r = dict(id=t.id, crash="worker overran its deadline")
            if r is not None and "partial" in r:
                early[:] = r["partial"]
                continue
            if r is not None:
                if "crash" in r and early:
                    r["found"] = list(early)
                running.remove(item)
                results.append(r)
                pr.join(5)
                if a.v:
                    _show(r)
        time.sleep(0.02)
    sys.exit(finish(pid, tier, mod, sel, results, t0, verbose=a.v, partial=bool(a.task)))


def _show(r):
    if "paths" not in r:
        print(r["id"], r.get("crash", "skipped"))
        return
    print(f"{r['id']}: paths={r['paths']} br={r['branches']} q={r['queries']} z3={r['solver_s']:.1f}s wall={r['wall']:.1f}s "
          f"checks={r['discharged']}/{r['checks']} complete={r['complete']} left={r['left']} val={r['validated']} mism={r['nmismatch']} "
          f"err={r['nerrors']} inc={r['inconclusive']} ab={r['aborted']} conc={r['concretized']} uf={r['opaque']}")
    for f in r["found"]:
        print("   FOUND", f)
    for k, e in r["errors"].items():
        print("   ERR", k, "\n", e)
    for m in r["mismatch"][:2]:
        print("   MISMATCH", m)
    sys.stdout.flush()


def finish(pid, tier, mod, sel, results, t0, verbose=False, partial=False):
    known = known_list(pid)
    os.makedirs(os.path.join(ROOT, "evidence", "replay"), exist_ok=True)
    viol, kf_seen, unconfirmed = [], {}, []
    nrep = 0
    cands = []
    for r in results:
        for lab, kid, inputs, det in r.get("found", []):
            cands.append((r["id"], lab, kid, inputs, det))
    shown = set()
    for tid, lab, kid, inputs, det in cands:
        if kid is not None and kid in known and kid in kf_seen:
            continue
        if len(viol) >= 6:
            break
        nrep += 1
        path = os.path.join(ROOT, "evidence", "replay", f"{pid}-{nrep}.json")
        json.dump(dict(property=pid, task=tid, label=lab, known=kid, inputs=inputs, detail=det), open(path, "w"), indent=1)
        # confirmation in a clean process: no engine, no patches, only the real code
        cp = subprocess.run([sys.executable, os.path.join(ROOT, "check.py"), pid, "--replay", path],
                            stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
        if cp.returncode != 1:
            unconfirmed.append((tid, lab, cp.stdout[-300:]))
            continue
        if kid is not None and kid in known:
            kf_seen[kid] = (tid, lab, det)
            continue
        viol.append((tid, lab, det, path))
    for k, (tid, lab, det) in kf_seen.items():
        print(f"KNOWN-FINDING: property={pid} [{k}] {known[k]['what']} (seen at {tid}: {lab}; {det})")
    for tid, lab, det, path in viol:
        print(f"violated in {tid}: {lab}: {det}")
        print(f"VIOLATION property={pid} replay={path}")
    done = [r for r in results if "paths" in r]
    fns = {}
    for r in done:
        fns.update(r["fns"])
    bad = [r["id"] for r in results if "crash" in r]
    incomplete = [r["id"] for r in done if not r["complete"]] + [r["id"] for r in results if r.get("skipped")]
    vac = [r["id"] for r in done if not r["reached"] and not r["found"]]
    samples = []
    for r in done:
        samples.extend(r["samples"][:1])
    cov = dict(
        states=sum(r["paths"] for r in done), transitions=sum(r["branches"] for r in done),
        traces_validated_against_impl=sum(r["validated"] for r in done),
        samples=samples[:12],
        tasks=len(results), tasks_explored_completely=sum(1 for r in done if r["complete"] and not r["nerrors"]),
        tasks_incomplete=incomplete, tasks_crashed=bad, tasks_vacuous=vac,
        functions_encoded=sorted(fns), functions_source_sha=_src_hash(fns),
        assertions=sum(r["checks"] for r in done), assertions_discharged=sum(r["discharged"] for r in done),
        assertions_inconclusive=_merge([r["inconclusive"] for r in done]),
        solver_queries=sum(r["queries"] for r in done), solver_seconds=round(sum(r["solver_s"] for r in done), 2),
        solver_unknown=sum(r["unknown"] for r in done), max_path_depth=max([r["depth"] for r in done] or [0]),
        concretized_sites=_merge([r["concretized"] for r in done]),
        uninterpreted=_merge([r["opaque"] for r in done]),
        engine_errors=_merge([{k: 1 for k in r["errors"]} for r in done]),
        validation_mismatches=[m for r in done for m in r["mismatch"]][:6],
        paths_aborted=_merge([r["aborted"] for r in done]),
        bounds=getattr(mod, "BOUNDS", ""), outside=getattr(mod, "OUTSIDE", ""),
        known_findings=sorted(kf_seen), unreplayed_counterexamples=len(unconfirmed),
        per_task={r["id"]: dict(paths=r["paths"], assertions=r["checks"], complete=r["complete"], wall_s=round(r["wall"], 1)) for r in done},
    )
    ev = dict(property=pid, tier=tier, seed=SEED, level="model_checking", coverage=cov,
              assumptions=list(getattr(mod, "ASSUMPTIONS", [])) + GLOBAL_ASSUMPTIONS,
              wall_s=round(time.time() - t0, 2), violations=len(viol))
    if not partial:
        json.dump(ev, open(os.path.join(ROOT, "evidence", pid + ".json"), "w"), indent=1)
    print(f"{pid} {tier}: tasks={len(results)} complete={cov['tasks_explored_completely']} paths={cov['states']} "
          f"assertions={cov['assertions_discharged']}/{cov['assertions']} queries={cov['solver_queries']} "
          f"solver={cov['solver_seconds']}s validated={cov['traces_validated_against_impl']} "
          f"mismatch={sum(r['nmismatch'] for r in done)} engine_errors={sum(r['nerrors'] for r in done)} "
          f"crashed={len(bad)} wall={ev['wall_s']}s")
    for u in unconfirmed[:4]:
        print("INCONCLUSIVE (counterexample did not reproduce):", u)
    if viol:
        return 1
    if not done or all(not r["paths"] for r in done):
        print("ERROR: nothing could be explored", file=sys.stderr)
        for r in results:
            print(r["id"], r.get("crash", ""), file=sys.stderr)
        return 2
    return 0


def _merge(ds):
    out = {}
    for d in ds:
        for k, v in d.items():
            out[k] = out.get(k, 0) + v
    return out


GLOBAL_ASSUMPTIONS = [
    "floating-point numbers are exact reals (rounding, overflow and subnormals are outside the claim); every assertion has a tolerance",
    "exp/log/ndtr/... are uninterpreted functions with monotonicity/inverse/range axioms; sqrt is exact",
    "numpy C kernels and scipy interp1d/trapezoid are replaced by models; each path's model is replayed on the unpatched code and compared",
    "inputs lie in the stated ranges and strictly increasing grids have the stated minimum gap",
]
