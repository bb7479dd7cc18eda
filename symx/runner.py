"""Check driver:  python -m symx.runner --property P01 [--tier quick|thorough]

Exit 0: every obligation of every harness was discharged by the solver (and the
sampled paths replayed on the real package agree).
Exit 1 + VIOLATION line: a counterexample reproduced on the real package.
Exit 2: no verdict (unsupported construct, solver gave up, budget, or a
counterexample that does not reproduce).
"""
import argparse
import importlib
import json
import multiprocessing as mp
import multiprocessing.connection
import os
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get("SYMX_EVIDENCE") or os.path.join(VERIF, "evidence")
REPO = os.environ.get("SYMX_REPO", "/repo")


class Harness:
    def __init__(self, name, fn, params=None, bounds="", **opts):
        self.name, self.fn, self.params, self.bounds, self.opts = name, fn, params or {}, bounds, opts


def _worker(args):
    modname, name, tier, seed = args
    from symx.explore import Explorer, Result

    try:
        mod = importlib.import_module(modname)
        h = {x.name: x for x in mod.harnesses(tier)}[name]
        ex = Explorer(h.fn, h.params, h.opts, seed)
        r = ex.run()
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt,)):
            raise
        r = Result()
        r.status = "error"
        r.reason = "".join(traceback.format_exception(e))[-2000:]
    return name, r


def _loop(conn, watch):
    import z3

    from symx import core

    core.WATCH = watch
    while True:
        try:
            job = conn.recv()
        except EOFError:
            return
        if job is None:
            return
        z3.set_param("smt.random_seed", job[1])
        z3.set_param("sat.random_seed", job[1])
        conn.send(_worker(job[0]))


def run_all(todo, jobs, attempts=3, until=lambda: None):
    """results of the harnesses, run in processes that are replaced (and the harness started again with other
    solver seeds) when the solver does not come back; what has not finished at the time ``until()`` is given up"""
    from symx.explore import Result

    ctx = mp.get_context("spawn")
    queue = [(t, 0) for t in todo]
    busy = {}
    idle = []

    def start():
        a, b = ctx.Pipe()
        watch = ctx.Value("d", 0.0, lock=False)
        p = ctx.Process(target=_loop, args=(b, watch), daemon=True)
        p.start()
        b.close()
        return p, a, watch

    def give(w):
        job = queue.pop(0)
        w[1].send(job)
        busy[w[1]] = (w, job)

    for _ in range(min(jobs, len(todo))):
        give(start())
    while busy:
        lost = []
        for conn in mp.connection.wait(list(busy), timeout=2.0):
            w, job = busy[conn]
            try:
                res = conn.recv()
            except (EOFError, OSError):
                lost.append(conn)
                continue
            del busy[conn]
            if queue:
                give(w)
            else:
                idle.append(w)
            yield res
        now = time.time()
        if until() is not None and now > until():
            rest = [job[0] for _, job in busy.values()] + [job[0] for job in queue]
            for w, _ in busy.values():
                w[0].kill()
                w[0].join()
            busy.clear()
            queue.clear()
            for task in rest:
                r = Result()
                r.status, r.reason = "stopped", "not finished when a violation had been confirmed"
                yield task[1], r
            break
        for conn, (w, job) in list(busy.items()):
            if conn not in lost and 0 < w[2].value < now:
                lost.append(conn)
        for conn in lost:
            w, (task, k) = busy.pop(conn)
            w[0].kill()
            w[0].join()
            if k + 1 < attempts:
                queue.insert(0, (task, k + 1))
            else:
                r = Result()
                r.status = "error"
                r.reason = "the solver does not come back or the process died (%d attempts)" % attempts
                yield task[1], r
            if queue:
                give(start())
    for w in idle:
        try:
            w[1].send(None)
        except OSError:
            pass
    for w in idle:
        w[0].join(5)


def replay_env():
    env = dict(os.environ)
    env.pop("NUMBA_DISABLE_JIT", None)
    env.update(PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", MPLCONFIGDIR="/opt/venv/mplconfig",
               OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", NUMBA_NUM_THREADS="1", NUMEXPR_MAX_THREADS="1")
    return env


def _js(x):
    if isinstance(x, float) and (x != x or x in (float("inf"), float("-inf"))):
        return repr(x)
    return x


def replay(jobs, timeout=600):
    """Run jobs on the real package; returns outcomes by id."""
    if not jobs:
        return {}
    n = min(8, (len(jobs) + 5) // 6)
    chunks = [jobs[i::n] for i in range(n)]
    procs = []
    for c in chunks:
        c = [dict(j, inputs={k: _js(v) for k, v in j["inputs"].items()},
                  expect=None if j.get("expect") is None else [(a, _js(b)) for a, b in j["expect"]]) for j in c]
        p = subprocess.Popen([sys.executable, os.path.join(VERIF, "symx", "replay.py")], stdin=subprocess.PIPE,
                             stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=replay_env(), cwd=VERIF)
        procs.append((p, json.dumps(c)))
    import threading

    outs = [None] * len(procs)

    def go(i):
        p, s = procs[i]
        try:
            outs[i] = p.communicate(s, timeout=timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            outs[i] = ("", "timeout")

    th = [threading.Thread(target=go, args=(i,)) for i in range(len(procs))]
    [t.start() for t in th]
    [t.join() for t in th]
    res = {}
    for (o, err), (p, _) in zip(outs, procs):
        lines = [x for x in o.strip().splitlines() if x.strip()]
        try:
            for r in json.loads(lines[-1]):
                res[r["id"]] = r
        except Exception:
            sys.stderr.write("replay failed: %s\n" % err[-3000:])
    return res


def reproduced(c, r):
    if r is None:
        return False
    if r["failed"]:
        return True
    if c["label"].startswith("raised ") and r["exc"]:
        return True
    if r["exc"]:
        return True
    return False


def confirmed(modname, name, r, known):
    """whether the real package shows one of the harness's counterexamples that is not a known finding"""
    for c in r.candidates:
        if any(k["harness"] == name and k["label"] in c["label"] for k in known):
            continue
        jobs = [dict(id=str(i), module=modname, harness=name, inputs=ins) for i, ins in enumerate(c["inputs"])]
        out = replay(jobs)
        if any(reproduced(c, out.get(j["id"])) for j in jobs):
            return True
    return False


# seconds that the other harnesses get once a violation is confirmed
GRACE = 60


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("--property", required=True)
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only", default=None)
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--verbose", action="store_true")
    a = ap.parse_args(argv)
    pid = a.property
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    modname = "checks." + pid
    sys.path.insert(0, VERIF)
    mod = importlib.import_module(modname)
    hs = mod.harnesses(a.tier)
    if a.only:
        hs = [h for h in hs if a.only in h.name]
    # only stale caches of the package may shadow the working tree
    results = {}
    todo = [(modname, h.name, a.tier, seed) for h in sorted(hs, key=lambda h: -h.opts.get("max_seconds", 0) - len(h.params))]
    os.environ.update(replay_env())
    os.environ["NUMBA_DISABLE_JIT"] = "1"
    known = load_known(pid)
    deadline = [None]
    for name, r in run_all(todo, a.jobs, until=lambda: deadline[0]):
        results[name] = r
        if deadline[0] is None and confirmed(modname, name, r, known):
            deadline[0] = time.time() + GRACE
        if a.verbose:
            print("  %-48s %-9s paths=%s q=%s unk_br=%s solver=%.1fs wall=%.1fs %s" % (
                name, r.status, r.stats.get("paths"), r.stats.get("queries"), r.stats.get("unknown_branches"),
                r.stats.get("solver_s", 0), r.wall, r.reason if r.status != "ok" else ""), flush=True)
    os.environ.pop("NUMBA_DISABLE_JIT", None)

    # replay candidates and witnesses on the real package
    jobs, index = [], {}
    for h in hs:
        r = results[h.name]
        for ci, c in enumerate(r.candidates):
            for k, ins in enumerate(c["inputs"]):
                jid = "c|%s|%d|%d" % (h.name, ci, k)
                jobs.append(dict(id=jid, module=modname, harness=h.name, inputs=ins))
                index[jid] = (h, c, ins)
        for wi, w in enumerate(r.witnesses):
            jid = "w|%s|%d" % (h.name, wi)
            jobs.append(dict(id=jid, module=modname, harness=h.name, inputs=w["inputs"],
                             expect=w["expect"] if w["exact"] else None))
            index[jid] = (h, w, w["inputs"])
    out = replay(jobs)
    violations, spurious, mismatches, validated, known_hit = [], [], [], 0, []
    for h in hs:
        r = results[h.name]
        for ci, c in enumerate(r.candidates):
            hit = None
            for k, ins in enumerate(c["inputs"]):
                o = out.get("c|%s|%d|%d" % (h.name, ci, k))
                if reproduced(c, o):
                    hit = (h, c, ins, o)
                    break
            if hit:
                violations.append(hit)
            else:
                spurious.append((h, c, [out.get("c|%s|%d|%d" % (h.name, ci, k)) for k in range(len(c["inputs"]))]))
        for wi, w in enumerate(r.witnesses):
            o = out.get("w|%s|%d" % (h.name, wi))
            if o is None:
                mismatches.append((h, w, "replay produced nothing"))
            elif o["assume"]:
                continue
            elif o["failed"] or o["exc"]:
                if w["exact"] and not w["tie"]:
                    violations.append((h, dict(label="sampled path: " + ", ".join(o["failed"] or [o["exc"]])), w["inputs"], o))
            elif o["mismatch"]:
                if w["tie"]:
                    continue
                mismatches.append((h, w, "; ".join(o["mismatch"][:3])))
            elif w["exact"]:
                validated += 1

    noanswer = [(h.name, results[h.name].reason) for h in hs if results[h.name].status != "ok"]
    vac = [h.name for h in hs if results[h.name].status == "ok" and not results[h.name].candidates
           and not getattr(results[h.name], "reachable", False)]
    unchecked = [h.name for h in hs if results[h.name].status == "ok" and not results[h.name].candidates
                 and not any(v["checked"] for v in results[h.name].labels.values())]

    # known findings: listed (harness, label) pairs never raise
    reported = []
    for v in violations:
        kf = [k for k in known if k["harness"] == v[0].name and k["label"] in v[1]["label"]]
        if kf:
            known_hit.append((kf[0], v))
        else:
            reported.append(v)

    write_evidence(pid, a.tier, seed, hs, results, validated, t0, len(reported), mod, noanswer, spurious)

    code = 0
    seen = set()
    for kf, v in known_hit:
        if kf["what"] not in seen:
            seen.add(kf["what"])
            print("KNOWN-FINDING: property=%s %s" % (pid, kf["what"]))
    if reported:
        code = 1
        os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
        for i, (h, c, ins, o) in enumerate(reported[:5]):
            p = os.path.join(EVID, "replay", "%s_%d.json" % (pid, i))
            with open(p, "w") as f:
                json.dump(dict(property=pid, module=modname, harness=h.name, label=c["label"],
                               inputs={k: _js(v) for k, v in ins.items()}, outcome=o,
                               how="/opt/venv/bin/python -m symx.show %s (from /verif)" % p), f, indent=1, default=str)
            print("VIOLATION property=%s replay=%s" % (pid, p))
            print("  harness %s: %s; on the real package: failed=%s exc=%s" % (h.name, c["label"], o["failed"], o["exc"]))
    else:
        if spurious:
            code = 2
            for h, c, os_ in spurious[:5]:
                print("NO-VERDICT %s: counterexample for '%s' did not reproduce: %s" % (
                    h.name, c["label"], json.dumps(c["inputs"][0])[:600]))
                for o in os_[:1]:
                    print("   ", json.dumps(o)[:800])
        if mismatches:
            code = 2
            for h, w, why in mismatches[:5]:
                print("NO-VERDICT %s: encoding and real code disagree: %s  inputs=%s" % (h.name, why, json.dumps(w["inputs"])[:400]))
        if vac or unchecked:
            code = 2
            print("NO-VERDICT vacuous harness: %s %s" % (vac, unchecked))
        if noanswer:
            code = 2
    for n, why in noanswer:
        print("NO-VERDICT %s: %s" % (n, why))
    tot = sum(r.stats.get("queries", 0) + r.stats.get("simplified", 0) for r in results.values())
    simp = sum(r.stats.get("simplified", 0) for r in results.values())
    print("%s %s: %d harnesses, %d paths, %d property queries (%d unsat, %d by simplification), %d sampled paths agree with the real package, %.1fs -> exit %d" % (
        pid, a.tier, len(hs), sum(r.stats.get("paths", 0) for r in results.values()), tot,
        sum(r.stats.get("unsat", 0) for r in results.values()) + simp, simp, validated, time.time() - t0, code))
    return code


def load_known(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f).get("open", []) if k["property"] == pid]


def write_evidence(pid, tier, seed, hs, results, validated, t0, nviol, mod, noanswer, spurious):
    S = lambda k: sum(r.stats.get(k, 0) for r in results.values())  # noqa
    samples = []
    for h in hs:
        r = results[h.name]
        for w in r.witnesses[:1]:
            if len(samples) < 6:
                samples.append(dict(harness=h.name, inputs={k: _js(v) for k, v in w["inputs"].items()},
                                    observed=[(a, _js(b)) for a, b in w["expect"][:8]]))
    funcs = sorted(set(f for r in results.values() for f in r.functions))
    cov = dict(
        states=S("paths") + S("infeasible"),
        transitions=S("decisions"),
        traces_validated_against_impl=validated,
        samples=samples,
        completed_paths=S("paths"),
        branch_feasibility_queries=S("branch_queries"),
        property_queries=S("queries") + S("simplified"),
        property_queries_unsat=S("unsat") + S("simplified"),
        property_queries_by_simplification=S("simplified"),
        identities_by_normal_form_only=S("algebraic_only"),
        solver_seconds=round(S("solver_s"), 2),
        functions_encoded=funcs,
        harnesses=[dict(name=h.name, bounds=h.bounds, paths=results[h.name].stats.get("paths", 0),
                        queries=results[h.name].stats.get("queries", 0), status=results[h.name].status,
                        checks=results[h.name].labels, tolerance_used=results[h.name].tolerance_used,
                        wall_s=round(results[h.name].wall, 2)) for h in hs],
        no_verdict=noanswer,
        spurious=[(h.name, c["label"]) for h, c, _ in spurious],
        outside_bounds=getattr(mod, "OUTSIDE", ""),
        meaning="states = execution paths of the real source explored symbolically; transitions = branch decisions on them; "
                "every path's assertions were sent to the solver for all values of the symbolic inputs on that path",
    )
    ev = dict(property=pid, tier=tier, seed=seed, level=getattr(mod, "LEVEL", "model_checking"), coverage=cov,
              assumptions=list(getattr(mod, "ASSUMPTIONS", [])) + COMMON_ASSUMPTIONS, wall_s=round(time.time() - t0, 2),
              violations=nviol)
    d = EVID
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)


COMMON_ASSUMPTIONS = [
    "finite floats are exact real numbers in the encoding (rounding, overflow and underflow are outside); NaN and the "
    "infinities are exact",
    "numba-compiled functions are executed from their python source; numpy/pandas/numexpr operations follow symx's model of "
    "them, which sampled paths compare with the real libraries on every run",
    "z3 (and cvc5 where z3 gives up) answer correctly",
]

if __name__ == "__main__":
    sys.exit(main())
