#!/opt/venv/bin/python
"""check.py <property-id> [--tier quick|thorough] [--only OBL] [--jobs N] [--replay FILE]

Decides one property: loads the repository's current source symbolically, runs every obligation of
the property in its own process, replays counterexamples on the shipped code, writes the evidence.
Exit 0: every obligation held.  Exit 1: VIOLATION line(s).  Exit 2: something stayed undecided."""
import os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
os.environ.setdefault("MPLBACKEND", "Agg")
os.environ.setdefault("MPLCONFIGDIR", "/opt/vp/mplconfig" if os.access("/opt/vp/mplconfig", os.W_OK) else "/tmp/pycs-mpl")
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
os.environ["PYTHONHASHSEED"] = "0"
for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"): os.environ[v] = "1"
PY = "/opt/venv/bin/python"
if os.path.exists(PY) and os.path.realpath(sys.prefix) != "/opt/venv" or os.environ.get("PYCS_CHILD") != "1":
    os.environ["PYCS_CHILD"] = "1"
    os.execv(PY if os.path.exists(PY) else sys.executable, [PY, "-B", os.path.abspath(__file__)] + sys.argv[1:])
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
sys.setrecursionlimit(3000)
import argparse, hashlib, importlib, json, pickle, signal, tempfile, time, traceback
T0 = time.time()


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only", default=None)
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--replay", default=None)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    tier = "thorough" if a.tier == "thorough" else "quick"
    limit = 830 if tier == "quick" else 3 * 3600
    from symx import terms as T
    T.set_ctx(T.Ctx())
    from symx import loader, harness
    sym = loader.load()
    prelude = T.CTX
    real = loader.load_real()
    for m in ("utils", "descriptive", "distributions", "clustering", "hypothesis", "base", "correlation", "regression"):
        importlib.import_module("pycircstat2." + m)
    mod = importlib.import_module("props." + a.pid.lower())
    obls = mod.obligations(tier)
    if a.replay:
        r = json.load(open(a.replay))
        o = [o for o in obls if o.id == r["obligation"]][0]
        f = harness.concrete_failure(o, real, {**r["inputs"], **r["choices"]})
        print("REPRODUCED " + f if f else "not reproduced")
        return 1 if f else 0
    if a.only: obls = [o for o in obls if a.only in o.id]
    assert len({o.id for o in obls}) == len(obls), "duplicate obligation ids"
    results = run_pool(obls, sym, real, prelude, tier, a.jobs, limit, a.v)
    return report(a.pid, tier, obls, results, a.only is not None)


def run_pool(obls, sym, real, prelude, tier, jobs, limit, verbose):
    from symx import harness
    tmp = tempfile.mkdtemp(prefix="pycs-")
    pend = sorted(obls, key=lambda o: -o.opts.get("weight", 1)); live = {}; res = {}
    total = len(pend)
    try:
        while pend or live:
            left = limit - (time.time() - T0)
            while pend and len(live) < jobs and left > 0:
                o = pend.pop(0)
                path = os.path.join(tmp, "%d.json" % len(res) + str(len(pend)))
                sys.stdout.flush(); sys.stderr.flush()
                pid = os.fork()
                if pid == 0:
                    code = 1
                    try:
                        import resource
                        resource.setrlimit(resource.RLIMIT_AS, (int(o.opts.get("mem_gb", 6)) << 30,) * 2)
                        if not verbose:
                            os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
                        r = harness.run_obligation(o, sym, real, prelude, tier)
                        with open(path + ".t", "w") as f: json.dump(r, f, default=str)
                        os.rename(path + ".t", path); code = 0
                    except BaseException:
                        try:
                            r = dict(id=o.id, status="inconclusive", detail="engine error: " + traceback.format_exc()[-1500:], funcs=o.funcs, bounds=o.bounds)
                            if not o.opts.get("no_probe"):
                                v, n = harness.probe(o, real); r["probed"] = n
                                if v: r["status"] = "violated"; r["violation"] = v
                            with open(path, "w") as f: json.dump(r, f, default=str)
                        except BaseException: pass
                    os._exit(code)
                live[pid] = (o, path, time.time())
            pid, st = os.waitpid(-1, os.WNOHANG)
            if pid in live:
                o, path, t = live.pop(pid)
                try: res[o.id] = json.load(open(path))
                except Exception: res[o.id] = dict(id=o.id, status="inconclusive", detail="worker died (status %r)" % (st,), funcs=o.funcs, bounds=o.bounds)
                r = res[o.id]
                if verbose or r["status"] != "held":
                    print("  %-44s %-12s %6.1fs paths=%s goals=%s %s" % (o.id, r["status"], r.get("wall_s", 0), r.get("paths"), r.get("goals"), r.get("detail", "")[:1500]), flush=True)
                    if verbose and r.get("tb"): print(r["tb"])
                    if verbose and r.get("violation"): print("   ", r["violation"])
                    if verbose: print("    smt", r.get("smt"), "fid", r.get("fidelity"))
                continue
            for p, (o, path, t) in list(live.items()):
                cap = o.opts.get("max_s", 200) * (3 if tier == "thorough" else 1) + 90
                if time.time() - t > cap or left < 0:
                    os.kill(p, signal.SIGKILL); os.waitpid(p, 0); live.pop(p)
                    res[o.id] = dict(id=o.id, status="inconclusive", detail="time limit", funcs=o.funcs, bounds=o.bounds)
            if left < 0:
                for o in pend: res[o.id] = dict(id=o.id, status="inconclusive", detail="not started: time budget", funcs=o.funcs, bounds=o.bounds)
                pend = []
            time.sleep(0.02)
    finally:
        for p in live:
            try: os.kill(p, signal.SIGKILL)
            except OSError: pass
        for f in os.listdir(tmp): os.unlink(os.path.join(tmp, f))
        os.rmdir(tmp)
    return res


def known():
    p = os.path.join(HERE, "known_findings.json")
    return json.load(open(p))["findings"] if os.path.exists(p) else []


def still_fails(k):
    """A finding carries the failing input as an expression on the shipped code that is true while it fails."""
    import numpy as np, warnings
    if "repro" not in k: return True
    from symx import loader
    env = dict(np=np, pi=np.pi, **{m: importlib.import_module("pycircstat2." + m) for m in
               ("utils", "descriptive", "distributions", "clustering", "hypothesis", "base", "correlation", "regression")})
    def raises(f):
        try: f()
        except Exception as e: return type(e).__name__
        return ""
    env["raises"] = raises
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        try: return bool(eval(k["repro"], env))
        except Exception: return True


def report(pid, tier, obls, res, partial):
    from symx import loader
    rep_dir = os.path.join(HERE, "evidence", "replays")
    os.makedirs(rep_dir, exist_ok=True)
    nviol = nund = 0
    kf = [k for k in known() if k["property"] == pid]
    for k in kf:
        if still_fails(k): print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
        else: print("note: listed finding no longer reproduces: %s" % k["what"])
    opt = []
    for o in obls:
        r = res[o.id]
        if r["status"] == "violated":
            v = r["violation"]
            path = os.path.join(rep_dir, "%s-%s.json" % (pid, hashlib.sha1(o.id.encode()).hexdigest()[:8]))
            json.dump(dict(property=pid, obligation=o.id, label=v["label"], inputs=v["inputs"], choices=v["choices"], observed=v["observed"],
                           how="check.py %s --replay <this file>" % pid), open(path, "w"), indent=1)
            print("  counterexample to %s: %s at %s %s" % (o.id, v["observed"], v["inputs"], v["choices"] or ""))
            print("VIOLATION property=%s replay=%s" % (pid, path)); nviol += 1
        elif r["status"] != "held":
            if o.opts.get("optional"): opt.append(o.id)
            else:
                nund += 1
                print("UNDECIDED property=%s obligation=%s %s" % (pid, o.id, (r.get("detail") or "")[:400]))
    held = [o for o in obls if res[o.id]["status"] == "held"]
    if partial: return 1 if nviol else 2 if nund else 0
    goals = sum(res[o.id].get("goals", 0) for o in obls)
    smt = [res[o.id].get("smt", {}) for o in obls]
    S = lambda k: sum(x.get(k, 0) for x in smt)
    fid = [res[o.id].get("fidelity", {}) for o in obls]
    cov = dict(
        states=sum(res[o.id].get("paths", 0) for o in obls),
        transitions=sum(res[o.id].get("decisions", 0) for o in obls),
        traces_validated_against_impl=sum(f.get("points", 0) for f in fid),
        rule="state = feasible path of the encoded code, each standing for all real inputs that take it; transition = branch decision along those paths; trace = concrete point of a path run on the shipped code and compared with the encoding; assertion = goal on one path, decided for all inputs of the path",
        obligations_total=len(obls), obligations_held=len(held), optional_undecided=opt,
        undecided=[o.id for o in obls if res[o.id]["status"] not in ("held", "violated")],
        violated=[o.id for o in obls if res[o.id]["status"] == "violated"],
        assertions=dict(total=goals, closed_by_rewriting=sum(res[o.id].get("by_normalisation", 0) for o in obls), closed_by_solver=sum(res[o.id].get("by_solver", 0) for o in obls),
                        distinct_labels=sum(res[o.id].get("labels", 0) for o in obls)),
        infeasible_paths=sum(res[o.id].get("infeasible_paths", 0) for o in obls),
        solver=dict(queries=S("queries"), unsat=S("unsat"), sat=S("sat"), unknown=S("unknown"), seconds=round(S("time"), 2), longest=round(max([x.get("max", 0) for x in smt] or [0]), 2)),
        fidelity=dict(values_compared=sum(f.get("compared", 0) for f in fid), max_rel_error=max([f.get("maxerr", 0) for f in fid] or [0]),
                      mismatches=[m for f in fid for m in f.get("mismatch", [])][:10]),
        functions_encoded=sorted({x for o in obls for x in o.funcs.split(",") if x}),
        samples=[dict(obligation=o.id, functions=o.funcs, bounds=o.bounds, status=res[o.id]["status"], paths=res[o.id].get("paths"), goals=res[o.id].get("goals"),
                      by_solver=res[o.id].get("by_solver"), smt=res[o.id].get("smt"), wall_s=res[o.id].get("wall_s"), detail=(res[o.id].get("detail") or "")[:300]) for o in obls],
        trusted_base="z3, cvc5, the symx encoding of numpy/scipy primitives (compared with the shipped code at concrete points on every run), CPython",
        source_sha256=source_hash(),
        explanation="Functions are executed symbolically from the repository's current source (AST instrumented at load time); floats are modelled as exact reals; special functions without closed form are uninterpreted with stated axioms; equalities are required to 1e-6.")
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level="model_checking", coverage=cov, wall_s=round(time.time() - T0, 2))
    json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1, default=str)
    print("%s: %d/%d obligations held, %d goals (%d normal form, %d solver), %d paths, %d queries %.1fs solver, %.1fs wall" % (
        pid, len(held), len(obls), goals, cov["assertions"]["closed_by_rewriting"], cov["assertions"]["closed_by_solver"], cov["states"], S("queries"), S("time"), time.time() - T0))
    # undecided obligations are outside what was explored: listed above and in the evidence
    return 1 if nviol else 2 if obls and not held else 0


def source_hash():
    from symx import loader
    h = {}
    d = os.path.join(loader.REPO, "pycircstat2")
    for f in sorted(os.listdir(d)):
        if f.endswith(".py"): h[f] = hashlib.sha256(open(os.path.join(d, f), "rb").read()).hexdigest()[:16]
    return h


if __name__ == "__main__":
    sys.exit(main())
