"""Runs every obligation's harness concretely at generic points of the shipped code (self-test of the
refutation search used for undecided obligations: on the unchanged tree it must find nothing)."""
import os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path.insert(0, HERE); sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
os.environ.setdefault("MPLBACKEND", "Agg"); os.environ["PYTHONHASHSEED"] = "0"
import importlib, multiprocessing as mp
from symx import terms as T
T.set_ctx(T.Ctx())
from symx import loader, harness
real = loader.load_real()
for m in ("utils", "descriptive", "distributions", "clustering", "hypothesis", "base", "correlation", "regression"): importlib.import_module("pycircstat2." + m)


def one(a):
    pid, i = a
    o = importlib.import_module("props." + pid).obligations("quick")[i]
    try: v, n = harness.probe(o, real, seconds=20, tries=int(os.environ.get("TRIES", 300)))
    except BaseException as e: return pid, o.id, repr(e), 0
    return pid, o.id, v and (v["observed"][:200], v["inputs"], v["choices"]), n


if __name__ == "__main__":
    pids = [x.lower() for x in sys.argv[1:]] or sorted(f[:-3] for f in os.listdir(HERE + "/props") if f.startswith("c"))
    jobs = [(p, i) for p in pids for i in range(len(importlib.import_module("props." + p).obligations("quick")))]
    bad = 0; none = []
    with mp.Pool(8) as pool:
        for p, o, v, n in pool.imap_unordered(one, jobs):
            if v: bad += 1; print(p, o, v, n, flush=True)
            if not n: none.append((p, o))
    print(len(jobs), "obligations,", bad, "with failing points; no admissible point for", none)
