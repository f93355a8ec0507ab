"""Self-test of the toolchain: solver present, engine proves a true statement and refutes a false one."""
import os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if os.environ.get("PYCS_CHILD") != "1":
    os.environ["PYCS_CHILD"] = "1"
    os.execv("/opt/venv/bin/python", ["/opt/venv/bin/python", "-B", os.path.abspath(__file__)])
sys.path.insert(0, HERE); sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
from symx import terms as T
T.set_ctx(T.Ctx())
from symx import loader, harness
sym = loader.load(); prelude = T.CTX; real = loader.load_real()
def good(M): x = M.real("x", -7, 7); M.le("ok", M.np.cos(x), 1); M.ge("low", M.m.utils.angmod(x), 0)
def bad(M): x = M.real("x", -7, 7); M.le("bad", M.np.cos(x), 0.5)
def dead(M): x = M.real("x", -7, 7); M.assume(x > 8); M.le("never", x, 0)
want = [(good, "held"), (bad, "violated"), (dead, "inconclusive")]
for fn, st in want:
    r = harness.run_obligation(harness.Obl(fn.__name__, fn), sym, real, prelude)
    assert r["status"] == st, (fn.__name__, r)
print("self-test passed")
