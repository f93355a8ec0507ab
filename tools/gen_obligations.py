"""Write OBLIGATIONS.md: every obligation of every property with the functions it encodes and its bounds."""
import importlib, os, sys
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, R)
out = ["# Obligations\n", "Generated by tools/gen_obligations.py from props/. `T` marks obligations of the thorough tier only.\n"]
for i in range(1, 36):
    try: m = importlib.import_module("props.c%02d" % i)
    except ModuleNotFoundError as e:
        if e.name != "props.c%02d" % i: raise
        continue
    q = {o.id for o in m.obligations("quick")}; a = m.obligations("thorough")
    out.append("\n## C%02d — %s\n" % (i, " ".join((m.__doc__ or "").split()).split(" ", 1)[1]))
    out += ["* %s`%s` — %s — %s" % ("" if o.id in q else "T ", o.id, " ".join(str(o.funcs).split()), " ".join(str(o.bounds).split())) for o in a]
open(os.path.join(R, "OBLIGATIONS.md"), "w").write("\n".join(out) + "\n")
