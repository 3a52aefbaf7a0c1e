#!/opt/venv/bin/python
"""debugging aid: run one case in-process, print slow queries.  tools/dbg.py PROP REGEX [seconds]"""
import sys, os, time, re, traceback
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
import run
sys.argv = sys.argv[:1] + sys.argv[1:]
run.load_checks()
from symx import engine, smt
import importlib, cProfile, pstats
prop, rx = sys.argv[1], sys.argv[2]
secs = float(sys.argv[3]) if len(sys.argv) > 3 else 60
c = [c for c in run.CASES if c.prop == prop and re.search(rx, c.name)][0]
print(c.name)
fn = getattr(importlib.import_module(c.module), c.fn)
lim = dict(c.limits); lim.pop("validate", None); lim["seconds"] = secs
ex = engine.Explorer(lambda ctx: fn(ctx, **c.params), engine.Limits(**lim), 1, c.name)

def confirm(cex):
    r = run.replay([run.jobof(c, v) for v in cex["vals"]])
    print("CEX", cex["label"], cex["why"], cex.get("tb"), [(x["exception"], x["failed"][:2], x["assume"]) for x in r])
    if "-v" in sys.argv: print(cex["vals"][0].vars, cex["vals"][0].uft)
    return any(x["exception"] or x["failed"] for x in r if not x["assume"])
ex.confirm = confirm
lab = [""]
oo = engine.Run.obligation
def obl(self, label, *a, **k):
    lab[0] = label; t = time.time(); oo(self, label, *a, **k); dt = time.time() - t
    if dt > 1: print("  slow obligation %.1fs %s" % (dt, label)); sys.stdout.flush()
    lab[0] = ""
engine.Run.obligation = obl
cl = engine.Run.check_lit
def chk(self, b):
    t = time.time(); r = cl(self, b); dt = time.time() - t
    if dt > 0.5:
        f = [x for x in traceback.extract_stack() if "/mfpml/" in x.filename]
        print("  slow branch %.1fs %s at %s:%s" % (dt, r, f[-1].filename[-30:] if f else "?", f[-1].lineno if f else "?")); sys.stdout.flush()
    return r
engine.Run.check_lit = chk
fi = engine.Run.finish
def fin(self):
    t = time.time(); fi(self); dt = time.time() - t
    if dt > 1: print("  slow finish %.1fs" % dt)
engine.Run.finish = fin
pr = cProfile.Profile()
t = time.time()
pr.enable(); ex.explore(); pr.disable()
print("%.1fs paths %d cexs %d inc %s und %s" % (time.time() - t, ex.paths, len(ex.cexs), ex.inconclusive, ex.undischarged), smt.STATS)
pstats.Stats(pr).sort_stats("tottime").print_stats(14)
