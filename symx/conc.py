"""Concrete mode: run a harness on the unmodified real code with the values of one symbolic
assignment.  Started as a separate clean process; only the environment (random source,
numerical searches) is replaced, by the same stubs as in the symbolic run.

usage: python conc.py JOB.json      (replays a saved counterexample and prints the outcome)
       python conc.py --pipe        (JSON list of jobs on stdin, JSON list of results on stdout)
"""
import hashlib
import importlib
import json
import os
import pickle
import random
import shutil
import sys
import tempfile
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
SRC = os.environ.get("MFPML_SRC", "/repo/src")
sys.path.insert(0, SRC)
sys.dont_write_bytecode = True
os.environ.setdefault("MPLBACKEND", "Agg")

import math
import numpy as np
import scipy.optimize
import scipy.stats
import scipy.stats.qmc
import scipy.linalg
import scipy.special
import scipy.spatial.distance
from symx.base import CtxBase
from symx.env import Env


class Assume(BaseException):
    pass


def _h(*a):
    return random.Random(hashlib.sha256(repr(a).encode()).digest())


class ConcCtx(CtxBase):
    symbolic = False

    def __init__(self, vars, uft):
        super().__init__()
        self.vars, self.uft = vars, uft
        self.np = np
        self.env = Env(self)
        self.failed, self.observed, self.nchecks = [], [], 0
        self.calls = []
        self.patch()

    def patch(self):
        r = self.env.np_random()
        for n, v in vars(r).items():
            if not n.startswith("_") and n != "mtrand":
                setattr(np.random, n, v)
        e = self.env
        q = scipy.stats.qmc
        q.LatinHypercube, q.Sobol, q.Halton = e.LatinHypercube, e.Sobol, e.Halton
        o = scipy.optimize
        o.minimize, o.differential_evolution, o.dual_annealing, o.shgo, o.minimize_scalar = e.minimize, e.differential_evolution, e.dual_annealing, e.shgo, e.minimize_scalar

    def load(self, name):
        return importlib.import_module(name)

    def ambient_state(self):
        return "amb"

    def seedkey(self, s):
        if isinstance(s, (bool, np.bool_)):
            s = int(s)
        if isinstance(s, (float, np.floating)) and s == int(s):
            s = int(s)
        return str(s)

    def real(self, name, lo=None, hi=None, **k):
        v = self.vars.get(name)
        if v is None:
            r = _h("v", name)
            if k.get("values") is not None:
                vs = k["values"]
                v = vs[r.randrange(len(vs))]
            else:
                if lo is None and hi is None:
                    lo, hi = -2.0, 2.0
                elif lo is None:
                    lo = hi - 4.0
                elif hi is None:
                    hi = lo + 4.0
                lo, hi = float(lo), float(hi)
                v = float(r.randint(int(lo), int(hi))) if k.get("int") else lo + (hi - lo) * r.random()
            self.vars[name] = v
        return float(v)

    def int(self, name, lo, hi):
        if lo == hi:
            return lo
        return int(round(self.real(name, lo, hi, int=True)))

    def distinct(self, xs):
        seen = set()
        for i, x in enumerate(xs):
            if x in seen:
                raise Assume("distinct draw")
            seen.add(x)

    def intarray(self, xs, shape):
        return np.array([int(x) for x in xs]).reshape(shape)

    def scalar(self, v):
        return float(np.asarray(v).reshape(-1)[0]) if np.size(v) == 1 else self._bad(v)

    def _bad(self, v):
        raise ValueError("The user-provided objective function must return a scalar value.")

    def func(self, name, lo=None, hi=None):
        tab = self.uft.setdefault(name, [])

        def f(*args):
            a = [float(np.asarray(x).reshape(-1)[0]) for x in args]
            best = None
            for b, v in tab:
                if len(b) == len(a):
                    d = max([abs(x - y) / (1 + abs(x)) for x, y in zip(a, b)], default=0.0)
                    if d <= 1e-7 and (best is None or d < best[0]):
                        best = (d, v)
            if best is not None:
                return best[1]
            r = _h("f", name, [float("%.6g" % x) for x in a])
            l, h = -2.0 if lo is None else lo, 2.0 if hi is None else hi
            v = l + (h - l) * r.random()
            tab.append((a, v))
            return v
        return f

    def bool(self, name):
        return self.real(name, 0, 1) <= 0.5

    def choose(self, name, options):
        return options[int(round(self.real(name, 0, len(options) - 1, values=[float(i) for i in range(len(options))], int=True)))]

    def opaque(self, n):
        pass

    def naming(self, n):
        pass

    def jitter(self, x):
        pass

    def assume(self, c):
        if not np.all(c):
            raise Assume("assumption false")

    def cdf(self, x):
        return scipy.stats.norm.cdf(x)

    def pdf(self, x):
        return scipy.stats.norm.pdf(x)

    def ite(self, c, a, b):
        return a if bool(np.all(c)) else b

    def provable(self, cond):
        return bool(np.all(cond))

    def conj(self, *cs):
        return all(bool(np.all(c)) for c in cs)

    def disj(self, *cs):
        return any(bool(np.all(c)) for c in cs)

    def neg(self, c):
        return not bool(np.all(c))

    def implies(self, a, b):
        return (not bool(np.all(a))) or bool(np.all(b))

    def frac(self, a, b):
        return a / b

    def exp(self, x): return np.exp(x)
    def log(self, x): return np.log(x)
    def sqrt(self, x): return np.sqrt(x)
    def absv(self, x): return abs(x)

    # conditions
    def same(self, a, b, tol=None):
        tol = self.tol if tol is None else tol
        a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        if a.shape != b.shape:
            return False
        return bool(np.all(np.abs(a - b) <= tol * (1 + np.abs(a) + np.abs(b))))

    def le_(self, a, b, tol=1e-9):
        a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        return bool(np.all(a <= b + tol * (1 + np.abs(a) + np.abs(b))))

    # checks
    def fail(self, label, msg=""):
        self.failed.append(dict(label=label, msg=msg[:400]))

    def check(self, label, cond):
        self.nchecks += 1
        ok = bool(np.all(cond))
        self.observed.append(("check " + label, True))
        if not ok:
            self.fail(label)

    def lower_bound(self, label, value, bound, given=(), starts=(), seconds=0):
        self.check(label, float(value) >= float(bound) or any(float(c) > 0 for c in given))

    def le(self, label, a, b):
        self.check(label, self.le_(a, b))

    def lt(self, label, a, b):
        self.check(label, bool(np.all(np.asarray(a, dtype=float) < np.asarray(b, dtype=float) + 1e-9)))

    def observe(self, name, x):
        for i, e in enumerate(flat(x)):
            if isinstance(e, (bool, np.bool_, int, float, np.number)):
                self.observed.append(("%s[%d]" % (name, i), e if isinstance(e, (bool, np.bool_)) else float(e)))

    def shape(self, label, a, shp):
        self.check("%s shape" % label, tuple(np.shape(a)) == tuple(shp))

    def finite(self, label, a):
        self.check(label + " is finite", bool(np.all(np.isfinite(np.asarray(a, dtype=float)))))
        self.observe(label, a)

    def eq(self, label, a, b, tol=None):
        tol = self.tol if tol is None else tol
        sa, sb = np.shape(a) if isinstance(a, np.ndarray) else None, np.shape(b) if isinstance(b, np.ndarray) else None
        fa, fb = flat(a), flat(b)
        if (sa is not None and sb is not None and sa != sb) or len(fa) != len(fb):
            self.check(label + " shape", False)
            return
        for i, (x, y) in enumerate(zip(fa, fb)):
            self.nchecks += 1
            try:
                x, y = float(x), float(y)
            except (TypeError, ValueError):
                if not (x is y or x == y):
                    self.fail(label, "%r vs %r" % (x, y))
                continue
            self.observed.append(("%s[%d]" % (label, i), x))
            if x != x or y != y or not (abs(x - y) <= tol * (1 + abs(x) + abs(y)) or x == y):
                self.fail(label, "%r vs %r" % (x, y))

    def raises(self, label, excs, fn):
        self.nchecks += 1
        self.observed.append(("check " + label, True))
        try:
            fn()
        except excs:
            return
        self.fail(label, "no exception")

    def saved(self, name):
        try:
            with open(name, "rb") as f:
                return pickle.load(f)
        except Exception:
            return None

    def saved_names(self):
        return sorted(os.path.normpath(os.path.join(r, f)) for r, _, fs in os.walk(".") for f in fs)

    def mkdir(self, name):
        os.makedirs(name, exist_ok=True)


def flat(x):
    if isinstance(x, (list, tuple)):
        r = []
        for y in x:
            r.extend(flat(y))
        return r
    if isinstance(x, np.ndarray):
        return list(x.flat)
    return [x]


def run_job(job):
    """in this process"""
    out = dict(exception=None, failed=[], observed=[], nchecks=0, assume=None)
    ctx = None
    d = tempfile.mkdtemp(prefix="vp_replay_")
    try:
        os.chdir(d)
        np.seterr(all="ignore")
        import warnings
        warnings.simplefilter("ignore")
        ctx = ConcCtx(dict(job.get("vars") or {}), {k: [(a, v) for a, v in t] for k, t in (job.get("uft") or {}).items()})
        mod = importlib.import_module(job["module"])
        so = sys.stdout
        sys.stdout = open(os.devnull, "w")
        try:
            getattr(mod, job["fn"])(ctx, **job["params"])
        finally:
            sys.stdout = so
    except Assume as e:
        out["assume"] = str(e)
    except Exception as e:
        out["exception"] = "%s: %s" % (type(e).__name__, e)
        out["tb"] = traceback.format_exc(limit=-5)
    finally:
        os.chdir("/")
        shutil.rmtree(d, ignore_errors=True)
    if ctx is not None:
        out.update(failed=ctx.failed, observed=[[n, (bool(v) if isinstance(v, (bool, np.bool_)) else float(v))] for n, v in ctx.observed], nchecks=ctx.nchecks)
    return out


def forked(job, timeout=120):
    import select
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                s = json.dumps(run_job(job))
            except BaseException as e:
                s = json.dumps(dict(exception="driver: %r" % (e,), failed=[], observed=[], nchecks=0, assume=None))
            with os.fdopen(w, "w") as f:
                f.write(s)
        finally:
            os._exit(0)
    os.close(w)
    buf = []
    with os.fdopen(r, "rb") as f:
        while True:
            ok, _, _ = select.select([f], [], [], timeout)
            if not ok:
                os.kill(pid, 9)
                buf = []
                break
            b = os.read(f.fileno(), 1 << 16)
            if not b:
                break
            buf.append(b)
    os.waitpid(pid, 0)
    if not buf:
        return dict(exception="replay timed out", timeout=True, failed=[], observed=[], nchecks=0, assume=None)
    return json.loads(b"".join(buf).decode())


def main():
    if sys.argv[1] == "--pipe":
        jobs = json.load(sys.stdin)
        so = os.dup(1)
        os.dup2(2, 1)
        res = [forked(j) for j in jobs]
        with os.fdopen(so, "w") as f:
            f.write(json.dumps(res))
        return 0
    with open(sys.argv[1]) as f:
        job = json.load(f)
    r = run_job(job)
    print("property:", job.get("property"), " harness:", job["module"] + "." + job["fn"], job["params"])
    print("exception:", r["exception"])
    if r.get("tb"):
        print(r["tb"])
    for f in r["failed"]:
        print("FAILED:", f["label"], f["msg"])
    bad = bool(r["exception"] or r["failed"])
    print("REPRODUCED" if bad else "not reproduced", "(%d checks evaluated)" % r["nchecks"])
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
