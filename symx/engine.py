"""Path exploration, obligations, and the symbolic harness context."""
import contextlib
import math
import os
import random
import time
import traceback
import types

import numpy as np
import z3

from . import expr as E
from . import linalg as LA
from . import smt
from . import symnp as S
from .base import CtxBase
from .env import Env, LHS
from .expr import Sym, SymBool
from .linalg import NS
from .loader import Loader

REPO_SRC = os.environ.get("MFPML_SRC", "/repo/src")


class PathEnd(BaseException):
    """this path is not continued (infeasible, or cut)"""


class Inconclusive(BaseException):
    pass


class Cex(BaseException):
    def __init__(self, label, val, why):
        Exception.__init__(self, label)
        self.label, self.val, self.why = label, val, why


class Limits:
    def __init__(self, paths=3000, seconds=600, branch_ms=3000, query_ms=20000, samples=300):
        self.paths, self.seconds, self.branch_ms, self.query_ms, self.samples = paths, seconds, branch_ms, query_ms, samples


class Explorer:
    """depth-first exploration by re-execution with a prefix of decisions"""

    def __init__(self, harness, limits=None, seed=1, name=""):
        self.harness = harness
        self.lim = limits or Limits()
        self.name = name
        self.rng = random.Random("%s|%s" % (seed, name))
        self.paths = 0
        self.ended = 0
        self.decisions = 0
        self.obligations = {}
        self.contracts = {}
        self.defined = {}
        self.valid = {}
        self.witnesses = []
        self.cexs = []
        self.undischarged = []
        self.splits = [0, 0]
        self.notes = []
        self.reached = False
        self.stop_on_cex = True
        self.validate_paths = 3
        self.confirm = None          # callback(cex) -> True if the real code shows it
        self.unconfirmed = []
        self.inconclusive = []

    def explore(self):
        t0 = time.time()
        stack = [[]]
        E.reset()
        smt.reset()
        LA.reset()
        while stack:
            if self.paths >= self.lim.paths:
                self.inconclusive.append("path limit %d reached" % self.lim.paths)
                break
            if time.time() - t0 > self.lim.seconds:
                self.inconclusive.append("time limit %ds reached after %d paths" % (self.lim.seconds, self.paths))
                break
            if len(self.inconclusive) > 8:
                break
            prefix = stack.pop()
            run = Run(self, prefix)
            self.paths += 1
            try:
                run.execute()
            except Inconclusive as e:
                self.inconclusive.append(str(e))
            for k in range(len(prefix), len(run.trace)):
                taken, other = run.trace[k]
                if other:
                    stack.append([t for t, _ in run.trace[:k]] + [not taken])
            self.decisions += len(run.trace) - len(prefix)
            if self.cexs and self.stop_on_cex:
                break
        return self


class Run:
    def __init__(self, ex, prefix):
        self.ex, self.prefix = ex, prefix
        self.trace = []
        self.pc = []                 # SymBools taken/assumed
        self.defs = []               # definedness conditions assumed
        self._defkeys = set()
        self.guards = []
        self.solver = z3.Solver()
        self.solver.set("timeout", ex.lim.branch_ms)
        self.known_atoms = set()
        self.pckeys = {}
        self.observed = []
        self.freshn = 0
        self.ctx = None
        self.labels = []

    # ----------------------------------------------------- engine callbacks
    def install(self):
        E.BRANCH[0] = self.branch
        E.DEFINED[0] = self.defined
        E.CONCRETISE[0] = self.concretise
        S.ENG[0] = self
        E.ZERODIV[0] = self.zero_division

    def zero_division(self, d):
        """whether the path divides by zero here (the quotient is then infinite or not a number)"""
        if self.ctx is None or self.ctx.definedness != "check":
            return False
        z = E.compare(d, 0, "==")
        if z is False or E.BRANCH[0] is None or E.DEFINED[0] is None:
            return False
        return self.branch(E.band(*self.guards, z) if self.guards else z)

    @contextlib.contextmanager
    def guard(self, c):
        self.guards.append(c)
        try:
            yield
        finally:
            self.guards.pop()

    def fresh(self, what):
        self.freshn += 1
        return E.var("%s!%d" % (what, self.freshn))

    def note_contract(self, s):
        self.ex.contracts[s] = self.ex.contracts.get(s, 0) + 1

    def defined(self, cond, what):
        if cond is True:
            return
        if self.guards:
            cond = E.bor(E.bnot(E.band(*self.guards)), cond)
            if cond is True:
                return
        if cond is False:
            return
        if cond.key in self._defkeys or cond.key in self.pckeys:
            return
        self._defkeys.add(cond.key)
        if self.ctx.definedness == "check":
            self.obligation("defined: " + what, cond)
        self.ex.defined[what] = self.ex.defined.get(what, 0) + 1
        self.defs.append(cond)

    def _register(self, b):
        for a, A in E.atoms_of(b, into_uf=False).items():
            if a not in self.known_atoms:
                self.known_atoms.add(a)
                smt.zb(b)
                for ax in smt.axioms(A):
                    self.solver.add(self.guard_axiom(A, ax))

    def guard_axiom(self, A, ax):
        return guarded(A, ax)

    def push(self, b):
        if b is True:
            return
        self.pc.append(b)
        self.pckeys[b.key] = True
        if b.op == "and":
            for x in b.args:
                self.pckeys[x.key] = True
        n = E.bnot(b)
        self.pckeys.setdefault(n.key, False)
        zz = smt.zb(b)
        self._register(b)
        self.solver.add(zz)

    def check_lit(self, b):
        zz = smt.zb(b)
        self._register(b)
        t0 = time.time()
        r = str(self.solver.check(zz))
        smt.STATS["solver_s"] += time.time() - t0
        smt.STATS["queries"] += 1
        smt.STATS[r] += 1
        return r

    def branch(self, b):
        if b is True or b is False:
            return b
        k = self.pckeys.get(b.key)
        if k is not None:
            return k
        i = len(self.trace)
        if i < len(self.prefix):
            t = self.prefix[i]
            self.trace.append((t, False))
            self.push(b if t else E.bnot(b))
            return t
        if len(self.trace) > 4000:
            raise Inconclusive("too many decisions on one path")
        rt = self.check_lit(b)
        nb = E.bnot(b)
        if rt == "unsat":
            t, other = False, False
        else:
            rf = self.check_lit(nb)
            if rf == "unsat":
                t, other = True, False
            else:
                t, other = True, True
        self.trace.append((t, other))
        self.push(b if t else nb)
        return t

    def concretise(self, s):
        """fork over the values of an integer-valued term"""
        for _ in range(64):
            r = self.solver.check()
            if str(r) == "unsat":
                raise PathEnd("infeasible")
            v = None
            if str(r) == "sat":
                v = smt.model_value(self.solver.model(), smt.z(s))
            if v is None:
                raise Inconclusive("cannot enumerate an index")
            # deterministic choice under re-execution: smallest feasible integer first
            lo = 0
            for v in range(lo, 64):
                b = E.compare(s, v, "==")
                if b is True:
                    return v
                if b is False:
                    continue
                if self.branch(b):
                    return v
            raise S.Unsupported("index outside 0..63")
        raise Inconclusive("cannot enumerate an index")

    def assume(self, b):
        b = E.tobool(b)
        if b is True:
            return
        if b is False:
            raise PathEnd("assumption false")
        self.push(b)

    # ----------------------------------------------------- execution
    def execute(self):
        self.install()
        ctx = SymCtx(self)
        self.ctx = ctx
        ex = self.ex
        try:
            ctx.begin()
            ex.harness(ctx)
        except PathEnd:
            if str(self.solver.check()) == "unsat":
                ex.ended += 1
            return
        except Inconclusive:
            raise
        except S.Unsupported as e:
            self.unsupported(e)
            return
        except Exception as e:
            self.code_exception(e)
            return
        finally:
            E.BRANCH[0] = None
            E.DEFINED[0] = None
            E.ZERODIV[0] = None
            E.CONCRETISE[0] = None
            S.ENG[0] = None
        self.finish()

    def finish(self):
        self.install()
        try:
            ex = self.ex
            first = self.witness(None, sample_only=True, tries=40)
            if first is not None:
                r, m = "sat", None
            else:
                r, m = self.sat([], timeout=None if len(ex.witnesses) < ex.validate_paths else 2000)
            if r == "unsat":
                # with the definedness assumptions the path is empty: undefined everywhere on it?
                r2, _ = self.sat([], defs=False)
                if r2 == "unsat":
                    return
                v = self.witness(None, defs=False)
                if v is None:
                    raise Inconclusive("path only reachable where the code is undefined")
                self.report(dict(label="undefined operation", vals=[v], kind="undefined", why="every run of this path divides by zero or takes an inadmissible root/log"))
                return
            ex.ended += 1
            if len(ex.witnesses) < ex.validate_paths or not ex.reached:
                v = first or self.witness(None, first_model=m)
                if v is not None:
                    ex.reached = True
                    obs = []
                    for name, x in self.observed:
                        try:
                            obs.append((name, E.ev(x, v) if E.is_val(x) else x))
                        except Exception:
                            obs.append((name, None))
                    if not E.JITTER[0] or LA.well(v):
                        ex.witnesses.append((v, obs))
                elif r == "sat":
                    ex.notes.append("a completed path had no numeric witness")
        finally:
            E.BRANCH[0] = None
            E.DEFINED[0] = None
            E.ZERODIV[0] = None
            E.CONCRETISE[0] = None
            S.ENG[0] = None

    def unsupported(self, e):
        tb = traceback.extract_tb(e.__traceback__)
        where = next(("%s:%d" % (f.filename, f.lineno) for f in reversed(tb) if "/mfpml/" in f.filename), "?")
        raise Inconclusive("not covered by the encoding: %s (at %s)" % (e, where))

    def code_exception(self, e):
        """an exception escaped the code under test on this path"""
        self.install()
        ex = self.ex
        tb = traceback.format_exc(limit=-6)
        v = self.witness(None)
        if v is None:
            r, _ = self.sat([], defs=False)
            if r == "unsat":
                return
            raise Inconclusive("exception on a path without numeric witness: %s" % tb)
        self.report(dict(label="exception", vals=[v], kind="exception", why="%s: %s" % (type(e).__name__, e), tb=tb))

    def report(self, cex):
        ex = self.ex
        if ex.confirm is None or ex.confirm(cex):
            ex.cexs.append(cex)
            return True
        ex.unconfirmed.append(cex)
        if len(ex.unconfirmed) > 4:
            raise Inconclusive("several counterexamples did not reproduce on the real code: " + cex["label"])
        return False

    # ----------------------------------------------------- obligations
    def assertions(self, extra, defs=True, pc=True, into_uf=True):
        bs = (list(self.pc) if pc else []) + (list(self.defs) if defs else []) + [b for b in extra if b is not True]
        zz = [smt.zb(b) for b in bs]
        atoms = smt.closure(bs, into_uf)
        for A in atoms.values():
            for ax in smt.axioms(A):
                zz.append(guarded(A, ax))
        zz += pair_axioms(atoms, into_uf)
        return zz

    def sat(self, extra, defs=True, timeout=None):
        if any(b is False for b in extra):
            return "unsat", None
        return smt.check(self.assertions(extra, defs), timeout or self.ex.lim.query_ms, want_model=True)

    def obligation(self, label, goal, bad=None, alt=None):
        """prove goal on this path; `bad(val)` tells a numeric violation beyond tolerance.
        `alt`: weaker (tolerance) goal tried when the exact one is not provable"""
        ex = self.ex
        goal = E.tobool(goal)
        if self.guards:
            goal = E.bor(E.bnot(E.band(*self.guards)), goal)
        st = ex.obligations.setdefault(label, dict(count=0, unsat=0, trivial=0))
        st["count"] += 1
        if bad is None:
            def bad(v, g=goal):
                return (not g) if isinstance(g, bool) else not E.evb(g, v, 1e-7)
        if goal is True:
            # decided by normalisation; the (trivial) query is still put to the solver
            r, _ = smt.check([z3.Not(z3.BoolVal(True))], 1000)
            st["unsat"] += 1
            st["trivial"] += 1
            return
        if self.pckeys.get(goal.key) is True or self.locally_valid(goal) or self.early_split(goal):
            st["unsat"] += 1
            return
        goals = [goal] if alt is None or alt is True or alt is False else [goal, alt]
        last = None
        for g in goals:
            r, model = self.refute(g, bad)
            if r == "unsat":
                st["unsat"] += 1
                return
            if r == "witness":
                return self.violated(label, model, bad)
            last = r
            v = self.witness(bad, first_model=model)
            if v is not None:
                return self.violated(label, v, bad)
        if self.split_valid(goal, 80, 60):
            st["unsat"] += 1
            return
        if last == "sat":
            for g in goals:
                v = self.refine(g, bad)
                if v == "unsat":
                    st["unsat"] += 1
                    return
                if v is not None:
                    return self.violated(label, v)
        st["undischarged"] = st.get("undischarged", 0) + 1
        ex.undischarged.append("%s (%s)" % (label, last))
        if len(ex.undischarged) > 5:
            raise Inconclusive("undischarged: " + "; ".join(ex.undischarged[:5]))

    def identical(self, d):
        """whether d normalises to 0 once functions of equal arguments are identified and, failing that,
        Cholesky factors are written out"""
        try:
            if E.Prover(15, LA.definitions).prove(d):
                return True
            saved, E.UNTIL[0] = E.UNTIL[0], time.time() + 60
            try:
                if E.Unify().eq0(d):
                    return True
                un = LA.definitions(d)
                return bool(un) and E.Unify(un).eq0(d)
            finally:
                E.UNTIL[0] = saved
        except (ArithmeticError, E.NonFinite):
            return False

    def locally_valid(self, goal, budget=12):
        """goal proved without the path condition (so on every path), by case splits on its outermost
        indicators; remembered for the other paths"""
        ex = self.ex
        if goal.key in ex.valid:
            return ex.valid[goal.key]
        left = [budget]
        splits = [16]

        def go(g, hyps, keys):
            if g is True:
                return True
            if g is False:
                return False
            if g.op == "and":
                return all(go(x, hyps, keys) for x in g.args)
            inds = () if g.key in keys else E.inds_of(g)
            signs = () if inds or g.key in keys or splits[0] <= 0 else E.inds_of(g, ("abs",))
            if inds or signs:
                if (hyps or signs) and self.near_unsat(hyps + [E.bnot(g)], 150):
                    return True
                a = max(inds or signs)
                c = E.ATOMS[a].args[0]
                if signs:
                    splits[0] -= 1
                    c = E.compare(c, 0, ">=")
                for one in (True, False):
                    h = c if one else E.bnot(c)
                    if h is False or E.bnot(h).key in keys:
                        continue
                    new = set(keys)
                    if h is True:
                        if not go(E.set_ind(g, a, one), hyps, keys):
                            return False
                        continue
                    for x in (h.args if h.op == "and" else (h,)):
                        new.add(x.key)
                    if not go(E.set_ind(g, a, one), hyps + [h], new):
                        return False
                return True
            if left[0] <= 0:
                return False
            left[0] -= 1
            rel = hyps
            if g.key in keys:
                rel = [h for h in hyps if h.key == g.key or (h.op == "and" and any(x.key == g.key for x in h.args))]
            bs = rel + [E.bnot(g)]
            zz = [smt.zb(b) for b in bs]
            if g.key in keys:
                return smt.check(zz, 500)[0] == "unsat"
            bs = [b for b in bs if b is not True]
            if self.near_unsat(bs, 500):
                return True
            full = smt.closure(bs, False)
            for A in full.values():
                for ax in smt.axioms(A):
                    zz.append(guarded(A, ax))
            zz += pair_axioms(full, False)
            return smt.check(zz, 500)[0] == "unsat"
        ok = go(goal, [], set())
        ex.valid[goal.key] = ok
        return ok

    def early_split(self, goal):
        """split_valid before the solver is asked, as long as that tends to succeed"""
        won, lost = self.ex.splits
        if lost > 2 * won + 2:
            return False
        ok = self.split_valid(goal, seconds=4)
        self.ex.splits[0 if ok else 1] += 1
        return ok

    def split_valid(self, goal, budget=40, seconds=20):
        """goal proved on this path by resolving, and case-splitting on, the selections nested in the
        arguments of functions"""
        if not any(A.kind in ("ind", "ite", "abs") for A in E.atoms_of(goal).values()):
            return False
        left = [budget]
        until = time.time() + seconds
        self.solver.set("timeout", 300)
        saved = E.DEFINED[0], E.BRANCH[0]
        E.DEFINED[0] = None
        known = set(self.known_atoms)
        self.solver.push()

        def go(g, hyps, hk, memo):
            def dec(b):
                k = self.pckeys.get(b.key)
                if k is None:
                    k = hk.get(b.key)
                if k is None:
                    if b.key in memo:
                        return memo[b.key]
                    if time.time() > until:
                        return None
                    k = False if self.check_lit(b) == "unsat" else True if self.check_lit(E.bnot(b)) == "unsat" else None
                    memo[b.key] = k
                return k
            R = E.Rebuild(dec)
            g = R.bool(g)
            if g is True or (isinstance(g, E.SymBool) and (self.pckeys.get(g.key) is True or hk.get(g.key) is True)):
                return True
            if left[0] <= 0 or time.time() > until:
                return False
            left[0] -= 1
            if g is not False and not R.nested and not hyps and not R.outer:
                return False                     # nothing resolved here that the other provers have not seen
            conds = R.nested or R.outer
            if conds:
                c = conds[0]
                for h in (c, E.bnot(c)):
                    self.solver.push()
                    kn = set(self.known_atoms)
                    try:
                        zz = smt.zb(h)
                        for a, A in E.atoms_of(h, into_uf=False).items():
                            for ax in smt.axioms(A):
                                self.solver.add(guarded(A, ax))
                        self.solver.add(zz)
                        if str(self.solver.check()) == "unsat":
                            continue
                        hk2 = dict(hk)
                        for x in (h.args if h.op == "and" else (h,)):
                            hk2[x.key] = True
                            hk2[E.bnot(x).key] = False
                        hk2[h.key] = True
                        hk2[E.bnot(h).key] = False
                        if not go(g, hyps + [h], hk2, {k: v for k, v in memo.items() if v is not None}):
                            return False
                    finally:
                        self.solver.pop()
                        self.known_atoms = kn
                return True
            # no selection is left
            if g is False:
                return str(self.solver.check()) == "unsat"
            n = E.bnot(g)
            if self.near_unsat(hyps + [n], 300):
                return True
            r, _ = smt.check(self.assertions(hyps + [n], into_uf=False), 1000)
            return r == "unsat"
        try:
            return go(goal, [], {}, {})
        except (ArithmeticError, TypeError, AttributeError):
            return False
        finally:
            self.solver.pop()
            self.known_atoms = known         # their axioms went with the scope
            self.solver.set("timeout", self.ex.lim.branch_ms)
            E.DEFINED[0], E.BRANCH[0] = saved

    def near_unsat(self, bs, ms):
        """inconsistent already by the axioms of the directly occurring atoms"""
        bs = [b for b in bs if b is not True]
        zz = [smt.zb(b) for b in bs]
        near = E.direct_atoms(bs)
        for A in near.values():
            for ax in smt.axioms(A):
                zz.append(guarded(A, ax))
        zz += pair_axioms(near, False)
        return smt.check(zz, ms)[0] == "unsat"

    def refute(self, g, bad):
        """-> ('unsat', None) when g holds on this path; ('witness', valuation); ('sat'|'unknown', model)"""
        neg = E.bnot(g)
        ms = self.ex.lim.query_ms
        uf = any(A.kind == "uf" and A.args for A in smt.closure(list(self.pc) + list(self.defs) + [neg]).values())
        if uf:
            # uninterpreted values as unconstrained numbers first
            r, model = smt.check(self.assertions([neg], into_uf=False), ms, want_model=True)
            if r == "unsat":
                return r, None
        asr = self.assertions([neg])
        r, model = smt.check(asr, ms, want_model=True)
        if r == "unknown":
            # a concrete violation is cheaper to find than a proof
            v = self.witness(bad)
            if v is not None:
                return "witness", v
            r, model = smt.check_nlsat(asr, ms)
            if r == "unknown":
                r = smt.check_cvc5(asr, ms)
                model = None
        return r, model

    def refine(self, g, bad, budget=12):
        """the solver has a candidate violation that is not one numerically: constrain the transcendental
        values by facts at sample points (monotonicity, tangents) until a true violation is found.
        -> 'unsat', a valuation, or None"""
        t0 = time.time()
        neg = E.bnot(g)
        atoms = [A for A in smt.closure(list(self.pc) + list(self.defs) + [neg]).values() if A.kind in FACTS]
        facts = [f for A in atoms for a in GRID[A.kind] for f in fact_at(A, a)]
        for margin in (0.3, 0.02, 1e-4, 0.0):
            strong = at_least(g, margin)
            if strong is None:
                continue
            for _ in range(6):
                if time.time() - t0 > budget:
                    return None
                r, m = smt.check(self.assertions([neg] + ([strong] if strong is not True else [])) + facts, 2000, want_model=True)
                if r == "unsat" and margin == 0.0:
                    return "unsat"
                if r != "sat" or m is None:
                    break
                v = self.val_from_model(m)
                try:
                    if all(E.evb(b, v) for b in self.pc + self.defs) and (bad(v) or not E.evb(g, v)) and not (E.JITTER[0] and not LA.well(v)):
                        return v
                    for A in atoms:
                        facts += fact_at(A, E.ev(A.args[0], v))
                except (ValueError, OverflowError, ZeroDivisionError):
                    break
                if not atoms:
                    break
        return None

    def violated(self, label, v, bad=None):
        ex = self.ex
        st = ex.obligations[label]
        if st.get("failed", 0) >= 2:
            raise PathEnd("label already reported")
        st["failed"] = st.get("failed", 0) + 1
        vals = [v]
        if bad is not None:
            for _ in range(3):
                w = self.witness(bad, sample_only=True)
                if w is not None:
                    vals.append(w)
        if self.report(dict(label=label, vals=vals, kind="check", why="the solver's assignment violates the assertion")) and ex.stop_on_cex:
            raise PathEnd("violated")

    # ----------------------------------------------------- numeric witnesses
    def val_from_model(self, m):
        v = E.Valuation(rng=random.Random(self.ex.rng.random()))
        if m is None:
            return v
        for A in list(E.ATOMS):
            if A.kind == "var" and not (A.meta or {}).get("eval") and A.z3 is not None:
                x = smt.model_value(m, A.z3)
                if x is not None:
                    v.vars[A.name] = x
        for A in list(E.ATOMS):
            if A.kind == "uf" and A.z3 is not None:
                x = smt.model_value(m, A.z3)
                if x is not None:
                    args = [E.ev(a, v) for a in A.args]
                    tab = v.uft.setdefault(A.name, [])
                    if not any(len(t) == len(args) and all(abs(p - q) <= 1e-12 for p, q in zip(t, args)) for t, _ in tab):
                        tab.append((args, x))
        v.cache.clear()
        return v

    def holds(self, v, defs=True):
        try:
            return all(E.evb(b, v, 1e-12) for b in self.pc) and (not defs or all(E.evb(b, v) for b in self.defs))
        except (ValueError, OverflowError, ZeroDivisionError):
            return False

    def witness(self, bad, first_model=None, defs=True, sample_only=False, tries=None):
        """valuation satisfying the path condition and bad(val); generic (interior) values preferred"""
        tried, ill = [], []

        def ok(v):
            try:
                if not (self.holds(v, defs) and (bad is None or bad(v))):
                    return False
                if E.JITTER[0] and not LA.well(v):
                    ill.append(v)            # numerically meaningless: the dropped jitter and rounding are amplified
                    return False
                return True
            except (ValueError, OverflowError, ZeroDivisionError):
                return False

        def near(base, keep):
            """base with its discrete choices kept and the other values resampled with probability 1-keep"""
            v = E.Valuation(rng=random.Random(rng.random()))
            for n, x in base.vars.items():
                A = E.ATOMS[E.VARS[n]] if n in E.VARS else None
                m = (A.meta or {}) if A is not None else {}
                if m.get("values") is not None or m.get("int") or rng.random() < keep:
                    v.vars[n] = x
            if keep >= 0.9:
                v.uft = {q: list(t) for q, t in base.uft.items()}
            return v
        rng = random.Random(self.ex.rng.random())
        base = None
        if first_model is not None:
            base = self.val_from_model(first_model)
        elif self.pc and not sample_only:
            r, m = smt.check(self.assertions([], defs), self.ex.lim.branch_ms, want_model=True)
            if r == "unsat":
                return None
            if m is not None:
                base = self.val_from_model(m)
        if base is not None:
            for keep in (0.0, 0.0, 0.5, 0.9):
                v = near(base, keep)
                if ok(v):
                    return v
            if ok(base):
                return base
            tried.append(base)
        t0 = time.time()
        for k in range(tries or self.ex.lim.samples):
            if time.time() - t0 > 15:
                break
            if tried and k % 2:
                v = near(tried[rng.randrange(len(tried))], 0.9 if k % 4 == 1 else 0.5)
            else:
                v = E.Valuation(rng=random.Random(rng.random()))
            if ok(v):
                return v
        return ill[0] if ill and bad is None else None


def _phi(a):
    return 0.5 * math.erfc(-a / math.sqrt(2))


FACTS = {"exp": math.exp, "Phi": _phi, "log": math.log, "sin": math.sin, "cos": math.cos, "atan": math.atan}
GRID = {"exp": (-20.0, -8.0, -3.0, -1.0, -0.3, 0.0, 0.3, 1.0, 3.0, 8.0), "Phi": (0.0, 0.4, 1.0, 2.0, 3.5, 6.0, -0.4, -1.0, -2.0, -3.5, -6.0),
        "log": (1e-4, 0.1, 0.5, 1.0, 2.0, 10.0, 1e4), "sin": (), "cos": (), "atan": (-3.0, -1.0, 0.0, 1.0, 3.0)}


def fact_at(A, a):
    """true statements about the transcendental value A near its argument value a"""
    if not (abs(a) < 1e6):
        return []
    try:
        f = FACTS[A.kind](a)
    except (ValueError, OverflowError):
        return []
    if not f < 1e12:
        return []
    v, p, x = smt.z_atom(A), smt.z(A.args[0]), smt.q(E.to_frac(a))
    eps = 1e-13 * max(1.0, abs(f))
    lo, hi = smt.q(E.to_frac(f - eps)), smt.q(E.to_frac(f + eps))
    if A.kind in ("sin", "cos"):
        d = z3.If(p >= x, p - x, x - p)
        return [v <= hi + d, v >= lo - d]
    out = [z3.Implies(p <= x, v <= hi), z3.Implies(p >= x, v >= lo)]
    if A.kind == "exp":
        out.append(v >= lo + smt.q(E.to_frac(f)) * (p - x) - smt.q(E.to_frac(eps)) * z3.If(p >= x, p - x, x - p))
    return out


def at_least(g, margin):
    """the negation of g, violated by the margin; None when that has no meaning"""
    if margin == 0.0:
        return True
    if g is False or g is True:
        return None
    m = E.Sym({E.ONE: E.to_frac(margin)})
    if g.op == "eq":
        d = g.args[0]
        return E.bor(E.compare(d, m, ">"), E.compare(-d, m, ">"))
    if g.op in ("le", "lt"):
        return E.compare(g.args[0], m, ">")
    if g.op == "and":
        xs = [at_least(x, margin) for x in g.args]
        return E.bor(*xs) if all(x is not None for x in xs) else None
    return None


def guarded(A, ax):
    if A.kind == "inv":
        return z3.Implies(smt.z(A.args[0]) != 0, ax)
    if A.kind == "sqrt":
        return z3.Implies(smt.z(A.args[0]) >= 0, ax)
    if A.id in smt._INV and A.kind != "inv":
        return z3.Implies(smt.z_atom(A) != 0, ax) if _mentions_inv(A, ax) else ax
    return ax


def _mentions_inv(A, ax):
    # the reciprocal axiom is always the first one produced by smt.axioms
    return ax.eq(smt._INV[A.id] * smt.z_atom(A) == 1)


def pair_axioms(atoms, congruence=True):
    out = []
    if congruence:
        ufs = {}
        for A in atoms.values():
            if A.kind == "uf" and A.args:
                ufs.setdefault((A.name, len(A.args)), []).append(A)
        for xs in ufs.values():
            for i in range(len(xs)):
                for j in range(i):
                    eqs = [E.compare(p, q, "==") for p, q in zip(xs[i].args, xs[j].args)]
                    if any(e is False for e in eqs):
                        continue
                    out.append(z3.Implies(z3.And(*[smt.zb(e) for e in eqs]), smt.z_atom(xs[i]) == smt.z_atom(xs[j])))
    sc = {}
    for A in atoms.values():
        if A.kind in ("sin", "cos"):
            sc.setdefault(A.args[0].key, {})[A.kind] = A
    for d in sc.values():
        if len(d) == 2:
            s, c = smt.z_atom(d["sin"]), smt.z_atom(d["cos"])
            out.append(s * s + c * c == 1)
    # strict monotonicity of exp and the normal cdf between pairs
    for kind in ("exp", "Phi", "log"):
        xs = [A for A in atoms.values() if A.kind == kind]
        if len(xs) <= 6:
            for i in range(len(xs)):
                for j in range(i):
                    a, b = xs[i], xs[j]
                    d = a.args[0] - b.args[0]
                    if d.is_const() or len(d.t) <= 4:
                        out.append((smt.z(a.args[0]) < smt.z(b.args[0])) == (smt.z_atom(a) < smt.z_atom(b)))
    return out


def is_val(x):
    return isinstance(x, (Sym, SymBool))


E.is_val = is_val


class Dummy:
    """stands for plotting and the like: accepts anything"""

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return Dummy()

    def __call__(self, *a, **k):
        return Dummy()

    def __iter__(self):
        return iter((Dummy(), Dummy()))

    def __getitem__(self, k):
        return Dummy()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def make_dirs(dirs, name):
    name = os.path.normpath(os.fspath(name))
    while name:
        dirs.add(name)
        name = os.path.dirname(name) if name != "/" else ""


def fake_path(open_, files, dirs):
    """pathlib.Path over the symbolic run's in-memory files"""
    import pathlib

    class Path(pathlib.PurePosixPath):
        def open(self, mode="r", *a, **k):
            return open_(str(self), mode)

        def write_bytes(self, data):
            with self.open("wb") as f:
                f.write(data)

        write_text = write_bytes

        def read_bytes(self):
            return self.open("rb").read()

        read_text = read_bytes

        def exists(self):
            return str(self) in files or self.is_dir()

        def is_dir(self):
            return str(self) in dirs

        def is_file(self):
            return str(self) in files

        def mkdir(self, *a, **k):
            make_dirs(dirs, str(self))

        def touch(self, *a, **k):
            files.setdefault(str(self), [])

        def unlink(self, missing_ok=False):
            if not missing_ok and str(self) not in files:
                raise FileNotFoundError(str(self))
            files.pop(str(self), None)

        def rename(self, other):
            files[os.path.normpath(os.fspath(other))] = files.pop(str(self))
            return Path(other)

        replace = rename

        def resolve(self, *a):
            return self

        absolute = expanduser = resolve
    return Path


def fake_os(files, dirs):
    def remove(n, *a, **k):
        n = os.path.normpath(os.fspath(n))
        if n not in files:
            raise FileNotFoundError(n)
        del files[n]

    def rename(a, b, *_, **k):
        files[os.path.normpath(os.fspath(b))] = files.pop(os.path.normpath(os.fspath(a)))
    there = lambda n: os.path.normpath(os.fspath(n)) in files
    op = os.path
    isdir = lambda n: os.fspath(n) != "" and op.normpath(os.fspath(n)) in dirs
    path = NS("os.path", join=op.join, basename=op.basename, dirname=op.dirname, splitext=op.splitext, split=op.split, normpath=op.normpath,
              abspath=op.normpath, realpath=op.normpath, expanduser=lambda n: n, exists=lambda n: there(n) or isdir(n), isfile=there,
              isdir=isdir, sep="/")
    return NS("os", path=path, fspath=os.fspath, remove=remove, unlink=remove, rename=rename, replace=rename, makedirs=lambda n, *a, **k: make_dirs(dirs, n),
              mkdir=lambda n, *a, **k: make_dirs(dirs, n), getcwd=lambda: ".", sep="/", linesep="\n", PathLike=os.PathLike, environ={}, getenv=lambda n, d=None: d,
              fsync=lambda *a: None, devnull=os.devnull, getpid=lambda: 1, cpu_count=lambda: 1)


class FakeFile:
    def __init__(self, env, name, mode):
        self.env, self.name, self.mode = env, name, mode
        if "w" in mode or "x" in mode:
            env.files[name] = []
        elif "a" in mode:
            env.files.setdefault(name, [])

    def write(self, x):
        self.env.files[self.name].append(x)

    def writelines(self, xs):
        for x in xs:
            self.write(x)

    def read(self, *a):
        c = self.env.files[self.name]
        return c[0] if len(c) == 1 else "".join(map(str, c))

    def close(self):
        pass

    def flush(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def deep(x):
    """value snapshot, as pickling would take"""
    if isinstance(x, np.ndarray):
        return x.copy()
    if isinstance(x, list):
        return [deep(y) for y in x]
    if isinstance(x, tuple):
        return tuple(deep(y) for y in x)
    if isinstance(x, dict):
        return {k: deep(v) for k, v in x.items()}
    return x


def flat(x):
    if isinstance(x, (list, tuple)):
        r = []
        for y in x:
            r.extend(flat(y))
        return r
    if isinstance(x, S.MaskedSel):
        x = x.force()
    if isinstance(x, np.ndarray):
        return list(x.view(np.ndarray).flat)
    return [x]


class SymCtx(CtxBase):
    symbolic = True

    def __init__(self, run):
        super().__init__()
        self.run = run
        self.calls = []

    def begin(self):
        self.env = Env(self)
        env = self.env
        E.JITTER[0] = 0.0
        E.OPAQUE[0] = 0
        E.NAMING[0] = 0
        special = NS("scipy.special", erf=S.vectorize(lambda x: E.sym_erf(E.coerce(x))), erfc=S.vectorize(lambda x: 1 - E.sym_erf(E.coerce(x))),
                     ndtr=S.vectorize(lambda x: E.sym_cdf(E.coerce(x))), expit=S.vectorize(lambda x: 1 / (1 + E.sym_exp(-E.coerce(x)))),
                     log_ndtr=S.vectorize(lambda x: E.sym_cdf(E.coerce(x)).log()),
                     xlogy=lambda x, y: S.handle_ufunc(np.multiply, "__call__", (x, S.handle_ufunc(np.log, "__call__", (y,), {})), {}))
        sp_special = special

        class Norm:
            @staticmethod
            def _z(x, loc, scale):
                if (isinstance(loc, (int, float)) and loc == 0) and (isinstance(scale, (int, float)) and scale == 1):
                    return x
                return S.handle_ufunc(np.true_divide, "__call__", (S.handle_ufunc(np.subtract, "__call__", (S.tosarr(x), loc), {}), scale), {})

            def cdf(self, x, loc=0, scale=1):
                return S.vectorize(_cdf)(self._z(x, loc, scale))

            def sf(self, x, loc=0, scale=1):
                return S.vectorize(lambda v: 1 - _cdf(v))(self._z(x, loc, scale))

            def pdf(self, x, loc=0, scale=1):
                r = S.vectorize(_pdf)(self._z(x, loc, scale))
                return r if isinstance(scale, (int, float)) and scale == 1 else r / scale

            def logcdf(self, x, loc=0, scale=1):
                return S.vectorize(lambda v: _cdf(v).log())(self._z(x, loc, scale))

            def logpdf(self, x, loc=0, scale=1):
                return S.vectorize(lambda v: -(E.coerce(v) ** 2) / 2 - 0.5 * math.log(2 * math.pi))(self._z(x, loc, scale))

            def __call__(self, loc=0, scale=1):
                n = self

                class Fz:
                    def cdf(s, x): return n.cdf(x, loc, scale)
                    def pdf(s, x): return n.pdf(x, loc, scale)
                    def sf(s, x): return n.sf(x, loc, scale)
                    def logcdf(s, x): return n.logcdf(x, loc, scale)
                return Fz()
        norm = Norm()
        qmc = NS("scipy.stats.qmc", LatinHypercube=env.LatinHypercube, Sobol=env.Sobol, Halton=env.Halton, scale=env.qmc_scale)
        stats = NS("scipy.stats", norm=norm, qmc=qmc)
        optimize = NS("scipy.optimize", minimize=env.minimize, differential_evolution=env.differential_evolution,
                      dual_annealing=env.dual_annealing, shgo=env.shgo, minimize_scalar=env.minimize_scalar, Bounds=_Bounds, OptimizeResult=dict)
        spatial = NS("scipy.spatial", distance=NS("scipy.spatial.distance", cdist=cdist, pdist=pdist, squareform=squareform), distance_matrix=lambda a, b: cdist(a, b))
        scipy = NS("scipy", optimize=optimize, stats=stats, spatial=spatial, special=sp_special, linalg=LA.sp_linalg)
        self.np = S.NP(dict(linalg=LA.np_linalg, random=env.np_random()))
        self.np.typing = types.SimpleNamespace(NDArray=np.ndarray, ArrayLike=object)
        pyrandom = NS("random", random=lambda: env.global_stream._u(), seed=lambda s=None: None)
        pickle = NS("pickle", dump=self._dump, dumps=lambda o, *a, **k: deep(o), load=self._load, HIGHEST_PROTOCOL=5, DEFAULT_PROTOCOL=4, PickleError=Exception,
                    Pickler=lambda f, *a, **k: NS("Pickler", dump=lambda o: self._dump(o, f)), Unpickler=lambda f, *a, **k: NS("Unpickler", load=lambda: self._load(f)), loads=lambda o: deep(o))
        m = dict(numpy=self.np, scipy=scipy, matplotlib=Dummy(), time=NS("time", time=env.time, perf_counter=env.time, monotonic=env.time, sleep=lambda *a: None, process_time=env.time),
                 pickle=pickle, math=MATH, random=pyrandom, warnings=Dummy(), logging=Dummy(), tqdm=Dummy(), pandas=Dummy(), seaborn=Dummy(),
                 copy=NS("copy", copy=_copy, deepcopy=_deepcopy))
        m["os"] = fake_os(env.files, env.dirs)
        m["pathlib"] = NS("pathlib", Path=(P_ := fake_path(self._open, env.files, env.dirs)), PosixPath=P_, PurePath=__import__("pathlib").PurePosixPath)
        overrides = dict(float=S.E_float, int=S.E_int, max=S.py_max, min=S.py_min, print=lambda *a, **k: None, open=self._open)
        self.loader = Loader(REPO_SRC, "mfpml", m, overrides)

    def _open(self, name, mode="r", *a, **k):
        name = os.path.normpath(os.fspath(name))
        if "r" in mode and name not in self.env.files:
            raise FileNotFoundError(name)
        if os.path.dirname(name) and os.path.dirname(name) not in self.env.dirs:
            raise FileNotFoundError(name)
        if "x" in mode and name in self.env.files:
            raise FileExistsError(name)
        return FakeFile(self.env, name, mode)

    def _dump(self, obj, f, *a, **k):
        f.write(deep(obj))

    def _load(self, f, *a, **k):
        return deep(self.env.files[f.name][0])

    def saved(self, name):
        """object pickled to file `name`, or None"""
        c = self.env.files.get(name)
        return c[0] if c and len(c) == 1 else None

    def saved_names(self):
        return sorted(self.env.files)

    def mkdir(self, name):
        make_dirs(self.env.dirs, name)

    # ------------------------------------------------------------ values
    def load(self, name):
        m = self.loader.load(name)
        self.run.ctx_loader = self.loader
        return m

    def real(self, name, lo=None, hi=None, **k):
        meta = dict(k)
        if lo is not None:
            meta["lo"] = lo
        if hi is not None:
            meta["hi"] = hi
        if lo is not None and (lo > 0 or (lo == 0 and k.get("lo_open"))):
            meta["positive"] = True
        return E.var(name, **meta)

    def int(self, name, lo, hi):
        if lo == hi:
            return lo
        return E.var(name, int=True, values=[float(x) for x in range(lo, hi + 1)], lo=lo, hi=hi)

    def distinct(self, xs):
        for i in range(len(xs)):
            for j in range(i):
                c = E.compare(E.coerce(xs[i]), xs[j], "==")
                self.run.assume(E.bnot(c))

    def intarray(self, xs, shape):
        return S.canon(S.build(list(xs))).reshape(shape)

    def seedkey(self, s):
        if isinstance(s, Sym):
            return "<%s>" % "_".join("%s" % (k,) for k in s.key) if not s.is_const() else str(s.cval())
        return str(s)

    def ambient_state(self):
        return "amb"

    def scalar(self, v):
        if isinstance(v, np.ndarray):
            if v.size != 1:
                raise ValueError("The user-provided objective function must return a scalar value.")
            return v.reshape(-1)[0]
        return v

    def func(self, name, lo=None, hi=None):
        """uninterpreted real function of real arguments"""
        def f(*args):
            return E.uf(name, [E.coerce(S._elem(a)) for a in args], lo=lo, hi=hi)
        return f

    def bool(self, name):
        return E.compare(self.real(name, 0, 1), E.Fraction(1, 2), "<=")

    def choose(self, name, options):
        """fork over a finite set of configurations"""
        v = self.real(name, values=[float(i) for i in range(len(options))], int=True, lo=0, hi=len(options) - 1)
        for i in range(len(options) - 1):
            if self.run.branch(E.tobool(E.compare(v, i, "=="))):
                return options[i]
        return options[-1]

    def jitter(self, x):
        E.JITTER[0] = x

    def opaque(self, n):
        """selections between terms of more than n monomials are kept as one named value"""
        E.OPAQUE[0] = n

    def naming(self, n):
        """matrix products and solves whose result has more than n terms become named values"""
        E.NAMING[0] = n

    def assume(self, c):
        self.run.assume(_btrue(c))

    # mathematical helpers for reference formulas
    def cdf(self, x):
        return S.vectorize(_cdf)(x)

    def pdf(self, x):
        return S.vectorize(_pdf)(x)

    def ite(self, c, a, b):
        return E.ite(E.tobool(c), a, b)

    def provable(self, cond):
        """whether cond holds for every value on this path (a question, not an obligation)"""
        b = E.tobool(cond)
        if isinstance(b, bool):
            return b
        r = self.run
        return r.locally_valid(b) or r.split_valid(b) or smt.check(r.assertions([E.bnot(b)]), 3000)[0] == "unsat"

    def conj(self, *cs):
        return E.band(*[_btrue(c) for c in cs])

    def disj(self, *cs):
        return E.bor(*[_btrue(c) for c in cs])

    def neg(self, c):
        return E.bnot(_btrue(c))

    def implies(self, a, b):
        return E.bor(E.bnot(_btrue(a)), _btrue(b))

    def frac(self, a, b):
        return Sym.const(E.Fraction(a, b))

    def exp(self, x): return S.vectorize(lambda v: E.coerce(v).exp())(x)
    def log(self, x): return S.vectorize(lambda v: E.coerce(v).log())(x)
    def sqrt(self, x): return S.vectorize(lambda v: E.sym_sqrt(E.coerce(v)))(x)
    def absv(self, x): return abs(x)

    def same(self, a, b, tol=None):
        """condition: equal element by element"""
        sa, sb = np.shape(a), np.shape(b)
        if sa != sb:
            return False
        out = []
        for x, y in zip(flat(a), flat(b)):
            out.append(E.tobool(E.compare(E.coerce(S._elem(x)), E.coerce(S._elem(y)), "==")))
        return E.band(*out)

    def le_(self, a, b, tol=None):
        out = []
        r = S.handle_ufunc(np.subtract, "__call__", (S.tosarr(a), S.tosarr(b)), {})
        for x in flat(r):
            out.append(E.tobool(E.compare(E.coerce(S._elem(x)), 0, "<=")))
        return E.band(*out)

    def le(self, label, a, b):
        r = S.handle_ufunc(np.subtract, "__call__", (S.tosarr(a), S.tosarr(b)), {})
        self.run.observed.append(("check " + label, True))
        for x in flat(r):
            x = E.coerce(S._elem(x))
            self.run.obligation(label, E.compare(x, 0, "<="), bad=lambda v, x=x: not (E.ev(x, v) <= 1e-8))

    def lt(self, label, a, b):
        r = S.handle_ufunc(np.subtract, "__call__", (S.tosarr(a), S.tosarr(b)), {})
        self.run.observed.append(("check " + label, True))
        for x in flat(r):
            x = E.coerce(S._elem(x))
            self.run.obligation(label, E.compare(x, 0, "<"), bad=lambda v, x=x: not (E.ev(x, v) < 1e-8))

    # ------------------------------------------------------------ checks
    def lower_bound(self, label, value, bound, given=(), starts=(), seconds=240):
        """value >= bound wherever every entry of `given` is <= 0, over all values of the variables in their ranges"""
        from . import icp
        run = self.run
        run.observed.append(("check " + label, True))
        x = E.coerce(S._elem(value))
        b = E.coerce(S._elem(bound))
        b = float(b.cval()) if b.is_const() else None
        cons = [E.coerce(S._elem(c)) for c in given]
        st = run.ex.obligations.setdefault(label, dict(count=0, unsat=0, trivial=0))
        st["count"] += 1
        vs = [A for A in E.ATOMS if A.kind == "var"]
        if b is None or any((A.meta or {}).get("lo") is None or (A.meta or {}).get("hi") is None for A in vs):
            raise Inconclusive("lower_bound needs a numeric bound and bounded variables")
        names = {A.name: i for i, A in enumerate(vs)}
        pts = [[float(E.coerce(S._elem(q)).cval()) for q in p] for p in starts]
        n0 = icp.STATS["boxes"]
        t0 = time.time()
        r, w = icp.decide(x, cons, b, names, [float(A.meta["lo"]) for A in vs], [float(A.meta["hi"]) for A in vs], [p for p in pts if len(p) == len(vs)], seconds=seconds)
        smt.STATS["queries"] += icp.STATS["boxes"] - n0
        smt.STATS["solver_s"] += time.time() - t0
        run.note_contract("interval constraint solver: branch and prune over the encoded terms (symx/icp.py)")
        if r == "unsat":
            st["unsat"] += 1
            smt.STATS["unsat"] += 1
            return
        if r == "sat":
            v = E.Valuation(vars={n: float(w[i]) for n, i in names.items()})
            return run.violated(label, v)
        st["undischarged"] = st.get("undischarged", 0) + 1
        run.ex.undischarged.append("%s (%s)" % (label, w))

    def check(self, label, cond):
        self.run.observed.append(("check " + label, True))
        self.run.obligation(label, _btrue(cond))

    def observe(self, name, x):
        for i, e in enumerate(flat(x)):
            if isinstance(e, np.generic):
                e = e.item()
            if isinstance(e, (Sym, SymBool, int, float, bool)):
                self.run.observed.append(("%s[%d]" % (name, i), e))

    def shape(self, label, a, shp):
        self.check("%s shape" % label, tuple(np.shape(a)) == tuple(shp))

    def finite(self, label, a):
        """every value is a finite number (the definedness of the operations is checked separately)"""
        ok = True
        for x in flat(a):
            x = E.coerce(S._elem(x))
            if not isinstance(x, Sym):
                ok = ok and isinstance(x, (int, float)) and math.isfinite(x)
        self.check(label + " is finite", ok)
        self.observe(label, a)

    def eq(self, label, a, b, tol=None):
        """elementwise equality (up to rounding tolerance in the replay)"""
        sa, sb = np.shape(a) if isinstance(a, np.ndarray) else None, np.shape(b) if isinstance(b, np.ndarray) else None
        fa, fb = flat(a), flat(b)
        if (sa is not None and sb is not None and sa != sb) or len(fa) != len(fb):
            self.check(label + " shape", False)
            return
        tol = self.tol if tol is None else tol
        for i, (x, y) in enumerate(zip(fa, fb)):
            x, y = E.coerce(S._elem(x)), E.coerce(S._elem(y))
            self.run.observed.append(("%s[%d]" % (label, i), x))
            if not isinstance(x, Sym) or not isinstance(y, Sym):
                if x is NotImplemented or y is NotImplemented:
                    self.check(label, x is y)
                else:
                    self.check(label, (not isinstance(x, Sym) and not isinstance(y, Sym)) and (x == y))
                continue
            num, _ = E.clear(x - y)
            goal = E.compare(num, 0, "==")
            if goal is not True and not isinstance(goal, bool):
                num = tidy(num)
                goal = E.compare(num, 0, "==")
            if goal is not True and E.maybe_equal(x, y) and self.run.identical(x - y):
                goal = True

            def bad(v, x=x, y=y):
                p, q = E.ev(x, v), E.ev(y, v)
                if p != p or q != q:
                    return True
                return abs(p - q) > 10 * tol * (1 + abs(p) + abs(q))
            if goal is False:
                goal = E.compare(E.ZERO, 1, "==")
            d = x - y
            alt = E.band(E.compare(d, tol, "<="), E.compare(d, -tol, ">="))
            self.run.obligation(label, goal, bad=bad, alt=alt if goal is not False else None)

    def raises(self, label, excs, fn):
        try:
            fn()
        except PathEnd:
            raise
        except excs as e:
            if isinstance(e, S.Unsupported):
                raise
            self.check(label, True)
            return
        self.check(label, False)

    def no_raise(self, label, fn):
        return fn()


def tidy(num):
    """drop relative rounding dust left after clearing denominators"""
    if not num.t:
        return num
    mx = max(abs(c) for c in num.t.values())
    return num


def _btrue(c):
    if isinstance(c, S.SArr):
        return E.band(*[E.tobool(x) for x in c.view(np.ndarray).flat]) if c.size else True
    if isinstance(c, np.ndarray):
        return bool(np.all(c))
    return E.tobool(c)


def _cdf(v):
    v = E.coerce(v)
    if not isinstance(v, Sym):
        return E.UNIT if v > 0 else (E.ZERO if v < 0 else math.nan)
    return E.sym_cdf(v)


def _pdf(v):
    v = E.coerce(v)
    if not isinstance(v, Sym):
        return E.ZERO if v == v else math.nan
    return E.sym_pdf(v)


class _Bounds:
    def __init__(self, lb, ub, **k):
        self.lb, self.ub = lb, ub


def cdist(X, Y, metric="euclidean", **k):
    X, Y = S.tosarr(X), S.tosarr(Y)
    if X.ndim != 2 or Y.ndim != 2:
        raise ValueError("XA must be a 2-dimensional array.")
    d = X[:, None, :] - Y[None, :, :]
    s = (d * d).sum(axis=2)
    if metric == "sqeuclidean":
        return s
    if metric in ("euclidean",):
        return S.handle_ufunc(np.sqrt, "__call__", (s,), {})
    raise S.Unsupported("cdist metric " + str(metric))


def pdist(X, metric="euclidean", **k):
    D = cdist(X, X, metric)
    n = D.shape[0]
    return S.array([D[i, j] for i in range(n) for j in range(i + 1, n)], dtype=float)


def squareform(v, **k):
    v = S.tosarr(v)
    if v.ndim == 2:
        n = v.shape[0]
        return S.array([v[i, j] for i in range(n) for j in range(i + 1, n)], dtype=float)
    n = int(round((1 + math.sqrt(1 + 8 * len(v))) / 2))
    o = S.zeros((n, n))
    for p, (i, j) in enumerate((i, j) for i in range(n) for j in range(i + 1, n)):
        o[i, j] = v[p]
        o[j, i] = v[p]
    return o


def _copy(x):
    return x.copy() if hasattr(x, "copy") else _real_copy(x)


def _real_copy(x):
    import copy
    return copy.copy(x)


def _deepcopy(x, memo=None):
    import copy
    return copy.deepcopy(x)


def _m1(n):
    def f(x):
        if isinstance(x, S.SArr):
            x = x._scalar()
        if isinstance(x, Sym):
            return getattr(x, n)()
        return getattr(math, {"arctan": "atan"}.get(n, n))(x)
    return f


MATH = NS("math", pi=math.pi, e=math.e, inf=math.inf, nan=math.nan, tau=math.tau, exp=_m1("exp"), log=lambda x, *b: (_m1("log")(x) / math.log(b[0]) if b else _m1("log")(x)),
          sqrt=_m1("sqrt"), sin=_m1("sin"), cos=_m1("cos"), tan=_m1("tan"), atan=_m1("arctan"), log10=_m1("log10"), log2=_m1("log2"), tanh=_m1("tanh"),
          pow=lambda a, b: a ** b, fabs=abs, floor=lambda x: int(math.floor(E.coerce(x).cval())) if E.coerce(x).is_const() else E.sym_floor(E.coerce(x)), ceil=lambda x: int(math.ceil(E.coerce(x).cval())) if E.coerce(x).is_const() else -E.sym_floor(-E.coerce(x)), prod=math.prod, comb=math.comb, factorial=math.factorial, hypot=lambda a, b: E.sym_sqrt(E.coerce(a) ** 2 + E.coerce(b) ** 2),
          isnan=S._e_isnan, isinf=S._e_isinf, isfinite=lambda x: not S._e_isnan(x) and not S._e_isinf(x), isclose=lambda a, b, **k: bool(S.isclose(a, b).all()), erf=lambda x: E.sym_erf(E.coerce(x)), fsum=sum, gcd=math.gcd, dist=lambda a, b: E.sym_sqrt(sum((E.coerce(x) - y) ** 2 for x, y in zip(a, b))))
