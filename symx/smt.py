"""Translation of Sym/SymBool to z3 and the solver portfolio."""
import os
import subprocess
import tempfile
import time

import z3

from . import expr as E

STATS = {"queries": 0, "solver_s": 0.0, "unsat": 0, "sat": 0, "unknown": 0}


def q(c):
    return z3.RealVal("%d/%d" % (c.numerator, c.denominator))


def z_atom(A):
    if A.z3 is not None:
        return A.z3
    if A.kind == "uf":
        # a plain constant; functional consistency comes from the congruence axioms in engine.pair_axioms
        r = z3.Real("uf!%d!%s" % (A.id, A.name))
    elif A.kind == "var":
        r = z3.Real(A.name)
    else:
        r = z3.Real("%s!%d" % (A.kind, A.id))
    A.z3 = r
    return r


_MONO = {}


def _nary(fn, xs):
    c = xs[0].ctx
    arr = (z3.Ast * len(xs))(*[x.ast for x in xs])
    return z3.ArithRef(fn(c.ref(), len(xs), arr), c)


def mul(xs):
    return xs[0] if len(xs) == 1 else _nary(z3.Z3_mk_mul, xs)


def add(xs):
    return xs[0] if len(xs) == 1 else _nary(z3.Z3_mk_add, xs)


def z(s):
    if s.__class__ is not E.Sym:
        s = E.coerce(s)
    groups = {}
    for m, c in s.t.items():
        mm = _MONO.get(m)
        if mm is None:
            inds = tuple(a for a, e in m if E.ATOMS[a].kind == "ind")
            f = []
            for a, e in m:
                A = E.ATOMS[a]
                if A.kind == "ind":
                    continue
                if e > 0:
                    f.extend([z_atom(A)] * e)
                else:
                    f.extend([inv_var(A)] * (-e))
            mm = _MONO[m] = (inds, mul(f) if f else None)
        inds, f = mm
        if f is None:
            t = q(c)
        elif c == 1:
            t = f
        else:
            t = mul([q(c), f])
        groups.setdefault(inds, []).append(t)
    parts = []
    for inds, ts in groups.items():
        t = add(ts)
        if inds:
            conds = [zb(E.ATOMS[a].args[0]) for a in inds]
            t = z3.If(z3.And(*conds) if len(conds) > 1 else conds[0], t, z3.RealVal(0))
        parts.append(t)
    if not parts:
        return z3.RealVal(0)
    return add(parts)


_INV = {}


def inv_var(A):
    v = _INV.get(A.id)
    if v is None:
        v = z3.Real("rcp!%d" % A.id)
        _INV[A.id] = v
    return v


def zb(b):
    if b is True or b is False:
        return z3.BoolVal(b)
    if b.z3 is not None:
        return b.z3
    if b.op == "lt":
        r = z(b.args[0]) < 0
    elif b.op == "le":
        r = z(b.args[0]) <= 0
    elif b.op == "eq":
        r = z(b.args[0]) == 0
    elif b.op == "not":
        r = z3.Not(zb(b.args[0]))
    elif b.op == "and":
        r = z3.And(*[zb(x) for x in b.args])
    elif b.op == "or":
        r = z3.Or(*[zb(x) for x in b.args])
    else:
        raise ValueError(b.op)
    b.z3 = r
    return r


def axioms(A):
    """facts about the value of one atom"""
    k = A.kind
    out = []
    if A.id in _INV:
        out.append(_INV[A.id] * z_atom(A) == 1)
    if k == "var":
        m = A.meta or {}
        v = z_atom(A)
        if m.get("values") is not None:
            out.append(z3.Or(*[v == q(E.to_frac(x)) for x in m["values"]]))
        if m.get("lo") is not None:
            out.append(v > q(E.to_frac(m["lo"])) if m.get("lo_open") else v >= q(E.to_frac(m["lo"])))
        if m.get("hi") is not None:
            out.append(v < q(E.to_frac(m["hi"])) if m.get("hi_open") else v <= q(E.to_frac(m["hi"])))
        if m.get("positive"):
            out.append(v > 0)
        return out
    if k == "uf":
        m = A.meta or {}
        v = z_atom(A)
        if m.get("lo") is not None:
            out.append(v >= q(E.to_frac(m["lo"])))
        if m.get("hi") is not None:
            out.append(v <= q(E.to_frac(m["hi"])))
        return out
    v = z_atom(A)
    if k == "ind":
        return out + [v == z3.If(zb(A.args[0]), z3.RealVal(1), z3.RealVal(0))]
    if k == "ite":
        return out + [v == z3.If(zb(A.args[0]), z(A.args[1]), z(A.args[2]))]
    p = z(A.args[0])
    if k == "exp":
        out += [v > 0, (p <= 0) == (v <= 1), (p < 0) == (v < 1)]
    elif k == "sqrt":
        out += [v >= 0, v * v == p]
    elif k in ("sin", "cos"):
        out += [v <= 1, v >= -1]
    elif k == "log":
        out += [(p >= 1) == (v >= 0), (p > 1) == (v > 0)]
    elif k == "inv":
        out += [v * p == 1]
    elif k == "def":
        out += [v == p]
    elif k == "abs":
        out += [v == z3.If(p >= 0, p, -p)]
    elif k == "floor":
        out += [z3.IsInt(v), v <= p, p < v + 1]
    elif k == "Phi":
        out += [v > 0, v < 1, (p >= 0) == (v >= q(E.FH)), (p > 0) == (v > q(E.FH))]
    elif k == "atan":
        out += [v < q(E.Fraction(16, 10)), v > q(E.Fraction(-16, 10)), (p >= 0) == (v >= 0), (p > 0) == (v > 0)]
    return out


def closure(exprs, into_uf=True):
    acc = {}
    for x in exprs:
        E.atoms_of(x, acc, into_uf)
    return acc


def reset():
    _INV.clear()
    _MONO.clear()


def check(assertions, timeout_ms=10000, want_model=False):
    """z3 on a fresh solver; -> ('sat'|'unsat'|'unknown', model)"""
    s = z3.Solver()
    s.set("timeout", int(timeout_ms))
    for a in assertions:
        s.add(a)
    t0 = time.time()
    r = s.check()
    STATS["solver_s"] += time.time() - t0
    STATS["queries"] += 1
    r = str(r)
    STATS[r] += 1
    m = s.model() if r == "sat" and want_model else None
    return r, m


def check_nlsat(assertions, timeout_ms=10000):
    g = z3.Goal()
    for a in assertions:
        g.add(a)
    try:
        t = z3.Then(z3.Tactic("simplify"), z3.Tactic("purify-arith"), z3.Tactic("propagate-values"),
                    z3.Tactic("solve-eqs"), z3.Tactic("elim-term-ite"), z3.Tactic("simplify"),
                    z3.Tactic("tseitin-cnf"), z3.Tactic("qfnra-nlsat"))
        s = t.solver()
        s.set("timeout", int(timeout_ms))
        for a in assertions:
            s.add(a)
        t0 = time.time()
        r = s.check()
        STATS["solver_s"] += time.time() - t0
        STATS["queries"] += 1
        STATS[str(r)] += 1
        return str(r), (s.model() if str(r) == "sat" else None)
    except z3.Z3Exception:
        return "unknown", None


def check_cvc5(assertions, timeout_ms=10000):
    s = z3.Solver()
    for a in assertions:
        s.add(a)
    txt = "(set-logic ALL)\n" + s.to_smt2()
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write(txt)
    t0 = time.time()
    try:
        out = subprocess.run(["cvc5", "--tlimit=%d" % timeout_ms, f.name], capture_output=True, text=True,
                             timeout=timeout_ms / 1000 + 5).stdout
    except (subprocess.TimeoutExpired, OSError):
        out = ""
    finally:
        os.unlink(f.name)
    STATS["solver_s"] += time.time() - t0
    STATS["queries"] += 1
    first = out.strip().splitlines()[0] if out.strip() else "unknown"
    if "(error" in out or first not in ("sat", "unsat"):
        first = "unknown"
    STATS[first] += 1
    return first


def model_value(m, zexpr):
    v = m.eval(zexpr, model_completion=True)
    try:
        if z3.is_rational_value(v):
            return v.numerator_as_long() / v.denominator_as_long()
        if z3.is_algebraic_value(v):
            a = v.approx(20)
            return a.numerator_as_long() / a.denominator_as_long()
        if z3.is_int_value(v):
            return float(v.as_long())
    except (OverflowError, z3.Z3Exception):
        pass
    return None
