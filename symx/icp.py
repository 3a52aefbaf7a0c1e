"""Branch-and-prune decision of  forall x in box:  value(x) >= bound  or some constraint(x) > 0
over the encoded terms (interval constraint propagation, the method of delta-complete SMT solvers
for sin/cos/exp/log, which z3 and cvc5 do not decide).

Every box is discarded only when an interval bound proves the assertion on all of it; otherwise it is
split.  Bounds: natural interval extension (with exact ranges of univariate quadratics), mean-value and
second-order forms from interval gradients and Hessians of the same terms, and convexity zones
around stationary candidates.  All boxes of a level are processed at once with numpy; every bound is
loosened by 1e-9 relative to its terms, which covers the rounding of the float arithmetic."""
import time

import numpy as np

from . import expr as E

EPS = 1e-11
STATS = {"boxes": 0, "seconds": 0.0}


class NotEncoded(Exception):
    pass


# ------------------------------------------------------------------ intervals: pairs of arrays
def imul(a, b):
    p, q, r, s = a[0] * b[0], a[0] * b[1], a[1] * b[0], a[1] * b[1]
    return np.minimum(np.minimum(p, q), np.minimum(r, s)), np.maximum(np.maximum(p, q), np.maximum(r, s))


def iadd(a, b):
    return a[0] + b[0], a[1] + b[1]


def iscale(a, c):
    return (a[0] * c, a[1] * c) if c >= 0 else (a[1] * c, a[0] * c)


def ineg(a):
    return -a[1], -a[0]


def ipow(a, n):
    lo, hi = a
    if n % 2:
        return lo ** n, hi ** n
    p, q = lo ** n, hi ** n
    inside = (lo <= 0) & (hi >= 0)
    return np.where(inside, 0.0, np.minimum(p, q)), np.maximum(p, q)


def widen(a, rel=EPS):
    w = rel * (np.abs(a[0]) + np.abs(a[1])) + 1e-300
    return a[0] - w, a[1] + w


def icos(a):
    lo, hi = a
    k = np.ceil(lo / np.pi)                      # first multiple of pi at or above lo
    c0, c1 = np.cos(lo), np.cos(hi)
    mn, mx = np.minimum(c0, c1), np.maximum(c0, c1)
    n = np.floor(hi / np.pi) - k                 # >= 0: k*pi inside; >= 1: two of them
    even = (k % 2) == 0
    has_max = ((n >= 0) & even) | (n >= 1)
    has_min = ((n >= 0) & ~even) | (n >= 1)
    return widen((np.where(has_min, -1.0, mn), np.where(has_max, 1.0, mx)), 1e-12)


def isin(a):
    return icos((a[0] - np.pi / 2, a[1] - np.pi / 2))


class Jet:
    """value, gradient and Hessian intervals (g, h may be None: no derivative available)"""
    __slots__ = ("v", "g", "h")

    def __init__(self, v, g, h):
        self.v, self.g, self.h = v, g, h


class Eval:
    """interval jets of a Sym over N boxes"""

    def __init__(self, lo, hi, names, order):
        self.lo, self.hi, self.names, self.order = lo, hi, names, order
        self.N, self.d = lo.shape
        self.cache = {}
        self.zero = (np.zeros(self.N), np.zeros(self.N))

    def const(self, c):
        c = float(c)
        z = (np.full(self.N, c), np.full(self.N, c))
        return Jet(z, self.zg(), self.zh())

    def zg(self):
        return [self.zero] * self.d if self.order >= 1 else None

    def zh(self):
        return {(i, j): self.zero for i in range(self.d) for j in range(i + 1)} if self.order >= 2 else None

    def var(self, i):
        g, h = self.zg(), self.zh()
        if g is not None:
            g = list(g)
            g[i] = (np.ones(self.N), np.ones(self.N))
        return Jet((self.lo[:, i], self.hi[:, i]), g, h)

    def add(self, a, b):
        g = None if a.g is None or b.g is None else [iadd(p, q) for p, q in zip(a.g, b.g)]
        h = None if a.h is None or b.h is None else {k: iadd(a.h[k], b.h[k]) for k in a.h}
        return Jet(widen(iadd(a.v, b.v)), g, h)

    def scale(self, a, c):
        g = None if a.g is None else [iscale(p, c) for p in a.g]
        h = None if a.h is None else {k: iscale(p, c) for k, p in a.h.items()}
        return Jet(iscale(a.v, c), g, h)

    def mul(self, a, b):
        g = h = None
        if a.g is not None and b.g is not None:
            g = [iadd(imul(p, b.v), imul(a.v, q)) for p, q in zip(a.g, b.g)]
            if a.h is not None and b.h is not None:
                h = {(i, j): iadd(iadd(imul(a.h[i, j], b.v), imul(a.v, b.h[i, j])), iadd(imul(a.g[i], b.g[j]), imul(a.g[j], b.g[i]))) for i, j in a.h}
        return Jet(widen(imul(a.v, b.v)), g, h)

    def chain(self, a, v, d1, d2):
        """function with value v and derivatives d1, d2 (intervals, None: unbounded) at a"""
        g = h = None
        if a.g is not None and d1 is not None:
            g = [imul(d1, p) for p in a.g]
            if a.h is not None and d2 is not None:
                h = {(i, j): iadd(imul(d1, a.h[i, j]), imul(d2, imul(a.g[i], a.g[j]) if i != j else ipow(a.g[i], 2))) for i, j in a.h}
        return Jet(widen(v), g, h)

    def power(self, a, n):
        if n == 1:
            return a
        if n < 0:
            p = self.power(a, -n)
            return self.inv(p)
        d1 = iscale(ipow(a.v, n - 1), n)
        d2 = iscale(ipow(a.v, n - 2), n * (n - 1)) if n > 2 else (np.full(self.N, 2.0), np.full(self.N, 2.0))
        return self.chain(a, ipow(a.v, n), d1, d2)

    def inv(self, a):
        lo, hi = a.v
        if np.any((lo <= 0) & (hi >= 0)):
            raise NotEncoded("division by an interval containing 0")
        v = (1 / hi, 1 / lo)
        return self.chain(a, v, ineg(ipow(v, 2)), iscale(ipow(v, 3), 2))

    # -- atoms
    def atom(self, A):
        r = self.cache.get(A.id)
        if r is None:
            r = self.cache[A.id] = self._atom(A)
        return r

    def _atom(self, A):
        k = A.kind
        if k == "var":
            if A.name not in self.names:
                raise NotEncoded("variable " + A.name)
            return self.var(self.names[A.name])
        if k == "ind":
            return self.indicator(A.args[0])
        if k == "ite":
            c = self.truth(A.args[0])
            p, q = self.sym(A.args[1]), self.sym(A.args[2])
            lo = np.where(c > 0, p.v[0], np.where(c < 0, q.v[0], np.minimum(p.v[0], q.v[0])))
            hi = np.where(c > 0, p.v[1], np.where(c < 0, q.v[1], np.maximum(p.v[1], q.v[1])))
            return Jet((lo, hi), None, None)
        if k not in ("exp", "log", "sin", "cos", "sqrt", "abs", "inv", "def"):
            raise NotEncoded(k)
        a = self.sym(A.args[0])
        lo, hi = a.v
        if k == "def":
            return a
        if k == "exp":
            v = (np.exp(np.minimum(lo, 700)), np.exp(np.minimum(hi, 700)))
            return self.chain(a, v, v, v)
        if k == "log":
            if np.any(lo <= 0):
                raise NotEncoded("log of an interval reaching 0")
            return self.chain(a, (np.log(lo), np.log(hi)), (1 / hi, 1 / lo), (-1 / lo ** 2, -1 / hi ** 2))
        if k == "sin":
            s, c = isin(a.v), icos(a.v)
            return self.chain(a, s, c, ineg(s))
        if k == "cos":
            s, c = isin(a.v), icos(a.v)
            return self.chain(a, c, ineg(s), ineg(c))
        if k == "sqrt":
            l0, h0 = np.maximum(lo, 0), np.maximum(hi, 0)
            v = (np.sqrt(l0), np.sqrt(h0))
            if np.any(l0 <= 0):
                return Jet(widen(v), None, None)
            return self.chain(a, v, (0.5 / v[1], 0.5 / v[0]), (-0.25 / v[0] ** 3, -0.25 / v[1] ** 3))
        if k == "abs":
            s = (lo <= 0) & (hi >= 0)
            v = (np.where(s, 0.0, np.minimum(abs(lo), abs(hi))), np.maximum(abs(lo), abs(hi)))
            sg = (np.where(lo < 0, -1.0, 1.0), np.where(hi > 0, 1.0, -1.0))
            g = None if a.g is None else [imul(sg, p) for p in a.g]
            return Jet(v, g, None if np.any(s) or a.h is None else {q: imul(sg, p) for q, p in a.h.items()})
        return self.inv(a)

    def truth(self, b):
        """+1 true on the whole box, -1 false on it, 0 unknown"""
        if b is True or b is False:
            return np.full(self.N, 1 if b else -1)
        if b.op in ("lt", "le", "eq"):
            lo, hi = self.sym(b.args[0]).v
            if b.op == "lt":
                return np.where(hi < 0, 1, np.where(lo >= 0, -1, 0))
            if b.op == "le":
                return np.where(hi <= 0, 1, np.where(lo > 0, -1, 0))
            return np.where((lo > 0) | (hi < 0), -1, 0)
        xs = [self.truth(x) for x in b.args]
        if b.op == "not":
            return -xs[0]
        if b.op == "and":
            return np.min(xs, axis=0)
        if b.op == "or":
            return np.max(xs, axis=0)
        raise NotEncoded(b.op)

    def indicator(self, b):
        c = self.truth(b)
        return Jet((np.where(c > 0, 1.0, 0.0), np.where(c < 0, 0.0, 1.0)), None, None)

    # -- polynomials
    def sym(self, s):
        s = E.coerce(s)
        key = ("s", s.key)
        r = self.cache.get(key)
        if r is None:
            r = self.cache[key] = self._sym(s)
        return r

    def _sym(self, s):
        quad, rest, const = {}, [], 0.0
        for m, c in s.t.items():
            c = float(c)
            if not m:
                const += c
            elif len(m) == 1 and m[0][1] in (1, 2) and E.ATOMS[m[0][0]].kind != "exp":
                quad.setdefault(m[0][0], [0.0, 0.0])[m[0][1] - 1] += c
            else:
                rest.append((m, c))
        tot = self.const(const)
        for a, (b, q) in quad.items():
            j = self.atom(E.ATOMS[a])
            if q == 0:
                t = self.scale(j, b)
            else:
                lo, hi = j.v
                f0, f1 = b * lo + q * lo * lo, b * hi + q * hi * hi
                mn, mx = np.minimum(f0, f1), np.maximum(f0, f1)
                x = -b / (2 * q)
                e = b * x + q * x * x
                ins = (lo <= x) & (x <= hi)
                v = (np.where(ins, np.minimum(mn, e), mn), np.where(ins, np.maximum(mx, e), mx))
                d1 = iadd(iscale(j.v, 2 * q), (b, b))
                t = self.chain(j, v, d1, (np.full(self.N, 2 * q), np.full(self.N, 2 * q)))
            tot = self.add(tot, t)
        for m, c in rest:
            t, ex = None, None
            for a, e in m:
                A = E.ATOMS[a]
                if A.kind == "exp":
                    x = E.coerce(A.args[0]) * e          # product of exponentials: exponential of the sum
                    ex = x if ex is None else ex + x
                    continue
                j = self.power(self.atom(A), e)
                t = j if t is None else self.mul(t, j)
            if ex is not None:
                a = self.sym(ex)
                v = (np.exp(np.minimum(a.v[0], 700)), np.exp(np.minimum(a.v[1], 700)))
                j = self.chain(a, v, v, v)
                t = j if t is None else self.mul(t, j)
            tot = self.add(tot, self.scale(t, c))
        return tot


def lower(term, names, lo, hi):
    """sound lower bounds of term on each box, and (value at the centres, gradient sign information)"""
    B = Eval(lo, hi, names, 2).sym(term)
    best = B.v[0].copy()
    c, r = (lo + hi) / 2, (hi - lo) / 2
    try:
        C = Eval(c, c, names, 1).sym(term)
    except NotEncoded:
        return best, None, None
    mid = C.v
    d = lo.shape[1]
    if B.g is not None:
        mv = mid[0].copy()
        for j in range(d):
            mv = mv - np.maximum(np.abs(B.g[j][0]), np.abs(B.g[j][1])) * r[:, j]
        best = np.fmax(best, mv)
        if B.h is not None and C.g is not None:
            t = mid[0].copy()
            for j in range(d):
                q = B.h[j, j][0] / 2
                R = r[:, j]
                ga = np.maximum(np.abs(C.g[j][0]), np.abs(C.g[j][1]))
                end = -ga * R + q * R * R
                with np.errstate(all="ignore"):
                    x = np.where(q > 0, ga / (2 * q), np.inf)
                    inner = -ga * ga / (4 * q)
                t = t + np.where((q > 0) & (x < R), inner, end)
                for i in range(j):
                    h = B.h[j, i]
                    t = t - np.maximum(np.abs(h[0]), np.abs(h[1])) * r[:, i] * R
            best = np.fmax(best, t)
    return best, mid, B


def convex_zone(term, names, x0, lo, hi, need):
    """half width of a cube around x0 on which term is provably convex and at least `need` (0: none)"""
    d = len(x0)
    w = 0.5 * float(np.max(hi - lo))
    g0 = Eval(x0[None], x0[None], names, 1).sym(term)
    if g0.g is None:
        return 0.0
    gn = sum(max(abs(float(p[0][0])), abs(float(p[1][0]))) for p in g0.g)
    for _ in range(30):
        a, b = np.maximum(x0 - w, lo), np.minimum(x0 + w, hi)
        J = Eval(a[None], b[None], names, 2).sym(term)
        if J.h is not None and float(g0.v[0][0]) - gn * w >= need:
            M, R = np.zeros((d, d)), np.zeros((d, d))
            for (i, j), (p, q) in J.h.items():
                M[i, j] = M[j, i] = (p[0] + q[0]) / 2
                R[i, j] = R[j, i] = (q[0] - p[0]) / 2
            if np.linalg.eigvalsh(M)[0] - np.linalg.norm(R) > 0:
                return w
        w /= 1.6
    return 0.0


def decide(term, cons, bound, names, lo, hi, starts=(), seconds=120, max_boxes=4000000):
    """-> ("unsat", None) the assertion holds on the box, ("sat", x) counterexample, ("unknown", why)"""
    t0 = time.time()
    lo, hi = np.array(lo, dtype=float), np.array(hi, dtype=float)
    d = len(lo)
    done = 0
    zones = []
    dom_lo, dom_hi = lo.copy(), hi.copy()

    def finish(r):
        STATS["boxes"] += done
        STATS["seconds"] += time.time() - t0
        return r
    try:
        if not cons:
            for x in starts:
                x = np.asarray(x, dtype=float)
                if np.all(x >= lo) and np.all(x <= hi):
                    w = convex_zone(term, names, x, lo, hi, bound)
                    if w:
                        zones.append((x - w, x + w))
        L, H = lo[None].copy(), hi[None].copy()
        while len(L):
            done += len(L)
            if done > max_boxes or time.time() - t0 > seconds:
                return finish(("unknown", "interval search: %d boxes undecided after %d" % (len(L), done)))
            keepL, keepH = [], []
            for k in range(0, len(L), 20000):
                a, b = L[k:k + 20000], H[k:k + 20000]
                for zl, zh in zones:
                    out = ~(np.all(a >= zl, axis=1) & np.all(b <= zh, axis=1))
                    a, b = a[out], b[out]
                if not len(a):
                    continue
                alive = np.ones(len(a), dtype=bool)
                feas = np.ones(len(a), dtype=bool)
                for c in cons:
                    J = Eval(a, b, names, 1).sym(c)
                    lb = J.v[0].copy()
                    m = (a + b) / 2
                    C = Eval(m, m, names, 0).sym(c)
                    if J.g is not None:
                        t = C.v[0].copy()
                        for j in range(d):
                            t = t - np.maximum(np.abs(J.g[j][0]), np.abs(J.g[j][1])) * (b - a)[:, j] / 2
                        lb = np.fmax(lb, t)
                    alive &= lb <= 0
                    feas &= C.v[1] <= 0
                a, b, feas = a[alive], b[alive], feas[alive]
                if not len(a):
                    continue
                lb, mid, B = lower(term, names, a, b)
                if mid is not None:
                    bad = feas & (mid[1] < bound)
                    if bad.any():
                        return finish(("sat", ((a + b) / 2)[bad][0]))
                alive = lb < bound
                if not cons and B is not None and B.g is not None:
                    # strictly monotone in a coordinate: the minimum is on the lower face; an inner face belongs to a neighbour
                    for j in range(d):
                        inc, dec = B.g[j][0] > 0, B.g[j][1] < 0
                        alive &= ~((inc & (a[:, j] > dom_lo[j])) | (dec & (b[:, j] < dom_hi[j])))
                        b = b.copy()
                        a = a.copy()
                        i1 = inc & (a[:, j] <= dom_lo[j])
                        i2 = dec & (b[:, j] >= dom_hi[j])
                        b[i1, j] = a[i1, j]
                        a[i2, j] = b[i2, j]
                a, b = a[alive], b[alive]
                if not len(a):
                    continue
                # split the side that contributes most
                w = b - a
                if B is not None and B.g is not None:
                    gm = np.stack([np.maximum(np.abs(B.g[j][0]), np.abs(B.g[j][1])) for j in range(d)], axis=1)[alive]
                    s = np.argmax(np.where(w > 0, w * (gm + 1e-9 * gm.max(axis=1, keepdims=True)), -1), axis=1)
                else:
                    s = np.argmax(w / (dom_hi - dom_lo), axis=1)
                rows = np.arange(len(a))
                cut = (a[rows, s] + b[rows, s]) / 2
                if np.any(w[rows, s] < 1e-9):
                    return finish(("unknown", "interval search: boxes below 1e-9"))
                for zl, zh in zones:
                    # cut along a zone's side where possible, so that boxes come to lie inside
                    for e in (zl, zh):
                        t = e[s]
                        ok = (t > a[rows, s] + 0.2 * w[rows, s]) & (t < b[rows, s] - 0.2 * w[rows, s])
                        cut = np.where(ok, t, cut)
                b1, a2 = b.copy(), a.copy()
                b1[rows, s] = cut
                a2[rows, s] = cut
                keepL += [a, a2]
                keepH += [b1, b]
            if not keepL:
                break
            L, H = np.concatenate(keepL), np.concatenate(keepH)
        return finish(("unsat", None))
    except NotEncoded as e:
        return finish(("unknown", "interval search: %s" % e))
