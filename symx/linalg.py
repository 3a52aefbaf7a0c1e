"""Linear algebra over symbolic matrices.

Cholesky contract: for a symmetric positive definite K the factor L is represented through
fresh symbols for the lower-triangular inverse factor La (La = L^-1, positive diagonal);
L itself is the exact inverse of La (Laurent polynomials), so L La = I, K^-1 = La^T La,
log det K = -2 sum log La_ii hold identically, and L^-1 K e_j = L^T e_j is used when a
right-hand side is literally a column of K.  Matrices are identified by their entries.
"""
import numpy as np

from . import expr as E
from . import symnp as S
from .expr import Sym


class LinAlgError(np.linalg.LinAlgError):
    pass


CHOLS = {}       # key of K -> record
BYMAT = {}       # key of L / L^T / K -> (kind, record)


BYIDX = {}       # number -> record


def reset():
    CHOLS.clear()
    BYIDX.clear()
    HALF.clear()
    SOLS.clear()
    PAIRS.clear()
    BYMAT.clear()


def mkey(a):
    return (a.shape, tuple(x.key if isinstance(x, Sym) else E.coerce(x).key for x in a.view(np.ndarray).flat))


def is_const(a):
    return all(not isinstance(x, E.SymBool) and (not isinstance(x, Sym) or x.is_const()) for x in a.flat)


def mat(a):
    return S.canon(S.tosarr(a), float)


class Rec:
    pass


def sym_record(K):
    """record for symmetric K (lower triangle is what counts)"""
    n = K.shape[0]
    low = np.empty((n, n), dtype=object)
    k = K.view(np.ndarray)
    for i in range(n):
        for j in range(n):
            low[i, j] = k[max(i, j), min(i, j)]
    low = low.view(S.SArr)
    key = mkey(low)
    r = CHOLS.get(key)
    if r is not None:
        return r
    for r in list(BYIDX.values()):
        if r.n == n and all(same_value(low[i, j], r.K[i, j]) for i in range(n) for j in range(i + 1)):
            CHOLS[key] = r
            BYMAT[key] = ("K", r)
            for j in range(n):
                r.cols.setdefault(tuple(x.key for x in low.view(np.ndarray)[:, j]), j)
            return r
    r = Rec()
    r.K, r.n, r.idx, r.expl = low, n, len(BYIDX), None
    r.base, r.halves = permuted(low), []
    BYIDX[r.idx] = r
    if S.ENG[0] is not None:
        S.ENG[0].note_contract("cholesky: %dx%d matrix taken as positive definite" % (n, n))

    def evaluator(i, j):
        def f(val):
            c = val.cache.get(("chol", r.idx))
            if c is None:
                M = np.array([[E.ev(x, val) for x in row] for row in low.view(np.ndarray)])
                try:
                    c = np.linalg.inv(np.linalg.cholesky(M))
                except (np.linalg.LinAlgError, ValueError):
                    c = np.full((n, n), np.nan)
                val.cache[("chol", r.idx)] = c
            return float(c[i, j])
        return f
    La = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            if j > i:
                La[i, j] = E.ZERO
            else:
                meta = {"eval": evaluator(i, j)}
                if i == j:
                    meta["positive"] = True
                La[i, j] = E.var("chol%d_%d_%d" % (r.idx, i, j), **meta)
    L = np.empty((n, n), dtype=object)
    for j in range(n):
        for i in range(n):
            if i < j:
                L[i, j] = E.ZERO
            elif i == j:
                L[i, j] = E.UNIT / La[i, i]
            else:
                acc = E.ZERO
                for k2 in range(j, i):
                    acc = acc + La[i, k2] * L[k2, j]
                L[i, j] = -acc / La[i, i]
    r.La, r.L = La.view(S.SArr), L.view(S.SArr)
    r.cols = {tuple(x.key for x in low.view(np.ndarray)[:, j]): j for j in range(n)}
    CHOLS[key] = r
    BYMAT[mkey(r.L)] = ("L", r)
    BYMAT[mkey(r.L.T)] = ("LT", r)
    BYMAT[key] = ("K", r)
    BYMAT[mkey(r.La)] = ("La", r)
    return r


def well(val, limit=1e4):
    """whether all matrices are well conditioned under this valuation"""
    ok = val.cache.get("well")
    if ok is None:
        ok = True
        for r in BYIDX.values():
            M = np.array([[E.ev(x, val) for x in row] for row in r.K.view(np.ndarray)], dtype=float)
            if not np.all(np.isfinite(M)) or not np.linalg.cond(M) <= limit:
                ok = False
                break
        val.cache["well"] = ok
    return ok


def definitions(x):
    """atom id -> explicit value of the entries of the inverse Cholesky factors occurring in x"""
    out = {}
    ids = {A.name: A for A in E.atoms_of(x).values() if A.kind == "var" and A.name.startswith("chol")}
    seen = set()
    todo = list(ids)
    while todo:
        nm = todo.pop()
        r = BYIDX.get(int(nm[4:].split("_")[0]))
        if r is None or r.idx in seen:
            continue
        seen.add(r.idx)
        for i, row in enumerate(explicit(r)):
            for j, s in enumerate(row):
                if j <= i:
                    (m,) = r.La.view(np.ndarray)[i, j].t
                    out[m[0][0]] = s
                    todo += [A.name for A in E.atoms_of(s).values() if A.kind == "var" and A.name.startswith("chol")]
    if not out:
        return out
    # definitions in terms of earlier factors: replace those as well
    u = {}
    for a in sorted(out):
        R = E.Rebuild(lambda b: None)
        for b, s in u.items():
            R.memo[b] = (0, s)
        u[a] = R.sym(out[a])
    return u


def explicit(r):
    """inverse of the Cholesky factor of r.K written out"""
    if r.expl is None:
        n, K = r.n, r.K.view(np.ndarray)
        L = np.empty((n, n), dtype=object)
        L[...] = E.ZERO
        for i in range(n):
            for j in range(i + 1):
                s = K[i, j]
                for k in range(j):
                    s = s - L[i, k] * L[j, k]
                if i == j:
                    num, den = E.clear(s)
                    L[i, i] = E.sym_sqrt(num * den) / den if not den.is_const() else E.sym_sqrt(s)
                else:
                    L[i, j] = s / L[j, j]
        La = np.empty((n, n), dtype=object)
        for j in range(n):
            for i in range(j, n):
                acc = E.UNIT if i == j else E.ZERO
                for k in range(j, i):
                    acc = acc - L[i, k] * La[k, j]
                La[i, j] = acc / L[i, i]
        r.expl = [[La[i, j] if j <= i else E.ZERO for j in range(n)] for i in range(n)]
    return r.expl


def permuted(K):
    """(record, p) with K[i,j] = record.K[p[i],p[j]] for an earlier record, else None"""
    n = K.shape[0]
    k = [[x.key for x in row] for row in K.view(np.ndarray)]
    for r in BYIDX.values():
        if r.n != n or r.base is not None:
            continue
        b = [[x.key for x in row] for row in r.K.view(np.ndarray)]

        def go(p):
            i = len(p)
            if i == n:
                return p
            for c in range(n):
                if c not in p and k[i][i] == b[c][c] and all(k[i][j] == b[c][p[j]] for j in range(i)):
                    q = go(p + [c])
                    if q:
                        return q
            return None
        p = go([])
        if p:
            return r, p
    return None


def inverse_times(r, col):
    """K^-1 col; matrices that differ by the order of rows and columns share one inverse"""
    if r.base is not None:
        r0, p = r.base
        b = [None] * r.n
        for i in range(r.n):
            b[p[i]] = col[i]
        x = inverse_times(r0, b)
        return [x[p[i]] for i in range(r.n)]
    c = np.empty((r.n, 1), dtype=object)
    c[:, 0] = col
    return list(S.naming(_mm(r.La.T, S.naming(_mm(r.La, c.view(S.SArr))))).view(np.ndarray)[:, 0])


def cholesky(a, *, upper=False):
    a = mat(a)
    if a.ndim != 2 or a.shape[0] != a.shape[1]:
        raise LinAlgError("Last 2 dimensions of the array must be square")
    n = a.shape[0]
    if is_const(a):
        L = S.tosarr(np.linalg.cholesky(S.concrete(a)))
    elif n == 1:
        L = S.tosarr(np.array([[E.sym_sqrt(a.view(np.ndarray)[0, 0])]], dtype=object))
    else:
        d = diag_only(a)
        if d is not None:
            L = np.empty((n, n), dtype=object)
            L[...] = E.ZERO
            for i in range(n):
                L[i, i] = E.sym_sqrt(d[i])
            L = L.view(S.SArr)
        else:
            L = sym_record(a).L.copy()
    return L.T.copy() if upper else L


def diag_only(a):
    n = a.shape[0]
    o = a.view(np.ndarray)
    for i in range(n):
        for j in range(n):
            if i != j and o[i, j].t:
                return None
    return [o[i, i] for i in range(n)]


def _mm(A, B):
    return np.matmul(A.view(np.ndarray), B.view(np.ndarray)).view(S.SArr)


def tri(a):
    n = a.shape[0]
    o = a.view(np.ndarray)
    lower = all(not o[i, j].t for i in range(n) for j in range(i + 1, n))
    upper = all(not o[i, j].t for i in range(n) for j in range(i))
    return lower, upper


def subst(a, B, lower):
    n = a.shape[0]
    o, b = a.view(np.ndarray), B.view(np.ndarray)
    X = np.empty(B.shape, dtype=object)
    order = range(n) if lower else range(n - 1, -1, -1)
    for c in range(B.shape[1]):
        for i in order:
            acc = b[i, c]
            for k in (range(i) if lower else range(i + 1, n)):
                if o[i, k].t:
                    acc = acc - o[i, k] * X[k, c]
            X[i, c] = acc / o[i, i]
    return X.view(S.SArr)


def solve(a, b, **k):
    a, b = mat(a), mat(b)
    if a.ndim != 2 or a.shape[0] != a.shape[1]:
        raise LinAlgError("Last 2 dimensions of the array must be square")
    vec = b.ndim == 1
    B = b.reshape(-1, 1) if vec else b
    if B.shape[0] != a.shape[0]:
        raise ValueError("solve: Input operand 1 has a mismatch in its core dimension 0")
    X = S.naming(_solve(a, B))
    remember(a, B, X)
    return X.reshape(-1) if vec else X


def _solve(a, B):
    n = a.shape[0]
    if n == 1:
        return (B / a.view(np.ndarray)[0, 0])
    rec = BYMAT.get(mkey(a))
    if rec is None and not is_const(a):
        lower, upper = tri(a)
        if lower or upper:
            return subst(a, B, lower)
        if symmetric(a):
            rec = ("K", sym_record(a))
    if rec is not None:
        kind, r = rec
        if kind == "LT":
            X = _mm(r.La.T, B)
            for c in range(B.shape[1] if r.base is not None else 0):
                h = HALF.get(colkey(B.view(np.ndarray)[:, c]))
                if h is not None and h[0] is r:
                    X.view(np.ndarray)[:, c] = inverse_times(r, h[1])
            return X
        if kind == "La":
            return _mm(r.L, B)
        cols = []
        for c in range(B.shape[1]):
            col = B[:, c]
            j = r.cols.get(tuple(x.key for x in col.view(np.ndarray)))
            if kind == "L":
                cols.append(r.L.view(np.ndarray)[j, :] if j is not None else _mm(r.La, col.reshape(-1, 1)).view(np.ndarray)[:, 0])
            else:
                if j is not None:
                    e = np.empty(n, dtype=object)
                    e[...] = E.ZERO
                    e[j] = E.UNIT
                    cols.append(e)
                else:
                    cols.append(np.array(inverse_times(r, list(col.view(np.ndarray))) + [None], dtype=object)[:-1])
        return np.stack(cols, axis=1).view(S.SArr)
    if is_const(a):
        Ai = S.tosarr(np.linalg.inv(S.concrete(a)))
        return _mm(Ai, B)
    if n <= 3:
        return _mm(cramer_inv(a), B)
    raise S.Unsupported("solve with a general symbolic matrix")


HALF, SOLS = {}, {}      # key of L^-1 b -> (record, b);  key of K^-1 b -> (record, b)


def colkey(c):
    return tuple(E.coerce(x).key for x in c)


def remember(a, B, X):
    """K^-1 b multiplied with a row of K is b again"""
    if a.shape[0] == 1:
        return
    rec = BYMAT.get(mkey(a))
    if rec is None:
        return
    kind, r = rec
    for c in range(B.shape[1]):
        b, x = list(B.view(np.ndarray)[:, c]), list(X.view(np.ndarray)[:, c])
        try:
            if kind == "L":
                HALF[colkey(x)] = (r, b)
                if r.base is not None:
                    pair(r, x, b)
            elif kind == "K":
                SOLS[colkey(x)] = (r, b)
            elif kind == "LT":
                h = HALF.get(colkey(b))
                if h is not None and h[0] is r:
                    SOLS[colkey(x)] = h
        except AttributeError:
            pass


PAIRS = {}               # key of the products of L^-1 b and L^-1 c, entry by entry -> (record, b, c)


def pair(r, x, b):
    """matrices that differ by the order of rows and columns share one inverse: (L^-1 b)^T (L^-1 c) is
    b^T K^-1 c, computed with it"""
    if any(y is x or colkey(y) == colkey(x) for y, c in r.halves):
        return
    r.halves.append((x, b))
    for y, c in r.halves:
        PAIRS[colkey([p * q for p, q in zip(x, y)])] = (r, b, c)


def known_sum(terms):
    """value of the sum of the terms when it is a known quadratic form"""
    if not PAIRS:
        return None
    try:
        h = PAIRS.get(colkey(terms))
    except AttributeError:
        return None
    return None if h is None else form(*h)


def form(r, b, c):
    acc = E.ZERO
    for p, q in zip(b, inverse_times(r, c)):
        acc = acc + E.coerce(p) * q
    return acc


def known_products(A, B, out):
    if PAIRS and B.ndim <= 2:
        for i in range(A.shape[0]):
            for c in range(B.shape[1] if B.ndim == 2 else 1):
                col = B[:, c] if B.ndim == 2 else B
                v = known_sum([p * q for p, q in zip(A[i], col)])
                if v is not None:
                    out[(i, c) if B.ndim == 2 else i] = v
    for c in range(B.shape[1] if B.ndim == 2 else 1):
        col = B[:, c] if B.ndim == 2 else B
        try:
            s = SOLS.get(colkey(col))
            if s is None:
                continue
            r, b = s
            for i in range(A.shape[0]):
                j = r.cols.get(colkey(A[i]))
                if j is not None:
                    if B.ndim == 2:
                        out[i, c] = b[j]
                    else:
                        out[i] = b[j]
        except AttributeError:
            continue


S.MATHOOK[0] = known_products
S.SUMHOOK[0] = known_sum


def same_value(x, y):
    if x.key == y.key:
        return True
    try:
        return E.maybe_equal(x, y) and E.Prover(20, definitions).prove(x - y)
    except (ArithmeticError, E.NonFinite):
        return False


def symmetric(a):
    o = a.view(np.ndarray)
    n = o.shape[0]
    return all(same_value(o[i, j], o[j, i]) for i in range(n) for j in range(i))


def _det(o):
    n = o.shape[0]
    if n == 1:
        return o[0, 0]
    acc = E.ZERO
    for j in range(n):
        if not o[0, j].t:
            continue
        minor = np.delete(np.delete(o, 0, 0), j, 1)
        acc = acc + (o[0, j] * _det(minor)) * (1 if j % 2 == 0 else -1)
    return acc


def cramer_inv(a):
    o = a.view(np.ndarray)
    n = o.shape[0]
    d = _det(o)
    R = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            m = np.delete(np.delete(o, j, 0), i, 1)
            R[i, j] = (_det(m) if n > 1 else E.UNIT) * (1 if (i + j) % 2 == 0 else -1) / d
    return R.view(S.SArr)


def inv(a):
    a = mat(a)
    if a.ndim != 2 or a.shape[0] != a.shape[1]:
        raise LinAlgError("Last 2 dimensions of the array must be square")
    n = a.shape[0]
    if n == 1:
        return 1 / a
    if is_const(a):
        return S.tosarr(np.linalg.inv(S.concrete(a)))
    return _solve(a, S.tosarr(np.eye(n)))


def pinv(a, *r, **k):
    a = mat(a)
    if a.shape[0] == a.shape[1]:
        return inv(a)
    if a.shape[0] > a.shape[1]:
        return _mm(inv(_mm(a.T, a)), a.T)
    return _mm(a.T, inv(_mm(a, a.T)))


def det(a):
    a = mat(a)
    if a.shape[0] <= 2:
        return _det(a.view(np.ndarray))
    rec = BYMAT.get(mkey(a))
    if rec:
        d = E.UNIT
        for i in range(a.shape[0]):
            l = rec[1].La.view(np.ndarray)[i, i]
            d = d * {"K": E.ipow(l, -2), "L": E.ipow(l, -1), "LT": E.ipow(l, -1), "La": l}[rec[0]]
        return d
    if mkey(a) == mkey(a.T) and not is_const(a) and S.ENG[0] is not None:
        sym_record(a)
        return det(a)
    return _det(a.view(np.ndarray))


def slogdet(a):
    d = det(a)
    return E.UNIT, d.log()


def norm(x, ord=None, axis=None, keepdims=False):
    x = S.tosarr(x)
    if ord in (None, 2, "fro") and (x.ndim == 1 or axis is not None or ord != 2):
        return S.handle_ufunc(np.sqrt, "__call__", ((x * x).sum(axis=axis, keepdims=keepdims),), {})
    a = S.handle_ufunc(np.absolute, "__call__", (x,), {})
    if ord == 1 and x.ndim == 1 or (ord == 1 and axis is not None):
        return a.sum(axis=axis, keepdims=keepdims)
    if ord == np.inf and x.ndim == 1:
        return a.max()
    raise S.Unsupported("norm")


def cho_factor(a, lower=False, **k):
    L = cholesky(a)
    return (L if lower else L.T), lower


def cho_solve(cl, b, **k):
    c, lower = cl
    if not lower:
        c = c.T
    c = c.copy()
    # only the triangle counts
    o = c.view(np.ndarray)
    for i in range(o.shape[0]):
        for j in range(i + 1, o.shape[0]):
            o[i, j] = E.ZERO
    return solve(c.T, solve(c, b))


def solve_triangular(a, b, trans=0, lower=False, unit_diagonal=False, **k):
    a = mat(a).copy()
    o = a.view(np.ndarray)
    n = o.shape[0]
    for i in range(n):
        for j in range(n):
            if (j > i and lower) or (j < i and not lower):
                o[i, j] = E.ZERO
    if trans in (1, "T", 2, "C"):
        a = a.T
    return solve(a, b)


def lstsq(a, b, *r, **k):
    a = mat(a)
    x = S.dot(pinv(a), b)
    return x, E.ZERO, a.shape[1], None


def matrix_power(a, n):
    r = S.tosarr(np.eye(a.shape[0]))
    for _ in range(n):
        r = _mm(r, mat(a))
    return r


def multi_dot(xs):
    r = xs[0]
    for x in xs[1:]:
        r = S.dot(r, x)
    return r


class NS:
    def __init__(self, name, **k):
        self.__name__ = name
        self.__dict__.update(k)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise S.Unsupported("%s.%s" % (self.__name__, n))


np_linalg = NS("numpy.linalg", cholesky=cholesky, solve=solve, inv=inv, pinv=pinv, det=det, slogdet=slogdet, norm=norm,
               lstsq=lstsq, LinAlgError=np.linalg.LinAlgError, matrix_power=matrix_power, multi_dot=multi_dot,
               matmul=S.matmul, matrix_transpose=lambda a: a.T, trace=lambda a, **k: S.A(a).trace(), outer=lambda a, b: S.A(a)[:, None] * S.A(b)[None, :],
               diagonal=lambda a, **k: S.A(a).diagonal(), vector_norm=lambda x, axis=None, keepdims=False, ord=2: norm(S.A(x).ravel() if axis is None else x, ord=None if ord == 2 else ord, axis=axis, keepdims=keepdims),
               vecdot=lambda a, b, axis=-1: (S.A(a) * S.A(b)).sum(axis=axis))
sp_linalg = NS("scipy.linalg", cholesky=lambda a, lower=False, **k: cholesky(a, upper=not lower), solve=solve, inv=inv, pinv=pinv,
               det=det, norm=norm, lstsq=lstsq, LinAlgError=np.linalg.LinAlgError, cho_factor=cho_factor, cho_solve=cho_solve,
               solve_triangular=solve_triangular)
