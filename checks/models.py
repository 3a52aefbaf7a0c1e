"""G01-G07: Gaussian-process regression.  Data, design space, query points, noise and the outcome of
every numerical search are arbitrary; the covariance matrix is taken as positive definite."""
from symx.case import case, product

GP = "mfpml.models.gaussian_process"
CK = "mfpml.models.co_kriging"
HK = "mfpml.models.hierarchical_kriging"
SK = "mfpml.models.scale_kriging"
MF = "mfpml.models.mf_gaussian_process"
KER = "mfpml.models.kernels"
BAS = "mfpml.models.basis_functions"


# ------------------------------------------------------------------ reference: universal kriging
class Ref:
    """universal kriging of data y with covariance K and trend columns F, from the textbook"""

    def __init__(self, ctx, K, F, y):
        np = ctx.np
        self.np, self.K, self.F, self.y = np, K, F, y
        solve = np.linalg.solve
        self.A = np.dot(F.T, solve(K, F))
        self.beta = solve(self.A, np.dot(F.T, solve(K, y)))
        self.res = y - np.dot(F, self.beta)
        self.w = solve(K, self.res)
        self.s2 = np.dot(self.res.T, self.w)[0, 0] / y.shape[0]

    def mean(self, k, f):
        """at one point with covariances k (n,1) to the data and trend row f (1,p)"""
        return (self.np.dot(f, self.beta) + self.np.dot(k.T, self.w))[0, 0]

    def var(self, k, f):
        """variance factor times process variance"""
        np, solve = self.np, self.np.linalg.solve
        d = solve(self.K, k)
        u = f.T - np.dot(self.F.T, d)
        return self.s2 * (1 - np.dot(k.T, d)[0, 0] + np.dot(u.T, solve(self.A, u))[0, 0])


def unit(ctx, X, box):
    return ctx.np.array([[(X[i, j] - box[j, 0]) / (box[j, 1] - box[j, 0]) for j in range(X.shape[1])] for i in range(X.shape[0])])


def rbf(ctx, X, Y, theta):
    rows = []
    for i in range(X.shape[0]):
        row = []
        for j in range(Y.shape[0]):
            s = 0.0
            for k in range(X.shape[1]):
                s = s + 10 ** theta[k] * (X[i, k] - Y[j, k]) ** 2
            row.append(ctx.exp(-s) + (1e-10 if i == j else 0.0))         # with the implementation's jitter
        rows.append(row)
    return ctx.np.array(rows)


def trend(ctx, name, X):
    n, d = X.shape
    one = [[1.0] for _ in range(n)]
    if name == "Linear":
        one = [[1.0] + [X[i, j] for j in range(d)] for i in range(n)]
    if name == "Quadratic":
        one = [[1.0] + [X[i, j] for j in range(d)] + [X[i, j] * X[i, k] for j in range(d) for k in range(j, d)] for i in range(n)]
    return ctx.np.array(one)


def moments(ctx, Y):
    n = Y.shape[0]
    s = 0.0
    for i in range(n):
        s = s + Y[i, 0]
    m = s / n
    v = 0.0
    for i in range(n):
        v = v + (Y[i, 0] - m) ** 2
    return m, ctx.sqrt(v / n)


def data(ctx, box, n, tag="", rows=None):
    """n distinct points and responses that are not all equal.  Any such data set arises: points are
    given by their position relative to the design space, responses by mean and deviations from it"""
    d = box.shape[0]
    U = ctx.array("u" + tag, (n, d), -0.5, 1.5)
    X = points(ctx, box, U)
    m = ctx.real("m" + tag, -5, 5)
    z = [ctx.real("z%s%d" % (tag, i), -3, 3) for i in range(n - 1)]
    last = 0.0
    for v in z:
        last = last - v
    z.append(last)
    ctx.assume(ctx.neg(ctx.conj(*[ctx.same(v, 0.0) for v in z[:-1]])))
    for i in range(n):
        for j in range(i):
            ctx.assume(ctx.neg(ctx.same(U[i], U[j])))
    return X, ctx.np.array([[m + v] for v in z])


def scaled_data(ctx, n, d):
    """n points and responses as the model without normalisation takes them"""
    X, Y = ctx.array("u", (n, d), -0.5, 1.5), ctx.array("y", (n, 1), -3, 3)
    for i in range(n):
        for j in range(i):
            ctx.assume(ctx.neg(ctx.same(X[i], X[j])))
    ctx.assume(ctx.neg(ctx.conj(*[ctx.same(Y[i, 0], Y[0, 0]) for i in range(1, n)])))
    return X, Y


def points(ctx, box, U):
    return ctx.np.array([[box[j, 0] + (box[j, 1] - box[j, 0]) * U[i, j] for j in range(U.shape[1])] for i in range(U.shape[0])])


def query(ctx, box, m, tag="q"):
    return points(ctx, box, ctx.array(tag, (m, box.shape[0]), -0.5, 1.5))


def noise_of(ctx, kind, tag="noise"):
    return 0.0 if kind == "none" else ctx.real(tag, 0.01, 1) if kind == "given" else None


def eye(ctx, n, v):
    return ctx.np.array([[v if i == j else 0.0 for j in range(n)] for i in range(n)])


# ------------------------------------------------------------------ single fidelity
def gp(ctx, box, noise, regr="Ordinary", restarts=0, kernel=None, **more):
    m, b, kr = ctx.load(GP), ctx.load(BAS), ctx.load(KER)
    d = box.shape[0]
    return m.GaussianProcessRegression(design_space=box, kernel=kernel or kr.RBF(theta=ctx.np.zeros(d)), regr=getattr(b, regr)(),
                                       noise_prior=noise_of(ctx, noise) if isinstance(noise, str) else noise, optimizer_restart=restarts, **more)


G1 = [dict(n=2, d=1), dict(n=2, d=2), dict(n=3, d=1), dict(n=3, d=2), dict(n=3, d=1, regr="Linear")]


@case("G01", quick=G1, thorough=[dict(n=4, d=2), dict(n=5, d=1), dict(n=4, d=1, regr="Linear"), dict(n=5, d=1, regr="Quadratic")], seconds=300)
def gp_interpolates(ctx, n, d, regr="Ordinary"):
    ctx.jitter(2e-10)
    ctx.naming(2)
    box = ctx.box("box", d)
    X, Y = data(ctx, box, n)
    g = gp(ctx, box, "none", regr)
    g.train(X, Y)
    mean, std = g.predict(X, return_std=True)
    ctx.shape("mean", mean, (n, 1))
    ctx.shape("deviation", std, (n, 1))
    ctx.eq("mean at the data", mean, Y)
    ctx.eq("deviation at the data", std, ctx.np.zeros((n, 1)), tol=1e-4)
    ctx.eq("mean at the data (no deviation requested)", g.predict(X), Y)
    for i in range(n):
        one = g.predict(X[i:i + 1])
        ctx.eq("mean at one data point alone", one[0, 0], Y[i, 0])


G2 = [dict(n=2, d=1, m=1, noise="none"), dict(n=2, d=1, m=2, noise="given"), dict(n=2, d=2, m=2, noise="estimated"), dict(n=3, d=1, m=1, noise="none"), dict(n=3, d=1, m=2, noise="given"),
      dict(n=3, d=2, m=2, noise="estimated"), dict(n=3, d=1, m=1, noise="none", regr="Linear"), dict(n=4, d=2, m=1, noise="given", regr="Linear"), dict(n=4, d=1, m=1, noise="estimated", regr="Quadratic")]


@case("G02", quick=G2, thorough=[dict(n=5, d=2, m=3, noise="estimated"), dict(n=6, d=2, m=1, noise="none"), dict(n=4, d=3, m=1, noise="given"), dict(n=7, d=2, m=1, noise="given", regr="Quadratic")], seconds=300)
def gp_formula(ctx, n, d, m, noise, regr="Ordinary"):
    """mean and deviation from the textbook formula on standardised data"""
    ctx.jitter(2e-10)
    ctx.naming(2)
    box = ctx.box("box", d)
    X, Y = data(ctx, box, n)
    Q = query(ctx, box, m)
    g = gp(ctx, box, noise, regr)
    g.train(X, Y)
    mean, std = g.predict(Q, return_std=True)
    par = ctx.env.searches[-1]["x"]
    theta = [par[j] for j in range(d)]
    ym, ys = moments(ctx, Y)
    nu = g.noise_prior if noise != "estimated" else par[d] * ys
    ctx.eq("noise", g.noise, nu)
    x, q = unit(ctx, X, box), unit(ctx, Q, box)
    K = rbf(ctx, x, x, theta) + eye(ctx, n, (nu / ys) ** 2)
    ref = Ref(ctx, K, trend(ctx, regr, x), (Y - ym) / ys)
    k, f = rbf(ctx, x, q, theta), trend(ctx, regr, q)
    ctx.shape("mean", mean, (m, 1))
    ctx.shape("deviation", std, (m, 1))
    for i in range(m):
        ki, fi = k[:, i:i + 1], f[i:i + 1]
        ctx.eq("mean", mean[i, 0], ref.mean(ki, fi) * ys + ym)
        v = ref.var(ki, fi) * ys ** 2 + nu ** 2
        ctx.eq("deviation", std[i, 0], ctx.sqrt(ctx.ite(v > 0, v, 0.0)))
    ctx.eq("mean without deviation", g.predict(Q), mean)
    for i in range(m):
        a, b = g.predict(Q[i:i + 1], return_std=True)
        ctx.eq("mean of one point alone", a[0, 0], mean[i, 0])
        ctx.eq("deviation of one point alone", b[0, 0], std[i, 0])


# ------------------------------------------------------------------ models of either fidelity
def lf_data(ctx, box, n):
    return data(ctx, box, n, "l")


def single(kind):
    return kind.startswith("GP")


def trend_of(kind):
    return kind.partition("-")[2] or "Ordinary"


def model(ctx, kind, box, noise, restarts=0, **k):
    """a multi-fidelity (or single-fidelity) model of the given kind"""
    nz = noise_of(ctx, noise) if isinstance(noise, str) else noise
    if single(kind):
        return gp(ctx, box, nz, regr=trend_of(kind), restarts=restarts, **k)
    if kind == "LFK":
        m = ctx.load(CK)._GP(design_space=box, noise_prior=nz, optimizer_restart=restarts, **k)
        return m
    if kind == "HK":
        return ctx.load(HK).HierarchicalKriging(design_space=box, noise_prior=nz, optimizer_restart=restarts, **k)
    if kind == "SK":
        return ctx.load(SK).ScaledKriging(design_space=box, noise_prior=nz, optimizer_restart=restarts, **k)
    return ctx.load(CK).CoKriging(design_space=box, noise_prior=nz, optimizer_restart=restarts, **k)


def fit(ctx, m, kind, hf, lf):
    if single(kind) or kind == "LFK":
        m.train(hf[0], hf[1])
    else:
        m.train([hf[0], lf[0]], [hf[1], lf[1]])


def copies(*xs):
    return [x.copy() for x in xs]


SIZES = [dict(kind="GP", n=2, l=0, d=1), dict(kind="GP", n=3, l=0, d=2), dict(kind="HK", n=2, l=2, d=1), dict(kind="SK", n=2, l=2, d=1), dict(kind="CK", n=2, l=2, d=1)]


TRENDS = [dict(kind="GP-Linear", n=3, l=0, d=1), dict(kind="GP-Quadratic", n=4, l=0, d=1), dict(kind="GP-Linear", n=4, l=0, d=2)]


def over(ps, **k):
    return [dict(p, **q) for p in ps for q in product(**k)]


@case("G03", quick=over(SIZES + TRENDS[:1] + TRENDS[2:], noise=("given", "estimated")) + over(SIZES[2:], noise=("none",)), thorough=over([dict(kind=k, n=3, l=3, d=2) for k in ("HK", "SK", "CK")], noise=("given", "estimated")), seconds=300)
def predict_is_pure(ctx, kind, n, l, d, noise):
    ctx.jitter(2e-10)
    ctx.naming(2)
    box = ctx.box("box", d)
    X, Y = data(ctx, box, n)
    lf = lf_data(ctx, box, l) if l else (X, Y)
    m = model(ctx, kind, box, noise)
    keep = copies(X, Y, *lf, box)
    fit(ctx, m, kind, (X, Y), lf)
    Q, P = query(ctx, box, 2), query(ctx, box, 1, "p")
    Q0 = Q.copy()
    a, s = m.predict(Q, return_std=True)
    a0, s0 = copies(a, s)
    b = m.predict(Q)
    c, t = m.predict(P, return_std=True)
    m.predict(P)
    a2, s2 = m.predict(Q, return_std=True)
    ctx.shape("mean", a, (2, 1))
    ctx.shape("deviation", s, (2, 1))
    ctx.eq("mean without deviation", b, a0)
    ctx.eq("second prediction, mean", a2, a0)
    ctx.eq("second prediction, deviation", s2, s0)
    ctx.eq("results already returned are untouched", a, a0)
    ctx.eq("deviations already returned are untouched", s, s0)
    c2, t2 = m.predict(P, return_std=True)
    ctx.eq("second prediction elsewhere, mean", c2, c)
    ctx.eq("second prediction elsewhere, deviation", t2, t)
    if not single(kind):
        lo, ls = m.predict_lf(Q, return_std=True)
        ctx.eq("low fidelity without deviation", m.predict_lf(Q), lo)
        a3, s3 = m.predict(Q, return_std=True)
        ctx.eq("after low-fidelity prediction, mean", a3, a0)
        ctx.eq("after low-fidelity prediction, deviation", s3, s0)
        lo2, ls2 = m.predict_lf(Q, return_std=True)
        ctx.eq("low fidelity again", lo2, lo)
        ctx.eq("low-fidelity deviation again", ls2, ls)
    ctx.eq("query points unmodified", Q, Q0)
    # the same array object, with other points in it
    Q[1] = P[0]
    e, v = m.predict(Q, return_std=True)
    f, w = m.predict(Q.copy(), return_std=True)
    ctx.eq("query array with other points in it, mean", e, f)
    ctx.eq("query array with other points in it, deviation", v, w)
    if not single(kind):
        ctx.eq("query array with other points in it, low fidelity", m.predict_lf(Q), m.predict_lf(Q.copy()))
    for was, now in zip(keep, (X, Y, lf[0], lf[1], box)):
        ctx.eq("training data and design space unmodified", now, was)


REUSE = [dict(p, reuse=r) for p in over([z for z in SIZES + TRENDS[:2] if z["d"] == 1], noise=("given",)) for r in (("points", "inplace", "low", "high") if p["l"] else ("points", "inplace"))]


@case("G04", quick=over(SIZES[:1] + SIZES[2:] + TRENDS[:2], noise=("none", "given", "estimated")), thorough=over([dict(kind=k, n=3, l=2, d=1) for k in ("GP", "HK", "SK", "CK")], noise=("given", "estimated")), seconds=300)
def retraining(ctx, kind, n, l, d, noise, reuse=""):
    """train on A then on B == train a fresh model on B (with the same outcomes of the searches)"""
    ctx.jitter(2e-10)
    ctx.naming(2)
    box = ctx.box("box", d)
    nz = noise_of(ctx, noise)
    A = data(ctx, box, n + 1, "a")
    B = data(ctx, box, n, "b")
    LA = data(ctx, box, l, "la") if l else None
    LB = data(ctx, box, l + 1, "lb") if l else None
    if reuse:
        # the same array objects again: the points ("points"), with other contents ("inplace"), or one
        # fidelity entirely ("low", "high")
        A = data(ctx, box, n, "a")
        LB = data(ctx, box, l, "lb") if l else None
        if reuse == "points":
            B = (A[0], B[1])
            LB = (LA[0], LB[1]) if l else None
        if reuse == "low":
            LB = LA
        if reuse == "high":
            B = A
    m = model(ctx, kind, box, nz)
    fit(ctx, m, kind, A, LA)
    m.predict(query(ctx, box, 1, "r"), return_std=True)
    if reuse == "inplace":
        for old, new in ((A, B), (LA, LB)):
            for o, w in zip(old or (), new or ()):
                o[...] = w
        B, LB = A, LA
    at = dict(ctx.env.counts)
    fit(ctx, m, kind, B, LB)
    done = dict(ctx.env.counts)
    f = model(ctx, kind, box, nz)
    ctx.env.counts = dict(at)
    fit(ctx, f, kind, B, LB)
    if reuse == "low" and ctx.env.counts.get("search") != done.get("search"):
        return ctx.check("unchanged low-fidelity data need not be fitted again", True)
    ctx.check("the same searches", ctx.env.counts.get("search") == done.get("search"))
    Q = query(ctx, box, 1)
    a, s = m.predict(Q, return_std=True)
    b, t = f.predict(Q, return_std=True)
    ctx.eq("mean", a, b)
    ctx.eq("deviation", s, t)
    ctx.eq("noise", m.noise, f.noise)
    if not single(kind):
        a, s = m.predict_lf(Q, return_std=True)
        b, t = f.predict_lf(Q, return_std=True)
        ctx.eq("low-fidelity mean", a, b)
        ctx.eq("low-fidelity deviation", s, t)


@case("G04", quick=REUSE, seconds=300)
def retraining_reuse(ctx, kind, n, l, d, noise, reuse):
    retraining(ctx, kind, n, l, d, noise, reuse)


@case("G04", quick=product(n=(2,), k=(1, 2), d=(1, 2), noise=("given", "estimated")), seconds=300)
def adding_points(ctx, n, k, d, noise):
    """update_model on a trained low-fidelity Gaussian process == training on all the data"""
    ctx.jitter(2e-10)
    ctx.naming(2)
    box = ctx.box("box", d)
    nz = noise_of(ctx, noise)
    X, Y = data(ctx, box, n + k)
    m = model(ctx, "LFK", box, nz)
    m.train(X[:n], Y[:n])
    at = dict(ctx.env.counts)
    m.update_model(X[n:], Y[n:])
    f = model(ctx, "LFK", box, nz)
    ctx.env.counts = dict(at)
    f.train(X, Y)
    Q = query(ctx, box, 1)
    a, s = m.predict(Q, return_std=True)
    b, t = f.predict(Q, return_std=True)
    ctx.eq("mean", a, b)
    ctx.eq("deviation", s, t)
    ctx.eq("stored points", m.sample_x, X)
    ctx.eq("stored responses", m.sample_y, Y)
    ctx.check("number of points", m._num_samples == n + k)


G5 = over(SIZES + TRENDS[:1] + TRENDS[2:], noise=("none", "given", "estimated"))


@case("G05", quick=G5, seconds=300)
def input_units(ctx, kind, n, l, d, noise):
    """points and design space in other units: same predictions"""
    ctx.jitter(2e-10)
    ctx.naming(2)
    np = ctx.np
    box = ctx.box("box", d)
    nz = noise_of(ctx, noise)
    X, Y = data(ctx, box, n)
    lf = lf_data(ctx, box, l) if l else (X, Y)
    Q = query(ctx, box, 2)
    a = [ctx.real("a%d" % j, 0.1, 10) for j in range(d)]
    b = [ctx.real("b%d" % j, -5, 5) for j in range(d)]

    def units(P):
        return np.array([[a[j] * P[i, j] + b[j] for j in range(d)] for i in range(P.shape[0])])
    box2 = np.array([[a[j] * box[j, 0] + b[j], a[j] * box[j, 1] + b[j]] for j in range(d)])
    m, m2 = model(ctx, kind, box, nz), model(ctx, kind, box2, nz)
    fit(ctx, m, kind, (X, Y), lf)
    ctx.env.counts = {}
    fit(ctx, m2, kind, (units(X), Y), (units(lf[0]), lf[1]))
    p, s = m.predict(Q, return_std=True)
    p2, s2 = m2.predict(units(Q), return_std=True)
    ctx.eq("mean", p2, p)
    ctx.eq("deviation", s2, s)
    if not single(kind):
        ctx.eq("low-fidelity mean", m2.predict_lf(units(Q)), m.predict_lf(Q))


@case("G05", quick=G5, seconds=300)
def response_units(ctx, kind, n, l, d, noise):
    """responses (and the noise given with them) in other units: predictions in those units"""
    ctx.jitter(2e-10)
    ctx.naming(2)
    box = ctx.box("box", d)
    X, Y = data(ctx, box, n)
    lf = lf_data(ctx, box, l) if l else (X, Y)
    Q = query(ctx, box, 2)
    c, e = ctx.real("c", 0.1, 10), ctx.real("e", -5, 5)
    nz = noise_of(ctx, noise)
    m = model(ctx, kind, box, nz)
    m2 = model(ctx, kind, box, c * nz if noise == "given" else nz)
    fit(ctx, m, kind, (X, Y), lf)
    ctx.env.counts = {}
    fit(ctx, m2, kind, (X, c * Y + e), (lf[0], c * lf[1] + e))
    p, s = m.predict(Q, return_std=True)
    p2, s2 = m2.predict(Q, return_std=True)
    ctx.eq("mean", p2, c * p + e)
    ctx.eq("deviation", s2, c * s)
    if not single(kind):
        p, s = m.predict_lf(Q, return_std=True)
        p2, s2 = m2.predict_lf(Q, return_std=True)
        ctx.eq("low-fidelity mean", p2, c * p + e)
        ctx.eq("low-fidelity deviation", s2, c * s)


@case("G05", quick=over([dict(kind=k, n=3, l=3, d=1) for k in ("GP", "HK", "SK")] + TRENDS[:1], noise=("none", "given", "estimated")) + [dict(kind="CK", n=3, l=3, d=1, noise="given")],
      thorough=over([dict(kind="CK", n=3, l=3, d=1)], noise=("none", "estimated")) + over([dict(kind=k, n=4, l=3, d=2) for k in ("GP", "HK", "SK", "CK")], noise=("given",)), seconds=300)
def order_of_data(ctx, kind, n, l, d, noise):
    """the order of the training points is irrelevant"""
    ctx.jitter(2e-10)
    ctx.naming(2)
    np = ctx.np
    box = ctx.box("box", d)
    nz = noise_of(ctx, noise)
    X, Y = data(ctx, box, n)
    lf = lf_data(ctx, box, l) if l else (X, Y)
    Q = query(ctx, box, 1)

    def turn(P):
        return np.concatenate((P[1:], P[:1]), axis=0)
    m, m2 = model(ctx, kind, box, nz), model(ctx, kind, box, nz)
    fit(ctx, m, kind, (X, Y), lf)
    ctx.env.counts = {}
    fit(ctx, m2, kind, (turn(X), turn(Y)), (turn(lf[0]), turn(lf[1])))
    p, s = m.predict(Q, return_std=True)
    p2, s2 = m2.predict(Q, return_std=True)
    ctx.eq("mean", p2, p)
    ctx.eq("deviation", s2, s)


# ------------------------------------------------------------------ hyper-parameters
def declared(kind, d, noise, kb=None, rb=None):
    """bounds of the numerical searches a training of the given kind runs, in order"""
    def kernel(lo, hi):
        return [(lo, hi)] * d
    nz = [(1e-5, 10)] if noise == "estimated" else []
    one = kernel(-2, 3) + nz
    if single(kind) or kind == "LFK":
        return [kernel(*kb) + nz if kb else one]
    own = kernel(*(kb or (-4 if kind == "SK" else -2, 3)))            # of the high-fidelity kernel
    return [one, [rb or (1e-2, 1e2)] + nz + own if kind == "CK" else own + nz]


class Reported:
    """a user's optimiser: reports a given best point for each problem it is asked to solve"""

    def __init__(self, best):
        self.best, self.calls = list(best), []

    def run_optimizer(self, func, num_dim, design_space, **k):
        self.calls.append((func, num_dim, design_space))
        return {"best_x": self.best[len(self.calls) - 1], "best_y": 0.0}, None, None


def same_bounds(ctx, label, got, want):
    ctx.check(label + ": number of parameters", len(got) == len(want))
    for (a, b), (lo, hi) in zip(got, want):
        ctx.eq(label, a, lo)
        ctx.eq(label, b, hi)


@case("G06", quick=over(SIZES[:1] + SIZES[2:], noise=("given", "estimated"), restarts=(1,)) + over(SIZES[2:], noise=("none",), restarts=(0,)) + over(SIZES[:1] + [dict(kind="LFK", n=2, l=0, d=1)], noise=("none",), restarts=(0, 3)) + over(SIZES[:1] + SIZES[2:], noise=("none", "estimated"), restarts=(0,), own=(True,)) + over([dict(kind="HK", n=2, l=2, d=2), dict(kind="SK", n=2, l=2, d=2), dict(kind="CK", n=2, l=2, d=2)], noise=("given",), restarts=(0,)) + over(SIZES[:1] + [dict(kind="LFK", n=2, l=0, d=1)], noise=("none", "estimated"), restarts=(0,), late=("default", "user")),
      thorough=over([dict(kind=k, n=2, l=2, d=2) for k in ("GP", "HK", "SK", "CK")], noise=("given", "estimated"), restarts=(2,)), seconds=400, paths=300)
def best_candidate(ctx, kind, n, l, d, noise, restarts, own=False, late=""):
    """the model is the one of the best restart; the restarts are those requested"""
    ctx.jitter(2e-10)
    ctx.naming(2)
    ctx.search_fun = "free"
    box = ctx.box("box", d)
    nz = noise_of(ctx, noise)
    X, Y = scaled_data(ctx, n, d) if kind == "LFK" else data(ctx, box, n)
    lf = lf_data(ctx, box, l) if l else (X, Y)
    kb, rb, opts = None, None, {}
    if own:
        # bounds declared by the user
        kb = (-1.5, 0.5)
        if single(kind):
            opts = dict(kernel=lambda: ctx.load(KER).RBF(theta=ctx.np.zeros(d), bounds=list(kb)))
        else:
            opts = dict(kernel_bound=list(kb))
            if kind == "CK":
                rb = (0.25, 4.0)
                opts["rho_bound"] = list(rb)

    def fresh(**k):
        return model(ctx, kind, box, nz, restarts=restarts, **{q: v() if callable(v) else v for q, v in opts.items()}, **k)
    m = fresh()
    fit(ctx, m, kind, (X, Y), lf)
    want = declared(kind, d, noise, kb, rb)
    runs = list(ctx.env.searches)
    ctx.check("one search per requested run and fitted model", len(runs) == (restarts + 1) * len(want))
    best = []
    for i, b in enumerate(want):
        top = None
        for r in runs[i * (restarts + 1):(i + 1) * (restarts + 1)]:
            same_bounds(ctx, "bounds of the search", r["bounds"], b)
            x0 = r["x0"].ravel()
            ctx.check("size of the starting point", len(x0) == len(b))
            for v, (lo, hi) in zip(x0, b):
                ctx.le("starting point in the bounds", lo, v)
                ctx.le("starting point in the bounds", v, hi)
            if top is None or bool(r["value"] < top["value"]):
                top = r
        best.append(top["x"])
    user = Reported(best)
    if late:
        # an existing, already trained model is given another optimiser
        f = fresh(**(dict(optimizer=Reported([ctx.np.array([float(lo) for lo, _ in b]) for b in want])) if late == "user" else {}))
        fit(ctx, f, kind, (X, Y), lf)
        (f.change_optimizer if single(kind) else f.update_optimizer)(user)
    else:
        f = fresh(optimizer=user)
    before = len(ctx.env.searches)
    fit(ctx, f, kind, (X, Y), lf)
    ctx.check("a user's optimiser replaces the built-in one", len(ctx.env.searches) == before)
    ctx.check("a user's optimiser is asked once per fitted model", len(user.calls) == len(want))
    for (fun, nd, ds), b in zip(user.calls, want):
        ctx.check("number of parameters", nd == len(b))
        same_bounds(ctx, "design space of the optimiser", [(ds[j, 0], ds[j, 1]) for j in range(ds.shape[0])], b)
    Q = ctx.array("q", (1, d), -0.5, 1.5) if kind == "LFK" else query(ctx, box, 1)
    p, s = m.predict(Q, return_std=True)
    p2, s2 = f.predict(Q, return_std=True)
    ctx.eq("mean", p, p2)
    ctx.eq("deviation", s, s2)


def nll(ctx, K, F, y, concentrated):
    ref = Ref(ctx, K, F, y)
    n = y.shape[0]
    L = ctx.np.linalg.cholesky(K)
    s = 0.0
    for i in range(n):
        s = s + ctx.log(L[i, i])
    return (0.5 * n * ctx.log(ref.s2) if concentrated else 0.5 * n * ref.s2) + s


G7 = [dict(kind="GP", n=2, l=0, d=1), dict(kind="GP", n=3, l=0, d=2), dict(kind="LFK", n=2, l=0, d=1), dict(kind="HK", n=2, l=2, d=1), dict(kind="SK", n=2, l=2, d=1), dict(kind="CK", n=2, l=2, d=1)] + TRENDS


@case("G07", quick=over(G7, noise=("none", "given", "estimated")), thorough=over([dict(kind=k, n=3, l=2, d=2) for k in ("GP", "HK", "SK", "CK")], noise=("none", "given", "estimated")), seconds=400)
def objective(ctx, kind, n, l, d, noise):
    """the function handed to the search is the likelihood of the model that prediction uses"""
    ctx.jitter(2e-10)
    ctx.naming(2)
    np = ctx.np
    box = ctx.box("box", d)
    nz = noise_of(ctx, noise)
    X, Y = scaled_data(ctx, n, d) if kind == "LFK" else data(ctx, box, n)
    lf = lf_data(ctx, box, l) if l else (X, Y)
    seen = []

    def probe(rec):
        k = len(seen)
        P = np.array([[ctx.between("p%d_%d_%d" % (k, i, j), lo, hi) for j, (lo, hi) in enumerate(rec["bounds"])] for i in range(2)])
        P0 = P.copy()
        fun = rec["fun"]
        both = fun(P)
        seen.append((P, both.copy(), fun(P[0]), fun(P[1:2]), fun(P)))
        ctx.eq("candidates unmodified", P, P0)
    m = model(ctx, kind, box, nz)
    ctx.on_search = probe
    fit(ctx, m, kind, (X, Y), lf)
    ctx.on_search = None
    ctx.env.counts = {}
    f = model(ctx, kind, box, nz)
    fit(ctx, f, kind, (X, Y), lf)
    Q = ctx.array("q", (1, d), -0.5, 1.5) if kind == "LFK" else query(ctx, box, 1)
    p, s = m.predict(Q, return_std=True)
    p2, s2 = f.predict(Q, return_std=True)
    ctx.eq("evaluating the objective does not alter the model: mean", p, p2)
    ctx.eq("evaluating the objective does not alter the model: deviation", s, s2)

    want = declared(kind, d, noise)
    ctx.check("number of searches", len(seen) == len(want))
    # what each search fits: points, standardised responses, standardised trend, unit of the noise, order of parameters
    x = unit(ctx, X, box)
    jobs = []
    if single(kind):
        ym, ys = moments(ctx, Y)
        jobs = [(x, lambda par: (Y - ym) / ys, trend(ctx, trend_of(kind), x), ys, 0)]
    elif kind == "LFK":
        jobs = [(X, lambda par: Y, trend(ctx, "Ordinary", X), 1.0, 0)]
    else:
        xl = unit(ctx, lf[0], box)
        at = m.predict_lf(X)
        if kind == "CK":
            hm, hs = moments(ctx, Y)
            jobs = [(xl, lambda par: (lf[1] - hm) / hs, trend(ctx, "Ordinary", xl), hs, 0),
                    (x, lambda par: (Y - hm) / hs - par[0] * (at - hm) / hs, trend(ctx, "Ordinary", x), hs, 1)]
        else:
            lm, ls = moments(ctx, lf[1])
            jobs = [(xl, lambda par: (lf[1] - lm) / ls, trend(ctx, "Ordinary", xl), ls, 0)]
            Z = Y if kind == "HK" else Y - at
            hm, hs = moments(ctx, Z)
            jobs.append((x, lambda par: (Z - hm) / hs, (at - hm) / hs if kind == "HK" else trend(ctx, "Ordinary", x), hs, 0))
    for (P, both, first, second, again), (pts, ys_, F, scale, skip) in zip(seen, jobs):
        ctx.check("one value per candidate", both.shape == (2,))
        ctx.eq("batch and single evaluation, first", first, both[0:1])
        ctx.eq("batch and single evaluation, second", second, both[1:2])
        ctx.eq("repeated evaluation", again, both)
        for i in range(2):
            par = [P[i, j] for j in range(P.shape[1])]
            theta = par[skip:skip + d]
            if noise == "estimated":
                theta = par[2:2 + d] if skip else par[:d]
                nu = par[1] if skip else par[d]
            else:
                nu = nz / scale
            K = rbf(ctx, pts, pts, theta) + eye(ctx, pts.shape[0], nu ** 2)
            ctx.eq("negative log-likelihood", both[i], nll(ctx, K, F, ys_(par), noise == "none"))


# ------------------------------------------------------------------ multi-fidelity formulas
def root(ctx, v, nu):
    return ctx.sqrt(ctx.ite(v > 0, v, 0.0) + nu ** 2)


def plain(ctx, box, noise, lo=-2, hi=3):
    """a separate single-fidelity model"""
    m, kr = ctx.load(GP), ctx.load(KER)
    return m.GaussianProcessRegression(design_space=box, kernel=kr.RBF(theta=ctx.np.zeros(box.shape[0]), bounds=[lo, hi]), noise_prior=noise, optimizer_restart=0)


@case("G01", quick=[dict(kind="HK", n=2, l=2, d=1), dict(kind="HK", n=3, l=3, d=2), dict(kind="SK", n=2, l=2, d=1), dict(kind="SK", n=3, l=2, d=2), dict(kind="CK", n=2, l=2, d=1)],
      thorough=[dict(kind="HK", n=4, l=3, d=2), dict(kind="SK", n=4, l=3, d=2), dict(kind="CK", n=3, l=2, d=1), dict(kind="CK", n=2, l=3, d=2)], seconds=400)
def mf_interpolates(ctx, kind, n, l, d):
    ctx.jitter(2e-10)
    ctx.naming(2)
    box = ctx.box("box", d)
    X, Y = data(ctx, box, n)
    lf = lf_data(ctx, box, l)
    m = model(ctx, kind, box, "none")
    fit(ctx, m, kind, (X, Y), lf)
    mean = m.predict(X)
    ctx.shape("mean", mean, (n, 1))
    ctx.eq("mean at the high-fidelity data", mean, Y)
    mean, std = m.predict(X, return_std=True)
    ctx.eq("mean at the high-fidelity data (with deviation)", mean, Y)
    for i in range(n):
        ctx.eq("mean at one data point alone", m.predict(X[i:i + 1])[0, 0], Y[i, 0])
    if kind != "SK":                     # scaled kriging keeps the low-fidelity deviation
        ctx.eq("deviation at the high-fidelity data", std, ctx.np.zeros((n, 1)), tol=1e-4)
    ctx.eq("low-fidelity mean at the low-fidelity data", m.predict_lf(lf[0]), lf[1])


H1 = [dict(n=2, l=2, d=1, m=1), dict(n=3, l=2, d=1, m=2), dict(n=3, l=3, d=2, m=1)]


@case("H01", quick=over(H1, noise=("none", "given", "estimated")), thorough=over([dict(n=4, l=4, d=2, m=3), dict(n=5, l=3, d=1, m=1)], noise=("none", "given", "estimated")), seconds=400)
def hierarchical(ctx, n, l, d, m, noise):
    ctx.jitter(2e-10)
    ctx.naming(2)
    box = ctx.box("box", d)
    nz = noise_of(ctx, noise)
    X, Y = data(ctx, box, n)
    lf = lf_data(ctx, box, l)
    Q = query(ctx, box, m)
    k = model(ctx, "HK", box, nz)
    fit(ctx, k, "HK", (X, Y), lf)
    mean, std = k.predict(Q, return_std=True)
    par = ctx.env.searches[-1]["x"]
    ctx.env.counts = {}
    g = plain(ctx, box, nz)
    g.train(lf[0], lf[1])
    ctx.eq("low-fidelity prediction is that of a Gaussian process on the low-fidelity data", k.predict_lf(Q), g.predict(Q))
    hm, hs = moments(ctx, Y)
    nu = nz if noise != "estimated" else par[d] * hs
    ctx.eq("noise", k.noise, nu)
    x, q = unit(ctx, X, box), unit(ctx, Q, box)
    theta = [par[j] for j in range(d)]
    F, f = (g.predict(X) - hm) / hs, (g.predict(Q) - hm) / hs
    ref = Ref(ctx, rbf(ctx, x, x, theta) + eye(ctx, n, (nu / hs) ** 2), F, (Y - hm) / hs)
    r = rbf(ctx, x, q, theta)
    ctx.shape("mean", mean, (m, 1))
    ctx.shape("deviation", std, (m, 1))
    for i in range(m):
        ctx.eq("mean", mean[i, 0], ref.mean(r[:, i:i + 1], f[i:i + 1]) * hs + hm)
        ctx.eq("deviation", std[i, 0], root(ctx, ref.var(r[:, i:i + 1], f[i:i + 1]) * hs ** 2, nu))
        a, b = k.predict(Q[i:i + 1], return_std=True)
        ctx.eq("mean of one point alone", a[0, 0], mean[i, 0])
        ctx.eq("deviation of one point alone", b[0, 0], std[i, 0])


@case("H01", quick=over([dict(n=2, l=2, d=1), dict(n=3, l=2, d=1)], noise=("none", "given")), thorough=over([dict(n=4, l=3, d=2)], noise=("none", "given")), seconds=400)
def multiple_of_low_fidelity(ctx, n, l, d, noise):
    """high-fidelity responses = factor * standardised low-fidelity predictions: reproduced everywhere"""
    ctx.jitter(2e-10)
    ctx.naming(2)
    box = ctx.box("box", d)
    nz = noise_of(ctx, noise)
    X, _ = data(ctx, box, n)
    lf = lf_data(ctx, box, l)
    Q = query(ctx, box, 1)
    g = plain(ctx, box, nz)
    g.train(lf[0], lf[1])
    p, q = g.predict(X), g.predict(Q)
    c = ctx.real("c", 0.1, 5)
    s = 0.0
    for i in range(n):
        s = s + p[i, 0]
    mean = s / n
    ctx.assume(ctx.neg(ctx.conj(*[ctx.same(p[i, 0], p[0, 0]) for i in range(1, n)])))
    ctx.env.counts = {}
    k = model(ctx, "HK", box, nz)
    fit(ctx, k, "HK", (X, mean + c * (p - mean)), lf)
    a, b = k.predict(Q, return_std=True)
    ctx.eq("mean", a, mean + c * (q - mean))
    ctx.eq("variance", b ** 2, ctx.np.array([[nz ** 2]]), tol=1e-4)


class Stub:
    """an arbitrary model with the documented interface; remembers what it was trained on"""

    def __init__(self, ctx, name, d, noise=0.1):
        self.ctx, self.d = ctx, d
        self.f, self.s = ctx.func(name, -3, 3), ctx.func(name + "_s", 0, 2)
        self.seen, self.noise, self.kernel, self.name = [], noise, self, name

    def train(self, X, Y):
        self.seen.append((X.copy(), Y.copy()))

    @property
    def _get_param(self):
        """parameters depend on what the model was trained on (on the first response here)"""
        g = self.ctx.func(self.name + "_par", 0.1, 3)
        return self.ctx.np.array([g(j, self.seen[-1][1].ravel()[0]) for j in range(self.d)])

    def predict(self, X, return_std=False):
        np = self.ctx.np
        m = np.array([[self.f(*[X[i, j] for j in range(self.d)])] for i in range(X.shape[0])])
        if not return_std:
            return m
        return m, np.array([[self.s(*[X[i, j] for j in range(self.d)])] for i in range(X.shape[0])])


H2 = [dict(n=2, d=1, m=1, rho="fixed"), dict(n=3, d=2, m=2, rho="fixed")] + product(n=(2,), d=(1,), m=(2,), rho=("error", "bumpiness"), user=(False, True)) + \
     product(n=(3,), d=(2,), m=(1,), rho=("error", "bumpiness"), user=(False, True))


@case("H02", quick=H2, thorough=product(n=(5,), d=(3,), m=(3,), rho=("error", "bumpiness"), user=(False, True)), seconds=300)
def scaled(ctx, n, d, m, rho, user=False):
    """composition of an arbitrary low-fidelity model and an arbitrary discrepancy model"""
    np = ctx.np
    sk = ctx.load(SK)
    box = ctx.box("box", d)
    X, Y = data(ctx, box, n)
    lf = lf_data(ctx, box, 2)
    Q = query(ctx, box, m)
    lo, di = Stub(ctx, "low", d), Stub(ctx, "disc", d)
    bounds = [ctx.real("rlo", 0.01, 1), ctx.real("rhi", 1.5, 10)]
    opts, opt = {}, None
    got = []

    def probe(fun, nd, bd):
        """what the search for the factor is given"""
        got.append((nd, bd))
        R = np.array([[ctx.between("r%d" % i, bounds[0], bounds[1])] for i in range(2)])
        before = len(di.seen)
        both = fun(R)
        ctx.check("criterion: one value per candidate", both.shape == (2,))
        one = fun(R[1:2])
        for i in range(2):
            e = 0.0
            for j in range(n):
                e = e + (R[i, 0] * lo.predict(X[j:j + 1])[0, 0] - Y[j, 0]) ** 2
            if rho == "bumpiness":
                first = Y[0, 0] - R[i, 0] * lo.predict(X[0:1])[0, 0]
                g = ctx.func("disc_par", 0.1, 3)
                w = 0.0
                for j in range(d):
                    w = w + g(j, first) ** 2
                e = e * ctx.sqrt(w)
            ctx.eq("criterion", both[i], e)
        ctx.eq("criterion of one candidate alone", one[0], both[1])
        if rho == "error":
            ctx.check("the error criterion trains nothing", len(di.seen) == before)

    class User:
        def run_optimizer(self, func, num_dim, design_space, **k):
            probe(func, num_dim, [(design_space[i, 0], design_space[i, 1]) for i in range(design_space.shape[0])])
            self.x = np.array([ctx.between("best", bounds[0], bounds[1])])
            return {"best_x": self.x, "best_y": 0.0}, None, None

        def plot_optimization_history(self, *a, **k):
            pass
    if rho != "fixed":
        opts = dict(rho_optimize=True, rho_method=rho, rho_bound=bounds)
        if user:
            opt = User()
            opts["rho_optimizer"] = opt
        else:
            ctx.on_search = lambda rec: probe(rec["fun"], len(rec["bounds"]), rec["bounds"])
    k = sk.ScaledKriging(design_space=box, lfGP=lo, disc_model=di, **opts)
    k.train([X, lf[0]], [Y, lf[1]])
    ctx.on_search = None
    factor = 1.0
    if rho != "fixed":
        ctx.check("one search for the factor", len(got) == 1 and len(ctx.env.searches) == (0 if user else 1))
        ctx.check("one parameter", got[0][0] == 1)
        same_bounds(ctx, "bounds of the factor", got[0][1], [bounds])
        factor = opt.x[0] if user else ctx.env.searches[0]["x"][0]
        if not user:
            x0 = ctx.env.searches[0]["x0"].ravel()
            ctx.le("starting point in the bounds", bounds[0], x0[0])
            ctx.le("starting point in the bounds", x0[0], bounds[1])
    ctx.check("low-fidelity model trained once", len(lo.seen) == 1)
    ctx.eq("low-fidelity model trained on the low-fidelity points", lo.seen[0][0], lf[0])
    ctx.eq("low-fidelity model trained on the low-fidelity responses", lo.seen[0][1], lf[1])
    ctx.eq("discrepancy model trained on the high-fidelity points", di.seen[-1][0], X)
    ctx.eq("discrepancy model trained on the discrepancies", di.seen[-1][1], Y - factor * lo.predict(X))
    mean, std = k.predict(Q, return_std=True)
    ctx.shape("mean", mean, (m, 1))
    ctx.shape("deviation", std, (m, 1))
    a, s = lo.predict(Q, True)
    b, t = di.predict(Q, True)
    for i in range(m):
        ctx.eq("mean", mean[i, 0], factor * a[i, 0] + b[i, 0])
        ctx.eq("deviation", std[i, 0], ctx.sqrt(factor ** 2 * s[i, 0] ** 2 + t[i, 0] ** 2))
    ctx.eq("mean without deviation", k.predict(Q), mean)
    ctx.eq("low-fidelity prediction", k.predict_lf(Q), a)


@case("H02", quick=over([dict(n=2, l=2, d=1), dict(n=3, l=2, d=2)], noise=("none", "given", "estimated")), thorough=over([dict(n=4, l=3, d=2)], noise=("none", "given", "estimated")), seconds=300)
def scaled_default(ctx, n, l, d, noise):
    """the built-in models: Gaussian processes of the low-fidelity data and of the discrepancies"""
    ctx.jitter(2e-10)
    ctx.naming(2)
    box = ctx.box("box", d)
    nz = noise_of(ctx, noise)
    X, Y = data(ctx, box, n)
    lf = lf_data(ctx, box, l)
    Q = query(ctx, box, 2)
    k = model(ctx, "SK", box, nz)
    fit(ctx, k, "SK", (X, Y), lf)
    ctx.env.counts = {}
    low, dis = plain(ctx, box, nz), plain(ctx, box, nz, -4, 3)
    low.train(lf[0], lf[1])
    dis.train(X, Y - low.predict(X))
    mean, std = k.predict(Q, return_std=True)
    a, s = low.predict(Q, return_std=True)
    b, t = dis.predict(Q, return_std=True)
    ctx.eq("mean", mean, a + b)
    for i in range(2):
        ctx.eq("deviation", std[i, 0], ctx.sqrt(s[i, 0] ** 2 + t[i, 0] ** 2))
    ctx.eq("noise", k.noise, dis.noise)


H3 = [dict(n=2, l=2, d=1, m=1), dict(n=2, l=3, d=1, m=2), dict(n=2, l=2, d=2, m=1)]


@case("H03", quick=over(H3[:1], noise=("none", "given", "estimated")) + over(H3[1:], noise=("given", "estimated")), thorough=over([dict(n=3, l=3, d=2, m=2), dict(n=3, l=4, d=1, m=1)], noise=("none", "given", "estimated")), seconds=500)
def autoregressive(ctx, n, l, d, m, noise):
    """the joint covariance of both fidelities and the prediction from it, in the user's units"""
    ctx.jitter(2e-10)
    ctx.naming(2)
    np = ctx.np
    box = ctx.box("box", d)
    nz = noise_of(ctx, noise)
    X, Y = data(ctx, box, n)
    lf = lf_data(ctx, box, l)
    Q = query(ctx, box, m)
    k = model(ctx, "CK", box, nz)
    fit(ctx, k, "CK", (X, Y), lf)
    mean, std = k.predict(Q, return_std=True)
    low, high = [s["x"] for s in ctx.env.searches]
    hm, hs = moments(ctx, Y)
    rho = high[0]
    if noise == "estimated":
        tl, nl, th, nh = [low[j] for j in range(d)], low[d], [high[2 + j] for j in range(d)], high[1]
    else:
        tl, nl, th, nh = [low[j] for j in range(d)], nz / hs, [high[1 + j] for j in range(d)], nz / hs
    x, xl, q = unit(ctx, X, box), unit(ctx, lf[0], box), unit(ctx, Q, box)
    y, yl = (Y - hm) / hs, (lf[1] - hm) / hs
    one = np.ones((l, 1))
    Kl = rbf(ctx, xl, xl, tl) + eye(ctx, l, nl ** 2)
    L = Ref(ctx, Kl, one, yl)
    at = np.array([[L.mean(rbf(ctx, xl, x[i:i + 1], tl), one[:1])] for i in range(n)])
    Kd = rbf(ctx, x, x, th) + eye(ctx, n, nh ** 2)
    D = Ref(ctx, Kd, np.ones((n, 1)), y - rho * at)
    up = np.concatenate((L.s2 * Kl, rho * L.s2 * rbf(ctx, xl, x, tl)), axis=1)
    lw = np.concatenate((rho * L.s2 * rbf(ctx, x, xl, tl), rho ** 2 * L.s2 * rbf(ctx, x, x, tl) + D.s2 * Kd), axis=1)
    C = np.concatenate((up, lw), axis=0) + eye(ctx, n + l, 1e-10)
    Z, ones = np.concatenate((yl, y), axis=0), np.ones((n + l, 1))
    ref = Ref(ctx, C, ones, Z)
    ctx.shape("mean", mean, (m, 1))
    ctx.shape("deviation", std, (m, 1))
    for i in range(m):
        qi = q[i:i + 1]
        c = np.concatenate((rho * L.s2 * rbf(ctx, xl, qi, tl), rho ** 2 * L.s2 * rbf(ctx, x, qi, tl) + D.s2 * rbf(ctx, x, qi, th)), axis=0)
        ctx.eq("mean", mean[i, 0], ref.mean(c, ones[:1]) * hs + hm)
        v = rho ** 2 * L.s2 + D.s2 - np.dot(c.T, np.linalg.solve(C, c))[0, 0]
        ctx.eq("deviation", std[i, 0], root(ctx, v * hs ** 2, nh * hs))
    ctx.eq("mean without deviation", k.predict(Q), mean)
    p = k.predict_lf(Q)
    for i in range(m):
        ctx.eq("low-fidelity mean", p[i, 0], L.mean(rbf(ctx, xl, q[i:i + 1], tl), one[:1]) * hs + hm)
