"""A01-A05: acquisition functions.  The surrogate is a stand-in whose predictions are arbitrary
functions of the point; everything else is the real code."""
from symx.case import case, product

SF = "mfpml.optimization.sf_uncons_acqusitions"
SC = "mfpml.optimization.sf_cons_acqusitions"
MF = "mfpml.optimization.mf_acqusitions"
GP = "mfpml.models.gaussian_process"
HK = "mfpml.models.hierarchical_kriging"
EPS = 2.220446049250313e-16
REG = 1e-9           # regularisation of the deviation in the single-fidelity formulas


def rows(ctx, x, d):
    x = ctx.np.reshape(ctx.np.array(x), (-1, d))
    return [[x[i, j] for j in range(d)] for i in range(x.shape[0])]


class Field:
    """an arbitrary prediction field: mean and deviation per point"""

    def __init__(self, ctx, name, d, smax=3):
        self.ctx, self.d = ctx, d
        self.m, self.s = ctx.func(name + "_mean", -4, 4), ctx.func(name + "_std", 0, smax)

    def __call__(self, x, return_std=False):
        np = self.ctx.np
        r = rows(self.ctx, x, self.d)
        mean = np.array([[self.m(*p)] for p in r])
        if not return_std:
            return mean
        return mean, np.array([[self.s(*p)] for p in r])


def sf_surrogate(ctx, name, d, n, box=None):
    base = ctx.load(GP).GaussianProcessRegression
    field = Field(ctx, name, d)

    class Stub(base):
        def predict(self, X, return_std=False):
            return field(X, return_std)
    s = Stub(design_space=ctx.box("box", d) if box is None else box)
    s.sample_x = ctx.array(name + "_x", (n, d))
    s.sample_y = ctx.array(name + "_y", (n, 1), -4, 4)
    s.field = field
    return s


def mf_surrogate(ctx, d, nh, nl):
    base = ctx.load(HK).HierarchicalKriging
    hf, lf = Field(ctx, "hf", d), Field(ctx, "lf", d)
    corr = {k: ctx.func("corr%d" % k, 0, 1) for k in (0, 1)}

    class Stub(base):
        def predict(self, X, return_std=False):
            return hf(X, return_std)

        def predict_lf(self, X, return_std=False):
            return lf(X, return_std)

        def _eval_corr(self, X, Xprime, fidelity=0):
            np = ctx.np
            return np.array([[corr[fidelity](*p, *q) for q in rows(ctx, Xprime, d)] for p in rows(ctx, X, d)])
    s = Stub(design_space=ctx.box("box", d))
    s.sample_xh, s.sample_xl = ctx.array("xh", (nh, d)), ctx.array("xl", (nl, d))
    s.sample_yh, s.sample_yl = ctx.array("yh", (nh, 1), -4, 4), ctx.array("yl", (nl, 1), -4, 4)
    s.beta = ctx.array("beta", (1, 1), -3, 3)
    s.hf, s.lf, s.corr = hf, lf, corr
    return s


def lowest(ctx, y):
    y = ctx.np.reshape(y, (-1,))
    m = y[0]
    for i in range(1, y.shape[0]):
        m = ctx.ite(y[i] < m, y[i], m)
    return m


def improvement(ctx, fmin, m, s, reg):
    z = (fmin - m) / (s + reg)
    return (fmin - m) * ctx.cdf(z) + s * ctx.pdf(z)


def alone_and_closed(ctx, call, X, want, d):
    """the batch value, the value of every point alone, and the closed form agree"""
    np = ctx.np
    X0 = X.copy()
    batch = call(X)
    n = X.shape[0]
    flat = np.reshape(np.array(batch), (-1,))
    ctx.check("one value per point", flat.shape[0] == n)
    for i in range(n):
        w = want([X0[i, j] for j in range(d)])
        ctx.eq("value in a batch", flat[i], w)
        ctx.eq("value alone", np.reshape(np.array(call(X0[i:i + 1])), (-1,)), [w])
    ctx.eq("points unmodified", X, X0)
    ctx.eq("earlier values are kept", np.reshape(batch, (-1,)), flat)
    if n <= 2:
        # the same array object, with other points in it
        Z = ctx.array("Z", X.shape)
        X[...] = Z
        ctx.eq("array refilled with other points", np.reshape(np.array(call(X)), (-1,)), [want([Z[i, j] for j in range(d)]) for i in range(n)])
        X[...] = X0
    return flat


SHAPES = product(n=(1, 2), d=(1, 2))


@case("A01", quick=product(acq=("LCB", "EI", "PI"), n=(1, 3), d=(1, 2), ny=(2,)) + product(acq=("LCB", "EI", "PI"), n=(2,), d=(2,), ny=(3,)) + product(acq=("LCB", "EI", "PI"), n=(6,), d=(1,), ny=(2,)), thorough=product(acq=("LCB", "EI", "PI"), n=(4,), d=(3,), ny=(4,)))
def unconstrained(ctx, acq, n, d, ny):
    m, np = ctx.load(SF), ctx.np
    s = sf_surrogate(ctx, "s", d, ny)
    y0 = s.sample_y.copy()
    fmin = lowest(ctx, s.sample_y)
    if acq == "LCB":
        k = [ctx.real("k0", 0, 3), ctx.real("k1", 0, 3)]
        a = m.LCB(kappa=list(k))
        want = lambda p: k[0] * s.field.m(*p) - k[1] * s.field.s(*p)
    elif acq == "EI":
        a = m.EI()
        want = lambda p: -improvement(ctx, fmin, s.field.m(*p), s.field.s(*p), REG)
    else:
        a = m.PI()
        want = lambda p: -ctx.cdf((fmin - s.field.m(*p)) / (s.field.s(*p) + REG))
    X = ctx.array("X", (n, d))
    alone_and_closed(ctx, lambda x: a.eval(x, s), X, want, d)
    # a single point given as a vector
    ctx.eq("value of a point given as a vector", ctx.np.reshape(ctx.np.array(a.eval(X[0], s)), (-1,)), [want([X[0, j] for j in range(d)])])
    ctx.eq("observations unmodified", s.sample_y, y0)
    if n <= 2:
        # the same acquisition object after the surrogate got other observations, and with another surrogate
        s.sample_y = ctx.array("later_y", (ny, 1), -4, 4)
        fmin = lowest(ctx, s.sample_y)
        ctx.eq("after the observations changed", np.reshape(np.array(a.eval(X[:1], s)), (-1,)), [want([X[0, j] for j in range(d)])])
        s = sf_surrogate(ctx, "t", d, ny)
        fmin = lowest(ctx, s.sample_y)
        ctx.eq("with another surrogate", np.reshape(np.array(a.eval(X[:1], s)), (-1,)), [want([X[0, j] for j in range(d)])])


@case("A01", quick=[dict(d=1), dict(d=2)])
def default_weights(ctx, d):
    m = ctx.load(SF)
    s = sf_surrogate(ctx, "s", d, 2)
    X = ctx.array("X", (1, d))
    p = [X[0, j] for j in range(d)]
    ctx.eq("default weights of LCB", ctx.np.reshape(m.LCB().eval(X, s), (-1,)), [s.field.m(*p) - ctx.frac(196, 100) * s.field.s(*p)])


def constraints(ctx, d, nc, n, box=None):
    return [sf_surrogate(ctx, "g%d" % k, d, n, box) for k in range(nc)]


def satisfied(ctx, cons, i):
    return ctx.conj(*[c.sample_y[i, 0] <= 0 for c in cons])


def best_feasible(ctx, obj, cons):
    """(some row feasible, smallest response among the feasible rows)"""
    n = obj.sample_y.shape[0]
    ok = [satisfied(ctx, cons, i) for i in range(n)]
    best = 1000.0
    for i in range(n):
        y = obj.sample_y[i, 0]
        best = ctx.ite(ctx.conj(ok[i], y < best), y, best)
    return ctx.disj(*ok), best


@case("A03", quick=product(nc=(1, 2), n=(1, 2), d=(1, 2), ny=(2,)) + product(nc=(3,), n=(2,), d=(1,), ny=(1,)) + product(nc=(1,), n=(3,), d=(2,), ny=(3,)), thorough=product(nc=(2,), n=(3,), d=(2,), ny=(3,)) + product(nc=(4,), n=(4,), d=(1,), ny=(1,)))
def constrained(ctx, nc, n, d, ny):
    m = ctx.load(SC)
    box = ctx.box("box", d)
    obj = sf_surrogate(ctx, "o", d, ny, box)
    cons = constraints(ctx, d, nc, ny, box)
    some, fmin = best_feasible(ctx, obj, cons)

    def want(p):
        pof = 1.0
        for c in cons:
            pof = pof * ctx.cdf(-c.field.m(*p) / (c.field.s(*p) + REG))
        return -ctx.ite(some, improvement(ctx, fmin, obj.field.m(*p), obj.field.s(*p), REG), 1.0) * pof
    a = m.CEI()
    X = ctx.array("X", (n, d))
    alone_and_closed(ctx, lambda x: a.eval(x, obj, cons), X, want, d)
    ctx.eq("value of a point given as a vector", ctx.np.reshape(ctx.np.array(a.eval(X[0], obj, cons)), (-1,)), [want([X[0, j] for j in range(d)])])
    if n <= 2:
        # the same acquisition object after the surrogates got other observations
        obj.sample_y = ctx.array("later_y", (ny, 1), -4, 4)
        cons[-1].sample_y = ctx.array("later_g", (ny, 1), -4, 4)
        some, fmin = best_feasible(ctx, obj, cons)
        ctx.eq("after the observations changed", ctx.np.reshape(ctx.np.array(a.eval(X[:1], obj, cons)), (-1,)), [want([X[0, j] for j in range(d)])])


# ---------------------------------------------------------------- multi-fidelity closed forms
def effective_best(ctx, s, d):
    """mean at the sample whose mean plus deviation is smallest"""
    pts = rows(ctx, s.sample_xh, d) + rows(ctx, s.sample_xl, d)
    u = [s.hf.m(*p) + s.hf.s(*p) for p in pts]
    best, val = u[0], s.hf.m(*pts[0])
    for v, p in zip(u[1:], pts[1:]):
        val = ctx.ite(v < best, s.hf.m(*p), val)
        best = ctx.ite(v < best, v, best)
    return val


def likeness(ctx, s, p, fid):
    if fid == 0:
        return 1.0
    return s.lf.s(*p) / (ctx.absv(s.hf.m(*p) - s.lf.m(*p)) + s.hf.s(*p))


def make(ctx, acq, s, d):
    """(acquisition object, call(x, fidelity), closed form(p, fidelity), keyword arguments of query)"""
    m = ctx.load(MF)
    cr, fmin = ctx.real("cost", 1, 10), ctx.real("fmin", -4, 4)
    hf, lf = s.hf, s.lf
    if acq == "AEI":
        a = m.AugmentedEI()

        def want(p, fid):
            fb = effective_best(ctx, s, d)
            ei = ctx.ite(hf.s(*p) < EPS, 0.0, improvement(ctx, fb, hf.m(*p), hf.s(*p), 0.0))
            return -ei * likeness(ctx, s, p, fid) * (1.0 if fid == 0 else cr)
        return a, (lambda x, fid: a.eval(x, s, cr, fid)), want, dict(cost_ratio=cr, fmin=fmin)
    if acq == "VFEI":
        a = m.VFEI()

        def want(p, fid):
            sd = hf.s(*p) if fid == 0 else ctx.absv(s.beta[0, 0]) * lf.s(*p)
            return -ctx.ite(sd < EPS, 0.0, improvement(ctx, fmin, hf.m(*p), sd, 1e-8))
        return a, (lambda x, fid: a.eval(x, fmin, s, fid)), want, dict(cost_ratio=cr, fmin=fmin)
    if acq == "VFLCB":
        k = [ctx.real("k0", 0, 3), ctx.real("k1", 0, 3)]
        a = m.VFLCB(kappa=list(k))

        def want(p, fid):
            return k[0] * hf.m(*p) - k[1] * (hf.s(*p) if fid == 0 else cr * lf.s(*p))
        return a, (lambda x, fid: a.eval(x, s, cr, fid)), want, dict(cost_ratio=cr, fmin=fmin)
    a = m.ExtendedPI()

    def want(p, fid, fmin=fmin):
        pi = ctx.ite(hf.s(*p) < EPS, 0.0, ctx.cdf((fmin - hf.m(*p)) / hf.s(*p)))
        eta = 1.0
        for q in rows(ctx, s.sample_xh if fid == 0 else s.sample_xl, d):
            eta = eta * s.corr[fid](*p, *q)
        return -pi * likeness(ctx, s, p, fid) * (1.0 if fid == 0 else cr) * eta
    return a, (lambda x, fid, f=fmin: a.eval(x, s, f, cr, fid)), want, dict(cost_ratio=cr, fmin=fmin)


ACQS = ("AEI", "VFEI", "VFLCB", "EPI")


@case("A04", quick=product(acq=ACQS, fid=(0, 1), n=(1, 2), d=(1,)) + product(acq=ACQS, fid=(0, 1), n=(2,), d=(2,)), thorough=product(acq=ACQS, fid=(0, 1), n=(3,), d=(2,)))
def multi_fidelity(ctx, acq, fid, n, d):
    s = mf_surrogate(ctx, d, 2, 2 if acq == "EPI" else 1)
    a, call, want, _ = make(ctx, acq, s, d)
    X = ctx.array("X", (n, d))
    alone_and_closed(ctx, lambda x: call(x, fid), X, lambda p: want(p, fid), d)
    ctx.eq("value of a point given as a vector", ctx.np.reshape(ctx.np.array(call(X[0], fid)), (-1,)), [want([X[0, j] for j in range(d)], fid)])
    if n <= 2:
        # the same acquisition object after the surrogate got other samples
        s.sample_xh, s.sample_xl = ctx.array("later_h", s.sample_xh.shape), ctx.array("later_l", s.sample_xl.shape)
        ctx.eq("after the samples changed", ctx.np.reshape(ctx.np.array(call(X[:1], fid)), (-1,)), [want([X[0, j] for j in range(d)], fid)])


# ---------------------------------------------------------------- searches
class UserOptimizer:
    """stand-in for any optimiser of the documented interface: returns some point of the design space it
    is given, with the objective's value there"""

    def __init__(self, ctx):
        self.ctx, self.runs = ctx, []

    def run_optimizer(self, func, num_dim, design_space, print_info=False, save_step_results=False, stopping_error=None, args=()):
        ctx, np = self.ctx, self.ctx.np
        k = len(self.runs)
        ds = np.array(design_space)
        # populations are evaluated several points at a time
        pop = np.array([[ctx.between("pop%d_%d_%d" % (k, i, j), ds[j, 0], ds[j, 1]) for j in range(num_dim)] for i in range(2)])
        vals = np.reshape(np.array(func(pop, *args)), (-1,))
        ctx.check("the objective handed to the optimiser evaluates a population", vals.shape[0] == 2)
        first = vals[0] <= vals[1]
        x = np.array([ctx.ite(first, pop[0, j], pop[1, j]) for j in range(num_dim)])
        y = ctx.ite(first, vals[0], vals[1])
        self.runs.append(dict(fun=func, args=tuple(args), x=x, value=y, bounds=[(ds[j, 0], ds[j, 1]) for j in range(num_dim)], num_dim=num_dim))
        return dict(best_x=x, best_y=y), y, x


def at(ctx, rec, p):
    """the search's objective at one point"""
    v = rec["fun"](ctx.np.array([p]), *rec["args"])
    return ctx.np.reshape(ctx.np.array(v), (-1,))[0]


def probes(ctx, d):
    return [[ctx.real("probe%d_%d" % (i, j), -9, 9) for j in range(d)] for i in range(3)]


def optimises(ctx, rec, value, pts):
    """the search's objective is the function `value` (at arbitrary points)"""
    return all(ctx.provable(ctx.same(at(ctx, rec, p), value(p))) for p in pts)


def over_box(ctx, rec, box):
    return ctx.conj(len(rec["bounds"]) == box.shape[0], *[ctx.conj(ctx.same(lo, box[j, 0]), ctx.same(hi, box[j, 1])) for j, (lo, hi) in enumerate(rec["bounds"])])


def proposal(ctx, recs, x, value, box, d):
    """x is the best result of searches of `value` over the box"""
    x = ctx.np.reshape(ctx.np.array(x), (-1,))
    ctx.check("one location is proposed", x.shape[0] == d)
    for j in range(d):
        ctx.le("proposed point above the lower bound", box[j, 0], x[j])
        ctx.le("proposed point below the upper bound", x[j], box[j, 1])
    pts = probes(ctx, d)
    mine = [r for r in recs if optimises(ctx, r, value, pts)]
    ctx.check("the acquisition itself is searched", len(mine) > 0)
    for r in mine:
        ctx.check("the whole design space is searched", over_box(ctx, r, box))
    ctx.check("the proposed point is the best result of the searches", ctx.disj(*[
        ctx.conj(*[ctx.same(x[j], r["x"][j]) for j in range(d)], *[ctx.le_(r["value"], o["value"]) for o in mine if o is not r]) for r in mine]))


@case("A02", quick=product(acq=("LCB", "EI", "PI"), d=(1, 2), own=(False, True)))
def suggested(ctx, acq, d, own):
    ctx.search_fun = "eval"
    m = ctx.load(SF)
    opt = UserOptimizer(ctx) if own else None
    s = sf_surrogate(ctx, "s", d, 2)
    other = sf_surrogate(ctx, "t", d, 2, ctx.box("obox", d))
    a = getattr(m, acq)(optimizer=opt)
    for k, sur in enumerate((other, s)):
        seen = len(ctx.env.searches), len(opt.runs) if own else 0
        x = a.query(surrogate=sur)
        recs = opt.runs[seen[1]:] if own else ctx.env.searches[seen[0]:]
        if k:
            proposal(ctx, recs, x, lambda p: ctx.np.reshape(ctx.np.array(a.eval(ctx.np.array([p]), sur)), (-1,))[0], sur.bounds, d)


@case("A02", quick=product(nc=(1, 2), d=(1, 2), own=(False, True)))
def suggested_constrained(ctx, nc, d, own):
    ctx.search_fun = "eval"
    m = ctx.load(SC)
    opt = UserOptimizer(ctx) if own else None
    box = ctx.box("box", d)
    obj, cons = sf_surrogate(ctx, "o", d, 2, box), constraints(ctx, d, nc, 2, box)
    for i in range(2):       # which rows are feasible is not the point here
        for c in cons:
            ctx.assume(c.sample_y[i, 0] <= (0 if i == 0 else 4))
    a = m.CEI(optimizer=opt)
    x = a.query(obj_surrogate=obj, cons_surrogate=cons)
    recs = opt.runs if own else ctx.env.searches
    proposal(ctx, recs, x, lambda p: ctx.np.reshape(ctx.np.array(a.eval(ctx.np.array([p]), obj, cons)), (-1,))[0], box, d)


@case("A05", quick=product(acq=ACQS, d=(1, 2), own=(False,)) + product(acq=ACQS, d=(1,), own=(True,)), thorough=product(acq=ACQS, d=(2,), own=(True,)))
def fidelity_choice(ctx, acq, d, own):
    queried(ctx, acq, d, own, True)


@case("A02", quick=product(acq=ACQS, d=(1, 2), own=(False,)) + product(acq=ACQS, d=(1,), own=(True,)), thorough=product(acq=ACQS, d=(2,), own=(True,)))
def suggested_fidelity(ctx, acq, d, own):
    queried(ctx, acq, d, own, False)


@case("A05", quick=product(acq=ACQS, d=(1,), own=(False, True)), thorough=product(acq=ACQS, d=(3,), own=(False, True)))
def fidelity_tie(ctx, acq, d, own):
    """certain, constant predictions: every point is exactly as good at either fidelity"""
    ctx.search_fun = "eval"
    s = mf_surrogate(ctx, d, 1, 1)
    c = ctx.real("level", -4, 4)
    s.hf.m, s.lf.m = (lambda *p: c), (lambda *p: c + 1.0)
    s.hf.s = s.lf.s = lambda *p: 0.0 * c
    a, call, want, kw = make(ctx, acq, s, d)
    opt = UserOptimizer(ctx) if own else None
    a.optimizer = opt
    x, fid = a.query(mf_surrogate=s, **kw)
    ctx.check("the high fidelity is proposed on a tie", int(fid) == 0)


def queried(ctx, acq, d, own, choice):
    ctx.search_fun = "eval"
    s = mf_surrogate(ctx, d, 1, 1)
    a, call, want, kw = make(ctx, acq, s, d)
    opt = UserOptimizer(ctx) if own else None
    a.optimizer = opt
    x, fid = a.query(mf_surrogate=s, **kw)
    ctx.check("a fidelity is proposed", fid in (0, 1))
    fid = int(fid)
    box = s.bound
    recs = list(ctx.env.searches) + (opt.runs if own else [])
    if acq == "EPI":
        # the improvement is over the best prediction found
        pts = probes(ctx, d)
        pre = [r for r in recs if optimises(ctx, r, lambda p: s.hf.m(*p), pts)]
        ctx.check("the best prediction is searched for", len(pre) == 1)
        ctx.check("the whole design space is searched for the best prediction", over_box(ctx, pre[0], box))
        recs = [r for r in recs if r is not pre[0]]
        value = lambda p, f: want(p, f, pre[0]["value"])
    else:
        value = lambda p, f: want(p, f)
    if not choice:
        proposal(ctx, recs, x, lambda p: value(p, fid), box, d)
        return
    pts = probes(ctx, d)
    found = [[r for r in recs if optimises(ctx, r, lambda p: value(p, f), pts)] for f in (0, 1)]
    ctx.check("both fidelities are searched", bool(found[0]) and bool(found[1]))
    best = [ctx.np.min(ctx.np.array([r["value"] for r in rs])) for rs in found]
    if fid == 0:
        ctx.le("the high fidelity is proposed only when it is at least as good", best[0], best[1])
    else:
        ctx.lt("the low fidelity is proposed only when it is better", best[1], best[0])
    x = ctx.np.reshape(x, (-1,))
    ctx.check("the proposed location belongs to the proposed fidelity", ctx.disj(*[ctx.conj(ctx.same(r["value"], best[fid]), *[ctx.same(x[j], r["x"][j]) for j in range(d)]) for r in found[fid]]))
