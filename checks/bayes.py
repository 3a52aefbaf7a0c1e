"""B01-B04: Bayesian optimisation loops.  Objective, constraints and the acquisition's proposals are
arbitrary; the surrogates only record what they are trained on (training itself: G01-G07)."""
from symx.case import case, product

OPT = "mfpml.optimization."
FUN = "mfpml.problems.functions"
MFF = "mfpml.problems.mf_functions"
GP = "mfpml.models.gaussian_process"
MFGP = "mfpml.models.mf_gaussian_process"
CK = "mfpml.models.co_kriging"


def rows(ctx, x, d):
    return [[x[i, j] for j in range(d)] for i in range(x.shape[0])]


def record_training(ctx):
    """surrogates remember their data instead of fitting it"""
    def train(self, X, Y):
        self.seen = [ctx.np.array(X), ctx.np.reshape(ctx.np.array(Y), (-1, 1))]
        self.sample_x, self.sample_y, self.num_samples = X, Y.reshape(-1, 1), X.shape[0]
    ctx.load(GP).GaussianProcessRegression.train = train

    def mftrain(self, samples, responses):
        self.seen = [ctx.np.array(x) for x in samples], [ctx.np.array(y) for y in responses]
        self.sample_xh, self.sample_xl = samples
        self.sample_yh, self.sample_yl = responses
    ctx.load(MFGP)._mfGaussianProcess.train = mftrain
    ctx.load(CK).CoKriging.train = mftrain


class Calls:
    """an arbitrary function of a point, with a record of the points it was asked for"""

    def __init__(self, ctx, name, d, cols=1, known=None):
        self.ctx, self.d, self.asked = ctx, d, []
        self.fs = [ctx.func("%s%d" % (name, k), -6, 6) for k in range(cols)]

    def row(self, p):
        return [f(*p) for f in self.fs]

    def __call__(self, x, *a, **k):
        np = self.ctx.np
        r = rows(self.ctx, np.reshape(np.array(x), (-1, self.d)), self.d)
        self.asked.extend(r)
        return np.array([self.row(p) for p in r])


def objective(ctx, d, optimum, cons=0):
    f, g = Calls(ctx, "f", d), Calls(ctx, "g", d, cons) if cons else None

    class Problem(ctx.load(FUN).Functions):
        num_dim = d
        num_cons = cons

        def f(self, x):
            return f(x)

        def f_cons(self, x):
            return g(x)
    p = Problem()
    p.input_domain = ctx.box("box", d)
    p.optimum = optimum
    return p, f, g


class Proposals:
    """stand-in acquisition: proposes arbitrary points of the box"""

    def __init__(self, ctx, box, flat, on_query=None):
        self.ctx, self.box, self.flat, self.made, self.on_query = ctx, box, flat, [], on_query

    def point(self):
        ctx, d = self.ctx, self.box.shape[0]
        k = len(self.made)
        x = [ctx.between("q%d_%d" % (k, j), self.box[j, 0], self.box[j, 1]) for j in range(d)]
        self.made.append(x)
        return ctx.np.array(x) if self.flat else ctx.np.array([x])

    def query(self, *a, **k):
        if self.on_query:
            self.on_query(*a, **k)
        return self.point()


def smallest(ctx, ys):
    m = ys[0]
    for y in ys[1:]:
        m = ctx.ite(y < m, y, m)
    return m


def known_optimum(ctx, kind):
    return None if kind is None else 0.0 if kind == "zero" else ctx.real("optimum", -6, 6) if kind == "any" else ctx.real("optimum", 1, 6)


def sf_run(ctx, n, its, d, optimum=None, target=None, flat=True, runs=1, seed=7, check=None):
    record_training(ctx)
    m = ctx.load(OPT + "sf_uncons_bo")
    prob, f, _ = objective(ctx, d, optimum)

    def trained(surrogate=None, **k):
        # at every query the surrogate has seen everything recorded so far
        ctx.eq("surrogate trained on all samples", surrogate.seen[0], bo.sample)
        ctx.eq("surrogate trained on all responses", surrogate.seen[1], bo.response)
    acq = Proposals(ctx, prob.input_domain, flat, trained)
    bo = m.BayesUnConsOpt(problem=prob, acquisition=acq, num_init=n, seed=seed)
    init = [list(p) for p in f.asked]
    out = None
    for _ in range(runs):
        kw = {} if target is None else dict(stopping_error=target)
        out = bo.run_optimizer(max_iter=its, **kw)
    return bo, prob, f, acq, init, out


B1 = [dict(n=1, its=1, d=1), dict(n=2, its=1, d=2), dict(n=2, its=2, d=1), dict(n=3, its=1, d=1), dict(n=1, its=1, d=1, runs=2), dict(n=2, its=1, d=2, flat=False), dict(n=2, its=0, d=1)]


@case("B01", quick=B1, thorough=[dict(n=3, its=2, d=2), dict(n=2, its=3, d=1), dict(n=1, its=2, d=1, runs=2)])
def records(ctx, n, its, d, flat=True, runs=1):
    bo, prob, f, acq, init, out = sf_run(ctx, n, its, d, flat=flat, runs=runs)
    total = n + its * runs
    ctx.check("initial design has the requested size", len(init) == n)
    pts = init + acq.made
    ctx.check("every proposal is made once", len(acq.made) == its * runs)
    ctx.shape("samples", bo.sample, (total, d))
    ctx.shape("responses", bo.response, (total, 1))
    ctx.eq("samples are the evaluated points in order", bo.sample, pts)
    ctx.eq("every point is evaluated exactly once", f.asked, pts)
    ys = [f.row(p)[0] for p in pts]
    ctx.eq("responses are the objective values", bo.response[:, 0], ys)
    for i, p in enumerate(init):
        for j in range(d):
            ctx.le("initial sample above the lower bound", prob.input_domain[j, 0], p[j])
            ctx.le("initial sample below the upper bound", p[j], prob.input_domain[j, 1])
    ctx.eq("surrogate trained on all samples", bo.surrogate.seen[0], bo.sample)
    ctx.eq("surrogate trained on all responses", bo.surrogate.seen[1], bo.response)
    best = smallest(ctx, ys)
    ctx.eq("best value is the smallest response", bo.best, best)
    bx = ctx.np.reshape(ctx.np.array(bo.best_x), (-1,))
    ctx.check("one best point", bx.shape[0] == d)
    ctx.check("best point has the best value", ctx.disj(*[ctx.conj(ctx.same(y, best), *[ctx.same(bx[j], p[j]) for j in range(d)]) for p, y in zip(pts, ys)]))
    ctx.eq("returned value", out[0], bo.best)
    ctx.eq("returned point", ctx.np.reshape(ctx.np.array(out[1]), (-1,)), bx)
    ctx.check("one history entry per iteration", len(bo.history_best) == 1 + its * runs and len(bo.history_best_x) == 1 + its * runs)
    for k, h in enumerate(bo.history_best):
        ctx.eq("history entry is the best value so far", h, smallest(ctx, ys[:n + k]))
    for a, b in zip(bo.history_best, bo.history_best[1:]):
        ctx.le("history never increases", b, a)


# ---------------------------------------------------------------- constrained
def cons_run(ctx, n, its, d, nc, optimum=None, target=None, flat=True):
    record_training(ctx)
    m = ctx.load(OPT + "sf_cons_bo")
    prob, f, g = objective(ctx, d, optimum, nc)

    def trained(obj_surrogate=None, cons_surrogate=None, **k):
        seen(ctx, bo, obj_surrogate, cons_surrogate, nc)
    acq = Proposals(ctx, prob.input_domain, flat, trained)
    bo = m.BayesConsOpt(problem=prob, acquisition=acq, num_init=n, seed=7)
    init = [list(p) for p in f.asked]
    kw = {} if target is None else dict(stopping_error=target)
    out = bo.run_optimizer(max_iter=its, **kw)
    return bo, prob, f, g, acq, init, out


def seen(ctx, bo, obj, cons, nc):
    ctx.eq("objective surrogate trained on all samples", obj.seen[0], bo.sample)
    ctx.eq("objective surrogate trained on all responses", obj.seen[1], bo.obj_response)
    ctx.check("one surrogate per constraint", len(cons) == nc)
    for k in range(nc):
        ctx.eq("constraint surrogate trained on all samples", cons[k].seen[0], bo.sample)
        ctx.eq("constraint surrogate trained on its own responses", cons[k].seen[1][:, 0], bo.cons_response[:, k])


@case("B02", quick=[dict(n=1, its=1, d=1, nc=1), dict(n=2, its=1, d=1, nc=1), dict(n=1, its=1, d=2, nc=2), dict(n=2, its=0, d=1, nc=2), dict(n=1, its=2, d=1, nc=1), dict(n=1, its=1, d=1, nc=2, flat=False), dict(n=1, its=1, d=1, nc=3)],
      thorough=[dict(n=2, its=1, d=1, nc=2), dict(n=3, its=1, d=1, nc=1), dict(n=2, its=2, d=2, nc=1), dict(n=1, its=1, d=1, nc=3)])
def feasible_best(ctx, n, its, d, nc, flat=True):
    bo, prob, f, g, acq, init, out = cons_run(ctx, n, its, d, nc, flat=flat)
    total = n + its
    pts = init + acq.made
    ctx.check("every proposal is made once", len(acq.made) == its and len(init) == n)
    ctx.eq("samples are the evaluated points in order", bo.sample, pts)
    ctx.eq("every point's objective is evaluated exactly once", f.asked, pts)
    ctx.eq("every point's constraints are evaluated exactly once", g.asked, pts)
    ys, cs = [f.row(p)[0] for p in pts], [g.row(p) for p in pts]
    ctx.eq("objective responses row-aligned", bo.obj_response[:, 0], ys)
    ctx.eq("constraint responses row-aligned", bo.cons_response, cs)
    seen(ctx, bo, bo.obj_surrogate, bo.cons_surrogates, nc)
    ok = [ctx.conj(*[c <= 0 for c in row]) for row in cs]
    ctx.check("one history entry per iteration", len(bo.history_best) == 1 + its and len(bo.history_best_x) == 1 + its)
    for k, (h, hx) in enumerate(list(zip(bo.history_best, bo.history_best_x)) + [(bo.best, bo.best_x), (out[0], out[1])]):
        m = min(n + k, total)
        if hx is None:
            ctx.check("no best point only when none is feasible", ctx.neg(ctx.disj(*ok[:m])))
            ctx.check("infinite best value when none is feasible", h == float("inf"))
            continue
        hx = ctx.np.reshape(ctx.np.array(hx), (-1,))
        ctx.check("one best point", hx.shape[0] == d)
        ctx.check("best point is feasible and has the best value", ctx.disj(*[ctx.conj(ok[i], ctx.same(h, ys[i]), *[ctx.same(hx[j], pts[i][j]) for j in range(d)]) for i in range(m)]))
        for i in range(m):
            ctx.check("no feasible point is better", ctx.implies(ok[i], ctx.le_(h, ys[i])))


# ---------------------------------------------------------------- multi-fidelity
class MFProposals(Proposals):
    def __init__(self, ctx, box, fids, on_query=None):
        super().__init__(ctx, box, False, on_query)
        self.fids = list(fids)

    def query(self, *a, **k):
        if self.on_query:
            self.on_query(*a, **k)
        fid = self.fids[len(self.made)] if len(self.made) < len(self.fids) else 0
        return self.point(), fid


def mf_run(ctx, nh, nl, its, d, fids, surrogate="HierarchicalKriging", optimum=None, target=None, default=False):
    record_training(ctx)
    m = ctx.load(OPT + "mf_uncons_bo")
    hf, lf = Calls(ctx, "hf", d), Calls(ctx, "lf", d)

    class Problem(ctx.load(MFF).MultiFidelityFunctions):
        num_dim = d

        def hf(self, x):
            return hf(x)

        def lf(self, x, factor=None):
            return lf(x)
    prob = Problem()
    prob.input_domain = ctx.box("box", d)
    prob.optimum = optimum

    def trained(mf_surrogate=None, cost_ratio=None, fmin=None, **k):
        seen_mf(ctx, bo, mf_surrogate)
        ctx.eq("the acquisition is given the best value so far", fmin, bo.best)
        if cost is not None:
            ctx.eq("the acquisition is given the cost ratio", cost_ratio, cost)
    acq = MFProposals(ctx, prob.input_domain, fids, trained)
    bo = m.mfUnConsBayesOpt(problem=prob, acquisition=acq, num_init=[nh, nl], surrogate_name=surrogate, seed=3, verbose=False)
    init = [list(p) for p in hf.asked], [list(p) for p in lf.asked]
    cost = None if default else ctx.real("cost", 1, 9)
    kw = {} if target is None else dict(stopping_error=target)
    if cost is not None:
        kw["cost_ratio"] = cost
    bo.run_optimizer(max_iter=its, **kw)
    return bo, prob, (hf, lf), acq, init


def seen_mf(ctx, bo, s):
    for k, name in ((0, "high"), (1, "low")):
        ctx.eq("surrogate trained on all %s-fidelity samples" % name, s.seen[0][k], bo.sample[k])
        ctx.eq("surrogate trained on all %s-fidelity responses" % name, s.seen[1][k], bo.response[k])


@case("B03", quick=[dict(nh=1, nl=2, d=1, fids=(0,)), dict(nh=1, nl=2, d=1, fids=(1,)), dict(nh=2, nl=2, d=1, fids=(0, 1)), dict(nh=1, nl=1, d=2, fids=(1, 0)), dict(nh=1, nl=2, d=1, fids=(0, 0)), dict(nh=1, nl=1, d=1, fids=(1, 1)),
                    dict(nh=1, nl=2, d=2, fids=(0,), surrogate="ScaledKriging"), dict(nh=1, nl=2, d=2, fids=(1,), surrogate="CoKriging")],
      thorough=[dict(nh=2, nl=3, d=2, fids=(0, 1, 0)), dict(nh=1, nl=2, d=1, fids=(1, 0, 1)), dict(nh=1, nl=1, d=1, fids=(1, 1, 0, 0))])
def fidelities(ctx, nh, nl, d, fids, surrogate="HierarchicalKriging"):
    its = len(fids)
    bo, prob, fs, acq, init = mf_run(ctx, nh, nl, its, d, fids, surrogate)
    ctx.check("initial sizes", len(init[0]) == nh and len(init[1]) == nl)
    ctx.check("every proposal is made once", len(acq.made) == its)
    pts = [init[k] + [x for x, fid in zip(acq.made, fids) if fid == k] for k in (0, 1)]
    for k, name in ((0, "high"), (1, "low")):
        ctx.eq("%s-fidelity samples" % name, bo.sample[k], pts[k])
        ctx.eq("every point is evaluated exactly once, with its own fidelity (%s)" % name, fs[k].asked, pts[k])
        ctx.eq("%s-fidelity responses" % name, bo.response[k][:, 0], [fs[k].row(p)[0] for p in pts[k]])
        for p in init[k]:
            for j in range(d):
                ctx.le("initial sample above the lower bound", prob.input_domain[j, 0], p[j])
                ctx.le("initial sample below the upper bound", p[j], prob.input_domain[j, 1])
    seen_mf(ctx, bo, bo.surrogate)
    ys = [fs[0].row(p)[0] for p in pts[0]]
    ctx.eq("queried fidelities are recorded", list(bo.fidelity_query_order), list(fids))
    ctx.check("one history entry per iteration", len(bo.history_best) == 1 + its and len(bo.history_best_x) == 1 + its)
    m = nh
    for k, (h, hx) in enumerate(list(zip(bo.history_best, bo.history_best_x)) + [(bo.best, bo.best_x)]):
        if 0 < k <= its and fids[k - 1] == 0:
            m += 1
        ctx.eq("best value is the smallest high-fidelity response so far", h, smallest(ctx, ys[:m]))
        hx = ctx.np.reshape(ctx.np.array(hx), (-1,))
        ctx.check("one best point", hx.shape[0] == d)
        ctx.check("best point is a high-fidelity sample with the best value", ctx.disj(*[ctx.conj(ctx.same(h, ys[i]), *[ctx.same(hx[j], pts[0][i][j]) for j in range(d)]) for i in range(m)]))


# ---------------------------------------------------------------- stopping
def stops(ctx, bests, its, optimum, target):
    """bests: best value before the run and after each iteration"""
    k = len(bests) - 1
    ctx.check("no more iterations than the budget", k <= its)

    def met(b):
        if optimum is None or isinstance(b, float) and b == float("inf"):
            return False
        gap = ctx.absv(b - optimum)
        rel = gap < target * ctx.absv(optimum)
        return ctx.ite(ctx.conj(optimum != 0), rel, gap < target) if not isinstance(optimum, float) else (gap < target)
    for b in bests[:-1]:
        ctx.check("does not continue once the target is met", ctx.neg(met(b)))
    if k < its:
        ctx.check("stops early only when the target is met", met(bests[-1]))


STOP = [dict(optimum=None, target="any"), dict(optimum=None, target=None), dict(optimum="any", target="any"), dict(optimum="zero", target="any"), dict(optimum="pos", target=None)]


def target_value(ctx, target):
    return None if target is None else ctx.real("target", 0, 8)


@case("B04", quick=product(kind=("sf", "cons", "mf"), its=(1, 2), stop=(0, 1, 2, 3, 4)) + product(kind=("mf",), its=(2,), stop=(2,), lo=(True,)), thorough=product(kind=("sf", "cons", "mf"), its=(3,), stop=(0, 2, 3)))
def stopping(ctx, kind, its, stop, lo=False):
    o = STOP[stop]
    optimum, target = known_optimum(ctx, o["optimum"]), target_value(ctx, o["target"])
    t = 1.0 if target is None else target
    if kind == "sf":
        bo, prob, f, acq, init, out = sf_run(ctx, 1, its, 1, optimum, target)
        ys = [f.row(p)[0] for p in init + acq.made]
        bests = [smallest(ctx, ys[:1 + k]) for k in range(len(acq.made) + 1)]
    elif kind == "cons":
        bo, prob, f, g, acq, init, out = cons_run(ctx, 1, its, 1, 1, optimum, target)
        ys = [(g.row(p)[0], f.row(p)[0]) for p in init + acq.made]
        bests = []
        for k in range(len(acq.made) + 1):
            bests.append(bo.history_best[k])        # what B02 establishes to be the best feasible value
    else:
        bo, prob, fs, acq, init = mf_run(ctx, 1, 1, its, 1, (1, 0, 0) if lo else (0, 0, 1), optimum=optimum, target=target)
        bests = list(bo.history_best)               # B03: smallest high-fidelity response
    ctx.check("the recorded history covers the run", len(bo.history_best) == len(acq.made) + 1)
    if optimum is None:
        ctx.check("the whole budget is used without a known optimum", len(acq.made) == its)
    stops(ctx, bests, its, optimum, t)


# ---------------------------------------------------------------- reproducibility
def build(ctx, kind, prob, acq, n, seed):
    if kind == "sf":
        return ctx.load(OPT + "sf_uncons_bo").BayesUnConsOpt(problem=prob, acquisition=acq, num_init=n, seed=seed)
    if kind == "cons":
        return ctx.load(OPT + "sf_cons_bo").BayesConsOpt(problem=prob, acquisition=acq, num_init=n, seed=seed)
    return ctx.load(OPT + "mf_uncons_bo").mfUnConsBayesOpt(problem=prob, acquisition=acq, num_init=[n, n + 1], seed=seed, verbose=False)


def record_of(ctx, bo, kind):
    """everything the optimiser reports, as copies"""
    np = ctx.np
    arr = lambda x: None if x is None else np.array(x).copy()
    if kind == "mf":
        r = [arr(x) for x in bo.sample[:2]] + [arr(x) for x in bo.response[:2]] if not isinstance(bo.sample, dict) else [arr(bo.sample[k]) for k in (0, 1)] + [arr(bo.response[k]) for k in (0, 1)]
        r.append(list(bo.fidelity_query_order))
    elif kind == "cons":
        r = [arr(bo.sample), arr(bo.obj_response), arr(bo.cons_response)]
    else:
        r = [arr(bo.sample), arr(bo.response)]
    return r + [bo.best, arr(bo.best_x)] + list(bo.history_best) + [arr(x) for x in bo.history_best_x]


def same_record(ctx, label, a, b):
    ctx.check(label + ": number of entries", len(a) == len(b))
    for x, y in zip(a, b):
        if x is None or y is None or (isinstance(x, float) and x == float("inf")) or (isinstance(y, float) and y == float("inf")):
            ctx.check(label, x is y or (not hasattr(x, "shape") and not hasattr(y, "shape") and x == y))
        else:
            ctx.eq(label, x, y)


@case("B05", quick=product(kind=("sf", "cons", "mf"), n=(1, 2), its=(1,)) + product(kind=("sf", "mf"), n=(1,), its=(2,)), thorough=product(kind=("sf", "cons", "mf"), n=(2,), its=(2,)))
def reproducible(ctx, kind, n, its):
    """same problem, settings, seed and proposals: same run, whatever happened before or in between"""
    record_training(ctx)
    d = 1
    if kind == "mf":
        hf, lf = Calls(ctx, "hf", d), Calls(ctx, "lf", d)

        class Problem(ctx.load(MFF).MultiFidelityFunctions):
            num_dim = d

            def hf(self, x):
                return hf(x)

            def lf(self, x, factor=None):
                return lf(x)
        prob = Problem()
        prob.input_domain = ctx.box("box", d)
        prob.optimum = None
    else:
        prob = objective(ctx, d, None, 1 if kind == "cons" else 0)[0]
    box = prob.input_domain.copy()
    seed = ctx.choose("seed", [0, 5])
    fids = [1, 0][:its]
    acq = lambda: MFProposals(ctx, box, fids) if kind == "mf" else Proposals(ctx, box, False)
    a = build(ctx, kind, prob, acq(), n, seed)
    ctx.np.random.random(2)
    b = build(ctx, kind, prob, acq(), n, seed)
    a.run_optimizer(max_iter=its)
    ra = record_of(ctx, a, kind)
    ctx.np.random.seed(9)
    ctx.np.random.random((1, 3))
    b.run_optimizer(max_iter=its)
    rb = record_of(ctx, b, kind)
    same_record(ctx, "run of an optimiser created before the other ran", rb, ra)
    build(ctx, kind, prob, acq(), n + 1, seed + 1)
    c = build(ctx, kind, prob, acq(), n, seed)
    c.run_optimizer(max_iter=its)
    same_record(ctx, "run of an optimiser created afterwards", record_of(ctx, c, kind), ra)
    same_record(ctx, "records of the first run are kept", record_of(ctx, a, kind), ra)
    ctx.eq("domain of the problem unmodified", prob.input_domain, box)
