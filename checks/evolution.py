"""E01-E05: particle swarm and differential evolution."""
from symx.case import case, product

EA = "mfpml.optimization.evolutionary_algorithms"
ALGOS = ("PSO", "DE/rand/1/bin", "DE/best/1/bin")


class Trace:
    """one run of an optimiser on an arbitrary objective, with everything it evaluated"""

    def __init__(self, ctx, algo, pop, gen, d, stop=False, extra=0, cr=None, again=False, pin=False, slim=0):
        np = ctx.np
        ctx.pinned_draws = pin
        ctx.opaque(1)
        self.ctx, self.pop, self.gen, self.d = ctx, pop, gen, d
        m = ctx.load(EA)
        self.box = ctx.box("b", d)
        self.f = ctx.func("f", -10, 10)
        self.args = tuple(ctx.real("arg%d" % i, -3, 3) for i in range(extra))
        self.xs, self.ys, self.vs, self.seen_args = [], [], [], []
        if algo == "PSO":
            self.rate = ctx.real("vrate", 0, 1, lo_open=True)
            self.opt = m.PSO(num_pop=pop, num_gen=gen, cognition_rate=ctx.real("c1", 0, 3), social_rate=ctx.real("c2", 0, 3), weight=ctx.real("w", 0, 2), max_velocity_rate=self.rate)
        else:
            self.opt = m.DE(num_pop=pop, num_gen=gen, step_size=ctx.real("F", 0, 2), crossover_rate=ctx.real("CR", 0, 1) if cr is None else float(cr), strategy=algo)
        self.stop = (ctx.real("stop", 10, 12, lo_open=True) if stop == "first" else ctx.real("stop", -10, 10)) if stop else None
        if again:
            # the optimiser object has been used before, on another problem
            g = ctx.func("g", -10, 10)
            self.opt.run_optimizer(func=lambda x: np.array([[g(*[x[i, j] for j in range(d)])] for i in range(pop)]), num_dim=d, design_space=ctx.box("prev", d))

        def objective(x, *args):
            self.xs.append(x.copy())
            self.seen_args.append(args)
            if algo == "PSO":
                self.vs.append(self.opt.v.copy())
            y = np.array([[self.f(*[x[i, j] for j in range(d)], *args)] for i in range(x.shape[0])])
            if slim:
                # only one individual ever improves: keeps the number of paths small
                lead = slim - 1
                for i in range(pop):
                    if i != lead:
                        ctx.assume(y[i, 0] >= y[lead, 0] if not self.ys else y[i, 0] >= self.ys[0][i, 0])
            self.ys.append(y.copy())
            return y

        kw = {}
        if stop:
            kw["stopping_error"] = self.stop
        if extra:
            kw["args"] = self.args
        self.results, self.best_y, self.best_x = self.opt.run_optimizer(func=objective, num_dim=d, design_space=self.box.copy(), **kw)
        self.rounds = len(self.ys)           # initial population + generations run


def P(pop, gen, d, algo=ALGOS, **k):
    return product(algo=algo, pop=(pop,), gen=(gen,), d=(d,), **k)


PSO, DES = ALGOS[:1], ALGOS[1:]
SMALL = P(3, 1, 1, PSO) + P(2, 2, 1, PSO) + P(3, 1, 2, PSO) + P(2, 1, 1, PSO, again=(True,)) + P(3, 1, 1, DES, cr=(1,)) + P(3, 1, 2, DES, cr=(1,)) + P(3, 2, 1, DES, cr=(1,), pin=(True,), slim=(1, 3)) + P(3, 3, 1, DES, cr=(1,), pin=(True,), slim=(2,))
BIG = P(3, 2, 1, DES, cr=(1,), pin=(True,)) + P(2, 3, 1, DES[1:], cr=(1,), pin=(True,)) +  P(3, 1, 1, DES) + P(4, 1, 1, DES, cr=(1,)) + P(3, 2, 1, PSO) + P(3, 2, 2, PSO) + P(3, 1, 2, DES, cr=(0,)) + P(4, 1, 2, PSO) + P(4, 2, 1, PSO) + P(2, 3, 1, PSO)


@case("E01", quick=SMALL + P(4, 1, 2, PSO) + P(3, 1, 1, DES), thorough=BIG)
def inside(ctx, algo, pop, gen, d, cr=None, again=False, pin=False, slim=0):
    t = Trace(ctx, algo, pop, gen, d, cr=cr, again=again, pin=pin, slim=slim)
    for k, x in enumerate(t.xs):
        for j in range(d):
            ctx.le("evaluated points above the lower bound (round %d)" % k, t.box[j, 0], x[:, j])
            ctx.le("evaluated points below the upper bound (round %d)" % k, x[:, j], t.box[j, 1])
    bx = ctx.np.reshape(t.best_x, (d,))
    for j in range(d):
        ctx.le("best point above the lower bound", t.box[j, 0], bx[j])
        ctx.le("best point below the upper bound", bx[j], t.box[j, 1])


def best_of(t, r0=0, r1=None):
    vals = [y[i, 0] for y in t.ys[r0:r1] for i in range(t.pop)]
    return vals


@case("E02", quick=P(3, 1, 1, PSO, stop=(False, True)) + P(2, 2, 1, PSO, stop=(False, True, "first")) + P(2, 1, 1, PSO, stop=(False,), again=(True,)) + P(3, 1, 1, DES, stop=(False, True), cr=(1,)) + P(3, 2, 1, DES, stop=("first",), cr=(1,)) + P(3, 2, 1, DES, stop=(False, True), cr=(1,), pin=(True,), slim=(1, 3)) + P(3, 3, 1, DES, stop=(False, True), cr=(1,), pin=(True,), slim=(2,)),
      thorough=P(3, 2, 1, DES, stop=(False, True), cr=(1,), pin=(True,)) + P(3, 2, 1, PSO, stop=(False, True)) + P(3, 2, 2, PSO, stop=(False, True)) + P(3, 1, 1, DES, stop=(False, True)) + P(4, 1, 1, DES, stop=(False,), cr=(1,)) + P(2, 3, 1, PSO, stop=(False, True)))
def best_reported(ctx, algo, pop, gen, d, stop, cr=None, again=False, pin=False, slim=0):
    t = Trace(ctx, algo, pop, gen, d, stop, cr=cr, again=again, pin=pin, slim=slim)
    by = ctx.scalar(t.best_y)
    bx = ctx.np.reshape(t.best_x, (d,))
    vals = best_of(t)
    for v in vals:
        ctx.le("best value is no larger than any evaluated value", by, v)
    pts = [x[i] for x in t.xs for i in range(pop)]
    ctx.check("best point and value are an evaluated pair", ctx.disj(*[ctx.conj(ctx.same(by, v), *[ctx.same(bx[j], p[j]) for j in range(d)]) for v, p in zip(vals, pts)]))
    ctx.eq("record's best value", ctx.np.reshape(t.results["best_y"], (-1,)), [by])
    ctx.eq("record's best point", ctx.np.reshape(t.results["best_x"], (-1,)), bx)
    hist = t.results["best_y_historical"]
    for k in range(t.rounds - 1):
        ctx.le("recorded best never increases", hist[k + 1, 0], hist[k, 0])
    hx = t.results["best_x_historical"]
    for k in range(t.rounds):
        for v in best_of(t, 0, k + 1):
            ctx.le("recorded best of a generation is no larger than anything evaluated so far", hist[k, 0], v)
        ctx.eq("recorded best point has the recorded best value", t.f(*[hx[k, j] for j in range(d)]), hist[k, 0])


@case("E03", quick=SMALL, thorough=BIG)
def paired(ctx, algo, pop, gen, d, cr=None, again=False, pin=False, slim=0):
    t = Trace(ctx, algo, pop, gen, d, cr=cr, again=again, pin=pin, slim=slim)
    X, Y = t.results["all_samples"], t.results["all_responses"]
    ctx.shape("recorded samples", X, (gen + 1, pop, d))
    ctx.shape("recorded responses", Y, (gen + 1, pop, 1))
    ctx.eq("initial population recorded", X[0], t.xs[0])
    for k in range(gen + 1):
        for i in range(pop):
            ctx.eq("recorded response is the recorded point's value", Y[k, i, 0], t.f(*[X[k, i, j] for j in range(d)]))
    if algo == "PSO":
        for k in range(gen + 1):
            ctx.eq("recorded swarm is the evaluated swarm", X[k], t.xs[k])
        for i in range(pop):
            pb = t.opt.pop_best[i, 0]
            px = t.opt.pop_best_x[i]
            for k in range(gen + 1):
                ctx.le("remembered best is no larger than any value visited", pb, t.ys[k][i, 0])
            ctx.check("remembered best is a visited point with its value", ctx.disj(*[ctx.conj(ctx.same(pb, t.ys[k][i, 0]), *[ctx.same(px[j], t.xs[k][i, j]) for j in range(d)]) for k in range(gen + 1)]))
        return
    for k in range(gen):
        for i in range(pop):
            ctx.le("an individual's value never increases", Y[k + 1, i, 0], Y[k, i, 0])
            better = t.ys[k + 1][i, 0] < Y[k, i, 0]
            for j in range(d):
                want = ctx.ite(better, t.xs[k + 1][i, j], X[k, i, j])
                ctx.eq("replaced exactly when the trial is strictly better", X[k + 1, i, j], want)


@case("E04", quick=P(3, 1, 1, PSO, stop=(False,), extra=(0, 2)) + P(2, 2, 1, PSO, stop=(False, True), extra=(0, 1)) + P(2, 1, 1, PSO, stop=(True,), extra=(0,), again=(True,)) + P(3, 1, 1, DES, stop=(False,), extra=(0, 2), cr=(1,)) + P(3, 1, 1, DES, stop=(True,), extra=(0,), cr=(1,)) + P(3, 2, 1, DES, stop=("first",), extra=(1,), cr=(1,)) + P(3, 2, 1, DES, stop=(True,), extra=(0,), cr=(1,), pin=(True,), slim=(1, 3)) + P(3, 3, 1, DES, stop=(False, True), extra=(0,), cr=(1,), pin=(True,), slim=(2,)),
      thorough=P(3, 2, 1, DES, stop=(True,), extra=(0,), cr=(1,), pin=(True,)) + product(algo=PSO, pop=(2, 3), gen=(3,), d=(1, 2), stop=(False, True), extra=(0,)) + P(3, 1, 1, DES, stop=(True,), extra=(1,)))
def budget(ctx, algo, pop, gen, d, stop, extra, cr=None, again=False, pin=False, slim=0):
    t = Trace(ctx, algo, pop, gen, d, stop, extra, cr=cr, again=again, pin=pin, slim=slim)
    for x in t.xs:
        ctx.shape("one row per individual", x, (pop, d))
    for a in t.seen_args:
        ctx.check("number of extra arguments", len(a) == extra)
        for u, v in zip(a, t.args):
            ctx.eq("extra arguments unchanged", u, v)
    if not stop:
        ctx.check("one evaluation per individual and generation", t.rounds == gen + 1)
        return
    # best of all evaluations after generation k
    best = [ctx.np.min(ctx.np.array(best_of(t, 0, k + 1))) for k in range(t.rounds)]
    for k in range(1, t.rounds - 1):
        ctx.le("not continued past a generation below the threshold", t.stop, best[k])
    ctx.check("at least one generation", t.rounds >= 2)
    ctx.check("no more than the requested generations", t.rounds <= gen + 1)
    if t.rounds < gen + 1:
        ctx.lt("stopped early only below the threshold", best[-1], t.stop)


@case("E05", quick=P(2, 1, 1, PSO) + P(2, 2, 1, PSO) + P(2, 1, 2, PSO) + P(3, 1, 2, PSO), thorough=P(2, 2, 2, PSO) + P(3, 3, 1, PSO))
def velocity(ctx, algo, pop, gen, d):
    t = Trace(ctx, algo, pop, gen, d)
    for k in range(t.rounds):
        for j in range(d):
            vmax = t.rate * (t.box[j, 1] - t.box[j, 0])
            ctx.le("velocity limit (upper)", t.vs[k][:, j], vmax)
            ctx.le("velocity limit (lower)", -vmax, t.vs[k][:, j])
    for k in range(1, t.rounds):
        for i in range(pop):
            for j in range(d):
                x0, x1, v = t.xs[k - 1][i, j], t.xs[k][i, j], t.vs[k][i, j]
                inb = ctx.conj(x0 + v >= t.box[j, 0], x0 + v <= t.box[j, 1])
                ctx.check("moves by its velocity unless it would leave", ctx.implies(inb, ctx.same(x1, x0 + v)))


# ---------------------------------------------------------------- E06, E07
def make(ctx, algo, pop, gen, cr=None):
    m = ctx.load(EA)
    if algo == "PSO":
        return m.PSO(num_pop=pop, num_gen=gen, cognition_rate=ctx.real("c1", 0, 3), social_rate=ctx.real("c2", 0, 3), weight=ctx.real("w", 0, 2), max_velocity_rate=ctx.real("vrate", 0, 1, lo_open=True))
    return m.DE(num_pop=pop, num_gen=gen, step_size=ctx.real("F", 0, 2), crossover_rate=ctx.real("CR", 0, 1) if cr is None else float(cr), strategy=algo)


def run(ctx, opt, box, d, seed, name="f", look=None, **kw):
    """one seeded run -> (record, value, point, everything evaluated)"""
    np = ctx.np
    f, asked = ctx.func(name, -10, 10), []

    def objective(x):
        if look is not None:
            look(len(asked))
        asked.append(x.copy())
        return np.array([[f(*[x[i, j] for j in range(d)])] for i in range(x.shape[0])])
    np.random.seed(seed)
    return opt.run_optimizer(func=objective, num_dim=d, design_space=box, **kw) + (asked,)


RECORD = ("best_x_historical", "best_y_historical", "all_samples", "all_responses")


def copied(r):
    return dict((k, r[0][k].copy()) for k in ("best_x", "best_y") + RECORD), ctx_copy(r[1]), r[2].copy(), [x.copy() for x in r[3]]


def ctx_copy(v):
    return v.copy() if hasattr(v, "copy") else v


def same_run(ctx, label, a, b):
    for k in ("best_x", "best_y") + RECORD:
        ctx.eq(label + ": " + k, a[0][k], b[0][k])
    ctx.eq(label + ": returned value", ctx.np.reshape(a[1], (-1,)), ctx.np.reshape(b[1], (-1,)))
    ctx.eq(label + ": returned point", a[2], b[2])
    ctx.check(label + ": number of evaluations", len(a[3]) == len(b[3]))
    for x, y in zip(a[3], b[3]):
        ctx.eq(label + ": evaluated points", x, y)


FEW = P(2, 1, 1, PSO) + P(2, 2, 1, PSO) + P(2, 1, 2, PSO) + P(3, 1, 1, DES, cr=(1,)) + P(3, 1, 2, DES, cr=(1,))
FEWER = P(3, 1, 1, PSO) + P(3, 1, 2, PSO) + P(3, 2, 1, PSO) + P(3, 1, 1, DES) + P(4, 1, 1, DES, cr=(1,))


@case("E06", quick=[dict(p, stop=s) for p in FEW for s in (False, True)], thorough=[dict(p, stop=s) for p in FEWER for s in (False, True)])
def progress(ctx, algo, pop, gen, d, stop, cr=None):
    """the file of step results, and runs with and without progress output"""
    ctx.opaque(1)
    box = ctx.box("b", d)
    kw = dict(stopping_error=ctx.real("stop", -10, 10)) if stop else {}
    a = run(ctx, make(ctx, algo, pop, gen, cr), box.copy(), d, 3, **kw)
    ctx.check("nothing is saved unless asked for", ctx.saved_names() == [])
    keep = copied(a)
    states, opt = [], make(ctx, algo, pop, gen, cr)

    def look(k):
        # before the evaluations of generation k the file holds the generations up to k - 1
        if k > 1:
            check_file(k - 1)

    def check_file(k):
        s = ctx.saved("step_results.pickle")
        ctx.check("the results of a finished generation are saved", s is not None)
        if s is None:
            return
        for q in RECORD:
            ctx.shape("saved " + q, s[q], keep[0][q].shape)
            ctx.eq("saved %s up to this generation" % q, s[q][:k + 1], keep[0][q][:k + 1])
        ctx.eq("saved design space", s["design_space"], box)
        ctx.check("saved sizes", s["pop"] == pop and s["gen"] == gen)
    b = run(ctx, opt, box.copy(), d, 3, look=look, save_step_results=True, **kw)
    check_file(len(b[3]) - 1)
    ctx.check("only that file is written", ctx.saved_names() == ["step_results.pickle"])
    same_run(ctx, "saving changes nothing", b, keep)
    c = run(ctx, opt, box.copy(), d, 3, print_info=True, **kw)
    same_run(ctx, "printing changes nothing", c, keep)
    same_run(ctx, "earlier records are kept", a, keep)


@case("E07", quick=FEW, thorough=FEWER)
def reproducible(ctx, algo, pop, gen, d, cr=None):
    """a run is determined by the seed of the generator, whatever the optimiser was used for before"""
    ctx.opaque(1)
    box = ctx.box("b", d)
    seed = ctx.choose("seed", [0, 11])
    first = make(ctx, algo, pop, gen, cr)
    given = box.copy()
    a = run(ctx, first, given, d, seed)
    ctx.eq("design space unmodified", given, box)
    keep = copied(a)
    ctx.np.random.random(3)
    second = make(ctx, algo, pop, gen, cr)
    b = run(ctx, second, box.copy(), d, seed)
    same_run(ctx, "another optimiser object", b, keep)
    ctx.np.random.random((1, 2))
    # one single point and a constant objective: these runs do not branch
    for k in (d, d + 1):
        second.run_optimizer(func=lambda x: ctx.np.array([[20.0 + k]] * x.shape[0]), num_dim=k, design_space=ctx.np.array([[30.0 + k, 30.0 + k]] * k))
    same_run(ctx, "earlier records after another problem", b, keep)
    if (pop, gen, d) == (2, 1, 1):
        run(ctx, second, ctx.box("other", d), d, seed + 1, name="g")
        same_run(ctx, "earlier records after another problem", b, keep)
    same_run(ctx, "the same object again", run(ctx, first, box.copy(), d, seed), keep)
    same_run(ctx, "after another problem", run(ctx, second, box.copy(), d, seed), keep)
    same_run(ctx, "earlier records are kept", a, keep)
