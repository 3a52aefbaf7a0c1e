"""Environment stubs shared by the symbolic and the concrete (replay) mode.

Randomness and the numerical searches are nondeterministic: they return arbitrary values
constrained only by their documented contract.  A stub asks the context for named values,
so the symbolic run and the replay of a counterexample see the same outcomes.

  random generators   a draw is a function of (seed, position in the stream); an unseeded
                      generator starts in an arbitrary state
  LatinHypercube      (n, d) points of [0,1); with `ctx.lhs_stratified`, one per 1/n slice
  Sobol               the i-th point of a (seed, d) sequence in [0,1)^d
  minimize, differential_evolution, ...   some point within the bounds; fun is the objective
                      there (or an arbitrary number / a constant, as the harness selects)
"""


class OptResult(dict):
    """result of a search; whether it reports convergence is decided when somebody asks"""
    _lazy = None

    def __missing__(self, n):
        if self._lazy is not None and n in self._lazy:
            self[n] = self._lazy[n](self)
            return self[n]
        raise KeyError(n)

    def get(self, n, default=None):
        try:
            return self[n]
        except KeyError:
            return default

    def __contains__(self, n):
        return dict.__contains__(self, n) or (self._lazy is not None and n in self._lazy)

    def __setattr__(self, n, v):
        if n == "_lazy":
            dict.__setattr__(self, n, v)
        else:
            self[n] = v

    def __getattr__(self, n):
        try:
            return self[n]
        except KeyError:
            raise AttributeError(n)


class Env:
    def __init__(self, ctx):
        self.ctx = ctx
        self.global_stream = Stream(self, ctx.ambient_state())
        self.searches = []
        self.counts = {}
        self.clock = 0.0
        self.files = {}
        self.dirs = {".", "/"}

    def nth(self, kind):
        n = self.counts.get(kind, 0)
        self.counts[kind] = n + 1
        return n

    # ---------------------------------------------------------- numpy.random
    def np_random(self):
        env = self

        class R:
            pass
        r = R()

        def seed(s=None):
            env.global_stream = Stream(env, env.seedname(s))
        r.seed = seed
        for m in ("random", "rand", "random_sample", "ranf", "sample", "uniform", "choice", "permutation", "shuffle",
                  "randint", "normal", "randn", "standard_normal", "integers"):
            setattr(r, m, (lambda m: lambda *a, **k: getattr(env.global_stream, m)(*a, **k))(m))
        r.RandomState = lambda seed=None: Stream(env, env.seedname(seed))
        r.default_rng = lambda seed=None: seed if isinstance(seed, Stream) else Stream(env, env.seedname(seed, "pcg"))
        r.Generator = Stream
        r.get_state = lambda *a: env.global_stream.state()
        r.set_state = lambda st: setattr(env, "global_stream", st.clone())
        r.mtrand = r
        return r

    def seedname(self, s, kind="mt"):
        if s is None:
            return "%s_unseeded%d" % (kind, self.nth("unseeded"))
        if isinstance(s, Stream):
            return "%s_from_%s" % (kind, s.consume("seed"))
        return "%s%s" % (kind, self.ctx.seedkey(s))

    # ---------------------------------------------------------- scipy.stats.qmc
    def LatinHypercube(self, d, *, scramble=True, centered=False, strength=1, optimization=None, rng=None, seed=None, **k):
        return LHS(self, d, seed if seed is not None else rng, scramble)

    def Sobol(self, d, *, scramble=True, bits=None, seed=None, rng=None, optimization=None, **k):
        return SobolStub(self, d, seed if seed is not None else rng, scramble)

    def Halton(self, d, *, scramble=True, seed=None, rng=None, **k):
        s = SobolStub(self, d, seed if seed is not None else rng, scramble)
        s.kind = "hal"
        return s

    def qmc_scale(self, sample, l_bounds, u_bounds, *, reverse=False):
        np = self.ctx.np
        lo, hi = np.asarray(l_bounds), np.asarray(u_bounds)
        return np.asarray(sample) * (hi - lo) + lo

    # ---------------------------------------------------------- searches
    def _search(self, kind, fun, bounds, args, n, x0=None, callkw=None):
        ctx = self.ctx
        k = self.nth("search")
        pts = []
        np = ctx.np
        if bounds is not None:
            if hasattr(bounds, "lb"):
                blist = [(l, u) for l, u in zip(np.atleast_1d(bounds.lb), np.atleast_1d(bounds.ub))]
            else:
                blist = [(b[0], b[1]) for b in bounds]
        else:
            blist = [(None, None)] * n
        for i, (lo, hi) in enumerate(blist):
            pts.append(ctx.between("%s%d.x%d" % (kind, k, i), lo, hi))
        x = np.array(pts)
        if not isinstance(args, tuple):
            args = (args,)
        rec = dict(kind=kind, fun=fun, bounds=blist, args=args, x=x, x0=x0, kw=callkw or {})
        mode = ctx.search_fun
        if mode == "eval":
            v = fun(x, *args)
            v = ctx.scalar(v)
        elif mode == "free":
            v = ctx.real("%s%d.fun" % (kind, k), -3, 3)
        else:
            v = 0.0
        rec["value"] = v
        self.searches.append(rec)
        if ctx.on_search is not None:
            ctx.on_search(rec)
        r = OptResult(x=x, fun=v, message="stub", nit=1, nfev=1)
        if mode == "free":
            r._lazy = dict(success=lambda r: bool(ctx.bool("%s%d.success" % (kind, k))), status=lambda r: 0 if r["success"] else 2)
        else:
            r["success"], r["status"] = True, 0
        return r

    def minimize(self, fun, x0, args=(), method=None, jac=None, hess=None, hessp=None, bounds=None, constraints=(), tol=None, callback=None, options=None):
        np = self.ctx.np
        x0 = np.asarray(x0)
        return self._search("min", fun, bounds, args, int(x0.size), x0=x0, callkw=dict(method=method))

    def differential_evolution(self, func, bounds, args=(), **k):
        return self._search("de", func, bounds, args, None, callkw=k)

    def dual_annealing(self, func, bounds, args=(), **k):
        return self._search("da", func, bounds, args, None, callkw=k)

    def shgo(self, func, bounds, args=(), **k):
        return self._search("shgo", func, bounds, args, None, callkw=k)

    def minimize_scalar(self, fun, bracket=None, bounds=None, args=(), method=None, **k):
        r = self._search("mins", lambda x, *a: fun(x[0], *a), [tuple(bounds)] if bounds is not None else None, args, 1)
        r["x"] = r["x"][0]
        return r

    # ---------------------------------------------------------- time
    def time(self):
        self.clock += 1.0
        return self.clock


class Stream:
    """a (pseudo) random generator: draws are arbitrary but determined by seed and position"""

    def __init__(self, env, name, pos=0):
        self.env, self.name, self.pos = env, name, pos

    def clone(self):
        return Stream(self.env, self.name, self.pos)

    state = clone

    def consume(self, what, n=1):
        s = "%s.%s%d" % (self.name, what, self.pos)
        self.pos += n
        return s

    def _shape(self, a):
        if a is None:
            return None
        if isinstance(a, (list, tuple)):
            return tuple(int(x) for x in a)
        return (int(a),)

    def _fill(self, shape, fn):
        if shape is None:
            return fn()
        n = 1
        for s in shape:
            n *= s
        np = self.env.ctx.np
        vals = [fn() for _ in range(n)]
        return np.array(vals, dtype=float).reshape(shape) if n else np.zeros(shape)

    def _u(self):
        return self.env.ctx.real(self.consume("u"), 0, 1, hi_open=True)

    def random(self, size=None, **k):
        return self._fill(self._shape(size), self._u)

    random_sample = ranf = sample = random

    def rand(self, *shape):
        return self._fill(tuple(int(s) for s in shape) if shape else None, self._u)

    def uniform(self, low=0.0, high=1.0, size=None):
        np = self.env.ctx.np
        lo, hi = np.asarray(low), np.asarray(high)
        shp = self._shape(size)
        if shp is None and (lo.ndim or hi.ndim):
            shp = (lo + hi).shape
        u = self._fill(shp, self._u)
        return lo + (hi - lo) * u

    def normal(self, loc=0.0, scale=1.0, size=None):
        z = self._fill(self._shape(size), lambda: self.env.ctx.real(self.consume("z"), -4, 4))
        return loc + scale * z

    def standard_normal(self, size=None, **k):
        return self.normal(size=size)

    def randn(self, *shape):
        return self.normal(size=shape if shape else None)

    def randint(self, low, high=None, size=None, **k):
        if high is None:
            low, high = 0, low
        return self._ints(low, high, size, False)

    def integers(self, low, high=None, size=None, endpoint=False, **k):
        if high is None:
            low, high = 0, low
        return self._ints(low, high + (1 if endpoint else 0), size, False)

    def _ints(self, low, high, size, distinct):
        ctx = self.env.ctx
        shp = self._shape(size)
        n = 1
        for s in shp or ():
            n *= s
        if getattr(ctx, "pinned_draws", False):
            # a stated bound: index draws run through one fixed rotation
            span = int(high) - int(low)
            k = self.env.nth("pinned%d" % span) + 1
            names = [self.consume("i") for _ in range(n)]
            vals = [int(low) + (k + i) % span for i in range(len(names))]
            return vals[0] if shp is None else ctx.intarray(vals, shp)
        vals = [ctx.int(self.consume("i"), int(low), int(high) - 1) for _ in range(n)]
        if distinct:
            ctx.distinct(vals)
        if shp is None:
            return vals[0]
        return ctx.intarray(vals, shp)

    def choice(self, a, size=None, replace=True, p=None, **k):
        ctx = self.env.ctx
        np = ctx.np
        arr = None
        if not isinstance(a, int):
            arr = np.asarray(a)
            if arr.ndim == 0:
                n, arr = int(arr), None
            else:
                n = arr.shape[0]
        else:
            n = a
        shp = self._shape(size)
        cnt = 1
        for s in shp or ():
            cnt *= s
        if not replace and cnt > n:
            raise ValueError("Cannot take a larger sample than population when 'replace=False'")
        if n <= 0 and cnt:
            raise ValueError("'a' cannot be empty unless no samples are taken")
        idx = self._ints(0, n, size, not replace)
        if arr is None:
            return idx
        if arr.ndim == 1 and all(int(x) == i for i, x in enumerate(arr)) if arr.dtype.kind in "iu" else False:
            return idx
        return arr[idx]

    def permutation(self, a):
        ctx = self.env.ctx
        if isinstance(a, int):
            return self._ints(0, a, a, True)
        arr = ctx.np.asarray(a)
        return arr[self._ints(0, arr.shape[0], arr.shape[0], True)]

    def shuffle(self, a):
        b = self.permutation(a.copy() if hasattr(a, "copy") else list(a))
        a[:] = b

    def seed(self, s=None):
        self.name, self.pos = self.env.seedname(s), 0


class LHS:
    def __init__(self, env, d, seed, scramble):
        self.env, self.d = env, int(d)
        self.name = env.seedname(seed, "lhs") + "d%d" % self.d
        self.pos = 0

    def random(self, n=1, **k):
        ctx = self.env.ctx
        n = int(n)
        tag = "%s.n%d#%d" % (self.name, n, self.pos)
        self.pos += 1
        rows = [[None] * self.d for _ in range(n)]
        for j in range(self.d):
            if ctx.lhs_stratified:
                if getattr(ctx, "pinned_draws", False):
                    perm = [(i + 1 + j) % n for i in range(n)]
                else:
                    perm = [ctx.int("%s.p%d_%d" % (tag, i, j), 0, n - 1) for i in range(n)]
                    ctx.distinct(perm)
                for i in range(n):
                    w = ctx.real("%s.w%d_%d" % (tag, i, j), 0, 1, hi_open=True)
                    rows[i][j] = (perm[i] + w) / n
            else:
                for i in range(n):
                    rows[i][j] = ctx.real("%s.u%d_%d" % (tag, i, j), 0, 1, hi_open=True)
        np = ctx.np
        return np.array(rows, dtype=float) if n else np.zeros((0, self.d))

    def reset(self):
        self.pos = 0
        return self

    def integers(self, *a, **k):
        raise NotImplementedError


class SobolStub:
    MAXN = 30
    kind = "sob"

    def __init__(self, env, d, seed, scramble):
        self.env, self.d = env, int(d)
        self.seedn = env.seedname(seed, "q") if scramble else "plain"
        self.pos = 0

    def reset(self):
        self.pos = 0
        return self

    def fast_forward(self, n):
        self.pos += int(n)
        return self

    def random(self, n=1, **k):
        n = int(n)
        if self.pos + n > 2 ** self.MAXN:
            raise ValueError("At most 2**30=1073741824 distinct points can be generated")
        ctx = self.env.ctx
        rows = [[ctx.real("%s[%s,d%d].%d_%d" % (self.kind, self.seedn, self.d, self.pos + i, j), 0, 1, hi_open=True) for j in range(self.d)] for i in range(n)]
        self.pos += n
        return ctx.np.array(rows, dtype=float) if n else ctx.np.zeros((0, self.d))

    def random_base2(self, m):
        n = 2 ** int(m)
        total = self.pos + n
        if total & (total - 1) != 0:
            raise ValueError("The balance properties of Sobol' points require n to be a power of 2.")
        if total > 2 ** self.MAXN:
            raise ValueError("At most 2**30=1073741824 distinct points can be generated")
        if n > 4096:
            self.pos += n
            return None
        return self.random(n)
