"""K01, K02: correlation kernel and regression bases."""
from symx.case import case, product

KER = "mfpml.models.kernels"
BAS = "mfpml.models.basis_functions"


def ref_kernel(ctx, X, Y, theta):
    """the squared-exponential, from its definition"""
    np = ctx.np
    rows = []
    for i in range(X.shape[0]):
        row = []
        for j in range(Y.shape[0]):
            s = 0.0
            for k in range(X.shape[1]):
                s = s + 10 ** theta[k] * (X[i, k] - Y[j, k]) ** 2
            row.append(ctx.exp(-s))
        rows.append(row)
    return np.array(rows)


SIZES = [dict(n=1, m=1, d=1), dict(n=2, m=2, d=1), dict(n=2, m=3, d=2), dict(n=3, m=2, d=2), dict(n=3, m=3, d=3), dict(n=1, m=3, d=2), dict(n=3, m=1, d=1)]
MORE = [dict(n=4, m=5, d=2), dict(n=5, m=5, d=3), dict(n=2, m=2, d=6)]


@case("K01", quick=SIZES, thorough=MORE)
def kernel_entries(ctx, n, m, d):
    ctx.jitter(2e-10)
    RBF = ctx.load(KER).RBF
    X, Y = ctx.array("X", (n, d)), ctx.array("Y", (m, d))
    t0, t1 = ctx.array("s", d, -5, 5), ctx.array("t", d, -5, 5)
    X0, Y0, t1c = X.copy(), Y.copy(), t1.copy()
    k = RBF(theta=t0)
    want0, want1 = ref_kernel(ctx, X, Y, t0), ref_kernel(ctx, X, Y, t1)
    a = k.get_kernel_matrix(X, Y)
    ctx.eq("initial parameters", a, want0)
    b = k(X, Y, t1)
    ctx.eq("explicit parameters", b, want1)
    ctx.eq("explicit parameters do not stick", k.get_kernel_matrix(X, Y), want0)
    k.set_params(t1)
    ctx.eq("set parameters", k.get_kernel_matrix(X, Y), want1)
    ctx.eq("explicit parameters override set ones", k(X, Y, t0), want0)
    ctx.eq("exchange of the sets", k.get_kernel_matrix(Y, X).T, want1)
    ctx.eq("points unmodified", X, X0)
    ctx.eq("points unmodified (second set)", Y, Y0)
    ctx.eq("parameters unmodified", t1, t1c)
    ctx.eq("earlier results are kept", a, want0)
    ctx.eq("earlier results are kept (explicit parameters)", b, want1)
    k2 = RBF(theta=t0)
    ctx.eq("another kernel object is not affected", k2.get_kernel_matrix(X, Y), want0)
    # the same array objects with other contents
    Y[0] = X0[-1]
    ctx.eq("other points in the same array", k2.get_kernel_matrix(X, Y), ref_kernel(ctx, X, Y, t0))
    X[-1] = Y0[-1]
    ctx.eq("other points in the same array (first set)", k.get_kernel_matrix(X, Y), ref_kernel(ctx, X, Y, t1))


@case("K01", quick=[dict(n=1, d=1), dict(n=2, d=1), dict(n=3, d=2)], thorough=[dict(n=4, d=3)])
def kernel_self(ctx, n, d):
    ctx.jitter(2e-10)
    k = ctx.load(KER).RBF(theta=ctx.array("t", d, -2, 3))
    X = ctx.array("X", (n, d))
    K = k.get_kernel_matrix(X, X)
    ctx.eq("symmetric", K, K.T)
    for i in range(n):
        ctx.eq("one on coincident points", K[i, i], 1.0)
        for j in range(n):
            ctx.le("at most one", K[i, j], 1.0)
            ctx.lt("positive", 0.0, K[i, j])


@case("K01", quick=[dict(d=1), dict(d=3)])
def kernel_bounds(ctx, d):
    """bounds are the requested interval for every parameter; kernels do not share state"""
    RBF = ctx.load(KER).RBF
    lo, hi = ctx.real("lo", -4, 0), ctx.real("hi", 0, 4)
    k = RBF(theta=ctx.array("t", d, -2, 3), bounds=[lo, hi])
    k2 = RBF(theta=ctx.array("u", d + 1, -2, 3))
    ctx.eq("lower bounds", k._get_low_bound, [lo] * d)
    ctx.eq("upper bounds", k._get_high_bound, [hi] * d)
    ctx.eq("default lower bounds", k2._get_low_bound, [-2.0] * (d + 1))
    ctx.eq("default upper bounds", k2._get_high_bound, [3.0] * (d + 1))
    ctx.check("number of parameters", k._get_num_para == d)
    ctx.check("number of parameters (second)", k2._get_num_para == d + 1)


BS = [dict(n=1, d=1), dict(n=2, d=1), dict(n=2, d=2), dict(n=3, d=3), dict(n=1, d=4), dict(n=4, d=2)]


def monomials(ctx, name, x):
    d = len(x)
    if name == "Ordinary":
        return [1.0]
    if name == "Linear":
        return [1.0] + list(x)
    return [1.0] + list(x) + [x[i] * x[j] for i in range(d) for j in range(i, d)]


@case("K02", quick=[dict(p, basis=b) for b in ("Ordinary", "Linear", "Quadratic") for p in BS], thorough=[dict(n=5, d=6, basis=b) for b in ("Ordinary", "Linear", "Quadratic")])
def basis_rows(ctx, n, d, basis):
    f = getattr(ctx.load(BAS), basis)()
    X = ctx.array("X", (n, d))
    X0 = X.copy()
    F = f(X)
    X2 = ctx.array("Z", (n, d))
    F2 = f(X2)
    want2 = [monomials(ctx, basis, X2[i]) for i in range(n)]
    want = [monomials(ctx, basis, X[i]) for i in range(n)]
    ctx.shape("rows and columns", F, (n, len(want[0])))
    # the order of the products is the implementation's, but the same for every point: read it off
    # a generic reference point, then require it of all points
    for i in range(n):
        for k in range(len(want[0])):
            ctx.eq("monomial", F[i, k], want[i][k])
            ctx.eq("monomial (other points)", F2[i, k], want2[i][k])
    ctx.eq("points unmodified", X, X0)
    ctx.eq("one point alone", f(X[:1]), F[:1])
    X[...] = X2
    ctx.eq("other points in the same array", f(X), F2)
