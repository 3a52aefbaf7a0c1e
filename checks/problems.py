"""F01-F06: benchmark problems."""
from symx.case import case, product

SFM = "mfpml.problems.sf_functions"
CON = "mfpml.problems.sf_cons_functions"
MFM = "mfpml.problems.mf_functions"

A3 = [[3.0, 10.0, 30.0], [0.1, 10.0, 35.0], [3.0, 10.0, 30.0], [0.1, 10.0, 35.0]]
P3 = [[0.3689, 0.117, 0.2673], [0.4699, 0.4387, 0.747], [0.1091, 0.8732, 0.5547], [0.03815, 0.5743, 0.8828]]
A6 = [[10.0, 3.0, 17.0, 3.5, 1.7, 8.0], [0.05, 10.0, 17.0, 0.1, 8.0, 14.0], [3.0, 3.5, 1.7, 10.0, 17.0, 8.0], [17.0, 8.0, 0.05, 10.0, 0.1, 14.0]]
P6 = [[0.1312, 0.1696, 0.5569, 0.0124, 0.8283, 0.5886], [0.2329, 0.4135, 0.8307, 0.3736, 0.1004, 0.9991],
      [0.2348, 0.1451, 0.3522, 0.2883, 0.3047, 0.6650], [0.4047, 0.8828, 0.8732, 0.5743, 0.1091, 0.0381]]


# ---------------------------------------------------------------- published formulas
# each: f(np, x, ite) with x a list of coordinates

def forrester(np, x, ite):
    return (6 * x[0] - 2) ** 2 * np.sin(12 * x[0] - 4)


def branin(np, x, ite):
    pi = np.pi
    return (x[1] - 5.1 / (4 * pi ** 2) * x[0] ** 2 + 5 / pi * x[0] - 6) ** 2 + 10 * (1 - 1 / (8 * pi)) * np.cos(x[0]) + 10


def goldprice(np, x, ite):
    a, b = x
    p = 1 + (a + b + 1) ** 2 * (19 - 14 * a + 3 * a ** 2 - 14 * b + 6 * a * b + 3 * b ** 2)
    q = 30 + (2 * a - 3 * b) ** 2 * (18 - 32 * a + 12 * a ** 2 + 48 * b - 36 * a * b + 27 * b ** 2)
    return p * q


def sixhump(np, x, ite):
    a, b = x
    return 4 * a ** 2 - 2.1 * a ** 4 + a ** 6 / 3 + a * b - 4 * b ** 2 + 4 * b ** 4


def sasena(np, x, ite):
    a, b = x
    return 2 + 0.01 * (b - a ** 2) ** 2 + (1 - a) ** 2 + 2 * (2 - b) ** 2 + 7 * np.sin(0.5 * a) * np.sin(0.7 * a * b)


def hartman(A, P, c, l=None):
    def f(np, x, ite):
        t = 0.0
        for i in range(4):
            s = 0.0
            for j in range(len(x)):
                s = s + A[i][j] * ((1.0 if l is None else l[j]) * x[j] - P[i][j]) ** 2
            t = t + c[i] * np.exp(-s)
        return t
    return f


def hartman3(np, x, ite):
    return -hartman(A3, P3, [1.0, 1.2, 3.0, 3.2])(np, x, ite)


def hartman6(np, x, ite):
    return -np.log(hartman(A6, P6, [1.0, 1.2, 3.0, 3.2])(np, x, ite))


def hartman6_lf(np, x, ite):
    return -np.log(hartman(A6, P6, [1.1, 0.8, 2.5, 3.0], [0.75, 1.0, 0.8, 1.3, 0.7, 1.1])(np, x, ite))


def hartman3_lf(np, x, ite):
    a, b, c = x
    return (0.585 - 0.324 * a - 0.379 * b - 0.431 * c - 0.208 * a * b + 0.326 * a * c + 0.193 * b * c
            + 0.225 * a ** 2 + 0.263 * b ** 2 + 0.274 * c ** 2)


def ackleyn2(np, x, ite):
    return -200 * np.exp(-0.2 * np.sqrt(x[0] ** 2 + x[1] ** 2))


def ackley(a, b, c):
    def f(np, x, ite):
        d = len(x)
        sq, cs = 0.0, 0.0
        for v in x:
            sq = sq + v ** 2
            cs = cs + np.cos(c * v)
        return -a * np.exp(-b * np.sqrt(sq / d)) - np.exp(cs / d) + a + np.exp(1)
    return f


def thevenot(m, beta):
    def f(np, x, ite):
        s, p, q = 0.0, 1.0, 1.0
        for v in x:
            s = s + (v / beta) ** (2 * m)
            p = p * v ** 2
            q = q * np.cos(v) ** 2
        return np.exp(-s) - 2 * np.exp(-p) * q
    return f


def conbranin(np, x, ite):
    return branin(np, [15 * x[0] - 5, 15 * x[1]], ite) + 5 * x[0]


def con1(np, x, ite):
    return 0.2 - x[0] * x[1]


def con2(np, x, ite):
    a, b = 2 * x[0] - 1, 2 * x[1] - 1
    return 6 - (sixhump(np, [a, b], ite) + 3 * np.sin(6 * (1 - a)) + 3 * np.sin(6 * (1 - b)))


def disc_lf(np, x, ite):
    y = 0.5 * forrester(np, x, ite) + 10 * (x[0] - 0.5) - 5
    return y + ite(x[0] <= 0.5, 0.0, 3.0)


def disc_hf(np, x, ite):
    return 2 * disc_lf(np, x, ite) - 20 * x[0] + 20 + ite(x[0] <= 0.5, 0.0, 4.0)


def boha(np, x, ite):
    return x[0] ** 2 + 2 * x[1] ** 2 - 0.3 * np.cos(3 * np.pi * x[0]) - 0.4 * np.cos(4 * np.pi * x[1]) + 0.7


def booth(np, x, ite):
    return (x[0] + 2 * x[1] - 7) ** 2 + (2 * x[0] + x[1] - 5) ** 2


def himmel(np, x, ite):
    return (x[0] ** 2 + x[1] - 11) ** 2 + (x[0] + x[1] ** 2 - 7) ** 2


def borehole(a, b):
    def f(np, x, ite):
        rw, r, Tu, Hu, Tl, Hl, L, Kw = x
        g = np.log(r / rw)
        k = 2 * np.pi if a is None else a
        return k * Tu * (Hu - Hl) / (g * (b + 2 * L * Tu / (g * rw ** 2 * Kw) + Tu / Tl))
    return f


def currin(np, x, ite):
    a, b = x
    # the limit of exp(-1/(2 x2)) for x2 -> 0+ is 0; the code switches at 1e-8
    t = 1 - ite(b <= 1e-8, 0.0, safe_exp_inv(np, b, ite))
    return t * (2300 * a ** 3 + 1900 * a ** 2 + 2092 * a + 60) / (100 * a ** 3 + 500 * a ** 2 + 4 * a + 20)


def safe_exp_inv(np, b, ite):
    try:
        return np.exp(-1 / (2 * b))
    except ZeroDivisionError:
        return 0.0


def currin_lf(np, x, ite):
    a, b = x
    s = 0.0
    for u in (0.05, -0.05):
        for v in (0.05, -0.05):
            s = s + currin(np, [a + u, b + v], ite)
    return s / 4


def park_a(np, x, ite):
    a, b, c, d = x
    return 0.5 * (np.sqrt(a ** 2 + (b + c ** 2) * d) - a) + (a + 3 * d) * np.exp(1 + np.sin(c))


def park_b(np, x, ite):
    a, b, c, d = x
    return 2 / 3 * np.exp(a + b) - d * np.sin(c) + c


def sq2(np):
    return 1.4142135623730951


BOX01 = [[0.0, 1.0]]
SF = {
    "Forrester": (SFM, 1, BOX01, forrester), "Branin": (SFM, 2, [[-5.0, 10.0], [0.0, 15.0]], branin),
    "GoldPrice": (SFM, 2, [[-2.0, 2.0]] * 2, goldprice), "Sixhump": (SFM, 2, [[-3.0, 3.0], [-2.0, 2.0]], sixhump),
    "Sasena": (SFM, 2, [[0.0, 5.0]] * 2, sasena), "Hartman3": (SFM, 3, BOX01 * 3, hartman3), "Hartman6": (SFM, 6, BOX01 * 6, hartman6),
    "AckleyN2": (SFM, 2, [[-32.0, 32.0]] * 2, ackleyn2),
    "Branin_1": (CON, 2, BOX01 * 2, conbranin), "Branin_2": (CON, 2, BOX01 * 2, conbranin),
}
CONS = {"Branin_1": con1, "Branin_2": con2}
MFF = {
    "Forrester_1a": (1, BOX01, forrester, lambda np, x, ite: forrester(np, x, ite) - 5),
    "Forrester_1b": (1, BOX01, forrester, lambda np, x, ite: 0.5 * forrester(np, x, ite) + 10 * (x[0] - 0.5) - 5),
    "Forrester_1c": (1, BOX01, forrester, lambda np, x, ite: forrester(np, [x[0] + 0.2], ite)),
    "mf_Hartman3": (3, BOX01 * 3, hartman3, hartman3_lf),
    "mf_Sixhump": (2, [[-2.0, 2.0]] * 2, sixhump, lambda np, x, ite: sixhump(np, [0.7 * x[0], 0.7 * x[1]], ite) - x[0] * x[1] - 15),
    "mf_Hartman6": (6, BOX01 * 6, hartman6, hartman6_lf),
    "mf_Discontinuous": (1, BOX01, disc_hf, disc_lf),
    "ContinuousNonlinearCorrelation1D": (1, BOX01, lambda np, x, ite: np.sin(8 * np.pi * x[0]) ** 2 * (x[0] - sq2(np)), lambda np, x, ite: np.sin(8 * np.pi * x[0])),
    "PhaseShiftedOscillations": (1, BOX01, lambda np, x, ite: x[0] ** 2 + np.sin(8 * np.pi * x[0] + np.pi / 10) ** 2, lambda np, x, ite: np.sin(8 * np.pi * x[0])),
    "mf_Bohachevsky": (2, [[-5.0, 5.0]] * 2, boha, lambda np, x, ite: boha(np, [0.7 * x[0], x[1]], ite) + x[0] * x[1] - 12),
    "mf_Booth": (2, [[-10.0, 10.0]] * 2, booth, lambda np, x, ite: booth(np, [0.4 * x[0], x[1]], ite) + 1.7 * x[0] * x[1] - x[0] + 2 * x[1]),
    "mf_Borehole": (8, [[0.05, 0.15], [100.0, 50000.0], [63070.0, 115600.0], [990.0, 1110.0], [63.1, 116.0], [700.0, 820.0], [1120.0, 1680.0], [9855.0, 12045.0]],
                    borehole(None, 1), borehole(5, 1.5)),
    "mf_CurrinExp": (2, BOX01 * 2, currin, currin_lf),
    "mf_Himmelblau": (2, [[-4.0, 4.0]] * 2, himmel, lambda np, x, ite: himmel(np, [0.5 * x[0], 0.8 * x[1]], ite) + x[1] ** 3 - (x[0] + 1) ** 2),
    "mf_Park91A": (4, BOX01 * 4, park_a, lambda np, x, ite: (1 + np.sin(x[0]) / 10) * park_a(np, x, ite) - 2 * x[0] + x[1] ** 2 + x[2] ** 2 + 0.5),
    "mf_Park91B": (4, BOX01 * 4, park_b, lambda np, x, ite: 1.2 * park_b(np, x, ite) - 1),
}


def points(ctx, box, n, name="x", lo_open=()):
    d = len(box)
    return ctx.np.array([[ctx.real("%s%d_%d" % (name, i, j), box[j][0], box[j][1], **({"lo_open": True} if j in lo_open else {})) for j in range(d)] for i in range(n)], dtype=float)


def ref(ctx, f, X):
    return ctx.np.array([[f(ctx.np, [X[i, j] for j in range(X.shape[1])], ctx.ite)] for i in range(X.shape[0])])


def make(ctx, name):
    return getattr(ctx.load(SF[name][0]), name)()


# ---------------------------------------------------------------- F01
@case("F01", quick=product(name=tuple(SF), n=(1, 2)))
def sf_formula(ctx, name, n):
    _, d, box, f = SF[name]
    p = make(ctx, name)
    X = points(ctx, box, n)
    ctx.eq("value", p.f(X), ref(ctx, f, X))
    if name in CONS:
        ctx.eq("constraint", p.f_cons(X), ref(ctx, CONS[name], X))
    ctx.eq("declared domain", ctx.np.array(p._input_domain, dtype=float), ctx.np.array(box))
    ctx.check("declared dimension", p._get_dimension == d)


@case("F01", quick=product(name=tuple(MFF), n=(1, 2)))
def mf_formula(ctx, name, n):
    d, box, hf, lf = MFF[name]
    p = getattr(ctx.load(MFM), name)()
    X = points(ctx, box, n, lo_open=((0,) if name == "mf_Park91A" else ()))
    ctx.eq("high fidelity", p.hf(X), ref(ctx, hf, X))
    ctx.eq("low fidelity", p.lf(X), ref(ctx, lf, X))
    ctx.eq("declared domain", ctx.np.array(p._input_domain, dtype=float), ctx.np.array(box))
    ctx.check("declared dimension", p._get_dimension == d)


@case("F01", quick=product(d=(1, 2, 3), n=(1, 2)) + [dict(d=2, n=1, params=True)], thorough=product(d=(4, 5), n=(1,)))
def ackley_formula(ctx, d, n, params=False):
    a, b, c = (ctx.real("a", 1, 40), ctx.real("b", 0, 1), ctx.real("c", 1, 8)) if params else (20, 0.2, 2 * ctx.np.pi)
    cls = ctx.load(SFM).Ackley
    p = cls(num_dim=d, a=a, b=b, c=c) if params else cls(num_dim=d)
    X = points(ctx, [[-32.0, 32.0]] * d, n)
    want = ref(ctx, ackley(a, b, c), X)
    ctx.eq("value", p.f(X), want)
    ctx.eq("value of a single point", p.f(X[0]), want[0, 0])
    ctx.eq("declared domain", ctx.np.array(p._input_domain, dtype=float), ctx.np.array([[-32.0, 32.0]] * d))


@case("F01", quick=product(d=(1, 2, 3), n=(1, 2), m=(5.0,)) + [dict(d=2, n=1, m=2.0)], thorough=product(d=(4,), n=(1,), m=(5.0, 1.0)))
def thevenot_formula(ctx, d, n, m):
    beta = 15 if m == 5.0 else 7.5
    cls = ctx.load(SFM).Thevenot
    p = cls(num_dim=d) if m == 5.0 else cls(num_dim=d, m=m, beta=beta)
    pi = ctx.np.pi
    X = points(ctx, [[-2 * pi, 2 * pi]] * d, n)
    want = ref(ctx, thevenot(int(m), beta), X)
    ctx.eq("value", p.f(X), want)
    ctx.eq("value of a single point", p.f(X[0]), want[0, 0])
    ctx.eq("declared domain", ctx.np.array(p._input_domain, dtype=float), ctx.np.array([[-2 * pi, 2 * pi]] * d))


@case("F01", quick=({},))
def ackleyn2_single(ctx):
    p = make(ctx, "AckleyN2")
    X = points(ctx, SF["AckleyN2"][2], 1)
    ctx.eq("value of a single point", p.f(X[0]), ref(ctx, ackleyn2, X)[0, 0])


# ---------------------------------------------------------------- F02
def rowwise(ctx, label, f, X, other=None):
    n = X.shape[0]
    X0 = X.copy()
    Y = f(X)
    ctx.shape(label + ": rows", Y, (n, 1))
    Y0 = Y.copy()
    ctx.eq(label + ": input unmodified", X, X0)
    for i in range(n):
        ctx.eq(label + ": row value is the value of that point alone", f(X[i:i + 1].copy())[0, 0], Y[i, 0])
    ctx.eq(label + ": same input, same output", f(X), Y)
    Z = f(X[::-1].copy())
    ctx.eq(label + ": order of the rows", Z[::-1], Y)
    ctx.eq(label + ": earlier values are kept", Y, Y0)
    if other is not None and n <= 2:
        # the same array object again, with other points in it
        X[...] = other
        ctx.eq(label + ": array refilled with other points", f(X), f(other.copy()))
        X[...] = X0


@case("F02", quick=product(name=tuple(SF), n=(1, 2, 3)), thorough=product(name=tuple(SF), n=(5,)))
def sf_rows(ctx, name, n):
    p = make(ctx, name)
    X = points(ctx, SF[name][2], n)
    Z = points(ctx, SF[name][2], n, "z")
    rowwise(ctx, "objective", p.f, X, Z)
    if name in CONS:
        rowwise(ctx, "constraint", p.f_cons, X, Z)


@case("F02", quick=product(name=tuple(MFF), n=(1, 2)) + product(name=tuple(k for k in MFF if k != "mf_CurrinExp"), n=(3,)), seconds=400)
def mf_rows(ctx, name, n):
    p = getattr(ctx.load(MFM), name)()
    X = points(ctx, MFF[name][1], n, lo_open=((0,) if name == "mf_Park91A" else ()))
    Z = points(ctx, MFF[name][1], n, "z", lo_open=((0,) if name == "mf_Park91A" else ()))
    rowwise(ctx, "high fidelity", p.hf, X, Z)
    if not (name == "mf_CurrinExp" and n > 1):
        rowwise(ctx, "low fidelity", p.lf, X, Z)


def tall(ctx, label, f, box, n, free, lo_open=()):
    """many rows, a few of them arbitrary"""
    X = ctx.np.array([[b[0] + (b[1] - b[0]) * ((0.37 * (i + 1) + 0.23 * (j + 1) * (i + 2)) % 1.0) for j, b in enumerate(box)] for i in range(n)])
    Z = points(ctx, box, len(free), "z", lo_open)
    for k, i in enumerate(free):
        X[i] = Z[k]
    X0 = X.copy()
    Y = f(X)
    ctx.shape(label + ": rows", Y, (n, 1))
    ctx.eq(label + ": input unmodified", X, X0)
    for i in free + [1, n - 2]:
        ctx.eq(label + ": row value is the value of that point alone", f(X0[i:i + 1].copy())[0, 0], Y[i, 0])


@case("F02", quick=product(name=tuple(SF) + tuple(MFF) + ("Ackley", "Thevenot"), n=(70,)), thorough=product(name=tuple(SF) + tuple(MFF), n=(300,)), seconds=300)
def tall_rows(ctx, name, n):
    free = [0, n // 2 + 9]
    if name in SF:
        p = make(ctx, name)
        tall(ctx, "objective", p.f, SF[name][2], n, free)
        if name in CONS:
            tall(ctx, "constraint", p.f_cons, SF[name][2], n, free)
    elif name in MFF:
        p = getattr(ctx.load(MFM), name)()
        lo = (0,) if name == "mf_Park91A" else ()
        tall(ctx, "high fidelity", p.hf, MFF[name][1], n, free[:1] if name == "mf_CurrinExp" else free, lo)
        tall(ctx, "low fidelity", p.lf, MFF[name][1], n, free[:1] if name == "mf_CurrinExp" else free, lo)
    else:
        b = 32.0 if name == "Ackley" else 2 * ctx.np.pi
        tall(ctx, "objective", getattr(ctx.load(SFM), name)(num_dim=2).f, [[-b, b]] * 2, n, free)


OUTSIDE = [k for k in SF] + [k for k in MFF if k not in ("mf_Park91A", "mf_CurrinExp", "mf_Borehole")]


@case("F02", quick=product(name=tuple(OUTSIDE)))
def beyond_the_domain(ctx, name):
    """also outside the declared domain: the caller's points stay as they are, and so do values"""
    box = SF[name][2] if name in SF else MFF[name][1]
    X = points(ctx, [[b[0] - 1.0, b[1] + 1.0] for b in box], 2)
    if name in SF:
        fs = [make(ctx, name).f] + ([make(ctx, name).f_cons] if name in CONS else [])
    else:
        p = getattr(ctx.load(MFM), name)()
        fs = [p.hf, p.lf]
    for f in fs:
        rowwise(ctx, "function", f, X)


@case("F02", quick=product(name=("Ackley", "Thevenot"), d=(1, 2), n=(1, 2, 3)))
def dim_rows(ctx, name, d, n):
    p = getattr(ctx.load(SFM), name)(num_dim=d)
    b = 32.0 if name == "Ackley" else 2 * ctx.np.pi
    rowwise(ctx, "objective", p.f, points(ctx, [[-b, b]] * d, n), points(ctx, [[-b, b]] * d, n, "z"))


# ---------------------------------------------------------------- F04
@case("F04", quick=product(name=tuple(SF)))
def sf_defined(ctx, name):
    ctx.definedness = "check"
    p = make(ctx, name)
    X = points(ctx, SF[name][2], 1)
    ctx.finite("value", p.f(X))
    if name in CONS:
        ctx.finite("constraint", p.f_cons(X))


@case("F04", quick=product(name=tuple(MFF)))
def mf_defined(ctx, name):
    ctx.definedness = "check"
    p = getattr(ctx.load(MFM), name)()
    X = points(ctx, MFF[name][1], 1)
    ctx.finite("high fidelity", p.hf(X))
    ctx.finite("low fidelity", p.lf(X))


@case("F04", quick=product(name=("Ackley", "Thevenot"), d=(1, 2, 3)))
def dim_defined(ctx, name, d):
    ctx.definedness = "check"
    p = getattr(ctx.load(SFM), name)(num_dim=d)
    b = 32.0 if name == "Ackley" else 2 * ctx.np.pi
    X = points(ctx, [[-b, b]] * d, 1)
    ctx.finite("value", p.f(X))


# ---------------------------------------------------------------- F05
@case("F05", quick=product(name=tuple(MFF), n=((1, 2), (2, 1))) + product(name=("Forrester_1a", "mf_Booth"), n=((2, 3), (3, 3))))
def dispatch(ctx, name, n):
    p = getattr(ctx.load(MFM), name)()
    box = MFF[name][1]
    lo = (0,) if name == "mf_Park91A" else ()
    Xh, Xl = points(ctx, box, n[0], "h", lo), points(ctx, box, n[1], "l", lo)
    h0, l0 = Xh.copy(), Xl.copy()
    out = p([Xh, Xl])
    ctx.check("two responses", len(out) == 2)
    ctx.eq("first is the high fidelity on the first samples", out[0], p.hf(h0))
    ctx.eq("second is the low fidelity on the second samples", out[1], p.lf(l0))
    ctx.eq("high-fidelity samples unmodified", Xh, h0)
    ctx.eq("low-fidelity samples unmodified", Xl, l0)


TWINS = {"Forrester_1a": "Forrester", "Forrester_1b": "Forrester", "Forrester_1c": "Forrester", "mf_Hartman3": "Hartman3", "mf_Sixhump": "Sixhump", "mf_Hartman6": "Hartman6"}


COSTS = ("Forrester_1a", "Forrester_1b", "Forrester_1c", "mf_Hartman3", "mf_Hartman6", "mf_Sixhump")


@case("F05", quick=product(name=COSTS))
def declarations(ctx, name):
    """cost ratio of the two fidelities; the domain as a dictionary"""
    cls = getattr(ctx.load(MFM), name)
    given = ctx.choose("cost", [[1.0, 0.2], [1.0, 0.1], [3.0, 1.0], [10.0, 4.0], [5.0, 0.7]])
    c = list(given)
    p = cls(cost=c)
    ctx.check("cost ratio is the rounded ratio of the costs", p.cr == round(given[0] / given[1]))
    q = cls()
    ctx.check("default cost ratio", q.cr == (10 if name == "mf_Hartman6" else 5))
    ctx.check("cost ratio of an earlier object", p.cr == round(given[0] / given[1]))
    ctx.check("costs unmodified", c == given)


@case("F05", quick=product(name=tuple(n for n in MFF if not n.startswith("Forrester"))))
def domain_dictionary(ctx, name):
    p = getattr(ctx.load(MFM), name)()
    box = MFF[name][1]
    ctx.check("one interval per variable", len(p.design_space) == len(box))
    for j, (k, b) in enumerate(zip(p.design_space, box)):
        ctx.eq("interval of a variable", list(p.design_space[k]), list(b))


@case("F05", quick=product(name=tuple(TWINS), n=(1, 2)))
def twins(ctx, name, n):
    p = getattr(ctx.load(MFM), name)()
    s = make(ctx, TWINS[name])
    X = points(ctx, MFF[name][1], n)
    ctx.eq("high fidelity is the single-fidelity problem", p.hf(X), s.f(X))
    a, b = p._optimum, s._optimum
    ctx.check("same declared optimum", a == b)


# ---------------------------------------------------------------- F03
OPTIMA = {n: (SFM, n, "f", {}) for n in ("AckleyN2", "Branin", "Forrester", "GoldPrice", "Hartman3", "Sasena", "Sixhump")}
OPTIMA.update({"%s%d" % (n, d): (SFM, n, "f", {"num_dim": d}) for n in ("Ackley", "Thevenot") for d in (1, 2, 3, 4)})
OPTIMA.update({n: (CON, n, "f", {}) for n in ("Branin_1", "Branin_2")})
OPTIMA.update({n: (MFM, n, "hf", {}) for n in ("Forrester_1a", "Forrester_1b", "Forrester_1c", "mf_Bohachevsky", "mf_Booth", "mf_Hartman3", "mf_Hartman6", "mf_Sixhump")})
OPTIMA.update({"Hartman6": (SFM, "Hartman6", "f", {}), "Ackley_params": (SFM, "Ackley", "f", {"num_dim": 2, "a": 10.0, "b": 0.5, "c": 3.0})})
ATTAINED, BELOW = 2e-4, 1e-3     # relative to max(1, |declared value|)


@case("F03", quick=product(name=tuple(n for n in OPTIMA if n[-1] != "4")), thorough=product(name=("Ackley4", "Thevenot4")), seconds=300)
def declared_optimum(ctx, name):
    mod, cls, attr, kw = OPTIMA[name]
    p = getattr(ctx.load(mod), cls)(**kw)
    box = ctx.np.atleast_2d(ctx.np.array(p.input_domain, dtype=float))
    designs = ctx.np.atleast_2d(ctx.np.array(p.optimum_scheme, dtype=float))
    opt = ctx.np.array(p.optimum, dtype=float).reshape(-1)[0]
    d = box.shape[0]
    f, constrained = getattr(p, attr), mod == CON
    scale = ctx.ite(ctx.absv(opt) > 1.0, ctx.absv(opt), 1.0)
    ctx.shape("one column per variable", designs, (designs.shape[0], d))
    inside(ctx, "declared design", designs, box)
    at = f(designs)
    for i in range(designs.shape[0]):
        ctx.le("declared design attains the declared value", ctx.absv(at[i, 0] - opt), ATTAINED * scale)
    if constrained:
        ctx.le("declared design is feasible", p.f_cons(designs), 1e-9)
    # every point of the domain
    X = ctx.np.array([[ctx.real("x%d" % j, float(box[j, 0]), float(box[j, 1])) for j in range(d)]], dtype=float)
    ctx.lower_bound("no feasible point of the domain is better", f(X)[0, 0], opt - BELOW * scale, [p.f_cons(X)[0, 0]] if constrained else [], designs)


def inside(ctx, label, pts, box):
    for j in range(box.shape[0]):
        ctx.le(label + " inside the domain", box[j, 0], pts[:, j])
        ctx.le(label + " inside the domain", pts[:, j], box[j, 1])


# ---------------------------------------------------------------- F06
def report(p):
    return (p._get_dimension, p._optimum, p._optimum_variable, p._input_domain, p.num_dim, p.optimum, p.optimum_scheme, p.input_domain)


def same_report(ctx, label, p, d, b, opt):
    for dim, o, s, box in ((p._get_dimension, p._optimum, p._optimum_variable, p._input_domain), (p.num_dim, p.optimum, p.optimum_scheme, p.input_domain)):
        ctx.check(label + ": dimension", dim == d)
        ctx.eq(label + ": domain", ctx.np.array(box, dtype=float), ctx.np.array([[-b, b]] * d))
        ctx.check(label + ": optimal design has that dimension", len(s) == d)
        ctx.eq(label + ": optimal design", [float(v) for v in s], [0.0] * d)
        ctx.eq(label + ": optimum", o, opt)


@case("F06", quick=product(a=("Ackley", "Thevenot"), b=("Ackley", "Thevenot")), thorough=product(a=("Ackley", "Thevenot"), b=("Ackley", "Thevenot"), mx=(5,)))
def dims_independent(ctx, a, b, mx=3):
    m = ctx.load(SFM)
    d1, d2 = ctx.choose("d1", list(range(1, mx + 1))), ctx.choose("d2", list(range(1, mx + 1)))
    pi = ctx.np.pi
    half = {"Ackley": 32.0, "Thevenot": 2 * pi}
    opt = {"Ackley": 0.0, "Thevenot": -1.0}
    p = getattr(m, a)(num_dim=d1)
    X = points(ctx, [[-half[a], half[a]]] * d1, 2)
    y = p.f(X)
    same_report(ctx, "fresh object", p, d1, half[a], opt[a])
    q = getattr(m, b)(num_dim=d2)
    same_report(ctx, "after another object was built", p, d1, half[a], opt[a])
    same_report(ctx, "second object", q, d2, half[b], opt[b])
    q.f(points(ctx, [[-half[b], half[b]]] * d2, 1, "z"))
    ctx.eq("values after another object was built", p.f(X), y)
    same_report(ctx, "after another object was used", p, d1, half[a], opt[a])


@case("F06", quick=({},))
def parameters_independent(ctx):
    m = ctx.load(SFM)
    X = points(ctx, [[-2.0, 2.0]] * 2, 1)
    a1 = ctx.real("a", 1, 40)
    p, q = m.Ackley(num_dim=2, a=a1), m.Ackley(num_dim=2)
    ctx.eq("first keeps its parameter", p.f(X), ref(ctx, ackley(a1, 0.2, 2 * ctx.np.pi), X))
    ctx.eq("second has the default", q.f(X), ref(ctx, ackley(20, 0.2, 2 * ctx.np.pi), X))
    t, u = m.Thevenot(num_dim=2, m=2.0, beta=7.5), m.Thevenot(num_dim=2)
    ctx.eq("first keeps its exponent", t.f(X), ref(ctx, thevenot(2, 7.5), X))
    ctx.eq("second has the default exponent", u.f(X), ref(ctx, thevenot(5, 15), X))


FIXED = [(v[0], k, v[1]) for k, v in SF.items()] + [(MFM, k, v[0]) for k, v in MFF.items()]


@case("F06", quick=({},))
def unsupported_dimensions(ctx):
    mod, name, d = ctx.choose("problem", FIXED)
    cls = getattr(ctx.load(mod), name)
    bad = ctx.choose("bad", [d + 1, d - 1, -1, 0])
    ctx.raises("unsupported dimension is rejected", (Exception,), lambda: cls(num_dim=bad))
    ctx.check("the supported one is accepted", cls(num_dim=d)._get_dimension == d)


@case("F06", quick=({},))
def unsupported_selectable(ctx):
    name = ctx.choose("problem", ["Ackley", "Thevenot"])
    bad = ctx.choose("bad", [-1, -3, 0])
    ctx.raises("unsupported dimension is rejected", (Exception,), lambda: getattr(ctx.load(SFM), name)(num_dim=bad))


@case("F06", quick=({},))
def fixed_unaffected(ctx):
    """building any problem leaves the fixed-dimension ones as declared"""
    m = ctx.load(SFM)
    d = ctx.choose("d", [1, 2, 3])
    sel = ctx.choose("first", ["Ackley", "Thevenot"])
    getattr(m, sel)(num_dim=d)
    for k, (mod, dim, box, _) in SF.items():
        p = make(ctx, k)
        ctx.check("dimension", p._get_dimension == dim)
        ctx.eq("domain", ctx.np.array(p._input_domain, dtype=float), ctx.np.array(box))
