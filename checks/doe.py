"""D01-D06: design-of-experiment samplers."""
from symx.case import case, product

SF = "mfpml.design_of_experiment.sf_samplers"
MF = "mfpml.design_of_experiment.mf_samplers"


def sf(ctx, cls):
    return getattr(ctx.load(SF), cls)


def mf(ctx, cls):
    return getattr(ctx.load(MF), cls)


SFC = ("LatinHyperCube", "RandomSampler", "SobolSequence")
MFC = ("MFLatinHyperCube", "MFSobolSequence")


def unit(ctx, d):
    return ctx.np.array([[0.0, 1.0]] * d)


def inside(ctx, label, pts, box):
    d = len(box)
    for j in range(d):
        ctx.le(label + " lower", box[j, 0], pts[:, j])
        ctx.le(label + " upper", pts[:, j], box[j, 1])


@case("D01", quick=product(cls=SFC, n=(1, 2, 5), d=(1, 2, 3)) + product(cls=SFC, n=(31, 40, 65, 130), d=(1,)) + product(cls=SFC, n=(65,), d=(3,)) + product(cls=SFC, n=(2,), d=(2,), form=("list",)),
      thorough=product(cls=SFC, n=(3, 8, 17, 33, 64, 100), d=(1, 2, 4, 6)))
def sf_box(ctx, cls, n, d, form="array"):
    box = ctx.box("b", d)
    given = box.copy() if form == "array" else [[box[j, 0], box[j, 1]] for j in range(d)]
    seed = ctx.choose("seed", [0, 7])
    s = sf(ctx, cls)(given)
    pts = s.get_samples(num_samples=n, seed=seed)
    ctx.shape("one row per requested point, one column per variable", pts, (n, d))
    inside(ctx, "inside the box", pts, box)
    u = sf(ctx, cls)(unit(ctx, d)).get_samples(num_samples=n, seed=seed)
    ctx.eq("affine image of the unit-cube design", pts, box[:, 0] + u * (box[:, 1] - box[:, 0]))
    ctx.eq("current samples are the returned points", s.samples, pts)
    # drawing again replaces the current samples
    q = s.get_samples(num_samples=n + 1, seed=seed)
    ctx.eq("current samples after a second draw", s.samples, q)
    ctx.shape("second draw", q, (n + 1, d))


@case("D01", quick=product(skip=(0, 1, 5), n=(1, 4), d=(1, 2)), thorough=product(skip=(64, 100), n=(70,), d=(1, 3)))
def sobol_skip(ctx, skip, n, d):
    """a Sobol design leaves out exactly the requested number of leading points"""
    box = ctx.box("b", d)
    S = sf(ctx, "SobolSequence")
    pts = S(box.copy(), num_skip=skip).get_samples(num_samples=n, seed=11)
    ctx.shape("points", pts, (n, d))
    inside(ctx, "inside the box", pts, box)
    u = S(unit(ctx, d), num_skip=0).get_samples(num_samples=n + skip, seed=11)[skip:]
    ctx.eq("the sequence without its first points", pts, box[:, 0] + u * (box[:, 1] - box[:, 0]))


@case("D01", quick=product(cls=SFC, n=(3, 65), d=(2,)))
def sf_thin_box(ctx, cls, n, d):
    """sides of very different length"""
    box = ctx.np.array([[0.0, 1e6], [2.0, 2.0 + ctx.real("w", 1e-6, 1e-3)]])
    pts = sf(ctx, cls)(box.copy()).get_samples(num_samples=n, seed=7)
    inside(ctx, "inside the box", pts, box)
    u = sf(ctx, cls)(unit(ctx, d)).get_samples(num_samples=n, seed=7)
    ctx.eq("wide side", pts[:, 0], u[:, 0] * 1e6)
    ctx.eq("narrow side", (pts[:, 1] - 2.0) * 1e6, u[:, 1] * ((box[1, 1] - box[1, 0]) * 1e6), tol=1e-6)


def stir(ctx, k=2):
    """use of the global generator in between"""
    ctx.np.random.random(k)
    ctx.np.random.seed(5)
    ctx.np.random.random((1, k))


@case("D02", quick=product(cls=SFC, n=(1, 3), d=(1, 2)), thorough=product(cls=SFC, n=(4, 16), d=(3, 5)))
def sf_repro(ctx, cls, n, d):
    box = ctx.box("b", d)
    given = box.copy()
    seed = ctx.choose("seed", [0, 7, 123456])
    a = sf(ctx, cls)(given)
    p1 = a.get_samples(num_samples=n, seed=seed)
    keep = p1.copy()
    stir(ctx)
    a.get_samples(num_samples=n + 1, seed=seed + 1)
    p2 = a.get_samples(num_samples=n, seed=seed)
    stir(ctx, 3)
    b = sf(ctx, cls)(box.copy())
    p3 = b.get_samples(num_samples=n, seed=seed)
    ctx.eq("same sampler, same request", p2, keep)
    ctx.eq("other sampler, same request", p3, keep)
    ctx.eq("earlier design untouched", p1, keep)
    ctx.eq("design space unmodified", given, box)


@case("D02", quick=product(cls=SFC, n=(2,), d=(2,)), thorough=product(cls=SFC, n=(5,), d=(3,)))
def sf_repro_default_seed(ctx, cls, n, d):
    """leaving the seed out means one fixed seed, not the generator's state"""
    box = ctx.box("b", d)
    a = sf(ctx, cls)(box.copy())
    p1 = a.get_samples(num_samples=n)
    keep = p1.copy()
    stir(ctx)
    ctx.eq("default seed reproducible", sf(ctx, cls)(box.copy()).get_samples(num_samples=n), keep)


def spaces(ctx, kind, d, levels):
    """-> (argument(s) for the constructor, list of boxes per level)"""
    if kind == "shared":
        b = ctx.box("b", d)
        return (b.copy(), levels), [b] * levels
    bs = [ctx.box("b%d" % i, d) for i in range(levels)]
    return ([b.copy() for b in bs], None), bs


def build_mf(ctx, cls, arg, nested):
    space, levels = arg
    if levels is None:
        return mf(ctx, cls)(design_space=space, nested=nested)
    return mf(ctx, cls)(design_space=space, num_fidelity=levels, nested=nested)


@case("D02", quick=product(cls=MFC, sizes=((1, 2), (2, 3)), d=(1, 2), nested=(True, False), kind=("shared",)) + product(cls=MFC, sizes=((1, 2, 3),), d=(1,), nested=(True, False), kind=("separate",)),
      thorough=product(cls=MFC, sizes=((2, 4), (1, 2, 4)), d=(2, 3), nested=(True, False), kind=("shared", "separate")))
def mf_repro(ctx, cls, sizes, d, nested, kind):
    arg, bs = spaces(ctx, kind, d, len(sizes))
    seed = ctx.choose("seed", [0, 7])
    a = build_mf(ctx, cls, arg, nested)
    given = list(sizes)
    p1 = a.get_samples(num_samples=given, seed=seed)
    ctx.check("caller's sizes unmodified", given == list(sizes))
    keep = [x.copy() for x in p1]
    stir(ctx)
    a.get_samples(num_samples=[s + 1 for s in sizes], seed=seed + 1)
    p2 = a.get_samples(num_samples=list(sizes), seed=seed)
    stir(ctx, 3)
    b = build_mf(ctx, cls, (arg[0].copy() if kind == "shared" else [x.copy() for x in arg[0]], arg[1]), nested)
    p3 = b.get_samples(num_samples=list(sizes), seed=seed)
    for k in range(len(sizes)):
        ctx.eq("same sampler, same request, level %d" % k, p2[k], keep[k])
        ctx.eq("other sampler, same request, level %d" % k, p3[k], keep[k])
        ctx.eq("earlier design untouched, level %d" % k, p1[k], keep[k])
    for x, y in zip(arg[0] if kind == "separate" else [arg[0]], bs):
        ctx.eq("design space unmodified", x, y)


def slices(ctx, label, pts, box, n, d):
    one = ctx.np.array([1.0])
    for j in range(d):
        lo, w = box[j, 0], box[j, 1] - box[j, 0]
        for k in range(n):
            cnt = 0.0
            for i in range(n):
                t = (pts[i, j] - lo) * n
                cnt = cnt + ctx.ite(ctx.conj(t >= k * w, t < (k + 1) * w), 1.0, 0.0)
            ctx.eq(label, cnt, 1.0)


@case("D03", quick=product(n=(1, 2, 3), d=(1, 2)) + [dict(n=4, d=1)], thorough=product(n=(4, 5), d=(1, 2)) + product(n=(2, 3), d=(3,)))
def lhs_slices(ctx, n, d):
    ctx.lhs_stratified = True
    box = ctx.box("b", d)
    pts = sf(ctx, "LatinHyperCube")(box.copy()).get_samples(num_samples=n, seed=3)
    slices(ctx, "one point per slice", pts, box, n, d)


@case("D03", quick=[dict(n=60, d=1), dict(n=101, d=1), dict(n=64, d=2)], thorough=[dict(n=257, d=1), dict(n=101, d=3)])
def lhs_slices_large(ctx, n, d):
    """many points: the arrangement of the slices is pinned, the positions inside them are not"""
    ctx.lhs_stratified = ctx.pinned_draws = True
    box = ctx.np.array([[-2.0, 3.0], [0.0, 1.0], [5.0, 7.5]][:d])
    pts = sf(ctx, "LatinHyperCube")(box.copy()).get_samples(num_samples=n, seed=3)
    slices(ctx, "one point per slice", pts, box, n, d)


@case("D03", quick=[dict(sizes=(20, 60), d=1), dict(sizes=(51, 51), d=1)])
def mflhs_slices_large(ctx, sizes, d):
    ctx.lhs_stratified = ctx.pinned_draws = True
    bs = [ctx.np.array([[-2.0, 3.0]]), ctx.np.array([[0.0, 1.0]])]
    pts = build_mf(ctx, "MFLatinHyperCube", ([b.copy() for b in bs], None), False).get_samples(num_samples=list(sizes), seed=3)
    for l, n in enumerate(sizes):
        slices(ctx, "one point per slice, level %d" % l, pts[l], bs[l], n, d)


@case("D03", quick=[dict(sizes=(1, 2), d=1, kind="shared"), dict(sizes=(2, 3), d=2, kind="separate"), dict(sizes=(2, 3), d=1, kind="shared"), dict(sizes=(1, 2, 2), d=1, kind="separate")],
      thorough=[dict(sizes=(3, 4), d=1, kind="shared"), dict(sizes=(2, 3, 3), d=1, kind="separate")])
def mflhs_slices(ctx, sizes, d, kind):
    ctx.lhs_stratified = True
    arg, bs = spaces(ctx, kind, d, len(sizes))
    pts = build_mf(ctx, "MFLatinHyperCube", arg, False).get_samples(num_samples=list(sizes), seed=3)
    for l, n in enumerate(sizes):
        slices(ctx, "one point per slice, level %d" % l, pts[l], bs[l], n, d)


@case("D03", quick=[dict(sizes=(1, 2), d=1), dict(sizes=(2, 3), d=2)], thorough=[dict(sizes=(2, 4), d=1)])
def mflhs_nested_lowest(ctx, sizes, d):
    """with nesting, the lowest level is the independently drawn one"""
    ctx.lhs_stratified = True
    arg, bs = spaces(ctx, "shared", d, len(sizes))
    pts = build_mf(ctx, "MFLatinHyperCube", arg, True).get_samples(num_samples=list(sizes), seed=3)
    slices(ctx, "one point per slice, lowest level", pts[-1], bs[-1], sizes[-1], d)


@case("D04", quick=product(cls=MFC, sizes=((1, 1), (1, 3), (2, 3), (1, 2, 2), (1, 2, 3)), d=(1, 2), kind=("shared", "separate"), nested=(False, True)) + product(cls=MFC, sizes=((33, 70),), d=(1,), kind=("separate",), nested=(False,)),
      thorough=product(cls=MFC, sizes=((3, 8), (2, 5, 9), (1, 2, 3, 4)), d=(1, 3), kind=("shared", "separate"), nested=(False, True)))
def mf_sizes(ctx, cls, sizes, d, kind, nested):
    arg, bs = spaces(ctx, kind, d, len(sizes))
    s = build_mf(ctx, cls, arg, nested)
    pts = s.get_samples(num_samples=list(sizes), seed=ctx.choose("seed", [0, 7]))
    ctx.check("one array per level", len(pts) == len(sizes))
    for l, n in enumerate(sizes):
        ctx.shape("level %d" % l, pts[l], (n, d))
        if not nested:
            inside(ctx, "level %d inside its own space" % l, pts[l], bs[l])
        ctx.eq("current samples, level %d" % l, s.data[l], pts[l])
    if nested:
        inside(ctx, "lowest level inside its own space", pts[-1], bs[-1])


@case("D04", quick=product(cls=MFC, sizes=((2, 1), (3, 2), (2, 1, 3), (1, 3, 2), (3, 1, 2)), nested=(False, True)))
def mf_sizes_rejected(ctx, cls, sizes, nested):
    arg, bs = spaces(ctx, "shared", 1, len(sizes))
    s = build_mf(ctx, cls, arg, nested)
    ctx.raises("more high- than low-fidelity points is rejected", (Exception,), lambda: s.get_samples(num_samples=list(sizes), seed=1))


@case("D04", quick=product(cls=MFC, sizes=((1, 2), (2, 2, 3)), d=(2,)), thorough=product(cls=MFC, sizes=((2, 5),), d=(3,)))
def mf_affine(ctx, cls, sizes, d):
    """each independently drawn level is the affine image of its unit-cube design"""
    arg, bs = spaces(ctx, "separate", d, len(sizes))
    pts = build_mf(ctx, cls, arg, False).get_samples(num_samples=list(sizes), seed=4)
    u = build_mf(ctx, cls, ([unit(ctx, d)] * len(sizes), None), False).get_samples(num_samples=list(sizes), seed=4)
    for l in range(len(sizes)):
        ctx.eq("affine image, level %d" % l, pts[l], bs[l][:, 0] + u[l] * (bs[l][:, 1] - bs[l][:, 0]))


@case("D05", quick=product(cls=MFC, sizes=((1, 1), (1, 3), (2, 3), (3, 3), (1, 2, 3), (2, 2, 3)), d=(1, 2)), thorough=product(cls=MFC, sizes=((3, 5), (2, 3, 4), (4, 6)), d=(1, 3)))
def nested(ctx, cls, sizes, d):
    arg, bs = spaces(ctx, "shared", d, len(sizes))
    pts = build_mf(ctx, cls, arg, True).get_samples(num_samples=list(sizes), seed=ctx.choose("seed", [0, 7, None]))
    low = pts[-1]
    for i in range(sizes[-1]):
        for k in range(i):
            ctx.assume(ctx.neg(ctx.same(low[i, 0], low[k, 0])))
    for l in range(len(sizes) - 1):
        hi, lo = pts[l], pts[l + 1]
        ctx.shape("level %d" % l, hi, (sizes[l], d))
        for i in range(sizes[l]):
            ctx.check("every level-%d point is a point of the next lower fidelity" % l, ctx.disj(*[ctx.same(hi[i], lo[k]) for k in range(sizes[l + 1])]))
            for k in range(i):
                ctx.check("no low-fidelity point is used twice (level %d)" % l, ctx.neg(ctx.same(hi[i], hi[k])))


NAMES = ["data", "my.design", "run_1", "sub/data", "sub/v1.0/data.2"]


@case("D06", quick=product(cls=SFC, n=(1, 2), d=(2,)), thorough=product(cls=SFC, n=(5,), d=(3,)))
def sf_save(ctx, cls, n, d):
    box = ctx.box("b", d)
    ctx.mkdir("sub/v1.0")
    name = ctx.choose("name", NAMES)
    s = sf(ctx, cls)(box)
    s.get_samples(num_samples=n + 1, seed=1)
    pts = s.get_samples(num_samples=n, seed=2).copy()
    s.save_data(name)
    ctx.check("one file with the requested name", ctx.saved_names() == [name + ".pickle"])
    ctx.eq("file holds the last drawn samples", ctx.saved(name + ".pickle"), pts)
    other = s.get_samples(num_samples=n, seed=3).copy()
    s.save_data(name)
    ctx.eq("saving again holds the new samples", ctx.saved(name + ".pickle"), other)
    ctx.eq("samples unchanged by saving", s.samples, other)


@case("D06", quick=product(cls=MFC, sizes=((1, 2), (1, 2, 2)), d=(1,), nested=(True, False)))
def mf_save(ctx, cls, sizes, d, nested):
    arg, bs = spaces(ctx, "shared", d, len(sizes))
    ctx.mkdir("sub/v1.0")
    name = ctx.choose("name", NAMES)
    s = build_mf(ctx, cls, arg, nested)
    s.get_samples(num_samples=list(sizes), seed=1)
    pts = [x.copy() for x in s.get_samples(num_samples=list(sizes), seed=2)]
    s.save_data(name)
    ctx.check("one file with the requested name", ctx.saved_names() == [name + ".pickle"])
    got = ctx.saved(name + ".pickle")
    ctx.check("file holds every level", len(got) == len(sizes))
    for l in range(len(sizes)):
        ctx.eq("file holds level %d" % l, got[l], pts[l])
