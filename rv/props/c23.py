import itertools
import numpy as np
from .. import core, gen, model as m

PROP = "C23"
FAMILIES = []
RULE = ("Random, clustered, crystalline and amorphous sets of 1 to 400 points in boxes of all shapes (also flat), with cutoffs from below the "
        "spacing to beyond the box, every periodicity, shifted and reordered. Expected counts: brute force over all ordered pairs at the smallest "
        "distance over images; pairs whose distance is on a bin edge to rounding may count on either side.")
ASSUMPTIONS = ["the period is the extent of the coordinates", "the first bin (below 0.1), which holds the distances of atoms to themselves, is empty",
               "the cutoff is a multiple of the bin width 0.1"]
MIN_EVENTS = {"pairs_in_range": 100000, "histograms": 300}

PER = list(itertools.product((True, False), repeat=3))


def expected_range(X, cutoff, per):
    """Lower and upper cumulative counts at the bin edges."""
    X = np.asarray(X, float)
    X = X - X.min(axis=0)
    L = X.max(axis=0)
    d = np.sort(np.concatenate([np.sqrt(m.min_image_d2(X[i:i + 300], X, L, per)).ravel() for i in range(0, len(X), 300)]))
    n = int(round(cutoff / .1))
    edges = np.linspace(0, cutoff, n + 1)
    eps = 1e-9 * max(1., float(L.max()))
    return np.searchsorted(d, edges - eps, "left"), np.searchsorted(d, edges + eps, "right"), edges


def judge(ctx, c, X, cutoff, per, what):
    c = np.asarray(c, float)
    lo, hi, edges = expected_range(X, cutoff, per)
    ctx.check(c.shape == (len(edges) - 1,), f"{what}: number of bins", got=c.shape, expected=len(edges) - 1)
    ctx.check(c[0] == 0, f"{what}: first bin is not empty", n=c[0])
    ctx.check(np.all(c == np.round(c)) and np.all(c >= 0), f"{what}: counts are not whole numbers")
    low = lo[2:] - hi[1]
    high = hi[2:] - lo[1]
    cum = np.cumsum(c[1:])
    bad = (cum < low) | (cum > high)
    ctx.check(not bad.any(), f"{what}: counts differ from brute force", at=edges[2:][bad][:3], got=cum[bad][:3], low=low[bad][:3], high=high[bad][:3],
              n=len(X), periodic=per, cutoff=cutoff)
    # every single bin
    bl = lo[2:] - hi[1:-1]
    bh = hi[2:] - lo[1:-1]
    bad = (c[1:] < bl) | (c[1:] > bh)
    ctx.check(not bad.any(), f"{what}: counts of single bins differ from brute force", at=edges[1:-1][bad][:3], got=c[1:][bad][:3], n=len(X))
    ctx.event("pairs_in_range", int(cum[-1]) if len(cum) else 0)
    ctx.event("histograms")
    ctx.event("edge_pairs_undecided", int((hi - lo).sum()))
    ctx.observe(max(1, int(cum[-1]) if len(cum) else 0))


def points(ctx):
    k = ctx.choice(["random", "random", "cluster", "grid", "flat", "line", "crystal", "tiny", "faces"])
    n = ctx.randint(2, 300)
    L = ctx.rng.uniform(2, 25, 3)
    if k == "random":
        X = ctx.rng.uniform(0, 1, (n, 3)) * L
    elif k == "cluster":
        X = ctx.rng.uniform(0, 1, (5, 3))[ctx.rng.integers(0, 5, n)] * L + ctx.rng.normal(size=(n, 3)) * .4
    elif k == "grid":
        a = ctx.choice([.5, 1., 1.5, 2.])
        X = np.array(list(itertools.product(*[range(ctx.randint(1, 7)) for _ in range(3)])), float) * a
    elif k == "flat":
        X = ctx.rng.uniform(0, 1, (n, 3)) * L
        X[:, ctx.randint(0, 2)] = 1.3
    elif k == "line":
        X = np.zeros((n, 3))
        X[:, ctx.randint(0, 2)] = ctx.rng.uniform(0, 40, n)
    elif k == "crystal":
        _, cr = gen.crystal(ctx, small=True)
        X, _ = cr.sites(np.zeros(3), ctx.rng.uniform(6, 14, 3))
        X = X[:400]
        if not len(X):
            X = np.zeros((1, 3))
    elif k == "tiny":
        X = ctx.rng.uniform(0, 1, (ctx.randint(1, 3), 3)) * L
    else:
        X = ctx.rng.uniform(0, 1, (n, 3)) * L
        i = ctx.rng.integers(0, 3, n // 2)
        X[np.arange(n // 2), i] = L[i] * ctx.rng.integers(0, 2, n // 2)
        X[0], X[1] = 0, L
    return X, k


@core.family(FAMILIES, 350, 12000, "distribution of any set of points")
def histograms(ctx):
    from czone.util.measure import calc_rdf
    X, kind = points(ctx)
    if ctx.chance(.4):
        X = X + gen.point(ctx, 100.)
    last = None
    for _ in range(2):
        ext = np.max(np.ptp(X, axis=0))
        cutoff = ctx.choice([.5, 1., 2., 3.3, 5., 7.5, 10., 20.]) if ctx.chance(.6) else float(np.round(ctx.rng.uniform(.2, max(.4, 1.3 * ext)), 1))
        cutoff = min(cutoff, 40.)
        if cutoff / .1 < 2:
            cutoff = .3
        # no more than a few thousand voxels
        while np.prod(np.maximum(np.floor(np.ptp(X, axis=0) / cutoff), 1)) > 1500:
            cutoff = float(np.round(cutoff * 1.7, 1))
        per = ctx.choice(PER)
        if last is not None and ctx.chance(.4):           # the same points and cutoff in another periodicity, or other points
            cutoff = last
            ctx.event("same_cutoff")
            if ctx.chance(.4):
                X = np.array(X)
                X[ctx.randint(0, len(X) - 1)] += ctx.rng.normal(size=3) * .3
                while np.prod(np.maximum(np.floor(np.ptp(X, axis=0) / cutoff), 1)) > 3000:
                    cutoff = float(np.round(cutoff * 1.7, 1))
        last = cutoff
        X = gen.reused(ctx, X, lambda Y: calc_rdf(Y, cutoff, *per), p=.15)
        X0 = X.copy()
        r = ctx.rng.random()
        if r < .4:
            c = calc_rdf(X, cutoff, *per)
        elif r < .8:
            c = calc_rdf(X, cutoff=cutoff, px=per[0], py=per[1], pz=per[2])
        else:
            per = (True, True, True)
            if np.prod(np.maximum(np.floor(np.ptp(X, axis=0) / 20.), 1)) < 500 and ctx.chance(.5):
                cutoff = 20.
                c = calc_rdf(X)
            else:
                c = calc_rdf(X, cutoff)
        ctx.check(np.array_equal(X, X0), "coordinates handed in were changed")
        judge(ctx, c, X, cutoff, per, f"distribution ({kind})")
    ctx.describe(kind=kind, n=len(X), cutoff=cutoff, periodic=per)


@core.family(FAMILIES, 25, 300, "distribution of populated objects and amorphous blocks")
def objects(ctx):
    from czone.util.measure import calc_rdf
    from czone.volume import Volume
    if ctx.chance(.5):
        g, cr = gen.crystal(ctx, small=True)
        region, kind = gen.bounded_region(ctx, gen.point(ctx), gen.size_for(ctx, cr, 150))
        v = gen.build_volume(ctx, region, generator=g)
        v.populate_atoms()
    else:
        from czone.generator import AmorphousGenerator
        from czone.volume import makeRectPrism
        v = Volume(points=makeRectPrism(*ctx.rng.uniform(7, 11, 3)), generator=AmorphousGenerator())
        v.populate_atoms()
        kind = "amorphous"
    X = np.array(v.atoms)
    if len(X) < 2 or len(X) > 1500:
        raise core.Skip("number of atoms")
    cutoff = float(ctx.choice([3., 6., 10.]))
    per = ctx.choice(PER)
    c = calc_rdf(v.atoms, cutoff, *per)
    ctx.check(np.array_equal(X, v.atoms), "atoms of the object were changed")
    judge(ctx, c, X, cutoff, per, f"distribution of atoms ({kind})")
    ctx.describe(n=len(X), kind=kind, cutoff=cutoff, periodic=per)


@core.family(FAMILIES, 5, 120, "thousands of points, large boxes, far from the origin")
def large(ctx):
    from czone.util.measure import calc_rdf
    n = ctx.choice([600, 1100, 2100])
    L = (n ** (1 / 3) * 2) * np.exp(ctx.rng.normal(size=3) * .4)
    s = ctx.choice([1., 1., 10.])
    X = ctx.rng.uniform(0, 1, (n, 3)) * L * s + gen.point(ctx, ctx.choice([10., 5000.]))
    if ctx.chance(.3):
        X = np.round(X / s) * s
    cutoff = float(np.round(s * ctx.rng.uniform(2.5, 9), 1))
    for per in (ctx.choice(PER), ctx.choice(PER)):
        c = calc_rdf(np.array(X), cutoff, *per)
        judge(ctx, c, X, cutoff, per, "distribution of many points")
    ctx.event("large_sets")
    ctx.describe(n=n, L=np.round(L * s, 1), cutoff=cutoff, periodic=per)


@core.family(FAMILIES, 3, 60, "many atoms: distances within blocks of a cubic grid are counted in closed form")
def many(ctx):
    from czone.util.measure import calc_rdf
    big = ctx.index % 3 == 0
    n = ctx.rng.integers(23, 26, 3) if big else ctx.rng.integers(2, 24, 3)
    a = float(ctx.rng.uniform(1., 3.))
    cutoff = float(np.round(a * ctx.rng.uniform(1.1, 2.6), 1)) if big else float(np.round(a * ctx.rng.uniform(2.5, 5), 1))
    per = (False,) * 3 if big and ctx.chance(.5) else ctx.choice(PER)
    X = np.array(list(itertools.product(*[range(int(k)) for k in n])), float) * a
    X = X[ctx.rng.permutation(len(X))] + gen.point(ctx, 20.)
    c = np.asarray(calc_rdf(X, cutoff, *per), float)
    # numbers of ordered pairs at each separation along the axes
    sep = []
    for k, p in zip(n, per):
        k = int(k)
        d = np.arange(k)
        w = np.where(d == 0, k, 2 * (k - d)).astype(float)
        sep.append((np.minimum(d, k - 1 - d) if p else d, w))
    D = np.sqrt(sum(np.reshape(s[0].astype(float) ** 2, [-1 if i == j else 1 for j in range(3)]) for i, s in enumerate(sep))) * a
    Wt = np.ones(D.shape)
    for i, s in enumerate(sep):
        Wt = Wt * np.reshape(s[1], [-1 if i == j else 1 for j in range(3)])
    edges = np.linspace(0, cutoff, len(c) + 1)
    ctx.check(len(c) == int(round(cutoff / .1)), "many atoms: number of bins", got=len(c))
    D, Wt = D.ravel(), Wt.ravel()
    eps = 1e-9 * max(1., float(np.max(n)) * a)
    for i in range(1, len(c)):
        sure = Wt[(D > edges[i] + eps) & (D < edges[i + 1] - eps)].sum()
        most = Wt[(D > edges[i] - eps) & (D < edges[i + 1] + eps)].sum()
        ctx.check(sure <= c[i] <= most, "many atoms: count differs from the closed form", at=edges[i], got=c[i], expected=sure, upto=most, n=n, periodic=per)
    ctx.check(c[0] == 0, "many atoms: first bin is not empty")
    ctx.event("pairs_in_range", int(c.sum()))
    ctx.event("largest_count", int(c.max()))
    ctx.event("histograms")
    ctx.observe(int(c.sum()))
    ctx.describe(n=n, spacing=round(a, 3), cutoff=cutoff, periodic=per)
