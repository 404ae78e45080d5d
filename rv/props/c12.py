import warnings

import numpy as np
from .. import core, gen, model as m, probes

PROP = "C12"
FAMILIES = []
RULE = ("Random boxes (cubes, slabs, needles, boxes with edges at multiples of the minimum distance), densities up to a fifth of space "
        "filled by hard spheres, random seeds and batch parameters; counts, bounds and brute-force minimum-image distances are judged "
        "on every block, whether returned directly, supplied by generators, or populated in volumes.")
ASSUMPTIONS = ["hard-sphere volume fraction at most 0.2 (packing is random sequential: denser requests need not end)",
               "periodic box edges in x and y are at least the minimum distance",
               "coarse uniformity is judged at six standard deviations of independent atoms, and not for batches (the batched routine prefers some voxels if batches are as large as the grid)"]
MIN_EVENTS = {"blocks": 300, "pairs_judged": 1000000, "generator_blocks": 80, "reused_blocks": 40}


def random_box(ctx, d, n):
    """Box and density for about n atoms with minimum distance d."""
    rng = ctx.rng
    phi = rng.uniform(.02, .2)
    rho = phi / (np.pi / 6 * d**3)
    V = n / rho
    kind = ctx.choice(["general", "cube", "slab", "needle", "multiples", "thin", "narrow"])
    if kind == "cube":
        L = np.ones(3) * V ** (1 / 3)
    elif kind == "slab":
        h = d * rng.uniform(.8, 2.5)
        L = np.array([np.sqrt(V / h)] * 2 + [h])
    elif kind == "thin":
        h = d * rng.uniform(.1, .6)
        L = np.array([np.sqrt(V / h)] * 2 + [h])
        # nearly two-dimensional: keep area coverage low
        rho = .2 / (np.pi / 4 * d**2) / h
        L[:2] = np.sqrt(n / rho / h)
    elif kind == "needle":
        h = d * rng.uniform(1.2, 2.5)
        L = np.array([h, h, V / h**2])
    elif kind == "narrow":
        h = d * rng.uniform(1.05, 3.2)
        L = np.array([h, np.sqrt(V / h), np.sqrt(V / h)])
        L = L[[0, 1, 2] if ctx.chance(.5) else [1, 0, 2]]
    elif kind == "multiples":
        k = np.maximum(np.round((V / d**3) ** (1 / 3) * rng.uniform(.7, 1.4, 3)), 1)
        L = d * k * rng.choice([1.0, 1 - 1e-12, 1 + 1e-12, .999, 1.001])
    else:
        L = V ** (1 / 3) * np.exp(rng.normal(size=3) * .3)
    L[:2] = np.maximum(L[:2], d * 1.0001)
    return L, float(rho), kind


def judge_block(ctx, X, L, d, rho, lo=None, what="block", periodic=(True, True, False), spread=True):
    X = np.asarray(X, float)
    L = np.asarray(L, float)
    lo = np.zeros(3) if lo is None else np.asarray(lo, float)
    want = np.prod(L) * rho
    ctx.check(X.ndim == 2 and X.shape[1:] == (3,), what + ": shape", shape=X.shape)
    ctx.check(abs(len(X) - want) <= .5 + 1e-6 * want, what + ": number of atoms", got=len(X), expected=want, dims=L)
    if not len(X):
        return
    ctx.check(np.all(np.isfinite(X)), what + ": positions not finite")
    eps = 1e-9 * max(1., np.max(np.abs(lo)) + np.max(L))
    ctx.check(np.all(X >= lo - eps) and np.all(X <= lo + L + eps), what + ": atom outside of the box",
              dims=L, lo=X.min(axis=0) - lo, hi=X.max(axis=0) - lo)
    Y = X - lo
    if len(Y) > 1000:          # too many pairs to look at one by one: nearest images from a periodic tree
        from scipy.spatial import cKDTree
        box = np.array([l if p else 0. for l, p in zip(L, periodic)])
        F = np.where(box > 0, np.mod(Y, np.where(box > 0, box, 1)), Y)
        F = np.where((box > 0) & (F >= box), 0, F)
        D = cKDTree(F, boxsize=box).query(F, k=2)[0][:, 1]
        ctx.check(D.min() >= d - 1e-7, what + ": atoms too close", dims=L, min_dist=d, found=D.min())
        ctx.event("neighbours_judged", len(D))
        Y = Y[:0]
    for i in range(0, len(Y), 400):
        D = m.min_image_d2(Y[i:i + 400], Y, L, periodic)
        D[np.arange(len(D)), np.arange(i, i + len(D))] = np.inf
        ctx.check(D.min() >= (d - 1e-7) ** 2, what + ": atoms too close", dims=L, min_dist=d, found=np.sqrt(D.min()))
        ctx.event("pairs_judged", D.size)
    Y = X - lo
    if spread and len(X) >= 150:
        n = len(X)
        for k in range(3):
            c = int((Y[:, k] < L[k] / 2).sum())
            ctx.check(abs(c - n / 2) < 6 * np.sqrt(n) / 2, what + ": atoms are not spread over the box", axis=k, n=n, half=c)
    ctx.event("blocks")
    ctx.observe(len(X))


@core.family(FAMILIES, 260, 8000, "blocks packed one by one")
def one_by_one(ctx):
    from czone.generator.amorphous_algorithms import gen_p_substrate
    d = float(ctx.choice([1.4, 1.0, ctx.rng.uniform(.5, 4)]))
    L, rho, kind = random_box(ctx, d, ctx.choice([0.3, 2, 20, 80, 200, 400]))
    kw = {}
    if ctx.chance(.7):
        kw["seed"] = ctx.randint(0, 10**6)
    if ctx.chance(.1):
        kw["print_progress"] = True
    L0 = L.copy()
    if ctx.chance(.15):        # array of sizes used before for another box
        L = L0[::-1].copy() if L0[2] > d * 1.01 else L0 * 1.1
        gen_p_substrate(L, min_dist=d, density=rho / 4, **kw)
        L[...] = L0
        ctx.event("reused_arrays")
    X = gen_p_substrate(list(L) if ctx.chance(.3) else L, min_dist=d, density=rho, **kw)
    judge_block(ctx, X, L0, d, rho)
    ctx.describe(kind=kind, dims=np.round(L, 4), d=d, rho=rho, n=len(X))


@core.family(FAMILIES, 160, 5000, "blocks packed in batches")
def batched(ctx):
    from czone.generator.amorphous_algorithms import gen_p_substrate_batched
    d = float(ctx.choice([1.4, 1.0, ctx.rng.uniform(.5, 4)]))
    L, rho, kind = random_box(ctx, d, ctx.choice([0.3, 2, 20, 80, 200, 300]))
    kw = {}
    if ctx.chance(.7):
        kw["seed"] = ctx.randint(0, 10**6)
    if ctx.chance(.5):
        kw["voxel_scale"] = float(ctx.choice([1.0, 1.5, 3.0]))
    if ctx.chance(.5):
        kw["batch_size"] = int(ctx.choice([1, 2, 7, 40, 200]))
    X = gen_p_substrate_batched(L.copy(), min_dist=d, density=rho, **kw)
    judge_block(ctx, X, L, d, rho, what="batched block", spread=False)
    ctx.describe(kind=kind, dims=np.round(L, 4), d=d, rho=rho, n=len(X), kw=kw)


@core.family(FAMILIES, 20, 600, "default material")
def defaults(ctx):
    from czone.generator.amorphous_algorithms import gen_p_substrate, gen_p_substrate_batched
    f = ctx.choice([gen_p_substrate, gen_p_substrate_batched])
    L = ctx.rng.uniform(4, 14, 3)
    X = f(L.copy())
    judge_block(ctx, X, L, 1.4, .1103075, what="default block", spread=f is gen_p_substrate)
    ctx.describe(dims=np.round(L, 3), f=f.__name__)


@core.family(FAMILIES, 5, 120, "blocks of thousands of atoms")
def large(ctx):
    from czone.generator.amorphous_algorithms import gen_p_substrate, gen_p_substrate_batched
    from czone.generator import AmorphousGenerator
    d = float(ctx.choice([1.4, ctx.rng.uniform(.5, 4)]))
    L, rho, kind = random_box(ctx, d, ctx.choice([1500, 3000, 6000, 11000]))
    how = ctx.choice(["one by one", "batched", "generator"])
    if how == "generator":
        lo = gen.point(ctx, ctx.choice([10., 2000.]))
        g = AmorphousGenerator(min_dist=d, density=rho, species=14)
        X, Z = g.supply_atoms(np.array([lo, lo + L]))
        ctx.check(np.all(Z == 14) and len(Z) == len(X), "elements of a large block")
        judge_block(ctx, X, L, d, rho, lo=lo, what="large supplied block")
    else:
        X = (gen_p_substrate if how == "one by one" else gen_p_substrate_batched)(L.copy(), min_dist=d, density=rho)
        judge_block(ctx, X, L, d, rho, what="large block, " + how, spread=how == "one by one")
    ctx.event("large_blocks")
    ctx.describe(kind=kind, how=how, dims=np.round(L, 3), n=len(X))


def random_generator(ctx, n=150):
    from czone.generator import AmorphousGenerator
    d = float(ctx.rng.uniform(.8, 3))
    rho = float(ctx.rng.uniform(.02, .18) / (np.pi / 6 * d**3))
    Z = int(ctx.choice([6, 14, 32, 8]))
    kw = {}
    if ctx.chance(.4):
        kw["origin"] = gen.point(ctx)
    if ctx.chance(.5):
        g = AmorphousGenerator(min_dist=d, density=rho, species=Z, **kw)
    else:
        g = AmorphousGenerator(**kw)
        g.min_dist, g.density, g.species = d, rho, Z
    return g, d, rho, Z, (n / rho) ** (1 / 3)


def random_bbox(ctx, size):
    """Corner points of a region, and its extents."""
    c = gen.point(ctx, 30.)
    L = size * np.exp(ctx.rng.normal(size=3) * .3)
    P = np.array([[x, y, z] for x in (0, 1.) for y in (0, 1.) for z in (0, 1.)]) * L + c
    if ctx.chance(.3):
        P = np.vstack([P, c + ctx.rng.uniform(0, 1, (5, 3)) * L])
        P = P[ctx.rng.permutation(len(P))]
    elif ctx.chance(.3):
        P = P @ gen.rotation(ctx)[0].T
    elif ctx.chance(.4):        # two or three points span a box as well
        i = ctx.randint(0, 7)
        P = P[[i, 7 - i]]
        if ctx.chance(.5):
            P = np.vstack([P, c + ctx.rng.uniform(0, 1, (1, 3)) * L])[ctx.rng.permutation(3)]
    elif ctx.chance(.3):
        P = np.round(P)
    return P, P.min(axis=0), P.max(axis=0)


def judge_supply(ctx, X, Z, P, g, d, rho, z, what):
    lo, hi = P.min(axis=0), P.max(axis=0)
    judge_block(ctx, X, hi - lo, d, rho, lo, what)
    ctx.check(np.shape(Z) == (len(X),) and np.all(np.asarray(Z) == z), what + ": element", expected=z, got=Z)
    ctx.event("generator_blocks")


@core.family(FAMILIES, 70, 2500, "generators: place, element, density, re-use")
def generators(ctx):
    g, d, rho, z, size = random_generator(ctx)
    log = []
    last = None
    for _ in range(ctx.randint(1, 5)):
        op = ctx.choice(["supply", "supply", "reuse", "parameters", "fresh", "move", "origin"])
        if op == "origin":
            o = gen.point(ctx)
            g.origin = gen.vec(ctx, o, False)
            ctx.close(g.origin, o, 1e-12, "origin that was set")
            ctx.raises(lambda: setattr(g, "origin", ctx.rng.normal(size=ctx.choice([1, 2, 4]))), "origin of wrong size")
            ctx.close(g.origin, o, 1e-12, "origin after refusal")
            log.append(op)
            continue
        if op == "move":
            bo = ctx.chance(.3)
            t, A, k = gen.isometry(ctx, basis_only=bo)
            o = g.origin
            o = None if o is None else np.array(o, float)
            g.transform(t)
            A = np.eye(4) if bo else A
            if o is None:
                ctx.check(g.origin is None, "generator without origin has got one")
            else:
                ctx.close(g.origin, m.act(A, o.reshape(1, 3))[0], 1e-7, "origin of a moved generator")
            if last is not None:
                ctx.close(g.old_result[0], m.act(A, last[0]), 1e-7, "remembered block of a moved generator")
                ctx.check(np.array_equal(g.old_result[1], last[1]), "elements of a moved block")
                last = (np.array(g.old_result[0]), last[1])
                ctx.event("moved_blocks")
            log.append("move basis only" if bo else "move")
            continue
        if op == "parameters":
            d = float(d * ctx.rng.uniform(.8, 1.2))
            rho = float(ctx.rng.uniform(.02, .18) / (np.pi / 6 * d**3))
            z = int(ctx.choice([6, 14, 50]))
            g.min_dist, g.density, g.species = d, rho, z
            size = (100 / rho) ** (1 / 3)
        elif op == "reuse":
            g.use_old_result = True
        elif op == "fresh":
            g.use_old_result = False
        P, lo, hi = random_bbox(ctx, size)
        if np.any((hi - lo)[:2] < d * 1.01):
            continue
        if g.use_old_result or ctx.chance(.7):
            X, Z = g.supply_atoms(gen.form(ctx, P))
        else:
            X, Z = g.supply_atoms(gen.reused(ctx, P, g.supply_atoms, p=1.))
        if g.use_old_result and last is not None:
            ctx.check(np.array_equal(X, last[0]) and np.array_equal(Z, last[1]), "block was not re-used")
            ctx.event("reused_blocks")
            ctx.observe(len(X))
        else:
            judge_supply(ctx, X, Z, P, g, d, rho, z, "supplied block after " + op)
        last = (np.array(X), np.array(Z))
        ctx.check(np.array_equal(g.old_result[0], X) and np.array_equal(g.old_result[1], Z), "remembered block")
        log.append(op)
    ctx.describe(ops=log, d=d, rho=rho)


@core.family(FAMILIES, 70, 2500, "volumes filled with amorphous material")
def volumes(ctx):
    g, d, rho, z, size = random_generator(ctx, ctx.choice([30, 60, 100]))
    reg, rk = gen.bounded_region(ctx, gen.point(ctx, 20.), max(size * .6, 1.2 * d))
    v = gen.build_volume(ctx, reg, g)
    seen = []

    def post(c, tok, args, kwargs, result):
        P = args[1] if len(args) > 1 else kwargs["bbox"]
        seen.append((np.array(P), np.array(result[0]), np.array(result[1])))
    probes.hook("AmorphousGenerator.supply_atoms", None, post)
    v.populate_atoms()
    X, Z = np.array(v.atoms), np.array(v.species)
    BX, BZ = map(np.array, v.generator.old_result)
    for P, SX, SZ in seen:
        lo, hi = P.min(axis=0), P.max(axis=0)
        if np.all((hi - lo)[:2] > d * 1.01):
            judge_supply(ctx, SX, SZ, P, g, d, rho, z, "block supplied to a volume")
    # atoms of the volume: those of the block in the region, unchanged
    k = m.margin(reg, BX)
    b = m.band_of(reg, BX) + m.slack(reg)
    if len(BX):
        m.compare_sites(ctx, X, Z, BX, BZ.astype(int), k, b, "atoms of an amorphous volume")
    ctx.check(np.all(Z == z), "element of an amorphous volume")
    # the block covers the region: sample it
    S = gen.region_box(reg, 0)
    Q = ctx.rng.uniform(S[0], S[1], (400, 3))
    Q = Q[m.margin(reg, Q) < -b]
    if seen and len(Q):
        lo, hi = seen[-1][0].min(axis=0), seen[-1][0].max(axis=0)
        ctx.check(np.all((Q > lo - 1e-3) & (Q < hi + 1e-3)), "block does not cover the region", region=rk)
    if len(BX) and np.prod(np.ptp(BX, axis=0)) > 0 and len(Q) > 150:
        # expected number of atoms in the region (coarse)
        frac = len(Q) / 400
        n = frac * np.prod(S[1] - S[0]) * rho
        ctx.check(abs(len(X) - n) < 6 * np.sqrt(n) + .25 * n + 8, "density in the volume", got=len(X), expected=n, region=rk)
    # again with the old block, moved along
    if ctx.chance(.5):
        v.generator.use_old_result = True
        v.populate_atoms()
        m.same_rows(ctx, v.atoms, v.species, X, Z, "re-used block")
        ctx.event("reused_blocks")
    ctx.describe(region=rk, d=d, rho=rho, n=len(X))
