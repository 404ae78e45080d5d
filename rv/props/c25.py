from fractions import Fraction
import numpy as np
from scipy.spatial import ConvexHull, Delaunay, cKDTree
from .. import core, gen, model as m

PROP = "C25"
FAMILIES = []
RULE = ("Random clouds, clusters, crystals cut to particles and slabs, particles with voids and notches, in any position, for probes from below "
        "the atomic spacing to far above the size of the cloud, for both variants of the routine. Expected atoms from circumradii of the tetrahedra "
        "in higher precision; tetrahedra are left open if the random displacements the routine adds may decide about them. Circumradii against "
        "exact rational arithmetic.")
ASSUMPTIONS = ["the triangulation itself is that of scipy (its points are compared with the atoms)",
               "tetrahedra flatter than 100 times the random displacement, or whose radius they can move across the probe, may be taken or left"]
MIN_EVENTS = {"radii": 20000, "tetrahedra_decided": 40000, "surface_atoms": 8000, "hidden_atoms": 8000, "hulls": 100}


# ------------------------------------------------------------------------------ circumradii
def exact_radius2(t):
    """Squared circumradius by rational arithmetic: 2 (p_i - p_0).c = |p_i - p_0|^2"""
    p = [[Fraction(float(x)) for x in q] for q in t]
    d = [[p[i][k] - p[0][k] for k in range(3)] for i in (1, 2, 3)]
    b = [sum(x * x for x in r) / 2 for r in d]

    def det(a):
        return (a[0][0] * (a[1][1] * a[2][2] - a[1][2] * a[2][1]) - a[0][1] * (a[1][0] * a[2][2] - a[1][2] * a[2][0])
                + a[0][2] * (a[1][0] * a[2][1] - a[1][1] * a[2][0]))
    D = det(d)
    if D == 0:
        return None
    c = []
    for k in range(3):
        a = [list(r) for r in d]
        for i in range(3):
            a[i][k] = b[i]
        c.append(det(a) / D)
    return sum(x * x for x in c)


def radii(T):
    """Circumradii and heights (6 V / largest face area / 2)."""
    T = np.asarray(T, np.longdouble)
    d = T[:, 1:] - T[:, :1]
    b = np.sum(d * d, axis=2) / 2
    cr = np.stack([np.cross(d[:, 1], d[:, 2]), np.cross(d[:, 2], d[:, 0]), np.cross(d[:, 0], d[:, 1])], axis=1)
    D = np.sum(d[:, 0] * cr[:, 0], axis=1)
    with np.errstate(all="ignore"):
        c = np.sum(b[:, :, None] * cr, axis=1) / D[:, None]
        R = np.sqrt(np.sum(c * c, axis=1))
    f = np.linalg.norm(np.concatenate([cr, np.cross(d[:, 1] - d[:, 0], d[:, 2] - d[:, 0])[:, None]], axis=1).astype(float), axis=2)
    h = np.abs(D).astype(float) / np.maximum(f.max(axis=1), 1e-300)
    R = R.astype(float)
    R[~np.isfinite(R)] = np.inf
    return R, h


@core.family(FAMILIES, 150, 6000, "circumradii of tetrahedra of any shape and position")
def circumradii(ctx):
    from czone.surface.alpha_shape import tetrahedron_circumradii
    n = 200
    L = 10 ** ctx.rng.uniform(-2, 3)
    off = gen.point(ctx, 10.) * ctx.choice([0., 1., 10.])
    T = ctx.rng.normal(size=(n, 4, 3))
    k = ctx.choice(["random", "random", "flat", "needle", "lattice", "regular"])
    if k == "flat":
        T[:, :, ctx.randint(0, 2)] *= .02
    elif k == "needle":
        T[:, :, ctx.randint(0, 2)] *= 30
    elif k == "lattice":
        T = np.round(T * 2)
    elif k == "regular":
        T[:] = np.array([[1, 1, 1], [1, -1, -1], [-1, 1, -1], [-1, -1, 1]])
        T = np.array([x @ m.quat_matrix(ctx.rng.normal(size=4)).T for x in T])
    T = T * L + off
    d = T[:, 1:] - T[:, :1]
    vol = np.abs(np.linalg.det(d))
    e = np.max(np.linalg.norm(d, axis=2), axis=1)
    T = T[vol > 1e-6 * e**3]
    if not len(T):
        raise core.Skip("only flat tetrahedra")
    d = T[:, 1:] - T[:, :1]
    q = np.abs(np.linalg.det(d)) / np.max(np.linalg.norm(d, axis=2), axis=1) ** 3
    e = np.max(np.linalg.norm(d, axis=2), axis=1)
    T = gen.reused(ctx, T, tetrahedron_circumradii, T[::-1] * 1.3, .2)
    T0 = T.copy()
    got = np.asarray(tetrahedron_circumradii(T if ctx.chance(.8) else T.tolist()))
    ctx.check(np.array_equal(T, T0), "tetrahedra were changed")
    ctx.check(got.shape == (len(T),), "number of radii", got=got.shape)
    R, _ = radii(T)
    rel = 1e-11 * (1 + np.max(np.abs(T), axis=(1, 2)) / e) / q**2
    bad = ~(np.abs(got - R) <= rel * R)
    ctx.check(not bad.any(), f"circumradius ({k})", got=got[bad][:3], expected=R[bad][:3], T=T[bad][:1])
    for i in range(min(4, len(T))):
        E = exact_radius2(T[i])
        ctx.check(E is not None and abs(float(E) ** .5 - got[i]) <= rel[i] * R[i] + 1e-12 * R[i], f"circumradius against exact value ({k})", got=got[i])
    # same for any order of the corners
    p = ctx.rng.permutation(4)
    g2 = np.asarray(tetrahedron_circumradii(T[:, p]))
    ctx.check(np.all(np.abs(g2 - got) <= 2 * rel * R), "circumradius depends on the order of corners")
    ctx.event("radii", len(T))
    ctx.observe(len(T))
    ctx.describe(kind=k, L=round(L, 4), n=len(T), off=np.round(off, 2))


# ------------------------------------------------------------------------------ alpha shapes
def cloud(ctx, nmax=400):
    k = ctx.choice(["ball", "box", "particle", "particle", "slab", "void", "notch", "clusters", "few", "two"])
    n = ctx.randint(30, nmax)
    s = ctx.rng.uniform(4, 14)
    rng = ctx.rng

    def ball(n, r):
        x = rng.normal(size=(n, 3))
        return x / np.linalg.norm(x, axis=1)[:, None] * r * rng.uniform(0, 1, (n, 1)) ** (1 / 3)
    if k == "ball":
        X = ball(n, s)
    elif k == "box":
        X = rng.uniform(0, 1, (n, 3)) * s * rng.uniform(.4, 1.5, 3)
    elif k in ("particle", "slab", "void", "notch"):
        _, cr = gen.crystal(ctx, small=True)
        V = cr.cell_volume() / len(cr.Z)
        r = (3 * V * n / 4 / np.pi) ** (1 / 3)
        cr = cr.moved(m.affine(gen.rotation(ctx)[0], rng.uniform(-3, 3, 3)))
        if k == "slab":
            h = (V * n) ** (1 / 3) * np.array([.7, .7, .3])
            X, _ = cr.sites(-h, h)
        else:
            X, _ = cr.sites(-r * np.ones(3), r * np.ones(3))
            X = X[np.linalg.norm(X, axis=1) < r]
        if k == "void":
            X = X[np.linalg.norm(X - rng.normal(size=3) * .2 * r, axis=1) > rng.uniform(.3, .6) * r]
        if k == "notch":
            X = X[~((X[:, 0] > 0) & (np.abs(X[:, 1]) < .3 * r))]
    elif k == "clusters":
        X = np.vstack([ball(n // 3, s * .4) + rng.normal(size=3) * s for _ in range(3)])
    elif k == "few":
        X = ball(ctx.randint(4, 12), s)
    else:
        X = np.vstack([ball(n // 2, s * .4), ball(n // 2, s * .4) + [s * 2, 0, 0]])
    X = X[:nmax * 2]
    if len(X) < 4 or np.linalg.svd(X - X.mean(axis=0), compute_uv=False)[2] < .3:
        raise core.Skip("cloud without volume")
    return X + gen.point(ctx, 30.), k


def classify(tri, P, probe, noise):
    """sure-in, sure-out of tetrahedra."""
    R, h = radii(np.asarray(P, float)[tri.simplices])
    clear = h > 100 * noise
    b = .01 + 20 * noise / np.maximum(h, 1e-12)
    ins = clear & (R < (1 - b) * probe)
    out = clear & (R > (1 + b) * probe)
    return ins, out


def must_may(tri, ins, out, n):
    nb = tri.neighbors
    outside = (nb == -1).any(axis=1)
    must, may = np.zeros(n, bool), np.zeros(n, bool)
    for f in range(4):
        corner = np.delete(tri.simplices, f, axis=1)
        j = nb[:, f]
        free = j == -1
        gone = ~free & outside[j] & out[j]
        perhaps = ~free & outside[j] & ~ins[j]
        must[corner[ins & (free | gone)].ravel()] = True
        may[corner[~out & (free | perhaps)].ravel()] = True
    return must, may


def judge(ctx, idx, P, tri, probe, noise, what, shape=None):
    n = len(P)
    idx = np.asarray(sorted(int(i) for i in idx), int)
    ctx.check(len(set(idx.tolist())) == len(idx), f"{what}: atom reported twice")
    ctx.check(len(idx) == 0 or (idx[0] >= 0 and idx[-1] < n), f"{what}: no such atom")
    ins, out = classify(tri, P, probe, noise)
    must, may = must_may(tri, ins, out, n)
    rep = np.zeros(n, bool)
    rep[idx] = True
    ctx.check(not (must & ~rep).any(), f"{what}: exterior atoms are missing", missing=np.flatnonzero(must & ~rep)[:5], n=int((must & ~rep).sum()),
              of=int(must.sum()), probe=probe)
    ctx.check(not (rep & ~may).any(), f"{what}: atoms reported that are not on the exterior", extra=np.flatnonzero(rep & ~may)[:5],
              n=int((rep & ~may).sum()), probe=probe)
    if shape is not None:
        outside = (tri.neighbors == -1).any(axis=1)
        nb = tri.neighbors
        st = np.asarray(shape["surface_tris"], bool)
        ctx.check(st.shape == (len(tri.simplices),), f"{what}: surface tetrahedra")
        sure = np.zeros(len(st), bool)
        perhaps = np.zeros(len(st), bool)
        for f in range(4):
            j = nb[:, f]
            fr = j != -1
            sure |= fr & outside[j] & out[j]
            perhaps |= fr & outside[j] & ~ins[j]
        ctx.check(np.all(st[ins & (outside | sure)]), f"{what}: surface tetrahedra are missing")
        ctx.check(not np.any(st & (out | ~(outside | perhaps))), f"{what}: tetrahedra that are not on the surface")
        a = np.zeros(len(st), bool)
        a[np.asarray(shape["a_tris"], int)] = True
        ctx.check(np.all(a[~outside | ins]) and not np.any(a & outside & out), f"{what}: tetrahedra of the shape")
    ctx.event("tetrahedra_decided", int((ins | out).sum()))
    ctx.event("tetrahedra_open", int((~(ins | out)).sum()))
    ctx.event("surface_atoms", int(must.sum()))
    ctx.event("hidden_atoms", int((~may).sum()))
    ctx.observe(int(must.sum() + (~may).sum()))


def probes_for(ctx, X):
    d = np.median(cKDTree(X).query(X, 2)[0][:, 1])
    return float(ctx.choice([.6, .8, 1., 1.3, 2., 3., 6., 20.]) * d * ctx.rng.uniform(.9, 1.1))


@core.family(FAMILIES, 130, 5000, "exterior atoms for any probe")
def shapes(ctx):
    from czone.surface.alpha_shape import alpha_shape_alg_3D, alpha_shape_alg_3D_with_sampling
    X, kind = cloud(ctx)
    probe = probes_for(ctx, X)
    X = gen.reused(ctx, X, lambda Y: (alpha_shape_alg_3D(Y, probe), alpha_shape_alg_3D_with_sampling(Y, probe, 1)), X[::-1] * .8 + ctx.rng.normal(size=X.shape) * .05, .2)
    X0 = X.copy()
    ctx.describe(kind=kind, n=len(X), probe=round(probe, 3))
    out, sh = alpha_shape_alg_3D(X, probe, return_alpha_shape=True)
    tri = sh["tri"]
    ctx.check(np.array_equal(X, X0), "points were changed")
    ctx.check(np.asarray(tri.points).shape == X.shape and np.max(np.abs(tri.points - X)) < 2e-4, "triangulation is not that of the points")
    judge(ctx, out, tri.points, tri, probe, 1e-9, f"alpha shape ({kind})", sh)
    std = ctx.choice([1e-4, 1e-4, 1e-6, 1e-3])
    kw = {} if std == 1e-4 else dict(std=std)
    N = ctx.choice([1, 3, 20])
    seed = ctx.randint(0, 9999)
    out, sh = alpha_shape_alg_3D_with_sampling(X, probe, N, seed=seed, return_alpha_shape=True, **kw)
    tri = sh["tri"]
    ctx.check(np.array_equal(np.asarray(tri.points), X), "triangulation is not that of the points")
    judge(ctx, out, X, tri, probe, std, f"sampled alpha shape ({kind})", sh)
    again = alpha_shape_alg_3D_with_sampling(X, probe, N, seed=seed, **kw)
    ctx.check(sorted(map(int, again)) == sorted(map(int, out)), "surface depends on whether the shape is returned")
    other = alpha_shape_alg_3D_with_sampling(X, probe, N, rng=np.random.default_rng(ctx.randint(0, 9999)), **kw)
    judge(ctx, other, X, tri, probe, std, f"sampled alpha shape with generator ({kind})")
    other = alpha_shape_alg_3D_with_sampling(X, probe, N, **kw)
    judge(ctx, other, X, tri, probe, std, f"sampled alpha shape without seed ({kind})")


@core.family(FAMILIES, 6, 150, "thousands of atoms, large clouds, far from the origin")
def large(ctx):
    from czone.surface.alpha_shape import alpha_shape_alg_3D, alpha_shape_alg_3D_with_sampling
    X, kind = cloud(ctx, ctx.choice([1100, 2500, 5000]))
    X = X * ctx.choice([1., 1., 10., 100.]) + gen.point(ctx, ctx.choice([10., 2000.]))
    probe = probes_for(ctx, X)
    ctx.describe(kind=kind, n=len(X), probe=round(probe, 3))
    out, sh = alpha_shape_alg_3D(X, probe, return_alpha_shape=True)
    tri = sh["tri"]
    ctx.check(np.asarray(tri.points).shape == X.shape and np.max(np.abs(tri.points - X)) < 2e-4, "triangulation is not that of the points")
    judge(ctx, out, tri.points, tri, probe, 1e-9, f"large alpha shape ({kind})", sh)
    out, sh = alpha_shape_alg_3D_with_sampling(X, probe, 2, seed=ctx.randint(0, 9999), return_alpha_shape=True)
    tri = sh["tri"]
    ctx.check(np.array_equal(np.asarray(tri.points), X), "triangulation is not that of the points")
    judge(ctx, out, X, tri, probe, 1e-4, f"large sampled alpha shape ({kind})", sh)
    ctx.event("large_clouds")


@core.family(FAMILIES, 60, 2000, "convex hulls for large probes")
def hulls(ctx):
    from czone.surface.alpha_shape import alpha_shape_alg_3D, alpha_shape_alg_3D_with_sampling
    X, kind = cloud(ctx)
    probe = float(10 ** ctx.rng.uniform(9, 12))
    eq = ConvexHull(X - X.mean(axis=0)).equations
    depth = -np.max((X - X.mean(axis=0)) @ eq[:, :3].T + eq[:, 3], axis=1)
    deep = depth > .02
    hv = ConvexHull(X).vertices
    strong = []
    for i in hv:
        Y = np.delete(X, i, axis=0)
        try:
            e = ConvexHull(Y).equations
        except Exception:
            continue
        if np.max(e[:, :3] @ X[i] + e[:, 3]) > .02:
            strong.append(i)
    strong = set(int(i) for i in strong)
    for name in ("plain", "plain with shape", "sampled"):
        if name == "sampled":
            out = alpha_shape_alg_3D_with_sampling(X, probe, ctx.choice([1, 5]), seed=ctx.randint(0, 999))
        else:
            out = alpha_shape_alg_3D(X, probe, return_alpha_shape=name != "plain")
            out = out[0] if name != "plain" else out
        out = set(int(i) for i in out)
        ctx.check(strong <= out, f"corner of the convex hull is missing ({name}, {kind})", missing=sorted(strong - out)[:5])
        ctx.check(not any(deep[i] for i in out), f"atom inside of the convex hull is reported ({name}, {kind})", atoms=[i for i in out if deep[i]][:5])
        ctx.event("hulls")
        ctx.event("surface_atoms", len(strong))
        ctx.event("hidden_atoms", int(deep.sum()))
    ctx.observe(len(strong) + int(deep.sum()))
    ctx.describe(kind=kind, n=len(X), corners=len(strong), deep=int(deep.sum()))
