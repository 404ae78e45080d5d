import itertools
import numpy as np
from scipy.spatial import ConvexHull
from .. import core, gen, model as m

PROP = "C14"
FAMILIES = []
RULE = ("Sets of 1 to 14 planes built to be bounded, unbounded (cones, prisms, slabs, half-spaces) or infeasible, with redundant and "
        "duplicated members, scaled, turned and far from the origin, and random sets. Truth comes from solving every triple of planes and "
        "testing every edge direction; sets within a margin of changing class are not judged. Hulls are judged against the facets of the "
        "point set and on test points next to them.")
ASSUMPTIONS = ["sets whose interior has a radius below 1e-3 of their size, or that are bounded or separated by less, are not judged"]
MIN_EVENTS = {"bounded": 250, "unbounded": 100, "infeasible": 60, "hull_points_judged": 20000}


def classify(N, d, scale):
    """('bounded', vertices) | 'unbounded' | 'infeasible' | None (too close to call); half-spaces N x <= d"""
    n = len(N)
    if n >= 3 and np.linalg.matrix_rank(N, tol=1e-3) == 3:
        pts = []
        for t in itertools.combinations(range(n), 3):
            A = N[list(t)]
            if abs(np.linalg.det(A)) < 1e-7:
                continue
            for e in (-1e-3 * scale, 0., 1e-3 * scale):
                pts.append((e, np.linalg.solve(A, d[list(t)] + e)))
        ok = {}
        for e in (-1e-3 * scale, 0., 1e-3 * scale):
            P = np.array([p for k, p in pts if k == e]).reshape(-1, 3)
            v = np.max(P @ N.T - (d + e), axis=1) if len(P) else np.zeros(0)
            ok[e] = P[v < 1e-9 * max(1., scale, np.max(np.abs(d)))]
        if len(ok[1e-3 * scale]) == 0:
            return "infeasible"
        if len(ok[-1e-3 * scale]) == 0:
            return None
        # directions of edges
        close = False
        for i, j in itertools.combinations(range(n), 2):
            u = np.cross(N[i], N[j])
            l = np.linalg.norm(u)
            if l < 1e-3:
                close = close or l > 1e-9
                continue
            for s in (1, -1):
                w = np.max(N @ (s * u / l))
                if w < 1e-9:
                    return "unbounded"
                close = close or w < 1e-3
        if close:
            return None
        return "bounded", ok[0.]
    return None


def judge(ctx, N, P, truth, tols=None):
    """Call the routine on planes with normals N (any length) and points P."""
    from czone.volume.algebraic import get_bounding_box, Plane
    if ctx.chance(.2):         # planes moved after they were used
        M = np.array(N, float)[::-1]
        planes = [Plane(np.array(n), np.array(p) + ctx.rng.normal(size=3)) for n, p in zip(M, P)]
        get_bounding_box(planes)
        for pl, n, p in zip(planes, N, P):
            pl.normal, pl.point = np.array(n), np.array(p)
        ctx.event("used_planes")
    else:
        planes = [Plane(np.array(n), np.array(p)) for n, p in zip(N, P)]
    before = [(pl.normal.copy(), np.array(pl.point)) for pl in planes]
    box, status = get_bounding_box(planes)
    for pl, (n, p) in zip(planes, before):
        ctx.check(np.array_equal(pl.normal, n) and np.array_equal(pl.point, p), "planes handed in were changed")
    kind = truth if isinstance(truth, str) else truth[0]
    ctx.event(kind)
    ctx.observe(1)
    if kind == "bounded":
        ctx.check(status == 0, "bounded intersection is not reported as such", status=status)
        V = truth[1]
        box = np.asarray(box)
        ctx.check(box.ndim == 2 and box.shape[1] == 3 and np.all(np.isfinite(box)), "vertices: shape or values", shape=box.shape)
        tol = 1e-5 * max(1., np.max(np.ptp(V, axis=0))) + 1e-9 * np.max(np.abs(V))
        D = np.linalg.norm(box[:, None] - V[None], axis=2)
        ctx.check(np.max(np.min(D, axis=1)) < tol, "reported point is not a vertex", dev=np.max(np.min(D, axis=1)))
        ctx.check(np.max(np.min(D, axis=0)) < tol, "vertex is missing", dev=np.max(np.min(D, axis=0)))
        ctx.observe(len(V))
        ctx.event("vertices", len(V))
    elif kind == "unbounded":
        ctx.check(status == 3, "unbounded intersection is not reported as such", status=status)
        ctx.check(len(box) == 0, "vertices of an unbounded intersection", n=len(box))
    else:
        ctx.check(status == 2, "infeasible intersection is not reported as such", status=status)
        ctx.check(len(box) == 0, "vertices of an empty intersection", n=len(box))


def dress(ctx, N, d, c, scale):
    """Points anywhere on the planes, normals of any length, any order."""
    N, d = np.asarray(N, float), np.asarray(d, float)
    P = c + N * d[:, None]
    for i in range(len(N)):
        if ctx.chance(.6):
            P[i] += np.cross(N[i], ctx.rng.normal(size=3)) * scale * ctx.choice([.3, 2.])
    k = ctx.rng.permutation(len(N))
    L = 10 ** ctx.rng.uniform(-1, 2, (len(N), 1)) if ctx.chance(.3) else 1.
    return (N * L)[k], P[k]


def centre(ctx):
    return ctx.choice([np.zeros(3), gen.point(ctx, 10.), gen.point(ctx, 200.), -np.abs(gen.point(ctx, 50.)), np.abs(gen.point(ctx, 50.))])


def unit(ctx, n):
    N = ctx.rng.normal(size=(n, 3))
    if ctx.chance(.3):
        N = np.array([ctx.choice(gen.SPECIAL) for _ in range(n)])
    return N / np.linalg.norm(N, axis=1)[:, None]


@core.family(FAMILIES, 400, 16000, "random half-spaces around or off a point")
def random_sets(ctx):
    n = ctx.choice([4, 4, 5, 6, 6, 8, 10, 14])
    scale = float(10 ** ctx.rng.uniform(-.5, 2))
    N = unit(ctx, n)
    off = ctx.rng.random()
    if off < .75:
        d = scale * ctx.rng.uniform(.3, 1., n)
    else:
        d = scale * ctx.rng.uniform(-.6, 1., n)
    if ctx.chance(.2):
        N, d = np.vstack([N, N[:1]]), np.append(d, d[0] * ctx.choice([1., 1.5]))
    t = classify(N, d, scale)
    if t is None:
        raise core.Skip("too close to call")
    c = centre(ctx)
    if not isinstance(t, str):
        t = (t[0], t[1] + c)
    NN, P = dress(ctx, N, d, c, scale)
    ctx.describe(n=n, scale=round(scale, 3), kind=t if isinstance(t, str) else t[0], centre=np.round(c, 2), N=np.round(NN, 3))
    judge(ctx, NN, P, t)


@core.family(FAMILIES, 150, 6000, "polytopes given by a random dual, with redundant members; also cut open and over-cut")
def polytopes(ctx):
    scale = float(10 ** ctx.rng.uniform(-.5, 2))
    kind = ctx.choice(["dual", "box", "octahedron", "prism"])
    if kind == "dual":
        n = ctx.randint(4, 12)
        for _ in range(200):
            N = unit(ctx, n)
            d = scale * ctx.rng.uniform(.4, 1., n)
            t = classify(N, d, scale)
            if t is not None and t[0] == "bounded":
                break
        else:
            raise core.Skip("none found")
    elif kind == "box":
        N, d = np.vstack([np.eye(3), -np.eye(3)]), scale * ctx.rng.uniform(.2, 1, 6)
    elif kind == "octahedron":        # four planes through every vertex
        N = np.array(list(itertools.product((-1, 1), repeat=3))) / np.sqrt(3)
        d = np.full(8, scale * .5)
    else:
        k = ctx.randint(3, 8)
        th = np.arange(k) * 2 * np.pi / k
        N = np.vstack([np.column_stack([np.cos(th), np.sin(th), 0 * th]), [[0, 0, 1], [0, 0, -1]]])
        d = np.append(np.full(k, scale * .5), scale * ctx.rng.uniform(.2, 1, 2))
    R, _ = gen.rotation(ctx)
    N = N @ R.T
    if ctx.chance(.4):               # redundant
        k = ctx.randint(1, 3)
        M = unit(ctx, k)
        N, d = np.vstack([N, M]), np.append(d, scale * ctx.rng.uniform(3, 6, k))
    op = ctx.choice(["as is", "as is", "open", "cut off", "slice"])
    if op == "open":
        i = ctx.randint(0, len(N) - 1)
        N, d = np.delete(N, i, axis=0), np.delete(d, i)
    elif op == "cut off":
        M = unit(ctx, 1)
        N, d = np.vstack([N, M]), np.append(d, -scale * 3)
    elif op == "slice":
        M = unit(ctx, 1)
        N, d = np.vstack([N, M]), np.append(d, scale * ctx.rng.uniform(-.15, .25))
    t = classify(N, d, scale)
    if t is None:
        raise core.Skip("too close to call")
    c = centre(ctx)
    if not isinstance(t, str):
        t = (t[0], t[1] + c)
    NN, P = dress(ctx, N, d, c, scale)
    ctx.describe(kind=kind, op=op, scale=round(scale, 3), centre=np.round(c, 2), N=np.round(NN, 3))
    judge(ctx, NN, P, t)


@core.family(FAMILIES, 120, 4000, "sets whose normals do not span space, or fewer than four planes")
def degenerate(ctx):
    scale = float(10 ** ctx.rng.uniform(-.5, 2))
    R, _ = gen.rotation(ctx)
    kind = ctx.choice(["one", "two", "three", "slab", "gap", "prism", "2d-empty", "stack"])
    if kind in ("one", "two", "three"):
        k = {"one": 1, "two": 2, "three": 3}[kind]
        for _ in range(100):
            N = unit(ctx, k)
            if np.linalg.svd(N)[1].min() > .05:
                break
        else:
            raise core.Skip("none")
        d, t = scale * ctx.rng.uniform(-1, 1, k), "unbounded"
    elif kind == "slab":
        N, d, t = np.array([[0, 0, 1.], [0, 0, -1.]]), scale * ctx.rng.uniform(.1, 1, 2), "unbounded"
    elif kind == "gap":
        N, d, t = np.array([[0, 0, 1.], [0, 0, -1.]]), scale * np.array([-.2, -.1]), "infeasible"
    elif kind == "stack":
        k = ctx.randint(2, 5)
        N, d, t = np.tile([[0, 0, 1.]], (k, 1)), scale * ctx.rng.uniform(-1, 1, k), "unbounded"
    elif kind == "prism":
        k = ctx.randint(3, 7)
        th = np.arange(k) * 2 * np.pi / k
        N, d, t = np.column_stack([np.cos(th), np.sin(th), 0 * th]), scale * ctx.rng.uniform(.8, 1, k), "unbounded"
    else:
        k = ctx.randint(3, 7)
        th = np.arange(k) * 2 * np.pi / k
        N, d, t = np.column_stack([np.cos(th), np.sin(th), 0 * th]), -scale * ctx.rng.uniform(.3, 1, k), "infeasible"
    if ctx.chance(.5) and kind in ("slab", "gap"):
        th = ctx.rng.uniform(0, 2 * np.pi)
        N, d = np.vstack([N, [[np.cos(th), np.sin(th), 0]]]), np.append(d, scale)
    c = centre(ctx)
    NN, P = dress(ctx, N @ R.T, d, c, scale)
    ctx.describe(kind=kind, scale=round(scale, 3), centre=np.round(c, 2), N=np.round(NN, 3))
    judge(ctx, NN, P, t)


@core.family(FAMILIES, 160, 6000, "planes of the hull of points")
def hulls(ctx):
    from czone.volume.algebraic import convex_hull_to_planes, get_bounding_box
    from czone.volume import Volume
    rng = ctx.rng
    kind = ctx.choice(["random", "random", "ball", "box", "with-interior", "flat", "many"] if ctx.chance(.6) else ["random", "ball"])
    size = float(10 ** rng.uniform(-.5, 2))
    if kind == "random":
        p = rng.normal(size=(ctx.randint(4, 20), 3))
    elif kind in ("ball", "many"):
        p = rng.normal(size=(ctx.randint(20, 120) if kind == "ball" else ctx.randint(250, 700), 3))
        p /= np.linalg.norm(p, axis=1)[:, None]
    elif kind == "box":
        p = np.array(list(itertools.product((-1, 1.), repeat=3))) * rng.uniform(.3, 1, 3)
    elif kind == "with-interior":
        p = np.vstack([rng.normal(size=(8, 3)), rng.normal(size=(30, 3)) * .2])
    else:
        p = rng.normal(size=(10, 3)) * [1, 1, .05]
    c = gen.point(ctx, ctx.choice([1., 20., 100.]))
    p = p * size @ gen.rotation(ctx)[0].T + c
    p = gen.reused(ctx, p, convex_hull_to_planes, p[::-1] * 1.5 + size, .2)
    q = p.copy()
    planes = convex_hull_to_planes(p)
    ctx.check(np.array_equal(p, q), "points handed in were changed")
    ref = ConvexHull(p - c)
    w = float(np.max(np.ptp(p, axis=0)))
    tol = 1e-7 * w + 2e-9 * np.max(np.abs(p))
    for pl in planes:
        s = (p - pl.point) @ pl.normal
        ctx.check(s.max() < tol, "plane cuts the points or faces inwards", worst=s.max(), size=w)
        ctx.event("facets")
        ctx.check((np.abs(s) < tol).sum() >= 3, "plane does not touch the hull at three points", n=int((np.abs(s) < tol).sum()))
    # every facet is there
    N = np.array([pl.normal for pl in planes])
    for eq in ref.equations:
        ctx.check(np.max(N @ eq[:3]) > 1 - 1e-6, "facet of the hull is missing", normal=eq[:3])
    # classification of points close to the surface and anywhere
    f = ref.points[ref.simplices]
    b = rng.dirichlet([1, 1, 1], len(f))
    on = np.einsum("ij,ijk->ik", b, f)
    h = 10 ** rng.uniform(-4, 0, len(f)) * w * rng.choice([-1, 1], len(f))
    T = np.vstack([on + ref.equations[:, :3] * h[:, None], rng.normal(size=(100, 3)) * size]) + c
    mm = m.margin([("hull", p)], T)
    v = Volume(alg_objects=planes)
    got = v.checkIfInterior(T)
    band = 2e-5 + tol
    ctx.check(not np.any(got & (mm > band)), "point off the hull is inside of all planes", X=T[got & (mm > band)][:3])
    ctx.check(not np.any(~got & (mm < -band)), "point of the hull is outside of a plane", X=T[~got & (mm < -band)][:3])
    ctx.event("hull_points_judged", int((np.abs(mm) > band).sum()))
    # points with the coordinates of the given ones, moved in place later, do not change the planes
    before = np.array([pl.point for pl in planes])
    p += 5.
    ctx.check(np.array_equal(before, np.array([pl.point for pl in planes])), "planes follow the array handed in")
    ctx.observe(len(T))
    ctx.describe(kind=kind, n=len(p), size=round(size, 3), c=np.round(c, 2))


@core.family(FAMILIES, 60, 2000, "points to planes to vertices")
def round_trip(ctx):
    from czone.volume.algebraic import convex_hull_to_planes
    rng = ctx.rng
    size = float(10 ** rng.uniform(-.3, 1.5))
    n = ctx.randint(4, 9)
    for _ in range(100):
        p = rng.normal(size=(n, 3))
        p /= np.linalg.norm(p, axis=1)[:, None] * rng.uniform(1, 1.3, (n, 1))
        h = ConvexHull(p)
        if h.volume > .2 and -h.equations[:, 3].max() > .05:
            break
    else:
        raise core.Skip("flat")
    c = centre(ctx)
    p = p * size + c
    planes = convex_hull_to_planes(p)
    N, P = np.array([pl.normal for pl in planes]), np.array([pl.point for pl in planes])
    # nearly coplanar facets make vertices ill-defined
    G = N @ N.T - np.eye(len(N))
    if G.max() > .9999:
        raise core.Skip("nearly coplanar facets")
    judge(ctx, N, P, ("bounded", p[ConvexHull(p - c).vertices]))
    ctx.describe(n=n, size=round(size, 2), c=np.round(c, 2))


@core.family(FAMILIES, 45, 900, "recorded sets the solver is known to be sensitive to, and their neighbourhood")
def recorded(ctx):
    import json, os
    sets = json.load(open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "data", "planes.json")))
    s = sets[ctx.index % len(sets)]
    N, P = np.array(s["N"]), np.array(s["P"])
    how = "as is"
    if ctx.index >= len(sets):
        how = ctx.choice(["order", "moved", "longer"])
        if how == "order":
            k = ctx.rng.permutation(len(N))
            N, P = N[k], P[k]
        elif how == "moved":
            P = P + gen.point(ctx, 10.)
        else:
            N = N * 10 ** ctx.rng.uniform(-1, 1, (len(N), 1))
    ctx.describe(set=ctx.index % len(sets), how=how, index=ctx.index)
    judge(ctx, N, P, s["kind"])
