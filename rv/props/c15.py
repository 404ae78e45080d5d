import itertools
import numpy as np
from scipy.spatial import ConvexHull
from .. import core, gen, model as m
from . import _world as W
from . import c03, c14

PROP = "C15"
FAMILIES = []
RULE = ("Bounded volumes of every mix of points, spheres, planes and cylinders, of sizes from 0.5 to 60, moved by histories of "
        "transformations and grown by more surfaces and points; interior points of the specified region (anywhere, next to every surface, at "
        "rims, extremes and vertices) have to lie in the hull of the reported box.")
ASSUMPTIONS = ["the padding of surfaces by their tolerance is not part of the box"]
MIN_EVENTS = {"interior_points": 30000, "boundary_points": 8000, "prisms": 50}


def bare(region):
    """Region without the padding by tolerances."""
    out = []
    for s in region:
        out.append(s[:-1] + (0.,) if s[0] != "hull" else s)
    return out


def enclosing(ctx, box, region, c, size, what):
    reg = bare(region)
    P = [c03.test_points(ctx, reg, c, size, 120)]
    lo, hi = gen.region_box(reg)
    if not (np.all(np.isfinite(lo)) and np.all(np.isfinite(hi))):
        return 0           # no common point
    P.append(ctx.rng.uniform(lo, hi, (300, 3)))
    for s in reg:
        if s[0] == "sphere":
            u = np.vstack([np.eye(3), -np.eye(3), ctx.rng.normal(size=(20, 3))])
            P.append(np.asarray(s[1]) + u / np.linalg.norm(u, axis=1)[:, None] * s[2] * (1 - 1e-7))
        if s[0] == "cyl":
            a = np.asarray(s[1], float) / np.linalg.norm(s[1])
            q = np.linalg.svd(a[None])[2][1:]
            th = np.linspace(0, 2 * np.pi, 40)
            e = np.cos(th)[:, None] * q[0] + np.sin(th)[:, None] * q[1]
            for f in (-1, 1):
                P.append(np.asarray(s[2]) + (a * s[4] / 2 * f + e * s[3]) * (1 - 1e-7))
    pl = [s for s in reg if s[0] == "plane"]
    if len(pl) > 3:
        N = np.array([np.asarray(s[1], float) / np.linalg.norm(s[1]) for s in pl])
        d = np.array([n @ (np.asarray(s[2]) - c) for n, s in zip(N, pl)])
        t = c14.classify(N, d, size)
        if t is not None and not isinstance(t, str):
            v = t[1]
            P.append(c + v.mean(axis=0) + (v - v.mean(axis=0)) * (1 - 1e-6))
    P = np.vstack(P)
    mm = m.margin(reg, P)
    P, mm = P[mm < 0], mm[mm < 0]
    if not len(P):
        return 0
    ctx.check(box is not None, f"{what}: none for a bounded region with interior points")
    box = np.asarray(box)
    ctx.check(box.ndim == 2 and box.shape[1] == 3 and len(box) >= 4 and np.all(np.isfinite(box)), f"{what}: not a set of points",
              shape=box.shape)
    try:
        hull = ConvexHull(box - c)
    except Exception as e:
        ctx.fail(f"{what}: box has no volume though the region has interior points", error=str(e)[:80])
    mb = np.max((P - c) @ hull.equations[:, :3].T + hull.equations[:, 3], axis=1)
    tol = 1e-6 * max(1., size) + 1e-9 * np.max(np.abs(P))
    ctx.check(not np.any(mb > tol), f"{what}: interior points outside of the box", n=int((mb > tol).sum()), of=len(P), worst=mb.max(),
              X=P[mb > tol][:3])
    ctx.observe(len(P))
    ctx.event("interior_points", len(P))
    ctx.event("boundary_points", int((mm > -1e-3 * size).sum()))
    return len(P)


@core.family(FAMILIES, 300, 12000, "bounded volumes of any kind, transformed")
def volumes(ctx):
    size = float(10 ** ctx.rng.uniform(-.3, 1.8))
    c = gen.point(ctx, ctx.choice([10., 10., 300.]))
    reg, rk = gen.bounded_region(ctx, c, size)
    v = gen.build_volume(ctx, reg)
    hist = []
    n = 0
    for step in range(ctx.randint(1, 3)):
        box = v.get_bounding_box()
        k = enclosing(ctx, box, reg, c, size, f"bounding box ({rk})")
        if not k:
            break
        n += k
        keep = np.array(box, float)
        ctx.check(np.allclose(keep, np.asarray(v.get_bounding_box()), atol=1e-9), "box differs when asked again")
        op = ctx.choice(["transform", "transform", "copy", "surface", "points", "change surface"])
        if op == "transform":
            t, A, k = gen.isometry(ctx, scale=10.)
            v.transform(t)
            reg, c = [m.move(s, A) for s in reg], m.act(A, c)
            op += ":" + k
        elif op == "copy":
            v = v.from_volume()
        elif op == "surface":
            sp = ctx.choice([("plane", gen.vector(ctx), c + ctx.rng.normal(size=3) * size * .4, 1e-5),
                             ("sphere", c + ctx.rng.normal(size=3) * size * .2, size * float(ctx.rng.uniform(.5, 1.5)), 1e-5),
                             ("cyl", gen.vector(ctx), c, size * float(ctx.rng.uniform(.4, 1)), size * 2., 1e-5)])
            v.add_alg_object(gen.build_alg(sp, ctx))
            reg = reg + [sp]
        elif op == "change surface":
            if not v.alg_objects or any(s[0] == "plane" for s in reg):
                continue
            o = ctx.choice(v.alg_objects)
            if hasattr(o, "center"):
                o.radius = float(o.radius * ctx.rng.uniform(.7, 1.4))
                o.center = np.array(o.center) + ctx.rng.normal(size=3) * size * .1
            else:
                o.radius, o.length = float(o.radius * ctx.rng.uniform(.7, 1.4)), float(o.length * ctx.rng.uniform(.7, 1.4))
                o.point = np.array(o.point) + ctx.rng.normal(size=3) * size * .1
                o.axis = np.array(o.axis) + ctx.rng.normal(size=3) * .1
            reg = m.region_of(v)
            ctx.event("changed_surfaces")
        elif op == "points":
            hs = [s for s in reg if s[0] == "hull"]
            if hs:
                new = c + ctx.rng.normal(size=(2, 3)) * size
                v.addPoints(np.array(new))
                reg = [s if s[0] != "hull" else ("hull", np.vstack([s[1], new]), 1e-10) for s in reg]
            else:
                continue
        hist.append(op)
    n += enclosing(ctx, v.get_bounding_box(), reg, c, size, f"bounding box ({rk})")
    ctx.event("regions:" + rk)
    ctx.describe(region=rk, size=round(size, 2), c=np.round(c, 2), hist=hist)
    if n == 0:
        raise core.Skip("region without sampled points")


@core.family(FAMILIES, 100, 4000, "cylinders of any axis")
def cylinders(ctx):
    size = float(10 ** ctx.rng.uniform(-.3, 1.8))
    c = gen.point(ctx, 50.)
    r = ctx.rng.random()
    ax = gen.vector(ctx, .5)
    if r < .3:        # next to special directions
        ax = np.asarray(ctx.choice([(1, 1, 1), (1, -1, 0), (0, 0, 1), (1, 0, 0), (-1, -1, -1)]), float) + ctx.rng.normal(size=3) * 10 ** ctx.rng.uniform(-9, -1)
    sp = ("cyl", ax, c, size * float(ctx.rng.uniform(.05, 1)), size * float(ctx.rng.uniform(.05, 3)), 1e-5)
    o = gen.build_alg(sp, ctx)
    enclosing(ctx, o.get_bounding_box(), [sp], c, size, "box of a cylinder")
    t, A, k = gen.isometry(ctx)
    o2 = o.from_alg_object(transformation=[t])
    enclosing(ctx, o2.get_bounding_box(), [m.move(sp, A)], m.act(A, c), size, "box of a moved cylinder")
    ctx.describe(axis=np.round(ax, 4), r=round(sp[3], 3), L=round(sp[4], 3), c=np.round(c, 2))


@core.family(FAMILIES, 300, 6000, "rectangular prisms")
def prisms(ctx):
    from czone.volume import makeRectPrism, Volume
    dims = 10 ** ctx.rng.uniform(-1, 2.5, 3)
    if ctx.chance(.4):
        dims = dims[ctx.rng.integers(0, 2, 3)]        # equal sides
    if ctx.chance(.3):
        dims = np.round(dims + 1).astype(int)
    args = [d.item() if ctx.chance(.5) else d for d in dims]
    if ctx.chance(.35):
        lo = np.zeros(3)
        c = dims / 2
        P = makeRectPrism(*args) if ctx.chance(.7) else makeRectPrism(*args, None)
    else:
        c = gen.point(ctx, 50.)
        if ctx.chance(.2):
            c = np.round(c).astype(int)
        cc = np.array(c)
        arg = ctx.choice([c, list(c), tuple(c)])
        P = makeRectPrism(*args, center=arg) if ctx.chance(.5) else makeRectPrism(*args, arg)
        ctx.check(np.array_equal(cc, np.array(arg)), "center was changed")
        lo = c - dims / 2
    E = np.array(list(itertools.product((0, 1), repeat=3))) * dims + lo
    P = np.asarray(P)
    ctx.check(P.shape == (8, 3), "prism does not have eight corners", shape=P.shape)
    D = np.linalg.norm(P[:, None] - E[None], axis=2)
    tol = 1e-9 * (1 + np.max(np.abs(E)))
    ctx.check(np.all((D < tol).sum(axis=0) == 1) and np.all((D < tol).sum(axis=1) == 1), "corners of the prism", got=P, expected=E)
    v = Volume(points=P)
    X = ctx.rng.uniform(-.2, 1.2, (60, 3)) * dims + lo
    mm = np.max(np.maximum(lo - X, X - lo - dims), axis=1)
    band = 1e-7 + m.hull_slack(P, 1e-10)
    got = v.checkIfInterior(X)
    ctx.check(not np.any(got & (mm > band)) and not np.any(~got & (mm < -band)), "volume of the prism")
    enclosing(ctx, v.get_bounding_box(), [("hull", E, 1e-10)], np.asarray(c, float), float(np.max(dims)), "box of a prism")
    ctx.observe(8)
    ctx.event("prisms")
    ctx.describe(dims=np.round(dims, 3), c=np.round(c, 2))


@core.family(FAMILIES, 30, 800, "every bounding box used while scenes are populated")
def scenarios(ctx):
    from .. import probes

    def post(ctx, tok, args, kw, res):
        v = args[0]
        if res is None:
            return
        reg = m.region_of(v)
        lo, hi = gen.region_box(bare(reg))
        ctx.event("online_boxes")
        enclosing(ctx, res, reg, (lo + hi) / 2, float(np.max(hi - lo)) / 2, "box used for population")
    probes.hook("Volume.get_bounding_box", None, post)
    W.run(ctx, steps=ctx.randint(3, 8))
