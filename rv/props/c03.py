import numpy as np
from .. import core, gen, model as m, probes
from . import _world as W

PROP = "C03"
FAMILIES = []
RULE = ("Random regions (bounded and unbounded, any mix of surfaces and points, tolerances from 1e-10 to 1e-2) and histories of "
        "changes; random points, points pushed to either side of every surface at distances from 2e-7 to 1, vertices and "
        "centres are classified and compared with signed margins computed from the specification.")
ASSUMPTIONS = ["a surface with tolerance t also contains the points up to t beyond it (documented padding)",
               "points within 1e-7 of the padded boundary are not judged; hull facets with non-default simplex tolerance get a wider band"]
MIN_EVENTS = {"points_in": 20000, "points_out": 20000, "points_near_boundary": 20000}


def test_points(ctx, region, c, size, n=150):
    rng = ctx.rng
    P = [rng.normal(size=(n, 3)) * size * .7 + c, rng.uniform(-30, 30, (20, 3)), c[None] + 0.0]
    S = P[0][:60]
    for s in region:
        mm = m.margin_one(s, S)
        # push points onto the surface, then off by small steps
        h = 1e-5
        G = np.array([(m.margin_one(s, S + h * e) - m.margin_one(s, S - h * e)) / (2 * h) for e in np.eye(3)]).T
        nn = np.linalg.norm(G, axis=1)
        ok = np.abs(nn - 1) < 1e-3
        B = S[ok] - mm[ok, None] * G[ok] / nn[ok, None]
        k = rng.choice([-1, 1], len(B)) * 10 ** rng.uniform(-6.6, 0, len(B))
        P += [B + G[ok] * k[:, None], B + 0.0]
        if s[0] == "hull":
            P += [np.array(s[1]), np.array(s[1]) + rng.normal(size=np.shape(s[1])) * 1e-3]
        if s[0] == "cyl":
            a = np.asarray(s[1], float) / np.linalg.norm(s[1])
            q = np.linalg.svd(a[None])[2][1:]
            th = rng.uniform(0, 2 * np.pi, 12)
            e = np.cos(th)[:, None] * q[0] + np.sin(th)[:, None] * q[1]
            for f in (-1.001, -.999, 0, .999, 1.001):
                for r in (.999, 1.001):
                    P.append(np.asarray(s[2]) + a * s[4] / 2 * f + e * s[3] * r)
    return np.vstack(P)


def judge(ctx, fn, region, P, what, slack=0.0):
    first = np.array(P)[ctx.rng.permutation(len(P))]
    got = np.asarray(fn(gen.reused(ctx, P, fn, first)))
    ctx.check(got.shape == (len(P),), what + ": shape of answer", shape=got.shape)
    ctx.check(got.dtype == bool, what + ": answer is not logical", dtype=str(got.dtype))
    mm = m.margin(region, P) if region else np.full(len(P), -np.inf)
    b = m.band_of(region, P) + slack
    wi, wo = got & (mm > b), ~got & (mm < -b)
    ctx.check(not wi.any(), what + ": point outside of the region is reported interior", n=int(wi.sum()), of=len(P), X=P[wi][:3],
              margin=mm[wi][:3])
    ctx.check(not wo.any(), what + ": point of the region is reported exterior", n=int(wo.sum()), of=len(P), X=P[wo][:3],
              margin=mm[wo][:3])
    j = np.abs(mm) > b
    ctx.observe(int(j.sum()))
    ctx.event("points_in", int((j & got).sum()))
    ctx.event("points_out", int((j & ~got).sum()))
    ctx.event("points_near_boundary", int((j & (np.abs(mm) < 1e-3)).sum()))
    return got


def few_points(ctx, fn, P, got, what, mm, b):
    # few at a time, held in any form of array
    keep = np.abs(mm) > b           # rounding may depend on the number of points
    P, got = P[keep], got[keep]
    if not len(P):
        return
    for k in gen.batches(ctx, len(P)):
        a = np.asarray(fn(gen.form(ctx, P[k])))
        ctx.check(a.shape == (len(k),) and a.dtype == bool and np.array_equal(a, got[k]),
                  what + ": answers for a few points on their own", points=P[k], answers=a, together=got[k])
        ctx.event("batches:" + str(len(k)))
    I = np.round(P[ctx.rng.integers(0, len(P), 40)])
    a = np.asarray(fn(gen.form(ctx, I)))
    ctx.check(a.shape == (40,) and np.array_equal(a, fn(I)), what + ": answers for whole numbers depend on their type")


def single_points(ctx, fn, P, got, what, mm, b):
    few_points(ctx, fn, P, got, what, mm, b)
    for i in ctx.rng.integers(0, len(P), 4):
        a = np.asarray(fn(np.array(P[i])))
        b = np.asarray(fn(np.array(P[i:i + 1])))
        ctx.check(a.size == 1 and b.size == 1 and bool(a.ravel()[0]) == bool(got[i]) == bool(b.ravel()[0]),
                  what + ": one point at a time", point=P[i])
        ctx.event("single_points")


def unbounded_region(ctx, c, size):
    n = ctx.randint(1, 4)
    reg = []
    for _ in range(n):
        v = gen.vector(ctx)
        reg.append(("plane", v, c + ctx.rng.normal(size=3) * size * .4, gen.tolerance(ctx)))
    return reg


@core.family(FAMILIES, 260, 10000, "regions of any kind")
def regions(ctx):
    far = ctx.chance(.1)
    c = gen.point(ctx, 500. if far else 15.)
    size = float(ctx.rng.uniform(.5, 20))
    if ctx.chance(.2):
        reg, rk = unbounded_region(ctx, c, size), "unbounded"
    else:
        reg, rk = gen.bounded_region(ctx, c, size)
    ctx.describe(region=rk, size=round(size, 2), far=far, centre=np.round(c, 2))
    ctx.event("regions:" + rk)
    v = gen.build_volume(ctx, reg)
    P = test_points(ctx, reg, c, size)
    got = judge(ctx, v.checkIfInterior, reg, P, "volume")
    single_points(ctx, v.checkIfInterior, P, got, "volume", m.margin(reg, P), m.band_of(reg, P))
    # members on their own
    for s in reg:
        if s[0] != "hull":
            o = gen.build_alg(s, ctx)
            g = judge(ctx, o.checkIfInterior, [s], P, "surface " + s[0])
            few_points(ctx, o.checkIfInterior, P, g, "surface " + s[0], m.margin([s], P), m.band_of([s], P))
    # answers do not depend on which points are asked together
    k = ctx.rng.permutation(len(P))[:len(P) // 2]
    ctx.check(np.array_equal(v.checkIfInterior(P[k]), got[k]), "answer depends on the other points asked")


@core.family(FAMILIES, 160, 6000, "histories of surfaces and points added and replaced")
def histories(ctx):
    from czone.volume import Volume
    rng = ctx.rng
    c, size = gen.point(ctx, 8.), float(rng.uniform(2, 8))
    reg = []
    v = Volume()
    if ctx.chance(.6):
        reg, _ = gen.bounded_region(ctx, c, size)
        v = gen.build_volume(ctx, reg)
    tol = 1e-10
    log = []
    for _ in range(ctx.randint(2, 7)):
        op = ctx.choice(["surface", "surface", "add-points", "add-point", "set-points", "transform", "tolerance", "flip-input"])
        hulls = [i for i, s in enumerate(reg) if s[0] == "hull"]
        if op in ("add-points", "add-point") and not hulls:
            op = "set-points"
        log.append(op)
        ctx.event("op:" + op)
        if op == "surface":
            sp = ctx.choice([("plane", gen.vector(ctx), c + rng.normal(size=3) * size * .5, 1e-5),
                             ("sphere", c + rng.normal(size=3), size * float(rng.uniform(.6, 1.5)), gen.tolerance(ctx)),
                             ("cyl", gen.vector(ctx), c + rng.normal(size=3), size * float(rng.uniform(.5, 1)), size * 2.0, 1e-5)])
            v.add_alg_object(gen.build_alg(sp, ctx))
            reg = reg + [sp]
        elif op == "flip-input":
            # the surface handed in is changed afterwards
            sp = ("plane", gen.vector(ctx), c + rng.normal(size=3) * size * .5, 1e-5)
            o = gen.build_alg(sp, ctx)
            v.add_alg_object(o)
            o.flip_orientation()
            reg = reg + [sp]
        elif op in ("add-points", "add-point"):
            i = hulls[0]
            n = 1 if op == "add-point" else ctx.randint(1, 4)
            new = c + rng.normal(size=(n, 3)) * size * rng.uniform(.2, 1.5)
            if ctx.chance(.3):
                new = np.round(new)
            v.addPoints(gen.form(ctx, new)[0] if n == 1 and ctx.chance(.6) else gen.form(ctx, new))
            reg = [s if j != i else ("hull", np.vstack([s[1], new]), tol) for j, s in enumerate(reg)]
        elif op == "set-points":
            pts = c + rng.normal(size=(ctx.randint(4, 12), 3)) * size
            if ctx.chance(.3):
                q = np.round(pts)
                if np.linalg.matrix_rank(q[1:] - q[0], tol=.2 * size) == 3:
                    pts = q
            v.points = gen.form(ctx, pts)
            reg = [s for s in reg if s[0] != "hull"] + [("hull", pts, tol)]
        elif op == "transform":
            t, A, k = gen.isometry(ctx, scale=5.)
            v.transform(t)
            reg = [m.move(s, A) for s in reg]
            c = m.act(A, c)
        else:
            tol = float(ctx.choice([1e-10, 1e-8, 1e-6]))
            v.tolerance = tol
            reg = [s if s[0] != "hull" else ("hull", s[1], tol) for s in reg]
        P = test_points(ctx, reg, c, size, 80)
        judge(ctx, v.checkIfInterior, reg, P, "volume after " + op, m.slack(reg))
        if hulls or op == "set-points":
            h = [s for s in reg if s[0] == "hull"][0]
            ctx.check(np.shape(v.points) == np.shape(h[1]) and np.max(np.abs(v.points - h[1])) < 1e-8, "points of the volume")
    ctx.describe(ops=log)


@core.family(FAMILIES, 80, 2500, "unions contain the points of their members")
def unions(ctx):
    e = W.entry(*W.make_multi(ctx))
    for rnd in range(2):
        c = np.mean([np.mean(gen.region_box(v.region), axis=0) for v in e.shadow.volumes()], axis=0)
        P = [c + ctx.rng.normal(size=(150, 3)) * 6]
        for v in e.shadow.volumes():
            cc = np.mean(gen.region_box(v.region), axis=0)
            P.append(test_points(ctx, v.region, cc, 4., 30))
        P = np.vstack(P)
        mm, b = e.shadow.margin(P)
        got = np.asarray(e.obj.checkIfInterior(np.array(P)))
        ctx.check(got.shape == (len(P),) and got.dtype == bool, "union: shape of answer", shape=got.shape)
        wi, wo = got & (mm > b), ~got & (mm < -b)
        ctx.check(not wi.any(), "union: point of no member is reported interior", n=int(wi.sum()), X=P[wi][:3])
        ctx.check(not wo.any(), "union: point of a member is reported exterior", n=int(wo.sum()), X=P[wo][:3])
        ctx.observe(int((np.abs(mm) > b).sum()))
        ctx.event("points_in", int(got.sum()))
        ctx.event("points_out", int((~got).sum()))
        single_points(ctx, e.obj.checkIfInterior, P, got, "union", mm, b)
        t, A, k = gen.isometry(ctx)
        e.obj.transform(t)
        e.shadow.transform(A, True)
    ctx.describe(members=len(e.shadow.volumes()))


@core.family(FAMILIES, 60, 2000, "distance to and projection on planes agree with the interior test")
def plane_distance(ctx):
    from czone.volume.algebraic import Plane
    n, p = gen.vector(ctx), gen.point(ctx, 20.)
    pl = Plane(n, p)
    u = n / np.linalg.norm(n)
    P = p + ctx.rng.normal(size=(40, 3)) * 10 ** ctx.rng.uniform(-3, 2)
    sd = (P - p) @ u
    tol = 1e-9 * max(1, np.max(np.abs(P)))
    ctx.close(pl.sdist_from_plane(gen.reused(ctx, P, pl.sdist_from_plane)), sd, tol, "signed distances")
    ctx.close(pl.dist_from_plane(gen.reused(ctx, P, pl.dist_from_plane)), np.abs(sd), tol, "distances")
    ctx.close(pl.project_point(gen.reused(ctx, P, pl.project_point)), P - sd[:, None] * u, tol, "projections")
    for k in gen.batches(ctx, len(P)):
        ctx.close(pl.sdist_from_plane(gen.form(ctx, P[k])), sd[k], tol, "signed distances of a few points")
        ctx.close(pl.dist_from_plane(gen.form(ctx, P[k])), np.abs(sd[k]), tol, "distances of a few points")
        ctx.close(pl.project_point(gen.form(ctx, P[k])), (P - sd[:, None] * u)[k], tol, "projections of a few points")
    for i in range(4):
        ctx.close(np.ravel(pl.sdist_from_plane(P[i])), [sd[i]], tol, "signed distance of one point")
        ctx.close(np.ravel(pl.project_point(P[i])), P[i] - sd[i] * u, tol, "projection of one point")
    pl2 = pl.from_alg_object()
    pl2.flip_orientation()
    a, b = pl.checkIfInterior(P), pl2.checkIfInterior(P)
    far = np.abs(sd) > 2e-5
    ctx.check(np.all(a[far] != b[far]), "flipped plane does not contain the other side")
    ctx.close(pl.normal, u, 1e-12, "normal of the plane after its copy was flipped")
    ctx.observe(len(P))
    ctx.describe(n=np.round(n, 3), p=np.round(p, 3))


@core.family(FAMILIES, 24, 600, "regions of many points and surfaces, thousands of points at once")
def large(ctx):
    from czone.volume.algebraic import Plane
    c, size = gen.point(ctx, ctx.choice([15., 500.])), float(ctx.rng.uniform(3, 40))
    n = ctx.choice([20, 40, 70, 130, 300, 700])
    u = ctx.rng.normal(size=(n, 3))
    u = u / np.linalg.norm(u, axis=1)[:, None] * ctx.rng.uniform(.7, 1., (n, 1)) * size
    reg = [("hull", u + c, 1e-10)]
    if ctx.chance(.6):
        for _ in range(ctx.choice([1, 5, 17, 40])):
            k = gen.vector(ctx)
            k = k / np.linalg.norm(k)
            reg.append(("plane", k, c + k * size * float(ctx.rng.uniform(.4, 1.)), 1e-5) if ctx.chance(.6) else
                       ("sphere", c + ctx.rng.normal(size=3) * .1 * size, size * float(ctx.rng.uniform(.8, 1.2)), 1e-5))
    v = gen.build_volume(ctx, reg)
    if ctx.chance(.4):
        new = c + ctx.rng.normal(size=(ctx.choice([1, 30, 100]), 3)) * size * .7
        v.addPoints(np.array(new))
        reg[0] = ("hull", np.vstack([reg[0][1], new]), 1e-10)
    P = np.vstack([test_points(ctx, reg[:3], c, size), c + ctx.rng.normal(size=(ctx.choice([2000, 6000, 20000]), 3)) * size * .6])
    judge(ctx, v.checkIfInterior, reg, P, "large region", m.slack(reg))
    for s in reg[1:4]:
        o = gen.build_alg(s, ctx)
        judge(ctx, o.checkIfInterior, [s], P, "surface " + s[0])
    nn, p = gen.vector(ctx), gen.point(ctx, 500.)
    pl = Plane(nn, p)
    w = nn / np.linalg.norm(nn)
    sd = (P - p) @ w
    tol = 1e-9 * max(1, np.max(np.abs(P)))
    ctx.close(pl.sdist_from_plane(np.array(P)), sd, tol, "signed distances of many points")
    ctx.close(pl.dist_from_plane(np.array(P)), np.abs(sd), tol, "distances of many points")
    ctx.close(pl.project_point(np.array(P)), P - sd[:, None] * w, tol, "projections of many points")
    ctx.event("large_regions")
    ctx.describe(points=len(P), n=n, surfaces=len(reg) - 1, size=round(size, 2), centre=np.round(c, 1))


@core.family(FAMILIES, 30, 800, "every interior test made while scenes are populated")
def scenarios(ctx):
    def post(ctx, tok, args, kw, res):
        v, X = args[0], np.asarray(args[1] if len(args) > 1 else kw["testPoints"], float).reshape(-1, 3)
        if not len(X):
            return
        mm, b = m.margin_of(v, X)
        ctx.check(not np.any(res & (mm > b)) and not np.any(~res & (mm < -b)), "interior test in a scene", kind=type(v).__name__)
        ctx.observe(len(X))
        ctx.event("online_points", len(X))
    probes.hook("Volume.checkIfInterior", None, post)
    probes.hook("MultiVolume.checkIfInterior", None, post)
    W.run(ctx, steps=ctx.randint(3, 8))
