import numpy as np
from .. import core, gen, model as m

PROP = "C07"
FAMILIES = []
RULE = ("Random pairs of planes (general, parallel, anti-parallel, nearly so; normals of any length) with reference points on or "
        "off the planes, given as vectors, lists, rows or columns; the returned sequence is applied to the moving plane, its "
        "reference point, a body of points and a volume.")
ASSUMPTIONS = ["rounding: 2e-9 relative to the coordinates, 1e-6 for nearly parallel planes"]
MIN_EVENTS = {"alignments": 400}


def judge(ctx, t, Mn, Mp, Tn, Tp, mp, tp, what):
    from czone.volume.algebraic import Plane
    scale = max(1.0, *[float(np.max(np.abs(x))) for x in (Mp, Tp, mp, tp)])
    # rotations between nearly parallel normals lose digits
    eps = 1e-6 if 0 < np.linalg.norm(np.cross(Mn, Tn)) / np.linalg.norm(Mn) / np.linalg.norm(Tn) < 1e-2 else 2e-9
    tol = eps * scale
    Mn, Tn = Mn / np.linalg.norm(Mn), Tn / np.linalg.norm(Tn)
    # isometry, proper
    P = np.vstack([np.zeros(3), np.eye(3), ctx.rng.normal(size=(20, 3)) * 5])
    Q = np.asarray(t.applyTransformation(np.array(P)), float)
    L = (Q[1:4] - Q[0]).T
    ctx.close(L @ L.T, np.eye(3), eps, what + ": not an isometry")
    ctx.check(np.linalg.det(L) > 0, what + ": mirrored")
    ctx.close(Q, P @ L.T + Q[0], tol, what + ": not affine")
    # opposite normals, planes coincide
    ctx.close(L @ Mn, -Tn, eps, what + ": normals are not opposite")
    on = Mp + np.cross(Mn, ctx.rng.normal(size=(10, 3)))
    img = np.asarray(t.applyTransformation(on))
    ctx.close((img - Tp) @ Tn, np.zeros(10), tol, what + ": planes do not coincide")
    # reference point on the line through the target point along the normal
    r = np.asarray(t.applyTransformation(np.array(mp).reshape(1, 3)), float).reshape(3)
    d = r - tp
    ctx.close(d - (d @ Tn) * Tn, np.zeros(3), tol, what + ": reference point is not above the target point")
    # its height over the plane is kept (on the other side)
    ctx.check(abs((r - Tp) @ Tn + (mp - Mp) @ Mn) < tol, what + ": height of the reference point")
    # surfaces move likewise
    mv = Plane(Mn, Mp).from_alg_object(transformation=[t])
    ctx.close(mv.normal, -Tn, eps, what + ": transformed plane")
    ctx.check(abs((np.asarray(mv.point) - Tp) @ Tn) < tol, what + ": transformed plane is off the target")
    ctx.event("alignments")
    ctx.observe(len(P))
    return L, Q[0]


@core.family(FAMILIES, 420, 15000, "pairs of planes and points")
def pairs(ctx):
    from czone.transform import s2s_alignment
    from czone.volume.algebraic import Plane
    Mn, Tn = gen.vector(ctx), gen.vector(ctx)
    mode = ctx.choice(["any", "any", "any", "parallel", "anti", "near-parallel", "near-anti"])
    if mode != "any":
        u = Tn / np.linalg.norm(Tn)
        e = 0 if mode in ("parallel", "anti") else 10 ** ctx.rng.uniform(-12, -3)
        Mn = (u + np.cross(u, ctx.rng.normal(size=3)) * e) * (1 if "parallel" in mode else -1) * ctx.rng.uniform(.1, 10)
    Mp, Tp = gen.point(ctx, 20), gen.point(ctx, 20)
    on = ctx.choice(["on", "off", "off", "same"])
    if on == "on":
        mp, tp = Mp + np.cross(Mn, ctx.rng.normal(size=3)), Tp + np.cross(Tn, ctx.rng.normal(size=3))
    elif on == "same":
        mp, tp = Mp.copy(), Tp.copy()
    else:
        mp, tp = gen.point(ctx, 20), gen.point(ctx, 20)
    ctx.describe(mode=mode, points=on, Mn=np.round(Mn, 3), Tn=np.round(Tn, 3))
    M, T = Plane(Mn, Mp), Plane(Tn, Tp)
    if ctx.chance(.2):         # planes moved after they were used
        M, T = Plane(gen.vector(ctx), gen.point(ctx)), Plane(gen.vector(ctx), gen.point(ctx))
        s2s_alignment(M, T, np.array(mp), np.array(tp))
        M.normal, M.point, T.normal, T.point = Mn, Mp, Tn, Tp
        ctx.event("used_planes")
    s0 = [np.array(x) for x in (M.normal, M.point, T.normal, T.point)]

    def form(x):
        r = ctx.rng.random()
        return list(x) if r < .2 else x.reshape(3, 1).copy() if r < .3 else x.reshape(1, 3).copy() if r < .4 else np.array(x)
    a, b = form(mp), form(tp)
    a0, b0 = np.array(a, float), np.array(b, float)
    t = s2s_alignment(M, T, a, b)
    for x, y in zip(s0, (M.normal, M.point, T.normal, T.point)):
        ctx.check(np.array_equal(x, y), "input planes were changed")
    ctx.check(np.array_equal(a0, np.array(a, float)) and np.array_equal(b0, np.array(b, float)), "input points were changed")
    L, o = judge(ctx, t, Mn, Mp, Tn, Tp, mp, tp, "alignment")
    # applying it moves neither of the inputs, and may be repeated
    x = np.array([[1., 2, 3]])
    ctx.close(t.applyTransformation(x), x @ L.T + o, 1e-9 * max(1, np.max(np.abs(o))), "alignment changes with use")
    for p, q in zip(s0, (M.normal, M.point, T.normal, T.point)):
        ctx.check(np.array_equal(p, q), "input planes were changed by using the alignment")


@core.family(FAMILIES, 60, 1500, "a crystal slab is brought into contact with a substrate")
def slabs(ctx):
    from czone.transform import s2s_alignment
    from czone.volume.algebraic import Plane
    g, cr = gen.crystal(ctx, small=True)
    size = max(3., gen.size_for(ctx, cr, 100))
    reg, rk = gen.bounded_region(ctx, gen.point(ctx), size, ctx.choice(["hull", "prism", "sphere+plane"]))
    v = gen.build_volume(ctx, reg, g)
    c = np.mean(gen.region_box(reg), axis=0)
    n = gen.vector(ctx)
    n = n / np.linalg.norm(n)
    Mp = c + n * size * .1
    M = Plane(n, Mp)
    v.add_alg_object(M)
    reg = reg + [("plane", n, Mp, 1e-5)]
    Tn, Tp = gen.vector(ctx), gen.point(ctx, 15)
    T = Plane(Tn, Tp)
    t = s2s_alignment(M, T, np.array(c), np.array(Tp))
    L, o = judge(ctx, t, n, Mp, Tn, Tp, c, Tp, "slab")
    v.transform(t)
    v.populate_atoms()
    A = m.affine(L, o)
    X, Z = cr.sites(*gen.region_box(reg))
    k = m.margin(reg, X)
    m.compare_sites(ctx, v.atoms, v.species, m.act(A, X), Z, k, max(1e-6, m.band_of(reg, X)), "aligned slab")
    # the slab stands outside of the substrate, which is the interior of the target plane
    h = (np.asarray(v.atoms) - Tp) @ (Tn / np.linalg.norm(Tn))
    ctx.check(np.all(h > -1e-4), "aligned slab penetrates the substrate", lowest=float(h.min()) if len(h) else None)
    ctx.describe(region=rk)
