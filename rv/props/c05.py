import numpy as np
from .. import core, gen, model as m, probes
from . import _world as W

PROP = "C05"
FAMILIES = []
RULE = ("Random transformations of every class, nested sequences, parameters replaced after construction, matrices with shear and "
        "scaling; images of points, bases and surfaces are compared with one affine map computed from the parameters alone.")
ASSUMPTIONS = ["spheres and cylinders are transformed by isometries only", "rounding: 1e-9 relative to the coordinates"]
MIN_EVENTS = {"points_mapped": 20000, "surfaces_mapped": 120}


def tol_for(*Xs):
    return 1e-9 * max([1.0] + [float(np.max(np.abs(x))) for x in Xs if np.size(x)])


def judge_map(ctx, t, A, what, pts=None):
    P = ctx.rng.normal(size=(40, 3)) * 10 ** ctx.rng.uniform(-1, 2) if pts is None else pts
    if pts is None and ctx.chance(.25):        # whole numbers, and types that hold nothing else
        P = ctx.rng.integers(-40, 41, (40, 3)).astype(ctx.choice([int, np.int32, np.int64, float]))
        ctx.event("points:" + P.dtype.name)
    Q = np.asarray(t.applyTransformation(gen.reused(ctx, P, t.applyTransformation)), float)
    ctx.close(Q, m.act(A, P), tol_for(P, m.act(A, P), A), what + ": images of points")
    for k in gen.batches(ctx, len(P), 4):
        F = gen.form(ctx, P[k])
        W0 = np.array(F)
        ctx.close(t.applyTransformation(F), Q[k], tol_for(P, Q, A), what + ": images of a few points")
        ctx.check(np.array_equal(F, W0), what + ": points handed in were changed")
        ctx.event("batches:" + str(len(k)))
    i = ctx.randint(0, len(P) - 1)
    ctx.close(np.ravel(t.applyTransformation(P[i:i + 1])), Q[i], tol_for(Q), what + ": image of one point")
    B = np.eye(3) if ctx.chance(.2) else ctx.rng.normal(size=(3, 3)) * 4
    ctx.close(t.applyTransformation_bases(gen.reused(ctx, B, t.applyTransformation_bases)), A[:3, :3] @ B, tol_for(B, A @ A.T) * 10, what + ": bases")
    ctx.observe(len(P))
    ctx.event("points_mapped", len(P))
    return P, Q


def general(ctx):
    """any invertible matrix transformation"""
    from czone.transform import MatrixTransform
    for _ in range(50):
        M = ctx.rng.normal(size=(3, 3)) if ctx.chance(.5) else np.diag(ctx.rng.uniform(.3, 3, 3)) @ gen.rotation(ctx)[0]
        if np.linalg.cond(M) < 30:
            break
    if ctx.chance(.5):
        o = gen.point(ctx)
        return MatrixTransform(matrix=M, origin=o), m.affine_about(M, o), "general"
    return MatrixTransform(matrix=M), m.affine(M), "general"


@core.family(FAMILIES, 220, 9000, "images of points and bases")
def points(ctx):
    if ctx.chance(.2):
        t, A, k = general(ctx)
    else:
        t, A, k = gen.isometry(ctx, locked=ctx.chance(.5), basis_only=ctx.chance(.3))
    ctx.describe(op=k, A=np.round(A, 4))
    P, Q = judge_map(ctx, t, A, k)
    if k != "general":
        d0 = np.linalg.norm(P[:, None] - P[None], axis=-1)
        d1 = np.linalg.norm(Q[:, None] - Q[None], axis=-1)
        ctx.close(d1, d0, 1e-9 * max(1, d0.max(), np.max(np.abs(Q))), k + ": distances")
    if k in ("reflection", "inversion"):
        ctx.close(t.applyTransformation(Q), P, tol_for(P, Q, A), k + ": applied twice")
        ctx.event("involutions")
    if k == "reflection":
        pl = t.plane
        on = np.asarray(pl.point) + np.cross(pl.normal, ctx.rng.normal(size=(10, 3)))
        ctx.close(t.applyTransformation(on), on, tol_for(on, A), "reflection moves its plane")
    if k in ("rotation", "inversion", "general", "matrix") and t.origin is not None:
        o = np.asarray(t.origin, float).reshape(1, 3)
        ctx.close(t.applyTransformation(o), o, tol_for(o), k + ": origin moved")
        ctx.event("fixed_points")


@core.family(FAMILIES, 30, 800, "thousands of points, large and small coordinates")
def large(ctx):
    t, A, k = general(ctx) if ctx.chance(.2) else gen.isometry(ctx, scale=ctx.choice([10., 3000.]))
    n = ctx.choice([65, 257, 1025, 4097, 9999, 30001])
    P = ctx.rng.normal(size=(n, 3)) * 10 ** ctx.rng.uniform(-6, 5) + gen.point(ctx, ctx.choice([0., 10., 1e4]))
    judge_map(ctx, t, A, k + " of many points", P)
    ctx.describe(op=k, n=n)
    ctx.event("large_arrays")


@core.family(FAMILIES, 120, 5000, "sequences equal their members applied in order")
def sequences(ctx):
    from czone.transform import MultiTransform
    n = ctx.randint(0, 5)
    locked, bo = ctx.chance(.5), ctx.chance(.3)
    parts = [gen.isometry(ctx, locked, bo) if ctx.chance(.8) else general(ctx) for _ in range(n)]
    mt = MultiTransform([p[0] for p in parts]) if ctx.chance(.5) else MultiTransform()
    if not mt.transforms:
        k = ctx.randint(0, n)
        if k:
            mt.add_transform([p[0] for p in parts[:k]])
        for p in parts[k:]:
            mt.add_transform(p[0])
    A = m.compose(*[p[1] for p in parts])
    ctx.describe(ops=[p[2] for p in parts])
    P, Q = judge_map(ctx, mt, A, "sequence")
    X = np.array(P)
    for p in parts:
        X = p[0].applyTransformation(X)
    ctx.close(Q, X, tol_for(Q), "sequence against its members")
    if n:
        ctx.check(bool(mt.locked) == any(p[0].locked for p in parts), "locked flag of a sequence")
        ctx.check(bool(mt.basis_only) == any(p[0].basis_only for p in parts), "basis-only flag of a sequence")
        ctx.check(len(mt.transforms) == n, "members of a sequence")
        for a_, b_ in zip(mt.params, parts):
            w = b_[0].params
            ctx.check(all(np.array_equal(np.asarray(x, float) if x is not None else 0, np.asarray(y, float) if y is not None else 0)
                          for x, y in zip(a_, w)) if isinstance(w, tuple) and not isinstance(w[0], tuple) else True, "parameters of a sequence")
    # nested sequence, appended to later
    extra, B, k = gen.isometry(ctx)
    outer = MultiTransform([mt])
    outer.add_transform(extra)
    judge_map(ctx, outer, B @ A, "nested sequence")


@core.family(FAMILIES, 200, 8000, "transformed surfaces contain exactly the transformed points")
def surfaces(ctx):
    from .c03 import test_points
    kind = ctx.choice(["plane", "plane", "sphere", "cyl"])
    c = gen.point(ctx)
    size = float(ctx.rng.uniform(1, 8))
    tol = gen.tolerance(ctx)
    if kind == "plane":
        sp = ("plane", gen.vector(ctx), c, tol)
    elif kind == "sphere":
        sp = ("sphere", c, size, tol)
    else:
        sp = ("cyl", gen.vector(ctx), c, size, float(ctx.rng.uniform(1, 8)), tol)
    o = gen.build_alg(sp, ctx)
    n = ctx.randint(1, 4)
    ts, A, log, iso = [], np.eye(4), [], True
    for _ in range(n):
        if kind == "plane" and ctx.chance(.4):
            t, B, k = general(ctx)
            iso = False
        else:
            t, B, k = gen.isometry(ctx, locked=ctx.chance(.7), basis_only=ctx.chance(.2))
        ts.append(t)
        A = B @ A
        log.append(k)
    P = test_points(ctx, [sp], c, size, 80)
    before = np.asarray(o.checkIfInterior(np.array(P)))
    copy = o.from_alg_object(transformation=ts)
    Q = m.act(A, P)
    Ms = m.margin([sp], P)
    b = m.band_of([sp], Q) * max(1.0, np.linalg.cond(A[:3, :3]))
    if not iso:
        b = b + tol * 4 * np.linalg.cond(A[:3, :3])      # padding is measured after the map
    got = np.asarray(copy.checkIfInterior(np.array(Q)))
    bad = (got & (Ms > b)) | (~got & (Ms < -b))
    ctx.check(not bad.any(), f"{kind} after {'+'.join(log)}: contains other points than the images", n=int(bad.sum()), of=len(P))
    ctx.check(np.array_equal(np.asarray(o.checkIfInterior(np.array(P))), before), "copying a surface with transformations changed it")
    # in place
    x = gen.build_alg(sp)
    if ctx.chance(.4):                          # as one sequence
        from czone.transform import MultiTransform
        x = MultiTransform(ts).applyTransformation_alg(x)
        ctx.event("surfaces_by_sequences")
    else:
        for t in ts:
            x = t.applyTransformation_alg(x)
    got2 = np.asarray(x.checkIfInterior(np.array(Q)))
    bad = (got2 & (Ms > b)) | (~got2 & (Ms < -b))
    ctx.check(not bad.any(), f"{kind} after {'+'.join(log)} in place: contains other points than the images", n=int(bad.sum()))
    ctx.check(abs(x.tol - tol) < 1e-15, "tolerance of a transformed surface")
    if kind != "plane":
        ctx.check(abs(x.radius - size) < 1e-9, "radius of a transformed surface")
    par = [q.params() if callable(q.params) else q.params for q in (x, copy)]     # a method of cylinders
    for a_, b_ in zip(*par):
        ctx.close(a_, b_, 1e-7, "parameters of a surface transformed in place and of a transformed copy")
    if iso:
        ctx.close(np.asarray(par[0][1]).ravel(), m.act(A, np.reshape(c, (1, 3)))[0], 1e-7, "reference point of a transformed surface")
    ctx.observe(len(P))
    ctx.event("surfaces_mapped")
    ctx.event("surface:" + kind)
    ctx.describe(kind=kind, ops=log)


@core.family(FAMILIES, 100, 3000, "parameters replaced after construction take effect")
def replaced(ctx):
    from czone.transform import Translation, Rotation, Reflection, Inversion, MatrixTransform
    from czone.volume.algebraic import Plane
    k = ctx.choice(["translation", "rotation", "reflection", "inversion", "matrix"])
    if k == "translation":
        t = Translation(gen.point(ctx)) if ctx.chance(.5) else Translation()
        s = gen.point(ctx)
        t.shift = s
        A = m.affine(None, s)
        ctx.close(t.params, s, 1e-12, "parameters")
    elif k in ("rotation", "matrix"):
        cls = Rotation if k == "rotation" else MatrixTransform
        t = cls(matrix=gen.rotation(ctx)[0], origin=gen.point(ctx) if ctx.chance(.5) else None)
        R = gen.rotation(ctx)[0]
        t.matrix = R
        A = m.affine(R) if t.origin is None else m.affine_about(R, t.origin)
        if ctx.chance(.5):
            o = gen.point(ctx)
            t.origin = o
            A = m.affine_about(R, o)
        ctx.close(t.params[0], R, 1e-12, "parameters")
    elif k == "reflection":
        t = Reflection(Plane(gen.vector(ctx), gen.point(ctx))) if ctx.chance(.6) else Reflection()
        n, p = gen.vector(ctx), gen.point(ctx)
        t.plane = Plane(n, p)
        A = m.affine_about(m.householder(n), p)
    else:
        t = Inversion(origin=gen.point(ctx))
        o = gen.point(ctx)
        t.origin = list(o) if ctx.chance(.3) else o
        A = m.affine_about(-np.eye(3), o)
    judge_map(ctx, t, A, k + " with replaced parameters")
    t.locked = ctx.chance(.5)
    t.basis_only = ctx.chance(.5)
    judge_map(ctx, t, A, k + " with other flags")
    ctx.describe(op=k, A=np.round(A, 3))


@core.family(FAMILIES, 25, 700, "every transformation applied while a scene is edited acts affinely")
def scenarios(ctx):
    def lin(ctx, tok, args, kw, res):
        P = np.asarray(args[1] if len(args) > 1 else kw["points"], float).reshape(-1, 3)
        Q = np.asarray(res, float).reshape(-1, 3)
        if len(P) < 2:
            return
        d0 = np.linalg.norm(P - P[0], axis=1)
        d1 = np.linalg.norm(Q - Q[0], axis=1)
        ctx.close(d1, d0, 1e-8 * max(1, d0.max(), np.max(np.abs(Q))), "distances under a transformation in a scene")
        ctx.observe(len(P))
        ctx.event("online_maps")
    for n in ("Translation", "MatrixTransform", "Rotation", "Reflection", "Inversion", "MultiTransform"):
        probes.hook(n + ".applyTransformation", None, lin)
    W.run(ctx, steps=ctx.randint(4, 10))
