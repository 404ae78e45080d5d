import itertools

import numpy as np
from .. import core, gen, model as m

PROP = "C06"
FAMILIES = []
RULE = ("Vectors of random direction and length (1e-6 to 1e6), special directions, pairs at angles 0, pi and within 1e-3 to 1e-15 "
        "of either; integer and list input; results are judged by what they must map and by orthogonality and determinant.")
ASSUMPTIONS = ["rounding: 1e-7 for directions (1e-6 for nearly parallel sets of vectors)"]
MIN_EVENTS = {"rotations_judged": 1500, "nearly_parallel": 150, "antiparallel": 60}


def proper(ctx, R, what, tol=1e-7):
    R = np.asarray(R, float)
    ctx.check(R.shape == (3, 3), what + ": shape")
    ctx.close(R @ R.T, np.eye(3), tol, what + ": orthogonal")
    ctx.check(abs(np.linalg.det(R) - 1) < tol, what + ": determinant", det=np.linalg.det(R))
    ctx.event("rotations_judged")
    ctx.observe()
    return R


def length(ctx):
    return 1.0 if ctx.chance(.4) else 10 ** ctx.rng.uniform(-6, 6)


def forms(ctx, v):
    r = ctx.rng.random()
    if r < .15:
        return list(v)
    if r < .25:
        return np.array(v).reshape(1, 3)
    if r < .35:
        return np.array(v).reshape(3, 1)
    return np.array(v)


def pair(ctx):
    """two vectors at a chosen angle, and that angle"""
    u = gen.vector(ctx, .6)
    u = u / np.linalg.norm(u)
    w = np.cross(u, ctx.rng.normal(size=3))
    w /= np.linalg.norm(w)
    mode = ctx.choice(["any", "any", "parallel", "anti", "near-parallel", "near-parallel", "near-anti", "near-anti", "right", "special"])
    if mode == "any":
        th = ctx.rng.uniform(0, np.pi)
    elif mode == "parallel":
        th = 0.0
    elif mode == "anti":
        th = np.pi
    elif mode == "right":
        th = np.pi / 2
    elif mode == "special":
        v = ctx.choice(gen.SPECIAL)
        th = np.arctan2(np.linalg.norm(np.cross(u, v)), u @ v)
        return u * length(ctx), v * 1.0, th, mode
    else:
        e = 10 ** ctx.rng.uniform(-16, -2)
        th = e if mode == "near-parallel" else np.pi - e
        ctx.event("nearly_parallel")
    if th == np.pi:
        v = -u
        ctx.event("antiparallel")
    elif th == 0:
        v = u * 1.0
    else:
        v = np.cos(th) * u + np.sin(th) * w
    if mode == "anti" and ctx.chance(.5):
        ints = ctx.choice([(1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 1), (1, 1, 0), (2, -1, 3), (0, 3, -1)])
        return np.array(ints), -np.array(ints), np.pi, mode
    return u * length(ctx), v * length(ctx), th, mode


@core.family(FAMILIES, 500, 20000, "rotation of one vector into another")
def vector_to_vector(ctx):
    from czone.transform import rot_vtv
    u, v, th, mode = pair(ctx)
    ctx.describe(u=u, v=v, mode=mode)
    a, b = forms(ctx, u), forms(ctx, v)
    if ctx.chance(.2):         # arrays used before with other contents
        a, b = np.array(u, float), np.array(v, float)
        a[...], b[...] = v[::-1], np.roll(u, 1)
        rot_vtv(a, b)
        a[...], b[...] = u, v
        ctx.event("reused_arrays")
    a0, b0 = np.array(a), np.array(b)
    R = proper(ctx, rot_vtv(a, b), "rot_vtv")
    ctx.check(np.array_equal(a, a0) and np.array_equal(b, b0), "rot_vtv: vectors were changed")
    uu, vv = u / np.linalg.norm(u), v / np.linalg.norm(v)
    ctx.close(R @ uu, vv, 1e-7, "rot_vtv: image of the vector", mode=mode)
    # smallest rotation: its angle is the angle between the vectors
    ang = np.arctan2(np.linalg.norm([R[2, 1] - R[1, 2], R[0, 2] - R[2, 0], R[1, 0] - R[0, 1]]) / 2, (np.trace(R) - 1) / 2)
    ctx.check(abs(ang - th) < 1e-6, "rot_vtv: not the smallest rotation", got=ang, expected=th)
    # usable as a Rotation
    from czone.transform import Rotation
    Rotation(matrix=R)


@core.family(FAMILIES, 250, 9000, "rotation about a vector by an angle")
def about_vector(ctx):
    from czone.transform import rot_v
    v = gen.vector(ctx, .5) * length(ctx)
    th = float(ctx.choice([0, np.pi, -np.pi, np.pi / 2, 2 * np.pi, 1e-9, ctx.rng.uniform(-10, 10), ctx.rng.uniform(-np.pi, np.pi)]))
    ctx.describe(v=v, theta=th)
    a = forms(ctx, v)
    a0 = np.array(a)
    R = proper(ctx, rot_v(a, th), "rot_v")
    ctx.check(np.array_equal(a, a0), "rot_v: vector was changed")
    if isinstance(a, np.ndarray) and a.dtype.kind == "f":
        v = v.copy()
        a *= -1.
        ctx.close(rot_v(a, th), m.axis_angle(-v, th), 1e-9 * max(1, abs(th)), "rot_v of a vector changed in place")
        ctx.event("reused_arrays")
    ctx.close(R, m.axis_angle(v, th), 1e-9 * max(1, abs(th)), "rot_v")
    th2 = float(ctx.rng.uniform(-3, 3))
    ctx.close(rot_v(v, th2) @ R, rot_v(v, th + th2), 1e-8, "rot_v: angles add up")


@core.family(FAMILIES, 250, 8000, "rotation aligning two sets of vectors")
def align_sets(ctx):
    from czone.transform import rot_align
    n = ctx.randint(2, 6)
    V = ctx.rng.normal(size=(n, 3)) if ctx.chance(.7) else np.array([gen.vector(ctx, 1.) for _ in range(n)])
    R0 = gen.rotation(ctx)[0]
    s = np.linalg.svd(V / np.linalg.norm(V, axis=1)[:, None], compute_uv=False)
    if s[1] < 1e-2:
        raise core.Skip("vectors are parallel: rotation is not unique")
    T = V @ R0.T
    scale = length(ctx)
    VV, TT = V * scale, T * scale
    if ctx.chance(.25):        # arrays used before with other contents
        Q = gen.rotation(ctx)[0]
        VV[...] = VV @ Q
        rot_align(VV, TT)
        VV[...] = V * scale
        ctx.event("reused_arrays")
    k0, k1 = VV.copy(), TT.copy()
    R = proper(ctx, rot_align(VV, TT), "rot_align")
    ctx.check(np.array_equal(VV, k0) and np.array_equal(TT, k1), "rot_align: vectors were changed")
    ctx.describe(V=np.round(V, 3), R=np.round(R0, 3))
    ctx.close(R, R0, 1e-6 / s[1], "rot_align: rotation")
    ctx.close(V @ R.T, T, 1e-6 / s[1] * np.max(np.abs(V)), "rot_align: images")
    # noisy targets: no rotation nearby does better
    N = T + ctx.rng.normal(size=T.shape) * .1
    R = proper(ctx, rot_align(V, N), "rot_align of inexact sets")
    cost = np.sum((V @ R.T - N) ** 2)
    for _ in range(6):
        Q = m.axis_angle(ctx.rng.normal(size=3), 10 ** ctx.rng.uniform(-3, 0)) @ R
        ctx.check(np.sum((V @ Q.T - N) ** 2) >= cost - 1e-9, "rot_align: a better rotation exists")


@core.family(FAMILIES, 250, 8000, "Euler angles")
def euler(ctx):
    from czone.transform import rot_zxz
    sp = [0, np.pi / 2, np.pi, -np.pi / 2, np.pi / 3]
    a, b, g = [float(ctx.choice(sp)) if ctx.chance(.3) else float(ctx.rng.uniform(-7, 7)) for _ in range(3)]
    z, x = np.array([0, 0, 1.]), np.array([1., 0, 0])
    ctx.describe(angles=(a, b, g))
    # intrinsic: alpha about Z, then beta about the moved X', then gamma about the moved Z''
    R1 = m.axis_angle(z, a)
    R2 = m.axis_angle(R1 @ x, b) @ R1
    R3 = m.axis_angle(R2 @ z, g) @ R2
    I = proper(ctx, rot_zxz(a, b, g), "intrinsic angles")
    ctx.close(I, R3, 1e-9, "intrinsic zxz rotation")
    ctx.close(rot_zxz(a, b, g, convention="intrinsic"), R3, 1e-9, "intrinsic zxz rotation by name")
    # extrinsic: gamma, beta, alpha about fixed axes
    E = m.axis_angle(z, a) @ m.axis_angle(x, b) @ m.axis_angle(z, g)
    X = proper(ctx, rot_zxz(a, b, g, convention="extrinsic"), "extrinsic angles")
    ctx.close(X, E, 1e-9, "extrinsic zxz rotation")
    ctx.raises(lambda: rot_zxz(a, b, g, convention=ctx.choice(["zxz", "", "Intrinsic", None])), "unknown convention")


@core.family(FAMILIES, 300, 9000, "angles between vectors, rounding away from zero")
def angles(ctx):
    from czone.util.misc import round_away, vangle
    u, v, th, mode = pair(ctx)
    got = vangle(np.ravel(u), np.ravel(v))
    ctx.describe(u=u, v=v, mode=mode)
    ctx.check(np.isfinite(got), "vangle: not finite", mode=mode)
    # arccos is accurate to the square root of rounding at both ends
    ctx.check(abs(got - th) < 1e-7 + min(3e-8, 1e-15 / max(np.sin(th), 1e-16)), "vangle", got=got, expected=th)
    ctx.check(0 <= got <= np.pi, "vangle: range")
    n = ctx.randint(2, 7)
    a, b = ctx.rng.normal(size=n), ctx.rng.normal(size=n)
    q = np.linalg.qr(ctx.rng.normal(size=(n, n)))[0]
    ctx.check(abs(vangle(a, b) - vangle(q @ a, q @ b)) < 1e-6, "vangle changes under rotation in N dimensions")
    ctx.check(abs(vangle(a, a * 3.1)) < 1e-7, "vangle of parallel vectors", got=vangle(a, a * 3.1))
    ctx.check(abs(vangle(a, -a * .3) - np.pi) < 1e-7, "vangle of anti-parallel vectors")
    x = ctx.rng.uniform(-30, 30, 60)
    x[:20] = np.round(x[:20])
    x[20:30] = np.round(x[20:30]) + ctx.rng.choice([-1, 1], 10) * 10 ** ctx.rng.uniform(-14, -1, 10)
    x[30] = 0.0
    x0 = x.copy()
    r = np.asarray(round_away(gen.reused(ctx, x.reshape(20, 3), round_away).ravel() if ctx.chance(.3) else x))
    ctx.check(np.array_equal(x, x0), "round_away: numbers were changed")
    ctx.check(r.shape == x.shape and np.all(r == np.round(r)), "round_away: no integers")
    ctx.check(np.all(np.abs(r) >= np.abs(x)) and np.all(np.abs(r) - np.abs(x) < 1), "round_away: towards zero or too far")
    ctx.check(np.all(r * x >= 0), "round_away: sign changed")
    ctx.check(np.all(r[x == np.round(x)] == x[x == np.round(x)]), "round_away: integers moved")
    for k in (0, 25, 30, 45):
        ctx.check(float(round_away(float(x[k]))) == r[k], "round_away of one number")
    ctx.observe(60)
