import numpy as np
from .. import core, gen, model as m

PROP = "C13"
FAMILIES = []
RULE = ("Crystals of all systems, moved, rotated, mirrored, sheared off the origin by basis-only histories, rescaled and strained; random points "
        "near and far; Miller indices of any sign, with common factors and zeros. The returned plane is judged against reciprocal "
        "vectors computed from the placed basis, and against the atoms the generator supplies.")
ASSUMPTIONS = ["strain matrices act on row vectors (x @ M), as in HStrain", "points closer than 1e-7 spacings to a plane or to the "
               "middle between planes may go either way"]
MIN_EVENTS = {"planes_judged": 1500, "atoms_on_grid": 20000, "strained": 100}

INDICES = [(1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 0), (1, 1, 1), (1, -1, 1), (0, 0, 2), (2, 2, 0), (1, 1, 2), (-1, -1, -1), (0, -2, 0), (2, 1, -3), (3, 3, 3),
           (-1, 1, 0), (1, 0, -2), (4, 0, 2)]


def indices(ctx):
    if ctx.chance(.6):
        return ctx.choice(INDICES)
    while True:
        h = tuple(int(x) for x in ctx.rng.integers(-5, 6, 3))
        if any(h):
            return h


def strain_map(B, origin, M, mode):
    """affine map of a homogeneous strain"""
    L = B @ M.T @ np.linalg.inv(B) if mode == "crystal" else M.T
    return m.affine_about(L, origin)


def random_strain(ctx, B, gorigin, size=.08, full=None):
    from czone.transform.strain import HStrain
    mode = ctx.choice(["crystal", "standard"])
    form = ctx.choice(["3", "6", "9", "33"])
    if form == "3":
        v = 1 + ctx.rng.normal(size=3) * size
        M, arg = np.diag(v), v
    elif form == "6":
        v = np.concatenate([1 + ctx.rng.normal(size=3) * size, ctx.rng.normal(size=3) * size])
        if ctx.chance(.35):        # single components
            v = np.where(ctx.rng.random(6) < .35, v, [1, 1, 1, 0, 0, 0])
        M = np.array([[v[0], v[5], v[4]], [v[5], v[1], v[3]], [v[4], v[3], v[2]]])
        arg = v
    else:
        M = np.eye(3) + ctx.rng.normal(size=(3, 3)) * size * (ctx.rng.random((3, 3)) < .25 if ctx.chance(.3) else 1)
        arg = M.ravel() if form == "9" else M.copy()
    arg = list(arg) if ctx.chance(.3) else arg
    kw = {} if mode == "crystal" and ctx.chance(.3) else dict(mode=mode)
    pt = ctx.chance(.4)
    if pt:
        o = gen.point(ctx)
        s = HStrain(arg, origin=o.copy(), **kw)
    else:
        o = np.array(gorigin, float)
        s = HStrain(arg, **kw)
    if full is not None:
        full.update(M=M, mode=mode, origin=o if pt else None)
    return s, strain_map(B, o, M, mode), f"{mode}/{form}/{'point' if pt else 'generator'}"


def setup(ctx):
    g, cr = gen.crystal(ctx)
    cr = gen.place(ctx, g, cr)
    if ctx.chance(.2):
        if ctx.chance(.7):      # scale set after use
            from czone.volume import snap_plane_near_point
            snap_plane_near_point(gen.point(ctx), g, indices(ctx))
            g.supply_atoms(np.array(g.origin, float) + ctx.rng.normal(size=(4, 3)))
            ctx.event("rescaled_after_use")
        sc = float(ctx.rng.uniform(.8, 1.3))
        if ctx.chance(.5):
            g.voxel.scale = np.array([sc])
            S = np.eye(3) * sc
        else:
            sv = ctx.rng.uniform(.8, 1.3, 3)
            g.voxel.scale = sv
            S = np.diag(sv)
        B = cr.basis @ S
    else:
        B = cr.basis
    o = np.array(cr.origin, float)
    label = "none"
    if ctx.chance(.4):
        g.strain_field, A, label = random_strain(ctx, B, o)
        L = A[:3, :3]
        B2, o2 = L @ B, m.act(A, o)
        ctx.event("strained")
    else:
        B2, o2 = B, o
    return g, cr, B2, o2, label


def judge(ctx, plane, P, B, o, hkl, mode):
    G = np.linalg.inv(B).T @ np.array(hkl, float)
    d = 1 / np.linalg.norm(G)
    scale = max(1., np.max(np.abs(P)), np.max(np.abs(o)))
    ctx.close(plane.normal, G * d, 1e-8 * max(1, d), "normal of the plane", hkl=hkl, mode=mode)
    k = float(G @ (np.asarray(plane.point, float) - o))
    ctx.check(abs(k - np.round(k)) < 1e-8 * max(1., scale / d * 100), "plane is not a lattice plane", index=k, hkl=hkl, mode=mode)
    k = int(np.round(k))
    i = float(G @ (np.asarray(P, float) - o))
    eps = 1e-7 + 1e-12 * abs(i)
    if mode == "nearest":
        ok = abs(k - i) <= .5 + eps
    else:
        lo, hi = (np.floor(i), np.ceil(i)) if i >= 0 else (np.ceil(i), np.floor(i))   # towards, away from origin
        r = np.round(i)
        if abs(i - r) < eps:
            ok = abs(k - r) <= 1
        else:
            ok = k == (lo if mode == "floor" else hi)
    ctx.check(ok, f"wrong plane of the family ({mode})", index_of_point=i, index_of_plane=k, hkl=hkl)
    ctx.observe(1)
    ctx.event("planes_judged")
    return k, d


@core.family(FAMILIES, 300, 12000, "planes against reciprocal vectors")
def planes(ctx):
    from czone.volume import snap_plane_near_point
    g, cr, B, o, label = setup(ctx)
    for _ in range(6):
        hkl = indices(ctx)
        mode = ctx.choice(["nearest", "floor", "ceil"])
        P = gen.point(ctx, ctx.choice([1., 10., 60.]))
        r = ctx.rng.random()
        if r < .15:       # exactly a lattice point
            P = o + B @ ctx.rng.integers(-4, 5, 3)
        elif r < .3:      # close to a lattice plane or the middle between two
            G = np.linalg.inv(B).T @ np.array(hkl, float)
            i = ctx.randint(-6, 6) + ctx.choice([0, .5]) + ctx.choice([1, -1]) * 10 ** ctx.rng.uniform(-5, -2)
            P = P + G * (i - G @ (P - o)) / (G @ G)
        form = ctx.choice(["array", "list", "column", "tuple"])
        arg = {"array": P.copy(), "list": list(P), "column": P.reshape(3, 1), "tuple": tuple(P)}[form]
        h = ctx.choice([hkl, list(hkl), np.array(hkl)])
        if form in ("array", "column") and ctx.chance(.3):      # arrays used before with other contents
            keep = arg.copy()
            arg += ctx.rng.normal(size=arg.shape) * 9
            h = np.roll(np.array(hkl), 1)
            snap_plane_near_point(arg, g, h, mode=mode)
            arg[...] = keep
            h[...] = hkl
            ctx.event("reused_arrays")
        if mode == "nearest" and ctx.chance(.4):
            pl = snap_plane_near_point(arg, g, h)
        else:
            pl = snap_plane_near_point(arg, g, h, mode=mode)
        judge(ctx, pl, P, B, o, hkl, mode)
    ctx.close(g.voxel.sbases @ g.voxel.reciprocal_bases, np.eye(3), 1e-9, "reciprocal basis")
    ctx.describe(strain=label, hkl=hkl, mode=mode, P=np.round(P, 3))


@core.family(FAMILIES, 120, 5000, "planes against supplied atoms")
def atoms(ctx):
    from czone.generator import Generator
    from czone.volume import snap_plane_near_point
    from pymatgen.core import Lattice, Structure
    dims, ang = gen.cell_for(ctx.rng, ctx.choice(["cubic", "hexagonal", "tetragonal", "orthorhombic", "monoclinic", "triclinic", "triclinic"]))
    g = Generator.from_unit_cell([29], np.array([[0., 0, 0]]), dims, ang)
    cr = m.Crystal(np.array(Lattice.from_parameters(*dims, *ang).matrix), [[0, 0, 0]], [29])
    cr = gen.place(ctx, g, cr)
    label = "none"
    if ctx.chance(.6):
        g.strain_field, A, label = random_strain(ctx, cr.basis, cr.origin)
        ctx.event("strained")
    P = cr.origin + ctx.rng.normal(size=3) * 8
    hkl = indices(ctx)
    mode = ctx.choice(["nearest", "floor", "ceil"])
    pl = snap_plane_near_point(P, g, hkl, mode)
    X, _ = g.supply_atoms(P + np.array([[x, y, z] for x in (-9, 9.) for y in (-9, 9.) for z in (-9, 9.)]))
    s = (X - pl.point) @ pl.normal
    # spacing from the atoms: the smallest positive distance between planes of atoms, times a common factor of the indices
    g0 = int(np.gcd.reduce(np.abs(hkl)))
    u = np.unique(np.round(s, 5))
    gaps = np.diff(u)
    gaps = gaps[gaps > 1e-3]
    if not len(gaps):
        raise core.Skip("no planes")
    d = gaps.min() / g0
    dd = d
    B = g.voxel.sbases
    k = s / dd
    ctx.check(np.max(np.abs(k - np.round(k))) < .02 * max(1, np.max(np.abs(k)) / 50), "atoms are not on the grid of planes", hkl=hkl, strain=label,
              dev=np.max(np.abs(k - np.round(k))))
    if g0 == 1:
        ctx.check(np.min(np.abs(s)) < 1e-5 * 100, "no atom on the plane", hkl=hkl, strain=label)
        dist = abs((P - pl.point) @ pl.normal)
        if mode == "nearest":
            ctx.check(dist <= d / 2 + 1e-3, "not the nearest plane", dist=dist, spacing=d)
        else:
            ctx.check(dist <= d + 1e-3, "not a neighbouring plane", dist=dist, spacing=d)
            so = (g.origin - pl.point) @ pl.normal if label == "none" else None
            if so is not None:
                sp = (P - pl.point) @ pl.normal
                if abs(sp) > 1e-4 and abs(so) > 1e-4:
                    between = so * sp > 0          # point and origin on the same side
                    ctx.check(between == (mode == "ceil"), f"plane on the wrong side ({mode})", so=so, sp=sp)
    ctx.event("atoms_on_grid", len(X))
    ctx.event("planes_judged")
    ctx.observe(len(X))
    ctx.describe(hkl=hkl, mode=mode, strain=label, P=np.round(P, 3))


@core.family(FAMILIES, 40, 1000, "refused modes and fields; strain set, removed and changed between calls")
def histories(ctx):
    from czone.transform.strain import IStrain
    from czone.volume import snap_plane_near_point
    g, cr = gen.crystal(ctx)
    cr = gen.place(ctx, g, cr)
    for _ in range(4):
        B, o = cr.basis, np.array(cr.origin, float)
        if ctx.chance(.5):
            g.strain_field, A, label = random_strain(ctx, B, o)
            B, o = A[:3, :3] @ B, m.act(A, o)
        elif g.strain_field is not None:
            g = gen_without_strain(g)
        P, hkl, mode = gen.point(ctx), indices(ctx), ctx.choice(["nearest", "floor", "ceil"])
        if g.strain_field is None or True:
            judge(ctx, snap_plane_near_point(P, g, hkl, mode), P, B, o, hkl, mode)
        t, A, k = gen.isometry(ctx)
        g.transform(t)
        cr = cr.moved(A)
    ctx.raises(lambda: snap_plane_near_point(P, g, hkl, "sideways"), "unknown mode")
    g.strain_field = IStrain(lambda x, **kw: x)
    ctx.raises(lambda: snap_plane_near_point(P, g, hkl), "inhomogeneous strain")
    ctx.describe(hkl=hkl, P=np.round(P, 3))


def gen_without_strain(g):
    from czone.transform.strain import HStrain
    g.strain_field = HStrain()
    return g
