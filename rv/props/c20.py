import numpy as np
from .. import core, gen, model as m

PROP = "C20"
FAMILIES = []
RULE = ("Placed crystals of all systems, zone axes of small and larger indices (parallel, antiparallel and oblique to z), volumes of every "
        "kind, planes through and off the volume with any normal. The pose of both grains is read from the built object, has to be a proper "
        "rigid motion of the given crystal with the zone axis along z, and every site of it in its part of the volume has to be there.")
ASSUMPTIONS = ["volumes are convex Volume objects and the boundary is a Plane object (Miller indices and phases are not implemented)",
               "the angle about the zone axis is left to the package"]
MIN_EVENTS = {"inner_atoms": 3000, "outer_atoms": 3000, "boundaries": 150}

AXES = [(0, 0, 1), (1, 0, 0), (0, 1, 0), (1, 1, 0), (1, 1, 1), (0, 0, -1), (1, -1, 0), (2, 1, 0), (1, 1, 2), (-1, 0, 0), (3, 1, -2), (0, 2, 0)]


def grains(ctx, obj, cr, z):
    """[(crystal of member, does it have zone axis i along z)]"""
    vols = list(obj.volumes)
    ctx.check(len(vols) == 2, "number of grains", n=len(vols))
    out = []
    for v in vols:
        c = m.crystal_of(v.generator)
        T = c.pose @ np.linalg.inv(cr.pose)
        R = T[:3, :3]
        ctx.check(np.max(np.abs(R @ R.T - np.eye(3))) < 1e-7 and np.linalg.det(R) > 0, "grain is not a rotated copy of the crystal", R=R)
        ok = []
        for q in z:
            u = c.basis @ np.asarray(q, float)
            u = u / np.linalg.norm(u)
            ok.append(bool(np.linalg.norm(u - [0, 0, 1]) < 1e-6))
        out.append((c, ok))
    return out


def judge(ctx, X, Z, region, plane, first, second, what):
    n, p, tol = plane
    n = n / np.linalg.norm(n)
    lo, hi = gen.region_box(region)
    X, Z = np.asarray(X, float), np.asarray(Z)
    band = 1e-6 + m.band_of(region, X if len(X) else np.zeros((1, 3)))
    s = (X - p) @ n - tol if len(X) else np.zeros(0)
    for name, c, sg in (("inner", first, 1), ("outer", second, -1)):
        EX, EZ = c.sites(lo, hi)
        es = ((EX - p) @ n - tol) * sg
        mine = s * sg < -band
        keep = es < band
        EX, EZ, es = EX[keep], EZ[keep], es[keep]
        Em = np.maximum(m.margin(region, EX), es)
        # atoms in the band about the plane are judged below
        m.compare_sites(ctx, X[mine], Z[mine], EX, EZ, np.where(np.abs(es) <= band, np.maximum(Em, -band / 2), Em), band, f"{what}, {name} side")
        ctx.event(f"{name}_atoms", int(mine.sum()))
    mid = np.abs(s) <= band
    if mid.any():
        a, _ = first.is_site(X[mid])
        b, _ = second.is_site(X[mid])
        ctx.check(np.all((a >= 0) | (b >= 0)), f"{what}: atom on the boundary belongs to no grain")
        ctx.event("atoms_on_boundary", int(mid.sum()))


def zone(ctx):
    if ctx.chance(.8):
        return ctx.choice(AXES)
    while True:
        q = tuple(int(x) for x in ctx.rng.integers(-3, 4, 3))
        if any(q):
            return q


@core.family(FAMILIES, 400, 12000, "boundaries of any crystal, volume and plane")
def boundaries(ctx):
    from czone.prefab.prefab import SimpleGrainBoundary
    from czone.volume.algebraic import Plane
    g, cr = gen.crystal(ctx, small=True)
    cr = gen.place(ctx, g, cr)
    z1 = zone(ctx)
    z2 = zone(ctx)
    same = ctx.chance(.15)
    size = gen.size_for(ctx, cr, ctx.randint(60, 300))
    c = gen.point(ctx, ctx.choice([8., 40.]))
    region, kind = gen.bounded_region(ctx, c, size)
    r = ctx.rng.random()
    p = c + ctx.rng.normal(size=3) * size * (.2 if r < .85 else 2.)
    n = gen.vector(ctx)
    tol = gen.tolerance(ctx)
    plane = gen.build_alg(("plane", n, p, tol), ctx)
    v = gen.build_volume(ctx, region, generator=g if ctx.chance(.5) else None, priority=ctx.choice([None, 0, 3, -2]))
    form = ctx.choice([tuple, list, np.array])
    if same:
        z2 = z1
        kw = {} if ctx.chance(.5) else dict(z2=None)
    else:
        kw = dict(z2=form(z2))
    b = SimpleGrainBoundary(form(z1), 0, r2=0, plane=plane, volume=v, generator=g, **kw)
    ctx.describe(z1=z1, z2=z2, region=kind, n=np.round(n, 3), offset=round(float((c - p) @ n / np.linalg.norm(n)), 2), tol=tol)
    log = []
    for step in range(ctx.randint(1, 3)):
        obj = b.build_object()
        gr = grains(ctx, obj, cr, (z1, z2))
        reg, pl, T = region, (np.asarray(n, float), p, tol), np.eye(4)
        if ctx.chance(.25):
            t, T, lab = gen.isometry(ctx)
            obj.transform(t)
            reg = [m.move(s, T) for s in region]
            q = m.move(("plane", n, p, tol), T)
            pl = (q[1], q[2], tol)
            log.append(lab)
        obj.populate_atoms()
        cand = []
        if gr[0][1][0] and gr[1][1][1]:
            cand.append((gr[0][0], gr[1][0]))
        if gr[1][1][0] and gr[0][1][1]:
            cand.append((gr[1][0], gr[0][0]))
        ctx.check(cand, "grains do not have their zone axes along z", found=[x[1] for x in gr])
        err = None
        for f, s in cand:
            try:
                judge(ctx, obj.atoms, obj.species, reg, pl, f.moved(T), s.moved(T), f"grain boundary ({kind})")
                err = None
                break
            except core.Violation as e:
                err = err or e
        if err is not None:
            raise err
        ctx.event("boundaries")
        # the builder is used again with another setting
        op = ctx.choice(["z1", "z2", "volume", "volume moved", "generator", "generator moved", "plane", "plane moved"])
        log.append(op)
        if op == "z1":
            z1 = zone(ctx)
            b.z1 = form(z1)
        elif op == "z2":
            z2 = zone(ctx)
            b.z2 = form(z2)
        elif op == "volume":
            region, kind = gen.bounded_region(ctx, c, size)
            b.volume = gen.build_volume(ctx, region, generator=g if ctx.chance(.5) else None)
        elif op == "volume moved":
            t, T, lab = gen.isometry(ctx, locked=False)
            b.volume.transform(t)
            region = [m.move(s, T) for s in region]
        elif op == "generator":
            g, cr = gen.crystal(ctx, small=True)
            cr = gen.place(ctx, g, cr)
            b.generator = g
        elif op == "generator moved":
            cr = gen.place(ctx, g, cr, n=1)
        elif op == "plane moved":
            n, p = gen.vector(ctx), c + ctx.rng.normal(size=3) * size * .2
            b.plane.normal, b.plane.point = np.array(n), np.array(p)
        else:
            n, p = gen.vector(ctx), c + ctx.rng.normal(size=3) * size * .2
            b.plane = Plane(n, p, tol=tol)
    ctx.describe(log=log)


@core.family(FAMILIES, 20, 300, "refused zone axes")
def refusals(ctx):
    from czone.prefab.prefab import SimpleGrainBoundary
    bad = ctx.choice([(1, 0), (1, 0, 0, 0), np.eye(3), [1]])
    ctx.raises(lambda: SimpleGrainBoundary(bad, 0), "zone axis of wrong size")
    ctx.raises(lambda: SimpleGrainBoundary((1, 0, 0), 0, z2=bad), "second zone axis of wrong size")
    b = SimpleGrainBoundary((1, 0, 0), 0, z2=(1, 1, 0))
    ctx.raises(lambda: setattr(b, "z1", bad), "zone axis of wrong size set later")
    ctx.check(np.array_equal(b.z1, (1, 0, 0)) and np.array_equal(b.z2, (1, 1, 0)), "zone axes after refusal")
    ctx.observe(4)
    ctx.describe(bad=np.shape(bad))
