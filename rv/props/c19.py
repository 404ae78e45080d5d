import numpy as np
from scipy.spatial import cKDTree
from .. import core, gen, model as m
from . import _stack as S

PROP = "C19"
FAMILIES = []
RULE = ("Wurtzite crystals of several compounds (ideal and real c/a and u), in all settings of the cell and with any offset along c, turned, "
        "mirrored and moved; volumes of every kind anywhere; various numbers of faults and separations. The stacking sequence of both "
        "sublattices is reconstructed from the atoms; the structure that follows from it has to be complete, every interior atom bonded "
        "to four of the other element, and cubic layers are counted.")
ASSUMPTIONS = ["c is the last axis of the cell; the crystal is not strained and not rescaled", "volumes are convex Volume objects",
               "faults are counted for volumes whose bounding points touch them, for separations of at least 5"]
MIN_EVENTS = {"atoms_matched": 30000, "four_coordinated": 10000, "sequences_counted": 8, "faults": 8}

COMPOUNDS = [(31, 7, 3.189, 5.185, .377), (30, 8, 3.2495, 5.2069, .3819), (13, 7, 3.112, 4.982, .382), (48, 16, 4.136, 6.713, .377),
             (31, 7, 3.2, None, .375), (14, 6, 3.076, 5.048, .3755)]


def wurtzite(ctx, place=True):
    from czone.generator import Generator
    A_, B_, a, c, u = ctx.choice(COMPOUNDS)
    c = c or a * np.sqrt(8 / 3)
    if ctx.chance(.3):
        u = 1 - u              # other polarity
    xy = ctx.choice([(1 / 3, 2 / 3), (1 / 3, 2 / 3), (2 / 3, 1 / 3)])
    z = ctx.choice([0., 0., 0., .5, .1, .25, float(ctx.rng.uniform(0, 1))])
    if ctx.chance(.3):
        A_, B_ = B_, A_
    if ctx.chance(.6):
        g = Generator.from_spacegroup([A_, B_], np.array([[*xy, z], [*xy, z + u]]), [a, a, c], [90, 90, 120], sgn=186)
    else:
        yx = xy[::-1]
        f = np.array([[*xy, z], [*yx, z + .5], [*xy, z + u], [*yx, z + u + .5]])
        p = ctx.rng.permutation(4)
        g = Generator.from_unit_cell([[A_, A_, B_, B_][i] for i in p], f[p], [a, a, c], [90, 90, 120])
    st = g.structure
    cr = m.Crystal(st.lattice.matrix, st.frac_coords, [s.Z for s in st.species])
    ctx.describe(compound=(A_, B_), ac=(round(a, 3), round(c, 3)), u=u, xy=np.round(xy, 2), z=round(z, 3))
    if place:
        cr = gen.place(ctx, g, cr)
    return g, cr, (A_, B_, a, c, u, z)


def frame(cr, par):
    A_, B_, a, c, u, z = par
    B = cr.basis
    n = B[:, 2] / np.linalg.norm(B[:, 2])
    o = np.array(cr.origin) + B[:, 2] * z
    us = u if u < .5 else u - 1
    return o, n, c / 2, B @ np.array([1 / 3, 2 / 3, 0]), np.array([B[:, 0], B[:, 1]]), us * c


def judge(ctx, X, Z, region, par, fr, what):
    A_, B_, a, c, u, z = par
    o, n, d, b, A, up = fr
    X, Z = np.asarray(X, float), np.asarray(Z)
    ctx.check(np.all((Z == A_) | (Z == B_)), f"{what}: elements")
    band = m.band_of(region, X)
    mm = m.margin(region, X)
    ctx.check(not np.any(mm > band), f"{what}: atom out of the given volume", worst=mm.max())
    R = np.where((Z == B_)[:, None], X - up * n, X)         # bring both elements onto the layers of the first
    k, dev = S.layer_index(R, o, n, d)
    ctx.check(dev.max() < 1e-4, f"{what}: atom between the layers", dev=dev.max())
    cl = S.lateral_class(R, o, n, d, k, b, A, tol=1e-4)
    ctx.check(np.all(cl >= 0), f"{what}: atom on no position of a layer", n=int((cl < 0).sum()), of=len(X))
    ks = np.unique(k)
    cls = []
    for q in ks:
        w = np.unique(cl[k == q])
        ctx.check(len(w) == 1, f"{what}: layer of mixed positions", layer=int(q), classes=w)
        cls.append(int(w[0]))
    cls = np.array(cls)
    gap = np.diff(ks) == 1
    ctx.check(not np.any((np.diff(cls) % 3 == 0) & gap), f"{what}: layers directly on top of each other")
    lo, hi = gen.region_box(region)
    EX, EZ = [], []
    # layers with no atom of the first element may still hold atoms of the other: reach one layer further
    for q, cc in zip(ks, cls):
        Y = S.layer_sites(o, n, d, b, A, q, cc, lo - abs(up), hi + abs(up))
        EX += [Y, Y + up * n]
        EZ += [np.full(len(Y), A_), np.full(len(Y), B_)]
    EX, EZ = np.vstack(EX), np.concatenate(EZ)
    m.compare_sites(ctx, X, Z, EX, EZ, m.margin(region, EX), m.band_of(region, EX), what)
    ux = min(u, 1 - u)
    b1, b2 = ux * c, np.sqrt(a * a / 3 + (c * (.5 - ux)) ** 2)
    t = cKDTree(X)
    if len(X) > 1:
        dd = t.query(X, k=2)[0][:, 1]
        ctx.check(dd.min() > min(b1, b2) - 1e-4, f"{what}: atoms closer than the bond length", got=dd.min(), bond=min(b1, b2))
    inner = np.where(mm < -(max(b1, b2) + .05))[0]
    if len(inner):
        nb = t.query_ball_point(X[inner], max(b1, b2) * 1.03)
        for i, q in zip(inner, nb):
            q = [j for j in q if j != i]
            ctx.check(len(q) == 4, f"{what}: interior atom that is not four-coordinated", n=len(q), X=X[i])
            ctx.check(all(Z[j] != Z[i] for j in q), f"{what}: bond between equal elements", X=X[i])
            l = np.sort([np.linalg.norm(X[j] - X[i]) for j in q])
            ctx.check(np.max(np.abs(np.sort(l) - np.sort([b1, b2, b2, b2]))) < 1e-4, f"{what}: bond lengths", got=l, expected=[b1, b2])
        ctx.event("four_coordinated", len(inner))
    return ks, cls


def cubic_layers(ks, cls):
    st = np.diff(cls) % 3
    return [int(ks[i]) for i in range(1, len(ks) - 1) if st[i - 1] == st[i]]


def make(ctx, kind=None, atoms=(800, 5000)):
    g, cr, par = wurtzite(ctx)
    size = gen.size_for(ctx, cr, ctx.randint(*atoms))
    c = gen.point(ctx, ctx.choice([8., 40.]))
    kind = kind or ctx.choice(["sphere", "sphere", "prism", "prism", "hull", "planes", "box", "cyl", "sphere+plane", "hull+plane"])
    region = S.volume_for(ctx, c, size, kind)
    v = gen.build_volume(ctx, region, generator=g if ctx.chance(.7) else None)
    return g, cr, par, region, kind, v


@core.family(FAMILIES, 360, 12000, "built structures")
def structures(ctx):
    from czone.prefab import prefab as P
    g, cr, par, region, kind, v = make(ctx)
    fr = frame(cr, par)
    o, n, d, b, A, up = fr
    lo, hi = S.extents(region, n)
    known = np.isfinite(lo + hi)
    if not known:
        lo, hi = -4 * d, 4 * d
    L = (hi - lo) / d
    sep = ctx.choice([5, 5, 6, 4, 3, 2])
    nmax = int(max(0, (L - 2 * sep) / sep / 1.5))
    N = ctx.randint(0 if ctx.chance(.1) else 1, max(1, min(nmax, 5)))
    if sep == 6 and ctx.chance(.5):
        f = P.wurtziteStackingFault(generator=g, volume=v, N=N)
    else:
        f = P.wurtziteStackingFault(generator=g, volume=v, N=N, min_sep=sep)
    ctx.describe(N=N, sep=sep, region=kind, layers=round(L, 1))
    try:
        obj = f.build_object()
        if ctx.chance(.3):
            # the other form of the call
            obj, types = f.build_object(return_defect_types=True)
            ctx.check(dict(types) == {"stacking_fault": True}, "reported types", types=types)
    except ValueError:
        ctx.check(N and (not known or L + 1 < (N + 1) * sep + 3), "number of faults is refused though they fit", N=N, sep=sep, layers=L)
        raise core.Skip("does not fit")
    if ctx.chance(.25):
        t, T, lab = gen.isometry(ctx)
        obj.transform(t)
        region, cr = [m.move(s, T) for s in region], cr.moved(T)
        fr = frame(cr, par)
        o, n, d, b, A, up = fr
        lo, hi = S.extents(region, n)
    obj.populate_atoms()
    if len(obj.atoms) < 30:
        raise core.Skip("few atoms")
    what = f"faulted wurtzite ({kind})"
    ks, cls = judge(ctx, obj.atoms, obj.species, region, par, fr, what)
    if not (np.all(np.diff(ks) == 1) and sep >= 2 and kind in ("sphere", "prism", "hull", "planes", "box")):
        return
    cub = cubic_layers(ks, cls)
    kk = np.arange(int(np.floor((lo - o @ n) / d)) - 1, int(np.ceil((hi - o @ n) / d)) + 2)
    pos = kk * d + o @ n
    need = set(kk[(pos >= lo + 1.8 * d) & (pos <= hi - 1.8 * d)].tolist())
    if len(ks) > 4:
        inner = [q for q in cub if ks[0] + 1 < q < ks[-1] - 1]
        ctx.check(all(np.diff(inner) >= sep), f"{what}: faults closer than the minimum separation", found=cub, sep=sep)
    if sep >= 5 and need <= set(ks.tolist()):
        ctx.check(len(cub) == N, f"{what}: number of faults", found=cub, requested=N, classes=cls)
        ctx.event("sequences_counted")
        ctx.event("faults", N)
        ctx.state(tuple(cub))


@core.family(FAMILIES, 60, 2000, "builders used again after changes")
def histories(ctx):
    from czone.prefab import prefab as P
    g, cr, par, region, kind, v = make(ctx, kind=ctx.choice(["sphere", "prism", "box", "hull"]))
    f = P.wurtziteStackingFault(generator=g, volume=v)
    log = []
    for step in range(3):
        f.N = ctx.randint(0, 3)
        f.min_sep = ctx.choice([2, 3, 4])
        if ctx.chance(.4):
            g, cr, par = wurtzite(ctx)
            f.generator = g
        elif ctx.chance(.3):       # the crystal is moved in place
            cr = gen.place(ctx, g, cr, n=1)
        if ctx.chance(.2):
            region = S.volume_for(ctx, gen.point(ctx, 8.), gen.size_for(ctx, cr, ctx.randint(800, 2500)), kind)
            f.volume = gen.build_volume(ctx, region)
        elif ctx.chance(.25):      # the volume is moved in place
            t, T, lab = gen.isometry(ctx, locked=False)
            f.volume.transform(t)
            region = [m.move(s, T) for s in region]
            log.append("volume " + lab)
        try:
            obj = f.build_object()
        except ValueError:
            log.append("no fit")
            continue
        obj.populate_atoms()
        log.append((f.N, f.min_sep))
        if len(obj.atoms) > 30:
            judge(ctx, obj.atoms, obj.species, region, par, frame(cr, par), f"structure {step} of a builder")
    ctx.raises(lambda: setattr(f, "min_sep", 2.5), "fractional separation")
    ctx.raises(lambda: setattr(f, "volume", np.zeros((4, 3))), "volume of a wrong type")
    ctx.raises(lambda: setattr(f, "generator", v), "generator of a wrong type")
    ctx.describe(log=log, region=kind)
