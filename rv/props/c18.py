import numpy as np
from scipy import stats
from scipy.spatial import cKDTree
from .. import core, gen, model as m
from . import _stack as S

PROP = "C18"
FAMILIES = []
RULE = ("FCC crystals of several elements, turned, mirrored and moved; spheres, prisms, hulls, polytopes and cylinders anywhere; all "
        "eight {111} planes; faults, twins and mixtures with various numbers and separations. The stacking sequence is reconstructed from the "
        "atoms; the structure that follows from it has to be there completely, with every interior atom twelve-coordinated, and the "
        "defects in it are counted and their separations measured.")
ASSUMPTIONS = ["the crystal is FCC with atoms on the lattice points, not strained and not rescaled", "volumes are convex Volume objects",
               "defects are counted for volumes whose bounding points touch them, and separations of at least 4, so that all layers that "
               "matter have atoms"]
MIN_EVENTS = {"atoms_matched": 40000, "twelve_coordinated": 15000, "sequences_counted": 15, "twins": 6, "faults": 4, "type_draws": 300}


def fcc(ctx, place=True):
    from czone.generator import Generator
    Z, a = ctx.choice([(79, 4.0782), (29, 3.61), (13, 4.05), (78, 3.92), (28, 3.52), (82, 4.95)])
    a = a * float(ctx.rng.uniform(.95, 1.05))
    if ctx.chance(.6):
        g = Generator.from_spacegroup([Z], np.zeros((1, 3)), [a] * 3, [90] * 3, sgn=225)
    else:
        f = np.array([[0, 0, 0], [.5, .5, 0], [.5, 0, .5], [0, .5, .5]])
        g = Generator.from_unit_cell([Z] * 4, f, [a] * 3, [90] * 3)
    cr = m.Crystal(np.eye(3) * a, [[0, 0, 0], [.5, .5, 0], [.5, 0, .5], [0, .5, .5]], [Z] * 4)
    if place:
        cr = gen.place(ctx, g, cr)
    return g, cr, Z, a


def frame(cr, a, plane):
    s = np.sign(plane).astype(float)
    L = cr.pose[:3, :3]
    n = L @ s / np.sqrt(3)
    d = a / np.sqrt(3)
    v = L @ (a / 2 * np.array([s[0], s[1], 0]))
    b = v - d * n
    A = np.array([L @ (a / 2 * np.array([s[0], -s[1], 0])), L @ (a / 2 * np.array([0, s[1], -s[2]]))])
    return np.array(cr.origin, float), n, d, b, A


def judge(ctx, X, Z, region, Zel, a, fr, what):
    """Structural soundness; returns (layers, classes)."""
    o, n, d, b, A = fr
    X = np.asarray(X, float)
    ctx.check(len(X) == len(Z) and np.all(np.asarray(Z) == Zel), f"{what}: elements")
    band = m.band_of(region, X)
    mm = m.margin(region, X)
    ctx.check(not np.any(mm > band), f"{what}: atom out of the given volume", worst=mm.max())
    k, dev = S.layer_index(X, o, n, d)
    ctx.check(dev.max() < 1e-4, f"{what}: atom between the layers", dev=dev.max())
    c = S.lateral_class(X, o, n, d, k, b, A, tol=1e-4)
    ctx.check(np.all(c >= 0), f"{what}: atom on no position of a close packed layer", n=int((c < 0).sum()), of=len(X))
    ks = np.unique(k)
    cls = []
    for q in ks:
        u = np.unique(c[k == q])
        ctx.check(len(u) == 1, f"{what}: layer of mixed positions", layer=int(q), classes=u)
        cls.append(int(u[0]))
    cls = np.array(cls)
    gap = np.diff(ks) == 1
    ctx.check(not np.any((np.diff(cls) % 3 == 0) & gap), f"{what}: layers directly on top of each other", layers=ks[:-1][(np.diff(cls) % 3 == 0) & gap])
    # complete
    lo, hi = gen.region_box(region)
    EX = np.vstack([S.layer_sites(o, n, d, b, A, q, cc, lo, hi) for q, cc in zip(ks, cls)])
    m.compare_sites(ctx, X, np.zeros(len(X)), EX, np.zeros(len(EX)), m.margin(region, EX), m.band_of(region, EX), what)
    # independent of layers: distances and coordination
    nn = a / np.sqrt(2)
    t = cKDTree(X)
    dd = t.query(X, k=2)[0][:, 1] if len(X) > 1 else np.array([nn])
    ctx.check(dd.min() > nn - 1e-4, f"{what}: atoms closer than the nearest neighbour distance", got=dd.min(), nn=nn)
    inner = np.where(mm < -(nn + .02))[0]
    if len(inner):
        cnt = np.array([len(x) for x in t.query_ball_point(X[inner], nn * 1.02)]) - 1
        ctx.check(np.all(cnt == 12), f"{what}: interior atom that is not twelve-coordinated", n=int((cnt != 12).sum()), of=len(inner), counts=np.unique(cnt))
        ctx.event("twelve_coordinated", len(inner))
    return ks, cls


def parse(ks, cls):
    """Defects from a full stacking sequence: list of ('twin'|'fault', layer)."""
    st = np.diff(cls) % 3
    hcp = [int(ks[i]) for i in range(1, len(ks) - 1) if st[i - 1] != st[i]]
    out = []
    i = 0
    while i < len(hcp):
        if i + 1 < len(hcp) and hcp[i + 1] == hcp[i] + 1:
            out.append(("fault", hcp[i]))
            i += 2
        else:
            out.append(("twin", hcp[i]))
            i += 1
    return out


TANGENT = ["sphere", "prism", "hull", "planes", "box", "cyl+planes-no"]


def make(ctx, kind=None, atoms=(400, 2500)):
    g, cr, Z, a = fcc(ctx)
    plane = tuple(int(x) for x in ctx.rng.choice([-1, 1], 3)) if ctx.chance(.7) else (1, 1, 1)
    size = gen.size_for(ctx, cr, ctx.randint(*atoms))
    c = gen.point(ctx, ctx.choice([8., 40.]))
    kind = kind or ctx.choice(["sphere", "sphere", "prism", "prism", "hull", "planes", "box", "cyl", "sphere+plane", "hull+plane"])
    region = S.volume_for(ctx, c, size, kind)
    v = gen.build_volume(ctx, region, generator=g if ctx.chance(.7) else None)
    return g, cr, Z, a, plane, region, kind, v


@core.family(FAMILIES, 100, 4000, "long thin columns with as many defects as just fit")
def columns(ctx):
    g, cr, Z, a = fcc(ctx)
    plane = tuple(int(x) for x in ctx.rng.choice([-1, 1], 3))
    o, n, d, b, A = frame(cr, a, plane)
    N, sep = ctx.randint(1, 7), ctx.choice([4, 5, 6, 8])
    layers = (N + 1) * sep + ctx.choice([1, 1, 2, 2, 3, 4, 6])
    w = np.linalg.norm(A[0]) * float(ctx.rng.uniform(1.2, 2.4))
    e1 = A[0] / np.linalg.norm(A[0])
    e2 = np.cross(n, e1)
    c = gen.point(ctx, ctx.choice([8., 40.]))
    h = layers * d / 2
    P8 = np.array([c + x * w * e1 + y * w * e2 + z * h * n for x in (-1, 1) for y in (-1, 1) for z in (-1, 1)])
    region = [("hull", P8)]
    v = gen.build_volume(ctx, region, generator=g if ctx.chance(.7) else None)
    build(ctx, g, cr, Z, a, plane, region, "hull", v, sep, N)


@core.family(FAMILIES, 150, 7000, "built structures")
def structures(ctx):
    build(ctx, *make(ctx))


def build(ctx, g, cr, Z, a, plane, region, kind, v, sep=None, N=None):
    from czone.prefab import prefab as P
    fr = frame(cr, a, plane)
    o, n, d, b, A = fr
    lo, hi = S.extents(region, n)
    known = np.isfinite(lo + hi)
    if not known:
        lo, hi = -3 * d, 3 * d
    L = (hi - lo) / d
    which = ctx.choice(["fault", "twin", "mixed", "mixed"])
    if N is None:
        sep = ctx.choice([4, 4, 5, 3, 2, 1, 6])
        nmax = int(max(0, (L - 2 * sep) / sep / 1.6))
        N = ctx.randint(0 if ctx.chance(.1) else 1, max(1, min(nmax, 6)))
    pl = ctx.choice([plane, list(plane), np.array(plane)])
    kw = dict(generator=g, volume=v, N=N, min_sep=sep, plane=pl)
    if plane == (1, 1, 1) and ctx.chance(.4):
        kw.pop("plane")
    ratio = None
    if which == "mixed":
        ratio = ctx.choice([.5, .3, .7, 0., 1., 0, 1])
        kw["ratio"] = ratio
        f = P.fccMixedTwinSF(**kw)
    else:
        f = (P.fccStackingFault if which == "fault" else P.fccTwin)(**kw)
    ctx.describe(which=which, ratio=ratio, N=N, sep=sep, plane=plane, region=kind, layers=round(L, 1), a=round(a, 3))
    try:
        obj, types = f.build_object(return_defect_types=True) if ctx.chance(.6) else (f.build_object(), None)
    except ValueError:
        # more than fit
        ctx.check(N and (not known or L + 1 < (N + 1) * sep + 3), "number of defects is refused though they fit", N=N, sep=sep, layers=L)
        raise core.Skip("does not fit")
    obj.populate_atoms()
    X, W = obj.atoms, obj.species
    if len(X) < 30:
        raise core.Skip("few atoms")
    what = f"{which} structure ({kind})"
    ks, cls = judge(ctx, X, W, region, Z, a, fr, what)
    if which == "fault" or ratio == 1:
        kinds = {"fault"}
    elif which == "twin" or ratio == 0:
        kinds = {"twin"}
    else:
        kinds = {"fault", "twin"}
    full = np.all(np.diff(ks) == 1)
    tangent = kind in ("sphere", "prism", "hull", "planes", "box")
    if not (full and sep >= 2 and tangent):
        return
    dfc = parse(ks, cls)
    if kinds != {"fault", "twin"} or sep >= 4:
        ctx.check(all(x in kinds for x, _ in dfc[1:-1]), f"{what}: defect of another kind", found=dfc, allowed=sorted(kinds))
    # layers that have to be there for the count
    kz = (np.arange(int(np.floor((lo - o @ n) / d)), int(np.ceil((hi - o @ n) / d)) + 1)) * d + o @ n
    need = set(np.round((kz[(kz >= lo + d) & (kz <= hi - d)] - o @ n) / d).astype(int).tolist())
    if sep >= 4 and need <= set(ks.tolist()):
        ctx.check(len(dfc) == N, f"{what}: number of defects", found=dfc, requested=N)
        ctx.check(all(x in kinds for x, _ in dfc), f"{what}: defect of another kind", found=dfc)
        pos = [q for _, q in dfc]
        ctx.check(all(np.diff(pos) >= sep), f"{what}: defects closer than the minimum separation", found=dfc, sep=sep)
        if types is not None:
            ctx.check(bool(types.get("stacking_fault")) == any(x == "fault" for x, _ in dfc) and
                      bool(types.get("twin")) == any(x == "twin" for x, _ in dfc), f"{what}: reported types", types=types, found=dfc)
        ctx.event("sequences_counted")
        ctx.event("twins", sum(x == "twin" for x, _ in dfc))
        ctx.event("faults", sum(x == "fault" for x, _ in dfc))
        ctx.state(tuple(dfc))


@core.family(FAMILIES, 24, 600, "kinds are drawn with the given ratio, positions anywhere")
def draws(ctx):
    from czone.prefab import prefab as P
    g, cr, Z, a, plane, region, kind, v = make(ctx, kind=ctx.choice(["sphere", "prism"]), atoms=(1200, 2500))
    ratio = float(ctx.choice([.5, .25, .8, 0., 1.]))
    sep = 3
    f = P.fccMixedTwinSF(generator=g, volume=v, N=1, min_sep=sep, plane=plane, ratio=ratio)
    n = 60
    k = 0
    for _ in range(n):
        try:
            obj, t = f.build_object(return_defect_types=True)
        except ValueError:
            raise core.Skip("does not fit")
        ctx.check(bool(t["stacking_fault"]) != bool(t["twin"]), "one defect of one kind", types=t)
        k += bool(t["stacking_fault"])
    p = min(stats.binom.cdf(k, n, ratio), stats.binom.sf(k - 1, n, ratio))
    ctx.check(p > 1e-10, "kinds are not drawn with the given ratio", ratio=ratio, faults=k, of=n)
    ctx.event("type_draws", n)
    ctx.observe(n)
    # the last one
    obj.populate_atoms()
    if len(obj.atoms) > 30:
        judge(ctx, obj.atoms, obj.species, region, Z, a, frame(cr, a, plane), "structure of a series")
    ctx.describe(ratio=ratio, region=kind, plane=plane)


@core.family(FAMILIES, 40, 1200, "objects transformed or changed after building, builders used again")
def histories(ctx):
    from czone.prefab import prefab as P
    g, cr, Z, a, plane, region, kind, v = make(ctx, kind=ctx.choice(["sphere", "prism", "box", "hull"]))
    f = P.fccMixedTwinSF(generator=g, volume=v, N=1, min_sep=3, plane=plane)
    log = []
    for step in range(3):
        f.N = ctx.randint(0, 2)
        f.ratio = ctx.choice([0., 1., .5])
        f.min_sep = ctx.choice([2, 3, 4])
        if ctx.chance(.4):
            plane = tuple(int(x) for x in ctx.rng.choice([-1, 1], 3))
            f.plane = plane
        if ctx.chance(.3):
            g, cr, Z, a = fcc(ctx)
            f.generator = g
        elif ctx.chance(.3):       # the crystal is moved in place
            cr = gen.place(ctx, g, cr, n=1)
        if ctx.chance(.2):
            region = S.volume_for(ctx, gen.point(ctx, 8.), gen.size_for(ctx, cr, ctx.randint(400, 1500)), kind)
            v = gen.build_volume(ctx, region)
            f.volume = v
        elif ctx.chance(.25):      # the volume is moved in place
            t, T, lab = gen.isometry(ctx, locked=False)
            f.volume.transform(t)
            region = [m.move(s, T) for s in region]
            log.append("volume " + lab)
        try:
            obj = f.build_object()
        except ValueError:
            log.append("no fit")
            continue
        reg, c2 = region, cr
        if ctx.chance(.6):
            t, T, lab = gen.isometry(ctx)
            obj.transform(t)
            reg, c2 = [m.move(s, T) for s in reg], cr.moved(T)
            log.append(lab)
        obj.populate_atoms()
        if len(obj.atoms) > 30:
            judge(ctx, obj.atoms, obj.species, reg, Z, a, frame(c2, a, plane), f"structure {step} of a builder")
            log.append((f.N, f.ratio, f.min_sep))
    ctx.raises(lambda: setattr(f, "ratio", ctx.choice([-.1, 1.1, 2])), "ratio out of range")
    ctx.raises(lambda: setattr(f, "min_sep", 2.5), "fractional separation")
    ctx.raises(lambda: setattr(f, "volume", np.zeros((4, 3))), "volume of a wrong type")
    ctx.raises(lambda: setattr(f, "generator", v), "generator of a wrong type")
    ctx.describe(log=log, region=kind)
