"""Workload generators.  Each returns objects of the package together with their specification."""
import numpy as np

from . import model as m

# system: (space group, cell dims fn, angles, sites, multiplicities)
SPACEGROUPS = [
    # sgn, symbol, lattice kind, [(Z, frac, multiplicity)]
    (225, "Fm-3m", "cubic", [(79, (0, 0, 0), 4)]),
    (225, "Fm-3m", "cubic", [(11, (0, 0, 0), 4), (17, (.5, .5, .5), 4)]),
    (229, "Im-3m", "cubic", [(26, (0, 0, 0), 2)]),
    (227, "Fd-3m", "cubic", [(6, (0, 0, 0), 8)]),
    (221, "Pm-3m", "cubic", [(84, (0, 0, 0), 1)]),
    (216, "F-43m", "cubic", [(30, (0, 0, 0), 4), (16, (.25, .25, .25), 4)]),
    (186, "P6_3mc", "hexagonal", [(31, (1 / 3, 2 / 3, 0), 2), (7, (1 / 3, 2 / 3, .375), 2)]),
    (194, "P6_3/mmc", "hexagonal", [(12, (1 / 3, 2 / 3, .25), 2)]),
    (166, "R-3m", "hexagonal", [(83, (0, 0, 0.234), 6)]),
    (191, "P6/mmm", "hexagonal", [(13, (0, 0, 0), 1), (5, (1 / 3, 2 / 3, .5), 2)]),
    (136, "P4_2/mnm", "tetragonal", [(22, (0, 0, 0), 2), (8, (.305, .305, 0), 4)]),
    (62, "Pnma", "orthorhombic", [(26, (.18, .06, .33), 8)]),
    (14, "P2_1/c", "monoclinic", [(40, (.27, .04, .21), 4)]),
    (2, "P-1", "triclinic", [(29, (.21, .13, .37), 2)]),
    (1, "P1", "triclinic", [(50, (.21, .13, .37), 1)]),
]


def cell_for(rng, kind):
    a, b, c = rng.uniform(2.6, 6.5, 3)
    if kind == "cubic":
        return [a, a, a], [90, 90, 90]
    if kind == "hexagonal":
        return [a, a, c], [90, 90, 120]
    if kind == "tetragonal":
        return [a, a, c], [90, 90, 90]
    if kind == "orthorhombic":
        return [a, b, c], [90, 90, 90]
    if kind == "monoclinic":
        return [a, b, c], [90, float(rng.uniform(65, 125)), 90]
    for _ in range(100):
        ang = rng.uniform(55, 125, 3)
        ca, cb, cg = np.cos(np.radians(ang))
        v = 1 - ca**2 - cb**2 - cg**2 + 2 * ca * cb * cg
        if v > 0.15:
            return [a, b, c], [float(x) for x in ang]
    return [a, b, c], [90, 90, 90]


def random_sites(rng, n, rows):
    """n well separated fractional coordinates"""
    for _ in range(200):
        f = rng.uniform(0, 1, (n, 3))
        if rng.random() < 0.4:
            f = np.round(f * 4) / 4
        ok = True
        for i in range(n):
            for j in range(i):
                d = f[i] - f[j]
                d -= np.round(d)
                sh = np.array([[x, y, z] for x in (-1, 0, 1) for y in (-1, 0, 1) for z in (-1, 0, 1)])
                if np.min(np.linalg.norm((d + sh) @ rows, axis=1)) < 0.4:
                    ok = False
        if ok:
            return f
    return np.array([[0.1, 0.2, 0.3]])


def elements(ctx, Z):
    """atomic numbers in the forms the constructors accept"""
    from ase.data import chemical_symbols
    r = ctx.rng.random()
    if r < .2:
        return np.array(Z)
    if r < .3:
        return tuple(Z)
    if r < .4:
        return [chemical_symbols[z] for z in Z]
    return list(Z)


def coords(ctx, f):
    f = np.array(f, float)
    r = ctx.rng.random()
    if r < .2:
        return [[float(x) for x in q] for q in f]
    if r < .4 and np.all(f == np.round(f)):
        return f.astype(int)
    if r < .6:
        return form(ctx, f)
    return f


def numbers(ctx, v):
    if ctx.chance(.3):
        return np.array(v, float)
    if ctx.chance(.2):
        return tuple(float(x) for x in v)
    return list(v)


def crystal(ctx, kind=None, source=None, small=False):
    """Random Generator and its Crystal (pose: identity)."""
    from czone.generator import Generator
    from pymatgen.core import Lattice, Structure
    rng = ctx.rng
    source = source or ctx.choice(["sg", "cell", "cell", "struct"])
    if source == "sg":
        cand = [s for s in SPACEGROUPS if kind is None or s[2] == kind]
        sgn, sym, k, sites = ctx.choice(cand)
        dims, ang = cell_for(rng, k)
        kw = dict(sgn=sgn) if ctx.chance(.6) else dict(sym=sym)
        g = Generator.from_spacegroup(elements(ctx, [s[0] for s in sites]), coords(ctx, [s[1] for s in sites]),
                                      numbers(ctx, dims), numbers(ctx, ang), **kw)
        n = sum(s[2] for s in sites)
    else:
        k = kind or ctx.choice(["cubic", "hexagonal", "tetragonal", "orthorhombic", "monoclinic", "triclinic", "triclinic"])
        dims, ang = cell_for(rng, k)
        rows = np.array(Lattice.from_parameters(*dims, *ang).matrix)
        n = ctx.randint(1, 3 if small else 5)
        f = random_sites(rng, n, rows)
        n = len(f)
        if ctx.chance(.3):
            f = f + rng.integers(-2, 3, f.shape)      # sites given outside of the cell
        Z = [int(z) for z in rng.choice([1, 5, 6, 7, 8, 13, 14, 22, 26, 29, 31, 33, 38, 47, 57, 79, 83, 92, 94, 98, 103], n)]
        if source == "cell":
            g = Generator.from_unit_cell(elements(ctx, Z), coords(ctx, f), numbers(ctx, dims), numbers(ctx, ang))
        else:
            if ctx.chance(.5):
                rows = rows @ rotation(ctx)[0].T       # structure in its own orientation
            g = Generator(structure=Structure(Lattice(rows), Z, f))
    st = g.structure
    c = m.Crystal(st.lattice.matrix, st.frac_coords, [s.Z for s in st.species])
    ctx.describe(crystal=dict(kind=k, source=source, dims=np.round(dims, 4), angles=np.round(ang, 3), sites=n))
    ctx.event("crystals:" + k)
    return g, c


# ------------------------------------------------------------------------------ vectors and rotations
SPECIAL = [np.array(v, float) for v in
           [(1, 0, 0), (0, 1, 0), (0, 0, 1), (-1, 0, 0), (0, -1, 0), (0, 0, -1), (1, 1, 1), (-1, -1, -1), (1, 1, 0),
            (1, -1, 0), (0, 1, 1), (1, 0, -1), (1, 1, 2), (1, 2, 3), (-1, 1, 2)]]


def vector(ctx, special=0.4):
    if ctx.chance(special):
        return ctx.choice(SPECIAL) * (1.0 if ctx.chance(.5) else ctx.rng.uniform(.01, 50))
    v = ctx.rng.normal(size=3)
    return v * (1.0 if ctx.chance(.5) else 10 ** ctx.rng.uniform(-2, 2))


def rotation(ctx):
    """(matrix, label)"""
    r = ctx.rng.random()
    if r < .1:
        return np.eye(3), "identity"
    if r < .3:
        M = m.axis_angle(ctx.choice(SPECIAL[:3]), ctx.choice([np.pi / 2, np.pi, -np.pi / 2, np.pi / 3]))
        return M, "right-angle"
    if r < .35:
        return m.axis_angle(ctx.rng.normal(size=3), 10 ** ctx.rng.uniform(-6, -2)), "tiny"
    return m.quat_matrix(ctx.rng.normal(size=4)), "general"


def form(ctx, X):
    """The same rows in another accepted form of array: memory order, views, read-only, and whole numbers as integers."""
    X = np.array(X, float)
    k = ctx.choice(["C", "C", "F", "view", "columns", "reversed", "read-only", "int", "int"])
    if k == "int":
        if not len(X) or not np.all(X == np.round(X)) or np.max(np.abs(X), initial=0) > 1e6:
            k = "C"
        else:
            X = X.astype(ctx.choice([int, np.int32, np.int64, np.float32]))
    if k == "F":
        X = np.asfortranarray(X)
    elif k == "view":
        Y = np.full((2 * len(X), X.shape[1]), 1e3)
        Y[::2] = X
        X = Y[::2]
    elif k == "columns":
        Y = np.full((len(X), X.shape[1] + 2), -1e3)
        Y[:, 1:-1] = X
        X = Y[:, 1:-1]
    elif k == "reversed":
        X = X[::-1].copy()[::-1]
    elif k == "read-only":
        X.flags.writeable = False
    ctx.event("form:" + k)
    return X


def batches(ctx, n, k=6):
    """Index sets of a few points out of n, three of them more often than any other number."""
    out = []
    for _ in range(k):
        b = ctx.choice([0, 1, 2, 3, 3, 3, 4, 5])
        out.append(ctx.rng.integers(0, n, b) if ctx.chance(.7) else np.full(b, ctx.rng.integers(0, n)))
    return out


def point(ctx, scale=10.0):
    r = ctx.rng.random()
    if r > .94:
        scale = scale * 10 ** ctx.rng.uniform(1, 2.3)        # far away
        ctx.event("far_points")
    if r < .15:
        return np.zeros(3)
    if r < .3 or r > .98:
        return np.round(ctx.rng.uniform(-scale, scale, 3))
    return ctx.rng.uniform(-scale, scale, 3)


def vec(ctx, x, column=True):
    """A point or direction in the forms the constructors accept."""
    x = np.asarray(x, float)
    r = ctx.rng.random()
    if np.all(x == np.round(x)) and ctx.chance(.5):
        y = x.astype(int)
        return [int(q) for q in y] if r < .3 else tuple(int(q) for q in y) if r < .45 else y
    if r < .3:
        return list(x)
    if r < .4:
        return tuple(float(q) for q in x)
    if r < .5 and column:
        return x.reshape(3, 1)
    return np.array(x)


def mat(ctx, R):
    """A matrix in the forms the constructors accept."""
    I = np.round(R)
    if np.max(np.abs(R - I)) < 1e-12 and ctx.chance(.6):
        return I.astype(int)
    r = ctx.rng.random()
    return np.asfortranarray(R) if r < .15 else np.array(R.T).T if r < .3 else np.array(R)


def reused(ctx, X, f, other=None, p=.25):
    """X, sometimes in an array that f was given before with other contents."""
    X = np.array(X)
    if not X.size or not ctx.chance(p):
        return X
    B = X.astype(float) if X.dtype.kind in "iu" else X.copy()
    keep = B.copy()
    B[...] = keep + ctx.rng.normal(size=3) * 3 if other is None else other
    f(B)
    B[...] = keep
    ctx.event("reused_arrays")
    return B


def exercised(ctx, t):
    """The transformation after it has been used on points, bases and surfaces."""
    from czone.volume.algebraic import Plane, Sphere, Cylinder
    t.applyTransformation(ctx.rng.normal(size=(5, 3)))
    t.applyTransformation_bases(np.eye(3))
    for o in (Plane([0, 0, 1], [0, 0, 1]), Sphere(1., [1, 0, 0]), Cylinder([0, 0, 1], [0, 0, 1], 1., 2.)):
        t.applyTransformation_alg(o)
    t.params
    ctx.event("used_transforms")
    return t


def isometry(ctx, locked=True, basis_only=False, scale=10.0, kinds=None, depth=0):
    """Random isometric transformation object of the package and its affine map."""
    from czone.transform import (Translation, Rotation, Reflection, Inversion, MatrixTransform, MultiTransform,
                                 rot_v)
    from czone.volume.algebraic import Plane
    kinds = kinds or ["translation", "rotation", "rotation", "reflection", "inversion", "matrix", "multi"]
    k = ctx.choice([x for x in kinds if not (x == "multi" and depth > 1)])
    kw = dict(locked=locked, basis_only=basis_only)
    ctx.event("transform:" + k)
    used = ctx.chance(.15)                     # parameters replaced after use
    if k == "translation":
        t = point(ctx, scale)
        if ctx.chance(.3):
            t = np.round(t)
        if used:
            T = exercised(ctx, Translation(vec(ctx, point(ctx, scale)), **kw))
            T.shift = vec(ctx, t)
            return T, m.affine(None, t), k
        return Translation(vec(ctx, t), **kw), m.affine(None, t), k
    if k == "rotation":
        R, lab = rotation(ctx)
        if ctx.chance(.4):
            o = point(ctx, scale)
            if used:
                T = exercised(ctx, Rotation(matrix=rotation(ctx)[0], origin=point(ctx, scale), **kw))
                T.matrix = mat(ctx, R)
                T.origin = vec(ctx, o)
                return T, m.affine_about(R, o), k
            return Rotation(matrix=mat(ctx, R), origin=vec(ctx, o), **kw), m.affine_about(R, o), k
        if used:
            T = exercised(ctx, Rotation(matrix=rotation(ctx)[0], **kw))
            T.matrix = mat(ctx, R)
            return T, m.affine(R), k
        return Rotation(matrix=mat(ctx, R), **kw), m.affine(R), k
    if k == "reflection":
        n, o = vector(ctx), point(ctx, scale)
        if used:
            T = exercised(ctx, Reflection(Plane(vec(ctx, vector(ctx)), vec(ctx, point(ctx, scale))), **kw))
            T.plane = Plane(vec(ctx, n), vec(ctx, o))
            return T, m.affine_about(m.householder(n), o), k
        return Reflection(Plane(vec(ctx, n), vec(ctx, o)), **kw), m.affine_about(m.householder(n), o), k
    if k == "inversion":
        if ctx.chance(.7):
            o = point(ctx, scale)
            if used:
                T = exercised(ctx, Inversion(origin=vec(ctx, point(ctx, scale)), **kw))
                T.origin = vec(ctx, o)
                return T, m.affine_about(-np.eye(3), o), k
            return Inversion(origin=vec(ctx, o), **kw), m.affine_about(-np.eye(3), o), k
        return Inversion(**kw), m.affine(-np.eye(3)), k
    if k == "matrix":
        R, _ = rotation(ctx)
        if ctx.chance(.5):
            R = R @ m.householder(vector(ctx))
        if ctx.chance(.6):
            o = point(ctx, scale)
            if used:
                T = exercised(ctx, MatrixTransform(matrix=rotation(ctx)[0], origin=point(ctx, scale), **kw))
                T.matrix = mat(ctx, R)
                T.origin = vec(ctx, o)
                return T, m.affine_about(R, o), k
            return MatrixTransform(matrix=mat(ctx, R), origin=vec(ctx, o), **kw), m.affine_about(R, o), k
        return MatrixTransform(matrix=mat(ctx, R), **kw), m.affine(R), k
    parts = [isometry(ctx, locked, basis_only, scale, kinds, depth + 1) for _ in range(ctx.randint(1, 3))]
    if ctx.chance(.5):
        mt = MultiTransform([p[0] for p in parts])
    else:
        mt = MultiTransform()
        for p in parts:
            mt.add_transform(p[0])
            if used:
                exercised(ctx, mt)
    return mt, m.compose(*[p[1] for p in parts]), "multi(" + ",".join(p[2] for p in parts) + ")"


# ------------------------------------------------------------------------------ regions
def build_alg(spec, ctx=None):
    from czone.volume.algebraic import Plane, Sphere, Cylinder
    k = spec[0]

    def v(x):
        return np.array(x, float) if ctx is None else vec(ctx, x)

    def num(x):
        return int(x) if ctx is not None and x == round(x) and ctx.chance(.7) else x
    tolkw = {"tol": spec[-1]} if spec[-1] != 1e-5 else {}
    if ctx is not None and ctx.chance(.12):     # parameters replaced after use
        ctx.event("used_surfaces")
        X = ctx.rng.normal(size=(4, 3))
        if k == "plane":
            o = Plane(vector(ctx), point(ctx))
            o.checkIfInterior(X), o.project_point(X)
            o.normal, o.point = v(spec[1]), v(spec[2])
        elif k == "sphere":
            o = Sphere(float(ctx.rng.uniform(.5, 9)), point(ctx))
            o.checkIfInterior(X)
            o.radius, o.center = num(spec[2]), v(spec[1])
        else:
            o = Cylinder(vector(ctx), point(ctx), float(ctx.rng.uniform(.5, 9)), float(ctx.rng.uniform(.5, 9)))
            o.checkIfInterior(X), o.get_bounding_box()
            o.axis, o.point, o.radius, o.length = v(spec[1]), v(spec[2]), num(spec[3]), num(spec[4])
        o.tol = spec[-1]
        return o
    if k == "plane":
        return Plane(v(spec[1]), v(spec[2]), **tolkw)
    if k == "sphere":
        return Sphere(num(spec[2]), v(spec[1]), **tolkw)
    if k == "cyl":
        return Cylinder(v(spec[1]), v(spec[2]), num(spec[3]), num(spec[4]), **tolkw)
    raise KeyError(k)


def tolerance(ctx):
    return 1e-5 if ctx.chance(.8) else float(ctx.choice([1e-10, 1e-3, 1e-2]))


def box_planes(ctx, c, h, R):
    out = []
    for i in range(3):
        for s in (1, -1):
            n = s * R[:, i]
            out.append(("plane", n, c + n * h[i], 1e-5))
    return out


def bounded_region(ctx, c, size, kind=None):
    """Specification of a bounded region within about size of c, and its kind."""
    rng = ctx.rng
    kind = kind or ctx.choice(["sphere", "hull", "prism", "cyl", "planes", "planes", "sphere+plane", "hull+plane",
                               "hull+sphere", "cyl+plane", "sphere+sphere", "cyl+planes", "cyl+cyl", "sphere+cyl", "box"])
    reg = []

    whole = ctx.chance(.15) and size > 3       # whole numbers, handed over as such

    def w(x, least=1.0):
        return np.maximum(np.round(x), least) if whole else x

    def p_(x):
        return np.round(x) if whole else x

    def sphere(r=None, off=.0):
        return ("sphere", p_(c + rng.normal(size=3) * off * size), float(w(r or size * rng.uniform(.6, 1.))), tolerance(ctx))

    def plane(off=.5):
        n = vector(ctx)
        n = n / np.linalg.norm(n)
        return ("plane", n, p_(c + n * rng.uniform(-off * .3, off) * size + np.cross(n, rng.normal(size=3)) * 3), tolerance(ctx))

    def cyl():
        return ("cyl", vector(ctx, .6), p_(c + rng.normal(size=3) * .1 * size), float(w(size * rng.uniform(.4, .8))),
                float(w(size * rng.uniform(.8, 1.8))), tolerance(ctx))

    def hull():
        n = ctx.randint(4, 14) if ctx.chance(.94) else ctx.choice([15, 33, 65, 130, 260])
        p = rng.normal(size=(n, 3))
        p = p / np.linalg.norm(p, axis=1)[:, None] * rng.uniform(.6, 1., (n, 1)) * size
        while np.linalg.matrix_rank(p[1:] - p[0], tol=.2 * size) < 3:
            p = rng.normal(size=(n, 3)) * size * .5
        if whole and np.linalg.matrix_rank(np.round(p[1:] + c) - np.round(p[0] + c), tol=.2 * size) == 3:
            return ("hull", np.round(p + c), 1e-10)
        return ("hull", p + c, 1e-10)

    def prism():
        from itertools import product
        R, _ = rotation(ctx)
        h = size * rng.uniform(.3, .7, 3)
        p = np.array(list(product((-1, 1), repeat=3))) * h
        if ctx.chance(.12):  # box without one of its corners, another one given twice
            i, j = rng.choice(8, 2, replace=False)
            p[i] = p[j]
            ctx.event("cut_boxes")
            if ctx.chance(.5):
                return ("hull", p + c, 1e-10)
        elif ctx.chance(.3):   # redundant points
            p = np.vstack([p, p * rng.uniform(0, .9, p.shape), [[0, 0, 0]]])
        return ("hull", p @ R.T + c, 1e-10)
    if kind == "sphere":
        reg = [sphere()]
    elif kind == "hull":
        reg = [hull()]
    elif kind == "prism":
        reg = [prism()]
    elif kind == "cyl":
        reg = [cyl()]
    elif kind == "box":
        reg = box_planes(ctx, c, size * rng.uniform(.3, .7, 3), rotation(ctx)[0])
    elif kind == "planes":
        n = ctx.randint(4, 9)
        for _ in range(100):
            N = rng.normal(size=(n, 3))
            N /= np.linalg.norm(N, axis=1)[:, None]
            dual = N / (size * rng.uniform(.3, .7, (n, 1)))
            try:
                from scipy.spatial import ConvexHull
                eq = ConvexHull(dual).equations
            except Exception:
                continue
            r = -eq[:, 3]
            if r.min() > 1e-9 and np.max(1 / r) < 3 * size:      # bounded, vertices within 3 size
                reg = [("plane", a, c + a / np.linalg.norm(b), 1e-5) for a, b in zip(N, dual)]
                reg = [("plane", s[1], s[2] + np.cross(s[1], rng.normal(size=3)) * size, s[3]) for s in reg]
                break
        else:
            reg = box_planes(ctx, c, size * rng.uniform(.3, .7, 3), rotation(ctx)[0])
            kind = "box"
    elif kind == "sphere+plane":
        reg = [sphere()] + [plane() for _ in range(ctx.randint(1, 5))]
    elif kind == "hull+plane":
        reg = [hull()] + [plane() for _ in range(ctx.randint(1, 2))]
    elif kind == "hull+sphere":
        reg = [hull(), sphere(off=.2)]
    elif kind == "cyl+plane":
        reg = [cyl()] + [plane() for _ in range(ctx.randint(1, 3))]
    elif kind == "cyl+planes":
        # four planes or more that do not bound a region on their own
        ax = vector(ctx)
        ax = ax / np.linalg.norm(ax)
        q = np.linalg.qr(np.column_stack([ax, rng.normal(size=(3, 2))]))[0][:, 1:]
        reg = [("cyl", ax, c, size * .7, size * rng.uniform(.8, 1.8), 1e-5)]
        for i in range(4):
            n = q @ [np.cos(i * np.pi / 2), np.sin(i * np.pi / 2)]
            reg.append(("plane", n, c + n * size * rng.uniform(.2, .6), 1e-5))
    elif kind == "cyl+cyl":
        reg = [cyl(), cyl()]
    elif kind == "sphere+sphere":
        reg = [sphere(), sphere(off=.3), sphere(off=.2)]
    elif kind == "sphere+cyl":
        reg = [sphere(), cyl()]
    if kind != "planes" and kind != "box":
        reg = [reg[i] for i in rng.permutation(len(reg))]
    return reg, kind


def build_volume(ctx, region, generator=None, priority=None, tolerance=None, plain=False):
    from czone.volume import Volume
    kw = {}
    hulls = [s for s in region if s[0] == "hull"]
    if hulls:
        kw["points"] = np.array(hulls[0][1]) if plain else form(ctx, hulls[0][1])
    algs = [build_alg(s, None if plain else ctx) for s in region if s[0] != "hull"]
    late = []
    if algs and not plain and ctx.chance(.3):
        late, algs = algs[1:], algs[:1]
    if algs:
        kw["alg_objects"] = algs
    if generator is not None:
        kw["generator"] = generator
    if priority is not None and (priority != 0 or plain or ctx.chance(.5)):       # 0 is the default
        kw["priority"] = priority
    if tolerance is not None:
        kw["tolerance"] = tolerance
    used = None
    if not plain and ctx.chance(.12):          # points and surfaces replaced and added after use
        ctx.event("used_volumes")
        used = ctx.rng.normal(size=(4, 3))
        if "points" in kw:
            late = list(kw.get("alg_objects", [])) + late
            v = Volume(**dict(kw, points=ctx.rng.normal(size=(6, 3)) * 4, alg_objects=None))
            v.checkIfInterior(used), v.get_bounding_box()
            v.points = kw["points"]
        else:
            v = Volume(**kw)
    else:
        v = Volume(**kw)
    for a in late:
        if used is not None:
            v.checkIfInterior(used), v.get_bounding_box()
        v.add_alg_object(a)
    return v


def region_box(region, pad=0.1):
    """Axis-aligned box that certainly encloses region."""
    lo, hi = np.full(3, -np.inf), np.full(3, np.inf)
    planes = []
    for s in region:
        if s[0] == "hull":
            a, b = np.min(s[1], axis=0), np.max(s[1], axis=0)
        elif s[0] == "sphere":
            a, b = np.asarray(s[1]) - s[2], np.asarray(s[1]) + s[2]
        elif s[0] == "cyl":
            ax = np.asarray(s[1], float) / np.linalg.norm(s[1])
            e = np.abs(ax) * s[4] / 2 + s[3] * np.sqrt(np.maximum(0, 1 - ax**2))
            a, b = np.asarray(s[2]) - e, np.asarray(s[2]) + e
        else:
            planes.append(s)
            continue
        lo, hi = np.maximum(lo, a), np.minimum(hi, b)
    if planes:
        from scipy.optimize import linprog
        A = np.array([np.asarray(s[1]) / np.linalg.norm(s[1]) for s in planes])
        d = np.array([a @ np.asarray(s[2]) for a, s in zip(A, planes)])
        for k in range(3):
            for sg in (1, -1):
                cc = np.zeros(3)
                cc[k] = sg
                r = linprog(cc, A_ub=A, b_ub=d + 1e-4, bounds=[(None if not np.isfinite(l) else l, None if not np.isfinite(h) else h) for l, h in zip(lo, hi)])
                if r.status == 0:
                    if sg == 1:
                        lo[k] = max(lo[k], r.fun)
                    else:
                        hi[k] = min(hi[k], -r.fun)
    return lo - pad, np.maximum(hi, lo) + pad


def size_for(ctx, cr, atoms):
    """Radius of a ball with about that many atoms."""
    rho = len(cr.Z) / cr.cell_volume()
    return float((atoms / rho * 3 / (4 * np.pi)) ** (1 / 3))


def rescaled(ctx, g, cr, rows=False):
    """Scale or bases of a placed generator set anew, mostly after use; returns the crystal. A scale of rows belongs to
    the axes of space, not to the crystal, and is given only to crystals that are not moved afterwards."""
    if ctx.chance(.7):
        g.supply_atoms(np.array(g.origin, float) + ctx.rng.normal(size=(4, 3)) * 2)
    how = ctx.choice(["rows"] if rows else ["scale", "columns", "row", "bases", "strained bases"])
    B = np.array(g.voxel.sbases)
    B1 = np.array(g.voxel.bases)
    if how == "scale":
        s = float(ctx.rng.uniform(.7, 1.5))
        g.voxel.scale = ctx.choice([np.array([s]), s, [s]])
        B = B1 * s
    elif how in ("columns", "row", "rows"):
        s = ctx.rng.uniform(.7, 1.5, 3)
        if how == "rows":        # a column scales the rows: the components along x, y and z
            s = s[:, None]
        g.voxel.scale = s[None] if how == "row" else s
        B = B1 * s
    else:
        M = rotation(ctx)[0]
        if how == "strained bases":
            M = M @ (np.eye(3) + ctx.rng.normal(size=(3, 3)) * .05)
        g.voxel.bases = M @ B1
        B = M @ B
    ctx.event("rescaled:" + how)
    ctx.close(g.voxel.sbases, B, 1e-9 * np.max(np.abs(B)), "scaled bases of a generator")
    ctx.close(g.voxel.reciprocal_bases, np.linalg.inv(B), 1e-9 * np.max(np.abs(np.linalg.inv(B))), "reciprocal bases of a generator")
    return m.Crystal(B.T, cr.frac, cr.Z).with_origin(np.array(cr.origin))


def place(ctx, g, cr, n=None, scale=10.0):
    """Random history of transformations of a generator; returns updated crystal."""
    from czone.transform import Translation
    hist = []
    for _ in range(ctx.randint(0, 3) if n is None else n):
        bo = ctx.chance(.2)
        t, A, k = isometry(ctx, basis_only=bo, scale=scale)
        g.transform(t)
        cr = cr.moved_basis_only(A[:3, :3]) if bo else cr.moved(A)
        hist.append(k + ("/basis" if bo else ""))
    if ctx.chance(.3):
        o = point(ctx, scale)
        g.origin = form(ctx, o[None])[0]
        cr = cr.with_origin(o)
        hist.append("origin")
    ctx.describe(placement=hist)
    return cr
