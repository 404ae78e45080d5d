import numpy as np

from .. import core, gen, model as m
from ..digest import digest
from . import _world as W

PROP = "C28"
FAMILIES = []
RULE = ("Objects of every class after short histories of valid operations receive series of invalid constructor arguments, attribute values and "
        "calls (wrong sizes, degenerate vectors, non-positive sizes, improper matrices, wrong types, regions without bounds). Each must be refused; "
        "the public state, the answers to interior queries, and the results of the next valid operations must equal those of a twin that never "
        "received the invalid calls.")
ASSUMPTIONS = ["which error is raised is left open", "only inputs documented or evidently meant to be refused are used"]
MIN_EVENTS = {"refused_calls": 1500, "states_compared": 300, "twins_continued": 200}

NAN = float("nan")


def junk(ctx):
    """An object of a wrong type."""
    from czone.transform import Translation
    from czone.volume import Sphere
    return ctx.choice([None, "text", 3, 2.5, object(), {"a": 1}, [1, 2, 3], np.zeros(3), Translation([1, 2, 3]), Sphere(1., np.zeros(3)), int, lambda x: x])


def junk_not(ctx, *classes, iterable=False):
    while True:
        j = junk(ctx)
        if isinstance(j, classes) or (not iterable and (hasattr(j, "__iter__") or hasattr(j, "__next__"))):
            continue
        return j


def wrong_vector(ctx):
    r = ctx.rng.normal
    return ctx.choice([r(size=2), r(size=4), r(size=1), r(size=(2, 3)), [1., 2.], [1, 2, 3, 4.], 5., r(size=(3, 2)), r(size=(3, 3)), np.zeros(0)])


def nonpositive(ctx):
    return ctx.choice([0, 0., -1, -2.5, -1e-3, -np.inf])


def improper(ctx):
    """No rotation matrix."""
    R = gen.rotation(ctx)[0]
    k = ctx.choice(["reflection", "scaled", "sheared", "singular", "nan", "shape", "inversion", "slightly", "volume preserving"])
    if k == "reflection":
        return R @ m.householder(gen.vector(ctx))
    if k == "inversion":
        return -R
    if k == "scaled":
        return R * ctx.choice([.5, 2., 1.01, 1.0001])
    if k == "slightly":
        E = np.zeros((3, 3))
        E[ctx.randint(0, 2), ctx.randint(0, 2)] = ctx.choice([1e-4, -1e-3, .1])
        return R + E
    if k == "volume preserving":
        S = np.eye(3)
        i, j = ctx.choice([(0, 1), (1, 2), (2, 0), (1, 0)])
        S[i, j] = ctx.choice([.01, .5, -2.])
        return R @ S if ctx.chance(.5) else R @ np.diag([2., .5, 1.])[ctx.rng.permutation(3)][:, ctx.rng.permutation(3)] * 1.
    if k == "sheared":
        return R + np.triu(ctx.rng.normal(size=(3, 3)), 1)
    if k == "singular":
        return np.diag([1., 1., 0.]) @ R
    if k == "nan":
        M = R.copy()
        M[ctx.randint(0, 2), ctx.randint(0, 2)] = NAN
        return M
    return ctx.choice([np.eye(2), np.eye(4), np.ones((3, 2)), np.ones((2, 3)), np.ones(9), np.zeros((0, 0))])


def dependent_bases(ctx):
    k = ctx.choice(["parallel", "coplanar", "zero", "shape", "anti"])
    B = ctx.rng.normal(size=(3, 3)) * 3
    i, j, l = ctx.rng.permutation(3)
    if k == "parallel":
        B[:, i] = B[:, j] * ctx.choice([1., 2., .3, 7.])
    elif k == "anti":
        B[:, i] = -B[:, j]
    elif k == "coplanar":
        B[:, i] = B[:, j] * ctx.choice([1., -1., .5]) + B[:, l] * ctx.choice([1., 2., -.3])
    elif k == "zero":
        B[:, i] = 0
    else:
        B = ctx.choice([np.eye(2), np.eye(4), np.ones((3, 2)), np.arange(9.), [[1, 0, 0], [0, 1, 0]]])
    return B


def flat_points(ctx):
    """Points that form no hull."""
    k = ctx.choice(["few", "plane", "line", "same"])
    n = ctx.randint(1, 3) if k == "few" else ctx.randint(4, 8)
    if k == "few":
        return ctx.rng.normal(size=(n, 3)) * 5
    if k == "plane":
        P = np.round(ctx.rng.normal(size=(n, 3)) * 5)
        P[:, ctx.randint(0, 2)] = ctx.randint(-3, 3)
        return P
    if k == "line":
        return np.outer(np.arange(n), ctx.rng.integers(1, 4, 3)).astype(float)
    return np.tile(np.round(ctx.rng.normal(size=3) * 4), (n, 1))


def nan_points(ctx):
    P = ctx.rng.normal(size=(ctx.randint(5, 9), 3)) * 5
    P[ctx.randint(0, len(P) - 1), ctx.randint(0, 2)] = ctx.choice([NAN, np.inf])
    return P


def bad_points_shape(ctx):
    r = ctx.rng.normal
    return ctx.choice([r(size=(5, 2)), r(size=(6, 4)), r(size=(2, 4, 3)), r(size=4), r(size=(5, 1))])


def refuse(ctx, o, table, n, state=digest):
    """Apply n random invalid calls; every one must raise and leave the state as it was."""
    before = state(o) if o is not None else None
    for _ in range(n):
        what, fn = ctx.choice(table)
        r = fn()
        if r is None:
            continue
        call, args = r if isinstance(r, tuple) else (r, None)
        ctx.checks += 1
        try:
            res = call()
        except Exception:
            ctx.event("refused_calls")
            ctx.event("refused:" + what)
        else:
            ctx.fail(what + ": accepted", argument=repr(args)[:300], result=repr(res)[:100])
        if o is not None:
            ctx.check(state(o) == before, what + ": refused, but the object was changed", argument=repr(args)[:300])
            ctx.event("states_compared")
    ctx.observe(n)


def setter(o, name, arg):
    return (lambda: setattr(o, name, arg)), arg


def call(f, *a, **k):
    return (lambda: f(*a, **k)), (a, k)


# ------------------------------------------------------------------------------ surfaces
@core.family(FAMILIES, 90, 3000, "spheres, planes and cylinders")
def surfaces(ctx):
    from czone.volume import Sphere, Plane, Cylinder
    k = ctx.choice(["sphere", "plane", "cylinder"])
    c, v = gen.point(ctx), gen.vector(ctx)
    rad, ln = float(ctx.rng.uniform(.5, 9)), float(ctx.rng.uniform(.5, 9))

    def new():
        if k == "sphere":
            return Sphere(rad, np.array(c))
        if k == "plane":
            return Plane(np.array(v), np.array(c))
        return Cylinder(np.array(v), np.array(c), rad, ln)
    o, twin = new(), new()
    zero = lambda: ctx.choice([np.zeros(3), [0, 0, 0], np.zeros((3, 1)), np.array([1e-18, 0, 0])])

    def unfinite():
        x = ctx.rng.normal(size=3)
        x[ctx.randint(0, 2)] = ctx.choice([NAN, np.inf, -np.inf])
        return x if ctx.chance(.5) else x.tolist()
    T = [("tolerance", lambda: setter(o, "tol", nonpositive(ctx)))]
    if k == "sphere":
        T += [("radius", lambda: setter(o, "radius", nonpositive(ctx))),
              ("radius that is no number", lambda: setter(o, "radius", NAN)),
              ("centre", lambda: setter(o, "center", wrong_vector(ctx))),
              ("new sphere, radius", lambda: call(Sphere, nonpositive(ctx), np.array(c))),
              ("new sphere, centre", lambda: call(Sphere, rad, wrong_vector(ctx))),
              ("new sphere, tolerance", lambda: call(Sphere, rad, np.array(c), tol=nonpositive(ctx)))]
    elif k == "plane":
        T += [("normal of wrong size", lambda: setter(o, "normal", wrong_vector(ctx))),
              ("normal without length", lambda: setter(o, "normal", zero())),
              ("normal that is not finite", lambda: setter(o, "normal", unfinite())),
              ("point", lambda: setter(o, "point", wrong_vector(ctx))),
              ("new plane, normal", lambda: call(Plane, wrong_vector(ctx), np.array(c))),
              ("new plane, no normal", lambda: call(Plane, zero(), np.array(c))),
              ("new plane, point", lambda: call(Plane, np.array(v), wrong_vector(ctx))),
              ("new plane, tolerance", lambda: call(Plane, np.array(v), np.array(c), tol=nonpositive(ctx)))]
    else:
        T += [("radius", lambda: setter(o, "radius", nonpositive(ctx))), ("length", lambda: setter(o, "length", nonpositive(ctx))),
              ("axis of wrong size", lambda: setter(o, "axis", wrong_vector(ctx))), ("axis without length", lambda: setter(o, "axis", zero())),
              ("axis that is not finite", lambda: setter(o, "axis", unfinite())),
              ("radius that is no number", lambda: setter(o, "radius", NAN)), ("length that is no number", lambda: setter(o, "length", NAN)),
              ("new cylinder, sizes that are no numbers", lambda: call(Cylinder, np.array(v), np.array(c), *ctx.choice([(rad, NAN), (NAN, ln)]))),
              ("point", lambda: setter(o, "point", wrong_vector(ctx))),
              ("new cylinder, radius", lambda: call(Cylinder, np.array(v), np.array(c), nonpositive(ctx), ln)),
              ("new cylinder, length", lambda: call(Cylinder, np.array(v), np.array(c), rad, nonpositive(ctx))),
              ("new cylinder, axis", lambda: call(Cylinder, zero(), np.array(c), rad, ln)),
              ("new cylinder, axis size", lambda: call(Cylinder, wrong_vector(ctx), np.array(c), rad, ln))]
    refuse(ctx, o, T, 10)
    X = np.asarray(c) + ctx.rng.normal(size=(200, 3)) * 5
    ctx.check(np.array_equal(o.checkIfInterior(X), twin.checkIfInterior(X)), "interior test after refused calls")
    t, A, _ = gen.isometry(ctx)
    o, twin = t.applyTransformation_alg(o), t.applyTransformation_alg(twin)
    ctx.check(digest(o) == digest(twin), "transformation after refused calls")
    ctx.event("twins_continued")
    ctx.describe(kind=k, c=np.round(c, 4), radius=round(rad, 4))


# ------------------------------------------------------------------------------ volumes
def vol_table(ctx, o):
    from czone.volume import Volume, BaseVolume
    from czone.volume.algebraic import BaseAlgebraic
    from czone.generator import BaseGenerator
    from czone.transform import BaseTransform
    fresh = o.points is None
    return [("transformation of wrong type", lambda: call(o.transform, junk_not(ctx, BaseTransform, iterable=True))),
            ("surface of wrong type", lambda: call(o.add_alg_object, junk_not(ctx, BaseAlgebraic, iterable=True))),
            ("generator of wrong type", lambda: call(o.add_generator, junk_not(ctx, BaseGenerator, iterable=True))),
            ("priority", lambda: setter(o, "priority", ctx.choice([1.5, "1", None, [1], 2., np.array([1.5])]))),
            ("points of wrong shape", lambda: setter(o, "points", bad_points_shape(ctx))),
            ("points without hull", lambda: setter(o, "points", flat_points(ctx))),
            ("points to add of wrong shape", lambda: call(o.addPoints, bad_points_shape(ctx))),
            ("points to add without hull", lambda: call(o.addPoints, flat_points(ctx)) if fresh else None),
            ("points that are no numbers", lambda: setter(o, "points", nan_points(ctx))),
            ("points to add that are no numbers", lambda: call(o.addPoints, nan_points(ctx))),
            ("interior test of wrong shape", lambda: call(o.checkIfInterior, bad_points_shape(ctx))),
            ("copy with generator of wrong type", lambda: call(o.from_volume, generator=junk_not(ctx, BaseGenerator, type(None), iterable=True))),
            ("copy with transformation of wrong type", lambda: call(o.from_volume, transformation=[junk_not(ctx, BaseTransform, iterable=True)])),
            ("copy with points of wrong shape", lambda: call(o.from_volume, points=bad_points_shape(ctx))),
            ("copy with priority", lambda: call(o.from_volume, priority=1.5)),
            ("copy with surface of wrong type", lambda: call(o.from_volume, alg_objects=[junk_not(ctx, BaseAlgebraic)])),
            ("new volume, points", lambda: call(Volume, points=ctx.choice([bad_points_shape, flat_points])(ctx))),
            ("new volume, surface", lambda: call(Volume, alg_objects=[junk_not(ctx, BaseAlgebraic)])),
            ("new volume, generator", lambda: call(Volume, generator=junk_not(ctx, BaseGenerator, type(None), iterable=True))),
            ("new volume, priority", lambda: call(Volume, priority=.5))]


@core.family(FAMILIES, 130, 5000, "volumes")
def volumes(ctx):
    o, s = W.make_volume(ctx, atoms=80)
    if ctx.chance(.7):
        o.populate_atoms()
    for _ in range(ctx.randint(0, 2)):
        t, A, _ = gen.isometry(ctx, scale=6.)
        o.transform(t)
        s.transform(A, True)
    twin = o.from_volume()
    if s.content == "amorphous":
        twin = None
    refuse(ctx, o, vol_table(ctx, o), 10)
    X = ctx.rng.uniform(-15, 15, (300, 3))
    mm, b = s.margin(X)
    got = o.checkIfInterior(np.array(X))
    ctx.check(not np.any(got & (mm > b)) and not np.any(~got & (mm < -b)), "interior test after refused calls")
    if twin is not None:
        t, A, _ = gen.isometry(ctx, scale=6.)
        P = np.vstack([v for v in [np.asarray(gen.region_box(s.region))]]).mean(axis=0) + ctx.rng.normal(size=(6, 3)) * 4
        for v in (o, twin):
            v.transform(t)
            if ctx.index % 2:                   # next to the volume, which may have gone a long way
                v.addPoints(m.act(A, P))
            v.populate_atoms()
        ctx.check(digest(o) == digest(twin), "volume goes on differently after refused calls")
        ctx.event("twins_continued")
    ctx.describe(content=s.content, region=[x[0] for x in s.region], atoms=None if o.atoms is None else len(o.atoms))


@core.family(FAMILIES, 30, 1000, "volumes without bounds")
def unbounded(ctx):
    from czone.volume import Volume, Plane, Sphere
    from czone.generator import AmorphousGenerator
    g, cr = gen.crystal(ctx, small=True)
    c = gen.point(ctx)
    r = float(ctx.rng.uniform(2., 4.))
    o = Volume(alg_objects=[Sphere(r, np.array(c))], generator=g)
    o.populate_atoms()
    X, Z = np.array(o.atoms), np.array(o.species)
    k = ctx.choice(["half-space", "wedge", "slab", "none"])
    pl = {"half-space": [gen.vector(ctx)], "wedge": list(ctx.rng.normal(size=(3, 3))), "none": []}.get(k)
    if pl is None:
        n = gen.vector(ctx)
        planes = [Plane(n, np.array(c)), Plane(-n, np.array(c) - n / np.linalg.norm(n) * 4)]
    else:
        planes = [Plane(n, np.array(c)) for n in pl]
    u = Volume(alg_objects=planes or None, generator=g if ctx.chance(.6) else AmorphousGenerator())
    before = digest(u)
    for _ in range(2):
        ctx.raises(u.populate_atoms, "population of a region without bounds (" + k + ")")
        ctx.event("refused_calls")
        ctx.check(digest(u) == before, "region without bounds changed by refused population")
        ctx.event("states_compared")
    # it can still be bounded and populated afterwards
    u.add_alg_object(Sphere(r, np.array(c)))
    u.add_generator(g)
    u.populate_atoms()
    v = Volume(alg_objects=planes + [Sphere(r, np.array(c))], generator=g)
    v.populate_atoms()
    ctx.check(digest(u) == digest(v), "volume goes on differently after refused population")
    ctx.event("twins_continued")
    ctx.observe(len(u.atoms) + 1)
    n = Volume(alg_objects=[Sphere(r, np.array(c))])
    ctx.raises(n.populate_atoms, "population without generator")
    ctx.describe(kind=k, atoms=len(u.atoms))


@core.family(FAMILIES, 50, 2000, "unions and scenes")
def collections(ctx):
    from czone.volume import MultiVolume, BaseVolume
    from czone.scene import Scene
    from czone.transform import BaseTransform
    from czone.molecule.molecule import BaseMolecule
    mv, s = W.make_multi(ctx, atoms=40)
    good = mv.volumes[0]
    T = [("transformation of wrong type", lambda: call(mv.transform, junk_not(ctx, BaseTransform, iterable=True))),
         ("member of wrong type", lambda: call(mv.add_volume, junk_not(ctx, BaseVolume))),
         ("members of which one has a wrong type", lambda: call(mv.add_volume, [good, junk_not(ctx, BaseVolume)])),
         ("priority", lambda: setter(mv, "priority", ctx.choice([1.5, "1", None]))),
         ("copy with transformation of wrong type", lambda: call(mv.from_volume, transformation=[junk_not(ctx, BaseTransform, iterable=True)])),
         ("new union of wrong types", lambda: call(MultiVolume, [junk_not(ctx, BaseVolume)])),
         ("new union, priority", lambda: call(MultiVolume, [good], priority=.5))]
    am = any(v.content == "amorphous" for v in s.volumes())
    twin = mv.from_volume()
    refuse(ctx, mv, T, 6)
    sc = Scene(objects=[mv], bounds=np.array([[0., 0, 0], [20, 20, 20]]))
    bad_bounds = lambda: ctx.choice([np.zeros((3, 2)), np.zeros(6), [[0, 0, 0]], np.zeros((2, 2)), [1, 2, 3], 5.])
    other = lambda: junk_not(ctx, BaseVolume, BaseMolecule, iterable=True)
    S = [("bounds", lambda: setter(sc, "bounds", bad_bounds())), ("object of wrong type", lambda: call(sc.add_object, other())),
         ("new scene, bounds", lambda: call(Scene, bounds=bad_bounds())),
         ("new scene, objects", lambda: call(Scene, objects=[good, junk_not(ctx, BaseVolume, BaseMolecule, iterable=True)]))]
    if ctx.chance(.5):
        sc.populate()
    refuse(ctx, sc, S, 6)
    if not am:
        s2 = Scene(objects=[twin], bounds=np.array([[0., 0, 0], [20, 20, 20]]))
        sc.populate()
        s2.populate()
        ctx.check(np.array_equal(sc.all_atoms, s2.all_atoms) and np.array_equal(sc.all_species, s2.all_species),
                  "scene goes on differently after refused calls")
        ctx.event("twins_continued")
    ctx.describe(members=len(mv.volumes), p=mv.priority, sub=ctx.index)


# ------------------------------------------------------------------------------ generators
@core.family(FAMILIES, 90, 3000, "generators and voxels")
def generators(ctx):
    from czone.generator import Generator, AmorphousGenerator
    from czone.volume.voxel import Voxel
    from czone.transform import BaseTransform, BaseStrain
    from czone.transform.post import BasePostTransform
    k = ctx.choice(["crystal", "crystal", "voxel", "amorphous"])
    bad3 = lambda: ctx.choice([np.zeros(2), np.zeros(4), np.zeros((2, 3)), np.zeros((3, 3))])
    if k == "crystal":
        g, cr = gen.crystal(ctx, small=True)
        cr = gen.place(ctx, g, cr)
        twin = g.from_generator()
        dims, ang = [3., 4., 5.], [90., 90., 90.]
        from pymatgen.core import Structure
        T = [("transformation of wrong type", lambda: call(g.transform, junk_not(ctx, BaseTransform, iterable=True))),
             ("strain of wrong type", lambda: setter(g, "strain_field", junk_not(ctx, BaseStrain, iterable=True))),
             ("post-transformation of wrong type", lambda: setter(g, "post_transform", junk_not(ctx, BasePostTransform, iterable=True))),
             ("voxel of wrong type", lambda: setter(g, "voxel", junk_not(ctx, Voxel, iterable=True))),
             ("structure of wrong type", lambda: setter(g, "structure", junk_not(ctx, Structure, iterable=True))),
             ("origin", lambda: setter(g, "origin", bad3())),
             ("copy with transformation of wrong type", lambda: call(g.from_generator, transformation=[junk_not(ctx, BaseTransform, iterable=True)])),
             ("new generator, structure", lambda: call(Generator, structure=junk_not(ctx, type(None), iterable=True))),
             ("new generator, origin", lambda: call(Generator, origin=bad3(), structure=g.structure)),
             ("new generator, strain", lambda: call(Generator, structure=g.structure, strain_field=junk_not(ctx, BaseStrain, type(None), iterable=True))),
             ("elements that do not match sites", lambda: call(Generator.from_unit_cell, [6, 7], np.zeros((ctx.choice([1, 3]), 3)), dims, ang)),
             ("unknown space group", lambda: call(Generator.from_spacegroup, [6], np.zeros((1, 3)), dims, ang, sgn=ctx.choice([0, 231, -3, 1000]))),
             ("unknown space group symbol", lambda: call(Generator.from_spacegroup, [6], np.zeros((1, 3)), dims, ang, sym=ctx.choice(["Xx", "F-9", ""]))),
             ("no space group", lambda: call(Generator.from_spacegroup, [6], np.zeros((1, 3)), dims, ang)),
             ("cell against the space group", lambda: call(Generator.from_spacegroup, [6], np.zeros((1, 3)), [3., 4., 5.], ang, sgn=225)),
             ("angles against the space group", lambda: call(Generator.from_spacegroup, [6], np.zeros((1, 3)), [3., 3., 3.], [90., 90., 80.], sgn=221))]
        refuse(ctx, g, T, 10)
        t, A, _ = gen.isometry(ctx)
        box = gen.point(ctx) + ctx.rng.normal(size=(6, 3)) * 3
        for x in (g, twin):
            x.transform(t)
        a, b = g.supply_atoms(np.array(box)), twin.supply_atoms(np.array(box))
        ctx.check(np.array_equal(a[0], b[0]) and np.array_equal(a[1], b[1]), "generator goes on differently after refused calls")
        ctx.check(digest(g) == digest(twin), "generator differs after refused calls")
    elif k == "voxel":
        B = ctx.rng.normal(size=(3, 3)) * 3
        sc = ctx.choice([np.array([1.]), np.array([1., 2., .5]), 2.])
        v = Voxel(bases=B.copy(), scale=sc, origin=gen.point(ctx))
        twin = Voxel(bases=B.copy(), scale=sc, origin=np.array(v.origin))
        T = [("bases", lambda: setter(v, "bases", dependent_bases(ctx))), ("scale", lambda: setter(v, "scale", ctx.choice([np.ones(2), np.ones(4), np.ones((2, 3))]))),
             ("origin", lambda: setter(v, "origin", bad3())),
             ("new voxel, bases", lambda: call(Voxel, bases=dependent_bases(ctx))), ("new voxel, scale", lambda: call(Voxel, scale=np.ones(2))),
             ("new voxel, origin", lambda: call(Voxel, origin=bad3()))]
        refuse(ctx, v, T, 10)
        ctx.check(np.array_equal(v.sbases, twin.sbases) and np.array_equal(v.reciprocal_bases, twin.reciprocal_bases) and digest(v) == digest(twin),
                  "voxel differs after refused calls")
    else:
        kw = dict(min_dist=float(ctx.rng.uniform(1, 1.4)), density=float(ctx.rng.uniform(.01, .05)), species=ctx.randint(1, 80))
        g, twin = AmorphousGenerator(**kw), AmorphousGenerator(**kw)
        T = [("density", lambda: setter(g, "density", nonpositive(ctx))), ("distance", lambda: setter(g, "min_dist", nonpositive(ctx))),
             ("density that is no number", lambda: setter(g, "density", NAN)), ("distance that is no number", lambda: setter(g, "min_dist", NAN)),
             ("origin", lambda: setter(g, "origin", ctx.choice([np.zeros(2), np.zeros(4), np.zeros((2, 3))]))),
             ("transformation of wrong type", lambda: call(g.transform, junk_not(ctx, BaseTransform, iterable=True))),
             ("new generator, density", lambda: call(AmorphousGenerator, density=nonpositive(ctx))),
             ("new generator, distance", lambda: call(AmorphousGenerator, min_dist=nonpositive(ctx)))]
        if ctx.chance(.4):
            box = gen.point(ctx) + np.array([[0, 0, 0], [5., 5, 5]])
            g.supply_atoms(box)
            twin.supply_atoms(box)
        refuse(ctx, g, T, 10)
        ctx.check(digest(g) == digest(twin), "amorphous generator differs after refused calls")
        box = gen.point(ctx) + np.array([[0, 0, 0], [5., 6, 5]])
        a, b = g.supply_atoms(box), twin.supply_atoms(box)
        ctx.check(np.array_equal(a[0], b[0]) and np.array_equal(a[1], b[1]), "generator goes on differently after refused calls")
    ctx.event("twins_continued")
    ctx.describe(kind=k, sub=ctx.index)


# ------------------------------------------------------------------------------ transformations
@core.family(FAMILIES, 90, 3000, "transformations")
def transformations(ctx):
    from czone.transform import Translation, Rotation, Reflection, Inversion, MatrixTransform, MultiTransform, BaseTransform
    from czone.volume import Plane
    k = ctx.choice(["translation", "rotation", "reflection", "inversion", "matrix", "multi"])
    t, A, lab = gen.isometry(ctx, kinds=[k] if k != "multi" else None)
    if k == "multi":
        parts = [gen.isometry(ctx)[:2] for _ in range(2)]
        t, A = MultiTransform([p[0] for p in parts]), m.compose(*[p[1] for p in parts])
    flag = lambda: ctx.choice([1, 0, "yes", None, 1., [True]])
    size = lambda: ctx.choice([np.zeros(2), np.zeros(4), [1., 2.], np.zeros((2, 3)), 5., np.zeros((1, 4))])
    rot = lambda: improper(ctx)
    sq = lambda: ctx.choice([np.eye(2), np.eye(4), np.ones((3, 2)), np.ones((2, 3)), np.ones(9)])
    org = [("origin", lambda: setter(t, "origin", size()))]
    flags = [("locked", lambda: setter(t, "locked", flag())), ("basis_only", lambda: setter(t, "basis_only", flag()))]
    T = {"translation": [("shift", lambda: setter(t, "shift", size())), ("new translation", lambda: call(Translation, size())),
                         ("new translation, locked", lambda: call(Translation, np.zeros(3), locked=flag())),
                         ("new translation, basis_only", lambda: call(Translation, np.zeros(3), basis_only=flag()))] + flags,
         "rotation": [("matrix", lambda: setter(t, "matrix", rot())), ("new rotation", lambda: call(Rotation, matrix=rot())),
                      ("new rotation, locked", lambda: call(Rotation, matrix=np.eye(3), locked=flag())),
                      ("new rotation, origin", lambda: call(Rotation, matrix=np.eye(3), origin=size()))] + org + flags,
         "matrix": [("matrix", lambda: setter(t, "matrix", sq())), ("new matrix", lambda: call(MatrixTransform, matrix=sq())),
                    ("new matrix, origin", lambda: call(MatrixTransform, matrix=np.eye(3), origin=size()))] + org + flags,
         "reflection": [("plane", lambda: setter(t, "plane", junk_not(ctx, Plane, iterable=True))),
                        ("new reflection", lambda: call(Reflection, plane=junk_not(ctx, Plane, type(None), iterable=True))),
                        ("new reflection, locked", lambda: call(Reflection, locked=flag()))] + flags,
         "inversion": [("new inversion", lambda: call(Inversion, origin=size())), ("new inversion, basis_only", lambda: call(Inversion, basis_only=flag()))] + org + flags,
         "multi": [("member of wrong type", lambda: call(t.add_transform, junk_not(ctx, BaseTransform))),
                   ("members of which one has a wrong type", lambda: call(t.add_transform, [Translation([1, 2, 3]), junk_not(ctx, BaseTransform)])),
                   ("new sequence", lambda: call(MultiTransform, [Translation([1, 2, 3]), junk_not(ctx, BaseTransform)]))]}[k]
    P = ctx.rng.normal(size=(20, 3)) * 5
    refuse(ctx, t, T, 10, state=lambda o: (digest(o), np.asarray(o.applyTransformation(np.array(P))).tobytes()))
    ctx.close(t.applyTransformation(np.array(P)), m.act(A, P), 1e-7, "images of points after refused calls")
    ctx.close(t.applyTransformation_bases(np.eye(3)), A[:3, :3], 1e-7, "images of bases after refused calls")
    ctx.event("twins_continued")
    ctx.describe(kind=k, A=np.round(A, 4))


# ------------------------------------------------------------------------------ molecules
@core.family(FAMILIES, 90, 3000, "molecules")
def molecules(ctx):
    from czone.molecule.molecule import Molecule
    from czone.transform import BaseTransform
    n = ctx.randint(2, 9)
    X, Z = gen.point(ctx) + ctx.rng.normal(size=(n, 3)) * 2, ctx.rng.integers(1, 80, n)
    org = ctx.choice([None, ctx.randint(0, n - 1), gen.point(ctx)])

    def new():
        o = Molecule(Z.copy(), X.copy(), **({} if org is None else dict(origin=org)))
        o.print_warnings = False
        return o
    o, twin = new(), new()
    R = gen.rotation(ctx)[0]
    if ctx.chance(.5):
        o.orientation = R
        twin.orientation = R
    track = int(org) if isinstance(org, int) else None
    far = lambda: ctx.choice([n, n + 3, -n - 1, -n - 5, 10**6])
    r = ctx.rng.normal
    T = [("transformation of wrong type", lambda: call(o.transform, junk_not(ctx, BaseTransform, iterable=True))),
         ("priority", lambda: setter(o, "priority", ctx.choice([1.5, "2", None, 2.]))),
         ("orientation", lambda: setter(o, "orientation", improper(ctx))),
         ("warnings", lambda: setter(o, "print_warnings", ctx.choice([1, 0, "no", None]))),
         ("atoms and elements of different number", lambda: call(o.set_atoms, np.ones(n + 1, int), r(size=(n, 3)))),
         ("positions that are no triples", lambda: call(o.set_atoms, np.ones(n, int), r(size=(n, 4)) if n % 3 else r(size=(n, 3))[:-1])),
         ("positions of another number", lambda: call(o.update_positions, r(size=(ctx.choice([n + 1, n - 1]), 3)))),
         ("elements of another number", lambda: call(o.update_species, np.ones(ctx.choice([n + 1, n - 1]), int))),
         ("atom to remove", lambda: call(o.remove_atoms, [far()])),
         ("atoms to remove of which one is missing", lambda: call(o.remove_atoms, [0 if track != 0 else 1, far()])),
         ("new origin out of range", lambda: call(o.remove_atoms, [0], new_origin_idx=far())),
         ("new origin of wrong type", lambda: call(o.remove_atoms, [0], new_origin_idx=ctx.choice([1.5, "1", [1]]))),
         ("new origin that is removed", lambda: call(o.remove_atoms, [0, 1], new_origin_idx=ctx.choice([0, 1]))),
         ("new origin that is removed, counted from the end", lambda: call(o.remove_atoms, [n - 1], new_origin_idx=-1)),
         ("tracked atom removed", lambda: None if track is None else call(o.remove_atoms, [track])),
         ("origin index", lambda: call(o.set_origin, idx=far())), ("origin index of wrong type", lambda: call(o.set_origin, idx=ctx.choice([1.5, "1", [0]]))),
         ("origin point", lambda: call(o.set_origin, point=ctx.choice([r(size=2), r(size=4), r(size=(2, 3)), 3.]))),
         ("new molecule, numbers", lambda: call(Molecule, [1, 2, 3], r(size=(2, 3)))), ("new molecule, origin", lambda: call(Molecule, [1, 2], r(size=(2, 3)), origin=5)),
         ("new molecule, origin point", lambda: call(Molecule, [1, 2], r(size=(2, 3)), origin=r(size=4))),
         ("new molecule, orientation", lambda: call(Molecule, [1, 2], r(size=(2, 3)), orientation=improper(ctx))),
         ("atoms object of wrong type", lambda: call(Molecule.from_ase_atoms, junk_not(ctx, iterable=True))),
         ("molecule object of wrong type", lambda: call(Molecule.from_pmg_molecule, junk_not(ctx, iterable=True))),
         ("copy with transformation of wrong type", lambda: call(o.from_molecule, transformation=[junk_not(ctx, BaseTransform, iterable=True)]))]
    refuse(ctx, o, T, 12)
    for _ in range(2):
        t, A, _ = gen.isometry(ctx)
        o.transform(t)
        twin.transform(t)
    rem = [i for i in range(n) if i != track][:1]
    if n > 2:
        o.remove_atoms(rem)
        twin.remove_atoms(rem)
    ctx.check(digest(o) == digest(twin), "molecule goes on differently after refused calls")
    ctx.event("twins_continued")
    ctx.describe(atoms=n, origin=None if org is None else np.round(org, 3))


# ------------------------------------------------------------------------------ post-processing and functions
@core.family(FAMILIES, 60, 2000, "strain fields, post-transformations, functions")
def others(ctx):
    from czone.transform import HStrain, IStrain, rot_zxz
    from czone.transform.post import ChemicalSubstitution, PostSequence, BasePostTransform
    from czone.util.misc import get_N_splits
    from czone.volume import snap_plane_near_point
    M = np.eye(3) + .05 * ctx.rng.normal(size=(3, 3))
    h, twin = HStrain(M.copy()), HStrain(M.copy())
    shape = lambda: ctx.rng.normal(size=ctx.choice([(2,), (4,), (2, 2), (3, 4), (5,), (3, 2), (10,)]))
    mode = lambda: ctx.choice(["Crystal", "cartesian", "", None, 3])
    org = lambda: ctx.choice([ctx.rng.normal(size=2), ctx.rng.normal(size=4), "global", "Generator", ""])
    fun = lambda: ctx.choice([lambda x, **k: x[:-1], lambda x, **k: x[:, :2], lambda x, **k: np.zeros(3), lambda x, **k: x.T])
    sf = float(ctx.rng.uniform(.5, 2.))
    i = IStrain(lambda x, **k: x * sf, mode="standard", origin=gen.point(ctx))
    Q = ctx.rng.normal(size=(7, 3)) * 4
    q = PostSequence([ChemicalSubstitution([1], [2], .5)])
    cs = ChemicalSubstitution([1, 2], [3, 4], .5)
    T = [("strain matrix", lambda: setter(h, "matrix", shape())), ("new strain matrix", lambda: call(HStrain, shape())), ("mode", lambda: setter(h, "mode", mode())),
         ("new strain, mode", lambda: call(HStrain, M, mode=mode())), ("new strain, origin", lambda: call(HStrain, M, origin=org())),
         ("new field, mode", lambda: call(IStrain, lambda x, **k: x, mode=mode())), ("new field, origin", lambda: call(IStrain, lambda x, **k: x, origin=org())),
         ("new field, function", lambda: call(IStrain, fun()))]
    refuse(ctx, h, T, 6)
    refuse(ctx, i, [("field, function", lambda: setter(i, "strain_fun", fun())), ("field, mode", lambda: setter(i, "mode", mode())),
                    ("field, arguments", lambda: setter(i, "fun_kwargs", ctx.choice([[1], 3, "a"])))], 4,
           state=lambda o: (digest(o), np.asarray(o.apply_strain(Q.copy())).tobytes()))
    ctx.close(i.apply_strain(Q.copy()), (Q - i.origin) * sf + i.origin, 1e-9, "strain field after refused calls")
    n = ctx.randint(1, 6)
    s_ = ctx.randint(1, 5)
    T = [("targets without substitutes", lambda: call(ChemicalSubstitution, [1, 2], [3], .5)), ("substitutes without targets", lambda: call(ChemicalSubstitution, [1], [3, 4], .5)),
         ("member of wrong type", lambda: call(q.add_transform, junk_not(ctx, BasePostTransform))),
         ("members of which one has a wrong type", lambda: call(q.add_transform, [cs, junk_not(ctx, BasePostTransform)])),
         ("new sequence", lambda: call(PostSequence, [cs, junk_not(ctx, BasePostTransform)])),
         ("convention", lambda: call(rot_zxz, .1, .2, .3, convention=ctx.choice(["zxz", "", None, "Intrinsic"]))),
         ("splits that do not fit", lambda: call(get_N_splits, n, s_, (n + 1) * s_ - ctx.randint(1, 3), seed=1))]
    P, S = ctx.rng.normal(size=(8, 3)), ctx.rng.integers(1, 4, 8)
    refuse(ctx, q, T, 6, state=lambda o: (lambda a: (a[0].tobytes(), a[1].tobytes()))(o.apply_function(P.copy(), S.copy(), seed=5)))
    ctx.check(digest(h) == digest(twin), "strain field differs after refused calls")
    X = ctx.rng.normal(size=(10, 3))
    g, cr = gen.crystal(ctx, small=True)
    out = []
    for f in (h, twin):
        f.scrape_params(g)
        out.append(np.asarray(f.apply_strain(X.copy())))
    ctx.check(np.array_equal(*out), "strain differs after refused calls")
    ctx.raises(lambda: snap_plane_near_point(X[0], g, (1, 0, 0), ctx.choice(["up", "", "Nearest", 1])), "mode of a snapped plane")
    ctx.event("refused_calls")
    ctx.event("twins_continued")
    ctx.describe(M=np.round(M, 4))


# ------------------------------------------------------------------------------ builders
@core.family(FAMILIES, 48, 1500, "builders of defects, grain boundaries and Wulff shapes")
def builders(ctx):
    from czone.generator import Generator, AmorphousGenerator
    from czone.volume import Volume, BaseVolume, Plane, Sphere
    from czone import prefab
    from czone.prefab import SimpleGrainBoundary, WulffSingle, fccMixedTwinSF, fccStackingFault, fccTwin, wurtziteStackingFault
    k = ctx.choice(["fcc", "fcc", "wurtzite", "boundary", "boundary", "wulff", "wulff"])
    a = float(ctx.rng.uniform(3.5, 4.5))
    g = Generator.from_spacegroup([79], np.zeros((1, 3)), [a, a, a], [90, 90, 90], sgn=225)
    c = gen.point(ctx)
    vol = Volume(alg_objects=[Sphere(float(ctx.rng.uniform(2, 2.5)) * a, c)], generator=g)
    attrs = lambda o, names: tuple((n, type(getattr(o, n)).__name__, digest(getattr(o, n))) for n in names)
    nogen = lambda: junk_not(ctx, Generator, iterable=True)
    novol = lambda: junk_not(ctx, BaseVolume, iterable=True)
    if k in ("fcc", "wurtzite"):
        cls = wurtziteStackingFault if k == "wurtzite" else ctx.choice([fccMixedTwinSF, fccMixedTwinSF, fccStackingFault, fccTwin])
        kw = dict(N=ctx.randint(1, 4), min_sep=ctx.randint(1, 5), generator=g, volume=vol)
        if cls is fccMixedTwinSF:
            kw["ratio"] = float(ctx.rng.random())
        o = cls(**kw)
        T = [("count that is no number", lambda: setter(o, "N", ctx.choice([None, "many", [1, 2], NAN, object(), np.inf]))),
             ("separation that is no whole number", lambda: setter(o, "min_sep", ctx.choice([None, "3", 2.5, 3., [3], NAN]))),
             ("generator of wrong type", lambda: setter(o, "generator", ctx.choice([nogen(), None, AmorphousGenerator()]))),
             ("volume of wrong type", lambda: setter(o, "volume", ctx.choice([novol(), None, g]))),
             ("new builder, generator", lambda: call(cls, generator=ctx.choice([junk_not(ctx, Generator, type(None), iterable=True), AmorphousGenerator()]))),
             ("new builder, volume", lambda: call(cls, volume=junk_not(ctx, BaseVolume, type(None), iterable=True))),
             ("new builder, count", lambda: call(cls, N="many")), ("new builder, separation", lambda: call(cls, min_sep=2.5))]
        if cls is fccMixedTwinSF:
            T += [("ratio", lambda: setter(o, "ratio", ctx.choice([-.1, 1.01, 5, -3, NAN, np.inf, None, "half"]))),
                  ("new builder, ratio", lambda: call(cls, ratio=ctx.choice([-.01, 1.5, NAN])))]
        names = ["N", "min_sep", "plane", "ratio", "generator", "volume"] if k == "fcc" else ["N", "min_sep", "plane", "generator", "volume"]
        refuse(ctx, o, T, 8, state=lambda o: attrs(o, names))
        ctx.check(o.generator is g and o.volume is vol and o.N == kw["N"] and o.min_sep == kw["min_sep"], "builder differs after refused values")
    elif k == "boundary":
        z = [np.round(ctx.rng.normal(size=3) * 2) + [0, 0, 5] for _ in range(2)]
        pl = Plane(gen.vector(ctx), np.array(c))
        if ctx.chance(.3):
            z[1] = None
        new = lambda: SimpleGrainBoundary(z[0].copy(), 0, z[1], 0, plane=pl, volume=vol, generator=g)
        o, twin = new(), new()
        size = lambda: ctx.choice([[1, 1], [1, 0, 0, 1], np.zeros(2), np.ones((2, 3)), 5, np.ones((3, 3)), [], "z"])
        T = [("zone axis of the first crystal", lambda: setter(o, "z1", ctx.choice([size(), None]))),
             ("zone axis of the second crystal", lambda: setter(o, "z2", size())),
             ("new boundary, first axis", lambda: call(SimpleGrainBoundary, size(), 0)),
             ("new boundary, second axis", lambda: call(SimpleGrainBoundary, [0, 0, 1], 0, size()))]
        refuse(ctx, o, T, 8, state=lambda o: attrs(o, ["z1", "z2", "plane", "generator", "volume"]))
        A, B = o.build_object(), twin.build_object()
        for v in (A, B):
            v.populate_atoms()
        ctx.check(digest(A) == digest(B), "boundary differs after refused values")
        ctx.event("twins_continued")
    else:
        E = {(1, 0, 0): float(np.round(ctx.rng.uniform(.9, 1.2), 3)), (1, 1, 1): 1.}
        n = ctx.randint(100, 800)
        o, twin = (WulffSingle(g, dict(E), n) for _ in range(2))
        used = ctx.chance(.5)
        if used:
            o.get_construction()
        T = [("size", lambda: setter(o, "natoms", ctx.choice([None, [1, 2], object(), {}]))), ("size given as text", lambda: setter(o, "natoms", "many")),
             ("energies", lambda: setter(o, "surface_energies", ctx.choice([{(1, 1, 1): 1}, {"111": 1.}, {(1, 1, 1): None}, {(1, 0, 0): 1., (1, 1, 1): "1"}, {1: 1.}]))),
             ("energies of wrong type", lambda: setter(o, "surface_energies", ctx.choice([None, 3., [1.]]))),
             ("generator", lambda: setter(o, "generator", ctx.choice([nogen(), None, AmorphousGenerator()]))),
             ("interface energy", lambda: call(o.winterbottom, (0, 0, 1), ctx.choice([1.5, 2.]))),
             ("new builder, generator", lambda: call(WulffSingle, nogen(), dict(E), n)),
             ("new builder, energies", lambda: call(WulffSingle, g, {(1, 1, 1): 1}, n))]
        refuse(ctx, o, T, 8, state=lambda o: attrs(o, ["natoms", "generator"]) + (repr(o.surface_energies),))
        A, B = o.get_construction(), twin.get_construction()
        ctx.check(digest(A) == digest(B), "Wulff shape differs after refused values")
        if ctx.chance(.5):
            A, B = (w.winterbottom((0, 0, 1), .4) for w in (o, twin))
            ctx.check(digest(A) == digest(B), "Winterbottom shape differs after refused values")
        ctx.event("twins_continued")
    ctx.describe(kind=k, a=round(a, 3), sub=ctx.index)
