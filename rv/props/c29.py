import os
import pickle
import random
import subprocess
import sys
import tempfile

import numpy as np
from .. import core, gen, model as m
from . import _world as W, c12, c18, c19, c20, c21, c26

PROP = "C29"
FAMILIES = []
RULE = ("Random constructions (recipes) are carried out several times from identical inputs: under different states of the global random "
        "number generators, with unrelated constructions in between, and in fresh interpreters; all results are compared value by value. "
        "Seeded routines have to depend on their seed, and on nothing else.")
ASSUMPTIONS = ["results agree within 1e-7 (sites) or exactly (elements, counts, integers)",
               "randomly placed defects, substitutions and adsorbates are random unless a seed is given (by design)"]
MIN_EVENTS = {"repeats": 500, "values_compared": 200000, "seeded_repeats": 200, "seeds_differ": 80, "processes": 6}


# ------------------------------------------------------------------------------------------- recipes
def r_world(c):
    out = []

    class Rec(W.World):
        def on_populate(self):
            X, Z = self.scene.all_atoms, self.scene.all_species
            out.append(("scene", np.array(X), np.array(Z)))
            for e in self.entries:
                out.append(("object", np.array(e.obj.atoms), np.array(e.obj.species)))
    W.run(c, 5, cls=Rec)
    return out


def r_crystal(c):
    from czone.generator import Generator
    from czone.transform import HStrain, IStrain
    g, cr = gen.crystal(c, small=True)
    cr = gen.place(c, g, cr)
    size = gen.size_for(c, cr, 120)
    reg, _ = gen.bounded_region(c, gen.point(c), size)
    k = c.choice(["none", "homogeneous", "inhomogeneous"])
    kw = {}
    if k == "homogeneous":
        kw["strain_field"] = HStrain(matrix=np.eye(3) + c.rng.normal(size=(3, 3)) * .03)
    elif k == "inhomogeneous":
        a = c.rng.normal(size=3) * .01
        kw["strain_field"] = IStrain(fun=lambda x, **kk: x * (1 + a * np.sin(x)))
    if kw:
        g = Generator.from_generator(g, **kw)
    v = gen.build_volume(c, reg, generator=g)
    v.populate_atoms()
    box = np.array(np.meshgrid(*[[0, 6.]] * 3)).reshape(3, -1).T
    X, Z = g.supply_atoms(box)
    return [("volume", np.array(v.atoms), np.array(v.species)), ("supply", np.array(X), np.array(Z))]


def r_amorphous(c):
    from czone.generator import AmorphousGenerator
    g, d, rho, z = c12.random_generator(c, 60)[:4]
    size = c.rng.uniform(2.5, 4) * d
    reg, _ = gen.bounded_region(c, gen.point(c), size, c.choice(["sphere", "box", "prism"]))
    reg = [s if s[0] == "hull" else s[:-1] + (1e-5,) for s in reg]
    v = gen.build_volume(c, reg, generator=g)
    v.populate_atoms()
    out = [("amorphous", np.array(v.atoms), np.array(v.species))]
    g2 = AmorphousGenerator(species=6, min_dist=1.4, density=.08)
    box = np.array(np.meshgrid(*[[0, 7.]] * 3)).reshape(3, -1).T
    X, Z = g2.supply_atoms(box)
    out.append(("amorphous supply", np.array(X), np.array(Z)))
    return out


def r_wulff(c):
    from czone.prefab import WulffSingle
    g, cr, group, kind, sgn = c21.wulff_crystal(c)
    E = c21.energies_for(c, cr, group, kind, sgn)
    w = WulffSingle(g, dict(E), c.randint(200, 700))
    v, areas = w.get_construction(return_facet_areas=True)
    P = sorted((tuple(np.round(np.append(o.normal.ravel(), o.normal.ravel() @ o.point.ravel()), 4)) for o in v.alg_objects))
    P = [x for x in P]
    v.populate_atoms()
    return [("areas", np.array([areas[k] for k in sorted(areas)], float)), ("faces", np.array(len(P))),
            ("particle", np.array(v.atoms), np.array(v.species))]


def r_boundary(c):
    from czone.prefab.prefab import SimpleGrainBoundary
    g, cr = gen.crystal(c, small=True)
    cr = gen.place(c, g, cr)
    ctr = gen.point(c)
    reg, _ = gen.bounded_region(c, ctr, gen.size_for(c, cr, 100))
    v = gen.build_volume(c, reg)
    b = SimpleGrainBoundary(c20.zone(c), 0, z2=c20.zone(c), r2=0, volume=v, generator=g,
                            plane=gen.build_alg(("plane", gen.vector(c), ctr, 1e-5)))
    o = b.build_object()
    o.populate_atoms()
    return [("boundary", np.array(o.atoms), np.array(o.species))]


def r_perfect_prefab(c):
    """prefabs without defects"""
    from czone.prefab import prefab as P
    if c.chance(.6):
        g, cr, Z, a, plane, region, kind, v = c18.make(c, atoms=(200, 600))
        f = c.choice([P.fccStackingFault, P.fccTwin, P.fccMixedTwinSF])(generator=g, volume=v, N=0, min_sep=3, plane=plane)
    else:
        g, cr, par, region, kind, v = c19.make(c, atoms=(300, 900))
        f = P.wurtziteStackingFault(generator=g, volume=v, N=0, min_sep=3)
    o = f.build_object()
    o.populate_atoms()
    return [("prefab", np.array(o.atoms), np.array(o.species))]


def r_molecule(c):
    mol, k = c26.molecule(c)
    out = []
    for _ in range(3):
        t, A, lab = gen.isometry(c)
        mol.transform(t)
        out.append(("molecule", np.array(mol.atoms), np.array(mol.species), np.array(mol.origin, float)))
    t, A, lab = gen.isometry(c)
    x = mol.from_molecule(transformation=[t])
    out.append(("copy", np.array(x.atoms), np.array(x.species)))
    return out


def r_tools(c):
    from czone.volume import Plane, snap_plane_near_point, convex_hull_to_planes, get_bounding_box
    from czone.util.measure import calc_rdf
    from czone.transform import rot_v, rot_vtv, rot_align, rot_zxz
    from scipy.spatial import ConvexHull
    out = []
    g, cr = gen.crystal(c, small=True)
    cr = gen.place(c, g, cr)
    pl = snap_plane_near_point(gen.point(c), g, tuple(c.choice([(1, 0, 0), (0, 1, 1), (1, -1, 2), (1, 1, 1)])), mode=c.choice(["nearest", "floor", "ceil"]))
    out.append(("plane", np.array(pl.point, float).ravel(), np.array(pl.normal, float).ravel()))
    pts = c.rng.normal(size=(30, 3)) * 5
    hp = convex_hull_to_planes(pts)
    N = np.array(sorted(tuple(np.append(p.normal.ravel(), float(p.normal.ravel() @ p.point.ravel())).round(5)) for p in hp))
    out.append(("hull", N))
    X, _ = get_bounding_box(hp) if isinstance(get_bounding_box(hp), tuple) else (get_bounding_box(hp), 0)
    out.append(("vertices", np.array(sorted(map(tuple, np.asarray(X, float).round(4) + 0.)))))
    r, n = calc_rdf(c.rng.uniform(0, 8, (80, 3)), cutoff=3.)[:2]
    out.append(("rdf", np.array(r, float).ravel(), np.array(n, float).ravel()))
    u, w = gen.vector(c), gen.vector(c)
    out.append(("rotations", rot_v(u, .7), rot_vtv(u, w), rot_zxz(.1, 1.2, 2.2)))
    return out


RECIPES = {"world": r_world, "crystal": r_crystal, "amorphous": r_amorphous, "wulff": r_wulff, "boundary": r_boundary,
           "perfect prefab": r_perfect_prefab, "molecule": r_molecule, "tools": r_tools}
WEIGHTS = ["world"] * 4 + ["crystal"] * 4 + ["amorphous"] * 2 + ["wulff"] * 2 + ["boundary"] * 2 + ["perfect prefab"] * 2 + ["molecule", "tools", "tools"]


def carry_out(name, seed, index):
    """Result of a recipe; its inputs depend on the arguments alone."""
    sub = core.Ctx(PROP, "recipe/" + name, index, seed, "quick", {})
    keep = core._seam["rewrite"]
    core._seam["rewrite"] = False
    try:
        return RECIPES[name](sub)
    finally:
        core._seam["rewrite"] = keep


def disturb(ctx):
    np.random.seed(ctx.randint(0, 2**31 - 1))
    random.seed(ctx.randint(0, 2**31 - 1))
    np.random.rand(ctx.randint(0, 20))


def compare(ctx, a, b, what):
    ctx.check(len(a) == len(b), f"{what}: number of results", n=[len(a), len(b)])
    for i, (x, y) in enumerate(zip(a, b)):
        ctx.check(x[0] == y[0] and len(x) == len(y), f"{what}: order of results", got=[x[0], y[0]])
        w = f"{what}: {x[0]} (result {i})"
        for p, q in zip(x[1:], y[1:]):
            p, q = np.asarray(p), np.asarray(q)
            ctx.check(p.shape == q.shape, f"{w}: shape", shapes=[p.shape, q.shape])
            if p.dtype.kind in "iub":
                ctx.check(np.array_equal(p, q), f"{w}: differs", n=int(np.sum(p != q)), of=p.size)
            elif p.size:
                ctx.check(np.array_equal(np.isnan(p), np.isnan(q)), f"{w}: undefined values differ")
                d = np.nanmax(np.abs(p - q)) if not np.isnan(p).all() else 0.
                ctx.check(d < 1e-7, f"{w}: differs", deviation=float(d))
            ctx.event("values_compared", p.size)
            ctx.observe(p.size)


def pick(ctx):
    """a recipe with its index, such that it gives a result"""
    for _ in range(20):
        name, index = ctx.choice(WEIGHTS), ctx.randint(0, 10**6)
        try:
            return name, index, carry_out(name, ctx.seed, index)
        except core.Skip:
            continue
    raise core.Skip("no recipe gives a result")


@core.family(FAMILIES, 260, 9000, "the same construction in the same process")
def repeats(ctx):
    disturb(ctx)
    name, index, first = pick(ctx)
    ctx.describe(recipe=name, index=index, results=len(first))
    for k in range(2):
        disturb(ctx)
        if ctx.chance(.6):
            pick(ctx)
        elif ctx.chance(.5):
            # other work that draws seeded numbers
            from czone.util.misc import get_N_splits
            get_N_splits(3, 2, 40, seed=ctx.randint(0, 100))
        compare(ctx, first, carry_out(name, ctx.seed, index), f"{name} once more")
        ctx.event("repeats")
        ctx.state(name, k)


# --------------------------------------------------------------------------------------- seeded routines
def seeded(ctx):
    """(label, f(seed), results expected to differ for different seeds)"""
    k = ctx.choice(["splits", "substitution", "repeated substitution", "sequence", "block", "batched", "shape", "adsorbate", "normal"])
    if k == "splits":
        from czone.util.misc import get_N_splits
        n, m_ = ctx.randint(2, 8), ctx.randint(1, 6)
        l = 2 * m_ + n * m_ + ctx.randint(30, 200)
        return k, lambda s: [(k, np.array(get_N_splits(n, m_, l, seed=s)))], True
    if k == "substitution":
        from czone.transform.post import ChemicalSubstitution
        n = ctx.randint(40, 200)
        Z = np.where(ctx.rng.random(n) < .8, 29, 8)
        X = ctx.rng.normal(size=(n, 3))
        cs = ChemicalSubstitution([29], [79], .5)

        def f(s):
            Y, w = cs.apply_function(X.copy(), Z.copy(), seed=s)
            return [(k, np.array(Y), np.array(w))]
        return k, f, True
    if k == "repeated substitution":
        from czone.transform.post import ChemicalSubstitution
        n = 60
        Z = np.where(ctx.rng.random(n) < .8, 29, 8)
        X = ctx.rng.normal(size=(n, 3))

        def f(s):
            cs = ChemicalSubstitution([29], [79], .5)
            a = cs.apply_function(X.copy(), Z.copy(), seed=s)[1]
            b = cs.apply_function(X.copy(), Z.copy(), seed=s)[1]
            return [(k, np.array(a), np.array(b))]
        return k, f, True
    if k == "sequence":
        from czone.transform.post import ChemicalSubstitution, PostSequence, ArbitraryPostTransform
        n = ctx.randint(40, 200)
        Z = np.where(ctx.rng.random(n) < .8, 29, 8)
        X = ctx.rng.normal(size=(n, 3))
        ts = [ChemicalSubstitution([29], [79], .5), ChemicalSubstitution([8, 79], [16, 47], .4), ArbitraryPostTransform(lambda p, z: (p + 1., z))]
        ts = [ts[i] for i in ctx.rng.permutation(3)[:ctx.randint(1, 3)]]
        if not any(isinstance(t, ChemicalSubstitution) for t in ts):
            ts.append(ChemicalSubstitution([29], [79], .5))
        if ctx.chance(.3):
            ts = [PostSequence(ts)]
        sq = PostSequence(ts)
        # the second substitution may have nothing to act on
        only = not any(isinstance(t, ChemicalSubstitution) and 29 in t.target for t in (ts[0]._transforms if isinstance(ts[0], PostSequence) else ts))

        def f(s):
            Y, w = sq.apply_function(X.copy(), Z.copy(), seed=s)
            return [(k, np.array(Y), np.array(w))]
        return k, f, None if only else True
    if k in ("block", "batched"):
        from czone.generator.amorphous_algorithms import gen_p_substrate, gen_p_substrate_batched
        L = ctx.rng.uniform(4, 9, 3)
        kw = dict(min_dist=float(ctx.rng.uniform(.8, 1.6)), density=.05)
        g = gen_p_substrate if k == "block" else gen_p_substrate_batched
        if k == "batched":
            kw["batch_size"] = int(ctx.choice([3, 20]))
        return k, lambda s: [(k, np.array(g(L.copy(), seed=s, **kw)))], True
    obj, kind = c26.substrate(ctx)
    X = np.array(obj.atoms)
    from scipy.spatial import cKDTree
    probe = float(np.median(cKDTree(X).query(X, 2)[0][:, 1]) * ctx.rng.uniform(1.2, 3))
    if k == "shape":
        from czone.surface.alpha_shape import alpha_shape_alg_3D_with_sampling as al

        def f(s):
            i, sh = al(X.copy(), probe, 5, seed=s, return_alpha_shape=True)
            return [(k, np.array(sorted(map(int, i))), np.array(sh["a_tris"]))]
        if not len(f(1)[0][1]):
            raise core.Skip("no surface for this probe")
        return k, f, None
    if k == "normal":
        from czone.surface.adsorbate import find_approximate_normal as fan
        P = ctx.rng.normal(size=(12, 3)) + np.array([0, 0, 2.])
        return k, lambda s: [(k, np.array(fan(P.copy(), seed=s), float))], None
    from czone.surface.adsorbate import add_adsorbate
    mol, mk = c26.molecule(ctx)
    b = ctx.randint(0, len(mol.species) - 1)

    def f(s):
        o = add_adsorbate(mol, b, 2., obj, probe_radius=probe, seed=s)
        o = o[0] if isinstance(o, tuple) else o
        return [(k, np.array(o.atoms), np.array(o.species))]
    try:
        f(1)
    except (ValueError, IndexError):
        raise core.Skip("no site for this probe")
    return k, f, True


@core.family(FAMILIES, 240, 9000, "seeded routines depend on the seed alone")
def seeds(ctx):
    k, f, differ = seeded(ctx)
    s = ctx.choice([0, 1, 23, ctx.randint(0, 9999), ctx.randint(0, 2**31 - 1)])
    ctx.describe(routine=k, seed=s)
    keep = core._seam["rewrite"]
    core._seam["rewrite"] = False
    try:
        disturb(ctx)
        first = f(s)
        for _ in range(2):
            disturb(ctx)
            if ctx.chance(.5):
                f(ctx.randint(0, 10**6))
            compare(ctx, first, f(s if ctx.chance(.7) else np.int64(s)), f"{k} with the same seed")
            ctx.event("seeded_repeats")
        if differ:
            others = [f(s + 1 + j) for j in range(6)]
            same = all(all(np.shape(p) == np.shape(q) and np.allclose(np.asarray(p, float), np.asarray(q, float), atol=1e-7) for p, q in zip(a[1:], b[1:]))
                       for o in others for a, b in zip(first, o))
            if k != "adsorbate" or len({tuple(np.round(o[0][1].ravel(), 3)) for o in others}) > 1:
                ctx.check(not same, f"{k}: seven seeds give one result")
            else:
                ctx.event("single_site")
            ctx.event("seeds_differ")
    finally:
        core._seam["rewrite"] = keep
    ctx.state(k)


@core.family(FAMILIES, 30, 900, "defects are placed at random, and differ from draw to draw")
def draws(ctx):
    from czone.prefab import prefab as P
    g, cr, Z, a, plane, region, kind, v = c18.make(ctx, kind="prism", atoms=(1500, 2500))
    f = ctx.choice([P.fccStackingFault, P.fccTwin, P.fccMixedTwinSF])(generator=g, volume=v, N=1, min_sep=1, plane=plane)
    keep = core._seam["rewrite"]
    core._seam["rewrite"] = False
    found = []
    try:
        for _ in range(12):
            disturb(ctx)
            try:
                o = f.build_object()
            except ValueError:
                raise core.Skip("does not fit")
            o.populate_atoms()
            found.append(len(o.atoms) * 1000 + float(np.round(np.sum(np.asarray(o.atoms) ** 2), 2)))
    finally:
        core._seam["rewrite"] = keep
    ctx.describe(which=type(f).__name__, plane=plane, kind=kind, distinct=len(set(found)))
    ctx.event("draws", len(found))
    ctx.observe(len(found))
    lo, hi = c18.S.extents(region, c18.frame(cr, a, plane)[1])
    layers = (hi - lo) / c18.frame(cr, a, plane)[2]
    if np.isfinite(layers) and layers > 8:
        ctx.check(len(set(found)) > 1, "twelve unseeded draws put the defect on the same plane", layers=layers)
        ctx.event("draws_judged")


# ------------------------------------------------------------------------------------------ other processes
_CHILD = """
import sys, pickle, warnings
warnings.simplefilter("ignore")
sys.path.insert(0, {here!r})
from rv import core
import numpy as np
np.seterr(all="ignore")
from rv.props import c29
res = [c29.carry_out(n, {seed}, i) for n, i in {jobs!r}]
pickle.dump(res, open({out!r}, "wb"))
"""


@core.family(FAMILIES, 8, 60, "the same constructions in a fresh interpreter")
def processes(ctx):
    jobs, here = [], []
    names = sorted(RECIPES)
    for j in range(8):
        for _ in range(20):
            name, index = names[j % len(names)], ctx.randint(0, 10**6)
            try:
                r = carry_out(name, ctx.seed, index)
            except core.Skip:
                continue
            jobs.append((name, index))
            here.append(r)
            break
    d = tempfile.mkdtemp(prefix="rv29_")
    try:
        out = os.path.join(d, "r.pkl")
        env = dict(os.environ, PYTHONHASHSEED=str(ctx.randint(1, 10**6)), PYTHONDONTWRITEBYTECODE="1")
        order = [int(i) for i in ctx.rng.permutation(len(jobs))]
        src = _CHILD.format(here=core.HERE, seed=ctx.seed, jobs=[jobs[i] for i in order], out=out)
        try:
            p = subprocess.run([sys.executable, "-B", "-c", src], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=300)
        except subprocess.TimeoutExpired:
            raise core.Undecided("the other process took too long")
        ctx.check(p.returncode == 0, "constructions fail in a fresh interpreter", error=p.stderr.decode()[-600:])
        with open(out, "rb") as f:
            res = pickle.load(f)
    finally:
        import shutil
        shutil.rmtree(d, ignore_errors=True)
    for i, r in zip(order, res):
        compare(ctx, here[i], r, f"{jobs[i][0]} in a fresh interpreter")
        ctx.event("process_results")
    ctx.event("processes")
    ctx.describe(jobs=jobs)
