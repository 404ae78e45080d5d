import warnings

import numpy as np
from .. import core, gen, model as m, probes
from ..digest import digest
from . import _world as W
from .c04 import judge_atoms, probe_points

PROP = "C10"
FAMILIES = []
RULE = ("Twins: an object and its copy are compared, then random later histories are applied to one of them while the other is "
        "compared with its state before (public attributes, interior tests, populated atoms). Arguments: a monitor at every "
        "public call compares the public state of all arguments (and of self for queries) before and after.")
ASSUMPTIONS = ["applyTransformation_alg transforms the surface handed to it in place, by contract with Volume.transform and "
               "BaseAlgebraic.from_alg_object, and is exempt", "unions and scenes hold their members by reference",
               "add_volume/add_object store what they are given; populate orders members of unions and scenes by priority"]
MIN_EVENTS = {"arguments_compared": 3000, "twins_compared": 600, "queries_compared": 300}

# callables allowed to change (some of) their arguments
IN_PLACE = {"applyTransformation_alg"}
# callables which answer a question and leave self as it was (atoms of populated volumes aside)
QUERIES = {"checkIfInterior", "get_bounding_box", "populate_atoms", "supply_atoms", "to_file", "from_volume", "from_generator",
           "from_molecule", "from_alg_object", "sdist_from_plane", "dist_from_plane", "project_point", "applyTransformation",
           "applyTransformation_bases", "apply_strain", "apply_function", "get_extents", "createHull", "species_from_object",
           "params"}


def _leaves(args, kwargs):
    return list(args) + [kwargs[k] for k in sorted(kwargs)]


class ArgumentMonitor:
    """Compares public state of all arguments before and after each public call."""

    def __init__(self, ctx):
        self.ctx = ctx
        import czone
        names = set()
        import inspect, sys
        for mn, mod in sys.modules.items():
            if mn.startswith("czone"):
                for k, o in list(vars(mod).items()):
                    if getattr(o, "__rv_probe__", False):
                        names.add(o.__name__)
                    elif inspect.isclass(o) and o.__module__.startswith("czone"):
                        for kk, oo in list(vars(o).items()):
                            f = getattr(oo, "__func__", oo)
                            if getattr(f, "__rv_probe__", False):
                                names.add(f"{o.__name__}.{kk}")
        for n in names:
            probes.hook(n, self.pre(n), self.post(n))

    def pre(self, name):
        method = name.split(".")[-1]
        is_method = "." in name

        def f(ctx, args, kwargs):
            if method in IN_PLACE:
                return None
            vals = _leaves(args, kwargs)
            out = []
            for i, v in enumerate(vals):
                if i == 0 and is_method:
                    own = method in QUERIES
                    out.append(digest(v, atoms=not method.startswith("populate")) if own else None)
                else:
                    gen_query = method == "supply_atoms"
                    out.append(digest(v))
            return out
        return f

    def post(self, name):
        method = name.split(".")[-1]
        is_method = "." in name

        def f(ctx, tok, args, kwargs, result):
            if tok is None:
                return
            for i, (v, d) in enumerate(zip(_leaves(args, kwargs), tok)):
                if d is None:
                    continue
                if i == 0 and is_method:
                    if type(v).__name__ == "AmorphousGenerator":
                        continue                      # remembers its last block
                    now = digest(v, atoms=not method.startswith("populate"))
                    ctx.event("queries_compared")
                    what = "state of the object that was asked"
                else:
                    if type(v).__name__ == "AmorphousGenerator":
                        continue
                    now = digest(v)
                    ctx.event("arguments_compared")
                    what = "argument handed in by the caller"
                ctx.checks += 1
                if now != d:
                    ctx.fail(f"{name} changed the {what}", arg=i, type=type(v).__name__)
                ctx.observe(1)
        return f


# ------------------------------------------------------------------------------ later histories
def volume_state(v, P):
    with probes.quiet():
        return digest(v, atoms=False), np.asarray(v.checkIfInterior(np.array(P))).tobytes()


def scribble_volume(ctx, v):
    """A random later operation on a volume through its public interface; returns its name."""
    if hasattr(v, "volumes"):
        op = ctx.choice(["member", "member", "transform", "priority", "add", "populate"])
        if op == "member":
            return "member/" + scribble_volume(ctx, ctx.choice(v.volumes))
        if op == "add":
            o, _ = W.make_volume(ctx)
            v.add_volume(o)
            return op
    else:
        op = ctx.choice(["transform", "transform", "surface", "surface_attr", "surface_attr", "points", "addpoints", "generator", "generator_attr",
                         "generator_attr", "generator_transform", "strain", "tolerance", "priority", "points_inplace", "surface_list", "populate", "atoms"])
    if op == "transform":
        v.transform(gen.isometry(ctx, locked=ctx.chance(.7))[0])
    elif op == "priority":
        v.priority = W.priority(ctx)
    elif op == "surface":
        v.add_alg_object(gen.build_alg(("sphere", gen.point(ctx), 5., 1e-5), ctx))
    elif op == "surface_attr":
        if not v.alg_objects:
            return "none"
        o = ctx.choice(v.alg_objects)
        if hasattr(o, "radius") and ctx.chance(.5):
            o.radius = float(ctx.rng.uniform(1, 5))
        elif hasattr(o, "center"):
            if ctx.chance(.5):
                o.center = gen.point(ctx)
            else:
                o.center[:] = gen.point(ctx)
        elif hasattr(o, "point"):
            if ctx.chance(.5):
                o.point = gen.point(ctx)
            else:
                o.point[...] = gen.point(ctx)
        if ctx.chance(.3):
            o.tol = 1e-2
    elif op == "surface_list":
        v.alg_objects.append(gen.build_alg(("plane", np.array([0., 0, 1]), np.zeros(3), 1e-5)))
    elif op == "points":
        v.points = gen.point(ctx) + ctx.rng.normal(size=(7, 3)) * 4
    elif op == "addpoints":
        if v.points is not None:
            v.addPoints(np.mean(v.points, axis=0) + ctx.rng.normal(size=(3, 3)) * 6)
    elif op == "points_inplace":
        if v.points is not None:
            v.points[0] += 3          # they may be whole numbers
            v.createHull()
    elif op == "generator":
        v.add_generator(gen.crystal(ctx, small=True)[0])
    elif op in ("generator_attr", "generator_transform", "strain"):
        g = v.generator
        if type(g).__name__ == "Generator":
            if op == "generator_transform":
                g.transform(gen.isometry(ctx)[0])
            elif op == "strain":
                from czone.transform.strain import HStrain
                g.strain_field = HStrain(np.array([1.1, 1, .95]))
            else:
                w = ctx.choice(["origin", "origin_inplace", "scale", "bases", "coords", "species"])
                if w == "origin":
                    g.origin = gen.point(ctx)
                elif w == "origin_inplace":
                    g.voxel.origin = np.asarray(g.voxel.origin, float)
                    g.voxel.origin[:] = gen.point(ctx)
                elif w == "scale":
                    g.voxel.scale = np.array([1.25])
                elif w == "coords":
                    g.structure.translate_sites([0], [.25, .1, .05])
                elif w == "species":
                    g.structure.replace(0, 50)
                else:
                    g.voxel.bases = g.voxel.bases * 1.5
        elif type(g).__name__ == "AmorphousGenerator":
            g.density = .02
            g.species = 50
            g.use_old_result = True
    elif op == "tolerance":
        v.tolerance = 1e-3
    elif op == "populate":
        try:
            v.populate_atoms()
        except Exception:
            return "populate of what is not bounded any more"
    elif op == "atoms":
        if v.atoms is not None and len(v.atoms):
            v.atoms[:] = 0
    return op


def safe_populate(v):
    v.populate_atoms()
    return np.array(v.atoms), np.array(v.species)


@core.family(FAMILIES, 150, 6000, "volumes and unions, their copies, and later histories of both")
def volumes(ctx):
    e = W.entry(*(W.make_multi(ctx, atoms=40) if ctx.chance(.35) else W.make_volume(ctx, atoms=60)))
    v = e.obj
    if e.shadow.kind == "volume" and ctx.chance(.3):
        v.tolerance = 1e-8
    P, _ = probe_points(ctx, e)
    before = volume_state(v, P)
    c = v.from_volume() if ctx.chance(.6) else v.from_volume(transformation=[])
    ctx.check(volume_state(c, P) == before, "copy behaves unlike its original", kind=e.shadow.kind)
    ctx.check(volume_state(v, P) == before, "copying changed the original")
    ctx.check(c is not v, "copy is the original")
    X, Z = safe_populate(v)
    cX, cZ = safe_populate(c)
    m.same_rows(ctx, cX, cZ, X, Z, "atoms of the copy")
    log = []
    pair = [v, c]
    for _ in range(ctx.randint(1, 4)):
        i = ctx.randint(0, 1)
        a, b = pair[i], pair[1 - i]
        keep = volume_state(b, P)
        op = scribble_volume(ctx, a)
        log.append(("original/" if i == 0 else "copy/") + op)
        ctx.check(volume_state(b, P) == keep, f"{op} on the {'original' if i == 0 else 'copy'} changed the other one", kind=e.shadow.kind)
        ctx.event("twins_compared")
        ctx.observe(len(P))
    # the one not touched still makes the same atoms
    last = log[-1].split("/")[0]
    ctx.describe(ops=log, kind=e.shadow.kind, P=np.round(P[0], 3))
    if all(x.split("/")[0] == "original" for x in log):
        m.same_rows(ctx, *safe_populate(c), X, Z, "atoms of the copy after changes of the original")
    elif all(x.split("/")[0] == "copy" for x in log):
        m.same_rows(ctx, *safe_populate(v), X, Z, "atoms of the original after changes of the copy")


@core.family(FAMILIES, 80, 3000, "copies with requested changes: those and no others")
def requests(ctx):
    o, s = W.make_volume(ctx, content="crystal", atoms=60)
    e = W.entry(o, s)
    P, _ = probe_points(ctx, e)
    kw, sh = {}, s.copy()
    before = volume_state(o, P)
    d0 = None
    what = [w for w in ("points", "alg_objects", "generator", "priority", "tolerance", "gen_origin", "transformation") if ctx.chance(.3)]
    c = np.mean(gen.region_box(s.region), axis=0)
    if "points" in what:
        pts = c + ctx.rng.normal(size=(8, 3)) * 4
        kw["points"] = np.array(pts)
        sh.region = [r for r in sh.region if r[0] != "hull"] + [("hull", pts, 1e-10)]
    if "alg_objects" in what:
        sp = [("sphere", c, float(ctx.rng.uniform(2, 5)), 1e-5), ("plane", gen.vector(ctx), c, 1e-5)]
        kw["alg_objects"] = [gen.build_alg(x) for x in sp]
        sh.region = [r for r in sh.region if r[0] == "hull"] + sp
    if "generator" in what:
        g, cr = gen.crystal(ctx, small=True)
        kw["generator"], sh.crystal = g, cr
        if len(cr.Z) / cr.cell_volume() * np.prod(np.subtract(*gen.region_box(sh.region)[::-1])) > 20000:
            del kw["generator"]
            sh.crystal = s.crystal
    if "priority" in what:
        kw["priority"] = sh.priority = W.priority(ctx)
    if "tolerance" in what:
        kw["tolerance"] = 1e-9
    if "gen_origin" in what:
        oo = gen.point(ctx)
        kw["gen_origin"] = oo
        sh.crystal = sh.crystal.with_origin(oo)
    if "transformation" in what:
        ts = []
        for _ in range(ctx.randint(1, 3)):
            t, A, k = gen.isometry(ctx, locked=ctx.chance(.75))
            ts.append(t)
            sh.transform(A, t.locked)
        kw["transformation"] = ts
    n = o.from_volume(**kw)
    ctx.check(volume_state(o, P) == before, "copying with changes changed the original", request=what)
    ctx.check(n.priority == sh.priority, "priority of a copy", got=n.priority, expected=sh.priority)
    if "tolerance" in what:
        ctx.check(n.tolerance == 1e-9, "tolerance of a copy")
    else:
        ctx.check(n.tolerance == o.tolerance, "tolerance of a copy")
    Q = np.vstack([P, c + ctx.rng.normal(size=(60, 3)) * 4])
    mm, b = sh.margin(Q)
    got = np.asarray(n.checkIfInterior(np.array(Q)))
    bad = (got & (mm > b)) | (~got & (mm < -b))
    ctx.check(not bad.any(), "region of a copy with changes", n=int(bad.sum()), request=what)
    ctx.observe(len(Q))
    judge_atoms(ctx, W.Entry(n, sh), "atoms of a copy with changes")
    judge_atoms(ctx, W.Entry(o, s), "atoms of the original")
    ctx.event("twins_compared")
    ctx.describe(request=what)


@core.family(FAMILIES, 60, 2000, "copies of unions: requested changes reach every member")
def union_requests(ctx):
    e = W.entry(*W.make_multi(ctx, atoms=40))
    P, _ = probe_points(ctx, e)
    before = volume_state(e.obj, P)
    c = W.World(ctx)._copy_entry(e, e.obj)           # specification of the copy
    leaf = c.shadow.volumes()
    kw, what = {}, [w for w in ("alg_objects", "points", "generator", "priority", "tolerance", "gen_origin", "transformation") if ctx.chance(.35)]
    ctr = np.mean([np.mean(gen.region_box(v.region), axis=0) for v in leaf], axis=0)
    if "points" in what:
        pts = ctr + ctx.rng.normal(size=(9, 3)) * 5
        kw["points"] = np.array(pts)
        for v in leaf:
            v.region = [r for r in v.region if r[0] != "hull"] + [("hull", pts, 1e-10)]
    if "alg_objects" in what:
        sp = [("sphere", ctr, float(ctx.rng.uniform(2, 5)), 1e-5)]
        kw["alg_objects"] = [gen.build_alg(x) for x in sp]
        for v in leaf:
            v.region = [r for r in v.region if r[0] == "hull"] + sp
    if "generator" in what:
        g, cr = gen.crystal(ctx, small=True)
        n = [len(cr.Z) / cr.cell_volume() * np.prod(np.subtract(*gen.region_box(v.region)[::-1])) for v in leaf]
        if max(n) < 8000:
            kw["generator"] = g
            for v in leaf:
                v.crystal, v.content = cr, "crystal"
    if "gen_origin" in what:
        oo = gen.point(ctx)
        if all(v.content == "crystal" for v in leaf):
            kw["gen_origin"] = oo
            for v in leaf:
                v.crystal = v.crystal.with_origin(oo)
    if "priority" in what:
        kw["priority"] = p = W.priority(ctx)

        def put(sh):
            for v in sh.vols:
                if v.kind == "multi":
                    put(v)
                else:
                    v.priority = p
        put(c.shadow)
    if "tolerance" in what:
        kw["tolerance"] = 1e-9
    if "transformation" in what:
        kw["transformation"] = []
        for _ in range(ctx.randint(1, 3)):
            t, A, k = gen.isometry(ctx, locked=ctx.chance(.7))
            kw["transformation"].append(t)
            c.shadow.transform(A, t.locked)
    n = e.obj.from_volume(**kw)
    ctx.check(volume_state(e.obj, P) == before, "copying a union with changes changed the original", request=what)
    pos = {id(v): i for i, v in enumerate(e.obj.volumes)}

    def attach(x, obj, src):
        x.obj = obj
        ctx.check(obj.priority == x.shadow.priority, "priority in a copy of a union", got=obj.priority, expected=x.shadow.priority)
        if x.members is None:
            t = 1e-9 if "tolerance" in kw else src.obj.tolerance
            ctx.check(obj.tolerance == t, "tolerance in a copy of a union", got=obj.tolerance, expected=t)
            ctx.check(obj is not src.obj and (obj.generator is None or obj.generator is not src.obj.generator), "members are shared")
            if "generator" in kw:
                ctx.check(obj.generator is not kw["generator"], "generator is shared")
            return
        ctx.check(len(obj.volumes) == len(x.members), "members of a copy")
        p = {id(v): i for i, v in enumerate(src.obj.volumes)}
        for k, y in zip(src.members, x.members):
            attach(y, obj.volumes[p[id(k.obj)]], k)
    attach(c, n, e)
    Q = np.vstack([P, ctr + ctx.rng.normal(size=(60, 3)) * 5])
    mm, b = c.shadow.margin(Q)
    got = np.asarray(n.checkIfInterior(np.array(Q)))
    bad = (got & (mm > b)) | (~got & (mm < -b))
    ctx.check(not bad.any(), "region of a copy of a union with changes", n=int(bad.sum()), request=what)
    n.populate_atoms()
    from .c09 import judge as judge_union
    judge_union(ctx, c, "copy of a union with changes")
    e.obj.populate_atoms()
    judge_union(ctx, e, "union that was copied with changes")
    ctx.observe(len(Q))
    ctx.event("twins_compared")
    ctx.event("union_requests")
    ctx.describe(request=what, members=len(leaf))


def random_strain(ctx):
    from czone.transform.strain import HStrain
    M = np.eye(3) + ctx.rng.normal(size=(3, 3)) * .03
    return HStrain(M, mode=ctx.choice(["crystal", "standard"]), origin=ctx.choice(["generator", gen.point(ctx)]))


@core.family(FAMILIES, 100, 4000, "generators, their copies, and later histories of both")
def generators(ctx):
    from czone.generator import AmorphousGenerator, NullGenerator
    from czone.transform.post import ChemicalSubstitution
    kind = ctx.choice(["crystal"] * 4 + ["amorphous", "null"])
    box = gen.point(ctx) + gen.np.array([[x, y, z] for x in (0, 5.) for y in (0, 5.) for z in (0, 4.)])

    def supply(g):
        X, Z = g.supply_atoms(np.array(box))
        return np.array(X), np.array(Z)
    if kind == "crystal":
        g, cr = gen.crystal(ctx, small=True)
        gen.place(ctx, g, cr)
        if ctx.chance(.4):
            g.strain_field = random_strain(ctx)
        if ctx.chance(.3):
            g.post_transform = ChemicalSubstitution([int(cr.Z[0])], [99], 1.0)
        box = box - box.mean(axis=0) + g.origin
    elif kind == "amorphous":
        g = AmorphousGenerator(origin=gen.point(ctx), min_dist=1.2, density=.05, species=int(ctx.choice([6, 14])))
        if ctx.chance(.5):
            supply(g)
            g.use_old_result = True
    else:
        g = NullGenerator()
    before = digest(g)
    X, Z = supply(g) if kind != "amorphous" or g.use_old_result else (None, None)
    if kind == "crystal":
        # several transformations at once: as one after the other
        ts = [gen.isometry(ctx, basis_only=ctx.chance(.3))[0] for _ in range(ctx.randint(1, 3))]
        one, step = g.from_generator(transformation=ts), g.from_generator()
        for t in ts:
            step.transform(t)
        for a_, b_ in ((one.origin, step.origin), (one.voxel.sbases, step.voxel.sbases)):
            ctx.close(np.asarray(a_, float), np.asarray(b_, float), 1e-8 * (1 + np.max(np.abs(b_))), "copy made with transformations is unlike a copy transformed afterwards")
        ctx.check(digest(g) == before, "copying with transformations changed the original")
    c = g.from_generator()
    ctx.check(digest(c) == before == digest(g), "copy of a generator is unlike its original", kind=kind)
    if X is not None:
        m.same_rows(ctx, *supply(c), X, Z, "atoms of the copy of a generator")
    log = []
    pair = [g, c]
    for _ in range(ctx.randint(1, 4)):
        i = ctx.randint(0, 1)
        a, b = pair[i], pair[1 - i]
        keep = digest(b)
        if kind == "crystal":
            op = ctx.choice(["transform", "origin", "origin_inplace", "scale", "strain", "strain_attr", "post", "post_attr", "structure", "structure_attr", "copy", "structure_attr"])
            if op == "transform":
                a.transform(gen.isometry(ctx)[0])
            elif op == "origin":
                a.origin = gen.point(ctx)
            elif op == "origin_inplace":
                a.voxel.origin[:] = np.round(gen.point(ctx))
            elif op == "scale":
                a.voxel.scale = np.array([1.1])
            elif op == "strain":
                a.strain_field = random_strain(ctx)
            elif op == "strain_attr" and a.strain_field is not None:
                a.strain_field.matrix = [1.2, 1.1, 1.0]
            elif op == "post":
                a.post_transform = ChemicalSubstitution([1], [2], .5)
            elif op == "post_attr" and a.post_transform is not None:
                a.post_transform.frac = 0.25
                a.post_transform.substitute[0] = 98
            elif op == "structure":
                a.structure = gen.crystal(ctx, small=True)[0].structure
            elif op == "structure_attr":
                if ctx.chance(.5):
                    a.structure.translate_sites([0], [.25, .1, .05])
                else:
                    a.structure.replace(0, 50)
            else:
                a.from_generator(transformation=[gen.isometry(ctx)[0]])
        elif kind == "amorphous":
            op = ctx.choice(["transform", "origin", "species", "density", "min_dist", "supply", "use"])
            if op == "transform":
                a.transform(gen.isometry(ctx)[0])
            elif op == "origin":
                a.origin = gen.point(ctx)
            elif op == "species":
                a.species = 77
            elif op == "density":
                a.density = .01
            elif op == "min_dist":
                a.min_dist = .9
            elif op == "use":
                a.use_old_result = not a.use_old_result
            else:
                supply(a)
        else:
            op = "transform"
            a.transform(gen.isometry(ctx)[0])
        log.append(("original/" if i == 0 else "copy/") + op)
        ctx.check(digest(b) == keep, f"{op} on a generator changed its twin", kind=kind, log=log)
        ctx.event("twins_compared")
        ctx.observe(1)
    if X is not None:
        for who, t in (("original", g), ("copy", c)):
            if not any(x.startswith(who) for x in log):
                m.same_rows(ctx, *supply(t), X, Z, f"atoms of the {who} after changes of the other")
    ctx.describe(kind=kind, ops=log)


@core.family(FAMILIES, 120, 4000, "surfaces and molecules, their copies, and later histories of both")
def surfaces_molecules(ctx):
    from czone.molecule.molecule import Molecule
    mol = ctx.chance(.5)
    log = []
    if mol:
        n = ctx.randint(2, 8)
        R = gen.rotation(ctx)[0]
        a = Molecule(ctx.rng.integers(1, 90, n), ctx.rng.normal(size=(n, 3)) * 3,
                     origin=ctx.choice([None, int(ctx.randint(0, n - 1)), gen.point(ctx)]), orientation=R)
        a.priority = W.priority(ctx)
        a.print_warnings = ctx.chance(.5)
    else:
        reg, _ = gen.bounded_region(ctx, gen.point(ctx), 5., ctx.choice(["sphere", "cyl", "sphere+plane", "cyl+plane"]))
        a = gen.build_alg(ctx.choice(reg), ctx)
    before = digest(a)
    ts, A, iso = [], np.eye(4), []
    for _ in range(ctx.randint(0, 2)):
        t, B, k = gen.isometry(ctx)
        ts.append(t)
        A = B @ A
        iso.append(k)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        kw = {"transformation": ts} if ts or ctx.chance(.3) else {}
        c = a.from_molecule(**kw) if mol else a.from_alg_object(**kw)
        ctx.check(digest(a) == before, "copying changed the original", type=type(a).__name__)
        ctx.check(type(c) is type(a), "type of the copy")
        if not ts:
            ctx.check(digest(c) == before, "copy is unlike its original", type=type(a).__name__)
        elif mol:
            ctx.close(c.atoms, m.act(A, np.array(a.atoms)), 1e-8, "positions of the copy")
            ctx.check(np.array_equal(c.species, a.species) and c.priority == a.priority, "copy of a molecule")
        else:
            s = m.move(m.spec_of_alg(a), A)
            Q = gen.point(ctx) + ctx.rng.normal(size=(80, 3)) * 6
            mm = m.margin([s], Q)
            got = c.checkIfInterior(Q)
            b = m.band_of([s], Q)
            ctx.check(not np.any((got & (mm > b)) | (~got & (mm < -b))), "region of the copy of a surface")
            ctx.check(c.tol == a.tol, "tolerance of the copy")
        pair = [a, c]
        for _ in range(ctx.randint(1, 5)):
            i = ctx.randint(0, 1)
            x, y = pair[i], pair[1 - i]
            keep = digest(y)
            if mol:
                op = ctx.choice(["transform", "species", "positions", "inplace", "origin", "remove", "orientation", "orientation_inplace", "priority"])
                if op == "transform":
                    x.transform(gen.isometry(ctx)[0])
                elif op == "species":
                    x.update_species(ctx.rng.integers(1, 90, len(x.species)))
                elif op == "positions":
                    x.update_positions(ctx.rng.normal(size=x.atoms.shape))
                elif op == "inplace":
                    x.atoms[:] = 7
                    x.species[:] = 7
                elif op == "origin":
                    x.set_origin(point=gen.point(ctx))
                elif op == "remove":
                    x.set_origin(point=gen.point(ctx))
                    if len(x.atoms) > 1:
                        x.remove_atoms([0])
                elif op == "orientation":
                    x.orientation = gen.rotation(ctx)[0]
                elif op == "orientation_inplace":
                    x.orientation[:] = np.eye(3)[[1, 2, 0]]
                else:
                    x.priority = W.priority(ctx)
            else:
                op = ctx.choice(["transform", "attr", "inplace", "tol", "flip"])
                if op == "transform":
                    gen.isometry(ctx)[0].applyTransformation_alg(x)
                elif op == "tol":
                    x.tol = .5
                elif op == "flip":
                    if hasattr(x, "flip_orientation"):
                        x.flip_orientation()
                else:
                    for at in ("center", "point", "axis", "normal"):
                        if hasattr(x, at):
                            if op == "attr":
                                setattr(x, at, gen.vector(ctx))
                            else:
                                getattr(x, at)[...] = [0., 1., 0.]
                    if hasattr(x, "radius"):
                        x.radius = 1.25
            log.append(op)
            ctx.check(digest(y) == keep, f"{op} changed the twin", type=type(a).__name__, log=log)
            ctx.event("twins_compared")
            ctx.observe(1)
    ctx.describe(type=type(a).__name__, ops=log, transforms=iso)


@core.family(FAMILIES, 60, 2500, "what is handed to volumes and transformations stays as it was, and is not bound to them")
def handed_in(ctx):
    from czone.volume import Volume
    g, cr = gen.crystal(ctx, small=True)
    c = gen.point(ctx, 5.)
    reg, _ = gen.bounded_region(ctx, c, max(3., gen.size_for(ctx, cr, 60)), ctx.choice(["sphere", "hull", "prism", "cyl", "hull+plane", "hull+sphere", "sphere+plane", "box"]))
    algs = [gen.build_alg(s, ctx) for s in reg if s[0] != "hull"]
    hull = [s for s in reg if s[0] == "hull"]
    pts = np.array(hull[0][1]) if hull else None
    kw = {}
    o = gen.point(ctx)
    if ctx.chance(.4):
        kw["gen_origin"] = np.array(o)
    mine = [digest(x) for x in (g, algs, pts, kw)]
    v = Volume(points=pts, alg_objects=algs if algs else None, generator=g, **kw)
    crv = cr.with_origin(o) if kw else cr
    s = W.SVol(reg, crv, 0)
    e = W.Entry(v, s)
    P, _ = probe_points(ctx, e)
    log = []
    for _ in range(ctx.randint(1, 4)):
        op = ctx.choice(["transform", "populate", "query", "caller"])
        if op == "transform":
            t, A, k = gen.isometry(ctx)
            v.transform(t)
            s.transform(A, True)
        elif op == "populate":
            v.populate_atoms()
        elif op == "query":
            v.checkIfInterior(P)
        else:
            # the caller goes on working with what was handed in
            what = ctx.choice(["generator", "surface", "points", "origin"])
            if what == "generator":
                g.transform(gen.isometry(ctx)[0])
            elif what == "surface" and algs:
                gen.isometry(ctx)[0].applyTransformation_alg(ctx.choice(algs))
                algs[0].tol = .3
            elif what == "points" and pts is not None:
                pts += 2.5
            elif kw:
                kw["gen_origin"] += 1.0
            mine = [digest(x) for x in (g, algs, pts, kw)]
            op += "/" + what
        log.append(op)
        ctx.check([digest(x) for x in (g, algs, pts, kw)] == mine, f"{op} changed what the caller handed in", log=log)
        ctx.event("twins_compared")
    mm, b = s.margin(P)
    got = np.asarray(v.checkIfInterior(np.array(P)))
    bad = (got & (mm > b)) | (~got & (mm < -b))
    ctx.check(not bad.any(), "volume is bound to what its caller handed in: region", n=int(bad.sum()), log=log)
    judge_atoms(ctx, e, "volume is bound to what its caller handed in: atoms")
    ctx.describe(ops=log)


@core.family(FAMILIES, 80, 2500, "surfaces, molecules, lattices, scenes and shifts are not bound to the arrays they are made from")
def made_from(ctx):
    """The caller makes objects from one set of arrays, goes on using the arrays, and makes the next ones."""
    from czone.volume import Sphere, Plane, Cylinder, Volume, makeRectPrism
    from czone.volume.voxel import Voxel
    from czone.generator import Generator, AmorphousGenerator
    from czone.transform import Translation, Rotation, HStrain, IStrain
    from czone.molecule.molecule import Molecule
    from czone.scene import Scene
    n = ctx.randint(1, 6)
    a, b = gen.point(ctx), gen.point(ctx) + [0, 0, 41.]
    X, Z = ctx.rng.normal(size=(n, 3)) * 3, ctx.rng.integers(1, 80, n)
    B, S = np.diag([3., 4., 5.]) + ctx.rng.normal(size=(3, 3)) * .2, ctx.rng.uniform(.5, 2, 3)
    H, box, M = a + ctx.rng.normal(size=(8, 3)) * 4, np.array([a, a + 5.]), np.eye(3) + ctx.rng.normal(size=(3, 3)) * .05
    R, F, D = gen.rotation(ctx)[0], ctx.rng.random((n, 3)), ctx.rng.uniform(3, 6, 3)
    arrays = [a, b, X, Z, B, S, H, box, M, F, D]

    def molecule(late):
        o = Molecule(Z, X, origin=a) if not late else Molecule(np.ones(n, int), np.zeros((n, 3)))
        if late == 1:
            o.set_atoms(Z, X)
            o.set_origin(point=a)
        elif late == 2:
            o.update_positions(X)
            o.update_species(Z)
            o.set_origin(point=a)
        o.print_warnings = False
        return o

    def late(o, **kw):
        for k, v in kw.items():
            setattr(o, k, v)
        return o
    cellargs = ([int(z) for z in Z], F, D, [90, 90, 90])
    points = Volume(points=makeRectPrism(1., 1., 1.) + np.array(a))
    made = {"sphere": lambda: Sphere(2., a), "plane": lambda: Plane(b, a), "cylinder": lambda: Cylinder(b, a, 2., 3.),
            "late sphere": lambda: late(Sphere(2., np.zeros(3)), center=a), "late plane": lambda: late(Plane([0, 0, 1.], np.zeros(3)), normal=b, point=a),
            "late cylinder": lambda: late(Cylinder([0, 0, 1.], np.zeros(3), 2., 3.), axis=b, point=a),
            "volume": lambda: Volume(points=H), "late volume": lambda: late(Volume(points=makeRectPrism(1., 1., 1.)), points=H),
            "grown volume": lambda: (lambda v: (v.addPoints(H), v)[1])(points.from_volume()),
            "voxel": lambda: Voxel(B, S, a), "late voxel": lambda: late(Voxel(), bases=B, scale=S, origin=a),
            "crystal": lambda: Generator.from_unit_cell(*cellargs, origin=a), "amorphous": lambda: AmorphousGenerator(origin=a),
            "molecule": lambda: molecule(0), "late molecule": lambda: molecule(1), "updated molecule": lambda: molecule(2),
            "scene": lambda: Scene(bounds=box, objects=[molecule(0)]), "shift": lambda: Translation(a), "turn": lambda: Rotation(R, origin=a),
            "strain": lambda: HStrain(M, origin=a, mode="standard"), "strain field": lambda: IStrain(lambda x, **k: x * 1.1, origin=a, mode="standard")}
    names = [ctx.choice(list(made)) for _ in range(4)]
    keep, got, twice = [], [], []
    for k in names:
        o = made[k]()
        keep.append((k, o, digest(o)))
    form = ctx.choice(["shift", "overwrite", "sign"])
    for x in arrays:
        if form == "shift":
            x += 2
        elif form == "overwrite":
            x[...] = 7
        else:
            x *= -1
    for k, o, d in keep:
        ctx.check(digest(o) == d, f"{k} is bound to an array it was made from", change=form)
        ctx.event("twins_compared")
    ctx.observe(len(keep))
    ctx.describe(objects=names, change=form, at=np.round(a, 3))


@core.family(FAMILIES, 60, 2500, "all arguments of all public calls of random scenes")
def arguments_scene(ctx):
    ArgumentMonitor(ctx)
    w = W.run(ctx, ctx.randint(3, 7))
    for e in w.entries:
        if e.shadow.kind == "volume":
            e.obj.get_bounding_box()


@core.family(FAMILIES, 100, 3000, "all arguments of all public calls of utilities, strains, prefabs, surfaces")
def arguments_tools(ctx):
    ArgumentMonitor(ctx)
    import czone.transform as T
    from czone.util.measure import calc_rdf, get_sdist_fun, get_voxel_grid
    from czone.util.misc import get_N_splits, vangle, round_away
    from czone.volume import makeRectPrism, snap_plane_near_point
    from czone.volume.algebraic import convex_hull_to_planes, get_bounding_box
    from czone.volume import Volume, Plane, Sphere
    tool = ctx.choice(["rdf", "rot", "s2s", "hull", "snap", "alpha", "adsorbate", "strain", "post", "prefab", "wulff", "amorphous", "sdist", "prism", "transforms", "export"])
    rng = ctx.rng
    if tool == "rdf":
        calc_rdf(rng.uniform(0, 12, (60, 3)), cutoff=4.0, px=ctx.chance(.5), py=ctx.chance(.5), pz=ctx.chance(.5))
    elif tool == "rot":
        v, w = gen.vector(ctx), gen.vector(ctx)
        T.rot_vtv(v, w), T.rot_v(v, 1.2), T.rot_align(rng.normal(size=(4, 3)), rng.normal(size=(4, 3)))
        vangle(v, w), round_away(v)
    elif tool == "s2s":
        A, B = Plane(gen.vector(ctx), gen.point(ctx)), Plane(gen.vector(ctx), gen.point(ctx))
        T.s2s_alignment(A, B, gen.point(ctx), gen.point(ctx))
    elif tool == "hull":
        pl = convex_hull_to_planes(rng.normal(size=(12, 3)) * 5)
        get_bounding_box(pl)
    elif tool == "snap":
        g, cr = gen.crystal(ctx)
        if ctx.chance(.5):
            g.strain_field = random_strain(ctx)
        snap_plane_near_point(gen.point(ctx), g, np.array([1, 1, 0]), ctx.choice(["nearest", "floor", "ceil"]))
        snap_plane_near_point(list(gen.point(ctx)), g, [1, 1, 2])
    elif tool in ("alpha", "adsorbate"):
        from czone.surface.alpha_shape import alpha_shape_alg_3D, alpha_shape_alg_3D_with_sampling
        from czone.surface.adsorbate import add_adsorbate
        from czone.molecule.molecule import Molecule
        from czone.generator import Generator
        g = Generator.from_spacegroup([79], np.array([[0, 0, 0]]), [4.078] * 3, [90] * 3, sgn=225)
        v = Volume(alg_objects=[Sphere(9.0, gen.point(ctx))], generator=g)
        v.populate_atoms()
        alpha_shape_alg_3D_with_sampling(v.atoms, 2.5, N_samples=3, seed=3)
        if tool == "adsorbate":
            mol = Molecule([6, 8], [[0, 0, 0], [0, 0, 1.2]])
            mol.print_warnings = False
            add_adsorbate(mol, 0, 2.0, v, seed=int(rng.integers(100)), mol_vector=np.array([0., 0, 1]),
                          filters={"indices": np.arange(len(v.atoms)), "mask": np.ones(len(v.atoms), bool), "element": [79, "Au"]})
    elif tool == "strain":
        from czone.transform.strain import IStrain
        g, cr = gen.crystal(ctx)
        for s in (random_strain(ctx), IStrain(lambda x, **kw: x * 1.01, mode=ctx.choice(["crystal", "standard"]))):
            g.strain_field = s
            for scaled in (False, True):
                if scaled:
                    g.voxel.scale = ctx.choice([np.array([1.1]), rng.uniform(.8, 1.2, 3), rng.uniform(.8, 1.2, (3, 1))])
                Q = rng.uniform(-4, 4, (8, 3))
                X, Z = g.supply_atoms(Q)
                g.supply_atoms(rng.uniform(-4, 4, (8, 3)))
                Y, W_ = g.supply_atoms(Q)
                ctx.check(np.array_equal(X, Y) and np.array_equal(Z, W_), "a strained crystal answers a repeated request differently", scaled=scaled)
            s.apply_strain(rng.normal(size=(20, 3)))
    elif tool == "post":
        from czone.transform.post import ChemicalSubstitution, PostSequence
        s = PostSequence([ChemicalSubstitution([6], [7], .5), ChemicalSubstitution([7, 8], [8, 9], .5)])
        s.apply_function(rng.normal(size=(50, 3)), rng.integers(5, 9, 50), seed=4)
        s.apply_function(rng.normal(size=(50, 3)), rng.integers(5, 9, 50).astype(float))
    elif tool == "prefab":
        from czone.prefab.prefab import fccMixedTwinSF, SimpleGrainBoundary
        from czone.generator import Generator
        g = Generator.from_spacegroup([79], np.array([[0, 0, 0]]), [4.078] * 3, [90] * 3, sgn=225)
        v = Volume(alg_objects=[Sphere(9.0, np.zeros(3))])
        fccMixedTwinSF(g, v, ratio=.5, N=1).build_object().populate_atoms()
        SimpleGrainBoundary((1, 0, 0), None, z2=(1, 1, 0), plane=Plane((1, 0, 0), (0, 0, 0)), volume=v, generator=g).build_object()
    elif tool == "wulff":
        from czone.prefab.wulff import WulffSingle
        from czone.generator import Generator
        g = Generator.from_spacegroup([79], np.array([[0, 0, 0]]), [4.078] * 3, [90] * 3, sgn=225)
        w = WulffSingle(g, surface_energies={(1, 1, 1): 1.0, (1, 0, 0): 1.15}, natoms=200)
        w.get_construction()
    elif tool == "amorphous":
        from czone.generator.amorphous_algorithms import gen_p_substrate
        gen_p_substrate(np.array([6., 7., 5.]), min_dist=1.3, density=.05)
    elif tool == "sdist":
        f = get_sdist_fun(np.array([5., 6., 7.]), px=True, py=ctx.chance(.5), pz=ctx.chance(.5))
        A, B = rng.uniform(0, 5, (10, 3, 1)), rng.uniform(0, 5, (1, 3, 8))
        a, b = A.copy(), B.copy()
        f(A, B)
        ctx.check(np.array_equal(A, a) and np.array_equal(B, b), "distance function changed its arguments")
    elif tool == "prism":
        makeRectPrism(1., 2., 3., center=gen.point(ctx))
        Volume(points=makeRectPrism(3., 4., 5.)).get_bounding_box()
    elif tool == "transforms":
        for _ in range(6):
            t, A, k = gen.isometry(ctx)
            t.applyTransformation(rng.normal(size=(10, 3)))
            t.applyTransformation_bases(rng.normal(size=(3, 3)))
            g, cr = gen.crystal(ctx, small=True)
            g.transform(t)
    else:
        import tempfile, os
        w = W.World(ctx)
        w.op_add()
        w.op_populate()
        with tempfile.TemporaryDirectory() as d:
            w.scene.to_file(os.path.join(d, "a.xyz"))
            w.scene.ase_atoms
    ctx.describe(tool=tool, n=ctx.index)
    ctx.observe(1)
