import numpy as np
from .. import core, gen, model as m
from . import _world as W
from .c03 import test_points

PROP = "C04"
FAMILIES = []
RULE = ("Random volumes and unions with any content, random sequences of isometries (locked and unlocked, single and nested "
        "sequences, in place or through copies); interior tests are compared with those of the pre-images, atoms with the moved "
        "(locked) or resting (unlocked) crystal.")
ASSUMPTIONS = ["transformations of volumes are isometries (general matrices are defined for planes and points only)",
               "the members of a sequence share their locked flag; basis-only transformations are for generators",
               "atoms within 1e-7 of the boundary are not judged"]
MIN_EVENTS = {"points_judged": 30000, "atoms_matched": 15000}


def judge_points(ctx, e, P0, M0, A, what):
    """P0: points with margins M0 before; the region was moved by A since."""
    P = m.act(A, P0)
    b = max(m.BAND * max(1.0, np.max(np.abs(P)) / 100), e.shadow.margin(P0)[1])
    got = np.asarray(e.obj.checkIfInterior(P))
    bad = (got & (M0 > b)) | (~got & (M0 < -b))
    ctx.check(not bad.any(), what + ": interior test of moved points", n=int(bad.sum()), of=len(P), X=P[bad][:3])
    ctx.observe(len(P))
    ctx.event("points_judged", len(P))


def judge_atoms(ctx, e, what):
    e.obj.populate_atoms()
    X, Z, K, b = e.shadow.candidates(e.tree())
    W.compare_multiset(ctx, e.obj.atoms, e.obj.species, X, Z, K, b, what)


def probe_points(ctx, e):
    P = []
    for v in e.shadow.volumes():
        c = np.mean(gen.region_box(v.region), axis=0)
        P.append(test_points(ctx, v.region, c, 5., 60))
    P = np.vstack(P)
    return P, e.shadow.margin(P)[0]


def new(ctx):
    if ctx.chance(.3):
        return W.entry(*W.make_multi(ctx))
    return W.entry(*W.make_volume(ctx))


@core.family(FAMILIES, 200, 8000, "sequences of transformations in place")
def sequences(ctx):
    e = new(ctx)
    P, M0 = probe_points(ctx, e)
    A = np.eye(4)
    log = []
    judge_atoms(ctx, e, "before")
    for i in range(ctx.randint(1, 6)):
        locked = ctx.chance(.7)
        t, B, k = gen.isometry(ctx, locked=locked)
        e.obj.transform(t)
        e.shadow.transform(B, locked)
        A = B @ A
        log.append(k + ("" if locked else "/unlocked"))
        if ctx.chance(.5):
            judge_points(ctx, e, P, M0, A, "after " + k)
    judge_points(ctx, e, P, M0, A, "after the sequence")
    judge_atoms(ctx, e, "atoms after the sequence")
    ctx.describe(ops=log, kind=e.shadow.kind)


@core.family(FAMILIES, 20, 500, "unions of many members, long sequences")
def many(ctx):
    from czone.volume import MultiVolume
    mem = W.make_crowd(ctx, W.many(ctx), atoms=15, spread=ctx.choice([3., 12.]))
    mv = MultiVolume([x.obj for x in mem])
    e = W.Entry(mv, W.SMulti([x.shadow for x in mem], 0))
    e.members = mem
    P, M0 = probe_points(ctx, e)
    ctx.describe(members=len(mem))
    ctx.event("many_members")
    A = np.eye(4)
    for i in range(ctx.choice([1, 4, 12, 30])):
        t, B, k = gen.isometry(ctx, locked=True, scale=2.0)
        mv.transform(t)
        e.shadow.transform(B, True)
        A = B @ A
        if np.linalg.norm(A[:3, 3]) > 40:
            from czone.transform import Translation
            s = -A[:3, 3]
            mv.transform(Translation(s))
            B = m.affine(None, s)
            e.shadow.transform(B, True)
            A = B @ A
    judge_points(ctx, e, P, M0, A, "union of many members")
    judge_atoms(ctx, e, "atoms of a union of many members")


@core.family(FAMILIES, 6, 150, "objects of thousands of atoms, near the origin and far from it")
def large(ctx):
    e = W.make_large(ctx, 1, ctx.choice([2100, 5200]), gen.point(ctx, ctx.choice([10., 1000.])))[0]
    if e.shadow.kind == "molecule":
        raise core.Skip
    P, M0 = probe_points(ctx, e)
    A = np.eye(4)
    for i in range(ctx.randint(1, 4)):
        locked = ctx.chance(.8)
        t, B, k = gen.isometry(ctx, locked=locked, scale=ctx.choice([10., 10., 400.]) if locked else 5.)
        e.obj.transform(t)
        e.shadow.transform(B, locked)
        A = B @ A
    judge_points(ctx, e, P, M0, A, "large object")
    judge_atoms(ctx, e, "atoms of a large object")
    ctx.describe(kind=e.shadow.kind, atoms=len(e.obj.atoms))


@core.family(FAMILIES, 80, 2500, "copies made with transformations; the original stays")
def copies(ctx):
    e = new(ctx)
    P, M0 = probe_points(ctx, e)
    ts, A, log = [], np.eye(4), []
    for _ in range(ctx.randint(1, 4)):
        locked = ctx.chance(.75)
        t, B, k = gen.isometry(ctx, locked=locked)
        ts.append(t)
        A = B @ A
        log.append((k, B, locked))
    w = W.World(ctx)
    o = e.obj.from_volume(transformation=ts)
    c = w._copy_entry(e, o)
    for _, B, locked in log:
        c.shadow.transform(B, locked)
    log = [k + ("" if locked else "/unlocked") for k, _, locked in log]
    judge_points(ctx, c, P, M0, A, "copy")
    judge_atoms(ctx, c, "atoms of the copy")
    judge_points(ctx, e, P, M0, np.eye(4), "original")
    judge_atoms(ctx, e, "atoms of the original")
    ctx.describe(ops=log, kind=e.shadow.kind)


@core.family(FAMILIES, 60, 2000, "populated atoms before and after: same atoms, moved")
def moved_atoms(ctx):
    e = W.entry(*W.make_volume(ctx, content="crystal"))
    v = e.obj
    v.populate_atoms()
    X, Z = np.array(v.atoms), np.array(v.species)
    t, A, k = gen.isometry(ctx)
    v.transform(t)
    v.populate_atoms()
    reg = e.shadow.region
    Ainv = np.linalg.inv(A)

    def on_edge(Y, back):
        mm = m.margin(reg, m.act(Ainv, Y) if back else Y)
        return np.abs(mm) < 1e-6
    k1, k2 = ~on_edge(X, False), ~on_edge(np.array(v.atoms), True)
    m.same_atoms(ctx, m.act(A, X[k1]), Z[k1], np.array(v.atoms)[k2], np.array(v.species)[k2], "atoms moved by " + k)
    ctx.event("atoms_matched", len(X))
    # there and back again
    from czone.transform import MatrixTransform, Translation
    v.transform(MatrixTransform(matrix=Ainv[:3, :3].copy()))
    v.transform(Translation(Ainv[:3, 3]))
    v.populate_atoms()
    Y = np.array(v.atoms)
    k2 = np.abs(m.margin(reg, Y)) >= 1e-6 if len(Y) else np.zeros(0, bool)
    m.same_atoms(ctx, Y[k2], np.array(v.species)[k2], X[k1], Z[k1], "there and back")
    ctx.describe(op=k)


@core.family(FAMILIES, 40, 1200, "reused amorphous blocks and empty content move with their volume")
def other_content(ctx):
    from czone.generator import AmorphousGenerator, NullGenerator
    c, size = gen.point(ctx, 8.), float(ctx.rng.uniform(3, 6))
    reg, rk = gen.bounded_region(ctx, c, size)
    if ctx.chance(.75):
        g = AmorphousGenerator(min_dist=1.3, density=.04, species=int(ctx.choice([6, 14, 32])),
                               origin=None if ctx.chance(.5) else gen.point(ctx))
        v = gen.build_volume(ctx, reg, g)
        v.populate_atoms()
        v.generator.use_old_result = True
        X, Z = np.array(v.atoms), np.array(v.species)
        A = np.eye(4)
        log = []
        for _ in range(ctx.randint(1, 4)):
            t, B, k = gen.isometry(ctx)
            v.transform(t)
            A = B @ A
            log.append(k)
        v.populate_atoms()
        Ai = np.linalg.inv(A)
        k1 = np.abs(m.margin(reg, X)) > 1e-6 if len(X) else np.zeros(0, bool)
        Y = np.array(v.atoms)
        k2 = np.abs(m.margin(reg, m.act(Ai, Y))) > 1e-6 if len(Y) else np.zeros(0, bool)
        m.same_atoms(ctx, Y[k2], np.array(v.species)[k2], m.act(A, X[k1]), Z[k1], "reused amorphous block")
        ctx.event("atoms_matched", len(X))
        # unlocked: the block stays
        t, B, k = gen.isometry(ctx, locked=False, scale=2.0)
        P = np.array(v.generator.old_result[0])
        v.transform(t)
        ctx.check(np.array_equal(P, v.generator.old_result[0]), "unlocked transformation moved the amorphous block")
        ctx.describe(ops=log, region=rk, content="amorphous")
    else:
        g = NullGenerator()
        v = gen.build_volume(ctx, reg, g)
        t, A, k = gen.isometry(ctx)
        v.transform(t)
        v.populate_atoms()
        ctx.check(np.shape(v.atoms) == (0, 3) and len(v.species) == 0, "empty volume has atoms")
        P = test_points(ctx, reg, c, size)
        mm = m.margin(reg, P)
        got = v.checkIfInterior(m.act(A, P))
        b = m.band_of(reg, m.act(A, P)) + m.slack(reg)
        ctx.check(not np.any((got & (mm > b)) | (~got & (mm < -b))), "interior test of an empty volume")
        ctx.observe(len(P))
        ctx.describe(op=k, region=rk, content="null")


@core.family(FAMILIES, 40, 1200, "crystal placements alone: generators and copies of generators")
def generators(ctx):
    g, cr = gen.crystal(ctx)
    log = []
    for _ in range(ctx.randint(1, 5)):
        how = ctx.choice(["copy", "in place", "in place", "copy by all"])
        ts = []
        for _ in range(ctx.randint(2, 4) if how == "copy by all" else 1):
            bo = ctx.chance(.25)
            t, A, k = gen.isometry(ctx, basis_only=bo)
            ts.append(t)
            cr = cr.moved_basis_only(A[:3, :3]) if bo else cr.moved(A)
            log.append(k + ("/basis" if bo else ""))
        if how == "in place":
            g.transform(t)
        else:
            g = g.from_generator(transformation=ts)
    ctx.close(g.voxel.sbases, cr.basis, 1e-8, "basis of a moved generator")
    ctx.close(g.origin, cr.origin, 1e-7, "origin of a moved generator")
    reg = [("sphere", gen.point(ctx), max(2., gen.size_for(ctx, cr, 100)), 1e-5)]
    v = gen.build_volume(ctx, reg, g)
    v.populate_atoms()
    X, Z = cr.sites(*gen.region_box(reg))
    m.compare_sites(ctx, v.atoms, v.species, X, Z, m.margin(reg, X), m.band_of(reg, X), "atoms of a moved generator")
    ctx.describe(ops=log)
