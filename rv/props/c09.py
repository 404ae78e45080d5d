import numpy as np
from .. import core, gen, model as m
from . import _world as W

PROP = "C09"
FAMILIES = []
RULE = ("Random unions (nested up to three levels, any content, coinciding crystals) and random histories on the union and its "
        "members; the populated union is matched with the atoms kept by an independent conflict resolution.")
ASSUMPTIONS = ["atoms within 1e-7 of a deciding boundary are not judged"]
MIN_EVENTS = {"atoms_matched": 15000, "atoms_suppressed": 1500, "unions_judged": 150}


def judge(ctx, e, what="union"):
    X, Z = np.array(e.obj.atoms), np.array(e.obj.species)
    EX, EZ, K, b = e.shadow.candidates(e.tree())
    W.compare_multiset(ctx, X, Z, EX, EZ, K, b, what)
    if len(X):
        mm, bb = e.shadow.margin(X)
        inside = np.asarray(e.obj.checkIfInterior(X))
        ctx.check(not np.any(~inside & (mm < -bb)), what + ": atom is not interior to the union", n=int((~inside).sum()))
        ctx.check(not np.any(mm > bb), what + ": atom outside of the union")
    a = e.obj.ase_atoms
    m.same_rows(ctx, a.get_positions(), a.get_atomic_numbers(), X, Z, what + ": atoms object")
    ctx.event("unions_judged")


def leaves(e):
    return [e] if e.members is None else [x for k in e.members for x in leaves(k)]


@core.family(FAMILIES, 110, 4000, "histories of unions in lockstep with a specification")
def histories(ctx):
    w = W.World(ctx)
    e = w.new("multi")
    w.entries = [e]
    log = []
    for rnd in range(ctx.randint(2, 5)):
        e.obj.populate_atoms()
        judge(ctx, e)
        if ctx.chance(.3):
            X, Z = np.array(e.obj.atoms), np.array(e.obj.species)
            e.obj.populate_atoms()
            m.same_rows(ctx, e.obj.atoms, e.obj.species, X, Z, "repeated population of a union")
            ctx.event("repeated_populations")
        for _ in range(ctx.randint(1, 3)):
            op = ctx.choice(["transform", "member-transform", "priority", "surface", "points", "generator", "add", "copy"])
            log.append(op)
            ctx.event("op:" + op)
            if op == "transform":
                w.op_transform()
            elif op == "member-transform":
                x = ctx.choice(e.members)
                locked = ctx.chance(.6)
                t, A, k = gen.isometry(ctx, locked=locked, scale=4.0)
                x.obj.transform(t)
                x.shadow.transform(A, locked)
            elif op == "priority":
                x = ctx.choice(e.members)
                p = W.priority(ctx)
                x.obj.priority = p
                x.shadow.priority = p
            elif op in ("surface", "points", "generator"):
                getattr(w, "op_" + op)()
            elif op == "add" and len(e.members) < 5:
                new = [W.entry(*W.make_volume(ctx, ctx.rng.uniform(15, 80))) for _ in range(ctx.randint(1, 2))]
                if len(new) == 1:
                    e.obj.add_volume(new[0].obj)
                else:
                    e.obj.add_volume([x.obj for x in new])
                e.members += new
                e.shadow.vols += [x.shadow for x in new]
            elif op == "copy":
                c = w._copy_entry(e, e.obj.from_volume())
                c.obj.populate_atoms()
                judge(ctx, c, "copy of a union")
                ctx.check(c.obj.priority == e.obj.priority, "priority of a copy")
    e.obj.populate_atoms()
    judge(ctx, e)
    ctx.describe(ops=log)


@core.family(FAMILIES, 60, 2000, "all orders and priorities of few members that share one crystal")
def orders(ctx):
    from czone.volume import MultiVolume
    g, cr = gen.crystal(ctx, small=True)
    size = max(gen.size_for(ctx, cr, 120), 2.5)
    n = ctx.randint(2, 4)
    pr = [int(x) for x in ctx.rng.integers(0, ctx.choice([1, 2, 3, 4]), n)]
    same = ctx.chance(.5)
    parts = []
    for i in range(n):
        gi, ci = (g, cr) if same else gen.crystal(ctx, small=True)
        reg = [("sphere", ctx.rng.normal(size=3) * size * .4, size * float(ctx.rng.uniform(.4, 1.)), 1e-5)]
        v = gen.build_volume(ctx, reg, gi, priority=pr[i])
        parts.append(W.entry(v, W.SVol(reg, ci, pr[i])))
    ctx.describe(priorities=pr, same=same)
    ctx.state(tuple(pr))
    first = None
    if ctx.chance(.25):          # a member may be given twice
        parts.append(ctx.choice(parts))
        ctx.event("same_member_twice")
    for _ in range(3):
        es = [parts[i] for i in ctx.rng.permutation(len(parts))]
        mv = MultiVolume([x.obj for x in es])
        mv.populate_atoms()
        e = W.Entry(mv, W.SMulti([x.shadow for x in es], 0))
        e.members = es
        judge(ctx, e, "union of few members")
        if first is None:
            first = np.array(mv.atoms), np.array(mv.species)
        else:
            m.same_rows(ctx, mv.atoms, mv.species, *first, "order of members changed the union")


@core.family(FAMILIES, 24, 600, "unions of many small members")
def many(ctx):
    from czone.volume import MultiVolume
    mem = W.make_crowd(ctx, W.many(ctx))
    if ctx.chance(.4):
        mv = MultiVolume([x.obj for x in mem])
    else:
        mv = MultiVolume()
        k = 0
        while k < len(mem):
            s = ctx.randint(1, 5)
            mv.add_volume([x.obj for x in mem[k:k + s]] if s > 1 else mem[k].obj)
            k += s
    e = W.Entry(mv, W.SMulti([x.shadow for x in mem], 0))
    e.members = mem
    mv.populate_atoms()
    judge(ctx, e, "union of many members")
    t, A, k = gen.isometry(ctx, locked=ctx.chance(.7), scale=5.0)
    mv.transform(t)
    e.shadow.transform(A, t.locked)
    x = ctx.choice(mem)
    x.obj.priority = x.shadow.priority = ctx.randint(-40, 40)
    mv.populate_atoms()
    judge(ctx, e, "union of many members, moved")
    c = W.World(ctx)._copy_entry(e, mv.from_volume())
    c.obj.populate_atoms()
    judge(ctx, c, "copy of a union of many members")
    ctx.describe(members=len(mem))
    ctx.event("many_members")


@core.family(FAMILIES, 6, 150, "members of thousands of atoms, near the origin and far from it")
def large(ctx):
    from czone.volume import MultiVolume
    c = gen.point(ctx, ctx.choice([10., 300., 3000.]))
    mem = [e for e in W.make_large(ctx, ctx.randint(2, 4), ctx.choice([1100, 2100, 4200]), c) if e.shadow.kind != "molecule"]
    if not mem:
        raise core.Skip
    mv = MultiVolume([x.obj for x in mem])
    e = W.Entry(mv, W.SMulti([x.shadow for x in mem], 0))
    e.members = mem
    for rnd in range(2):
        mv.populate_atoms()
        judge(ctx, e, "union of large members")
        t, A, k = gen.isometry(ctx, scale=ctx.choice([10., 500.]))
        mv.transform(t)
        e.shadow.transform(A, True)
        x = ctx.choice(mem)
        x.obj.priority = x.shadow.priority = W.priority(ctx)
    ctx.describe(members=[x.shadow.kind for x in mem], centre=np.round(c, 1), atoms=len(mv.atoms))


@core.family(FAMILIES, 40, 1000, "deep nesting, unions in scenes")
def nested(ctx):
    from czone.scene import Scene
    from czone.volume import MultiVolume

    def build(depth):
        if depth == 0:
            return W.entry(*W.make_volume(ctx, ctx.rng.uniform(15, 60), scale=4.0))
        mem = [build(ctx.randint(0, depth - 1)) for _ in range(ctx.randint(1, 3))]
        p = W.priority(ctx)
        mv = MultiVolume([x.obj for x in mem], priority=p)
        e = W.Entry(mv, W.SMulti([x.shadow for x in mem], p))
        e.members = mem
        return e
    e = build(3)
    if e.members is None:
        raise core.Skip
    ctx.describe(depth=3, leaves=len(leaves(e)))
    e.obj.populate_atoms()
    judge(ctx, e, "nested union")
    # one union alone in a scene contributes exactly its atoms
    X, Z = np.array(e.obj.atoms), np.array(e.obj.species)
    sc = Scene(objects=[e.obj])
    sc.populate()
    m.same_rows(ctx, sc.all_atoms, sc.all_species, X, Z, "scene of one union")
    t, A, k = gen.isometry(ctx, scale=6.0)
    e.obj.transform(t)
    e.shadow.transform(A, True)
    e.obj.populate_atoms()
    judge(ctx, e, "nested union after a transformation")
