import warnings

import numpy as np
from .. import core, gen, model as m
from . import _world as W

PROP = "C08"
FAMILIES = []
RULE = ("Random histories of a scene (additions, copies, transformations, priority changes, surfaces and points added to members, "
        "generators replaced, repeated population) run in lockstep with a specification; after every population the atoms of "
        "the scene are matched with the atoms the specification keeps.")
ASSUMPTIONS = ["molecules claim no space (documented default)",
               "atoms within 1e-7 of a deciding boundary are not judged",
               "for amorphous objects the atoms reported by the object itself are the candidates"]
MIN_EVENTS = {"atoms_matched": 20000, "atoms_suppressed": 3000, "scenes_judged": 200}


def judge_scene(ctx, scene, entries, what="scene"):
    EX, EZ, K, b = W.resolve([e.shadow for e in entries], [e.tree() for e in entries])
    X, Z = np.array(scene.all_atoms), np.array(scene.all_species)
    W.compare_multiset(ctx, X, Z, EX, EZ, K, b, what)
    ctx.event("scenes_judged")
    # contributions of objects
    ctx.check(len(scene.objects) == len(entries) and {id(o) for o in scene.objects} == {id(e.obj) for e in entries},
              what + ": objects of the scene")
    parts = [np.array(scene.species_from_object(i)) for i in range(len(scene.objects))]
    ctx.check(sum(len(p) for p in parts) == len(X), what + ": contributions of objects do not add up")
    m.same_rows(ctx, np.vstack(parts), np.zeros(len(X)), X, np.zeros(len(X)), what + ": contributions of objects")
    a = scene.ase_atoms
    m.same_rows(ctx, a.get_positions(), a.get_atomic_numbers(), X, Z, what + ": atoms object")


class Monitored(W.World):
    def on_populate(self):
        judge_scene(self.ctx, self.scene, self.entries)
        if self.ctx.chance(.25):
            X, Z = np.array(self.scene.all_atoms), np.array(self.scene.all_species)
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                self.scene.populate()
            m.same_rows(self.ctx, self.scene.all_atoms, self.scene.all_species, X, Z, "repeated population")
            self.ctx.event("repeated_populations")


@core.family(FAMILIES, 110, 4000, "random histories in lockstep with a specification")
def histories(ctx):
    W.run(ctx, steps=ctx.randint(5, 14), cls=Monitored)


@core.family(FAMILIES, 50, 1500, "many overlapping objects with few priority levels, in every order of addition")
def crowd(ctx):
    from czone.scene import Scene
    n = ctx.randint(2, 7)
    base = [W.entry(*W.make_volume(ctx, atoms=ctx.rng.uniform(20, 120), scale=3.0)) for _ in range(n)]
    levels = [ctx.choice([[0], [0, 1], [-2, 0, 5], [0, 1, 2, 3], [3], [1, 2]])]
    pr = [int(ctx.choice(levels[0])) for _ in base]
    ctx.describe(priorities=pr)
    for e, p in zip(base, pr):
        e.obj.priority = p
        e.shadow.priority = p
    first = None
    for k in range(3):
        order = ctx.rng.permutation(n)
        es = [base[i] for i in order]
        if k == 0:
            sc = Scene(objects=[e.obj for e in es])
        elif k == 1 and n == 1:
            sc = Scene(objects=es[0].obj)
        else:
            sc = Scene()
            for e in es:
                sc.add_object(e.obj)
        sc.populate()
        judge_scene(ctx, sc, es, "crowded scene")
        if first is None:
            first = np.array(sc.all_atoms), np.array(sc.all_species)
        else:
            m.same_rows(ctx, sc.all_atoms, sc.all_species, *first, "order of addition changed the scene")
            ctx.event("orders_compared")
    ctx.state(n, tuple(sorted(pr)))


@core.family(FAMILIES, 24, 600, "scenes of many small objects")
def many(ctx):
    from czone.scene import Scene
    es = W.make_crowd(ctx, W.many(ctx), molecules=True)
    sc = Scene(objects=[e.obj for e in es])
    for rnd in range(2):
        sc.populate()
        judge_scene(ctx, sc, es, "scene of many objects")
        for e in es:
            if ctx.chance(.3):
                p = ctx.randint(-9, 9)
                e.obj.priority = p
                e.shadow.priority = p
        t, A, k = gen.isometry(ctx, scale=4.0)
        e = ctx.choice(es)
        e.obj.transform(t)
        e.shadow.transform(A, True)
    ctx.describe(objects=len(es), levels=len({e.shadow.priority for e in es}))
    ctx.state(len(es), len({e.shadow.priority for e in es}))
    ctx.event("many_objects")


@core.family(FAMILIES, 6, 150, "objects of thousands of atoms, near the origin and far from it")
def large(ctx):
    from czone.scene import Scene
    c = gen.point(ctx, ctx.choice([10., 300., 3000.]))
    es = W.make_large(ctx, ctx.randint(2, 4), ctx.choice([1100, 2100, 4200]), c)
    sc = Scene(objects=[e.obj for e in es])
    for rnd in range(2):
        sc.populate()
        judge_scene(ctx, sc, es, "scene of large objects")
        e = ctx.choice(es)
        e.obj.priority = e.shadow.priority = W.priority(ctx)
    ctx.describe(objects=[e.shadow.kind for e in es], centre=np.round(c, 1), atoms=len(sc.all_atoms))


@core.family(FAMILIES, 40, 1000, "the same crystal cut into adjoining, overlapping and nested pieces")
def shared_crystal(ctx):
    from czone.scene import Scene
    g, cr = gen.crystal(ctx, small=True)
    cr = gen.place(ctx, g, cr, 1)
    size = max(gen.size_for(ctx, cr, 150), 2.5)
    c = gen.point(ctx, 5)
    es = []
    for i in range(ctx.randint(2, 5)):
        p = int(ctx.choice([0, 1, 2]))
        reg = [("sphere", c + ctx.rng.normal(size=3) * size * ctx.choice([0, .3, .8]), size * float(ctx.rng.uniform(.3, 1.)), 1e-5)]
        if ctx.chance(.5):
            n = gen.vector(ctx)
            reg.append(("plane", n / np.linalg.norm(n), c, 1e-5))
        v = gen.build_volume(ctx, reg, g, priority=p)
        es.append(W.entry(v, W.SVol(reg, cr, p)))
    sc = Scene(objects=[e.obj for e in es])
    for rnd in range(ctx.randint(1, 4)):
        sc.populate()
        judge_scene(ctx, sc, es, "scene with one crystal in several objects")
        e = ctx.choice(es)
        p = int(ctx.choice([0, 1, 2, -1]))
        e.obj.priority = p
        e.shadow.priority = p


@core.family(FAMILIES, 30, 800, "molecules next to volumes: nothing is lost, and molecules yield to volumes")
def molecules(ctx):
    from czone.scene import Scene
    es = [W.entry(*W.make_molecule(ctx)) for _ in range(ctx.randint(1, 3))]
    es += [W.entry(*W.make_volume(ctx, scale=4.0)) for _ in range(ctx.randint(0, 2))]
    es = [es[i] for i in ctx.rng.permutation(len(es))]
    sc = Scene(objects=[e.obj for e in es])
    for rnd in range(ctx.randint(1, 3)):
        sc.populate()
        judge_scene(ctx, sc, es, "scene with molecules")
        e = ctx.choice(es)
        if e.shadow.kind == "molecule":
            t, A, k = gen.isometry(ctx, scale=5.0)
            e.obj.transform(t)
            e.shadow.transform(A, True)
        else:
            p = W.priority(ctx)
            e.obj.priority = p
            e.shadow.priority = p
    ctx.describe(objects=[e.shadow.kind for e in es])
