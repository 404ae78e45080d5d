"""Lockstep model of scenes: every operation on the real objects is mirrored on a specification."""
import warnings

import numpy as np

from .. import core, gen, model as m


class SVol:
    """Shadow of a Volume."""
    kind = "volume"

    def __init__(self, region, crystal, priority, content="crystal"):
        self.region, self.crystal, self.priority, self.content = list(region), crystal, priority, content

    def copy(self):
        return SVol(self.region, self.crystal, self.priority, self.content)

    def transform(self, A, locked):
        self.region = [m.move(s, A) for s in self.region]
        if locked and self.crystal is not None:
            self.crystal = self.crystal.moved(A)

    def margin(self, X):
        return m.margin(self.region, X), m.band_of(self.region, X)

    def candidates(self, obj):
        """positions, elements, keep margin (negative: kept), band"""
        if self.content == "null":
            return np.zeros((0, 3)), np.zeros(0, int), np.zeros(0), m.BAND
        if self.content == "amorphous":
            X = np.array(obj.atoms, float)
            return X, np.array(obj.species).astype(int), np.full(len(X), -np.inf), m.BAND
        lo, hi = gen.region_box(self.region)
        X, Z = self.crystal.sites(lo, hi)
        k = m.margin(self.region, X)
        b = m.band_of(self.region, X)
        keep = k < b
        return X[keep], Z[keep], k[keep], b

    def volumes(self):
        return [self]


class SMulti:
    kind = "multi"

    def __init__(self, vols, priority):
        self.vols, self.priority = list(vols), priority

    def copy(self):
        return SMulti([v.copy() for v in self.vols], self.priority)

    def transform(self, A, locked):
        for v in self.vols:
            v.transform(A, locked)

    def margin(self, X):
        M, B = np.full(len(X), np.inf), m.BAND
        for v in self.vols:
            mm, b = v.margin(X)
            M, B = np.minimum(M, mm), max(B, b)
        return M, B

    def candidates(self, obj):
        """obj: list of real members in the order of self.vols"""
        return resolve(self.vols, obj)

    def volumes(self):
        return [x for v in self.vols for x in v.volumes()]


class SMol:
    kind = "molecule"

    def __init__(self, X, Z, priority):
        self.X, self.Z, self.priority = np.array(X, float), np.array(Z), priority

    def copy(self):
        return SMol(self.X, self.Z, self.priority)

    def transform(self, A, locked):
        self.X = m.act(A, self.X)

    def margin(self, X):
        return np.full(len(X), np.inf), m.BAND

    def candidates(self, obj):
        return self.X, self.Z, np.full(len(self.X), -np.inf), m.BAND

    def volumes(self):
        return []


def resolve(shadows, objs):
    """Conflict resolution by priority, from its definition: an atom stays unless another object of the same or a
    lower priority number claims its place."""
    XX, ZZ, KK, BB = [np.zeros((0, 3))], [np.zeros(0, int)], [np.zeros(0)], m.BAND
    for i, (s, o) in enumerate(zip(shadows, objs)):
        X, Z, K, b = s.candidates(o)
        K = np.array(K)
        for j, t in enumerate(shadows):
            if i != j and t.priority <= s.priority and len(X):
                mm, bb = t.margin(X)
                K = np.maximum(K, -mm)
                b = max(b, bb)
        XX.append(X)
        ZZ.append(Z)
        KK.append(K)
        BB = max(BB, b)
    return np.vstack(XX), np.concatenate(ZZ), np.concatenate(KK), BB


def compare_multiset(ctx, X, Z, EX, EZ, K, band, what):
    """Found atoms against candidates (possibly coinciding) with keep margins."""
    from scipy.spatial import cKDTree
    X = np.asarray(X, float)
    Z = np.asarray(Z)
    ctx.check(X.ndim == 2 and X.shape[1] == 3 and Z.shape == (len(X),), what + ": shape", shapes=[X.shape, Z.shape])
    sure, may = K < -band, K < band
    lab = np.arange(len(EX))
    if len(EX):
        tree = cKDTree(EX)
        for a, b in tree.query_pairs(1e-5):
            ra, rb = lab[a], lab[b]
            if ra != rb:
                lab[lab == max(ra, rb)] = min(ra, rb)
    cnt = {}
    if len(X):
        if not len(EX):
            ctx.fail(what + ": atoms where none are expected", X=X[:3])
        d, i = tree.query(X)
        bad = d > 1e-5
        ctx.check(not bad.any(), what + ": atom that belongs to no object", n=int(bad.sum()), of=len(X), X=X[bad][:3])
        for l, z in zip(lab[i], Z):
            cnt[(int(l), int(z))] = cnt.get((int(l), int(z)), 0) + 1
    ns, nm = {}, {}
    for l, z, s, y in zip(lab, EZ, sure, may):
        k = (int(l), int(z))
        ns[k] = ns.get(k, 0) + bool(s)
        nm[k] = nm.get(k, 0) + bool(y)
    over = [k for k, c in cnt.items() if c > nm.get(k, 0)]
    ctx.check(not over, what + ": atoms that should not be there", n=len(over), of=len(X),
              X=[EX[k[0]] for k in over[:3]], Z=[k[1] for k in over[:3]],
              margin=[K[k[0]] for k in over[:3]])
    miss = [k for k, c in ns.items() if c > cnt.get(k, 0)]
    ctx.check(not miss, what + ": atoms are missing", n=len(miss), of=int(sure.sum()), X=[EX[k[0]] for k in miss[:3]],
              Z=[k[1] for k in miss[:3]], margin=[K[k[0]] for k in miss[:3]])
    ctx.observe(len(X))
    ctx.event("atoms_matched", len(X))
    ctx.event("atoms_suppressed", int((K > band).sum()))
    ctx.event("boundary_sites_undecided", int((may & ~sure).sum()))


# ------------------------------------------------------------------------------ random objects
PRIORITIES = [0, 0, 0, 1, 1, 2, -1, -3, 7, 100]


def priority(ctx):
    return int(ctx.choice(PRIORITIES))


def make_volume(ctx, atoms=None, scale=7.0, content=None, crystal=None, largest=12.0):
    from czone.generator import AmorphousGenerator, NullGenerator
    p = priority(ctx)
    content = content or ctx.choice(["crystal"] * 8 + ["null", "amorphous"])
    c = gen.point(ctx, scale)
    cr = None
    if content == "crystal":
        if crystal is None:
            g, cr = gen.crystal(ctx, small=True)
            cr = gen.place(ctx, g, cr, ctx.randint(0, 1))
        else:
            g, cr = crystal
        size = min(largest, max(gen.size_for(ctx, cr, atoms or ctx.rng.uniform(20, 220)), 2.0))
    elif content == "null":
        g, size = NullGenerator(), ctx.rng.uniform(2, 6)
    else:
        g = AmorphousGenerator(min_dist=1.2, density=float(ctx.rng.uniform(.02, .06)), species=int(ctx.choice([6, 14])))
        size = ctx.rng.uniform(3, 5)
    reg, rk = gen.bounded_region(ctx, c, size)
    reg = [s if s[0] == "hull" else s[:-1] + (1e-5,) for s in reg]
    v = gen.build_volume(ctx, reg, g, priority=p)
    ctx.event("objects:" + content)
    return v, SVol(reg, cr, p, content)


def make_multi(ctx, depth=0, atoms=None):
    from czone.volume import MultiVolume
    n = ctx.randint(1, 3)
    objs, shs = [], []
    crystal = None
    for _ in range(n):
        if depth < 1 and ctx.chance(.25):
            o, s = make_multi(ctx, depth + 1, atoms)
        else:
            o, s = make_volume(ctx, atoms or ctx.rng.uniform(15, 90), crystal=crystal, content=None if ctx.chance(.3) else "crystal")
        if ctx.chance(.3) and s.kind == "volume" and s.content == "crystal":
            crystal = (o.generator, s.crystal)     # next member carries the same crystal: coinciding sites
        objs.append(o)
        shs.append(s)
    p = priority(ctx)
    if ctx.chance(.5):
        mv = MultiVolume(volumes=list(objs), priority=p)
    else:
        mv = MultiVolume()
        for o in objs:
            mv.add_volume(o)
        mv.priority = p
    sh = SMulti(shs, p)
    ctx.event("objects:multi")
    return mv, sh


def make_crowd(ctx, n, atoms=25, spread=4.0, levels=None, molecules=False):
    """n small particles of few crystals close together; entries with their shadows."""
    pool = []
    for _ in range(ctx.randint(1, 3)):
        g, cr = gen.crystal(ctx, small=True)
        pool.append((g, gen.place(ctx, g, cr, 1)))
    levels = levels or ctx.choice([[0], [0, 1], list(range(-n, n)), [-5, 0, 0, 3, 1000]])
    out = []
    for _ in range(n):
        p = int(ctx.choice(levels))
        if molecules and ctx.chance(.15):
            e = entry(*make_molecule(ctx))
            e.obj.priority = p
            e.shadow.priority = p
        else:
            g, cr = ctx.choice(pool)
            size = min(6., max(gen.size_for(ctx, cr, atoms), 1.5))
            reg, rk = gen.bounded_region(ctx, ctx.rng.normal(size=3) * spread, size, ctx.choice(["sphere", "box", None]))
            reg = [s if s[0] == "hull" else s[:-1] + (1e-5,) for s in reg]
            e = entry(gen.build_volume(ctx, reg, g, priority=p), SVol(reg, cr, p))
            ctx.event("objects:crystal")
        out.append(e)
    return out


def make_large(ctx, n, atoms, centre):
    """n volumes, unions and molecules of many atoms each, close together and around centre; entries with their shadows."""
    from czone.transform import Translation
    out = []
    for _ in range(n):
        k = ctx.choice(["volume", "volume", "molecule", "multi"])
        if k == "molecule":
            from czone.molecule.molecule import Molecule
            N = int(atoms)
            X, Z = ctx.rng.uniform(-12, 12, (N, 3)), ctx.rng.integers(1, 60, N)
            mol = Molecule(Z, X)
            mol.print_warnings = False
            p = priority(ctx)
            mol.priority = p
            e = entry(mol, SMol(X, Z, p))
            ctx.event("objects:molecule")
        elif k == "multi":
            from czone.volume import MultiVolume
            mem = [make_volume(ctx, atoms / 2, scale=6., content="crystal", largest=40.) for _ in range(2)]
            p = priority(ctx)
            e = entry(MultiVolume([x[0] for x in mem], priority=p), SMulti([x[1] for x in mem], p))
            ctx.event("objects:multi")
        else:
            e = entry(*make_volume(ctx, atoms, scale=6., content="crystal", largest=40.))
        e.obj.transform(Translation(centre))
        e.shadow.transform(m.affine(None, centre), True)
        out.append(e)
    ctx.event("large_objects", n)
    return out


def many(ctx):
    """A number of objects beyond the usual."""
    return ctx.choice([6, 9, 10, 13, 17, 20, 26, 33])


def make_molecule(ctx):
    from czone.molecule.molecule import Molecule
    n = ctx.randint(1, 12) if ctx.chance(.97) else ctx.choice([65, 129, 257, 1025])
    X = gen.point(ctx, 7.0) + ctx.rng.normal(size=(n, 3)) * 2
    Z = ctx.rng.integers(1, 60, n)
    if n > 1 and ctx.chance(.15):        # sites shared by several atoms
        k = ctx.rng.integers(0, n, ctx.randint(1, 3))
        X, Z = np.vstack([X, X[k]]), np.append(Z, Z[k] if ctx.chance(.5) else ctx.rng.integers(1, 60, len(k)))
        ctx.event("shared_sites")
    mol = Molecule(Z, X)
    mol.print_warnings = False
    p = priority(ctx)
    mol.priority = p
    ctx.event("objects:molecule")
    return mol, SMol(X, Z, p)


def members(real, shadow):
    """Real members in the order of shadow.vols (recorded when the union was made)."""
    if shadow.kind == "multi":
        return [members(r, s) for r, s in zip(real["members"], shadow.vols)]
    return real["obj"]


class Entry:
    """A real object (with its members, in order of insertion) and its shadow."""

    def __init__(self, obj, shadow):
        self.obj, self.shadow = obj, shadow
        self.members = None

    def tree(self):
        if self.shadow.kind == "multi":
            return [e.tree() for e in self.members]
        return self.obj


def entry(obj, shadow):
    """volumes of a union are listed in the order they were added as long as nothing was populated"""
    e = Entry(obj, shadow)
    if shadow.kind == "multi":
        e.members = [entry(o, s) for o, s in zip(list(obj.volumes), shadow.vols)]
    return e


class World:
    def __init__(self, ctx, kinds=("volume", "volume", "multi", "molecule")):
        from czone.scene import Scene
        self.ctx = ctx
        self.kinds = kinds
        self.scene = Scene(bounds=np.array([[0., 0, 0], [20, 20, 20]]))
        self.entries = []
        self.populated = False
        self.log = []

    def new(self, kind=None):
        k = kind or self.ctx.choice(self.kinds)
        o, s = make_volume(self.ctx) if k == "volume" else make_multi(self.ctx) if k == "multi" else make_molecule(self.ctx)
        return entry(o, s)

    def add(self, e):
        self.scene.add_object(e.obj)
        self.entries.append(e)
        self.populated = False

    # ------------------------------------------------------------------ operations
    def step(self):
        ctx = self.ctx
        ops = ["populate", "populate"]
        if len(self.entries) < 5:
            ops += ["add", "add"]
        if self.entries:
            ops += ["transform", "transform", "priority", "surface", "points", "copy", "query", "generator"]
        op = ctx.choice(ops)
        if not self.entries:
            op = "add"
        ctx.event("op:" + op)
        self.log.append(op)
        getattr(self, "op_" + op)()

    def op_add(self):
        self.add(self.new())

    def pick(self):
        return self.ctx.choice(self.entries)

    def op_transform(self):
        e = self.pick()
        locked = self.ctx.chance(.75)
        t, A, k = gen.isometry(self.ctx, locked=locked, scale=6.0)
        e.obj.transform(t)
        e.shadow.transform(A, locked)
        self.populated = False
        # keep the world together
        c = self.centre(e.shadow)
        if c is not None and np.linalg.norm(c) > 25:
            from czone.transform import Translation
            e.obj.transform(Translation(-c))
            e.shadow.transform(m.affine(None, -c), True)

    def centre(self, s):
        if s.kind == "molecule":
            return s.X.mean(axis=0)
        vs = s.volumes()
        return np.mean([np.mean(gen.region_box(v.region), axis=0) for v in vs], axis=0)

    def op_priority(self):
        e = self.pick()
        if e.shadow.kind == "multi" and self.ctx.chance(.5):
            e = self.ctx.choice(e.members)
        p = priority(self.ctx)
        e.obj.priority = p
        e.shadow.priority = p
        self.populated = False

    def leaf(self):
        e = self.pick()
        while e.shadow.kind == "multi":
            e = self.ctx.choice(e.members)
        return e if e.shadow.kind == "volume" else None

    def op_surface(self):
        e = self.leaf()
        if e is None:
            return
        ctx = self.ctx
        c = self.centre(e.shadow)
        n = gen.vector(ctx)
        n = n / np.linalg.norm(n)
        sp = ("plane", n, c + n * ctx.rng.uniform(0, 3), 1e-5) if ctx.chance(.6) else \
             ("sphere", c + ctx.rng.normal(size=3), float(ctx.rng.uniform(4, 9)), 1e-5)
        o = gen.build_alg(sp, ctx)
        e.obj.add_alg_object(o)
        e.shadow.region.append(sp)
        self.populated = False

    def op_points(self):
        e = self.leaf()
        if e is None:
            return
        ctx = self.ctx
        hulls = [i for i, s in enumerate(e.shadow.region) if s[0] == "hull"]
        c = self.centre(e.shadow)
        if hulls and ctx.chance(.6):
            i = hulls[0]
            new = c + ctx.rng.normal(size=(ctx.randint(1, 3), 3)) * 4
            e.obj.addPoints(np.array(new[0] if ctx.chance(.3) else new))
            used = len(e.obj.points) - len(e.shadow.region[i][1])
            ctx.check(used in (1, len(new)), "points added", n=used)
            new = new[:used]
            e.shadow.region[i] = ("hull", np.vstack([e.shadow.region[i][1], new]), 1e-10)
        else:
            pts = c + ctx.rng.normal(size=(ctx.randint(5, 10), 3)) * 5
            e.obj.points = np.array(pts)
            e.shadow.region = [s for s in e.shadow.region if s[0] != "hull"] + [("hull", pts, 1e-10)]
        self.populated = False

    def op_generator(self):
        e = self.leaf()
        if e is None:
            return
        g, cr = gen.crystal(self.ctx, small=True)
        e.obj.add_generator(g)
        e.shadow.crystal, e.shadow.content = cr, "crystal"
        if len(cr.Z) / cr.cell_volume() * np.prod(np.subtract(*gen.region_box(e.shadow.region)[::-1])) > 4000:
            self.op_shrink(e)
        self.populated = False

    def op_shrink(self, e):
        c = self.centre(e.shadow)
        sp = ("sphere", c, 6.0, 1e-5)
        e.obj.add_alg_object(gen.build_alg(sp))
        e.shadow.region.append(sp)

    def op_copy(self):
        if len(self.entries) >= 6:
            return
        ctx = self.ctx
        e = self.pick()
        ts, A = [], np.eye(4)
        for _ in range(ctx.randint(0, 2)):
            t, B, k = gen.isometry(ctx, scale=5.0)
            ts.append(t)
            A = B @ A
        sh = e.shadow.copy()
        kw = dict(transformation=ts) if ts or ctx.chance(.5) else {}
        if e.shadow.kind == "molecule":
            o = e.obj.from_molecule(**kw)
            o.print_warnings = False
        else:
            o = e.obj.from_volume(**kw)
        if sh.kind == "multi":
            # order of the members of a copy: the current order of the original
            order = [list(map(id, e.obj.volumes)).index(id(x.obj)) for x in e.members]
            ne = self._copy_entry(e, o)
        else:
            ne = Entry(o, sh)
        ne.shadow.transform(A, True)
        self.add(ne)

    def _copy_entry(self, e, o):
        if e.shadow.kind != "multi":
            return Entry(o, e.shadow.copy())
        pos = {id(v): i for i, v in enumerate(e.obj.volumes)}
        mem = [self._copy_entry(x, o.volumes[pos[id(x.obj)]]) for x in e.members]
        sh = SMulti([x.shadow for x in mem], e.shadow.priority)
        ne = Entry(o, sh)
        ne.members = mem
        return ne

    def op_query(self):
        e = self.pick()
        if e.shadow.kind == "molecule":
            return
        ctx = self.ctx
        lo, hi = np.full(3, -15.), np.full(3, 15.)
        X = ctx.rng.uniform(lo, hi, (200, 3))
        got = e.obj.checkIfInterior(np.array(X))
        mm, b = e.shadow.margin(X)
        ctx.check(not np.any(got & (mm > b)) and not np.any(~got & (mm < -b)), "interior test of an object in a scene",
                  n=[int((got & (mm > b)).sum()), int((~got & (mm < -b)).sum())], kind=e.shadow.kind)
        ctx.observe(int((np.abs(mm) > b).sum()))

    def op_populate(self):
        if not self.entries:
            return
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            self.scene.populate()
        self.populated = True
        self.on_populate()

    def on_populate(self):
        pass

    def expected(self):
        return resolve([e.shadow for e in self.entries], [e.tree() for e in self.entries])


def run(ctx, steps=8, kinds=("volume", "volume", "multi", "molecule"), cls=World):
    w = cls(ctx, kinds)
    w.op_add()
    for _ in range(steps):
        w.step()
    w.op_populate()
    ctx.describe(ops=w.log)
    return w
