import numpy as np
from .. import core, gen, model as m

PROP = "C01"
FAMILIES = []
RULE = ("Random crystal (7 lattice kinds; space group, cell or structure source), random history of placements, random "
        "bounded region of 15 kinds near or far from the origin; the atoms of the populated volume are matched one to one "
        "with the sites of an independently enumerated infinite crystal.")
ASSUMPTIONS = ["pymatgen's structure (lattice matrix, fractional coordinates) is the definition of the crystal",
               "sites within 1e-7 of a tolerance-shifted boundary are not judged"]
MIN_EVENTS = {"atoms_matched": 20000, "call:Volume.populate_atoms": 100}


def judge(ctx, v, reg, cr, what):
    lo, hi = gen.region_box(reg)
    EX, EZ = cr.sites(lo, hi)
    Em = m.margin(reg, EX)
    m.compare_sites(ctx, v.atoms, v.species, EX, EZ, Em, m.band_of(reg, EX), what)


def scenario(ctx, kind=None, reg_kind=None, atoms=None, centre=None, source=None):
    g, cr = gen.crystal(ctx, kind, source)
    cr = gen.place(ctx, g, cr)
    size = max(gen.size_for(ctx, cr, atoms or ctx.rng.uniform(40, 900)), 1.5)
    c = gen.point(ctx, 15.0) if centre is None else centre
    reg, rk = gen.bounded_region(ctx, c, size, reg_kind)
    ctx.describe(region=rk, size=round(size, 3), centre=np.round(c, 3))
    ctx.event("regions:" + rk)
    return g, cr, reg


@core.family(FAMILIES, 260, 9000, "random crystal in a random region")
def region(ctx):
    g, cr, reg = scenario(ctx)
    if ctx.chance(.25):
        o = gen.point(ctx)
        from czone.volume import Volume
        v = gen.build_volume(ctx, reg)
        v.add_generator(g, origin=np.array(o))
        cr = cr.with_origin(o)
    else:
        v = gen.build_volume(ctx, reg, g)
    v.populate_atoms()
    judge(ctx, v, reg, cr, "populated volume")


@core.family(FAMILIES, 40, 1200, "regions cut exactly along lattice planes, so that atoms lie on the boundary")
def cleaved(ctx):
    from czone.volume.algebraic import Plane
    g, cr = gen.crystal(ctx, small=True)
    cr = gen.place(ctx, g, cr)
    B = cr.basis
    Binv = np.linalg.inv(B)
    n = [ctx.randint(1, 4) for _ in range(3)]
    start = ctx.rng.integers(-3, 4, 3)
    anchor = cr.frac[ctx.randint(0, len(cr.frac) - 1)]
    lo_f, hi_f = anchor + start, anchor + start + n
    reg = []
    if ctx.chance(.5):
        for i in range(3):
            nn = Binv[i] / np.linalg.norm(Binv[i])
            reg.append(("plane", nn, B @ hi_f + cr.origin, 1e-5))
            reg.append(("plane", -nn, B @ lo_f + cr.origin, 1e-5))
        mode = "planes"
    else:
        cor = np.array([[lo_f[i] if not (k >> i) & 1 else hi_f[i] for i in range(3)] for k in range(8)])
        reg.append(("hull", cor @ B.T + cr.origin, 1e-10))
        mode = "hull"
    ctx.describe(region="cleaved-" + mode, cells=n, start=start)
    v = gen.build_volume(ctx, reg, g)
    v.populate_atoms()
    judge(ctx, v, reg, cr, "cleaved crystal")
    if mode == "planes":
        # closed parallelepiped: number of atoms is known exactly
        cnt = 0
        for f in cr.frac:
            k = 1
            for i in range(3):
                a, b = lo_f[i] - f[i], hi_f[i] - f[i]
                k *= int(np.floor(b + 1e-6) - np.ceil(a - 1e-6) + 1)
            cnt += k
        ctx.check(len(v.atoms) == cnt, "atom count of a cleaved parallelepiped", got=len(v.atoms), expected=cnt)
        ctx.event("cleaved_exact_counts")


@core.family(FAMILIES, 30, 600, "volumes and crystal origins far from the coordinate origin")
def far(ctx):
    c = ctx.rng.uniform(-1, 1, 3) * 10 ** ctx.rng.uniform(1.5, 3.3)
    g, cr, reg = scenario(ctx, centre=c, atoms=ctx.rng.uniform(40, 300))
    if ctx.chance(.6):
        o = c + ctx.rng.uniform(-50, 50, 3) if ctx.chance(.5) else -c
        g.origin = np.array(o)
        cr = cr.with_origin(o)
    v = gen.build_volume(ctx, reg, g)
    v.populate_atoms()
    judge(ctx, v, reg, cr, "far volume")


@core.family(FAMILIES, 30, 600, "repeated population and changes of the region between populations")
def history(ctx):
    g, cr, reg = scenario(ctx, atoms=ctx.rng.uniform(40, 300))
    v = gen.build_volume(ctx, reg, g)
    v.populate_atoms()
    judge(ctx, v, reg, cr, "first population")
    a, s = np.array(v.atoms), np.array(v.species)
    v.populate_atoms()
    ctx.check(np.array_equal(a, v.atoms) and np.array_equal(s, v.species), "repeated population differs")
    c = np.mean([gen.region_box(reg)], axis=1)[0]
    for step in range(ctx.randint(1, 4)):
        op = ctx.choice(["surface", "generator", "transform-generator", "tighten"])
        ctx.event("history:" + op)
        if op in ("surface", "tighten"):
            n = gen.vector(ctx)
            n = n / np.linalg.norm(n)
            sp = ("plane", n, c + n * ctx.rng.uniform(0, 3), 1e-5) if op == "surface" else \
                 ("sphere", c + ctx.rng.normal(size=3), float(ctx.rng.uniform(3, 8)), 1e-5)
            v.add_alg_object(gen.build_alg(sp, ctx))
            reg = reg + [sp]
        elif op == "generator":
            g, cr = gen.crystal(ctx)
            cr = gen.place(ctx, g, cr)
            v.add_generator(g)
        else:
            t, A, k = gen.isometry(ctx)
            v.generator.transform(t)
            cr = cr.moved(A)
        v.populate_atoms()
        judge(ctx, v, reg, cr, "population after " + op)


@core.family(FAMILIES, 60, 1800, "few sites, and supplies of a given number of sites")
def counted(ctx):
    """The supply is the list of sites of a crystal, cut to a given length; big and tiny counts, all in, all out, one."""
    from czone.generator.generator import BaseGenerator

    class Listed(BaseGenerator):
        def __init__(self, X, Z):
            self.X, self.Z = X, Z

        def supply_atoms(self, bbox):
            return np.array(self.X), np.array(self.Z)

        def transform(self, t):
            self.X = t.applyTransformation(self.X)
    g, cr = gen.crystal(ctx, small=True)
    cr = gen.place(ctx, g, cr)
    n = ctx.choice([0, 1, 1, 2, 3, 7, 64, 99, 100, 101, 128, 255, 256, 257, 499, 500, 501, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2001, 4097,
                    10001]) if ctx.chance(.7) else ctx.randint(0, 3000)
    c = gen.point(ctx, 15.)
    r = max(1.5, gen.size_for(ctx, cr, max(n, 4)))
    EX, EZ = cr.sites(c - r, c + r)
    while len(EX) < n:
        r *= 1.2
        EX, EZ = cr.sites(c - r, c + r)
    k = ctx.rng.permutation(len(EX))[:n]
    EX, EZ = EX[k], EZ[k]
    reg, rk = gen.bounded_region(ctx, c + (0 if ctx.chance(.8) else r * 4), r * float(ctx.rng.uniform(.3, 1.5)))
    v = gen.build_volume(ctx, reg, Listed(EX, EZ))
    v.populate_atoms()
    Em = m.margin(reg, EX) if n else np.zeros(0)
    b = m.band_of(reg, EX) if n else m.BAND
    m.compare_sites(ctx, np.asarray(v.atoms).reshape(-1, 3), v.species, EX, EZ, Em, b, f"volume with {n} supplied sites")
    ctx.event("counted_supplies")
    ctx.describe(region=rk, n=n, c=np.round(c, 2), size=round(r, 2))


@core.family(FAMILIES, 5, 120, "tens of thousands of atoms")
def large(ctx):
    g, cr, reg = scenario(ctx, atoms=ctx.rng.choice([6e3, 12e3, 25e3, 45e3]), centre=gen.point(ctx, ctx.choice([15., 400.])))
    v = gen.build_volume(ctx, reg, g)
    v.populate_atoms()
    judge(ctx, v, reg, cr, "large volume")
    ctx.event("large_volumes")


@core.family(FAMILIES, 50, 1500, "volumes about the size of a cell")
def tiny(ctx):
    g, cr, reg = scenario(ctx, atoms=ctx.rng.uniform(.2, 6))
    v = gen.build_volume(ctx, reg, g)
    v.populate_atoms()
    judge(ctx, v, reg, cr, "tiny volume")
    ctx.event("tiny_volumes")
