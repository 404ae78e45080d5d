import numpy as np
from .. import core, gen, model as m, probes

PROP = "C02"
FAMILIES = []
RULE = ("Random crystal and history of placements; random sets of 4-14 points (also needles, sheets, tiny and remote ones): "
        "the atoms supplied are matched with the independently enumerated infinite crystal. Symmetry data: all 230 numbers and "
        "the symbols known to pymatgen, orbits recomputed from the operations. Scenarios: every supply_atoms call made while "
        "volumes, unions and scenes are populated is judged online.")
ASSUMPTIONS = ["pymatgen's structure and symmetry operations define the crystal",
               "sites within 1e-7 of the boundary of the requested hull need not be supplied, unless they are points of the closed hull by construction"]
MIN_EVENTS = {"atoms_supplied": 50000, "sites_required": 10000}


def judge(ctx, g, cr, pts, X, Z, what="supplied atoms"):
    X = np.asarray(X, float)
    Z = np.asarray(Z)
    ctx.check(X.ndim == 2 and X.shape[1] == 3 and Z.shape == (len(X),), what + ": shape", shapes=[X.shape, Z.shape])
    ctx.check(np.all(np.isfinite(X)), what + ": positions not finite")
    ctx.check(m.duplicates(X) == 0, what + ": site returned twice", n=m.duplicates(X))
    idx, cell = cr.is_site(X, m.SITE_TOL * max(1.0, np.max(np.abs(pts)) / 1e3))
    ctx.check(np.all(idx >= 0), what + ": position that is no site", n=int((idx < 0).sum()), X=X[idx < 0][:3])
    ctx.check(np.all(cr.Z[idx] == Z), what + ": wrong element")
    EX, EZ = cr.sites(np.min(pts, axis=0), np.max(pts, axis=0))
    region = [("hull", pts)]
    Em = m.margin(region, EX)
    sure = Em < -m._band_of(region, EX)
    ei, ec = cr.is_site(EX[sure])
    have = {(int(i),) + tuple(c) for i, c in zip(idx, cell.tolist())}
    miss = [k for k in ({(int(i),) + tuple(c) for i, c in zip(ei, ec.tolist())}) if k not in have]
    ctx.check(not miss, what + ": sites inside the requested region are missing", n=len(miss), of=int(sure.sum()),
              sites=miss[:3])
    ctx.observe(int(sure.sum()))
    ctx.event("atoms_supplied", len(X))
    ctx.event("sites_required", int(sure.sum()))


def hull_points(ctx, c, size):
    k = ctx.choice(["ball", "ball", "box", "needle", "sheet", "tiny", "tetra", "sheared"])
    rng = ctx.rng
    n = ctx.randint(4, 14)
    if k == "box":
        lo, hi = -rng.uniform(.2, 1, 3) * size, rng.uniform(.2, 1, 3) * size
        p = np.array([[(lo, hi)[(j >> i) & 1][i] for i in range(3)] for j in range(8)])
    else:
        p = rng.normal(size=(4 if k == "tetra" else n, 3)) * size * .5
        if k == "needle":
            p = p * [4, .15, .15]
        elif k == "sheet":
            p = p * [2, 2, .05]
        elif k == "tiny":
            p = p * 1.5 / size
        elif k == "sheared":
            p = p @ np.array([[1, 2.5, 0], [0, 1, 1.5], [0, 0, .5]])
        p = p @ gen.rotation(ctx)[0].T
    return p + c, k


@core.family(FAMILIES, 420, 14000, "atoms supplied for the hull of random points")
def hulls(ctx):
    g, cr = gen.crystal(ctx)
    cr = gen.place(ctx, g, cr)
    still = ctx.chance(.06)
    if still:
        cr = gen.rescaled(ctx, g, cr, rows=True)
    elif ctx.chance(.25):
        cr = gen.rescaled(ctx, g, cr)
        cr = gen.place(ctx, g, cr, n=ctx.randint(0, 1))
    far = ctx.chance(.15)
    c = gen.point(ctx, 10 ** ctx.rng.uniform(2, 3.2) if far else 15.)
    pts, k = hull_points(ctx, c, max(2.0, gen.size_for(ctx, cr, ctx.rng.uniform(20, 400))))
    ctx.describe(points=k, n=len(pts), far=far)
    X, Z = g.supply_atoms(gen.form(ctx, pts) if ctx.chance(.7) else gen.reused(ctx, pts, g.supply_atoms, p=1.))
    judge(ctx, g, cr, pts, X, Z)
    if not still and ctx.chance(.3):
        g2 = g.from_generator()
        t, A, kk = gen.isometry(ctx)
        g2.transform(t)
        X, Z = g2.supply_atoms(m.act(A, pts))
        judge(ctx, g2, cr.moved(A), m.act(A, pts), X, Z, "atoms of a moved copy")
        X, Z = g.supply_atoms(np.array(pts))
        judge(ctx, g, cr, pts, X, Z, "atoms of the original after its copy was moved")


@core.family(FAMILIES, 60, 2000, "regions whose faces, edges and corners run exactly through sites")
def faces(ctx):
    g, cr = gen.crystal(ctx, small=True)
    cr = gen.place(ctx, g, cr)
    n = np.array([ctx.randint(1, 3) for _ in range(3)])
    start = ctx.rng.integers(-3, 3, 3)
    lo = cr.frac[ctx.randint(0, len(cr.frac) - 1)] + start
    hi = cr.frac[ctx.randint(0, len(cr.frac) - 1)] + start + n
    cor = np.array([[lo[i] if not (k >> i) & 1 else hi[i] for i in range(3)] for k in range(8)])
    if ctx.chance(.3):
        cor = np.vstack([cor, lo + (hi - lo) * ctx.rng.uniform(0, 1, (3, 3))])
    pts = cor @ cr.basis.T + cr.origin
    X, Z = g.supply_atoms(np.array(pts))
    judge(ctx, g, cr, pts, X, Z)
    idx, cell = cr.is_site(X)
    have = {(int(i),) + tuple(c) for i, c in zip(idx, cell.tolist())}
    want = 0
    for a in range(-1, 5):
        for b in range(-1, 5):
            for c in range(-1, 5):
                for i, f in enumerate(cr.frac):
                    x = f + start + (a, b, c)
                    if np.all(x >= lo - 1e-9) and np.all(x <= hi + 1e-9):
                        ii, cc = cr.is_site((x @ cr.basis.T + cr.origin)[None])
                        k = (int(ii[0]),) + tuple(cc[0].tolist())
                        ctx.check(k in have, "site on the boundary of the requested region is missing", site=x, lo=lo, hi=hi)
                        want += 1
    ctx.observe(want)
    ctx.event("closed_sites", want)


@core.family(FAMILIES, 60, 2000, "structure replaced, origin set before or after, attached late")
def rebuilt(ctx):
    from czone.generator import Generator
    g1, c1 = gen.crystal(ctx, small=True)
    g2, c2 = gen.crystal(ctx, small=True)
    o = gen.point(ctx)
    how = ctx.choice(["ctor", "late-structure", "origin-first", "replace", "list-origin", "cell", "cell", "spacegroup",
                      "whole-origin"])
    if how == "ctor":
        g, cr = Generator(origin=np.array(o), structure=g1.structure), c1.with_origin(o)
    elif how == "list-origin":
        g, cr = Generator(origin=np.array(o), structure=g1.structure), c1.with_origin(o)
    elif how == "whole-origin":
        o = np.round(o * 2)
        g, cr = Generator(origin=gen.form(ctx, o[None])[0] if ctx.chance(.5) else o.astype(int), structure=g1.structure), c1.with_origin(o)
    elif how in ("cell", "spacegroup"):
        # everything the constructor accepts may be handed to the convenience constructors
        from czone.transform.strain import HStrain
        kw, cr = dict(origin=np.array(o)), None
        strain = HStrain(np.eye(3) * 1.5, origin=gen.point(ctx)) if ctx.chance(.4) else None
        if strain is not None:
            kw["strain_field"] = strain
        if how == "cell":
            src, c = gen.crystal(ctx, small=True, source="cell")
            st = src.structure
            g = Generator.from_unit_cell(list(st.atomic_numbers), np.array(st.frac_coords), st.lattice.abc, st.lattice.angles, **kw)
        else:
            sgn, sym, k, sites = ctx.choice(gen.SPACEGROUPS)
            dims, ang = gen.cell_for(ctx.rng, k)
            g = Generator.from_spacegroup([q[0] for q in sites], np.array([q[1] for q in sites], float), dims, ang, sgn=sgn, **kw)
            st = g.structure
        cr = m.Crystal(st.lattice.matrix, st.frac_coords, st.atomic_numbers).with_origin(o)
        ctx.close(g.origin, o, 1e-12, "origin handed to a convenience constructor")
        if strain is not None:
            ctx.check(g.strain_field is not None, "strain handed to a convenience constructor is not kept")
            M = np.array(g.strain_field.matrix)
            ctx.close(M, strain.matrix, 1e-12, "strain handed to a convenience constructor")
            ctx.event("strained_constructors")
            pts, k = hull_points(ctx, gen.point(ctx), max(2.0, gen.size_for(ctx, cr, 100)))
            X, Z = g.supply_atoms(np.array(pts))
            o = np.asarray(strain.origin, float)
            judge(ctx, g, cr, (pts - o) / 1.5 + o, (X - o) / 1.5 + o, Z, "atoms of a crystal strained on construction")
            return
    elif how == "late-structure":
        g = Generator()
        g.structure = g1.structure
        g.origin = np.array(o)
        cr = c1.with_origin(o)
    elif how == "origin-first":
        g = Generator(origin=np.array(o))
        g.structure = g1.structure
        cr = c1.with_origin(o)
    else:
        g = Generator(origin=np.array(o), structure=g1.structure)
        g.structure = g2.structure
        cr = c2.with_origin(o)
    cr = gen.place(ctx, g, cr)
    ctx.describe(how=how)
    pts, k = hull_points(ctx, gen.point(ctx), max(2.0, gen.size_for(ctx, cr, 100)))
    X, Z = g.supply_atoms(pts)
    judge(ctx, g, cr, pts, X, Z)


@core.family(FAMILIES, 24, 800, "regions very many cells away from the origin of the crystal")
def remote(ctx):
    g, cr = gen.crystal(ctx, small=True)
    cr = gen.place(ctx, g, cr, n=ctx.randint(0, 1))
    cells = np.round(ctx.rng.normal(size=3) * 10 ** ctx.rng.uniform(1, 5.5))
    k = ctx.choice(["all", "one", "one"])
    if k == "one":
        cells *= np.eye(3)[ctx.randint(0, 2)]
    c = cr.basis @ cells + cr.origin
    pts, k = hull_points(ctx, c, max(2.0, gen.size_for(ctx, cr, 60)))
    X, Z = g.supply_atoms(np.array(pts))
    judge(ctx, g, cr, pts, X, Z, "remote region")
    ctx.event("remote_cells", int(np.max(np.abs(cells)) > 32767))
    ctx.describe(cells=cells, points=k)


@core.family(FAMILIES, 80, 2500, "requests with one to three points, repeated points, whole numbers")
def few(ctx):
    g, cr = gen.crystal(ctx, small=True)
    cr = gen.place(ctx, g, cr)
    size = max(2.0, gen.size_for(ctx, cr, 60))
    for n in (1, 2, 3, 3):
        c = gen.point(ctx, 15.)
        how = ctx.choice(["sites", "sites", "points", "whole", "cloud"])
        if how == "sites":
            k = ctx.rng.integers(0, len(cr.frac), n)
            pts = (cr.frac[k] + ctx.rng.integers(-4, 5, (n, 3))) @ cr.basis.T + cr.origin
        elif how == "whole":
            pts = np.round(c + ctx.rng.normal(size=(n, 3)) * size)
        else:
            pts = c + ctx.rng.normal(size=(n, 3)) * size * .5
        full = pts
        if how == "cloud":       # corners of the same region, any number of times and in any order
            w = ctx.rng.dirichlet(np.ones(n), ctx.randint(1, 6))
            full = np.vstack([pts, w @ pts, pts[ctx.rng.integers(0, n, 2)]])
            full = full[ctx.rng.permutation(len(full))]
        a = gen.form(ctx, full)
        keep = np.array(a)
        X, Z = g.supply_atoms(a)
        ctx.check(np.array_equal(a, keep), "request was changed")
        X, Z = np.asarray(X, float), np.asarray(Z)
        ctx.check(X.ndim == 2 and X.shape[1] == 3 and Z.shape == (len(X),), "few points: shape", shapes=[X.shape, Z.shape])
        idx, cell = cr.is_site(X, m.SITE_TOL)
        ctx.check(np.all(idx >= 0), "few points: position that is no site", n=int((idx < 0).sum()))
        ctx.check(np.all(cr.Z[idx] == Z), "few points: wrong element")
        ctx.check(m.duplicates(X) == 0, "few points: site returned twice")
        # sites on the segments between the points
        T = np.linspace(0, 1, 7)
        cand = np.vstack([full] + [p + T[:, None] * (q - p) for p in pts for q in pts])
        EX, EZ = cr.sites(cand.min(axis=0), cand.max(axis=0))
        on = np.array([np.min(np.linalg.norm(cand - x, axis=1)) < 1e-9 for x in EX], bool) if len(EX) else np.zeros(0, bool)
        have = {(int(i),) + tuple(q) for i, q in zip(idx, cell.tolist())}
        ei, ec = cr.is_site(EX[on])
        want = {(int(i),) + tuple(q) for i, q in zip(ei, ec.tolist())}
        ctx.check(not want - have, "few points: sites at the requested points are missing", n=len(want - have))
        ctx.event("few_points:" + str(n))
        ctx.observe(1 + len(want))
        # the cells cover the region: a hull around the same points asks for no less
        lo, hi = g.voxel.get_extents(gen.form(ctx, full))
        fr = (full - cr.origin) @ np.linalg.inv(cr.basis).T
        ctx.check(np.shape(lo) == (3,) and np.shape(hi) == (3,), "extents: shape")
        ctx.check(np.all(lo <= fr.min(axis=0) + 1e-7) and np.all(hi >= fr.max(axis=0) - 1e-7), "extents do not span the points", lo=lo, hi=hi)
        ctx.check(np.all(lo > fr.min(axis=0) - 1.001) and np.all(hi < fr.max(axis=0) + 1.001), "extents are not minimal", lo=lo, hi=hi)
    ctx.describe(points=how)


# ------------------------------------------------------------------------------ symmetry data
def _lattices(rng):
    a, b, c = rng.uniform(3, 7, 3)
    ang = float(rng.uniform(60, 80)), float(rng.uniform(95, 115)), float(rng.uniform(82, 88))
    return [("triclinic", [a, b, c], list(ang)), ("monoclinic", [a, b, c], [90, ang[1], 90]),
            ("monoclinic-c", [a, b, c], [90, 90, ang[1]]), ("monoclinic-a", [a, b, c], [ang[1], 90, 90]),
            ("orthorhombic", [a, b, c], [90] * 3), ("tetragonal", [a, a, c], [90] * 3),
            ("rhombohedral", [a, a, a], [ang[0]] * 3), ("hexagonal", [a, a, c], [90, 90, 120]), ("cubic", [a, a, a], [90] * 3)]


def orbit(ops, x):
    out = []
    for R, t in ops:
        y = np.mod(R @ x + t, 1.0)
        d = [np.max(np.abs((y - o) - np.round(y - o))) for o in out]
        if not d or min(d) > 1e-6:
            out.append(y)
    return np.array(out)


@core.family(FAMILIES, 150, 4000, "cells built from space group numbers and symbols hold complete orbits")
def symmetry(ctx):
    from czone.generator import Generator
    from pymatgen.core import Lattice
    from pymatgen.symmetry.groups import SpaceGroup
    rng = ctx.rng
    mode = ctx.choice(["sgn", "sym", "sym", "both"])
    if mode == "sym":
        syms = sorted(SpaceGroup.SG_SYMBOLS)
        name = ctx.choice(syms)
        if ctx.chance(.3):
            name = ctx.choice(["Fm-3m", "Im-3m", "Fd-3m", "P6_3/mmc", "P6_3mc", "Pm-3m", "R-3m", "F-43m", "P4_2/mnm", "Pnma",
                               "Pbnm", "R-3m:R", "R-3m:H", "Fd-3m:2", "Ia-3d", "P2_1/c", "C2/c"])
        sg = SpaceGroup(name)
        kw = dict(sym=name)
    else:
        num = ctx.randint(1, 230)
        sg = SpaceGroup.from_int_number(num)
        name = num
        kw = dict(sgn=num)
        if mode == "both":
            other = SpaceGroup.from_int_number(ctx.choice([i for i in range(1, 231) if i != num]))
            kw["sym"] = other.symbol if ctx.chance(.5) else "Fm-3m"
    lat = [(k, d, a) for k, d, a in _lattices(rng) if sg.is_compatible(Lattice.from_parameters(*d, *a))]
    if not lat:
        raise core.Skip("no compatible lattice found")
    k, dims, ang = lat[0]
    ops = [(np.array(o.rotation_matrix), np.array(o.translation_vector)) for o in sg.symmetry_ops]
    n = ctx.randint(1, 3)
    sites, orbits = [], []
    for _ in range(200):
        if len(sites) == n:
            break
        x = rng.uniform(0, 1, 3)
        r = rng.random()
        if r < .35:
            x = np.array([ctx.choice([0, .25, .5, .75]) for _ in range(3)], float)
        elif r < .5:
            x[ctx.randint(0, 2)] = ctx.choice([0, .5])
        elif r < .6:
            x = np.full(3, x[0])
        # orbits as seen at a coarser resolution must agree, so that nobody is blamed for tolerances
        o = orbit(ops, x)
        allp = np.vstack(orbits + [o])
        d = allp[:, None] - allp[None]
        d = np.max(np.abs(d - np.round(d)), axis=-1) + np.eye(len(allp))
        if d.min() < 5e-3:
            continue
        sites.append(x)
        orbits.append(o)
    if not sites:
        raise core.Skip("no sites")
    Z = [int(z) for z in rng.choice(np.arange(3, 90), len(sites), replace=False)]
    ctx.describe(group=name, mode=mode, lattice=k, sites=np.round(sites, 4))
    ctx.event("symmetry:" + mode)
    ctx.state(sg.int_number, mode)
    g = Generator.from_spacegroup(Z, np.array(sites), dims, ang, **kw)
    ctx.close(g.lattice.abc, dims, 1e-9, "cell dimensions")
    ctx.close(g.lattice.angles, ang, 1e-7, "cell angles")
    f = np.array(g.coords)
    sp = np.array(g.species)
    ctx.check(len(f) == len(sp), "number of species")
    ctx.check(len(f) == sum(len(o) for o in orbits), "number of sites in the cell", got=len(f),
              expected=[len(o) for o in orbits])
    used = np.zeros(len(f), bool)
    for z, o in zip(Z, orbits):
        for y in o:
            d = f - y
            d = np.max(np.abs(d - np.round(d)), axis=1)
            j = int(np.argmin(d))
            ctx.check(d[j] < 1e-4 and sp[j] == z and not used[j], "site of the orbit is missing or has the wrong element",
                      site=y, found=f[j], element=int(sp[j]))
            used[j] = True
            ctx.observe()
    pts = np.array([[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1], [1, 1, 0], [1, 0, 1], [0, 1, 1], [1, 1, 1]]) * 6.0 + gen.point(ctx)
    cr = m.Crystal(Lattice.from_parameters(*dims, *ang).matrix, np.vstack(orbits), np.repeat(Z, [len(o) for o in orbits]))
    X, Zs = g.supply_atoms(pts)
    tol = m.SITE_TOL
    try:
        m.SITE_TOL = 1e-3            # pymatgen rounds orbits
        judge(ctx, g, cr, pts, X, Zs, "atoms of the symmetric cell")
    finally:
        m.SITE_TOL = tol


# ------------------------------------------------------------------------------ online monitor in scenarios
@core.family(FAMILIES, 40, 1200, "every supply made while volumes, unions and scenes are populated")
def scenarios(ctx):
    from . import _world
    calls = []

    def pre(ctx, args, kw):
        return np.array(args[1] if len(args) > 1 else kw["bbox"])

    def post(ctx, tok, args, kw, res):
        g = args[0]
        if g.strain_field is not None or g.post_transform is not None:
            return
        cr = m.crystal_of(g)
        lo, hi = tok.min(0), tok.max(0)
        if np.prod(hi - lo) / cr.cell_volume() * len(cr.Z) > 4e4:
            return
        calls.append(1)
        judge(ctx, g, cr, tok, res[0], res[1], "atoms supplied in a scenario")
    probes.hook("Generator.supply_atoms", pre, post)
    _world.run(ctx, steps=ctx.randint(4, 10))
    ctx.check(len(calls) > 0, "no supply seen") if False else None
    ctx.event("online_supplies", len(calls))
