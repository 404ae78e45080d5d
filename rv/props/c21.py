import itertools
import numpy as np
from scipy.spatial import ConvexHull, HalfspaceIntersection
from .. import core, gen, model as m

PROP = "C21"
FAMILIES = []
RULE = ("Cubic, tetragonal, hexagonal and orthorhombic crystals, with and without inversion symmetry and of one or several elements, in any "
        "orientation and position; random sets of facets and energies, sizes of 40 to a million atoms, reused and changed builders. Expected facets: "
        "point group of the crystal found by brute force over integer matrices, facets placed on the crystal read from the result, distances "
        "by the requested volume.")
ASSUMPTIONS = ["the cell of the generator is the conventional standard cell (Miller indices refer to it)",
               "Winterbottom interfaces: any facet of cubic crystals, basal facets of others; sizes are not judged for negative interface energies",
               "the shape is centered at the origin of space"]
MIN_EVENTS = {"constructions": 90, "atoms_matched": 15000, "facets": 1000, "winterbottom": 25}

_cells = np.array(list(itertools.product((-1, 0, 1), repeat=9))).reshape(-1, 3, 3)
_cells = _cells[np.abs(np.abs(np.linalg.det(_cells)) - 1) < .5]


def point_group(rows, frac, Z):
    """Integer matrices W (acting on fractional coordinates) of the point group, by brute force."""
    rows, frac, Z = np.asarray(rows, float), np.asarray(frac, float), np.asarray(Z)
    G = rows @ rows.T
    ok = np.max(np.abs(np.einsum("nji,jk,nkl->nil", _cells, G, _cells) - G), axis=(1, 2)) < 1e-3 * np.max(np.abs(G))
    out = []
    rare = min(set(Z.tolist()), key=lambda z: (Z == z).sum())
    i0 = np.flatnonzero(Z == rare)
    for W in _cells[ok]:
        f = frac @ W.T
        for j in i0:
            t = frac[j] - f[i0[0]]
            d = (f + t)[:, None, :] - frac[None]
            d = d - np.round(d)
            hit = (np.linalg.norm(d @ rows, axis=2) < 1e-3) & (Z[:, None] == Z[None])
            if np.all(hit.any(axis=1)):
                out.append(W)
                break
    return np.array(out)


def facets(cr, group, energies):
    """[(unit normal in space, energy)] of all equivalent facets; 4-index keys allowed."""
    Binv = np.linalg.inv(cr.basis)
    out = {}
    for h, e in energies.items():
        if len(h) == 4:
            h = (h[0], h[1], h[3])
        for W in group:
            k = np.round(np.asarray(h, float) @ np.linalg.inv(W)).astype(int)
            out[tuple(k.tolist())] = e
    N = np.array([np.array(k) @ Binv for k in out])
    return N / np.linalg.norm(N, axis=1)[:, None], np.array(list(out.values())), list(out)


def polytope(N, d):
    """(vertices, volume) of {x: N x <= d}"""
    from scipy.optimize import linprog
    r = linprog([0, 0, 0, -1], A_ub=np.column_stack([N, np.ones(len(N))]), b_ub=d, bounds=[(None, None)] * 3 + [(0, None)])
    if r.status != 0 or r.x[3] < 1e-9:
        return None, 0.0
    V = HalfspaceIntersection(np.column_stack([N, -np.asarray(d)]), r.x[:3]).intersections
    V = V[np.all(np.isfinite(V), axis=1)]
    return V, ConvexHull(V).volume


def bounded(N):
    try:
        return bool(np.all(ConvexHull(N).equations[:, 3] < -.05))
    except Exception:
        return False


def areas(N, d):
    """Area of each facet."""
    V, _ = polytope(N, d)
    out = np.zeros(len(N))
    for i, (n, x) in enumerate(zip(N, d)):
        on = V[np.abs(V @ n - x) < 1e-6 * max(1, np.max(np.abs(V)))]
        if len(on) < 3:
            continue
        q = np.linalg.qr(np.column_stack([n, np.eye(3)[np.argsort(np.abs(n))[:2]].T]))[0][:, 1:]
        try:
            out[i] = ConvexHull(on @ q).volume
        except Exception:
            pass
    return out


SG = {s[1]: s for s in gen.SPACEGROUPS}
CUBIC = ["Fm-3m", "Fm-3m2", "Im-3m", "Fd-3m", "Pm-3m", "F-43m"]
OTHER = ["P6_3mc", "P6_3/mmc", "P6/mmm", "P4_2/mnm", "Pnma"]


def wulff_crystal(ctx, cubic=None):
    from czone.generator import Generator
    from pymatgen.core import Lattice, Structure
    cubic = ctx.chance(.6) if cubic is None else cubic
    sgn, sym, kind, sites = ctx.choice([s for s in gen.SPACEGROUPS if (s[2] == "cubic") == cubic and s[2] in ("cubic", "hexagonal", "tetragonal", "orthorhombic")
                                        and s[0] != 166])
    a, b, c = np.sort(ctx.rng.uniform(2.8, 6.5, 3)) if kind == "orthorhombic" else ctx.rng.uniform(3, 6.5, 3)
    dims = {"cubic": [a, a, a], "orthorhombic": [b, a, c]}.get(kind, [a, a, float(a * ctx.rng.uniform(.7, 1.8))])
    ang = [90, 90, 120] if kind == "hexagonal" else [90, 90, 90]
    if sgn == 62:
        dims = [a + 4, a + 2.5, a + 1.5]
    g = Generator.from_spacegroup([s[0] for s in sites], np.array([s[1] for s in sites], float), dims, ang, sgn=sgn)
    st = g.structure
    src = "spacegroup"
    if ctx.chance(.35):
        rows = np.array(st.lattice.matrix) @ gen.rotation(ctx)[0].T
        Z = [int(s.Z) for s in st.species]
        f = np.array(st.frac_coords)
        if ctx.chance(.4):
            f = f + ctx.rng.uniform(-.5, .5, 3)          # other choice of origin
        g = Generator(structure=Structure(Lattice(rows), Z, f))
        st = g.structure
        src = "turned structure"
    cr = m.Crystal(st.lattice.matrix, st.frac_coords, [s.Z for s in st.species])
    ctx.describe(sg=sym, dims=np.round(dims, 3), src=src, elements=len(set(cr.Z.tolist())))
    if ctx.chance(.6):
        cr = gen.place(ctx, g, cr)
    group = point_group(cr.rows, cr.frac, cr.Z)
    return g, cr, group, kind, sgn


CUB_F = [(1, 0, 0), (1, 1, 0), (1, 1, 1), (2, 1, 0), (2, 1, 1), (-1, -1, -1), (3, 2, 1)]
HEX_F = [(0, 0, 1), (1, 0, 0), (1, 0, 1), (1, 1, 0), (0, 0, -1), (1, 0, -1), (1, 0, 2), (1, 0, -1, 1), (1, 0, -1, 0), (0, 0, 0, 1)]
TET_F = [(0, 0, 1), (1, 0, 0), (1, 1, 0), (1, 0, 1), (1, 1, 1)]
ORT_F = [(1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 0), (0, 1, 1), (1, 0, 1), (1, 1, 1)]


def energies_for(ctx, cr, group, kind, sgn):
    """Energies of a bounded set of facets without two values for equivalent ones."""
    pool = dict(cubic=CUB_F, hexagonal=HEX_F, tetragonal=TET_F, orthorhombic=ORT_F)[kind]
    for _ in range(60):
        k = ctx.randint(1, 4)
        pick = [pool[i] for i in ctx.rng.permutation(len(pool))[:k]]
        E, seen = {}, {}
        for h in pick:
            N, e, ks = facets(cr, group, {h: 1.})
            old = [seen[k] for k in ks if k in seen]
            x = old[0] if old else float(np.round(ctx.rng.uniform(.8, 1.3), 3))
            if old and ctx.chance(.7):
                continue
            for k in ks:
                seen[k] = x
            E[h] = x
        N, e, _ = facets(cr, group, E)
        if not bounded(N):
            continue
        if degenerate(N, e):
            continue
        return E
    raise core.Skip("no bounded set of facets")


def degenerate(N, d):
    """Facets that only just touch the shape (in or out is a matter of rounding)."""
    V, _ = polytope(N, d)
    gap = d - np.max(N @ V.T, axis=1)
    a = areas(N, d)
    lin = np.sqrt(a / a.sum())
    return bool(np.any((gap < 2e-3) & (lin < 5e-3)) )


def judge(ctx, v, cr, group, energies, natoms, what, interface=None, populate=True):
    c = m.crystal_of(v.generator)
    T = c.pose @ np.linalg.inv(cr.pose)
    R = T[:3, :3]
    ctx.check(np.max(np.abs(R @ R.T - np.eye(3))) < 1e-7, f"{what}: crystal of the volume is not the given one", R=R)
    N, e, _ = facets(c, group, energies)
    if interface is not None:
        h, ei = interface
        n = np.asarray(h, float) @ np.linalg.inv(c.basis)
        n = n / np.linalg.norm(n)
        N, e = np.vstack([N, n]), np.append(e, ei)
    V, vol = polytope(N, e)
    algs = list(v.alg_objects)
    ctx.check(v.points is None and len(algs) >= 4 and all(type(o).__name__ == "Plane" for o in algs), f"{what}: not bounded by planes")
    P = np.array([o.normal for o in algs], float).reshape(-1, 3)
    q = np.array([o.point for o in algs], float).reshape(-1, 3)
    ctx.check(np.all(np.isfinite(P)) and np.all(np.isfinite(q)), f"{what}: planes are not finite")
    P = P / np.linalg.norm(P, axis=1)[:, None]
    d = np.sum(P * q, axis=1)
    W, wvol = polytope(P, d)
    ctx.check(W is not None and bounded(P), f"{what}: planes do not bound a volume")
    target = natoms * c.cell_volume() / len(c.Z)
    if interface is None or interface[1] >= 0:
        ctx.check(abs(wvol / target - 1) < 2e-3, f"{what}: volume of requested number of atoms", got=wvol, expected=target)
    s = (wvol / vol) ** (1 / 3)
    tol = 1e-4 * s * np.max(np.abs(V)) + 1e-4
    out = np.max(W @ N.T - s * e)
    ctx.check(out < tol, f"{what}: shape reaches beyond an equivalent facet", by=out, facet=N[np.argmax(np.max(W @ N.T - s * e, axis=0))])
    cut = np.max(np.max(P @ (s * V).T, axis=1) - d)
    cut_i = np.max(P @ (s * V).T, axis=1) - d
    ctx.check(cut < tol, f"{what}: shape is cut by a plane that is no facet", by=cut, plane=P[np.argmax(cut_i)])
    ctx.event("facets", len(P))
    ctx.event("constructions")
    ctx.observe(len(P))
    if populate:
        v.populate_atoms()
        X = np.asarray(v.atoms)
        reg = [m.spec_of_alg(o) for o in algs]
        lo, hi = W.min(axis=0) - 1, W.max(axis=0) + 1
        EX, EZ = c.sites(lo, hi)
        m.compare_sites(ctx, X, v.species, EX, EZ, m.margin(reg, EX), m.band_of(reg, EX), what)
        # atoms of the surface layer are the only ones in question
        L = (target * 6) ** (1 / 3)
        if interface is None or interface[1] >= 0:
            cell = np.max(np.linalg.norm(c.basis, axis=0))
            A = ConvexHull(W).area
            ctx.check(abs(len(X) - natoms) <= natoms * (A * cell * .75 / wvol) + len(c.Z), f"{what}: number of atoms", got=len(X), asked=natoms)
    return N, e, s


def report(ctx, frac, cr, group, energies, what):
    """Facet fractions against areas of the exact polytope."""
    N, e, ks = facets(cr, group, energies)
    a = areas(N, e)
    ctx.check(abs(sum(frac.values()) - 1) < 1e-6, f"{what}: facet fractions do not sum to one", sum=sum(frac.values()))
    ctx.check(all(x > -1e-12 for x in frac.values()), f"{what}: negative fraction")
    # sum over each orbit
    done = {}
    for h in energies:
        hh = (h[0], h[1], h[3]) if len(h) == 4 else h
        _, _, orb = facets(cr, group, {hh: 1.})
        key = min(orb)
        done.setdefault(key, [0., sum(a[ks.index(k)] for k in orb) / a.sum()])
        done[key][0] += frac.get(h, 0.)
    for key, (got, exp) in done.items():
        ctx.check(abs(got - exp) < 2e-3, f"{what}: fraction of facet", facet=key, got=got, expected=exp)
    ctx.event("fractions", len(done))


def size(ctx):
    r = ctx.rng.random()
    if r < .12:
        return int(10 ** ctx.rng.uniform(3.5, 6))
    return ctx.choice([40, 100, 250, 500, 800, 1500, 3000]) if r < .5 else ctx.randint(40, 2000)


@core.family(FAMILIES, 110, 4000, "Wulff shapes of any crystal, and changed builders")
def wulff(ctx):
    from czone.prefab import WulffSingle
    g, cr, group, kind, sgn = wulff_crystal(ctx)
    E = energies_for(ctx, cr, group, kind, sgn)
    n = size(ctx)
    w = WulffSingle(g, dict(E), n)
    ctx.describe(energies={str(k): v for k, v in E.items()}, natoms=n, order=len(group))
    log = []
    for step in range(ctx.randint(1, 3)):
        what = f"Wulff shape ({kind}, step {step})"
        r = ctx.rng.random()
        if r < .5:
            v = w.get_construction()
            judge(ctx, v, cr, group, E, n, what, populate=n < 2000)
        elif r < .8:
            v, frac = w.get_construction(return_facet_areas=True)
            judge(ctx, v, cr, group, E, n, what, populate=n < 4000 and ctx.chance(.5))
            report(ctx, dict(frac), cr, group, E, what)
        else:
            report(ctx, dict(w.get_areas()), cr, group, E, what)
            v = w.get_construction()
            judge(ctx, v, cr, group, E, n, what, populate=False)
        k = ctx.choice(["natoms", "energies", "generator", "same"])
        if k == "natoms":
            n = size(ctx)
            w.natoms = n if ctx.chance(.7) else float(n)
        elif k == "energies":
            E = energies_for(ctx, cr, group, kind, sgn)
            w.surface_energies = dict(E)
        elif k == "generator":
            t, T, _ = gen.isometry(ctx)
            from czone.generator import Generator
            g = Generator.from_generator(g, transformation=[t])
            cr = cr.moved(T)
            w.generator = g
        log.append(k)
    ctx.describe(log=log)


NAMED = {"cube": {(1, 0, 0): 1.0}, "cuboctohedron": {(1, 0, 0): 1.0, (1, 1, 1): 1.15}, "octohedron": {(1, 1, 1): 1.0},
         "truncated_octohedron": {(1, 0, 0): 1.1, (1, 1, 0): 1.15, (1, 1, 1): 1.0}}
COUNT = {"cube": (6, 8), "octohedron": (8, 6)}


@core.family(FAMILIES, 55, 1500, "named shapes")
def named(ctx):
    from czone.prefab import WulffSingle
    g, cr, group, kind, sgn = wulff_crystal(ctx, cubic=True)
    if sgn == 216:
        raise core.Skip("named shapes need inversion symmetry")
    name = ctx.choice(sorted(NAMED))
    ctx.describe(name=name)
    kw = {}
    n = 1000
    if ctx.chance(.85):
        n = size(ctx)
        kw = dict(natoms=n)
    v = getattr(WulffSingle, name)(g, **kw)
    judge(ctx, v, cr, group, NAMED[name], n, name, populate=n < 2000)
    if name in COUNT:
        P = np.array([o.normal for o in v.alg_objects], float).reshape(-1, 3)
        ctx.check(len(P) == COUNT[name][0], f"{name}: number of faces", n=len(P))
    ctx.describe(natoms=n)


@core.family(FAMILIES, 60, 2000, "Winterbottom shapes")
def winterbottom(ctx):
    from czone.prefab import WulffSingle
    g, cr, group, kind, sgn = wulff_crystal(ctx)
    E = energies_for(ctx, cr, group, kind, sgn)
    if kind == "cubic":
        i = ctx.choice([(1, 0, 0), (0, 0, 1), (0, 0, -1), (1, 1, 1), (-1, 1, -1), (1, 1, 0), (0, 1, -1), (2, 1, 1), (2, 1, 0), (-1, 0, 0)])
    else:
        i = ctx.choice([(0, 0, 1), (0, 0, -1)])
    lim = min(E.values())
    ei = float(np.round(ctx.rng.uniform(.05, .95) * lim, 3)) if ctx.chance(.8) else float(np.round(-ctx.rng.uniform(.1, .5) * lim, 3))
    n = size(ctx)
    ctx.describe(energies={str(k): v for k, v in E.items()}, interface=i, ei=ei, natoms=n)
    N, e, _ = facets(cr, group, E)
    h = np.asarray(i, float) @ np.linalg.inv(cr.basis)
    Nw, ew = np.vstack([N, h / np.linalg.norm(h)]), np.append(e, ei)
    V, vol = polytope(Nw, ew)
    if V is None or degenerate(Nw, ew):
        raise core.Skip("interface removes the particle, or facets only touch")
    if ctx.chance(.4):                         # builder used for other sizes and energies before
        n1 = size(ctx)
        w = WulffSingle(g, dict(E) if ctx.chance(.5) else energies_for(ctx, cr, group, kind, sgn), n1)
        try:
            w.winterbottom(i, ei) if ctx.chance(.7) else w.get_construction()
        except Exception:
            ctx.event("other_energies_refused")
        w.natoms = n
        w.surface_energies = dict(E)
        if ctx.chance(.3):
            from czone.generator import Generator
            t, T, _ = gen.isometry(ctx)
            g = Generator.from_generator(g, transformation=[t])
            cr = cr.moved(T)
            w.generator = g
        ctx.event("used_builders")
    else:
        w = WulffSingle(g, dict(E), n)
    before = dict(E)
    v = w.winterbottom(i, ei)
    alike = [i]
    if ctx.desc["src"] != "spacegroup":
        # the standard cell of a turned structure is only defined up to symmetry
        alike = facets(cr, group, {i: 1.})[2]
    err = None
    for h in alike:
        try:
            judge(ctx, v, cr, group, E, n, f"Winterbottom shape ({kind})", interface=(h, ei), populate=n < 2000)
            err = None
            break
        except core.Violation as x:
            err = err or x
    if err is not None:
        raise err
    ctx.event("winterbottom")
    ctx.check(w.surface_energies == before, "energies changed by Winterbottom construction")
    if ctx.chance(.3):
        judge(ctx, w.get_construction(), cr, group, E, n, "Wulff shape after Winterbottom", populate=False)


@core.family(FAMILIES, 16, 200, "refusals")
def refusals(ctx):
    from czone.prefab import WulffSingle, WulffDecahedron
    from czone.generator import AmorphousGenerator
    g, cr, group, kind, sgn = wulff_crystal(ctx, cubic=True)
    E = {(1, 0, 0): 1.0}
    ctx.raises(lambda: WulffSingle(g, {(1, 0, 0): 1}, 100), "integer energy")
    ctx.raises(lambda: WulffSingle(g, {"100": 1.0}, 100), "facet given as text")
    ctx.raises(lambda: WulffSingle(AmorphousGenerator(), E, 100), "amorphous generator")
    ctx.raises(lambda: WulffSingle(None, E, 100), "no generator")
    ctx.raises(lambda: WulffSingle(g, E, "many"), "size given as text", TypeError)
    ctx.raises(lambda: WulffDecahedron(g, E, 1, 100), "integer twin energy")
    w = WulffSingle(g, E, 100)
    ctx.raises(lambda: setattr(w, "natoms", None), "no size", TypeError)
    ctx.raises(lambda: setattr(w, "surface_energies", {(1, 1, 1): "1"}), "energy given as text")
    lim = ctx.choice([1.5, 2.])
    ctx.raises(lambda: w.winterbottom((0, 0, 1), lim), "interface energy above surface energies")
    ctx.check(w.natoms == 100 and w.surface_energies == E, "builder changed by refused values")
    judge(ctx, w.get_construction(), cr, group, E, 100, "cube after refusals", populate=False)
    ctx.observe(8)
    ctx.describe(limit=lim)


@core.family(FAMILIES, 8, 60, "decahedra and icosahedra can be built")
def multiply_twinned(ctx):
    from czone.prefab import wulff
    from czone.generator import Generator
    a = float(ctx.rng.uniform(3.5, 4.5))
    g = Generator.from_spacegroup([79], np.zeros((1, 3)), [a, a, a], [90, 90, 90], sgn=225)
    name = ["WulffDecahedron", "WulffIcosahedron"][ctx.index % 2]
    n = size(ctx)
    ctx.describe(name=name, natoms=n, a=a)
    try:
        mv = getattr(wulff, name)(g, {(1, 1, 1): 1.0, (1, 0, 0): 1.1}, .05, n).get_construction()
        mv.populate_atoms()
    except Exception as e:
        ctx.fail(f"{name}.get_construction raises {type(e).__name__}: {e}", key="raises-" + name)
        ctx.observe()
        return
    ctx.check(len(mv.atoms) > 0, f"{name}: no atoms")
    ctx.observe(len(mv.atoms))
