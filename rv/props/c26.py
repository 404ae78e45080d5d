import numpy as np
from scipy.optimize import linprog
from scipy.spatial import Delaunay, cKDTree
from .. import core, gen, model as m
from ..digest import digest
from . import c25

PROP = "C26"
FAMILIES = []
RULE = ("Molecules of one to twelve atoms with any orientation, bonding atom and direction on populated particles, slabs and unions of several "
        "kinds; bond lengths from short to long, rotations about the bond, filters by element, mask, index and place (alone and combined), both "
        "variants of the surface search, with and without seed. Rigid motion, bonding site and direction are read back from the positions.")
ASSUMPTIONS = ["objects have some hundred atoms and a surface atom passes the filters", "directions of linear molecules are judged along their axis only",
               "the outward side is judged on protruding atoms of spheres of monoatomic cubic crystals (the normal comes from an approximate classifier)"]
MIN_EVENTS = {"placements": 60, "accepted": 20, "sites_judged": 40, "directions": 30, "outward": 30, "neighbour_sets": 100, "normals": 300}


def substrate(ctx):
    """(object, convex specs or None, label)"""
    from czone.volume import MultiVolume
    g, cr = gen.crystal(ctx, small=True)
    cr = gen.place(ctx, g, cr)
    n = ctx.randint(60, 350)
    size = gen.size_for(ctx, cr, n)
    c = gen.point(ctx)
    k = ctx.choice(["sphere", "sphere", "prism", "planes", "box", "cyl", "sphere+plane", "union"])
    if k == "union":
        r1, _ = gen.bounded_region(ctx, c, size * .8, "sphere")
        r2, _ = gen.bounded_region(ctx, c + gen.vector(ctx) * 0 + ctx.rng.normal(size=3) * size * .5, size * .8, "box")
        v1 = gen.build_volume(ctx, r1, generator=g, priority=1)
        v2 = gen.build_volume(ctx, r2, generator=g, priority=2)
        o = MultiVolume([v1, v2])
    else:
        r, k = gen.bounded_region(ctx, c, size, k)
        o = gen.build_volume(ctx, r, generator=g)
    o.populate_atoms()
    X = np.asarray(o.atoms)
    if len(X) < 40 or len(X) > 700 or np.linalg.svd(X - X.mean(axis=0), compute_uv=False)[2] < 2:
        raise core.Skip("size of the substrate")
    return o, k


def molecule(ctx):
    from czone.molecule.molecule import Molecule
    n = ctx.choice([1, 2, 3, 3, 4, 5, 8, 12])
    k = ctx.choice(["random", "random", "linear", "planar"]) if n > 2 else "linear"
    X = ctx.rng.normal(size=(n, 3)) * 1.2
    if k == "linear":
        X = np.outer(np.arange(n) * 1.15, gen.vector(ctx) / 1.)
        X = X / max(np.linalg.norm(X[-1]) if n > 1 else 1., 1e-9) * 1.2 * n
    elif k == "planar":
        X[:, 2] = 0
        X = X @ gen.rotation(ctx)[0].T
    X = X + gen.point(ctx, 20.)
    Z = ctx.rng.integers(1, 90, n)
    o = ctx.choice([None, ctx.randint(0, n - 1), gen.point(ctx)])
    mol = Molecule(Z, X, **({} if o is None else dict(origin=o)))
    mol.print_warnings = False
    if ctx.chance(.5):
        mol.orientation = gen.rotation(ctx)[0]
    if ctx.chance(.2):
        mol.priority = 3
    return mol, k


def rigid(A, B):
    """Proper rotation that maps A (centred) best to B, and the residual for it."""
    a, b = A - A.mean(axis=0), B - B.mean(axis=0)
    U, s, Vt = np.linalg.svd(a.T @ b)
    D = np.diag([1, 1, np.sign(np.linalg.det(U @ Vt))])
    R = (U @ D @ Vt).T
    return R, float(np.max(np.linalg.norm(a @ R.T - b, axis=1))), s


def filters_for(ctx, X, Z, may):
    """(filters, allowed mask); at least one sure surface atom stays allowed."""
    n = len(X)
    f, ok = {}, np.ones(n, bool)
    from pymatgen.core import Element
    for kind in [ctx.choice(["element", "mask", "indices", "spatial"]) for _ in range(ctx.randint(0, 3))]:
        if kind == "element":
            els = sorted(set(Z.tolist()))
            pick = [int(e) for e in els if ctx.chance(.6)] or [int(els[0])]
            t = np.isin(Z, pick)
            val = [Element.from_Z(e).symbol if ctx.chance(.5) else e for e in pick]
            if ctx.chance(.3):
                val = val + ["Og"]
        elif kind == "mask":
            t = ctx.rng.random(n) < .6
            val = t.copy()
        elif kind == "indices":
            i = ctx.rng.permutation(n)[:ctx.randint(max(1, n // 3), n)]
            t = np.zeros(n, bool)
            t[i] = True
            if ctx.chance(.3):
                i = np.where(ctx.rng.random(len(i)) < .5, i - n, i)     # counted from the end
            val = i if ctx.chance(.5) else [int(x) for x in i]
        else:
            nrm = ctx.rng.normal(size=3)
            c0 = X.mean(axis=0)
            t = (X - c0) @ nrm > 0

            def val(pts, nrm=nrm, c0=c0):
                return (np.asarray(pts) - c0) @ nrm > 0
        if (may & ok & t).sum() < 3:
            continue
        key = ctx.choice(["", kind, kind]) and kind
        key = kind + ("" if kind not in f and ctx.chance(.4) else ctx.choice([str(len(f)), str(ctx.randint(3, 99)), "_top", "_a", " b", "XX", "-" + str(len(f))]))
        if key in f:
            continue
        f[key] = val
        ok &= t
    return f, ok


@core.family(FAMILIES, 220, 8000, "adsorbates on populated objects")
def adsorbates(ctx):
    from czone.surface.adsorbate import add_adsorbate
    obj, kind = substrate(ctx)
    mol, mk = molecule(ctx)
    if ctx.chance(.2):         # substrate and molecule used before and moved since
        try:
            add_adsorbate(mol, 0, 1.9, obj, probe_radius=float(ctx.rng.uniform(3, 8)), seed=5)
        except Exception:
            ctx.event("first_use_refused")
        t, _, _ = gen.isometry(ctx, scale=6.)
        obj.transform(t)
        obj.populate_atoms()
        if len(obj.atoms) < 40:
            raise core.Skip("size of the substrate")
        t, _, _ = gen.isometry(ctx, scale=6.)
        mol.transform(t)
        ctx.event("used_before")
    X, Z = np.array(obj.atoms), np.array(obj.species)
    n = len(mol.species)
    M0 = np.array(mol.atoms)
    b = ctx.randint(0, n - 1)
    L = float(ctx.choice([.8, 1.5, 2., 3., 6.]) * ctx.rng.uniform(.9, 1.1))
    d = np.median(cKDTree(X).query(X, 2)[0][:, 1])
    probe = float(ctx.choice([1.2, 2., 4.]) * d)
    sampling = ctx.chance(.8)
    tri = Delaunay(X)
    ins, out = c25.classify(tri, X, probe, 1e-4)
    must, may = c25.must_may(tri, ins, out, len(X))
    if must.sum() < 5:
        raise core.Skip("no surface for this probe")
    filt, ok = filters_for(ctx, X, Z, must)
    kw = {}
    vec = np.array([0., 0., 1.])
    if ctx.chance(.6):
        vec = gen.vector(ctx)
        kw["mol_vector"] = ctx.choice([vec, vec, vec.reshape(3, 1), [float(x) for x in vec]])
    if n > 1 and mk == "linear":
        ax = np.linalg.inv(mol.orientation) @ (M0[-1] - M0[0])
        vec = ax * ctx.choice([1., -1., .3])
        kw["mol_vector"] = vec
    ang = 0.
    if ctx.chance(.5):
        ang = float(ctx.choice([np.pi, np.pi / 2, ctx.rng.uniform(-7, 7)]))
        kw["mol_rotation"] = ang
    if filt or ctx.chance(.3):
        kw["filters"] = filt
    if not sampling:
        kw["use_sampling"] = False
    seed = ctx.randint(0, 10**6) if ctx.chance(.8) else None
    if seed is not None:
        kw["seed"] = seed
    if ctx.chance(.2):
        kw["N_shells"] = ctx.randint(1, 4)
    if ctx.chance(.2):
        kw["surface_only"] = False
    ctx.describe(substrate=kind, atoms=len(X), molecule=(mk, n), bond=round(L, 3), probe=round(probe, 3), filters=sorted(filt), seed=seed,
                 options=sorted(kw))
    before = digest(mol), digest(obj)
    names, vals = list(filt), list(filt.values())
    try:
        res, good = add_adsorbate(mol, b, L, obj, probe_radius=probe, **kw)
    except ValueError:
        if sampling or not filt:
            raise
        # without sampling, the surface is that of slightly displaced atoms, which may leave other tetrahedra
        raise core.Skip("no permitted atom on the surface of displaced atoms")
    ctx.check(list(filt) == names and all(f is filt[k] for k, f in zip(names, vals)), "filters were changed")
    ctx.check((digest(mol), digest(obj)) == before, "molecule or volume changed by adding an adsorbate")
    ctx.check(res is not mol, "adsorbate is the molecule itself")
    Y = np.array(res.atoms, float)
    ctx.check(Y.shape == M0.shape and np.all(np.isfinite(Y)), "positions of the adsorbate")
    ctx.check(np.array_equal(res.species, mol.species), "elements of the adsorbate")
    R, dev, s = rigid(M0, Y)
    scale = 1e-8 * max(1., np.max(np.abs(Y)), np.max(np.abs(M0)))
    ctx.check(dev < 100 * scale, "adsorbate is no proper rotation of the molecule", deviation=dev)
    # bonding site
    allowed = ok & (may if sampling else np.ones(len(X), bool))
    dist = np.linalg.norm(X - Y[b], axis=1)
    site = np.flatnonzero(allowed & (np.abs(dist - L) < 1e-6))
    ctx.check(len(site) > 0, "bonded atom is at the bond length of no permitted surface atom", bond=L,
              any_atom=bool(np.any(np.abs(dist - L) < 1e-6)), nearest=float(np.min(np.abs(dist[allowed] - L))))
    ctx.event("sites_judged")
    # direction: along the bond for one of the possible sites
    normals = (Y[b] - X[site]) / L
    u = mol.orientation @ np.asarray(vec, float)
    u = u / np.linalg.norm(u)
    if n > 1 and (mk != "linear"):
        if s[1] < 1e-6 * s[0]:
            raise core.Skip("molecule is linear by accident")
        al = normals @ (R @ u)
        ctx.check(np.max(al) > 1 - 1e-7, "direction of the molecule is not along the bond", cos=np.max(al))
        site, normals = site[al > 1 - 1e-7], normals[al > 1 - 1e-7]
        ctx.event("directions")
    elif n > 1:
        e = (Y[-1] - Y[0]) / np.linalg.norm(Y[-1] - Y[0])
        e0 = (M0[-1] - M0[0]) / np.linalg.norm(M0[-1] - M0[0])
        al = normals @ (e * np.sign(e0 @ u))
        ctx.check(np.max(al) > 1 - 1e-7, "axis of the molecule is not along the bond", cos=np.max(al))
        ctx.event("directions")
    # success
    mm, bb = m.margin_of(obj, Y)
    if not np.any(np.abs(mm) <= bb):
        inside = bool(np.any(mm < 0))
        ctx.check(bool(good) == (not inside), "success is reported wrongly", reported=good, inside=inside)
        ctx.event("accepted" if good else "rejected")
    ctx.event("placements")
    ctx.observe(n)
    if seed is not None and sampling:
        r2, g2 = add_adsorbate(mol, b, L, obj, probe_radius=probe, **kw)
        ctx.check(np.array_equal(r2.atoms, res.atoms) and g2 == good, "seeded placement is not repeatable")
        d2 = float(ctx.rng.uniform(-3, 3))
        kw2 = dict(kw, mol_rotation=ang + d2)
        r3, _ = add_adsorbate(mol, b, L, obj, probe_radius=probe, **kw2)
        A = m.affine_about(m.axis_angle(normals[0], d2), Y[b])
        # bonds to several sites are told apart by the rotation
        best = min(float(np.max(np.abs(m.act(m.affine_about(m.axis_angle(q, d2), Y[b]), Y) - r3.atoms))) for q in normals)
        ctx.check(best < 1e-6, "turning about the bond", deviation=best, angle=d2)
        ctx.event("turned")


@core.family(FAMILIES, 40, 1000, "every permitted site can be chosen, and only those")
def sites(ctx):
    from czone.surface.adsorbate import add_adsorbate
    from czone.molecule.molecule import Molecule
    obj, kind = substrate(ctx)
    X, Z = np.array(obj.atoms), np.array(obj.species)
    d = np.median(cKDTree(X).query(X, 2)[0][:, 1])
    probe = float(2.5 * d)
    tri = Delaunay(X)
    ins, out = c25.classify(tri, X, probe, 1e-4)
    must, may = c25.must_may(tri, ins, out, len(X))
    if must.sum() < 6:
        raise core.Skip("no surface for this probe")
    pick = ctx.rng.permutation(np.flatnonzero(must))[:2]
    deep = np.flatnonzero(~may)
    extra = ctx.rng.permutation(deep)[:3] if len(deep) else np.zeros(0, int)
    mol = Molecule([6, 8], [[0, 0, 0], [0, 0, 1.13]])
    mol.print_warnings = False
    hit = set()
    for s in range(24):
        r, good, nn, pos = add_adsorbate(mol, 0, 1.7, obj, probe_radius=probe, filters={"indices": np.concatenate([pick, extra])}, seed=int(s + 100 * ctx.index), debug=True)
        t = int(good)
        ctx.check(t in pick.tolist(), "atom chosen that is not permitted or not on the surface", atom=t, permitted=pick)
        ctx.close(np.linalg.norm(r.atoms[0] - X[t]), 1.7, 1e-6, "bond length to the chosen atom")
        hit.add(t)
        if hit == set(pick.tolist()) and s > 3:
            break
    ctx.check(hit == set(int(p) for p in pick), "permitted surface atom is never chosen", chosen=sorted(hit), permitted=pick)
    ctx.event("placements", 2)
    ctx.observe(len(hit))
    ctx.describe(kind=kind, atoms=len(X), hidden=len(extra))
    if len(deep):
        ctx.raises(lambda: add_adsorbate(mol, 0, 1.7, obj, probe_radius=probe, filters={"indices": deep[:3]}, seed=1), "only hidden atoms permitted")


@core.family(FAMILIES, 30, 800, "filters no surface atom passes are refused")
def nosite(ctx):
    from czone.surface.adsorbate import add_adsorbate
    from czone.molecule.molecule import Molecule
    obj, kind = substrate(ctx)
    X, Z = np.array(obj.atoms), np.array(obj.species)
    d = np.median(cKDTree(X).query(X, 2)[0][:, 1])
    probe = float(2.5 * d)
    tri = Delaunay(X)
    ins, out = c25.classify(tri, X, probe, 1e-4)
    must, may = c25.must_may(tri, ins, out, len(X))
    deep = np.flatnonzero(~may)
    n = len(X)
    c, nrm = X.mean(axis=0), ctx.rng.normal(size=3)
    half = (X - c) @ nrm > 0
    deepm = np.zeros(n, bool)
    deepm[deep] = True
    def space(mask):
        t = cKDTree(X)
        return lambda pts: mask[t.query(np.asarray(pts))[1]]
    sets = [{"element": ["Og"]}, {"element": [118, 117]}, {"mask": np.zeros(n, bool)}, {"indices": []}, {"spatial": space(np.zeros(n, bool))},
            {"spatial0": space(half), "spatial1": space(~half)}, {"mask0": half, "mask1": ~half}, {"mask": half, "spatial": space(~half)},
            {"indices": np.flatnonzero(half), "mask": ~half}, {"spatial": space(half), "indices": np.flatnonzero(~half)},
            {"element": ["Og"], "spatial": space(half)}, {"spatial": space(half), "element": ["Og"]}]
    if len(deep):
        sets += [{"mask": deepm}, {"spatial": space(deepm)}, {"indices": deep}, {"spatial": space(deepm), "element": [int(z) for z in set(Z.tolist())]}]
    mol = Molecule([6, 8], [[0, 0, 0], [0, 0, 1.13]])
    mol.print_warnings = False
    for k in ctx.rng.permutation(len(sets))[:5]:
        f = sets[k]
        ctx.raises(lambda: add_adsorbate(mol, 0, 1.7, obj, probe_radius=probe, filters=f, seed=int(ctx.index)), "filters that no surface atom passes: " + "+".join(f))
        ctx.event("impossible_filters")
    ctx.observe(5)
    ctx.describe(kind=kind, atoms=n, hidden=len(deep))


@core.family(FAMILIES, 60, 2000, "bonds point away from spherical particles")
def outward(ctx):
    from czone.surface.adsorbate import add_adsorbate
    from czone.molecule.molecule import Molecule
    from czone.generator import Generator
    from czone.volume import Volume, Sphere
    sgn, k = ctx.choice([(225, 4), (229, 2), (227, 8), (221, 1)])
    a = float(ctx.rng.uniform(2.8, 5.6))
    g = Generator.from_spacegroup([29], np.zeros((1, 3)), [a] * 3, [90] * 3, sgn=sgn)
    cr = m.Crystal(g.structure.lattice.matrix, g.structure.frac_coords, [29] * k)
    cr = gen.place(ctx, g, cr)
    n = ctx.randint(150, 500)
    R = (n * a**3 / k * 3 / 4 / np.pi) ** (1 / 3)
    c = gen.point(ctx, 60.)
    o = Volume(alg_objects=[Sphere(radius=R, center=c)], generator=g)
    o.populate_atoms()
    X = np.array(o.atoms)
    d = np.median(cKDTree(X).query(X, 2)[0][:, 1])
    mol = Molecule([6, 8], [[0, 0, 0], [0, 0, 1.13]])
    mol.print_warnings = False
    probe = float(d * ctx.rng.uniform(1.3, 3))
    worst = 1.
    for s in range(3):
        r, good = add_adsorbate(mol, 0, 1.7, o, probe_radius=probe, seed=ctx.randint(0, 10**6))
        Y = np.array(r.atoms)
        t = np.flatnonzero(np.abs(np.linalg.norm(X - Y[0], axis=1) - 1.7) < 1e-6)
        ctx.check(len(t) > 0, "bonded atom is at the bond length of no atom")
        if len(t) > 1:
            continue
        u = X[t[0]] - c
        cos = float((Y[0] - X[t[0]]) @ u / 1.7 / np.linalg.norm(u))
        v = X[np.arange(len(X)) != t[0]] - X[t[0]]
        v = v / np.linalg.norm(v, axis=1)[:, None]
        lp = linprog([0, 0, 0, -1], A_ub=np.c_[v, np.ones(len(v))], b_ub=np.zeros(len(v)), bounds=[(-1, 1)] * 3 + [(None, 1)])
        if lp.status != 0 or -lp.fun < .1:
            continue                # atom is recessed: its neighbours lie on no common side and the normal is undefined
        worst = min(worst, cos)
        ctx.check(cos > 0, "bond does not point out of the particle", cos=cos)
        ctx.close(np.linalg.norm(Y[1] - Y[0]), 1.13, 1e-6, "bond of the molecule")
        ctx.event("outward")
        ctx.observe()
    ctx.describe(sgn=sgn, atoms=len(X), a=round(a, 4), probe=round(probe / d, 3), cos=round(worst, 3))


@core.family(FAMILIES, 80, 3000, "neighbour shells of surface atoms against a search over the tetrahedra")
def shells(ctx):
    from czone.surface.adsorbate import get_nearest_neighbors
    from czone.surface.alpha_shape import alpha_shape_alg_3D, alpha_shape_alg_3D_with_sampling
    X, kind = c25.cloud(ctx, 250)
    probe = c25.probes_for(ctx, X)
    if ctx.chance(.5):
        out, sh = alpha_shape_alg_3D(X, probe, return_alpha_shape=True)
    else:
        out, sh = alpha_shape_alg_3D_with_sampling(X, probe, 5, seed=ctx.index, return_alpha_shape=True)
    tri = sh["tri"]
    if not len(out):
        raise core.Skip("no surface for this probe")
    st = np.asarray(sh["surface_tris"], bool)
    at = np.zeros(len(tri.simplices), bool)
    at[np.asarray(sh["a_tris"], int)] = True
    ctx.check(not (st & ~at).any(), "surface tetrahedra outside of the shape")
    for surf in (True, False):
        use = tri.simplices[st if surf else at]
        nbr = {}
        for s in use.tolist():
            for i in s:
                nbr.setdefault(i, set()).update(s)
        for t in ctx.rng.permutation(np.asarray(sorted(int(i) for i in out)))[:3]:
            t, N = int(t), ctx.randint(1, 5)
            got = get_nearest_neighbors(t, sh, N_shells=N, surface_only=surf) if not (N == 3 and surf and ctx.chance(.5)) else get_nearest_neighbors(t, sh)
            ball = {t}
            for _ in range(N):
                ball = set().union(*(nbr.get(i, {i}) for i in ball))
            ball.discard(t)
            got = [int(i) for i in np.asarray(got).ravel()]
            ctx.check(len(set(got)) == len(got), "neighbour reported twice")
            ctx.check(set(got) == ball, "neighbours of a surface atom", shells=N, surface_only=surf, missing=sorted(ball - set(got))[:5],
                      extra=sorted(set(got) - ball)[:5], n=len(ball))
            ctx.event("neighbour_sets")
            ctx.observe(len(ball))
    ctx.describe(kind=kind, atoms=len(X), probe=round(probe, 3), surface=int(st.sum()), shape=int(at.sum()))


@core.family(FAMILIES, 120, 4000, "approximate normals of neighbours on one side")
def normals(ctx):
    from czone.surface.adsorbate import find_approximate_normal
    worst = 0.
    for _ in range(10):
        ax = m.quat_matrix(ctx.rng.normal(size=4))[:, 2] if ctx.chance(.7) else np.array(ctx.choice([[0, 0, 1.], [0, 0, -1.], [1., 1, 1], [-1., -1, -1], [1., 0, 0]]))
        ax = ax / np.linalg.norm(ax)
        half = ctx.choice([1., 10., 30., 55.])
        n = ctx.randint(1, 40)
        c, ph = ctx.rng.uniform(np.cos(np.radians(half)), 1, n), ctx.rng.uniform(0, 2 * np.pi, n)
        e = np.cross(ax, [.3, -.8, .52])
        e /= np.linalg.norm(e)
        f = np.cross(ax, e)
        P = -(c[:, None] * ax + np.sqrt(1 - c**2)[:, None] * (np.cos(ph)[:, None] * e + np.sin(ph)[:, None] * f))
        P = P * ctx.rng.uniform(.2, 1, (n, 1))
        P0 = P.copy()
        kw = ctx.choice([{}, dict(decay=.95, tol=1e-4), dict(margin=0., max_steps=1000)])
        if ctx.chance(.8):
            kw = dict(kw, seed=ctx.randint(0, 9999))
        w = np.asarray(find_approximate_normal(P, **kw), float)
        ctx.check(np.array_equal(P, P0), "points were changed")
        ctx.check(w.shape == (3,) and np.all(np.isfinite(w)), "normal is not a finite vector", w=w)
        ctx.check(abs(np.linalg.norm(w) - 1) < 1e-9, "normal is not of unit length", length=np.linalg.norm(w))
        ctx.check(np.all(P @ w < 0), "normal does not point away from neighbours that lie on one side", worst=np.max(P @ w), axis=ax, half=half)
        ctx.check(np.array_equal(w, np.asarray(find_approximate_normal(P, **kw))), "normal is not repeatable")
        worst = max(worst, float(np.degrees(np.arccos(np.clip(w @ ax, -1, 1)))))
        ctx.event("normals")
        ctx.observe()
    ctx.describe(worst_angle=round(worst, 1))
