import copy
import numpy as np
from .. import core, gen, model as m
from .c13 import random_strain, strain_map

PROP = "C16"
FAMILIES = []
RULE = ("Placed crystals of every system with homogeneous strains in all notations (3, 6, 9 values, matrix), both coordinate systems "
        "and both kinds of origin, and invertible inhomogeneous fields. Supplied atoms are compared with all sites of the crystal mapped by "
        "an affine map computed from the specification, or mapped back with the inverse of the user's function; populated volumes with all "
        "strained sites in the region. Histories move the generator, its volume and the field.")
ASSUMPTIONS = ["matrices act on row vectors (x @ M)", "inhomogeneous fields can not be inverted by the package, so that completeness of volumes "
               "is only required for homogeneous ones"]
MIN_EVENTS = {"atoms_matched": 60000, "fun_calls": 60, "refusals": 200, "identities": 40}


def box_of(ctx, c, size):
    h = size * ctx.rng.uniform(.5, 1, 3)
    P = np.array([[x, y, z] for x in (-1, 1) for y in (-1, 1) for z in (-1, 1)]) * h
    return P @ gen.rotation(ctx)[0].T + c


def complete(ctx, X, Z, cr, box, what):
    """Supplied atoms are sites of the strained crystal cr, and those in the hull of box are all there."""
    X = np.asarray(X, float)
    lo, hi = X.min(axis=0), X.max(axis=0)
    EX, EZ = cr.sites(np.minimum(lo, box.min(axis=0)), np.maximum(hi, box.max(axis=0)))
    mm = m.margin([("hull", box)], EX)
    # anything may be supplied off the box
    from scipy.spatial import cKDTree
    ctx.check(m.duplicates(X) == 0, f"{what}: duplicated atoms")
    d, i = cKDTree(EX).query(X)
    ctx.check(np.max(d) < 1e-6, f"{what}: atom that is not a strained site", n=int((d >= 1e-6).sum()), of=len(X), worst=d.max())
    ctx.check(np.all(EZ[i] == np.asarray(Z)), f"{what}: element at wrong site")
    hit = np.zeros(len(EX), bool)
    hit[i] = True
    miss = (mm < -1e-6) & ~hit
    ctx.check(not miss.any(), f"{what}: strained sites in the box are missing", n=int(miss.sum()), of=int((mm < 0).sum()))
    ctx.event("atoms_matched", len(X))
    ctx.observe(len(X))


def size_of(ctx, cr, lo, hi):
    return gen.size_for(ctx, cr, ctx.randint(lo, hi))


@core.family(FAMILIES, 160, 6000, "supplied atoms of homogeneously strained generators through a history")
def homogeneous(ctx):
    g, cr = gen.crystal(ctx, small=True)
    cr = gen.place(ctx, g, cr)
    size = size_of(ctx, cr, 30, 120)
    log = []
    spec = {}
    strained = False
    if ctx.chance(.2):
        # attached by constructor
        from czone.generator import Generator
        g = Generator(structure=g.structure)
        cr = m.Crystal(cr.rows, cr.frac, cr.Z)
        s, A, label = random_strain(ctx, cr.basis, cr.origin, full=spec)
        g = Generator(structure=g.structure, strain_field=s)
        strained = True
        log.append("constructor " + label)
    for step in range(ctx.randint(1, 4)):
        op = "strain" if not strained else ctx.choice(["strain", "transform", "origin", "matrix", "copy", "none", "mode", "fixed point", "scale"])
        if op == "strain":
            s, A, label = random_strain(ctx, cr.basis, cr.origin, full=spec)
            g.strain_field = s
            strained = True
            op += " " + label
        elif op == "transform":
            bo = ctx.chance(.3)
            t, T, k = gen.isometry(ctx, basis_only=bo)
            g.transform(t)
            cr = cr.moved_basis_only(T[:3, :3]) if bo else cr.moved(T)
            op += " " + k
        elif op == "origin":
            o = gen.point(ctx)
            if ctx.chance(.3):
                o = np.round(o * 2)
            g.origin = gen.form(ctx, o[None])[0]
            cr = cr.with_origin(o)
        elif op == "matrix":
            M = np.eye(3) + ctx.rng.normal(size=(3, 3)) * .05
            if ctx.chance(.2):
                M = ctx.choice([np.array([[1, 0, 0], [1, 1, 0], [0, 0, 1]]), np.diag([1, 1, 2]), np.array([[1, 0, 1], [0, 1, 0], [0, 0, 1]])])
            g.strain_field.matrix = M
            spec["M"] = M
        elif op == "mode":
            spec["mode"] = ctx.choice(["crystal", "standard"])
            g.strain_field.mode = spec["mode"]
        elif op == "fixed point":
            if spec["origin"] is not None:
                spec["origin"] = gen.point(ctx)
                g.strain_field.origin = spec["origin"].copy()
        elif op == "scale":
            sc = float(ctx.rng.uniform(.8, 1.25))
            g.voxel.scale = np.array([sc]) * g.voxel.scale
            p = np.array(cr.pose)
            p[:3, :3] *= sc
            cr = m.Crystal(cr.rows, cr.frac, cr.Z, p)
        elif op == "copy":
            g = g.from_generator() if ctx.chance(.5) else copy.deepcopy(g)
        log.append(op)
        o = spec["origin"] if spec["origin"] is not None else cr.origin
        A = strain_map(cr.basis, np.array(o, float), spec["M"], spec["mode"])
        c = m.act(A, cr.origin) + ctx.rng.normal(size=3) * 3
        box = box_of(ctx, c, size)
        b = box.copy()
        box = gen.reused(ctx, box, g.supply_atoms, p=.2)
        X, Z = g.supply_atoms(box)
        ctx.check(np.array_equal(b, box), "box was changed")
        if len(X) == 0:
            continue
        complete(ctx, X, Z, cr.moved(A), box, "supplied atoms after " + op)
        # the field itself
        P = c + ctx.rng.normal(size=(20, 3)) * 5
        Q = P.copy()
        f = g.strain_field
        f.scrape_params(g)
        ctx.close(f.apply_strain(P), m.act(A, P), 1e-8 * (1 + np.max(np.abs(P))), "strained points")
        ctx.check(np.array_equal(P, Q), "points handed to the field were changed")
        E = m.act(A, P)
        for kk in gen.batches(ctx, len(P), 4):
            ctx.close(f.apply_strain(gen.form(ctx, P[kk])), E[kk], 1e-8 * (1 + np.max(np.abs(P))), "strain of a few points")
            ctx.close(f.apply_strain(gen.reused(ctx, P[kk], f.apply_strain)), E[kk], 1e-8 * (1 + np.max(np.abs(P))), "strain of points in an array used before")
            ctx.event("batches:" + str(len(kk)))
        I = np.round(P)
        ctx.close(f.apply_strain(gen.form(ctx, I)), m.act(A, I), 1e-8 * (1 + np.max(np.abs(P))), "strain of whole numbers")
        ctx.state(spec["mode"], spec["origin"] is None, op.split()[0])
    ctx.describe(log=log)


@core.family(FAMILIES, 110, 4000, "volumes with strained crystals are filled")
def volumes(ctx):
    g, cr = gen.crystal(ctx, small=True)
    cr = gen.place(ctx, g, cr)
    spec = {}
    s, A, label = random_strain(ctx, cr.basis, cr.origin, size=ctx.choice([.02, .08, .15]), full=spec)
    L = A[:3, :3]
    if np.linalg.svd(L)[1].min() < .4:
        raise core.Skip("nearly singular strain")
    if ctx.chance(.7):
        g.strain_field = s
        v_s = None
    else:
        v_s = s
    size = size_of(ctx, cr, 40, 250)
    c = gen.point(ctx, 12.)
    reg, rk = gen.bounded_region(ctx, c, size)
    v = gen.build_volume(ctx, reg, generator=g)
    if v_s is not None:
        v.generator.strain_field = v_s
    log = []
    for step in range(ctx.randint(1, 3)):
        o = spec["origin"] if spec["origin"] is not None else cr.origin
        A = strain_map(cr.basis, np.array(o, float), spec["M"], spec["mode"])
        v.populate_atoms()
        lo, hi = gen.region_box(reg)
        if not (np.all(np.isfinite(lo)) and np.all(np.isfinite(hi))):
            raise core.Skip("empty")
        EX, EZ = cr.moved(A).sites(lo, hi)
        m.compare_sites(ctx, v.atoms, v.species, EX, EZ, m.margin(reg, EX), m.band_of(reg, EX), f"strained volume ({rk}, {label})")
        locked = ctx.chance(.7)
        t, T, k = gen.isometry(ctx, locked=locked)
        v.transform(t)
        reg = [m.move(x, T) for x in reg]
        if locked:
            cr = cr.moved(T)
        log.append(k + ("" if locked else "/unlocked"))
    ctx.describe(region=rk, strain=label, log=log)


@core.family(FAMILIES, 6, 150, "strains of thousands of atoms, origins far away")
def large(ctx):
    from czone.transform.strain import IStrain
    g, cr = gen.crystal(ctx, small=True)
    cr = gen.place(ctx, g, cr, scale=ctx.choice([10., 500.]))
    spec = {}
    s, A, label = random_strain(ctx, cr.basis, cr.origin, size=.05, full=spec)
    g.strain_field = s
    box = box_of(ctx, m.act(A, cr.origin) + ctx.rng.normal(size=3) * 20, gen.size_for(ctx, cr, ctx.choice([2500, 6000, 11000])))
    X, Z = g.supply_atoms(box.copy())
    if len(X):
        complete(ctx, X, Z, cr.moved(A), box, "thousands of strained atoms")
    P = cr.origin + ctx.rng.normal(size=(ctx.choice([1025, 5001, 20000]), 3)) * 10 ** ctx.rng.uniform(0, 4)
    f = g.strain_field
    f.scrape_params(g)
    ctx.close(f.apply_strain(np.array(P)), m.act(A, P), 1e-8 * (1 + np.max(np.abs(P))), "thousands of strained points")
    o = gen.point(ctx)
    f = IStrain(lambda x, **kw: x + np.outer(np.sin(x[:, 0]), [0, 0, .2]), origin=o.copy(), mode="standard")
    Y = P - o
    ctx.close(f.apply_strain(np.array(P)), o + Y + np.outer(np.sin(Y[:, 0]), [0, 0, .2]), 1e-8 * (1 + np.max(np.abs(P))), "thousands of points in a field")
    ctx.describe(strain=label, atoms=len(X), points=len(P))
    ctx.event("large_strains")


@core.family(FAMILIES, 50, 1500, "identity strains change nothing")
def identity(ctx):
    from czone.transform.strain import HStrain, IStrain
    g, cr = gen.crystal(ctx, small=True)
    cr = gen.place(ctx, g, cr)
    size = size_of(ctx, cr, 30, 150)
    c = gen.point(ctx)
    box = box_of(ctx, c, size)
    kw = {}
    if ctx.chance(.5):
        kw["mode"] = ctx.choice(["crystal", "standard"])
    if ctx.chance(.5):
        kw["origin"] = gen.point(ctx)
    k = ctx.choice(["none", "3", "6", "9", "33", "field", "field-fun"])
    arg = {"none": None, "3": [1, 1, 1], "6": np.array([1, 1, 1, 0, 0, 0]), "9": np.eye(3).ravel(), "33": np.eye(3)}.get(k)
    if k == "none":
        f = HStrain(**kw)
    elif k == "field":
        f = IStrain(**kw)
    elif k == "field-fun":
        f = IStrain(lambda x, **kws: x, **kw)
    else:
        f = HStrain(arg, **kw)
    X, Z = g.supply_atoms(box)
    g.strain_field = f
    Y, W = g.supply_atoms(box)
    mx, my = m.margin([("hull", box)], X), m.margin([("hull", box)], Y)
    m.same_atoms(ctx, X[mx < 1e-4], Z[mx < 1e-4], Y[my < 1e-4], W[my < 1e-4], "identity strain",
                 ignore=lambda P: np.abs(m.margin([("hull", box)], P)) < 2e-4)
    complete(ctx, Y, W, cr, box, "identity strain")
    ctx.event("identities")
    ctx.describe(kind=k, kw={a: np.round(b, 3) if a == "origin" else b for a, b in kw.items()})


FIELDS = {
    # name: (fun, inverse) in the coordinates the function is given; w is a length scale
    "wave-z": (lambda x, a, w: x + np.outer(a * np.sin(x[:, 0] / w), [0, 0, 1]), lambda x, a, w: x - np.outer(a * np.sin(x[:, 0] / w), [0, 0, 1])),
    "wave-x": (lambda x, a, w: x + np.outer(a * np.cos(x[:, 1] / w), [1, 0, 0]), lambda x, a, w: x - np.outer(a * np.cos(x[:, 1] / w), [1, 0, 0])),
    "bend": (lambda x, a, w: x + np.outer(a * (x[:, 2] / w) ** 2, [0, 1, 0]), lambda x, a, w: x - np.outer(a * (x[:, 2] / w) ** 2, [0, 1, 0])),
    "shift": (lambda x, a, w: x + a, lambda x, a, w: x - a),
}


@core.family(FAMILIES, 90, 3500, "inhomogeneous fields apply the user's function in the chosen coordinates")
def inhomogeneous(ctx):
    from czone.transform.strain import IStrain
    g, cr = gen.crystal(ctx, small=True)
    cr = gen.place(ctx, g, cr)
    mode = ctx.choice(["crystal", "standard"])
    name = ctx.choice(list(FIELDS))
    fwd, inv = FIELDS[name]
    a, w = float(ctx.rng.uniform(.05, .4)), float(ctx.rng.uniform(2, 6))
    calls = []
    by_kw = ctx.chance(.5)

    if by_kw:
        def fun(x, amp, width, **kw):
            calls.append((np.array(x), dict(kw)))
            return fwd(x, amp, width)
        kw = dict(amp=a, width=w)
    else:
        def fun(x, **kw):
            calls.append((np.array(x), dict(kw)))
            return fwd(x, a, w)
        kw = {}
    if mode == "standard" or ctx.chance(.5):
        kw["mode"] = mode
    pt = gen.point(ctx) if ctx.chance(.5) else None
    if pt is not None:
        kw["origin"] = pt.copy()
    f = IStrain(fun, **kw)
    calls_at = len(calls)
    g.strain_field = f
    log = []
    for step in range(ctx.randint(1, 3)):
        B = cr.basis if mode == "crystal" else np.eye(3)
        o = pt if pt is not None else np.array(cr.origin, float)
        size = size_of(ctx, cr, 30, 120)
        box = box_of(ctx, cr.origin + ctx.rng.normal(size=3) * 2, size)
        # the field has to be a copy of ours or ours: look at what it was given
        X, Z = g.supply_atoms(box)
        Binv = np.linalg.inv(B)
        Y = inv((X - o) @ Binv.T, a, w) @ B.T + o         # unstrained positions
        k, cell = cr.is_site(Y, 1e-6 * (1 + np.max(np.abs(X)) / 10))
        ctx.check(np.all(k >= 0), "atom is not the image of a site under the user's function", n=int((k < 0).sum()), of=len(X), mode=mode,
                  field=name)
        ctx.check(np.all(cr.Z[k] == Z), "element of a strained atom")
        ctx.check(m.duplicates(Y) == 0, "site strained twice")
        EX, EZ = cr.sites(box.min(axis=0), box.max(axis=0))
        inside = m.margin([("hull", box)], EX) < -1e-6
        if inside.any():
            from scipy.spatial import cKDTree
            d, _ = cKDTree(Y).query(EX[inside])
            ctx.check(np.max(d) < 1e-5, "site of the box was lost by the field", n=int((d > 1e-5).sum()))
        ctx.event("atoms_matched", len(X))
        ctx.observe(len(X))
        P = o + ctx.rng.normal(size=(15, 3)) * 4
        Q = P.copy()
        f2 = g.strain_field
        f2.scrape_params(g)
        n = len(calls)
        E = fwd((P - o) @ Binv.T, a, w) @ B.T + o
        ctx.close(f2.apply_strain(P), E, 1e-8 * (1 + np.max(np.abs(P))), "points strained by the field", mode=mode)
        ctx.check(np.array_equal(P, Q), "points handed to the field were changed")
        n2 = len(calls)
        for kk in gen.batches(ctx, len(P), 3):
            ctx.close(f2.apply_strain(gen.form(ctx, P[kk])), E[kk], 1e-8 * (1 + np.max(np.abs(P))), "few points strained by the field")
        del calls[n2:]
        if len(calls) > n:          # a deep copy of a closure shares its cells
            x, kws = calls[-1]
            ctx.close(x, (P - o) @ Binv.T, 1e-9 * (1 + np.max(np.abs(x))), "coordinates handed to the user's function", mode=mode)
            if mode == "crystal":
                ctx.check("basis" in kws, "function is not told the basis", kws=list(kws))
                ctx.close(kws["basis"], B, 1e-9 * np.max(np.abs(B)), "basis handed to the user's function")
            ctx.event("fun_calls")
        op = ctx.choice(["transform", "origin", "amplitude"])
        if op == "transform":
            t, T, lab = gen.isometry(ctx)
            g.transform(t)
            cr = cr.moved(T)
            op += " " + lab
        elif op == "origin":
            oo = gen.point(ctx)
            g.origin = oo.copy()
            cr = cr.with_origin(oo)
        elif by_kw:
            a = a * .7
            g.strain_field.fun_kwargs = dict(amp=a, width=w)
        log.append(op)
    ctx.describe(field=name, mode=mode, origin="point" if pt is not None else "generator", kwargs=by_kw, log=log)


@core.family(FAMILIES, 60, 1000, "invalid fields are refused, valid ones next to them are not")
def refusals(ctx):
    from czone.transform.strain import HStrain, IStrain
    rng = ctx.rng
    bad = ctx.choice([rng.normal(size=2), rng.normal(size=4), rng.normal(size=5), rng.normal(size=7), rng.normal(size=8), rng.normal(size=10),
                      rng.normal(size=(2, 3)), rng.normal(size=(3, 2)), rng.normal(size=(4, 4)), rng.normal(size=(2, 2)), 1.0, [[1, 2], [3, 4]]])
    ctx.raises(lambda: HStrain(bad), "strain matrix of wrong shape")
    M = np.eye(3) + rng.normal(size=(3, 3)) * .1
    s = HStrain(M)
    ctx.raises(lambda: setattr(s, "matrix", bad), "strain matrix of wrong shape set later")
    ctx.close(s.matrix, M, 0, "matrix after refusal")
    md = ctx.choice(["Crystal", "cartesian", "", None, 3, "generator", "STANDARD"])
    ctx.raises(lambda: HStrain(M, mode=md), f"strain mode {md!r}")
    ctx.raises(lambda: IStrain(lambda x, **k: x, mode=md), f"strain mode {md!r} of a field")
    ctx.raises(lambda: setattr(s, "mode", md), f"strain mode {md!r} set later")
    ctx.check(s.mode == "crystal", "mode after refusal")
    f = ctx.choice([lambda x, **k: x[:, :2], lambda x, **k: x[:-1], lambda x, **k: x.T, lambda x, **k: x[:, 0], lambda x, **k: x[None]])
    ctx.raises(lambda: IStrain(f), "strain function returning a wrong shape")
    i = IStrain(lambda x, **k: x * 1.5)
    ctx.raises(lambda: setattr(i, "strain_fun", f), "strain function returning a wrong shape, set later")
    i.mode = "standard"
    i.origin = np.zeros(3)
    P = rng.normal(size=(5, 3))
    ctx.close(i.apply_strain(P), 1.5 * P, 1e-12, "function after refusal")
    ctx.raises(lambda: IStrain(lambda x, **k: x, origin=rng.normal(size=ctx.choice([2, 4]))), "origin of wrong size")
    ctx.raises(lambda: HStrain(M, origin=rng.normal(size=ctx.choice([2, 4]))), "origin of wrong size")
    ctx.raises(lambda: setattr(i, "fun_kwargs", [1, 2]), "keyword arguments that are none")
    # parameters that are replaced leave nothing of the old ones behind
    v = dict(zip("abc", rng.uniform(1, 2, 3)))
    m = IStrain(lambda x, a=0., b=0., c=0., **k: x + [a, b, c], mode="standard", origin=np.zeros(3), **v)
    ctx.close(m.apply_strain(P), P + list(v.values()), 1e-12, "function with its parameters")
    for _ in range(3):
        new = {k: float(rng.uniform(1, 2)) for k in "abc" if ctx.chance(.5)}
        m.fun_kwargs = dict(new)
        ctx.close(m.apply_strain(P), P + [new.get(k, 0.) for k in "abc"], 1e-12, "function after its parameters were replaced", new=new)
        ctx.event("parameters_replaced")
    # notations agree
    v = np.concatenate([1 + rng.normal(size=3) * .1, rng.normal(size=3) * .1])
    r = rng.random()
    if r < .5:         # single components, also negative, small and large ones
        v = np.where(rng.random(6) < .35, v, [1, 1, 1, 0, 0, 0])
    elif r < .75:
        v = rng.normal(size=6) * 10 ** rng.uniform(-12, 3, 6) * (rng.random(6) < .7)
    full = np.array([[v[0], v[5], v[4]], [v[5], v[1], v[3]], [v[4], v[3], v[2]]])
    for arg in (v, list(v), v.reshape(6, 1), full, full.ravel(), full.tolist()):
        ctx.close(HStrain(arg).matrix, full, 0, "matrix given as values")
    for arg in (v[:3], list(v[:3]), v[:3].reshape(3, 1), np.diag(v[:3])):
        ctx.close(HStrain(arg).matrix, np.diag(v[:3]), 0, "matrix given as three values")
    g, cr = gen.crystal(ctx, source="cell")
    ctx.raises(lambda: setattr(g, "strain_field", ctx.choice([M, lambda x: x, "strain", None])), "strain field of a wrong type")
    ctx.check(g.strain_field is None, "strain field after refusal")
    ctx.observe(10)
    ctx.describe(bad=np.shape(bad), mode=md)
