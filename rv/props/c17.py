import numpy as np
from scipy import stats
from .. import core, gen, model as m

PROP = "C17"
FAMILIES = []
RULE = ("Arrays of atoms of one to five elements and placed crystals; substitutions with one to three targets (also swaps and chains), rates "
        "from 0 to 1, with and without seed; sequences of random members, nested; user functions that record what they get. Rates are judged "
        "with binomial tests, independence by the spread and by correlations over atoms.")
ASSUMPTIONS = ["statistical tests accept with probability above 1 - 1e-9 each"]
MIN_EVENTS = {"substituted": 20000, "kept": 20000, "seeded_pairs": 150, "user_calls": 60, "supplied": 60}
EPS = 1e-10


def species(ctx, n):
    els = [5, 6, 7, 14, 22, 26, 29, 47, 79]
    if ctx.chance(.1):
        els += [118, 150, 262, 1006]            # labels beyond the elements
    els = ctx.rng.choice(els, ctx.randint(1, 5), replace=False)
    z = ctx.rng.choice(els, n)
    if ctx.chance(.5):
        z = z.astype(float)
    return z, els


def targets(ctx, els, twice=False):
    k = ctx.randint(1, min(3, len(els)))
    t = ctx.rng.choice(els, k, replace=False)
    r = ctx.rng.random()
    if r < .3 and k > 1:
        s = np.roll(t, 1)                       # swaps and cycles
    elif r < .5:
        s = np.full(k, 92)
    elif r < .7:
        s = ctx.rng.choice(els, k)
    else:
        s = ctx.rng.choice([1, 3, 31, 33, 50, 82], k)
    if twice and ctx.chance(.1):                # a target named twice: other pairs keep their substitutes
        j = ctx.randint(0, k - 1)
        t, s = np.insert(t, j, t[j]), np.insert(s, j, 30)
    return [int(x) for x in t], [int(x) for x in s]


def judge(ctx, X, Z, Y, W, t, s, frac, what):
    """Result of one substitution of (X, Z)."""
    ctx.check(np.shape(Y) == np.shape(X) and np.shape(W) == np.shape(Z), f"{what}: number of atoms")
    ctx.check(np.array_equal(X, Y), f"{what}: atoms were moved")
    Z, W = np.asarray(Z), np.asarray(W)
    other = ~np.isin(Z, t)
    ctx.check(np.array_equal(Z[other], W[other]), f"{what}: element that is no target was changed")
    for a, b in zip(t, s):
        sel = Z == a
        if list(t).count(a) > 1:                # either of the substitutes will do
            subs = [y for x, y in zip(t, s) if x == a]
            ctx.check(np.all(np.isin(W[sel], subs + [a])), f"{what}: target named twice became something else")
            ctx.check(frac != 1 or a in subs or np.all(W[sel] != a), f"{what}: target named twice is left at rate 1")
            ctx.check(frac != 0 or np.all(W[sel] == a), f"{what}: target named twice was substituted at rate 0")
            continue
        if a == b:
            ctx.check(np.all(W[sel] == a), f"{what}: substitute is the target itself")
            continue
        hit = W[sel] == b
        ctx.check(np.all(hit | (W[sel] == a)), f"{what}: target became something else", target=a, substitute=b,
                  got=np.unique(W[sel]))
        n, k = int(sel.sum()), int(hit.sum())
        if frac == 0:
            ctx.check(k == 0, f"{what}: substituted at rate 0", n=k)
        elif frac == 1:
            ctx.check(k == n, f"{what}: not substituted at rate 1", n=n - k)
        elif n:
            p = min(stats.binom.cdf(k, n, frac), stats.binom.sf(k - 1, n, frac))
            ctx.check(p > EPS, f"{what}: rate", rate=frac, substituted=k, of=n, p=p)
        ctx.event("substituted", k)
        ctx.event("kept", n - k)
    ctx.observe(len(Z))


def rate(ctx):
    return ctx.choice([0, 1, 0., 1., .5, .1, .9, .01, float(ctx.rng.uniform(0, 1)), float(ctx.rng.uniform(0, 1))])


@core.family(FAMILIES, 160, 8000, "substitution of arrays of atoms")
def arrays(ctx):
    from czone.transform.post import ChemicalSubstitution
    n = ctx.choice([1, 2, 3, 7, 100, 500, 3000]) if ctx.chance(.97) else ctx.choice([11000, 20000, 70000])
    Z, els = species(ctx, n)
    X = ctx.rng.normal(size=(n, 3)) * 10
    t, s = targets(ctx, els, twice=True)
    f = rate(ctx)
    if ctx.chance(.2):                          # attributes replaced after use
        c = ChemicalSubstitution(*targets(ctx, els), rate(ctx))
        c.apply_function(X, Z)
        c.target, c.substitute, c.frac = t, s, f
        ctx.event("used_substitutions")
    else:
        c = ChemicalSubstitution(t if ctx.chance(.7) else np.array(t), s, f)
    if ctx.chance(.2):                          # same arrays with other contents
        keep = Z.copy()
        Z[...] = Z[ctx.rng.permutation(n)]
        c.apply_function(X, Z)
        Z[...] = keep
        ctx.event("reused_arrays")
    X0, Z0 = X.copy(), Z.copy()
    runs = []
    for _ in range(3):
        Y, W = c.apply_function(X, Z)
        ctx.check(np.array_equal(X, X0) and np.array_equal(Z, Z0), "arrays handed in were changed")
        judge(ctx, X0, Z0, Y, W, t, s, f, "substitution")
        runs.append(np.array(W))
    sel = np.isin(Z, t)
    for a, b in zip(t, s):
        if a == b or t.count(a) > 1:
            sel &= Z != a
    if 0 < f < 1 and f * (1 - f) * sel.sum() > 40:
        ctx.check(not np.array_equal(runs[0], runs[1]) or not np.array_equal(runs[1], runs[2]), "unseeded calls give the same result")
        # agreement of two independent calls: f^2 + (1-f)^2
        k = int(((runs[0] != Z) == (runs[1] != Z))[sel].sum())
        q = f * f + (1 - f) ** 2
        N = int(sel.sum())
        p = min(stats.binom.cdf(k, N, q), stats.binom.sf(k - 1, N, q))
        ctx.check(p > EPS, "unseeded calls are not independent", agree=k, of=N, expected=q)
        # neighbours in the list are independent
        d = (runs[0] != Z)[sel].astype(float)
        k = int((d[1:] == d[:-1])[::2].sum())
        p = min(stats.binom.cdf(k, len(d[1:][::2]), q), stats.binom.sf(k - 1, len(d[1:][::2]), q))
        ctx.check(p > EPS, "atoms are not decided independently", agree=k, of=len(d[1:][::2]), expected=q)
        ctx.event("independence_tests", 2)
    # seeded
    sd = ctx.randint(0, 2**31)
    a = c.apply_function(X, Z, seed=sd)[1]
    junk = np.random.rand(ctx.randint(0, 5))
    b = c.apply_function(X.copy(), Z.copy(), seed=sd)[1]
    ctx.check(np.array_equal(a, b), "seeded call is not repeatable")
    judge(ctx, X0, Z0, X, a, t, s, f, "seeded substitution")
    ctx.event("seeded_pairs")
    if 0 < f < 1 and f * (1 - f) * sel.sum() > 40:
        e = c.apply_function(X, Z, seed=sd + 1)[1]
        ctx.check(not np.array_equal(a, e), "seeds do not matter")
        # the decision does not depend on which elements come with it
        k = int(((a != Z) == (e != Z))[sel].sum())
        q = f * f + (1 - f) ** 2
        N = int(sel.sum())
        p = min(stats.binom.cdf(k, N, q), stats.binom.sf(k - 1, N, q))
        ctx.check(p > EPS, "calls with different seeds are not independent", agree=k, of=N, expected=q)
    ctx.describe(n=n, t=t, s=s, rate=f)


@core.family(FAMILIES, 50, 1500, "two targets of one substitution are decided independently")
def joint(ctx):
    from czone.transform.post import ChemicalSubstitution
    n = 1500
    Z = np.tile([26, 29], n)
    X = ctx.rng.normal(size=(2 * n, 3))
    f = float(ctx.rng.uniform(.2, .8))
    c = ChemicalSubstitution([26, 29], [47, 79], f)
    sd = ctx.choice([None, 3, 77])
    W = c.apply_function(X, Z, **({} if sd is None else dict(seed=sd)))[1]
    judge(ctx, X, Z, X, W, [26, 29], [47, 79], f, "two targets")
    d = (W != Z).reshape(-1, 2)
    q = f * f + (1 - f) ** 2
    k = int((d[:, 0] == d[:, 1]).sum())
    p = min(stats.binom.cdf(k, n, q), stats.binom.sf(k - 1, n, q))
    ctx.check(p > EPS, "neighbouring targets are not independent", agree=k, of=n, expected=q)
    # spread of the number over many calls is binomial
    K = np.array([int((c.apply_function(X[:200], Z[:200])[1] != Z[:200]).sum()) for _ in range(60)])
    v = K.var(ddof=1) / (200 * f * (1 - f)) * 59
    p = min(stats.chi2.cdf(v, 59), stats.chi2.sf(v, 59))
    ctx.check(p > EPS, "number of substituted atoms does not spread like independent decisions", variance=K.var(ddof=1), expected=200 * f * (1 - f))
    ctx.observe(2 * n)
    ctx.describe(rate=f, seed=sd)


def make_member(ctx, els, log):
    """(transform, apply(X, Z) or None if random)"""
    from czone.transform.post import ArbitraryPostTransform, ChemicalSubstitution
    k = ctx.choice(["shift", "scale", "drop", "add", "swap", "fixed", "sort", "relabel"])
    a = float(ctx.rng.uniform(.1, 2))
    i = ctx.randint(0, 2)
    if k == "shift":
        f = lambda X, Z: (X + a, Z)
    elif k == "scale":
        f = lambda X, Z: (X * (1 + a), Z)
    elif k == "drop":
        f = lambda X, Z: (X[X[:, i] > -a * 5], Z[X[:, i] > -a * 5])
    elif k == "add":
        f = lambda X, Z: (np.vstack([X, X[:1] + a]), np.append(Z, 1))
    elif k == "swap":
        f = lambda X, Z: (X[:, [1, 0, 2]], Z)
    elif k == "sort":
        f = lambda X, Z: (X[np.argsort(X[:, i], kind="stable")], Z[np.argsort(X[:, i], kind="stable")])
    elif k == "relabel":
        f = lambda X, Z: (X, Z + 1)
    else:
        t, s = targets(ctx, els)
        one = ctx.choice([0, 1])

        def f(X, Z):
            W = np.array(Z)
            if one:
                for p, q in zip(t, s):
                    W[np.asarray(Z) == p] = q
            return X, W
        log.append(f"substitute {t}->{s} at {one}")
        return ChemicalSubstitution(t, s, one), f
    log.append(k)
    return (lambda fn: (ArbitraryPostTransform(fn), fn))(f)


@core.family(FAMILIES, 120, 5000, "sequences apply their members in order, nested or not")
def sequences(ctx):
    from czone.transform.post import PostSequence
    n = ctx.randint(1, 60)
    Z, els = species(ctx, n)
    X = ctx.rng.normal(size=(n, 3)) * 5
    log = []
    mem = [make_member(ctx, els, log) for _ in range(ctx.randint(0, 5))]
    how = ctx.choice(["list", "add one by one", "add list", "nested"])
    T = [p[0] for p in mem]
    if how == "list":
        q = PostSequence(list(T))
    elif how == "add list":
        k = ctx.randint(0, len(T))
        q = PostSequence(T[:k])
        q.add_transform(T[k:])
    elif how == "nested" and len(T) > 1:
        k = ctx.randint(1, len(T) - 1)
        q = PostSequence([PostSequence(T[:k])] + T[k:])
    else:
        q = PostSequence([]) if ctx.chance(.5) else PostSequence(None)
        for x in T:
            q.add_transform(x)
    for rnd in range(2):
        EX, EZ = X.copy(), Z.copy()
        for _, f in mem:
            EX, EZ = f(EX, EZ)
        Y, W = q.apply_function(X.copy(), Z.copy())
        ctx.check(np.shape(Y) == np.shape(EX), "sequence: number of atoms", got=np.shape(Y), expected=np.shape(EX), log=log)
        ctx.close(Y, EX, 1e-12 * (1 + np.max(np.abs(EX)) if len(EX) else 1), "sequence: positions", log=log)
        ctx.check(np.array_equal(np.asarray(W), np.asarray(EZ)), "sequence: species", log=log)
        ctx.observe(len(EX))
        x = make_member(ctx, els, log)
        mem.append(x)
        q.add_transform(x[0])
    from czone.transform.post import ChemicalSubstitution
    ctx.raises(lambda: PostSequence([lambda X, Z: (X, Z)]), "sequence of something else")
    ctx.raises(lambda: q.add_transform("x"), "member of a wrong type")
    ctx.raises(lambda: ChemicalSubstitution([1, 2], [3], .5), "targets without substitutes")
    # seeds are handed through
    c = ChemicalSubstitution([int(els[0])], [92], .5)
    s = PostSequence([c])
    Zb = np.full(200, int(els[0]))
    Xb = ctx.rng.normal(size=(200, 3))
    a, b = s.apply_function(Xb, Zb, seed=5)[1], s.apply_function(Xb, Zb, seed=5)[1]
    ctx.check(np.array_equal(a, b), "seeded sequence is not repeatable")
    ctx.event("seeded_pairs")
    ctx.describe(log=log, how=how, n=n)


@core.family(FAMILIES, 80, 3000, "user functions get and give the atoms as they are")
def user_functions(ctx):
    from czone.transform.post import ArbitraryPostTransform, PostSequence
    n = ctx.randint(1, 50)
    Z, els = species(ctx, n)
    X = ctx.rng.normal(size=(n, 3)) * 5
    got = []
    ret = (ctx.rng.normal(size=(ctx.randint(0, 20), 3)), None)
    ret = (ret[0], ctx.rng.integers(1, 90, len(ret[0])))

    def fun(p, s):
        got.append((np.array(p), np.array(s)))
        return ret
    T = ArbitraryPostTransform(fun)
    if ctx.chance(.3):
        T = PostSequence([T])
    Y, W = T.apply_function(X, Z)
    ctx.check(len(got) == 1, "function was not called once", n=len(got))
    ctx.check(np.array_equal(got[0][0], X) and np.array_equal(got[0][1], Z), "function received other atoms")
    ctx.check(np.array_equal(Y, ret[0]) and np.array_equal(W, ret[1]), "result of the function was changed")
    ctx.event("user_calls")
    ctx.observe(n)
    ctx.describe(n=n, out=len(ret[0]))


@core.family(FAMILIES, 90, 3500, "post-transformations of generators and volumes")
def generators(ctx):
    from czone.transform.post import ArbitraryPostTransform, ChemicalSubstitution, PostSequence
    from .c13 import random_strain
    g, cr = gen.crystal(ctx, small=True)
    cr = gen.place(ctx, g, cr)
    strain = np.eye(4)
    if ctx.chance(.35):
        g.strain_field, strain, _ = random_strain(ctx, cr.basis, cr.origin)
    els = np.unique(cr.Z)
    t, s = targets(ctx, els)
    f = rate(ctx)
    kind = ctx.choice(["substitution", "function", "sequence"])
    calls = []

    def keep_half(P, S):
        calls.append((np.array(P), np.array(S)))
        k = P[:, 2] > o[2]
        return P[k], S[k] + 1
    o = np.array(cr.origin)
    sub = ChemicalSubstitution(t, s, f)
    arb = ArbitraryPostTransform(keep_half)
    g.post_transform = {"substitution": sub, "function": arb, "sequence": PostSequence([arb, sub])}[kind]
    size = gen.size_for(ctx, cr, ctx.randint(100, 300))
    c = o + ctx.rng.normal(size=3) * 2
    reg, rk = gen.bounded_region(ctx, c, size, ctx.choice(["sphere", "prism", "box", "hull"]))
    vol = gen.build_volume(ctx, reg, generator=g)
    vol.populate_atoms()
    X, W = vol.atoms, vol.species
    lo, hi = gen.region_box(reg)
    L = strain[:3, :3]
    EX, EZ = cr.moved(strain).sites(lo, hi)
    UX = m.act(np.linalg.inv(strain), EX)              # where post-transformations see them
    mm, band = m.margin(reg, EX), m.band_of(reg, EX)
    if kind != "substitution":
        ctx.check(len(calls) >= 1, "function was not called")
        ctx.event("user_calls", len(calls))
        for P, S in calls:
            k, _ = cr.is_site(P)
            ctx.check(np.all(k >= 0) and np.all(cr.Z[k] == S), "function did not receive the unstrained crystal")
        near = np.abs(UX[:, 2] - o[2]) < 1e-6
        keep = (UX[:, 2] > o[2]) & ~near
        may = keep | near
        EX, EZ, mm, near = EX[may], EZ[may] + 1, mm[may], near[may]
    else:
        near = np.zeros(len(EX), bool)
    # positions, in disregard of species
    mm2 = np.where(near & (mm < -band), 0., mm)
    m.compare_sites(ctx, X, np.zeros(len(X)), EX, np.zeros(len(EX)), mm2, band, f"atoms with {kind}")
    if len(X):
        from scipy.spatial import cKDTree
        d, i = cKDTree(EX).query(X)
        Z = EZ[i]
        if kind == "function":
            ctx.check(np.array_equal(Z, W), "species given by the user's function")
        else:
            judge(ctx, X, Z, X, np.asarray(W), t, s, f, "substitution in a volume")
    ctx.event("supplied")
    ctx.describe(kind=kind, t=t, s=s, rate=f, region=rk, strained=not np.array_equal(strain, np.eye(4)), n=len(X))
