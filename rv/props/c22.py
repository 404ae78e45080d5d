import itertools
import numpy as np
from .. import core, gen, probes, model as m

PROP = "C22"
FAMILIES = []
RULE = ("Every periodicity over grids of all shapes from one voxel to several hundred; points of boxes of all sizes in the forms in which the "
        "package itself uses the distance (one to many, many to many). The neighbour lists are compared with a brute-force search over all pairs "
        "of voxels, the distances with the smallest distance over 27 images. Calls made while amorphous blocks and distribution functions are "
        "computed are judged as well.")
ASSUMPTIONS = ["periodic coordinates differ by no more than one period", "distances are asked in the (N,3,M) forms the package uses"]
MIN_EVENTS = {"lists": 30000, "distances": 100000, "periodicities": 8}

PER = list(itertools.product((True, False), repeat=3))


def coords(dim):
    """(N,3) position of each voxel of the list: x fastest."""
    n = np.arange(dim[0] * dim[1] * dim[2])
    return np.column_stack([n % dim[0], (n // dim[0]) % dim[1], n // (dim[0] * dim[1])])


def adjacency(dim, per):
    c = coords(dim)
    ok = np.ones((len(c), len(c)), bool)
    for k in range(3):
        d = np.abs(c[:, None, k] - c[None, :, k])
        if per[k]:
            d = np.minimum(d, dim[k] - d)
        ok &= d <= 1
    return ok


def flags(ctx, per):
    """Periodicity in the forms of truth values in use."""
    k = ctx.choice(["bool", "bool", "numpy", "int", "array"])
    ctx.event("flags:" + k)
    return {"bool": tuple, "numpy": lambda p: tuple(np.bool_(x) for x in p), "int": lambda p: tuple(int(x) for x in p), "array": np.array}[k](per)


def judge_grid(ctx, out, dim, per, what="voxel grid"):
    dim = [int(x) for x in dim]
    N = dim[0] * dim[1] * dim[2]
    ctx.check(len(out) == N, f"{what}: number of lists", got=len(out), expected=N)
    A = np.zeros((N, N), bool)
    for i, row in enumerate(out):
        row = [int(x) for x in row]
        ctx.check(all(0 <= j < N for j in row), f"{what}: neighbour outside of the grid", voxel=i, row=row)
        A[i, row] = True
        if all(per):
            ctx.check(len(row) == 27, f"{what}: fully periodic list without 27 entries", voxel=i, n=len(row))
        else:
            ctx.check(len(set(row)) == len(row), f"{what}: neighbour listed twice", voxel=i)
    E = adjacency(dim, per)
    ctx.check(np.array_equal(A, A.T), f"{what}: relation is not symmetric", dim=dim, periodic=per)
    bad = np.argwhere(A != E)
    ctx.check(len(bad) == 0, f"{what}: wrong neighbours", dim=dim, periodic=per, pairs=bad[:4], found=[bool(A[tuple(b)]) for b in bad[:4]])
    ctx.event("lists", N)
    ctx.event("neighbours", int(E.sum()))
    ctx.observe(N)
    ctx.state(tuple(min(d, 5) for d in dim), per)


@core.family(FAMILIES, 400, 12000, "neighbour lists of grids of any shape and periodicity")
def grids(ctx):
    from czone.util.measure import get_voxel_grid
    for _ in range(2):
        r = ctx.rng.random()
        if r < .5:
            dim = [ctx.randint(1, 4) for _ in range(3)]
        elif r < .8:
            dim = [ctx.randint(1, 9) for _ in range(3)]
        else:
            dim = [1, 1, 1]
            dim[ctx.randint(0, 2)] = ctx.randint(1, 120)
            if ctx.chance(.5):
                dim[ctx.randint(0, 2)] = ctx.randint(1, 6)
        per = ctx.choice(PER)
        arg = ctx.choice([tuple, list, np.array])(dim)
        plain, per = per, flags(ctx, per)
        if ctx.chance(.5):
            out = get_voxel_grid(arg, *per)
        elif ctx.chance(.5):
            out = get_voxel_grid(arg, px=per[0], py=per[1], pz=per[2])
        else:
            out = get_voxel_grid(dim=arg, **{k: v for k, v in zip(("px", "py", "pz"), per) if not v})
        judge_grid(ctx, out, dim, plain)
        ctx.check(np.array_equal(np.asarray(arg), dim), "size of grid was changed")
    ctx.describe(dim=dim, periodic=per)


@core.family(FAMILIES, 8, 8, "all small grids in all periodicities")
def small_grids(ctx):
    from czone.util.measure import get_voxel_grid
    per = PER[ctx.index % 8]
    for dim in itertools.product(range(1, 5), repeat=3):
        judge_grid(ctx, get_voxel_grid(dim, *per), dim, per)
    ctx.event("periodicities")
    ctx.describe(periodic=per)


@core.family(FAMILIES, 4, 40, "large grids")
def large_grids(ctx):
    from czone.util.measure import get_voxel_grid
    per = ctx.choice(PER)
    top = 250000 if all(per) else 25000
    while True:
        dim = [int(x) for x in np.maximum(1, 10 ** ctx.rng.uniform(0, 3.5, 3))]
        if top / 20 < np.prod(dim) < top:
            break
    out = get_voxel_grid(dim, *per)
    N = int(np.prod(dim))
    ctx.check(len(out) == N, "large grid: number of lists", got=len(out), expected=N)
    k = np.unique(np.concatenate([[0, N - 1], ctx.rng.integers(0, N, 3000), np.arange(max(0, N - 300), N)]))
    c = coords(dim)[k]
    for i, x in zip(k, c):
        E = {0}
        ax = []
        for j in range(3):
            a = [x[j] - 1, x[j], x[j] + 1]
            ax.append({int(q % dim[j]) for q in a} if per[j] else {int(q) for q in a if 0 <= q < dim[j]})
        E = {a + dim[0] * (b + dim[1] * z) for a in ax[0] for b in ax[1] for z in ax[2]}
        row = [int(q) for q in out[i]]
        ctx.check(set(row) == E, "large grid: wrong neighbours", voxel=int(i), dim=dim, periodic=per, missing=sorted(E - set(row))[:4], extra=sorted(set(row) - E)[:4])
        ctx.check(len(row) == (27 if all(per) else len(E)), "large grid: number of neighbours", voxel=int(i))
    ctx.event("lists", len(k))
    ctx.event("large_lists", len(k))
    ctx.observe(len(k))
    ctx.describe(dim=dim, periodic=per)


def images(A, B, L, per):
    """Smallest squared distance over images, (n,m)."""
    D = A[:, None, :] - B[None, :, :]
    best = np.full(D.shape[:2], np.inf)
    for s in itertools.product(*[(-1, 0, 1) if p else (0,) for p in per]):
        best = np.minimum(best, np.sum((D + np.asarray(s) * np.asarray(L)) ** 2, axis=2))
    return best


def judge_dist(ctx, got, A, B, L, per, what="distance"):
    E = images(A, B, L, per)
    ctx.close(np.asarray(got, float).reshape(E.shape), E, 1e-9 * max(1., float(np.max(np.abs(E)))), what, periodic=per, box=L)
    ctx.event("distances", E.size)
    ctx.observe(E.size)


@core.family(FAMILIES, 1000, 15000, "periodic distances")
def distances(ctx):
    from czone.util.measure import get_sdist_fun
    L = 10 ** ctx.rng.uniform(-.5, 2, 3)
    per = ctx.choice(PER)
    form = ctx.choice([tuple, list, np.array])
    plain, per = per, flags(ctx, per)
    if any(per) or ctx.chance(.5):
        f = get_sdist_fun(form(L.tolist()), *per) if ctx.chance(.5) else get_sdist_fun(dims=form(L.tolist()), px=per[0], py=per[1], pz=per[2])
    else:
        f = get_sdist_fun()
    per = plain
    off = ctx.choice([np.zeros(3), gen.point(ctx, 30.)])
    for _ in range(3):
        n, k = ctx.randint(1, 30), ctx.randint(1, 30)
        A, B = (off + ctx.rng.uniform(0, 1, (x, 3)) * L for x in (n, k))
        if ctx.chance(.4):     # faces of the box, halves, equal points
            A = off + np.round(ctx.rng.uniform(0, 1, (n, 3)) * 4) / 4 * L
            B[0] = A[0]
        A0, B0 = A.copy(), B.copy()
        r = ctx.rng.random()
        if r < .4:
            got = f(A[:, :, None], B.T[None])
        elif r < .7:
            A = A[:1]
            got = f(A[:, :, None], B.T[None])
        else:
            B = B[:1]
            got = f(A[:, :, None], B[:, :, None])
        judge_dist(ctx, got, A, B, L, per)
        ctx.check(np.array_equal(A, A0[:len(A)]) and np.array_equal(B, B0[:len(B)]), "points were changed")
        # symmetry and zero
        back = f(B[:, :, None], A.T[None])
        ctx.close(np.asarray(back, float).reshape(len(B), len(A)).T, np.asarray(got, float).reshape(len(A), len(B)), 1e-9 * float(np.sum(L * L)) + 1e-12,
                  "distance is not symmetric")
        ctx.close(np.asarray(f(A[:1, :, None], A[:1].T[None])).ravel(), [0.], 1e-12, "distance of point to itself")
        if ctx.chance(.2):         # same arrays with other contents
            U, V = A[:, :, None], B.T[None]
            f(U, V)
            A += ctx.rng.uniform(-.1, .1, 3) * L
            B[...] = B[::-1].copy()
            keep = np.all([np.all(np.abs(A[:, None] - B[None])[..., i] <= L[i]) if per[i] else True for i in range(3)])
            if keep:
                judge_dist(ctx, f(U, V), A, B, L, per, "distance of changed arrays")
                ctx.event("reused_arrays")
    if not any(per):
        got = f(A, np.repeat(B[:1], len(A), axis=0))
        ctx.close(np.ravel(got), images(A, B[:1], L, per).ravel(), 1e-9 * max(1., float(np.sum(L * L))), "distance of rows")
    ctx.describe(L=np.round(L, 3), periodic=per)


@core.family(FAMILIES, 30, 400, "calls made by the package")
def in_situ(ctx):
    from czone.generator.amorphous_algorithms import gen_p_substrate_batched
    from czone.util.measure import calc_rdf

    def post(ctx, tok, args, kwargs, result):
        names = ("dim", "px", "py", "pz")
        a = dict(px=True, py=True, pz=True)
        a.update(zip(names, args))
        a.update(kwargs)
        judge_grid(ctx, result, a["dim"], tuple(bool(a[k]) for k in names[1:]), "voxel grid of the package")
        ctx.event("in_situ_grids")
    probes.hook("get_voxel_grid", None, post)
    if ctx.chance(.5):
        d = ctx.choice([1.4, 2., 3.])
        dims = [float(x) for x in d * ctx.rng.uniform(2, 4.5, 3)]
        gen_p_substrate_batched(dims, d, float(ctx.rng.uniform(.05, .3)) / d**3, seed=ctx.randint(0, 999))
        ctx.describe(dims=np.round(dims, 2), d=d)
    else:
        X = ctx.rng.uniform(0, 1, (ctx.randint(5, 40), 3)) * ctx.rng.uniform(3, 25, 3)
        per = ctx.choice(PER)
        calc_rdf(X, float(ctx.choice([1.5, 3., 5., 8.])), *per)
        ctx.describe(n=len(X), periodic=per)
    ctx.observe()
