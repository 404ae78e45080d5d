"""Layered structures: reconstruction of the stacking sequence from the atoms, and the structure that follows from it."""
import numpy as np
from scipy.spatial import cKDTree
from .. import core, gen, model as m


def extents(region, n):
    """Range of n.x over a region (list of surfaces), by its spheres, or by a linear program over its other surfaces."""
    n = np.asarray(n, float)
    sph = [s for s in region if s[0] == "sphere"]
    lo, hi = -np.inf, np.inf
    for s in sph:
        c = n @ np.asarray(s[1])
        lo, hi = max(lo, c - s[2]), min(hi, c + s[2])
    for s in region:
        if s[0] == "hull":
            v = np.asarray(s[1]) @ n
            lo, hi = max(lo, v.min()), min(hi, v.max())
        elif s[0] == "cyl":
            ax = np.asarray(s[1], float) / np.linalg.norm(s[1])
            e, c = abs(n @ ax) * s[4] / 2 + s[3] * np.sqrt(max(0., 1 - (n @ ax)**2)), n @ np.asarray(s[2])
            lo, hi = max(lo, c - e), min(hi, c + e)
    pl = [s for s in region if s[0] == "plane"]
    if len(pl) > 3:
        from scipy.optimize import linprog
        A = np.array([np.asarray(s[1], float) / np.linalg.norm(s[1]) for s in pl])
        b = np.array([a @ np.asarray(s[2]) for a, s in zip(A, pl)])
        for sg in (1, -1):
            r = linprog(sg * n, A_ub=A, b_ub=b, bounds=[(None, None)] * 3)
            if r.status == 0:
                if sg == 1:
                    lo = max(lo, r.fun)
                else:
                    hi = min(hi, -r.fun)
    return lo, hi


def layer_index(x, o, n, d, tol=1e-5):
    """(integer layer of each atom, deviation)"""
    k = (np.asarray(x) - o) @ n / d
    r = np.round(k)
    return r.astype(int), np.abs(k - r) * d


def lateral_class(x, o, n, d, k, b, A, nc=3, tol=1e-5):
    """Class c in 0..nc-1 of the lateral position (o + c b + lattice A), -1 if none."""
    lat = x - o - np.outer(k * d, n)
    # coordinates in the lattice
    G = np.linalg.pinv(np.asarray(A).T)
    cls = np.full(len(x), -1)
    for c in range(nc):
        q = (lat - c * b) @ G.T
        dev = np.linalg.norm((q - np.round(q)) @ np.asarray(A), axis=1)
        cls[(dev < tol) & (cls < 0)] = c
    return cls


def layer_sites(o, n, d, b, A, k, c, lo, hi):
    """Sites of layer k with class c in a box."""
    p = o + k * d * n + c * b
    A = np.asarray(A)
    ctr = (lo + hi) / 2
    R = np.linalg.norm(hi - lo) / 2
    off = np.linalg.pinv(A.T) @ (ctr - p)
    L = np.min(np.linalg.norm(A, axis=1)) * np.sin(np.arccos(abs(A[0] @ A[1]) / np.linalg.norm(A[0]) / np.linalg.norm(A[1])))
    K = int(np.ceil(R / L)) + 2
    i, j = np.meshgrid(np.arange(-K, K + 1), np.arange(-K, K + 1), indexing="ij")
    ij = np.column_stack([i.ravel(), j.ravel()]) + np.round(off)
    X = p + ij @ A
    keep = np.all((X > lo - 1e-3) & (X < hi + 1e-3), axis=1)
    return X[keep]


def volume_for(ctx, c, size, kind):
    """Bounded convex region (specification)."""
    if kind == "cyl":
        return gen.bounded_region(ctx, c, size, "cyl")[0]
    return gen.bounded_region(ctx, c, size, kind)[0]


def neighbours(X, r):
    t = cKDTree(X)
    return t, t.query_pairs(r, output_type="ndarray")
