"""Independent reference model: affine maps, regions, infinite crystals, brute-force distances.

Written from the documented meaning of the objects, without use of czone.
"""
import itertools

import numpy as np
from scipy.spatial import ConvexHull, cKDTree

BAND = 1e-7          # nobody is blamed for points closer than this to a (tolerance-shifted) boundary
SITE_TOL = 1e-6      # two positions closer than this are the same position


# ------------------------------------------------------------------------------ affine maps
def affine(M=None, t=None):
    A = np.eye(4)
    if M is not None:
        A[:3, :3] = M
    if t is not None:
        A[:3, 3] = t
    return A


def affine_about(M, o):
    o = np.asarray(o, float)
    return affine(M, o - M @ o)


def act(A, pts):
    pts = np.asarray(pts, float)
    return pts @ A[:3, :3].T + A[:3, 3]


def compose(*As):
    """Maps applied left to right."""
    R = np.eye(4)
    for A in As:
        R = A @ R
    return R


def quat_matrix(q):
    w, x, y, z = np.asarray(q, float) / np.linalg.norm(q)
    return np.array([[1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)],
                     [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
                     [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]])


def axis_angle(v, th):
    v = np.asarray(v, float)
    v = v / np.linalg.norm(v)
    return quat_matrix(np.concatenate([[np.cos(th / 2)], np.sin(th / 2) * v]))


def householder(n):
    n = np.asarray(n, float)
    n = n / np.linalg.norm(n)
    return np.eye(3) - 2 * np.outer(n, n)


# ------------------------------------------------------------------------------ regions
# ('plane', n, p, tol) ('sphere', c, r, tol) ('cyl', axis, p, r, L, tol) ('hull', pts, slack)
def margin_one(spec, X):
    """Signed margin: negative inside, positive outside, |.| <= distance to the boundary up to a factor."""
    k = spec[0]
    X = np.asarray(X, float)
    if k == "plane":
        n = np.asarray(spec[1], float)
        n = n / np.linalg.norm(n)
        return (X - np.asarray(spec[2], float)) @ n - spec[3]
    if k == "sphere":
        return np.linalg.norm(X - np.asarray(spec[1], float), axis=1) - (spec[2] + spec[3])
    if k == "cyl":
        a = np.asarray(spec[1], float)
        a = a / np.linalg.norm(a)
        d = X - np.asarray(spec[2], float)
        ax = d @ a
        rad = np.linalg.norm(d - ax[:, None] * a, axis=1)
        return np.maximum(rad - (spec[3] + spec[5]), np.abs(ax) - (spec[4] / 2 + spec[5]))
    if k == "hull":
        pts = np.asarray(spec[1], float)
        c = pts.mean(axis=0)
        eq = ConvexHull(pts - c).equations
        return np.max((X - c) @ eq[:, :3].T + eq[:, 3], axis=1)
    raise KeyError(k)


def margin(region, X):
    """Intersection of all surfaces in region."""
    X = np.asarray(X, float).reshape(-1, 3)
    m = np.full(len(X), -np.inf)
    for s in region:
        m = np.maximum(m, margin_one(s, X))
    return m


def slack(region):
    """Width by which region may be larger because of user-set simplex tolerances."""
    w = 0.0
    for s in region:
        if s[0] == "hull" and len(s) > 2 and s[2] > 1e-9:
            pts = np.asarray(s[1], float)
            w = max(w, 4 * s[2] * np.max(np.ptp(pts, axis=0)) * np.sqrt(3))
    return w


_flat = {}


def hull_slack(pts, tol):
    """Hulls with more than three points in a face (e.g. boxes) may be triangulated into flat tetrahedra, in whose
    neighbourhood the simplex search of scipy is only accurate to the square root of the simplex tolerance."""
    pts = np.asarray(pts, float)
    key = (pts.shape, pts.tobytes())
    if key not in _flat:
        if len(_flat) > 5000:
            _flat.clear()
        h = ConvexHull(pts)
        p = pts[h.vertices] - pts.mean(axis=0)
        eq = ConvexHull(p).equations
        d = np.abs(p @ eq[:, :3].T + eq[:, 3])
        _flat[key] = bool(np.any((d < 1e-6 * np.max(np.ptp(p, axis=0))).sum(axis=0) > 3))
    return 2 * np.sqrt(tol) * float(np.linalg.norm(np.ptp(pts, axis=0))) if _flat[key] else 0.0


def band_of(region, X):
    b = _band_of(region, X)
    for s in region:
        if s[0] == "hull":
            b = max(b, hull_slack(s[1], s[2] if len(s) > 2 else 1e-10))
    return b


def _band_of(region, X):
    X = np.asarray(X, float)
    scale = np.max(np.abs(X)) if X.size else 0.0
    for s in region:
        if s[0] == "hull":
            scale = max(scale, np.max(np.abs(s[1])))
        elif s[0] == "sphere":
            scale = max(scale, np.max(np.abs(s[1])), s[2])
        else:
            scale = max(scale, np.max(np.abs(s[2])))
    return BAND * max(1.0, scale / 100.0)


def move(spec, A):
    """Region moved by an isometry (planes: by any invertible map)."""
    k = spec[0]
    L = A[:3, :3]
    if k == "plane":
        n = np.linalg.inv(L).T @ np.asarray(spec[1], float)
        return ("plane", n / np.linalg.norm(n), act(A, spec[2]), spec[3])
    if k == "sphere":
        return ("sphere", act(A, spec[1]), spec[2], spec[3])
    if k == "cyl":
        return ("cyl", L @ np.asarray(spec[1], float), act(A, spec[2]), spec[3], spec[4], spec[5])
    if k == "hull":
        return ("hull", act(A, spec[1])) + tuple(spec[2:])
    raise KeyError(k)


def spec_of_alg(o):
    """Specification of an algebraic object, from its public attributes."""
    n = type(o).__name__
    if n == "Plane":
        return ("plane", np.array(o.normal), np.array(o.point), float(o.tol))
    if n == "Sphere":
        return ("sphere", np.array(o.center), float(o.radius), float(o.tol))
    if n == "Cylinder":
        return ("cyl", np.array(o.axis), np.array(o.point), float(o.radius), float(o.length), float(o.tol))
    raise KeyError(n)


def region_of(vol):
    """Region described by the public attributes of a Volume."""
    r = [spec_of_alg(o) for o in vol.alg_objects]
    if vol.points is not None:
        r.append(("hull", np.array(vol.points), float(vol.tolerance)))
    return r


def margin_of(obj, X):
    """(margin, band) for Volume or (nested) MultiVolume, by duck typing of public attributes."""
    X = np.asarray(X, float).reshape(-1, 3)
    if hasattr(obj, "volumes"):
        m = np.full(len(X), np.inf)
        b = BAND
        for v in obj.volumes:
            mm, bb = margin_of(v, X)
            m = np.minimum(m, mm)
            b = max(b, bb)
        return m, b
    if hasattr(obj, "alg_objects"):
        r = region_of(obj)
        return margin(r, X), band_of(r, X) + slack(r)
    # molecules claim no space
    return np.full(len(X), np.inf), BAND


# ------------------------------------------------------------------------------ crystals
class Crystal:
    """Infinite crystal: sites act(pose, (n + f) @ rows) with atomic numbers Z."""

    def __init__(self, rows, frac, Z, pose=None, lin=None):
        self.rows = np.asarray(rows, float)
        self.frac = np.mod(np.asarray(frac, float).reshape(-1, 3) + 1e-9, 1.0) - 1e-9
        self.Z = np.asarray(Z).astype(int)
        self.pose = np.eye(4) if pose is None else np.array(pose, float)

    def moved(self, A):
        return Crystal(self.rows, self.frac, self.Z, A @ self.pose)

    def moved_basis_only(self, L):
        p = self.pose.copy()
        p[:3, :3] = L @ p[:3, :3]
        return Crystal(self.rows, self.frac, self.Z, p)

    def with_origin(self, o):
        p = self.pose.copy()
        p[:3, 3] = o
        return Crystal(self.rows, self.frac, self.Z, p)

    @property
    def basis(self):
        """columns are the placed lattice vectors"""
        return self.pose[:3, :3] @ self.rows.T

    @property
    def origin(self):
        return self.pose[:3, 3]

    def cell_volume(self):
        return abs(np.linalg.det(self.rows))

    def sites(self, lo, hi):
        """All sites in the axis-aligned box [lo, hi] (and some more)."""
        lo, hi = np.asarray(lo, float), np.asarray(hi, float)
        corners = np.array(list(itertools.product(*zip(lo, hi))))
        B = self.basis
        f = (corners - self.origin) @ np.linalg.inv(B).T
        a = np.floor(f.min(axis=0) - 1e-6).astype(int) - 1
        b = np.ceil(f.max(axis=0) + 1e-6).astype(int) + 1
        n = np.array(list(itertools.product(*[range(i, j + 1) for i, j in zip(a, b)])), float)
        fr = (n[:, None, :] + self.frac[None, :, :]).reshape(-1, 3)
        Z = np.tile(self.Z, len(n))
        X = fr @ B.T + self.origin
        keep = np.all((X > lo - 1e-3) & (X < hi + 1e-3), axis=1)
        return X[keep], Z[keep]

    def is_site(self, X, tol=SITE_TOL):
        """Index of the basis site each position belongs to (-1: none) and cell indices."""
        X = np.asarray(X, float).reshape(-1, 3)
        B = self.basis
        f = (X - self.origin) @ np.linalg.inv(B).T
        idx = np.full(len(X), -1)
        cell = np.zeros((len(X), 3), int)
        for k, fk in enumerate(self.frac):
            d = f - fk
            r = np.round(d)
            dev = np.linalg.norm((d - r) @ B.T, axis=1)
            hit = (dev < tol) & (idx < 0)
            idx[hit] = k
            cell[hit] = r[hit].astype(int)
        return idx, cell


def crystal_of(gen):
    """Crystal described by public attributes of a Generator as placed now (unstrained)."""
    st = gen.structure
    rows = np.array(st.lattice.matrix)
    B = np.array(gen.voxel.sbases)
    L = B @ np.linalg.inv(rows.T)
    return Crystal(rows, st.frac_coords, [s.Z if hasattr(s, "Z") else s.specie.Z for s in st.species],
                   affine(L, np.array(gen.origin, float)))


# ------------------------------------------------------------------------------ comparisons
def duplicates(X, tol=SITE_TOL):
    if len(X) < 2:
        return 0
    return len(cKDTree(X).query_pairs(tol))


def compare_sites(ctx, X, Z, EX, EZ, Em, band, what):
    """Found atoms (X, Z) against candidate sites (EX, EZ) with margin Em of the region they should be in."""
    X = np.asarray(X, float)
    Z = np.asarray(Z)
    ctx.check(X.ndim == 2 and X.shape[1] == 3 and Z.shape == (len(X),), f"{what}: shape of result",
              shapes=[X.shape, Z.shape])
    ctx.check(np.all(np.isfinite(X)), f"{what}: positions not finite")
    ctx.check(duplicates(X) == 0, f"{what}: duplicated atoms", n=duplicates(X))
    sure = Em < -band
    may = Em < band
    if len(X):
        if len(EX) == 0:
            ctx.fail(f"{what}: atoms where there is no site", X=X[:5])
        d, i = cKDTree(EX).query(X)
        bad = d > SITE_TOL
        ctx.check(not bad.any(), f"{what}: atom that is not a site of the crystal", n=int(bad.sum()),
                  of=len(X), X=X[bad][:3], dist=d[bad][:3])
        wrong = ~may[i]
        ctx.check(not wrong.any(), f"{what}: atom outside of the region", n=int(wrong.sum()), of=len(X),
                  X=X[wrong][:3], margin=Em[i][wrong][:3])
        ctx.check(np.all(np.asarray(EZ)[i] == Z), f"{what}: element at wrong site")
        hit = np.zeros(len(EX), bool)
        hit[i] = True
    else:
        hit = np.zeros(len(EX), bool)
    miss = sure & ~hit
    ctx.check(not miss.any(), f"{what}: sites in the region are missing", n=int(miss.sum()), of=int(sure.sum()),
              X=EX[miss][:3], margin=Em[miss][:3])
    ctx.observe(len(X))
    ctx.event("atoms_matched", len(X))
    ctx.event("boundary_sites_undecided", int((may & ~sure).sum()))


def same_atoms(ctx, X, Z, Y, W, what, tol=SITE_TOL, ignore=None):
    """Two atom lists are the same as multisets. ignore: (X)->bool of atoms nobody is blamed for."""
    X, Y = np.asarray(X, float).reshape(-1, 3), np.asarray(Y, float).reshape(-1, 3)
    Z, W = np.asarray(Z).ravel(), np.asarray(W).ravel()
    if ignore is not None:
        kx, ky = ~ignore(X), ~ignore(Y)
        X, Z, Y, W = X[kx], Z[kx], Y[ky], W[ky]
    ctx.check(len(X) == len(Y), f"{what}: number of atoms", got=len(X), expected=len(Y))
    ctx.observe(len(X))
    if len(X) == 0:
        return
    d, i = cKDTree(Y).query(X)
    ctx.check(np.max(d) < tol, f"{what}: positions differ", n=int((d >= tol).sum()), X=X[d >= tol][:3])
    ctx.check(len(np.unique(i)) == len(Y), f"{what}: positions are not one to one")
    ctx.check(np.all(W[i] == Z), f"{what}: elements differ")


def min_image_d2(A, B, L, periodic):
    """brute force squared minimum-image distances (n,m)"""
    d = A[:, None, :] - B[None, :, :]
    out = np.zeros(d.shape[:2])
    for k in range(3):
        x = d[:, :, k]
        if periodic[k]:
            x = np.min(np.abs(x[..., None] + L[k] * np.array([-1.0, 0.0, 1.0])), axis=-1)
        out += x * x
    return out


def same_rows(ctx, X, Z, Y, W, what):
    """Two atom lists hold the same rows (bitwise up to rounding), in any order, with multiplicity."""
    def key(X, Z):
        X = np.round(np.asarray(X, float).reshape(-1, 3), 9) + 0.0
        r = np.column_stack([X, np.asarray(Z, float).ravel()])
        return r[np.lexsort(r.T[::-1])]
    a, b = key(X, Z), key(Y, W)
    ctx.check(a.shape == b.shape, f"{what}: number of atoms", got=len(a), expected=len(b))
    ctx.check(np.all(np.abs(a - b) < 1e-8), f"{what}: atoms differ", n=int((np.abs(a - b) >= 1e-8).any(axis=1).sum()))
    ctx.observe(len(a))
