import os
import pathlib
import tempfile

import numpy as np

from .. import core, gen, model as m
from ..digest import digest
from . import _world as W

PROP = "C27"
FAMILIES = []
RULE = ("Scenes of one to five volumes, unions and molecules with random priorities and bounds (and single objects), exported as atoms objects "
        "and to files of ten formats after histories of population, transformation and changed bounds; files are read back with independent "
        "readers and compared with the atoms the objects contribute. Files go to a scratch directory removed at the end of each case.")
ASSUMPTIONS = ["formats that need a cell are written from scenes with a non-empty cell", "precision of a format is that of its writer"]
MIN_EVENTS = {"files": 200, "prismatic_rows": 200, "atoms_objects": 200}

# (format, file ending, absolute tolerance, needs a cell, carries cell)
FORMATS = [("xyz", "xyz", 1e-6, False, False), ("extxyz", "xyz", 1e-6, False, True), ("json", "json", 1e-9, False, True),
           ("traj", "traj", 1e-9, False, True), ("cif", "cif", 2e-4, True, True), ("vasp", "vasp", 1e-6, True, True),
           ("xsf", "xsf", 1e-6, False, False), ("proteindatabank", "pdb", 2e-3, True, False), ("gen", "gen", 1e-6, False, False),
           (None, "xyz", 1e-6, False, True), (None, "cif", 2e-4, True, True), (None, "json", 1e-9, False, True)]


def read_prismatic(path):
    """Own reader: comment line, cell line, rows of Z x y z occupancy rms, -1."""
    L = open(path).read().split("\n")
    cell = np.array([float(x) for x in L[1].split()])
    rows = []
    for i, line in enumerate(L[2:]):
        t = line.split()
        if t == ["-1"]:
            break
        rows.append([float(x) for x in t])
    else:
        raise core.Violation("end mark of the prismatic file is missing")
    return cell, np.array(rows).reshape(-1, 6)


def check_file(ctx, path, fmt, tol, Z, X, cell, carries):
    from ase.io import read
    ctx.check(os.path.exists(path) and os.path.getsize(path) > 0, "no file was written", format=fmt)
    a = read(path, format=fmt) if fmt else read(path)
    P, N = a.get_positions(), a.get_atomic_numbers()
    if path.endswith("cif"):
        # the usual reader merges sites that coincide modulo the cell
        from ase.io.cif import parse_cif
        from ase.data import atomic_numbers
        blk = list(parse_cif(path))[0]
        P = np.array([blk["_atom_site_fract_" + x] for x in "xyz"], float).T * cell
        N = np.array([atomic_numbers[x] for x in blk["_atom_site_type_symbol"]])
    ctx.check(len(N) == len(Z), "number of atoms in the file", format=fmt, got=len(N), expected=len(Z))
    if carries and cell is not None:
        ctx.close(np.array(a.get_cell()), np.diag(cell), 1e-3, "cell in the file", format=fmt)
    if path.endswith("cif"):
        # fractional coordinates are wrapped by the writer
        d = (P - X) / cell
        ctx.check(np.max(np.abs((d - np.round(d)) * cell), initial=0.) < 1e-4 * max(np.max(cell), 1) + tol, "positions in the file", format=fmt)
    else:
        ctx.close(P, X, tol * max(1., np.max(np.abs(X), initial=1.)) if tol < 1e-4 else tol, "positions in the file", format=fmt)
    ctx.check(np.array_equal(N, Z), "elements in the file", format=fmt)
    ctx.event("files")
    ctx.event("files:" + str(fmt or "by ending"))
    ctx.observe(len(Z))


def check_prismatic(ctx, obj, path, Z, X, cell, **kw):
    dwf = None
    sym = {}
    from ase.data import chemical_symbols
    if ctx.chance(.6) or kw.get("must"):
        sym = {chemical_symbols[z]: float(ctx.rng.uniform(.05, 3.)) for z in sorted(set(Z.tolist()))}
        if ctx.chance(.3):
            sym = dict(reversed(list(sym.items())))
        dwf = dict(sym)
    args = dict(format="prismatic")
    if dwf is not None:
        args["debye_waller_factors"] = dwf
    obj.to_file(path, **args)
    ctx.check(dwf is None or dwf == sym, "table of thermal factors was changed by writing")
    ctx.check(os.path.exists(path), "no file was written", format="prismatic")
    c, R = read_prismatic(path)
    ctx.close(c, cell, 1e-4 * np.max(cell), "cell in the prismatic file")
    ctx.check(len(R) == len(Z), "number of atoms in the file", format="prismatic", got=len(R), expected=len(Z))
    if len(R):
        ctx.check(np.array_equal(R[:, 0].astype(int), Z), "elements in the file", format="prismatic")
        ctx.close(R[:, 1:4], X, 2e-5 * max(1., np.max(np.abs(X))), "positions in the file", format="prismatic")
        ctx.close(R[:, 4], np.ones(len(Z)), 1e-6, "occupancy in the file")
        want = np.array([np.sqrt(sym[chemical_symbols[z]] / (8 * np.pi**2)) if sym else .1 for z in Z])
        ctx.close(R[:, 5], want, 1e-5, "thermal displacement in the file", given=sym)
    ctx.event("prismatic_rows", len(R))
    ctx.event("prismatic:user" if sym else "prismatic:default")


def world(ctx):
    w = W.World(ctx)
    for _ in range(ctx.randint(1, 4)):
        w.op_add()
    if ctx.chance(.3):
        w.op_copy()
    if ctx.chance(.25):          # the same molecule twice
        e = w.new("molecule")
        w.add(e)
        w.add(W.entry(e.obj.from_molecule(), e.shadow.copy()))
        w.entries[-1].obj.print_warnings = False
    return w


@core.family(FAMILIES, 110, 4000, "scenes to atoms objects and files")
def scenes(ctx):
    w = world(ctx)
    sc = w.scene
    for r in range(ctx.randint(1, 2)):
        if r:
            ctx.choice([w.op_transform, w.op_priority, w.op_add])()
        w.op_populate()
        if ctx.chance(.8):
            lo = gen.point(ctx)
            b = np.array([lo, lo + ctx.rng.uniform(3, 60, 3)])
            if ctx.chance(.3):
                b = np.round(b)
                b[1] += 1
            if ctx.chance(.2):       # thin, large and flat cells
                k = ctx.randint(0, 2)
                b[1, k] = b[0, k] + ctx.choice([.04, .3, .9, 99.5, 250.])
                ctx.event("thin_or_large_cells")
            sc.bounds = b if ctx.chance(.7) else b.tolist()
        else:
            b = np.array(sc.bounds)
        cell = b[1] - b[0]
        n0 = len(sc.all_atoms)
        a = sc.ase_atoms
        X, Z = a.get_positions(), a.get_atomic_numbers()
        E = w.expected()
        W.compare_multiset(ctx, X, Z, *E, "atoms object of a scene")
        m.same_rows(ctx, X, Z, sc.all_atoms, sc.all_species, "atoms object against the atoms of the scene")
        ctx.close(np.array(a.get_cell()), np.diag(cell), 1e-12 * np.max(np.abs(b)) + 1e-12, "cell of the atoms object")
        ctx.event("atoms_objects")
        # the atoms object belongs to the caller
        before = digest(sc)
        a.positions += 3.
        if len(a):
            del a[0]
        a.set_cell([1, 1, 1])
        ctx.check(digest(sc) == before and len(sc.all_atoms) == n0, "scene changed with its atoms object")
        if not len(Z):
            ctx.event("empty_scenes")
            continue
        with tempfile.TemporaryDirectory(prefix="c27-") as tmp:
            for k in range(3):
                # columns of the pdb format hold no more than this
                fmt, end, tol, _, carries = ctx.choice([f for f in FORMATS if f[0] != "proteindatabank" or np.max(np.abs(X)) < 900])
                path = os.path.join(tmp, f"s{k}.{end}")
                arg = pathlib.Path(path) if ctx.chance(.3) else path
                sc.to_file(arg, **({} if fmt is None else dict(format=fmt)))
                check_file(ctx, path, fmt, tol, Z, X, cell, carries)
            check_prismatic(ctx, sc, os.path.join(tmp, "p.xyz"), Z, X, cell)
            if ctx.chance(.3):
                # options of the writer
                path = os.path.join(tmp, "c.xyz")
                sc.to_file(path, format="xyz", comment="made by the check")
                ctx.check(open(path).read().split("\n")[1].strip() == "made by the check", "options do not reach the writer")
                sc.to_file(path, format="extxyz", append=True)
                ctx.check(sum(1 for x in open(path) if x.strip() == str(len(Z))) == 2, "option to append does not reach the writer")
                ctx.event("options")
            if ctx.chance(.3):
                ctx.raises(lambda: sc.to_file(os.path.join(tmp, "no", "such", "dir.xyz")), "file in a directory that does not exist")
                ctx.raises(lambda: sc.to_file(os.path.join(tmp, "f.abc"), format="no-such-format"), "unknown format")
            ctx.check(digest(sc) == before, "scene changed by writing")
    ctx.describe(objects=[e.shadow.kind for e in w.entries], ops=w.log, atoms=len(Z))


@core.family(FAMILIES, 120, 4000, "single objects to atoms objects and files")
def objects(ctx):
    k = ctx.choice(["volume", "volume", "multi", "molecule"])
    o, s = W.make_volume(ctx) if k == "volume" else W.make_multi(ctx) if k == "multi" else W.make_molecule(ctx)
    e = W.entry(o, s)
    for r in range(ctx.randint(1, 2)):
        if r:
            t, A, _ = gen.isometry(ctx, scale=6.)
            o.transform(t)
            s.transform(A, True)
        if k != "molecule" and (r == 0 or ctx.chance(.5)):
            o.populate_atoms()
        elif k != "molecule":
            # atoms of a moved object follow only when it is populated again, and the export shows the atoms it has
            pass
        a = o.ase_atoms
        X, Z = a.get_positions(), a.get_atomic_numbers()
        if np.shape(o.atoms)[0] or len(X):
            m.same_rows(ctx, X, Z, o.atoms, o.species, "atoms object of " + k)
        ctx.event("atoms_objects")
        before = digest(o)
        a.positions += 3.
        a.numbers[:] = 3
        ctx.check(digest(o) == before, "object changed with its atoms object", kind=k)
        if not len(Z) or k == "molecule":
            continue
        with tempfile.TemporaryDirectory(prefix="c27-") as tmp:
            for j in range(3):
                fmt, end, tol, needs, carries = ctx.choice([f for f in FORMATS if not f[3] and f[1] != "xsf"])
                path = os.path.join(tmp, f"s{j}.{end}")
                o.to_file(path, **({} if fmt is None else dict(format=fmt)))
                check_file(ctx, path, fmt, tol, Z, X, None, False)
            ctx.check(digest(o) == before, "object changed by writing", kind=k)
            if ctx.chance(.2):
                ctx.raises(lambda: o.to_file(os.path.join(tmp, "f.abc"), format="no-such-format"), "unknown format")
    XX, ZZ, K, b = s.candidates(e.tree()) if k != "volume" or s.content == "crystal" else (None,) * 4
    if XX is not None and r == 0:
        W.compare_multiset(ctx, X, Z, XX, ZZ, K, b, "atoms object of " + k)
    ctx.describe(kind=k, atoms=len(Z), sum=float(np.round(np.sum(X), 3)))


@core.family(FAMILIES, 6, 150, "thousands of atoms, large and small coordinates")
def large(ctx):
    from czone.scene import Scene
    es = W.make_large(ctx, ctx.randint(1, 2), ctx.choice([300, 1100, 10100]), gen.point(ctx, ctx.choice([10., 300., 900.])))
    b = np.array([[-50., -50, -50], [50, 60, 70]]) * ctx.choice([1., 1., 30.])
    sc = Scene(bounds=b, objects=[e.obj for e in es])
    sc.populate()
    EX, EZ, K, band = W.resolve([e.shadow for e in es], [e.tree() for e in es])
    a = sc.ase_atoms
    X, Z = a.get_positions(), a.get_atomic_numbers()
    W.compare_multiset(ctx, X, Z, EX, EZ, K, band, "atoms object of a large scene")
    ctx.event("atoms_objects")
    if not len(Z):
        raise core.Skip
    cell = b[1] - b[0]
    with tempfile.TemporaryDirectory(prefix="c27-") as tmp:
        for k in range(2):
            fmt, end, tol, _, carries = ctx.choice([f for f in FORMATS if f[0] != "proteindatabank"])
            path = os.path.join(tmp, f"s{k}.{end}")
            sc.to_file(path, **({} if fmt is None else dict(format=fmt)))
            check_file(ctx, path, fmt, tol, Z, X, cell, carries)
        check_prismatic(ctx, sc, os.path.join(tmp, "p.xyz"), Z, X, cell)
    for e in es:
        p = e.obj.ase_atoms
        m.same_rows(ctx, p.get_positions(), p.get_atomic_numbers(), e.obj.atoms, e.obj.species, "atoms object of a large object")
    ctx.event("large_exports")
    ctx.describe(atoms=len(Z), cell=cell)


@core.family(FAMILIES, 30, 800, "prismatic thermal factors")
def thermal(ctx):
    """Many elements with their own factors, tables with superfluous and with missing elements."""
    from czone.scene import Scene
    from czone.molecule.molecule import Molecule
    from ase.data import chemical_symbols
    n = ctx.randint(1, 40)
    Z = ctx.rng.choice(ctx.rng.permutation(np.arange(1, 95))[:ctx.randint(1, 12)], n)
    X = gen.point(ctx, 30.) + ctx.rng.normal(size=(n, 3)) * 5
    lo = gen.point(ctx)
    b = np.array([lo, lo + ctx.rng.uniform(1, 80, 3)])
    h = n // 2
    mols = [Molecule(Z[i:j], X[i:j]) for i, j in ((0, h), (h, n)) if j > i]
    for q, o in enumerate(mols):
        o.print_warnings = False
        o.priority = q
    sc = Scene(bounds=b, objects=mols if len(mols) > 1 or ctx.chance(.5) else mols[0])
    sc.populate()
    a = sc.ase_atoms
    P, N = a.get_positions(), a.get_atomic_numbers()
    m.same_rows(ctx, P, N, X, Z, "atoms of the scene")
    ctx.event("atoms_objects")
    with tempfile.TemporaryDirectory(prefix="c27-") as tmp:
        for must in (True, False):
            check_prismatic(ctx, sc, os.path.join(tmp, "p.xyz"), N, P, b[1] - b[0], must=must)
        if len(set(Z.tolist())) > 1:
            part = {chemical_symbols[int(Z[0])]: .5}
            ctx.raises(lambda: sc.to_file(os.path.join(tmp, "q.xyz"), format="prismatic", debye_waller_factors=part), "element without a thermal factor")
        else:
            # one number for a scene of a single element
            sc.to_file(os.path.join(tmp, "r.xyz"), format="prismatic", debye_waller_factors=1.3)
            R = read_prismatic(os.path.join(tmp, "r.xyz"))[1]
            ctx.close(R[:, 5], np.full(n, np.sqrt(1.3 / 8 / np.pi**2)), 1e-5, "single thermal factor")
    ctx.observe(n)
    ctx.describe(elements=sorted(set(Z.tolist())), atoms=n)


@core.family(FAMILIES, 20, 400, "files of objects without atoms")
def empty(ctx):
    from czone.scene import Scene
    from czone.volume import Volume, Sphere, MultiVolume
    from czone.generator import NullGenerator
    v = Volume(alg_objects=[Sphere(radius=3., center=gen.point(ctx))], generator=NullGenerator())
    if ctx.chance(.5):
        v = MultiVolume([v])
    k = ctx.choice(["populated", "fresh", "scene", "fresh scene", "no objects"])
    with tempfile.TemporaryDirectory(prefix="c27-") as tmp:
        path = os.path.join(tmp, "x.xyz")
        if k == "populated":
            v.populate_atoms()
        obj = v
        if "scene" in k:
            obj = Scene(objects=[v])
            if k == "scene":
                obj.populate()
        elif k == "no objects":
            obj = Scene()
        try:
            obj.to_file(path, format=ctx.choice(["xyz", "extxyz"]))
            ok = True
        except Exception:
            ok = False
        ctx.check(not ok or os.path.exists(path), "writing produced nothing and said nothing", kind=k)
        if ok and os.path.exists(path):
            t = open(path).read().split("\n")
            ctx.check(int(t[0].split()[0]) == 0, "atoms in the file of an empty object", kind=k, head=t[:3])
        ctx.event("empty_files" if ok else "empty_refused")
    ctx.observe()
    ctx.describe(kind=k, union=isinstance(v, MultiVolume), sub=ctx.index)
