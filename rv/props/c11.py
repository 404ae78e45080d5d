import warnings

import numpy as np
from .. import core, gen, model as m
from ..digest import digest

PROP = "C11"
FAMILIES = []
RULE = ("Random molecules from all constructors (arrays, lists, ASE, pymatgen, copies) go through random histories of transformations, "
        "updates, removals, origin changes and calls that have to be refused; after every step positions, elements, origin and "
        "orientation are compared with a shadow list of atoms with identities.")
ASSUMPTIONS = ["set_atoms with fewer atoms than before is used only while no atom is tracked",
               "removing the tracked atom without naming a new origin is refused by contract (NotImplementedError)",
               "orientation is what was set last; transformations do not change it",
               "transform moves the origin point unless told not to"]
MIN_EVENTS = {"steps_judged": 4000, "tracked_steps": 1000, "refusals": 500, "removals_while_tracking": 200}


class Shadow:
    def __init__(self, X, Z, origin):
        self.X, self.Z = np.array(X, float), np.array(Z, int)
        self.id = list(range(len(self.Z)))
        self.track = None
        self.point = np.zeros(3)
        if origin is None:
            pass
        elif isinstance(origin, (int, np.integer)):
            self.track = self.id[origin]
        else:
            self.point = np.array(origin, float)
        self.next = len(self.Z)
        self.R = np.eye(3)
        self.priority = 0

    @property
    def origin(self):
        if self.track is None:
            return self.point
        return self.X[self.id.index(self.track)]


def judge(ctx, mol, s, what):
    tol = 1e-9 * max(1., np.max(np.abs(s.X))) * 10
    ctx.close(mol.atoms, s.X, tol, what + ": positions")
    ctx.check(np.array_equal(np.asarray(mol.species), s.Z), what + ": elements", got=mol.species, expected=s.Z)
    ctx.close(np.ravel(mol.origin), s.origin, tol + 1e-9 * np.max(np.abs(s.origin)) * 10, what + ": origin", tracked=s.track)
    ctx.close(mol.orientation, s.R, 1e-12, what + ": orientation")
    ctx.check(mol.priority == s.priority, what + ": priority")
    a = mol.ase_atoms
    ctx.check(np.array_equal(a.get_atomic_numbers(), s.Z), what + ": elements of ASE atoms")
    ctx.close(a.get_positions(), s.X, tol, what + ": positions of ASE atoms")
    ctx.observe(len(s.Z))
    ctx.event("steps_judged")
    if s.track is not None:
        ctx.event("tracked_steps")


def new(ctx, n=None):
    from czone.molecule.molecule import Molecule
    n = n or (ctx.randint(1, 14) if ctx.chance(.95) else ctx.choice([63, 64, 65, 100, 129, 257, 513, 1025, 2049]))
    X = ctx.rng.normal(size=(n, 3)) * ctx.choice([.5, 3., 40.]) + gen.point(ctx)
    if ctx.chance(.06):
        X = ctx.choice([X * 1e-6, X * 300, X + 1e4, -np.abs(X) - 1, np.abs(X) + 1e3])
        ctx.event("unusual_coordinates")
    if n > 60:
        ctx.event("large_molecules")
    if ctx.chance(.1):
        X = np.round(X)
    Z = ctx.rng.integers(1, 110, n)
    r = ctx.rng.random()
    origin = None if r < .35 else int(ctx.randint(0, n - 1)) if r < .7 else gen.point(ctx)
    if r > .95:
        origin = list(origin)
    elif r > .85:                              # the same point as whole numbers
        origin = np.round(origin).astype(ctx.choice([int, np.int32, float]))
        origin = origin.tolist() if ctx.chance(.3) else origin
        ctx.event("whole_origins")
    form = ctx.choice(["array", "array", "list", "column", "int", "ase", "pmg"])
    kw = {} if origin is None else {"origin": origin}
    if form == "ase":
        from ase import Atoms
        akw = {}
        if ctx.chance(.5):       # atoms objects also carry cells, which molecules do not
            akw["cell"] = ctx.choice([ctx.rng.uniform(2, 9, 3), np.eye(3) * 5. + ctx.rng.normal(size=(3, 3)), np.zeros(3)])
            akw["pbc"] = ctx.choice([True, False, [True, True, False]])
            if ctx.chance(.3):
                akw["celldisp"] = ctx.rng.normal(size=3)
            if ctx.chance(.3):
                akw["tags"] = ctx.rng.integers(0, 5, n)
            if ctx.chance(.3):
                akw["momenta"] = ctx.rng.normal(size=(n, 3))
            ctx.event("atoms_with_cell")
        src = Atoms(numbers=Z, positions=X, **akw)
        if ctx.chance(.2):
            from ase.constraints import FixAtoms
            src.set_constraint(FixAtoms([0]))
        mol = Molecule.from_ase_atoms(src)
        ctx.close(src.get_positions(), X, 0., "atoms object a molecule was made from")
        if ctx.chance(.5):       # and go on without the molecule
            src.positions += 3.
            src.numbers[:] = 1
        origin = None
    elif form == "pmg":
        from pymatgen.core import Molecule as PM, IMolecule
        cls = PM if ctx.chance(.5) else IMolecule
        mol = Molecule.from_pmg_molecule(cls([int(z) for z in Z], X))
        origin = None
    elif form == "list":
        mol = Molecule([int(z) for z in Z], X.tolist(), **kw)
    elif form == "column":
        mol = Molecule(Z[:, None], X, **kw)
    elif form == "int":
        X = np.round(X)
        mol = Molecule(Z, X.astype(int), **kw)
    else:
        mol = Molecule(Z, X, **kw)
    s = Shadow(X, Z, origin)
    if ctx.chance(.5):
        mol.print_warnings = False
    judge(ctx, mol, s, "new molecule from " + form)
    return mol, s, form


def negative(ctx, i, n):
    """the same atom addressed from the end (except the first one)"""
    return i - n if i > 0 and ctx.chance(.25) else i


def op_transform(ctx, mol, s):
    t, A, k = gen.isometry(ctx)
    if ctx.chance(.2):
        from czone.transform import MatrixTransform
        M = np.eye(3) + ctx.rng.normal(size=(3, 3)) * .2
        o = gen.point(ctx)
        t, A, k = MatrixTransform(M, o), m.affine_about(M, o), "general"
    if ctx.chance(.25):
        mol.transform(t, transform_origin=False)
        if s.track is None:
            k += "/fixed origin"
            s.X = m.act(A, s.X)
            return k
        s.X = m.act(A, s.X)
        return k
    mol.transform(t)
    s.X = m.act(A, s.X)
    if s.track is None:
        s.point = m.act(A, s.point)
    return k


def op_positions(ctx, mol, s):
    X = ctx.rng.normal(size=s.X.shape) * 5
    mol.update_positions(X.ravel() if ctx.chance(.2) else X.tolist() if ctx.chance(.2) else X)
    s.X = X.copy()
    X[:] = -1


def op_species(ctx, mol, s):
    Z = ctx.rng.integers(1, 110, len(s.Z))
    mol.update_species(Z[:, None] if ctx.chance(.3) else Z.tolist() if ctx.chance(.3) else Z)
    s.Z = Z.copy()
    Z[:] = 1


def op_set_atoms(ctx, mol, s):
    n = len(s.Z) if s.track is not None else ctx.randint(1, 14) if ctx.chance(.97) else ctx.choice([65, 257, 1025])
    X, Z = ctx.rng.normal(size=(n, 3)) * 5, ctx.rng.integers(1, 110, n)
    mol.set_atoms(Z, X)
    s.X, s.Z = X.copy(), Z.copy()
    if s.track is None:
        s.id = list(range(s.next, s.next + n))
        s.next += n


def op_remove(ctx, mol, s):
    n = len(s.Z)
    if n < 2:
        return "none"
    k = ctx.randint(1, min(3, n - 1))
    if ctx.chance(.15):
        k = ctx.randint(1, n - 1)
    tr = s.id.index(s.track) if s.track is not None else None
    cand = [i for i in range(n) if i != tr]
    if not cand:
        return "none"
    rm = [int(i) for i in ctx.rng.permutation(cand)[:k]]
    kept = [i for i in range(n) if i not in rm]
    arg = [negative(ctx, i, n) for i in rm]
    if ctx.chance(.3):
        arg = np.array(arg)
    elif ctx.chance(.2):
        arg = tuple(arg)
    label = "remove"
    if ctx.chance(.25):
        o = ctx.choice(kept)
        mol.remove_atoms(arg, new_origin_idx=o)
        s.track = s.id[o]
        label += "/new origin"
    else:
        mol.remove_atoms(arg)
        if tr is not None:
            ctx.event("removals_while_tracking")
    s.X, s.Z = s.X[kept], s.Z[kept]
    s.id = [s.id[i] for i in kept]
    return label


def op_remove_tracked(ctx, mol, s):
    """the tracked atom goes, another one is named"""
    n = len(s.Z)
    if n < 2 or s.track is None:
        return "none"
    tr = s.id.index(s.track)
    kept = [i for i in range(n) if i != tr]
    o = ctx.choice(kept)
    if ctx.chance(.2) and n > 3:
        rm = sorted({tr} | {int(i) for i in ctx.rng.permutation([i for i in kept if i != o])[:ctx.randint(1, n - 2)]})
        kept = [i for i in range(n) if i not in rm]
        mol.remove_atoms([int(i) for i in ctx.rng.permutation(rm)], new_origin_idx=o)
    else:
        mol.remove_atoms([tr], new_origin_idx=o)
    s.track = s.id[o]
    s.X, s.Z = s.X[kept], s.Z[kept]
    s.id = [s.id[i] for i in kept]


def op_origin(ctx, mol, s):
    if ctx.chance(.6):
        i = ctx.randint(0, len(s.Z) - 1)
        s.track = s.id[i]
        j = negative(ctx, i, len(s.Z))
        mol.set_origin(idx=np.int64(j) if ctx.chance(.3) else j)
        return "track"
    p = gen.point(ctx)
    if ctx.chance(.3):
        p = np.round(p).astype(int)
        ctx.event("whole_origins")
    mol.set_origin(point=list(p) if ctx.chance(.3) else p.reshape(3, 1) if ctx.chance(.2) else p)
    s.track, s.point = None, p.astype(float)
    p[:] = 99
    return "point"


def op_orientation(ctx, mol, s):
    if ctx.chance(.3):
        mol.reset_orientation()
        s.R = np.eye(3)
        return "reset"
    R = gen.rotation(ctx)[0]
    mol.orientation = R
    s.R = R.copy()


def op_priority(ctx, mol, s):
    s.priority = ctx.randint(-3, 9)
    mol.priority = s.priority if ctx.chance(.7) else np.int64(s.priority)


def op_refused(ctx, mol, s):
    n = len(s.Z)
    what = ctx.choice(["remove_range", "remove_tracked", "origin_range", "origin_type", "origin_shape", "positions", "species", "set_atoms",
                       "orientation_det", "orientation_orth", "orientation_shape", "priority", "transform", "new_origin_range", "new_origin_removed", "new_origin_type", "warnings"])
    before = digest(mol)
    f = {
        "remove_range": lambda: mol.remove_atoms([0, n + ctx.randint(0, 3)] if s.track is None else [n]),
        "remove_tracked": lambda: mol.remove_atoms([s.id.index(s.track)]),
        "origin_range": lambda: mol.set_origin(idx=ctx.choice([n, n + 5, -n - 1])),
        "origin_type": lambda: mol.set_origin(idx=ctx.choice([1.5, "a"])),
        "origin_shape": lambda: mol.set_origin(point=np.zeros(ctx.choice([2, 4]))),
        "positions": lambda: mol.update_positions(np.zeros((n + 1, 3))),
        "species": lambda: mol.update_species(np.ones(n + 1)),
        "set_atoms": lambda: mol.set_atoms(np.ones(n + 1), np.zeros((n, 3))),
        "orientation_det": lambda: setattr(mol, "orientation", np.diag([1., 1, -1])),
        "orientation_orth": lambda: setattr(mol, "orientation", np.array([[1., .3, 0], [0, 1, 0], [0, 0, 1]])),
        "orientation_shape": lambda: setattr(mol, "orientation", np.eye(4)),
        "priority": lambda: setattr(mol, "priority", ctx.choice([1.5, "x"])),
        "transform": lambda: mol.transform(np.eye(3)),
        "new_origin_range": lambda: mol.remove_atoms([0], new_origin_idx=n),
        "new_origin_removed": lambda: mol.remove_atoms([0], new_origin_idx=0),
        "new_origin_type": lambda: mol.remove_atoms([0], new_origin_idx=1.5),
        "warnings": lambda: setattr(mol, "print_warnings", 1),
    }[what]
    if what == "remove_tracked" and s.track is None:
        return "none"
    ctx.raises(f, "invalid call (" + what + ")")
    ctx.check(digest(mol) == before, "refused call (" + what + ") changed the molecule")
    return what


def op_copy(ctx, mol, s):
    return "copy"


OPS = [op_transform] * 4 + [op_positions, op_species, op_set_atoms] + [op_remove] * 3 + [op_remove_tracked] + [op_origin] * 2 + \
      [op_orientation, op_priority, op_copy] + [op_refused] * 3


@core.family(FAMILIES, 400, 20000, "random histories")
def histories(ctx):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        mol, s, form = new(ctx)
        log = [form]
        for _ in range(ctx.randint(4, 20)):
            op = ctx.choice(OPS)
            r = op(ctx, mol, s)
            log.append(op.__name__[3:] + ("/" + r if r else ""))
            ctx.event("op:" + op.__name__[3:])
            if op is op_copy:
                if ctx.chance(.5):
                    mol = mol.from_molecule()
                else:
                    t, A, k = gen.isometry(ctx)
                    mol = mol.from_molecule(transformation=[t])
                    s.X = m.act(A, s.X)
                    if s.track is None:
                        s.point = m.act(A, s.point)
            judge(ctx, mol, s, "after " + log[-1])
            ctx.state(s.track is not None, len(s.Z), op.__name__)
    ctx.describe(ops=log, X=np.round(s.X[0], 3))


@core.family(FAMILIES, 60, 3000, "a tracked atom through chains of removals, down to one atom")
def removals(ctx):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        mol, s, form = new(ctx, ctx.randint(5, 30))
        i = ctx.randint(0, len(s.Z) - 1)
        s.track = s.id[i]
        mol.set_origin(idx=negative(ctx, i, len(s.Z)))
        n = 0
        while len(s.Z) > 1 and n < 40:
            op_remove(ctx, mol, s)
            n += 1
            judge(ctx, mol, s, "after removal")
            if ctx.chance(.4):
                op_transform(ctx, mol, s)
                judge(ctx, mol, s, "after transformation")
        ctx.describe(form=form, removals=n, X=np.round(s.X[0], 3))


@core.family(FAMILIES, 40, 1500, "molecules hold no space and keep their atoms in scenes")
def scenes(ctx):
    from czone.scene import Scene
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        mols = [new(ctx) for _ in range(ctx.randint(1, 4))]
        sc = Scene(objects=[x[0] for x in mols])
        for mol, s, _ in mols:
            op_priority(ctx, mol, s)
            got = mol.checkIfInterior(ctx.rng.normal(size=(30, 3)))
            ctx.check(got.shape == (30,) and not got.any(), "molecule claims space")
        sc.populate()
        X, Z = np.vstack([s.X for _, s, _ in mols]), np.concatenate([s.Z for _, s, _ in mols])
        m.same_rows(ctx, sc.all_atoms, sc.all_species, X, Z, "atoms of a scene of molecules")
        for mol, s, _ in mols:
            judge(ctx, mol, s, "molecule in a scene")
        ctx.describe(n=[len(s.Z) for _, s, _ in mols], X=np.round(X[0], 3))
