"""Public state of objects of the package as comparable values (public attributes only, no private fields)."""
import numpy as np


def _get(o, name):
    try:
        return getattr(o, name)
    except Exception as e:
        return "raises " + type(e).__name__


def digest(o, atoms=True, depth=0):
    n = type(o).__name__
    if o is None or isinstance(o, (bool, int, float, str, complex)):
        return o if o == o else "nan"
    if isinstance(o, np.generic):
        return o.item()
    if isinstance(o, np.ma.MaskedArray):
        return ("masked", digest(o.data), digest(o.mask))
    if isinstance(o, np.ndarray):
        if o.dtype == object:
            return ("objects", tuple(digest(x, atoms, depth + 1) for x in o.ravel()))
        return ("array", o.shape, o.dtype.kind, o.tobytes())
    if depth > 12:
        return n
    if isinstance(o, (list, tuple)):
        return (type(o).__name__, tuple(digest(x, atoms, depth + 1) for x in o))
    if isinstance(o, (set, frozenset)):
        return ("set", tuple(sorted(map(repr, o))))
    if isinstance(o, dict):
        return ("dict", tuple((str(k), digest(v, atoms, depth + 1)) for k, v in o.items()))

    def fields(*names):
        return (n,) + tuple(digest(_get(o, x), atoms, depth + 1) for x in names)
    mro = [c.__name__ for c in type(o).__mro__]
    if "Plane" in mro:
        return fields("normal", "point", "tol")
    if "Sphere" in mro:
        return fields("radius", "center", "tol")
    if "Cylinder" in mro:
        return fields("axis", "point", "radius", "length", "tol")
    if "BaseVolume" in mro:
        at = ("atoms", "species") if atoms else ()
        if hasattr(o, "volumes"):
            return fields("priority", *at) + (tuple(sorted((digest(v, atoms, depth + 1) for v in o.volumes), key=repr)),)
        return fields("points", "alg_objects", "generator", "priority", "tolerance", *at)
    if "Generator" in mro:
        return fields("origin", "voxel", "strain_field", "post_transform") + _structure(_get(o, "structure"))
    if "AmorphousGenerator" in mro:
        return fields("origin", "species", "density", "min_dist", "use_old_result", *(("old_result",) if atoms else ()))
    if "Voxel" in mro:
        return fields("bases", "scale", "origin")
    if "HStrain" in mro:
        return fields("matrix", "mode", "origin_type") + ((digest(o.origin),) if o.origin_type != "generator" else ())
    if "IStrain" in mro:
        return fields("mode", "origin_type") + ((digest(o.origin),) if o.origin_type != "generator" else ())
    if "ChemicalSubstitution" in mro:
        return fields("target", "substitute", "frac")
    if "BaseMolecule" in mro:
        return fields("atoms", "species", "origin", "orientation", "priority", "print_warnings")
    if "MultiTransform" in mro:
        return fields("transforms")
    if "BaseTransform" in mro:
        return fields("params", "locked", "basis_only")
    if "Scene" in mro:
        return fields("bounds", "objects")
    if n == "Structure":
        return _structure(o)
    if n == "Atoms":
        return (n, digest(o.get_positions()), digest(o.get_atomic_numbers()), digest(np.array(o.get_cell())))
    return n


def _structure(s):
    try:
        return ("structure", digest(np.array(s.lattice.matrix)), digest(np.array(s.frac_coords)),
                tuple(x.Z for x in s.species))
    except Exception:
        return ("structure", repr(type(s)))
