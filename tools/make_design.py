#!/opt/venv/bin/python -B
"""Writes DESIGN.md: tools/design_head.md, one section per property (texts below and in rv/props), findings, planted changes, tools/design_tail.md."""
import glob, importlib, json, os, re, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
sys.dont_write_bytecode = True
from rv import core

ORACLE = {
"C01": "Infinite crystal enumerated from the pymatgen structure (own enumeration, bounds from the inverse cell), cut by signed margins of the region as described to the library; sites nearer to the boundary than a band (the library's 1e-5 tolerance, wider at flat simplices) may be in or out. Atoms and sites are matched one to one by position and element. Population is repeated and compared.",
"C02": "Same enumeration over the hull of the points handed to supply_atoms; orbits of listed sites under the space group's operations for cells made from symmetry; occupancy and ordering by the structure. Family `faces` puts box faces on lattice planes, where counts of layers go wrong.",
"C03": "Margins of every surface and of the convex hull computed from the shadow description that the harness keeps beside the object through histories of added and replaced points and surfaces (including refused changes). Answers for one point, many points and permuted points must agree.",
"C04": "Shadow model in lockstep: every step of the history is also composed into a 4x4 map; membership is asked for at images of points with known margins, atoms are compared with the moved atoms of the first population, unlocked crystals with the cut of the unmoved crystal.",
"C05": "Own 4x4 matrices per transformation; isometry, involution, fixed points, inverse and composition laws; transformed surfaces are judged by membership of transformed points with a band; bases by the linear part.",
"C06": "Algebra: orthogonality, determinant, images of the given vectors, documented Euler order built from elementary rotations; angles by atan2; inputs concentrated on parallel, anti-parallel and nearly parallel vectors and vectors of extreme length.",
"C07": "Planes before and after; foot point on the line; isometry; hashes of the inputs.",
"C08": "Conservation checker: every atom of every object, taken from the objects themselves, is expected in the scene exactly if no object of equal or lower priority number contains it (margins of the shadow regions, band at boundaries); nothing else may be there. Histories of adding, changing priorities, transforming, repopulating; permutations of the order must give the same atoms.",
"C09": "As C08 for members of unions, nested to depth three, with surviving atoms of members populated on their own as reference.",
"C10": "Every public call during a workload is wrapped: arguments and receiver are hashed before and after (`digest`); copies are driven apart and compared with untouched twins. Caller-owned arrays are hashed for the entire case.",
"C11": "Shadow list of (element, position), tracked atom or point, orientation, advanced in lockstep; refused operations must leave the digest unchanged.",
"C12": "Minimum-image distances by brute force (cKDTree for bulk), counts from density x volume, density by octants, periodic x and y, elements, location of blocks, reuse of old blocks.",
"C13": "Reciprocal lattice of the crystal as oriented, placed and strained: family index (p.n/d) must be an integer to tolerance; nearest, floor and ceil compared with the integer neighbours; points exactly on a plane are judged for nearest only.",
"C14": "Vertices by enumeration of all triples of planes in float with exact feasibility margins, boundedness and emptiness by own linear programs; `recorded` keeps sets on which the solver used to fail. Points to planes: membership of points in hull vs planes.",
"C15": "Interior points of the shadow region (sampled and extreme points) against the hull of the reported points; prism sizes and centres from their corners; regions from every combination of surfaces, including planes meeting far away.",
"C16": "Positions against the strain matrix applied in the chosen system relative to the chosen origin, for every notation; inhomogeneous functions applied by the harness; volumes with strained crystals against the strained enumeration; refusals.",
"C17": "Every call is observed: positions untouched, only targets changed, only into substitutes; counts at rate p against binomial bounds with error probability below 1e-9; independence of neighbours; sequences against composition by hand.",
"C18": "Stacking read back from the atoms: layers along the chosen normal are classified A/B/C from positions, and twin planes and faults recovered and counted; coordination numbers and distances by brute force.",
"C19": "Bonds and coordination by brute force, stacking letters of bilayers from positions, number and kind of faults, spacing.",
"C20": "Both grains enumerated from the crystals oriented by own rotations, cut by plane and volume.",
"C21": "Half-spaces from own orbit of facets under the point group in the crystal's frame with distances proportional to energies; size against natoms; fractions of areas from vertices; constructions after changes of parameters; interfaces for Winterbottom.",
"C22": "All voxel pairs by brute force; distances by enumeration of the images in longdouble.",
"C23": "All pairs over all images by brute force; band at bin edges.",
"C24": "Feasibility by arithmetic; distances from results; coverage of admissible positions over many seeds; watchdog for calls that never answer.",
"C25": "Circumradii in longdouble and rational arithmetic; accepted tetrahedra classified with a band for the random displacements; expected surface by facets; convex hulls for large probes.",
"C26": "Rotation, bonding site and direction read back from positions by Kabsch; surface atoms from C25's model; margins for collision; breadth-first search for neighbour shells; half-space test for normals.",
"C27": "Files are read back (ASE readers, own CIF and multislice parsers) and compared atom by atom.",
"C28": "A catalogue of invalid inputs by entry point; each must raise, and digest and behaviour of the object (population, queries) must be as before; valid neighbours of the same inputs must be accepted.",
"C29": "Each routine is run twice under different global random states, preceding calls and orders, and compared bit by bit; seeded routines with and without passing generators; different seeds must differ.",
"C30": "Figures are read back: offsets and colours of everything drawn in each panel, limits, titles and labels; directions by projecting small steps along the axes to the screen.",
}
props = [json.loads(l) for l in open(here + "/properties.jsonl")]
out = [open(here + "/tools/design_head.md").read().rstrip(), "", "## Properties", ""]
for p in props:
    i = p["id"]
    mod = importlib.import_module("rv.props." + i.lower())
    sc = core.QUICK_SCALE.get(i, 1)
    out += [f"### {i} {p['title']}", "", f"*Oracle.* {ORACLE[i]}", "", f"*Workload.* {mod.RULE}", ""]
    out += ["*Families (cases quick / thorough).* " + "; ".join(f"`{f.name}` {f.what} ({max(1, round(f.quick * sc))} / {f.thorough})" for f in mod.FAMILIES) + ".", ""]
    out += ["*Bounds and assumptions.* " + "; ".join(getattr(mod, "ASSUMPTIONS", []) or ["none beyond the workload"]) + ".", ""]
    if getattr(mod, "MIN_EVENTS", None):
        out += ["*Fewest events that count as a verdict.* " + ", ".join(f"{k} {v}" for k, v in mod.MIN_EVENTS.items()) + ".", ""]
    out += [f"*Beyond tests.* {p['why_tests_cant']}", ""]
out += ["## Genuine defects found", "", "From known_findings.txt (each repaired in a `fix:` commit of its own, unless open):", ""]
for l in open(here + "/known_findings.txt"):
    m = re.match(r"(fixed|open): property=(C\d+) (\S+) (.*)", l)
    if m:
        out.append(f"* {m[2]} {m[3] if m[1] == 'fixed' else 'OPEN ' + m[3]}: {m[4]}")
out += ["", "## Planted changes", "", "`tools/plant.py` verifies each (applies, tests pass, demonstration fails only with it) and runs the check of its property in quick tier, seed 1. The last column names the check that reported the change, "
        "when it was planted or after the strengthening told below.", "",
        "| id | property | needs | caught by |", "|---|---|---|---|"]
res = json.load(open(here + "/tools/planted.json")) if os.path.exists(here + "/tools/planted.json") else {}
for d in sorted(glob.glob(here + "/seeded/*/meta.json")):
    m, k = json.load(open(d)), os.path.basename(os.path.dirname(d))
    out.append(f"| {k} | {m['property']} | {m['needs']} | {res.get(k, m['property'])} |")
out += ["", open(here + "/tools/design_tail.md").read().rstrip(), ""]
open(here + "/DESIGN.md", "w").write("\n".join(out))
