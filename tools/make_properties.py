"""Writes /verif/properties.jsonl (edit here, then run)."""
import json, os
V="czone/volume/volume.py"; A="czone/volume/algebraic.py"; X="czone/volume/voxel.py"
G="czone/generator/generator.py"; AM="czone/generator/amorphous_algorithms.py"
T="czone/transform/transform.py"; ST="czone/transform/strain.py"; PO="czone/transform/post.py"
M="czone/molecule/molecule.py"; S="czone/scene/scene.py"; P="czone/prefab/prefab.py"; W="czone/prefab/wulff.py"
AD="czone/surface/adsorbate.py"; AL="czone/surface/alpha_shape.py"; ME="czone/util/measure.py"; MI="czone/util/misc.py"
out=[]
def p(id,title,statement,over,text,why,mech,observe,state=()):
    files=[]
    for n,w in mech:
        f=w.split(":")[0]
        if f not in files: files.append(f)
    out.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
                   state=[dict(name=n,meaning=m,where=w) for n,m,w in state],observe_at=list(observe),hook_needed=None)))
NT="No existing test touches this; "
p("C01","Populated volumes hold exactly the crystal sites in their region",
"After populating a bounded volume that carries a crystalline generator, its atoms are exactly the sites of the infinite crystal (as oriented and placed) that lie in the volume's region, each once and with the right element: none missing, none outside, none duplicated. Repeating the population gives the same atoms.",
["inputs","configurations"],"all unit cells (any crystal system, any number of sites, coordinates also outside the unit cell), all orientations and origins of the generator, all bounded regions made of points, planes, spheres and cylinders anywhere in space",
NT+"it must hold for every cell, orientation and region, most of all for non-orthogonal cells, regions away from the origin and atoms on the boundary.",
[("populate from bounding box then interior filter",V+":Volume.populate_atoms"),("bounding region",V+":Volume.get_bounding_box"),("tiling of unit cells over extents",G+":Generator.supply_atoms"),("extent of voxels covering a box",X+":Voxel.get_extents")],
["Volume.atoms","Volume.species"],[("voxel","bases and origin that place the crystal",G+":Generator.voxel")])
p("C02","Generators supply the complete crystal over any requested region",
"For any set of points bounding a region, a crystalline generator returns every crystal site inside the convex hull of those points, returns only true crystal sites with their true elements, and returns no site twice. Cells built from symmetry data contain the full orbit of each listed site, and the space group number takes precedence over the symbol if both are given.",
["inputs","configurations"],"all lattices incl. triclinic, all space groups and site lists, all rotations, reflections, translations and basis-only transformations of the generator, all bounding regions, with and without homogeneous strain or post-transformations",
NT+"one orthogonal cell at the origin would pass with several of the ways in which bases, extents or origins can be mixed up.",
[("tiling of unit cells over extents",G+":Generator.supply_atoms"),("extents",X+":Voxel.get_extents"),("symmetric cells",G+":Generator.from_spacegroup"),("plain cells",G+":Generator.from_unit_cell"),("transformation of bases and origin",G+":Generator.transform")],
["Generator.supply_atoms"])
p("C03","Interior tests decide set membership in the described region",
"A point is reported interior to a volume exactly if it satisfies all of its surfaces and, where the volume has points, lies in their convex hull; a union of volumes contains exactly the points of its members. This reflects the current description after any history of adding surfaces, adding points and replacing points, for one or many points at a time.",
["inputs","histories"],"all combinations of hull points, planes, spheres and cylinders, nested unions, any history of edits, all query points away from the boundary by more than the tolerance",
"Tests cover single spheres, planes and cylinders only; point hulls, intersections, unions and edits after construction are unbounded families they never reach.",
[("intersection of hull and surfaces",V+":Volume.checkIfInterior"),("union",V+":MultiVolume.checkIfInterior"),("hull maintenance",V+":Volume.addPoints"),("surface predicates",A+":Plane/Sphere/Cylinder.checkIfInterior")],
["Volume.checkIfInterior","MultiVolume.checkIfInterior"],[("hull, tri","derived from points; must follow them",V+":Volume.createHull")])
p("C04","Transforming a volume moves its region and, if locked, its crystal",
"After any sequence of isometric transformations a point is interior to a volume exactly if its pre-image was interior before; if the transformations are locked the atoms of the volume move along with it (same atoms, elements and count), and if not the crystal stays where it was. The same holds for unions, copies made with transformations, and volumes with amorphous or empty generators.",
["inputs","histories"],"all sequences of translations, rotations, reflections, inversions and their compositions, locked or not, applied to every kind of volume, in place or on a copy, before or after population",
NT+"equivariance is a statement over all transformation histories; tests have only one rotated plane and cylinder.",
[("volume transform",V+":Volume.transform"),("union transform",V+":MultiVolume.transform"),("generator transform",G+":Generator.transform"),("surface transforms",T+":MatrixTransform.applyTransformation_alg"),("copy with transformations",V+":Volume.from_volume")],
["Volume.checkIfInterior","Volume.atoms"])
p("C05","Transformations act consistently as affine maps",
"Every transformation acts on points as one affine map given by its parameters: rotations, reflections and inversions preserve distances and fix their origin or plane, reflections and inversions undo themselves, and a sequence equals applying its members in order. Surfaces transform so that the transformed surface contains exactly the transformed points of the original, and bases transform by the linear part alone.",
["inputs","histories"],"all shifts, matrices, rotation axes, reflection planes and origins, all sequences and nestings, all surface types (planes under any invertible matrix)",
NT+"a handful of samples cannot separate e.g. a normal transformed by the matrix from the inverse transpose, or an ignored origin.",
[("points",T+":MatrixTransform.applyTransformation"),("surfaces",T+":MatrixTransform.applyTransformation_alg"),("bases",T+":MatrixTransform.applyTransformation_bases"),("sequence",T+":MultiTransform"),("reflection",T+":Reflection"),("translation",T+":Translation")],
["applyTransformation","applyTransformation_alg","applyTransformation_bases"])
p("C06","Rotation and angle helpers return what they promise",
"Rotations about a vector, between two vectors, aligning sets of vectors, and from Euler angles are proper orthogonal matrices that map what they should map, including parallel, anti-parallel and nearly (anti-)parallel vectors of any length, and both Euler conventions describe the same documented order. Angles between vectors are finite and correct, and rounding away from zero never moves towards zero.",
["inputs"],"all vectors (any length, axis aligned, parallel, opposite, almost so), all angles",
NT+"the failures sit at measure-zero inputs (collinear up to rounding) that are nevertheless what users type in.",
[("axis-angle",T+":rot_v"),("vector to vector",T+":rot_vtv"),("vector sets",T+":rot_align"),("Euler",T+":rot_zxz"),("angle",MI+":vangle"),("rounding",MI+":round_away")],
["return values"])
p("C07","Surface-to-surface alignment brings two surfaces into contact",
"The transformation aligning a moving surface to a target surface makes the moved plane coincide with the target plane with opposite normal, and brings the moved reference point onto the line through the target reference point along the target normal. It is an isometry and leaves both input planes as they were.",
["inputs"],"all pairs of planes (parallel, opposite, on either side of each other) and reference points",
NT+"correctness depends on sign and order of shifts which only show for general positions.",
[("alignment",T+":s2s_alignment"),("projection",A+":Plane.project_point"),("signed distance",A+":Plane.sdist_from_plane")],
["s2s_alignment"])
p("C08","Scenes keep each atom exactly if no competing object claims its place",
"A populated scene contains an atom of an object if and only if the atom is not interior to any other object of the same or a more precedent (lower numbered) priority; nothing else is added, lost or changed, and elements stay with their positions. This holds regardless of the order in which objects were added and after any history of additions, priority changes, transformations and repeated population.",
["inputs","histories"],"all sets of overlapping volumes, unions and molecules with any priorities (equal, negative, gaps), all insertion orders and histories",
NT+"the rule is a statement over all pairs of objects, orderings and priority patterns.",
[("conflict resolution",S+":Scene.populate"),("priority levels",S+":Scene._get_priorities"),("collected atoms",S+":Scene.all_atoms/all_species"),("molecules claim no space",M+":BaseMolecule.checkIfInterior")],
["Scene.all_atoms","Scene.all_species","Scene.species_from_object"])
p("C09","Unions resolve conflicts between their members by priority",
"A populated union of volumes contains a member's atom if and only if it is not interior to another member of the same or a more precedent priority, for any number and order of members and any nesting. Elements stay attached to positions, the union's atoms are all interior to it, and repeated population gives the same result.",
["inputs","histories"],"all sets of overlapping members with any priorities, orders, nesting depths, and histories of adding members and changing priorities",
NT+"unions are not tested at all, and the rule quantifies over all overlaps and priority patterns.",
[("conflict resolution",V+":MultiVolume.populate_atoms"),("priority levels",V+":MultiVolume._get_priorities"),("adding members",V+":MultiVolume.add_volume")],
["MultiVolume.atoms","MultiVolume.species"])
p("C10","Copies are faithful and independent; queries do not change their inputs",
"A copy made from a volume, union, generator, surface or molecule behaves like the original except for requested changes, and later changes to either leave the other as it was. Queries and populations change nothing but the populated atoms, and nothing modifies the arrays, or the surfaces and generators given to volumes, of the caller; surfaces, volumes, molecules, lattices and scenes are not bound to the arrays they were made from.",
["inputs","histories"],"all objects and copy constructors with all documented arguments, all later histories on both sides, all query functions",
"Only copying an untransformed molecule is tested; independence is a statement over all later histories of both objects.",
[("volume copies",V+":Volume.from_volume"),("union copies",V+":MultiVolume.from_volume"),("generator copies",G+":BaseGenerator.from_generator"),("surface copies",A+":BaseAlgebraic.from_alg_object"),("molecule copies",M+":BaseMolecule.from_molecule"),("defensive copies",V+":Volume.add_generator/add_alg_object")],
["public attributes and behaviour of both objects; caller's arrays"])
p("C11","Molecules keep atoms, elements, origin and orientation consistent",
"Over any history of transformations, position and element updates, atom removals and origin changes, a molecule's positions and elements are those of the remaining atoms in order, and its origin is either the fixed point as transformed or the very atom chosen to be tracked. Operations that are refused leave the molecule as it was.",
["histories","inputs"],"all histories of set, update, remove, transform, set-origin and copy operations with valid and invalid arguments, negative indices included",
"Tests exercise each operation alone from a fresh molecule; combinations such as removing atoms before a tracked origin are never reached.",
[("removal",M+":BaseMolecule.remove_atoms"),("origin",M+":BaseMolecule.set_origin/origin"),("transform",M+":BaseMolecule.transform"),("updates",M+":BaseMolecule.set_atoms/update_positions/update_species")],
["Molecule.atoms","Molecule.species","Molecule.origin","Molecule.orientation"],[("origin index","index of tracked atom",M+":BaseMolecule._origin_idx")])
p("C12","Amorphous blocks respect minimum distance, density and location",
"An amorphous block has exactly the number of atoms given by density times volume, all inside the requested box, no two closer than the minimum distance, also across the periodic x and y boundaries. Generators place the block over the region asked for, with the requested element and density, and re-use a previous block only if told to.",
["inputs","configurations"],"all box sizes (also not multiples of the minimum distance), minimum distances, densities, seeds, batch sizes and box locations, for both packing algorithms",
NT+"violations are rare pairs at periodic boundaries that need many boxes and seeds to show.",
[("packing",AM+":gen_p_substrate"),("batched packing",AM+":gen_p_substrate_batched"),("voxels",AM+":get_voxels"),("generator",G+":AmorphousGenerator.supply_atoms")],
["returned coordinates","AmorphousGenerator.old_result"])
p("C13","Miller planes snap to true lattice planes of the placed crystal",
"The plane returned for a point, a generator and Miller indices is normal to those lattice planes of the crystal as oriented, placed and homogeneously strained, and passes through a lattice plane of the family. In nearest mode no plane of the family is closer to the point; floor and ceil give the neighbouring plane towards and away from the generator origin.",
["inputs","configurations"],"all crystal systems, orientations, origins, Miller indices (zeros, negatives, common factors), points and homogeneous strain fields",
NT+"cubic cells at the origin with one non-zero index hide every mistake in it.",
[("snapping",A+":snap_plane_near_point"),("reciprocal bases",X+":Voxel.reciprocal_bases")],
["returned Plane"])
p("C14","Half-space intersections are classified and enclosed correctly",
"For any set of planes the vertex routine reports success exactly if the common interior is non-empty and bounded, and then returns precisely the vertices of that polytope; otherwise it reports infeasible or unbounded. Turning points into hull planes gives planes whose common interior is the convex hull of the points.",
["inputs"],"all sets of planes in any position, orientation and redundancy, all point sets in general position",
"One test checks a few plane sets near the origin; position in space and redundancy of planes are unbounded.",
[("half-space intersection",A+":get_bounding_box"),("hull to planes",A+":convex_hull_to_planes")],
["vertices and status; list of planes"])
p("C15","Bounding boxes enclose the region they stand for",
"The bounding points reported for a bounded volume enclose every interior point of it in their convex hull (up to tolerance), for regions described by points, spheres, planes or cylinders or combinations of them. Rectangular prisms have the requested sizes and centers.",
["inputs","histories"],"all bounded volumes in any position and orientation, before and after transformations",
NT+"a cylinder along one particular direction, or a region away from the origin, is enough to lose atoms silently.",
[("choice of box",V+":Volume.get_bounding_box"),("cylinder box",A+":Cylinder.get_bounding_box"),("plane vertices",A+":get_bounding_box"),("prism",V+":makeRectPrism")],
["get_bounding_box"])
p("C16","Strain fields deform the crystal as specified",
"A homogeneous strain maps every atom by its matrix in crystal or standard coordinates relative to the generator origin or a given point, in all accepted matrix notations; an inhomogeneous field applies the user's function to coordinates in the chosen system. The identity strain changes nothing, volumes with homogeneously strained crystals stay completely filled, and invalid modes, shapes and functions are refused.",
["inputs","configurations"],"all matrices and notations, origins, both modes, all orientations and positions of the generator, arbitrary user functions",
NT+"row and column mix-ups vanish for diagonal matrices and cubic cells.",
[("homogeneous",ST+":HStrain.apply_strain"),("notations",ST+":HStrain.matrix"),("inhomogeneous",ST+":IStrain.apply_strain"),("frame of generator",ST+":BaseStrain.scrape_params"),("application",G+":Generator.supply_atoms")],
["apply_strain","Generator.supply_atoms"])
p("C17","Chemical substitutions and post-transformations change only what they name",
"A substitution changes only elements listed as targets and only into their substitutes, decided independently per atom at the given rate (none at 0, all at 1), and moves no atom; a seeded call is repeatable. Sequences apply their members in order and user functions receive and return the points and species unchanged by the framework.",
["inputs","configurations"],"all species arrays, target and substitute lists (disjoint, swapped or chained), fractions, seeds, sequences and nestings",
NT+"rates and independence are statistical statements over all arrays.",
[("substitution",PO+":ChemicalSubstitution.apply_function"),("user function",PO+":ArbitraryPostTransform"),("sequence",PO+":PostSequence"),("application",G+":Generator.supply_atoms")],
["returned points and species"])
p("C18","FCC defect structures are physically sound and contain the defects asked for",
"Objects with stacking faults and twins in FCC crystals stay close packed everywhere: no two atoms closer than the nearest-neighbour distance and every interior atom twelve-coordinated. They contain exactly the requested number of defects of the requested kinds on planes of the chosen {111} family at least the minimum separation apart, and lie within the bounds of the given volume.",
["inputs","configurations"],"all FCC crystals, orientations, positions, convex volumes, {111} variants, numbers, ratios and separations of defects, all random choices",
NT+"each random choice of planes and kinds gives another structure, and errors show only for some orientations and parities.",
[("building",P+":fccMixedTwinSF.build_object"),("only faults",P+":fccStackingFault"),("only twins",P+":fccTwin"),("plane choice",MI+":get_N_splits"),("snapping",A+":snap_plane_near_point")],
["atoms of the built object"])
p("C19","Wurtzite stacking faults keep tetrahedral bonding",
"Objects with basal stacking faults in wurtzite crystals keep every interior atom bonded to four atoms of the other element at the bond length, with no atoms closer than that, and lie within the given volume. They contain exactly the requested number of faults, each a single layer of the other stacking kind.",
["inputs","configurations"],"all wurtzite crystals, orientations, positions, convex volumes, numbers and separations of faults, all random choices",
NT+"the shift depends on the parity of randomly chosen planes and on the orientation.",
[("building",P+":wurtziteStackingFault.build_object"),("plane choice",MI+":get_N_splits"),("snapping",A+":snap_plane_near_point")],
["atoms of the built object"])
p("C20","Grain boundaries join two oriented crystals on the given plane",
"A simple grain boundary consists of the first crystal, with its zone axis along z, on the inner side of the plane and the second crystal, with its zone axis along z, on the other side, both cut by the given volume. No atom belongs to neither crystal and each side is complete.",
["inputs","configurations"],"all crystals, zone axes, planes and volumes",
NT+"orientation relations hold or fail for every zone axis separately.",
[("building",P+":SimpleGrainBoundary.build_object"),("rotation",T+":rot_vtv"),("precedence",V+":MultiVolume.populate_atoms")],
["atoms of the built object"])
p("C21","Wulff shapes obey the Wulff construction",
"Single-crystal Wulff shapes are the intersection of half-spaces whose distance from the center is proportional to the surface energy for every symmetry-equivalent facet in the frame of the crystal, with about the requested number of atoms; Winterbottom shapes are additionally cut by the interface. The named shapes are the Wulff shapes of their energies, and all of them can be populated and report facet fractions that sum to one.",
["inputs","configurations"],"all cubic and hexagonal crystals, energies, sizes and interfaces",
NT+"the construction is a statement over all energies, facets and crystal frames.",
[("facets to planes",W+":WulffBase.planes_from_wulff"),("construction",W+":WulffSingle.get_construction"),("interface",W+":WulffSingle.winterbottom"),("named shapes",W+":WulffSingle.cube/cuboctohedron/octohedron/truncated_octohedron")],
["planes and atoms of the returned volume"])
p("C22","Voxel neighbour lists and periodic distances are exact",
"The neighbour list of each voxel contains exactly the voxels within one step, wrapping exactly in the periodic directions, and the relation is symmetric. The distance function equals the squared minimum-image distance in the chosen periodic directions and the plain squared distance in the others.",
["inputs","configurations"],"all grid sizes (down to one voxel per direction) and all eight periodicity patterns; all boxes and points within them",
NT+"edges and corners of every grid shape and periodicity pattern are separate cases.",
[("neighbour lists",ME+":get_voxel_grid"),("distance",ME+":get_sdist_fun")],
["returned lists and values"])
p("C23","Radial distribution counts every pair exactly once per direction",
"The histogram of distances equals the brute-force count over all ordered pairs of distinct atoms at minimum-image distances below the cutoff, in steps of a tenth, for any periodicity, number of atoms and box shape. The coordinates handed in are not changed.",
["inputs","configurations"],"all coordinate sets (also planar or smaller than the cutoff), cutoffs, all periodicity patterns",
NT+"miscounts depend on how box and cutoff divide and on where atoms sit.",
[("counting",ME+":calc_rdf"),("neighbour lists",ME+":get_voxel_grid"),("distance",ME+":get_sdist_fun")],
["returned counts"])
p("C24","Random split positions keep their distance and are always found",
"For any requested number, separation and length the routine refuses exactly if no valid choice exists, and otherwise reaches an answer: that many sorted positions in range, pairwise and from both ends at least the separation apart. Seeded calls are repeatable, and every admissible position can occur.",
["inputs","configurations"],"all counts, separations and lengths (tight ones included), all seeds",
NT+"tight cases and re-seeding after dead ends are needed to see loss of progress.",
[("rejection sampling",MI+":get_N_splits")],
["returned list; number of executed steps"])
p("C25","Alpha shapes report the exterior atoms and only those",
"For a large probe the reported surface is the set of convex hull vertices, and for any probe it consists of exactly the atoms on exposed facets of accepted tetrahedra (circumradius within the probe): facets on the hull of the triangulation, or next to a rejected tetrahedron that lies at this hull. Circumradii of tetrahedra are exact up to rounding, whatever the position and orientation.",
["inputs","configurations"],"all point clouds (lattices and random), probe radii and both variants",
NT+"every cloud has another triangulation; degenerate lattices are the normal use.",
[("circumradii",AL+":tetrahedron_circumradii"),("surface",AL+":alpha_shape_alg_3D"),("sampled surface",AL+":alpha_shape_alg_3D_with_sampling")],
["returned indices and shape data"])
p("C26","Adsorbates attach rigidly to an allowed surface atom at the bond length",
"An added adsorbate is a rigid, proper rotation of the molecule, bonded atom at the requested distance from a surface atom that passes all filters, and its chosen direction along the outward normal used for the bond. Success is reported exactly if no atom of the adsorbate is interior to the volume, and neither molecule nor volume is changed. The neighbours used are exactly those within the given number of shells in the surface (or whole) alpha shape, and for neighbours lying on one side the normal is a unit vector pointing away from all of them.",
["inputs","configurations"],"all molecules, orientations, bonding atoms, bond lengths, rotations, filters, volumes and seeds",
NT+"site choice and normals are random per seed and per surface.",
[("placement",AD+":add_adsorbate"),("normal",AD+":find_approximate_normal"),("neighbours",AD+":get_nearest_neighbors"),("surface",AL+":alpha_shape_alg_3D_with_sampling")],
["returned molecule and flag"])
p("C27","Exported structures contain exactly the atoms of the object",
"The atoms objects and files produced from scenes, volumes, unions and molecules contain each atom once with its position and element, for every supported format, and scenes carry their cell dimensions. Writing never silently produces nothing, and per-element thermal factors given by the user are honoured.",
["inputs","configurations"],"all populated objects, file formats and writer options",
NT+"round trips must hold for every content, format and option.",
[("scene export",S+":Scene.to_file"),("scene atoms",S+":Scene.ase_atoms"),("volume export",V+":BaseVolume.to_file"),("molecule atoms",M+":BaseMolecule.ase_atoms")],
["files read back; ase_atoms"])
p("C28","Invalid inputs are refused without damage",
"Inputs outside the documented domain (wrong shapes, degenerate vectors, non-positive sizes, invalid rotations, wrong types) are refused with an error, and a refused call leaves the object behaving exactly as before.",
["inputs","fault_sequences"],"all setters and constructors, all kinds of invalid values, interleaved with valid operations",
"Tests check that some bad values raise, never that the object is intact afterwards.",
[("volume points",V+":Volume.points"),("surfaces",A+":Sphere/Plane/Cylinder setters"),("transformations",T+":Rotation.matrix"),("generators",G+":Generator setters"),("molecules",M+":BaseMolecule setters"),("voxel",X+":Voxel setters")],
["exceptions and state afterwards"])
p("C29","Seeded results are repeatable and everything else is deterministic",
"Construction, population, transformation and queries give identical results whenever repeated, independent of the state of the global random generator and of earlier calls, and seeded random routines depend on their seed alone. Different seeds give different random structures.",
["histories","inputs"],"all deterministic operations and all seeded routines, repeated after arbitrary other calls and global random states",
NT+"repeatability is a statement about all histories before the call.",
[("amorphous seeds",AM+":gen_p_substrate/gen_p_substrate_batched"),("splits",MI+":get_N_splits"),("substitution",PO+":ChemicalSubstitution.apply_function"),("adsorbate seed",AD+":add_adsorbate"),("population",V+":Volume.populate_atoms")],
["results of repeated calls"])
p("C30","Views show every atom of a scene in its place",
"Every panel of a scene view or coordinate view shows each atom exactly once at its position, with one colour per element that is the same in all panels, and scene views are limited to the bounds of the scene. The XY, XZ and YZ panels look along the third axis with the named axes to the right and upwards, and the rotatable panel uses the given angles; showing changes nothing, and anything that is no scene is refused by scene views.",
["inputs","configurations"],"all populated scenes, bounds, coordinates and angles",
NT+"what is seen is only known from the contents of the figure.",
[("coordinate view","czone/viz/viz.py:simple_view_with_rotate"),("scene view","czone/viz/viz.py:simple_scene_view"),("rotatable scene view","czone/viz/viz.py:simple_scene_view_with_rotate")],
["contents, limits and projection of the axes of the figure"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for o in out: f.write(json.dumps(o)+"\n")
print(len(out))
