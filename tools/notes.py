# pid -> (technique, level_note); exec'd by gen_manifest.py
BASE = "Exhaustive within the stated bounds; trusts numpy and the reference model in /verif/mc. "
REPLAY = ", every model trace replayed on the real code"
NOTES = {
 "P01": ("explicit-state enumeration of shapes x poses x probe points against an exact rational set model" + REPLAY,
         BASE + "Every shape of the alphabet in every pose is queried at every point of an exactly classified rational grid, batched and singly, at several tolerances."),
 "P02": ("explicit-state exploration of all rigid-transform sequences up to a depth over an exact pose model" + REPLAY,
         BASE + "All sequences of transform operations up to depth 3 over a generating alphabet; state = exact pose; confluence and inverse checked on the real objects."),
 "P03": ("explicit-state exploration of conversion/canonicalisation/transform/stack sequences over an exact polyhedral model" + REPLAY,
         BASE + "All operation sequences up to the depth over an alphabet of polyhedra and cones; set equality decided exactly on the returned rows."),
 "P04": ("exhaustive enumeration of point multisets of small grids (all subsets, duplicates, orders) against exact extreme points" + REPLAY,
         BASE + "All point sets of the stated grids and sizes in dimensions 1 to 4."),
 "P05": ("exhaustive enumeration of operand pairs/chains and relative offsets against exact vertex enumeration" + REPLAY,
         BASE + "All pairs over all offsets of a lattice that hits every contact type, all orders of chains of three; touching configurations only where floats represent them exactly."),
 "P06": ("explicit-state enumeration of shapes x poses against exact support functions" + REPLAY,
         BASE + "All shapes x poses, all point subsets of a grid for the box constructors."),
 "P11": ("explicit-state exploration of the representation-conversion graph (all build/read pairs) over an exact mass model" + REPLAY,
         BASE + "All representations x representations over an alphabet of exact mass distributions; exhaustive paths of conversions to depth 2-3."),
 "P12": ("explicit-state exploration of all addition/transform sequences up to a depth over an exact mass model" + REPLAY,
         BASE + "All sequences of operations up to the depth; numeric finiteness checked in every state."),
 "P13": ("explicit-state enumeration of a lattice of pseudo-inertia matrices with an exact semidefiniteness decision, plus all scripted answers of the random generators" + REPLAY,
         BASE + "Consistency verdict compared at exactly known eigenvalue margins; generators driven through every scripted answer of a small alphabet."),
 "P14": ("explicit-state enumeration of shapes x poses x masses against exact integrals" + REPLAY,
         BASE + "All density models x sizes x poses x masses; closed-form integrals in exact arithmetic."),
 "P19": ("explicit-state enumeration of bodies x spatial velocities x accelerations against exact particle sums" + REPLAY,
         BASE + "The maps are polynomial (degree <= 2) in the enumerated arguments, and the enumerated lattice determines such polynomials."),

 "P07": ("exhaustive enumeration of point subsets of grids and of shapes x poses, each real result decided by a duality certificate / closed form",
         BASE + "Every subset of the grids, every shape in every pose; optimality decided by weak-duality bounds, so an alarm is a proof that a smaller ellipsoid exists."),
 "P08": ("exhaustive enumeration of polytopes spanned by grid subsets and of shapes x poses, each real result decided by a duality certificate / closed form",
         BASE + "Weak-duality upper bounds and enumerated Chebyshev balls decide optimality."),
 "P09": ("exhaustive exploration of shapes x poses x scales x point layouts x directions; each state compares the support function of the real constraint set with the exact one",
         BASE + "Equality of support functions on a direction alphabet, plus distance of exactly classified probe points; CLARABEL solves the enumerated conic problems."),
 "P10": ("exhaustive exploration of ordered shape pairs x relative poses x common motions; every answer of the real code is decided by a separating-slab certificate",
         BASE + "The slab certificate is sound, so an alarm proves a wrong distance; touching configurations are included."),
 "P15": ("exhaustive exploration of shapes x poses x constraint families x relaxation orders x variable kinds x objectives/distributions against the exact point-mass cone",
         BASE + "CLARABEL solves the enumerated conic problems; a bounded alphabet of objectives and distributions per constraint set."),
 "P16": ("exhaustive exploration of shapes x poses x constraint families x objectives against exact attainable maxima, and of an exactly classified lattice of parameters for the direct check",
         BASE + "CLARABEL solves the enumerated conic problems; relaxation orders 1 to 3."),
 "P17": ("explicit-state exploration of multisets of shapes and of body additions/transforms over an exact model; conic comparison of the body's constraints with those of its shapes",
         BASE + "All multisets up to three shapes (four in thorough), all addition orders."),
 "P18": ("exhaustive exploration of constraint families x shapes x poses x variable kinds x margins x quadratic directions on the real constraints",
         BASE + "CLARABEL solves the enumerated conic problems; degenerate shapes can have no feasible J at positive margin, which counts as enforced."),
 "P20": ("explicit-state enumeration of polynomials x points and of atomic measures x moment orders against exact rational algebra" + REPLAY,
         BASE + "Exact rational reference polynomials; every pair/triple of the alphabet; moment matrices of atomic measures up to the bound."),
 "P25": ("explicit-state enumeration of shapes x poses x grid sizes and of exactly classified probe points" + REPLAY,
         BASE + "Every grid point of the model is compared with the library's; a probe point nearer to the surface than rounding allows is not asked."),
 "P26": ("exhaustive enumeration of ordered pairs of shapes/parameters/row multisets under common motions against exact set equality",
         BASE + "All ordered pairs of the alphabet; all row orders of small matrices."),
 "P27": ("explicit-state enumeration of matrices, vectors, integers and time intervals against exact identities" + REPLAY,
         BASE + "The identities are linear/bilinear in their arguments, so a basis and its pairwise sums determine them; integers up to the stated bound plus all neighbours of triangular numbers over many magnitudes."),
 "P28": ("explicit-state enumeration of ellipsoids x poses x representations and of ordered pairs against exact quadratic forms" + REPLAY,
         BASE + "All ordered pairs over a lattice of sizes, rotations and offsets, tangent pairs skipped; the containment verdict is compared with the exact maximum of the quadratic form."),
 "P29": ("explicit-state enumeration of constructors x sizes x poses against exact measures" + REPLAY,
         BASE + "Every constructor for every size and pose of the alphabet, dimensions 1 to 8 for ellipsoids."),
 "P21": ("stateless exploration of the full tree of scripted generator answers on the real samplers",
         BASE + "Both ends of the unit interval, tiny/huge/mixed normals, every discrete outcome; beyond the stated number of branching draws the answers follow a fixed sequence."),
 "P22": ("exhaustive exploration of the tree of generator answers (quadrature nodes with exact weights) on the real samplers; the resulting law is compared with the uniform law",
         BASE + "All moments up to degree four of the law are compared; joint laws of several points must be exact products. A sampler that rejects internally without bound cannot be explored and is reported as inconclusive."),
 "P23": ("stateless exploration of every accept/reject pattern of scripted shapes under the real rejection sampler",
         BASE + "All patterns up to the stated number of candidates, plus real shapes with scripted generators."),
 "P24": ("exploration of all operations and all ordered pairs of operations (histories of length two) on fresh worlds of objects, every object read back afterwards",
         BASE + "Objects are read through public attributes and queries only."),
}
NOT_APPLICABLE = {}