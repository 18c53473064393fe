#!/usr/bin/env python3
"""Single source of the property list; writes /verif/properties.jsonl."""
import json, os
P = []
def prop(id, title, statement, over, q, why, files, mech, observe=None, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=q), why_tests_cant=why,
             anchors=dict(files=["src/rigeo/" + f for f in files],
                          mechanism=[dict(name=n, where="src/rigeo/" + w) for n, w in mech],
                          observe_at=observe or [], hook_needed=None))
    if state:
        d["anchors"]["state"] = [dict(name=a, meaning=b, where="src/rigeo/" + c) for a, b, c in state]
    assert len(title) <= 80, title
    P.append(d)

MOSEK = "The tests that would exercise this need a MOSEK licence and do not even run in most environments; "

prop("P01", "Membership queries answer exactly the set the shape denotes",
 "For every shape (box, convex polyhedron, ellipsoid of any dimension including degenerate ones, cylinder, capsule) in any pose, a membership query answers True for every point of the set the shape denotes, boundary included, and False for every point outside it by clearly more than the numerical tolerance given (points outside by clearly less count as contained). A batch query (list or array, any number of points) equals the point-by-point answers, raising the tolerance only ever adds points, and 'contains polyhedron' holds exactly when every point of the polyhedron is in the shape.",
 ["inputs", "configurations"], "all shapes x poses x points x tolerances x batch sizes",
 "Tests query a handful of points, mostly on axis-aligned shapes at the origin; a wrong axis, centre or tolerance only shows for rotated, offset, flat or off-axis combinations.",
 ["shape/base.py", "shape/poly.py", "shape/ellipsoid.py", "shape/cylinder.py", "shape/capsule.py", "shape/box.py"],
 [("half-space test", "shape/poly.py"), ("degenerate-aware quadratic form", "shape/ellipsoid.py"), ("product of 1-D and 2-D ellipsoids", "shape/cylinder.py"), ("union of caps and cylinder", "shape/capsule.py")],
 ["contains", "contains_polyhedron"])

prop("P02", "Rigid transforms of shapes are exact, compose, and invert",
 "After any sequence of rigid transforms (rotation, translation, either or both, and rotation about the shape's own centre) a shape denotes exactly the image of the original set: a point is in the result iff its pre-image is in the original. Sizes, volume and kind are preserved, different transform sequences with the same overall motion give the same shape, a motion followed by its inverse gives back the original, and the original object is unaffected.",
 ["histories", "inputs"], "all sequences of rigid transforms applied to all shape kinds",
 "Tests apply one transform to one box; order, composition, inverse and the non-box kinds (cylinder, capsule, degenerate and lower/higher dimensional ellipsoids, polyhedra) are quantified over sequences.",
 ["shape/box.py", "shape/cylinder.py", "shape/capsule.py", "shape/ellipsoid.py", "shape/poly.py", "util.py"],
 [("new_rotation = R @ rotation, new_center = R @ center + t", "shape/box.py"), ("vertex mapping", "shape/poly.py"), ("transform_matrix / transform_matrix_inv", "util.py")],
 ["transform", "rotate_about_center", "contains"],
 [("rotation, center", "pose of the shape", "shape/box.py")])

prop("P03", "Face and span forms of a polyhedron describe the same set",
 "Converting a convex polyhedron or cone (other than the whole space) between its face form (inequalities and equalities) and its span form (vertices, rays, linear spans), in either direction and any number of times, never changes the set it denotes, including lower-dimensional, unbounded and single-point ones. Putting either form in canonical form keeps the set and leaves no redundant row or generator; rigidly transforming or stacking (intersecting) forms gives exactly the image or intersection; boundedness and cone-ness are reported correctly, and an empty polyhedron has no span form.",
 ["inputs", "histories"], "all generator sets / inequality systems, and all sequences of conversions",
 "Tests convert three boxes and compare a single point; redundancy, rays, equalities and degenerate dimension interact combinatorially.",
 ["polydd.py"], [("cdd matrix conversion with lin_set handling", "polydd.py"), ("SpanForm/FaceForm.transform", "polydd.py"), ("stack", "polydd.py")],
 ["to_face_form", "to_span_form", "canonical", "transform", "stack", "bounded", "is_cone"],
 [("SpanForm.vertices/rays, FaceForm.A/b", "generators and inequality rows", "polydd.py")])

prop("P04", "Convex hull returns exactly the extreme points",
 "For any finite set of points in any dimension, whatever their affine dimension, duplicates, order or interior points, the convex hull function returns exactly the extreme points of the set, each once. Building a polyhedron from vertices with pruning keeps exactly those points and denotes the same set as without pruning.",
 ["inputs"], "all finite point sets (any affine rank, duplicates, order)",
 "Tests use a cube and a square plus random interior points; extreme-point classification is a combinatorial property of every configuration, collinear and coplanar ones above all.",
 ["polydd.py", "shape/poly.py"], [("SpanForm.canonical", "polydd.py"), ("convex_hull", "polydd.py"), ("from_vertices(prune)", "shape/poly.py")], ["convex_hull", "from_vertices"])

prop("P05", "Polyhedron intersection is exactly the set intersection",
 "Intersecting two convex polyhedra yields a polyhedron that contains a point iff both operands contain it, and yields None exactly when they share no point; this includes intersections that degenerate to a face, edge or single point. The operation is commutative, associative and idempotent as far as the denoted set is concerned, so chains of intersections in any order agree.",
 ["inputs", "histories"], "all pairs and chains of polyhedra in all relative positions",
 "One cube is intersected with four others; contact patches depend on relative position, orientation and dimension drop.",
 ["shape/poly.py", "polydd.py"], [("face_form.stack(...).to_span_form()", "shape/poly.py"), ("None on empty generator matrix", "polydd.py")], ["intersect"])

prop("P06", "Axis-aligned bounding boxes are bounding and tight",
 "For every three-dimensional shape in any pose, the axis-aligned bounding box contains the whole shape and every one of its six faces touches the shape. The box built to bound a set of points is the smallest axis-aligned box containing them, and the box built from two opposed vertices does not depend on which opposed pair is given.",
 ["inputs", "configurations"], "all shapes x poses; all finite point sets; all vertex pairs",
 MOSEK + "and look at one pose per kind.",
 ["shape/ellipsoid.py", "shape/cylinder.py", "shape/capsule.py", "shape/poly.py", "shape/box.py"],
 [("sqrt(diag(E))", "shape/ellipsoid.py"), ("union of end-disk boxes", "shape/cylinder.py"), ("from_points_to_bound", "shape/box.py")], ["aabb", "from_points_to_bound", "from_two_vertices"])

prop("P07", "Minimum bounding ellipsoids and spheres bound and are minimal",
 "The bounding ellipsoid computed for a set of points, a polyhedron, a box, a cylinder, a capsule (of positive radius) or a set of non-degenerate ellipsoids contains all of it and has the smallest volume among ellipsoids that do, including for point sets spanning only a lower-dimensional subspace, whose bounding ellipsoid is flat. When a sphere is asked for, the result is the smallest sphere containing a (full-dimensional) set. The result moves with the object under rigid transforms.",
 ["inputs", "configurations"], "all point sets, ellipsoid sets and shapes, any pose, ellipsoid or sphere",
 MOSEK + "minimality is never checked beyond one box, and the sphere variants not at all.",
 ["shape/ellipsoid.py", "shape/box.py", "shape/cylinder.py", "shape/capsule.py", "shape/poly.py", "rigidbody.py"],
 [("log-det program over points", "shape/ellipsoid.py"), ("S-procedure program over ellipsoids", "shape/ellipsoid.py"), ("closed forms", "shape/box.py")], ["mbe", "mbe_of_points", "mbe_of_ellipsoids"])

prop("P08", "Inscribed ellipsoids and inscribed/bounding boxes are optimal",
 "The maximum inscribed ellipsoid (or sphere) of a polyhedron or box lies inside it and has the largest possible volume (radius), also for polyhedra living in a lower-dimensional plane. The maximum inscribed box of a cylinder or ellipsoid lies inside it and the minimum bounding box of a cylinder, capsule or ellipsoid contains it, each with the optimal volume and aligned with the shape in any pose.",
 ["inputs", "configurations"], "all polyhedra and primitive shapes in any pose",
 MOSEK + "the rest check containment for one pose, never optimality.",
 ["shape/ellipsoid.py", "shape/poly.py", "shape/box.py", "shape/cylinder.py", "shape/capsule.py"],
 [("mie_inequality_form", "shape/ellipsoid.py"), ("row-space projection in mie", "shape/poly.py"), ("mib / mbb closed forms", "shape/cylinder.py")], ["mie", "mib", "mbb"])

prop("P09", "Containment constraints describe exactly the shape",
 "The optimisation constraints that keep a point inside a shape are satisfiable by exactly the points of that shape: the maximum of any linear function subject to them equals its maximum over the shape, for every shape kind, pose and (for ellipsoids) degenerate extent. With a positive scale s they describe exactly s times the shape, whether s is a number or a variable, and given several points they constrain each one independently.",
 ["inputs", "configurations"], "all shapes x poses x linear objectives x scales x numbers of points",
 MOSEK + "one or two axis directions per kind are tried.",
 ["shape/poly.py", "shape/ellipsoid.py", "shape/cylinder.py", "shape/capsule.py", "constraint.py"],
 [("A p <= scale b", "shape/poly.py"), ("Schur complement LMI", "shape/ellipsoid.py"), ("constraint.schur", "constraint.py"), ("Minkowski decomposition of caps", "shape/capsule.py")], ["must_contain"])

prop("P10", "Closest-point queries return optimal points in the right shapes",
 "For any two shapes (polyhedra, ellipsoids, cylinders, capsules) the closest-point query returns a point of the first shape and a point of the second whose separation equals the reported distance, and no pair of points of the two shapes is closer. The distance is symmetric, zero exactly when the shapes intersect, and unchanged when both shapes undergo the same rigid motion.",
 ["inputs", "configurations"], "all ordered pairs of shapes in all relative poses",
 MOSEK + "three pairs are checked, none rotated.",
 ["closest.py", "shape/poly.py", "shape/ellipsoid.py", "shape/cylinder.py", "shape/capsule.py"], [("convex program over both containment constraint sets", "closest.py")], ["closest_points"])

prop("P11", "Inertial parameter representations are mutually consistent",
 "All representations of one body's inertial parameters (mass, first moment, centre of mass, second moment matrix, inertia matrix about the origin and about the centre of mass, parameter vector, pseudo-inertia matrix, spatial mass matrix) describe the same mass distribution, and building parameters from any of them and reading any other loses nothing; zero mass is allowed, and a centre of mass that is not given is at the origin. Parameters built from point masses equal the sums over the points, and the optimisation expression mapping a parameter vector to a pseudo-inertia matrix agrees with them.",
 ["inputs", "histories"], "all mass distributions and all chains of representation conversions",
 "One example goes through four conversions with near-diagonal inertia; sign and index slips in off-diagonal or first-moment terms, zero mass and centre-of-mass translation need their own inputs.",
 ["inertial.py", "constraint.py", "util.py"], [("H2I / I2H", "inertial.py"), ("from_vec / from_pim / from_point_masses", "inertial.py"), ("pim_sum_vec_matrices", "constraint.py")], ["vec", "J", "M", "I", "Ic", "H", "Hc", "h", "com"])

prop("P12", "Inertial parameters add and transform like mass distributions",
 "For any sequence of additions and rigid transforms, inertial parameters equal those of the correspondingly combined and moved mass distribution: addition is commutative and associative with the zero (massless) parameters as identity, also under the built-in sum; transforming distributes over addition, composes and inverts, and preserves mass. No operation ever yields NaN or infinite parameters from finite inputs.",
 ["histories", "inputs"], "all sequences of add / sum / transform over all parameter sets, massless ones included",
 "Tests add two fixed bodies and rotate one symmetric box; sequences, zero mass, and asymmetric bodies are not reached.",
 ["inertial.py", "rigidbody.py"], [("__add__ / __radd__", "inertial.py"), ("transform", "inertial.py")], ["+", "sum", "transform"],
 [("mass, com, H", "the stored parameters", "inertial.py")])

prop("P13", "Physical consistency is exactly positive semidefiniteness",
 "Inertial parameters are reported consistent exactly when the pseudo-inertia matrix has no eigenvalue below the given threshold: every mass distribution with non-degenerate spread is consistent, anything with negative principal second moment about its centre of mass (equivalently violating mass or triangle conditions) is not. The verdict does not change under rigid rotation, and the generator of random parameters and random positive semidefinite matrices only produces consistent ones.",
 ["inputs"], "all parameter values (consistent and inconsistent) and thresholds",
 "No test evaluates the verdict on an inconsistent body, off-diagonal cases, or a non-zero threshold.",
 ["inertial.py", "random.py"], [("minimum eigenvalue of J", "inertial.py"), ("A.T @ A", "random.py")], ["consistent", "random"])

prop("P14", "Density-model inertial parameters equal the exact integrals",
 "The inertial parameters reported for a uniform solid (box, ellipsoid, cylinder), a hollow box or ellipsoid shell, a wireframe box, and a system of point masses at a polyhedron's vertices equal the integrals of that mass distribution, for all sizes, any pose and any mass (linear in mass, zero included). They are given with respect to the origin and move with the shape under rigid transforms.",
 ["inputs", "configurations"], "all sizes, poses, masses and density models",
 "Tests only check linearity in mass and that box and ellipsoid shells differ by a constant; the values themselves and posed shapes are never compared to an integral.",
 ["shape/box.py", "shape/ellipsoid.py", "shape/cylinder.py", "shape/poly.py"], [("closed-form second moments then transform", "shape/box.py"), ("from_point_masses", "inertial.py")],
 ["uniform_density_params", "hollow_density_params", "wireframe_density_params", "vertex_point_mass_params"])

prop("P15", "Realizability conditions never reject a realizable body",
 "Every set of inertial parameters produced by some mass distribution inside a shape satisfies all of that shape's density-realizability conditions: the direct check (away from rounding at its exact boundary), the moment-relaxation constraints of every order, the vertex-based constraints and the specialised box and cylinder constraints, in any pose, whether the decision variable is the pseudo-inertia matrix or the parameter vector. Optimising any linear function of the parameters under the constraints is therefore never below its best value over point masses in the shape.",
 ["inputs", "configurations"], "all mass distributions inside all shapes, all constraint families, orders and variable kinds",
 MOSEK + "random feasibility samples from a few shapes cannot reach the boundary configurations where over-tight constraints show.",
 ["shape/box.py", "shape/poly.py", "shape/cylinder.py", "shape/ellipsoid.py", "moment.py", "constraint.py"],
 [("moment/localizing constraints", "moment.py"), ("vertex constraints", "shape/poly.py"), ("custom constraints", "shape/cylinder.py"), ("can_realize", "shape/ellipsoid.py")], ["moment_sdp_constraints", "moment_vertex_constraints", "moment_custom_vertex_constraints", "moment_constraints", "can_realize"])

prop("P16", "Realizability conditions bind: mass cannot lie outside the shape",
 "Parameters that satisfy a shape's realizability conditions have non-negative mass and a centre of mass inside the shape, and their second moment along each of the shape's face normals or principal axes (about any origin, per unit mass; for the moment relaxation, from order two) never exceeds what a mass distribution in the shape attains; for ellipsoids the conditions are exact, so the direct check accepts iff some distribution in the ellipsoid has those parameters. The specialised box and cylinder constraints are at least as tight as the moment relaxation, and raising the relaxation order never loosens it.",
 ["inputs", "configurations"], "all shapes, poses, constraint families, orders, linear objectives; all parameters for the direct check",
 MOSEK + "a dropped or flipped constraint only loosens specific directions that no sampled objective need reveal.",
 ["shape/box.py", "shape/poly.py", "shape/cylinder.py", "shape/ellipsoid.py", "moment.py", "constraint.py"],
 [("localizing constraint per face", "shape/poly.py"), ("disk decomposition", "shape/cylinder.py"), ("trace(QJ) >= 0", "shape/ellipsoid.py")], ["moment_sdp_constraints", "moment_vertex_constraints", "moment_custom_vertex_constraints", "moment_constraints", "can_realize"])

prop("P17", "Rigid bodies combine shapes and parameters as unions",
 "A rigid body's realizability constraints allow exactly the sums of parameters realizable on its individual shapes, for any number and mix of shapes that have such constraints (polyhedra, boxes, ellipsoids, cylinders); adding bodies (also with the built-in sum) pools shapes and adds parameters, transforming a body moves every shape and the parameters together, and replacing shapes by bounding ellipsoids works for every shape kind, keeps the parameters and bounds each shape. A body given no parameters is massless.",
 ["histories", "inputs"], "all sequences of body construction, addition, transform and bounding; all shape mixes",
 MOSEK + "only two-box and box-sphere bodies at one offset are considered, and bounding is never called.",
 ["rigidbody.py"], [("J == sum of per-shape Js", "rigidbody.py"), ("__add__, transform, mbes", "rigidbody.py")], ["moment_sdp_constraints", "+", "transform", "mbes"],
 [("shapes, params", "the body's pooled shapes and total parameters", "rigidbody.py")])

prop("P18", "The definiteness margin is enforced by every realizability constraint",
 "Whenever realizability constraints are requested with a margin eps, every feasible pseudo-inertia matrix J satisfies J - eps*I >= 0, for every constraint family, shape kind, pose, relaxation order, variable kind and for bodies made of one or several shapes. Conversely the margin excludes nothing else: parameters of a distribution in the shape whose pseudo-inertia exceeds the margin remain feasible.",
 ["inputs", "configurations"], "all constraint families x shapes x margins x variable kinds",
 "No test passes a non-zero margin.",
 ["shape/poly.py", "shape/box.py", "shape/cylinder.py", "shape/ellipsoid.py", "rigidbody.py", "constraint.py"], [("pim_psd / pim_must_equal_param_var", "constraint.py")], ["eps argument of *_constraints"])

prop("P19", "Wrench, regressor and spatial mass matrix obey Newton-Euler",
 "For every body, spatial velocity and spatial acceleration, the body wrench equals the total force and moment required by the Newton-Euler equations for its mass distribution, and equals the regressor matrix times the parameter vector (the unweighted validation error is the root mean square over the samples of the difference of the two wrenches); the spatial mass matrix yields the momentum and kinetic energy of the distribution. The contact Jacobian maps a force at a point to the wrench it produces, and spatial vectors add, subtract, scale and split into parts component-wise without modifying their operands.",
 ["inputs"], "all parameters, velocities, accelerations, contact points",
 "One random velocity/acceleration pair is compared to Pinocchio; body_wrench and the contact Jacobian are never called.",
 ["rigidbody.py", "inertial.py", "spatial.py", "util.py"], [("M A - ad^T M V", "inertial.py"), ("lift6", "util.py"), ("adjoint", "spatial.py")], ["body_wrench", "regressor", "M", "contact_jacobian", "SpatialVector"])

prop("P20", "Polynomial and moment-matrix algebra is sound",
 "Polynomials evaluate as the functions they denote: addition and localisation correspond to pointwise addition and multiplication by a monomial, affine construction to b - a.x, the basis lists every monomial up to the degree exactly once in graded order, and the degree is the largest total degree present. A numeric moment matrix of a measure satisfies the moment constraints, a matrix that is not one is rejected by them, and the localising matrix computed for it equals the moment matrix of the measure weighted by the polynomial.",
 ["inputs"], "all polynomials, dimensions, degrees and finitely supported measures",
 "Six tiny polynomials and one Hankel pattern are tested; the localising machinery, which all realizability constraints rest on, is not tested on its own.",
 ["moment.py"], [("MomentIndex arithmetic", "moment.py"), ("basis / dim", "moment.py"), ("moment_constraints, localize", "moment.py")], ["Polynomial", "MomentMatrix", "MomentIndex"])

prop("P21", "Random samples always lie in the shape, with the requested layout",
 "Whatever values the random number generator delivers (barring an all-zero normal or weight vector), every sampled point lies in the shape (or on its surface, or on its edges, for those samplers), for every shape kind, pose and dimension, and the result has the requested layout: a single point for the default, one trailing coordinate axis after the requested sample shape otherwise. Random weights are non-negative and sum to one, and sphere/ball samples have unit/at most unit norm in every dimension.",
 ["inputs", "configurations"], "all generator outcomes x shapes x poses x sample layouts",
 "Tests draw from one seed and (for surface and edge samplers) only from shapes centred at the origin and unrotated.",
 ["random.py", "shape/box.py", "shape/ellipsoid.py", "shape/cylinder.py", "shape/capsule.py", "shape/poly.py"],
 [("affine image of canonical samples", "shape/ellipsoid.py"), ("face/edge allocation", "shape/box.py"), ("rejection sampling", "random.py")], ["random_points", "random_points_on_surface", "random_points_on_edges", "random_weight_vectors", "random_points_in_ball", "random_points_on_hypersphere"])

prop("P22", "Samplers documented as uniform are uniform",
 "The samplers documented as uniform (interior of balls, non-degenerate ellipsoids, boxes, cylinders and capsules; surface of spheres, non-degenerate ellipsoids and boxes; edges of boxes) produce each sample with the uniform law on that set when the generator's outcomes are weighted by their probabilities. This holds in any pose and size, and for each position of a multi-point sample, independently of the other positions.",
 ["inputs", "configurations"], "the full distribution over generator outcomes, for all shapes and poses",
 "Tests compare one Monte Carlo volume ratio at 1% for three interiors; surfaces and edges are never tested for uniformity.",
 ["random.py", "shape/box.py", "shape/ellipsoid.py", "shape/cylinder.py", "shape/capsule.py"], [("radius power law", "random.py"), ("area-proportional face choice", "shape/box.py"), ("acceptance by surface density", "shape/ellipsoid.py")], ["random_points", "random_points_on_surface", "random_points_on_edges"])

prop("P23", "Rejection sampling delivers exactly accepted candidates, or fails loudly",
 "For every pattern of acceptances and rejections of candidates, rejection sampling returns exactly the requested number of points, each of which is a distinct candidate drawn from the bounding shape and contained in at least one of the target shapes, in the requested layout. If the allowed number of tries does not yield enough accepted candidates it raises an error instead of returning, and it always terminates.",
 ["fault_sequences", "inputs"], "all accept/reject sequences per target shape, request sizes and try limits",
 "Tests run three seeds; the partial-fill bookkeeping only errs for particular accept/reject patterns and single-candidate refills.",
 ["random.py", "shape/capsule.py"], [("count/offset bookkeeping and try limit", "random.py")], ["rejection_sample"],
 [("m, points, tries", "accepted so far, output buffer, rounds used", "random.py")])

prop("P24", "Calls are pure and reproducible: no hidden state, no side effects",
 "No library call modifies its arguments or any existing shape, body, parameter set, polynomial or polyhedron form, or the behaviour of an object other than the one it returns, nor does anything built or returned change when the caller later overwrites the arrays (or lists, or coefficients) passed; the same call repeated, in any order and interleaved with other calls, gives the same result. Random functions depend only on the seed or generator passed: equal seeds give equal results (an integer seed and a generator created from it included), passing a generator advances that generator, and the global random state is neither read nor changed.",
 ["histories"], "all interleavings of library calls on shared objects, all seeds",
 "Tests never re-inspect an operand or argument after a call, nor call anything twice.",
 ["shape/box.py", "shape/ellipsoid.py", "shape/cylinder.py", "shape/capsule.py", "shape/poly.py", "inertial.py", "rigidbody.py", "spatial.py", "polydd.py", "moment.py", "random.py"],
 [("defensive copies in constructors and transforms", "shape/box.py"), ("np.random.default_rng(rng)", "random.py")], ["all public calls"])

prop("P25", "Grids and surface tests agree with the geometry",
 "The grid generated for a shape consists only of points in the shape, and is exactly the shape's share of its bounding box's grid; a box's grid has the requested number (the same for all axes, or one per axis; at least two) of evenly spaced points along each of its own axes, corners included. A point is reported on the surface of a box or ellipsoid exactly when it is on the boundary within tolerance (for a degenerate one, when it is contained), in any pose and for single or batched points.",
 ["inputs", "configurations"], "all shapes x poses x grid sizes x points",
 "Grid tests check containment only for one pose; surface tests never combine rotation with off-face points.",
 ["shape/base.py", "shape/box.py", "shape/ellipsoid.py", "shape/poly.py"], [("grid", "shape/base.py"), ("on_surface", "shape/box.py"), ("on_surface", "shape/ellipsoid.py")], ["grid", "on_surface"])

prop("P26", "Sameness checks decide equality of what is compared",
 "Two shapes compare as the same only if they denote the same set (within tolerance); the comparison is reflexive, also for degenerate shapes, symmetric, and invariant under moving both by the same motion, and between polyhedra or boxes, or between ellipsoids, it is also True whenever the sets are equal, however each was constructed. Inertial parameters compare the same iff their pseudo-inertia matrices agree, and the unordered row comparison is True iff the rows agree as multisets.",
 ["inputs"], "all pairs of shapes, parameter sets and row lists",
 "Tests compare a few equal pairs; reflexivity on degenerate shapes, capsules and cylinders, symmetry across kinds, and repeated rows in all arrangements are not reached.",
 ["shape/poly.py", "shape/ellipsoid.py", "shape/cylinder.py", "shape/capsule.py", "inertial.py", "test_util.py"], [("mutual vertex containment", "shape/poly.py"), ("matrix comparison", "shape/ellipsoid.py"), ("greedy row matching", "test_util.py")], ["is_same", "allclose_unordered"])

prop("P27", "Vector and matrix utilities satisfy their defining identities",
 "Half-vectorisation and its inverse round-trip on every symmetric matrix of every size (with any diagonal offset for the forward direction), and triangular numbers of any magnitude are recognised exactly together with their root. The skew, lift and box-vertex helpers satisfy their defining identities for every argument, transformation matrices and their inverses multiply to the identity in every dimension, and evaluation times start at zero, are spaced by the step, and cover exactly the interval (up to rounding).",
 ["inputs"], "all sizes, values, offsets and dimensions",
 "Tests stop at triangular numbers below 1000 and at dimension three; the transform matrices and evaluation times are untested.",
 ["util.py"], [("triu/tril index fill", "util.py"), ("quadratic formula", "util.py"), ("transform_matrix_inv", "util.py")], ["vech", "unvech", "is_triangular_number", "skew3", "lift3", "lift6", "transform_matrix", "transform_matrix_inv", "box_vertices", "compute_evaluation_times"])

prop("P28", "Ellipsoid representations and ellipsoid containment are consistent",
 "Extents with pose, shape matrix and its inverse, affine form and quadratic form of a non-degenerate ellipsoid all denote the same set in every dimension, rebuilding an ellipsoid from its shape matrix or from any affine form of it gives the same ellipsoid, and rank and degeneracy report the number of non-zero extents. One non-degenerate ellipsoid is reported to contain another exactly when it does as a set.",
 ["inputs", "configurations"], "all ellipsoids (dimension, extents, pose) and all pairs",
 "Representations are only tested for spheres at the origin and containment for one concentric pair (needing a MOSEK licence), where several different formulas coincide.",
 ["shape/ellipsoid.py"], [("S, E, A, b, Q properties", "shape/ellipsoid.py"), ("from_affine / from_shape_matrix", "shape/ellipsoid.py"), ("S-procedure in contains_ellipsoid", "shape/ellipsoid.py")], ["S", "E", "A", "b", "Q", "from_affine", "from_shape_matrix", "contains_ellipsoid"])

prop("P29", "Reported sizes equal the true measures",
 "Volumes (box, d-dimensional ellipsoid, cylinder), diagonal and side lengths, capsule lengths and radii, end points, and the dimension, vertex count and (for full-dimensional shapes) face count equal the true measures of the denoted set, however the shape was constructed (extents, side lengths, cube, two vertices, points to bound, sphere, simplex, non-redundant vertices or half-spaces). They scale correctly with size and are invariant under rigid motion.",
 ["inputs", "configurations"], "all sizes, dimensions, constructors and poses",
 "Tests only read the volume of two unit boxes; dimension other than three and alternative constructors are not measured.",
 ["shape/box.py", "shape/ellipsoid.py", "shape/cylinder.py", "shape/capsule.py", "shape/poly.py"], [("volume, diaglen, side_lengths, endpoints, full_length", "shape/box.py")], ["volume", "diaglen", "side_lengths", "endpoints", "full_length", "nv", "nf", "rank"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
