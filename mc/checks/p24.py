"""P24: calls are pure and reproducible.

Histories: for every operation of the library a fresh world of objects and argument
arrays is built, the operation (or every ordered pair of operations) is applied,
then every operation is applied in turn; each must give the result it gives in a
fresh world, and afterwards everything in the world must read as it did initially.
Objects are read through their public attributes and queries only.
"""
import random as pyrandom
import numpy as np
import cvxpy as cp

SOLVER = cp.CLARABEL


# -- reading values -------------------------------------------------------------
def read(x, depth=0):
    """public reading of a value: nested tuples with arrays at the leaves"""
    import rigeo as rg
    if depth > 8:
        return "deep"
    r = lambda v: read(v, depth + 1)
    if x is None or isinstance(x, (bool, str, np.bool_)):
        return ("v", x if not isinstance(x, np.bool_) else bool(x))
    if isinstance(x, (int, float, np.number)):
        return ("a", (), np.array(float(x)))
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return ("l",) + tuple(r(v) for v in x.ravel().tolist())
        return ("a", x.shape, np.array(x, float))
    if isinstance(x, rg.Box):
        return ("Box", r(x.half_extents), r(x.center), r(x.rotation), r(x.vertices), r(x.A), r(x.b))
    if isinstance(x, rg.ConvexPolyhedron):
        return ("Poly", r(x.vertices), r(x.A), r(x.b), r(x.nv), r(x.nf))
    if isinstance(x, rg.Ellipsoid):
        return ("Ell", r(x.half_extents), r(x.center), r(x.rotation))
    if isinstance(x, rg.Cylinder):
        return ("Cyl", r(x.length), r(x.radius), r(x.center), r(x.rotation), r(x.endpoints()))
    if isinstance(x, rg.Capsule):
        return ("Cap", r(x.inner_length), r(x.radius), r(x.center), r(x.rotation), r(x.full_length))
    if isinstance(x, rg.InertialParameters):
        return ("IP", r(x.mass), r(x.vec), r(x.J))
    if isinstance(x, rg.RigidBody):
        return ("RB",) + tuple(r(s) for s in x.shapes) + (r(x.params),)
    if isinstance(x, rg.SpatialVector):
        return ("SV", r(x.vec))
    if isinstance(x, rg.Polynomial):
        return ("P",) + tuple(sorted((tuple(k.value), round(float(v), 12)) for k, v in x.coefficients.items()))
    if isinstance(x, rg.MomentIndex):
        return ("MI", tuple(x.value))
    if isinstance(x, rg.MomentMatrix):
        return ("MM", x.n, x.d, tuple(x.shape), str(x))
    if isinstance(x, rg.SpanForm):
        return ("SF", r(x.vertices), r(x.rays))
    if isinstance(x, rg.FaceForm):
        return ("FF", r(x.A), r(x.b))
    if isinstance(x, (cp.constraints.constraint.Constraint,)):
        return ("C", type(x).__name__, tuple(x.shape) if hasattr(x, "shape") else ())
    if isinstance(x, (list, tuple)):
        return ("l",) + tuple(r(v) for v in x)
    if isinstance(x, dict):
        return ("d",) + tuple((str(k), r(v)) for k, v in sorted(x.items(), key=lambda t: str(t[0])))
    if hasattr(x, "p1") and hasattr(x, "dist"):
        return ("CP", r(x.dist))  # the points need not be unique
    return ("t", type(x).__name__)


def same(a, b, tol=1e-9):
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        if a and a[0] == "a" and b[0] == "a":
            if a[1] != b[1]:
                return False
            return np.allclose(a[2], b[2], rtol=tol, atol=tol, equal_nan=True)
        return all(same(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float):
        return abs(a - b) <= tol * (1 + abs(a))
    if type(a) is np.ndarray or type(b) is np.ndarray:
        return np.array_equal(a, b)
    return a == b


def bits(x):
    """bit-exact reading for reproducibility of random results"""
    def go(r):
        if isinstance(r, tuple):
            if r and r[0] == "a":
                return ("a", r[1], r[2].tobytes())
            return tuple(go(v) for v in r)
        return r
    return go(read(x))


# -- the world --------------------------------------------------------------------
def world():
    import rigeo as rg
    R = np.array([[1, -2, 2], [2, 2, 1], [-2, 1, 2]]) / 3.0
    t = np.array([1.0, -2, 0.5])
    w = {"R": R, "t": t, "hx": np.array([1.0, 2, 0.5]), "hd": np.array([1.0, 0.5, 0]),
         "V": np.array([[0.0, 0, 0], [2, 0, 0], [0, 1, 0], [0, 0, 1.5]]),
         "V2": np.array([[0.0, 0, 0], [2, 0, 0], [0, 1, 0], [0, 0, 1.5], [0.25, 0.25, 0.25]]),
         "pts": np.array([[0.0, 0, 0], [1, -2, 0.5], [1.5, -1.5, 0.5], [5, 5, 5.0]]),
         "pt": np.array([1.0, -2, 0.5]), "plist": [[0.0, 0, 0], [1.0, -2.0, 0.5]],
         "masses": np.array([1.0, 2.0, 0.5]), "mp": np.array([[1.0, 0, 0], [0, 2, 0], [1, -1, 3.0]]),
         "H": np.diag([2.0, 3, 4]) + 0.5, "h": np.array([0.5, -0.25, 1.0]), "com": np.array([0.25, -0.125, 0.5]),
         "A": np.vstack((np.eye(3), -np.eye(3))), "b": np.array([1.0, 2, 3, 0, 0, 0]),
         "Aeq": np.array([[0.0, 0, 1]]), "beq": np.array([0.5]),
         "sym": np.array([[1.0, 2, 3], [2, 4, 5], [3, 5, 6]]), "hv": np.arange(1.0, 7),
         "coef": {(1, 0): 2.0, (0, 2): -1.0, (0, 0): 0.5}, "x2": np.array([0.5, -2.0]),
         "S4": np.diag([2.0, 3, 4, 5]) + 0.25}
    kw = dict(rotation=R, center=t)
    w["box"] = rg.Box(w["hx"], **kw)
    w["flat"] = rg.Box(w["hd"])
    w["ell"] = rg.Ellipsoid(w["hx"], **kw)
    w["deg"] = rg.Ellipsoid(w["hd"], **kw)
    w["ell2"] = rg.Ellipsoid(np.array([2.0, 0.5]), center=np.array([1.0, 1]))
    w["sphere"] = rg.Ellipsoid.sphere(0.75, center=np.array([3.0, 0, 0]))
    w["cyl"] = rg.Cylinder(2.0, 0.75, **kw)
    w["cap"] = rg.Cylinder(2.0, 0.5, **kw).capsule()
    w["tet"] = rg.ConvexPolyhedron.from_vertices(w["V"])
    w["poly"] = rg.ConvexPolyhedron.from_halfspaces(w["A"], w["b"])
    w["sq"] = rg.ConvexPolyhedron.from_vertices(np.array([[0.0, 0, 1], [2, 0, 1], [0, 1, 1], [2, 1, 1]]))
    w["ip"] = rg.InertialParameters(mass=2.0, h=w["h"], H=w["H"] * 2)
    w["ip2"] = rg.InertialParameters.from_point_masses(w["masses"], w["mp"])
    w["zero"] = rg.InertialParameters.zero()
    w["blist"] = [w["box"], w["ell"]]
    w["body"] = rg.RigidBody(w["blist"], w["ip"])
    w["body2"] = rg.RigidBody(w["tet"], w["ip2"])
    w["body0"] = rg.RigidBody([w["cyl"]])
    w["SV1"] = rg.SV(linear=np.array([1.0, -2, 3]), angular=np.array([0.5, 1, -1]))
    w["SV2"] = rg.SV(linear=np.array([0.0, 1, 1]), angular=np.array([2.0, -1, 0.25]))
    w["svd"] = rg.SV(linear=np.ones(3), angular=np.ones(3))
    w["p"] = rg.Polynomial(w["coef"])
    w["q"] = rg.Polynomial.affine(a=np.array([1.0, 2]), b=3.0)
    w["mi"] = rg.MomentIndex((1, 2))
    w["mm"] = rg.MomentMatrix(2, 2)
    b = np.array([1, .5, -2, .25, -1, 4])
    w["Mv"] = np.outer(b, b)
    w["sf"] = rg.SpanForm(vertices=np.vstack((w["V2"], w["V2"][:1])))
    w["sfr"] = rg.SpanForm(vertices=np.array([[0.0, 0, 1]]), rays=np.eye(3)[:2])
    w["ff"] = rg.FaceForm(A_ineq=w["A"], b_ineq=w["b"])
    w["ffe"] = rg.FaceForm(A_ineq=w["A"], b_ineq=w["b"], A_eq=w["Aeq"], b_eq=w["beq"])
    return w


SHAPES = ["box", "flat", "ell", "deg", "sphere", "cyl", "cap", "tet", "poly", "sq"]


def solve(cons, obj):
    prob = cp.Problem(cp.Maximize(obj), cons)
    prob.solve(solver=SOLVER)
    return round(prob.value, 5) if prob.value is not None and np.isfinite(prob.value) else str(prob.status)


def operations():
    """name -> (fn(world), needs a solver?)"""
    import rigeo as rg
    ops = {}

    def add(name, fn, solver=False):
        assert name not in ops, name
        ops[name] = (fn, solver)
    for s in SHAPES + ["ell2"]:
        d2 = s == "ell2"
        if not d2:
            add(f"{s}.contains(pts)", lambda w, s=s: w[s].contains(w["pts"]))
            add(f"{s}.contains(pt)", lambda w, s=s: w[s].contains(w["pt"], tol=1e-6))
            add(f"{s}.contains(list)", lambda w, s=s: w[s].contains(w["plist"]) if s not in ("cyl", "cap") else w[s].contains(np.array(w["plist"])))
            add(f"{s}.contains_polyhedron", lambda w, s=s: w[s].contains_polyhedron(w["tet"]))
            add(f"{s}.transform", lambda w, s=s: w[s].transform(rotation=w["R"], translation=w["t"]))
            add(f"{s}.transform(R)", lambda w, s=s: w[s].transform(rotation=w["R"]))
            add(f"{s}.transform(t)", lambda w, s=s: w[s].transform(translation=w["t"]))
            add(f"{s}.aabb", lambda w, s=s: w[s].aabb())
            add(f"{s}.grid", lambda w, s=s: w[s].grid(3))
            add(f"{s}.random_points", lambda w, s=s: w[s].random_points((2, 2), rng=5))
            def mc(w, s=s):
                v = cp.Variable(3)
                return solve(w[s].must_contain(v), np.array([1.0, 2, -1]) @ v)
            add(f"{s}.must_contain", mc, True)
            if s not in ("cap",):
                def mom(w, s=s):
                    J = cp.Variable((4, 4), symmetric=True)
                    con = w[s].moment_constraints(J) if s in ("ell", "deg", "sphere") else w[s].moment_sdp_constraints(J)
                    return solve(con + [J[3, 3] == 1], J[0, 3] - J[1, 3] + 0.5 * J[2, 3])
                add(f"{s}.moment", mom, True)
            add(f"{s}.closest", lambda w, s=s: rg.closest_points(w[s], w["sphere"], solver=SOLVER), True)
        for o in SHAPES:
            if o == s or (s, o) in (("box", "poly"), ("cyl", "box"), ("ell", "deg"), ("tet", "sq"), ("cap", "cyl"), ("ell2", "ell")):
                add(f"{s}.is_same({o})", lambda w, s=s, o=o: w[s].is_same(w[o]))
        if s in ("box", "ell", "deg", "sphere", "ell2") and not d2:
            add(f"{s}.rotate_about_center", lambda w, s=s: w[s].rotate_about_center(w["R"]))
            add(f"{s}.on_surface", lambda w, s=s: w[s].on_surface(w["pts"]))
        if s in ("cyl", "cap", "ell", "deg", "sphere"):
            add(f"{s}.mbb", lambda w, s=s: w[s].mbb())
        if s in ("cyl", "ell", "deg"):
            add(f"{s}.mib", lambda w, s=s: w[s].mib())
        if s in ("box", "flat", "ell", "deg", "ell2", "tet", "sq", "cyl", "cap"):
            add(f"{s}.mbe", lambda w, s=s: w[s].mbe(solver=SOLVER), s not in ("box", "ell", "deg", "ell2", "cyl"))
            if s != "deg":
                add(f"{s}.mbe(sphere)", lambda w, s=s: w[s].mbe(sphere=True, solver=SOLVER), True)
        if s in ("box", "tet", "poly", "sq"):
            add(f"{s}.mie", lambda w, s=s: w[s].mie(solver=SOLVER), s != "box")
        if s in ("box", "ell", "sphere", "cyl"):
            add(f"{s}.uniform_density_params", lambda w, s=s: w[s].uniform_density_params(2.5))
        if s in ("box", "ell"):
            add(f"{s}.hollow_density_params", lambda w, s=s: w[s].hollow_density_params(2.5))
            add(f"{s}.random_points_on_surface", lambda w, s=s: w[s].random_points_on_surface(5, rng=3))
        if s in ("ell", "deg", "sphere"):
            add(f"{s}.can_realize", lambda w, s=s: w[s].can_realize(w["ip"]))
        if s in ("ell", "ell2", "sphere"):
            for a in ("S", "E", "A", "b", "Q", "rank", "volume"):
                add(f"{s}.{a}", lambda w, s=s, a=a: getattr(w[s], a))
            add(f"{s}.from_shape_matrix", lambda w, s=s: rg.Ellipsoid.from_shape_matrix(w[s].S, center=w[s].center).E)
            add(f"{s}.from_affine", lambda w, s=s: rg.Ellipsoid.from_affine(w[s].A, w[s].b).E)
    add("box.wireframe", lambda w: w["box"].wireframe_density_params(2.0))
    add("box.edges", lambda w: w["box"].random_points_on_edges(6, rng=1))
    add("box.as_poly", lambda w: w["box"].as_poly())
    add("box.volume", lambda w: (w["box"].volume, w["box"].diaglen, w["box"].side_lengths))
    add("Box.points", lambda w: rg.Box.from_points_to_bound(w["pts"]))
    add("Box.two", lambda w: rg.Box.from_two_vertices(w["pts"][0], w["pts"][3]))
    add("Box()", lambda w: rg.Box(w["hx"], center=w["t"], rotation=w["R"]))
    add("Box.from_side_lengths", lambda w: rg.Box.from_side_lengths(w["hx"]))
    add("Ellipsoid()", lambda w: rg.Ellipsoid(w["hx"], rotation=w["R"], center=w["t"]))
    add("Cylinder()", lambda w: rg.Cylinder(1.0, 2.0, rotation=w["R"], center=w["t"]))
    add("cyl.endpoints", lambda w: (w["cyl"].endpoints(), w["cyl"].volume, w["cyl"].longitudinal_axis))
    add("cyl.capsule", lambda w: w["cyl"].capsule())
    add("Poly.from_vertices", lambda w: rg.ConvexPolyhedron.from_vertices(w["V2"]))
    add("Poly.from_vertices(prune)", lambda w: rg.ConvexPolyhedron.from_vertices(w["V2"], prune=True))
    add("Poly.from_halfspaces", lambda w: rg.ConvexPolyhedron.from_halfspaces(w["A"], w["b"]))
    add("Poly.from_halfspaces(prune)", lambda w: rg.ConvexPolyhedron.from_halfspaces(w["A"], w["b"], prune=True))
    add("Poly.simplex", lambda w: rg.ConvexPolyhedron.simplex(w["hx"]))
    add("Poly(forms)", lambda w: rg.ConvexPolyhedron(face_form=w["ff"], span_form=None))
    for a, b in (("tet", "poly"), ("poly", "tet"), ("box", "tet"), ("sq", "poly"), ("tet", "tet")):
        add(f"{a}.intersect({b})", lambda w, a=a, b=b: w[a].intersect(w[b]))
    add("tet.vertex_point_mass_params", lambda w: w["tet"].vertex_point_mass_params(3.0))
    def mv(w):
        J = cp.Variable((4, 4), symmetric=True)
        return solve(w["tet"].moment_vertex_constraints(J) + [J[3, 3] == 1], J[0, 3])
    add("tet.moment_vertex_constraints", mv, True)
    def mcv(w):
        J = cp.Variable(10)
        return solve(w["box"].moment_custom_vertex_constraints(J) + [J[0] == 1], J[1])
    add("box.moment_custom_vertex_constraints", mcv, True)
    def mcc(w):
        J = cp.Variable((4, 4), symmetric=True)
        return solve(w["cyl"].moment_custom_vertex_constraints(J) + [J[3, 3] == 1], J[0, 3])
    add("cyl.moment_custom_vertex_constraints", mcc, True)
    add("mbe_of_points", lambda w: rg.mbe_of_points(w["V"], solver=SOLVER), True)
    add("mbe_of_ellipsoids", lambda w: rg.mbe_of_ellipsoids([w["ell"], w["sphere"]], solver=SOLVER), True)
    add("ell.contains_ellipsoid", lambda w: w["ell"].contains_ellipsoid(w["sphere"], solver=SOLVER), True)
    # forms
    for s in ("sf", "sfr"):
        add(f"{s}.canonical", lambda w, s=s: w[s].canonical())
        add(f"{s}.to_face_form", lambda w, s=s: w[s].to_face_form())
        add(f"{s}.transform", lambda w, s=s: w[s].transform(rotation=w["R"], translation=w["t"]))
        add(f"{s}.flags", lambda w, s=s: (w[s].bounded(), w[s].is_cone(), w[s].nv, w[s].nr, w[s].dim))
    for s in ("ff", "ffe"):
        add(f"{s}.canonical", lambda w, s=s: w[s].canonical())
        add(f"{s}.to_span_form", lambda w, s=s: w[s].to_span_form())
        if hasattr(rg.FaceForm, "transform"):
            add(f"{s}.transform", lambda w, s=s: w[s].transform(rotation=w["R"], translation=w["t"]))
        add(f"{s}.stack", lambda w, s=s: w[s].stack(w["ff"]))
        add(f"{s}.stack(rev)", lambda w, s=s: w["ff"].stack(w[s]))
    add("SpanForm()", lambda w: rg.SpanForm(vertices=w["V2"], rays=w["A"][:2], span=w["Aeq"]))
    add("FaceForm()", lambda w: rg.FaceForm(A_ineq=w["A"], b_ineq=w["b"], A_eq=w["Aeq"], b_eq=w["beq"]))
    add("convex_hull", lambda w: rg.convex_hull(w["V2"]))
    # inertia
    for s in ("ip", "ip2", "zero"):
        for a in ("vec", "J", "I", "M", "h") + (("Ic", "Hc") if s != "zero" else ()):
            add(f"{s}.{a}", lambda w, s=s, a=a: getattr(w[s], a))
        add(f"{s}.transform", lambda w, s=s: w[s].transform(rotation=w["R"], translation=w["t"]))
        add(f"{s}.consistent", lambda w, s=s: w[s].consistent())
        add(f"{s}.is_same", lambda w, s=s: w[s].is_same(w["ip"]))
        add(f"{s}.body_wrench", lambda w, s=s: w[s].body_wrench(w["SV1"], w["SV2"]))
        for o in ("ip", "ip2", "zero"):
            add(f"{s}+{o}", lambda w, s=s, o=o: w[s] + w[o])
        def inplace(w, s=s):
            x = w[s]
            x += w["ip2"]
            return x
        add(f"{s}+=ip2", inplace)
    add("sum(ip)", lambda w: sum([w["ip"], w["ip2"], w["zero"]]))
    add("IP(com,H)", lambda w: rg.InertialParameters(mass=2.0, com=w["com"], H=w["H"]))
    add("IP(com,I,translate)", lambda w: rg.InertialParameters(mass=2.0, com=w["com"], I=w["H"], translate_from_com=True))
    add("IP(com,H,translate)", lambda w: rg.InertialParameters(mass=2.0, com=w["com"], H=w["H"], translate_from_com=True))
    add("IP(h,I)", lambda w: rg.InertialParameters(mass=2.0, h=w["h"], I=w["H"]))
    add("IP.from_vec", lambda w: rg.InertialParameters.from_vec(np.arange(1.0, 11)))
    add("IP.from_pim", lambda w: rg.InertialParameters.from_pim(w["S4"]))
    add("IP.from_point_masses", lambda w: rg.InertialParameters.from_point_masses(w["masses"], w["mp"]))
    add("IP.random", lambda w: rg.InertialParameters.random(rng=4))
    add("H2I", lambda w: (rg.H2I(w["H"]), rg.I2H(w["H"])))
    # bodies
    for s in ("body", "body2", "body0"):
        add(f"{s}.transform", lambda w, s=s: w[s].transform(rotation=w["R"], translation=w["t"]))
        for o in ("body", "body2", "body0"):
            add(f"{s}+{o}", lambda w, s=s, o=o: w[s] + w[o])
        def inplace_b(w, s=s):
            x = w[s]
            x += w["body2"]
            return x
        add(f"{s}+=body2", inplace_b)
    add("sum(body)", lambda w: sum([w["body"], w["body2"], w["body0"]]))
    add("sum(body,body)", lambda w: sum([w["body"], w["body"]]))
    add("body.mbes", lambda w: w["body"].mbes(solver=SOLVER))
    add("body2.mbes", lambda w: w["body2"].mbes(solver=SOLVER), True)
    def bm(w):
        J = cp.Variable((4, 4), symmetric=True)
        return solve(w["body"].moment_sdp_constraints(J) + [J[3, 3] == 1], J[0, 3])
    add("body.moment", bm, True)
    add("RigidBody()", lambda w: rg.RigidBody(w["blist"], w["ip2"]))
    add("RigidBody(default)", lambda w: rg.RigidBody([w["box"]]))
    add("RigidBody(tuple)+", lambda w: rg.RigidBody((w["box"], w["cyl"])) + rg.RigidBody(tuple([w["ell"]])) + w["body"])
    def gen(w):
        b = rg.RigidBody(s for s in [w["box"], w["ell"]])
        return [b.transform(translation=w["t"]), b, b + w["body"]]
    add("RigidBody(generator)", gen)
    add("RigidBody(default)+", lambda w: rg.RigidBody([w["box"]]) + rg.RigidBody([w["ell"]]) + w["body"])
    add("regressor", lambda w: rg.RigidBody.regressor(w["SV1"], w["SV2"]))
    # spatial vectors
    add("SV+", lambda w: w["SV1"] + w["SV2"])
    add("SV-", lambda w: w["SV1"] - w["SV2"])
    add("SV*", lambda w: w["SV1"] * 2.5)
    add("SV/", lambda w: w["SV1"] / 2.0)
    add("SV.parts", lambda w: (w["SV1"].linear, w["SV1"].angular, w["SV1"].adjoint()))
    def svi(w):
        x = w["SV1"]
        x += w["SV2"]
        x -= w["SV1"]
        x *= 3.0
        return x
    add("SV inplace", svi)
    add("SV.zero", lambda w: rg.SV.zero())
    add("SV()", lambda w: rg.SV(linear=w["t"]) + rg.SV(angular=w["t"]))
    add("SV.from_vec", lambda w: rg.SV.from_vec(w["hv"]))
    add("SV.random", lambda w: rg.SV.random_diag_normal(w["SV1"], w["svd"], rng=2))
    # polynomials
    add("p+q", lambda w: w["p"] + w["q"])
    add("p+p", lambda w: w["p"] + w["p"])
    def pi(w):
        x = w["p"]
        x += w["q"]
        return x
    add("p+=q", pi)
    add("p.localize", lambda w: w["p"].localize(w["mi"]))
    add("p.evaluate", lambda w: w["p"].evaluate(w["x2"]))
    add("p.degree", lambda w: (w["p"].degree, w["q"].degree))
    add("Polynomial()", lambda w: rg.Polynomial(w["coef"]))
    add("Polynomial.zeros", lambda w: rg.Polynomial.zeros() + w["p"])
    add("basis", lambda w: rg.Polynomial.basis(3, 2))
    add("ones", lambda w: rg.Polynomial.ones(2, 2))
    add("mi+mi", lambda w: (w["mi"] + w["mi"], w["mi"] * w["mi"], sum([w["mi"], w["mi"]])))
    add("MomentMatrix", lambda w: rg.MomentMatrix(2, 2))
    add("mm.localizing_matrix", lambda w: w["mm"].localizing_matrix(1, w["p"]))
    add("mm.localize", lambda w: w["mm"].localize(w["Mv"], w["p"]))
    def mmc(w):
        M = cp.Variable((6, 6), symmetric=True)
        return len(w["mm"].moment_constraints(M)), len(w["mm"].localizing_constraints(M, [w["p"], w["q"]]))
    add("mm.constraints", mmc)
    # utilities
    add("vech", lambda w: rg.vech(w["sym"], k=1))
    add("unvech", lambda w: rg.unvech(w["hv"]))
    add("skew3", lambda w: rg.skew3(w["t"]))
    add("lift3", lambda w: rg.lift3(w["t"]))
    add("lift6", lambda w: rg.lift6(w["SV1"]))
    add("triangular", lambda w: rg.is_triangular_number(15))
    add("times", lambda w: rg.compute_evaluation_times(1.0, 0.3))
    add("transform_matrix", lambda w: rg.transform_matrix(rotation=w["R"], translation=w["t"]))
    add("transform_matrix(default)", lambda w: rg.transform_matrix())
    add("transform_matrix_inv", lambda w: rg.transform_matrix_inv(rotation=w["R"], translation=w["t"]))
    add("clean_transform", lambda w: rg.clean_transform(w["R"], w["t"]))
    add("box_vertices", lambda w: rg.box_vertices(w["hx"]))
    add("contact_jacobian", lambda w: rg.contact_jacobian(w["t"]))
    add("validation_rmse", lambda w: rg.validation_rmse(np.ones((2, 6, 10)), np.ones((2, 6)), np.arange(10.0)))
    add("allclose_unordered", lambda w: rg.allclose_unordered(w["V"], w["V"][::-1]))
    add("schur", lambda w: np.asarray(rg.schur(w["sym"], w["t"], 2.0).value))
    add("pim_psd", lambda w: rg.pim_psd(cp.Variable((4, 4), symmetric=True), eps=0.1))
    add("pim_must_equal_vec", lambda w: np.asarray(rg.pim_must_equal_vec(np.arange(1.0, 11)).value) if hasattr(rg.pim_must_equal_vec(np.arange(1.0, 11)), "value") else None)
    add("pim_sum_vec_matrices", lambda w: rg.pim_sum_vec_matrices())
    # random utilities
    add("random_psd_matrix", lambda w: rg.random_psd_matrix(4, rng=1))
    add("random_weight_vectors", lambda w: rg.random_weight_vectors((3, 4), rng=1))
    add("sphere-points", lambda w: rg.random_points_on_hypersphere((4,), dim=2, rng=1))
    add("ball-points", lambda w: rg.random_points_in_ball(4, dim=3, rng=1))
    add("rejection_sample", lambda w: rg.rejection_sample([w["sphere"], w["poly"]], rg.Box.cube(4.0), 6, rng=1))
    return ops


_MUT = object()


def run_history(ck, first, ops, base, names, read0):
    """fresh world; apply the operations `first`; then every operation of `names`; then read the world."""
    w = world()
    np.random.seed(99); pyrandom.seed(99)
    g0, p0 = np.random.get_state(), pyrandom.getstate()
    for f in first:
        r = read(ops[f][0](w))
        ck.step()
        ck.expect(same(r, base[f], 1e-6), "not-repeatable", lambda: f"after {first[:first.index(f)]}, {f} gives another result than in a fresh world: {show(r)} / {show(base[f])}")
    for n in names:
        r = read(ops[n][0](w))
        ck.step()
        if not same(r, base[n], 1e-6 if ops[n][1] else 1e-9):
            ck.fail("history-dependent", f"after {first} (and the operations before it), {n} gives {show(r)}, in a fresh world {show(base[n])}")
            break
    ck.trace()
    for k, v in w.items():
        if not same(read(v), read0[k], 0.0 if isinstance(v, np.ndarray) else 1e-12):
            ck.fail("mutated", f"after {first} (and the operations after it), {k} reads {show(read(v))}, initially {show(read0[k])}")
            break
    g1 = np.random.get_state()
    ck.expect(g0[0] == g1[0] and np.array_equal(g0[1], g1[1]) and g0[2:] == g1[2:] and p0 == pyrandom.getstate(), "global-random-state", lambda: f"the global random state changed during {first} and the operations after it")


def show(r):
    def go(x):
        if isinstance(x, tuple):
            if x and x[0] == "a":
                return x[2].tolist()
            return [go(v) for v in x]
        return x
    return repr(go(r))[:400]


def isolate_case(ck, name, ops, base, read0):
    """one operation twice in one world, everything read before and after (names the culprit)"""
    w = world()
    for rep in range(2):
        r = read(ops[name][0](w))
        ck.step()
        ck.expect(same(r, base[name], 1e-6), "not-repeatable", lambda: f"{name}, call {rep + 1}: {show(r)}, in a fresh world {show(base[name])}")
        for k, v in w.items():
            if not same(read(v), read0[k], 0.0 if isinstance(v, np.ndarray) else 1e-12):
                ck.fail("mutated", f"{name} changes {k}: it reads {show(read(v))}, before {show(read0[k])}")
                return
    ck.trace()
    ck.state(("single", name))


def overwrite(w, keys):
    """the caller reuses the arrays, dictionaries and lists of the world named in `keys`"""
    for k in keys:
        v = w[k]
        if isinstance(v, np.ndarray):
            v[...] = 7.25
        elif isinstance(v, dict):
            v.clear()
            v[(3, 1)] = 7.25
        else:
            v.reverse()
            v.pop()


def owner_case(ck, name, ops, base, keys, read0, before):
    """call `name` (None: only the constructors of the world); the caller then overwrites
    its arrays; what was returned, and the objects built before, must read as before"""
    w = world()
    args = [k for k in w if isinstance(w[k], (np.ndarray, dict, list))]
    ks = args if keys is None else keys
    r = ops[name][0](w) if name else None
    if before:
        read(r)
        for v in w.values():
            read(v)
    overwrite(w, ks)
    ck.step(); ck.trace(); ck.state(("owner", name, tuple(ks), before)); ck.outcome("caller-overwrites")
    if name:
        q = read(r)
        ck.expect(same(q, base[name], 1e-9), "shares-argument", lambda: f"the result of {name} changes when the caller overwrites {ks} after the call: {show(q)}, before {show(base[name])}")
    else:
        for k, v in w.items():
            if k not in args:
                q = read(v)
                ck.expect(same(q, read0[k], 1e-12), "shares-argument", lambda: f"{k} changes when the caller overwrites {ks}, from which it was built: {show(q)}, before {show(read0[k])}")


# -- randomness -------------------------------------------------------------------
def random_functions():
    import rigeo as rg
    w = world()
    fs = {}
    for s in SHAPES:
        for sh in (1, 3, (2, 2)):
            fs[f"{s}.random_points({sh})"] = lambda g, s=s, sh=sh: w[s].random_points(sh, rng=g)
        fs[f"{s}.random_points()"] = lambda g, s=s: w[s].random_points(rng=g)
    for s in ("box", "ell", "sphere"):
        for sh in (1, 4, (2, 2)):
            fs[f"{s}.surface({sh})"] = lambda g, s=s, sh=sh: w[s].random_points_on_surface(sh, rng=g)
    for sh in (1, 5, (2, 2)):
        fs[f"box.edges({sh})"] = lambda g, sh=sh: w["box"].random_points_on_edges(sh, rng=g)
    for d in (1, 2, 3, 4):
        for sh in (1, 3, (2, 2)):
            fs[f"ball{d}({sh})"] = lambda g, d=d, sh=sh: rg.random_points_in_ball(sh, dim=d, rng=g)
            if d > 1:
                fs[f"hsphere{d - 1}({sh})"] = lambda g, d=d, sh=sh: rg.random_points_on_hypersphere(sh, dim=d - 1, rng=g)
    for sh in (3, (2, 3)):
        fs[f"weights({sh})"] = lambda g, sh=sh: rg.random_weight_vectors(sh, rng=g)
    fs["psd"] = lambda g: rg.random_psd_matrix(3, rng=g)
    fs["psd1"] = lambda g: rg.random_psd_matrix(1, rng=g)
    fs["IP.random"] = lambda g: rg.InertialParameters.random(rng=g)
    fs["SV.random"] = lambda g: rg.SV.random_diag_normal(w["SV1"], w["svd"], rng=g)
    for sh in (1, 4, (2, 3)):
        fs[f"rejection({sh})"] = lambda g, sh=sh: rg.rejection_sample([w["sphere"], w["poly"]], rg.Box.cube(4.0), sh, rng=g)
    return fs


def gstate(g):
    return repr(g.bit_generator.state)


def rng_case(ck, name, fs, seeds):
    f = fs[name]
    for seed in seeds:
        ck.state(("rng", name, seed)); ck.step(12); ck.trace(); ck.outcome("random-function")
        np.random.seed(7)
        st = np.random.get_state()
        ps = pyrandom.getstate()
        a = bits(f(seed))
        np.random.seed(8)
        np.random.rand(3); pyrandom.random()
        b = bits(f(seed))
        ck.expect(a == b, "seed", f"{name}: equal seeds ({seed}) give different results (or depend on the global random state)")
        ck.expect(bits(f(np.int64(seed))) == a, "seed", f"{name}: numpy integer seed")
        g, g2 = np.random.default_rng(seed), np.random.default_rng(seed)
        s0 = gstate(g)
        x = bits(f(g))
        ck.expect(x == a, "seed", f"{name}: a generator made from seed {seed} and the seed itself give different results")
        ck.expect(gstate(g) != s0, "not-advanced", f"{name}: the generator passed is not advanced")
        ck.expect(bits(f(g2)) == x and gstate(g2) == gstate(g), "generator", f"{name}: equal generators give different results or are advanced differently")
        y = bits(f(g))
        ck.expect(y != x, "not-advanced", f"{name}: two calls with the same generator give the same result")
        ck.expect(bits(f(g2)) == y, "generator", f"{name}: second call with equal generators differs")
        # the global state is untouched and unread
        np.random.set_state(st); pyrandom.setstate(ps)
        f(seed); f(np.random.default_rng(seed)); u = bits(f(None))
        t = np.random.get_state()
        ck.expect(np.array_equal(t[1], st[1]) and t[2:] == st[2:] and pyrandom.getstate() == ps, "global-random-state", f"{name}: the global random state is changed")
        np.random.set_state(st); pyrandom.setstate(ps)
        v = bits(f(None))
        ck.expect(u != v, "global-random-state", f"{name}: without a seed the result repeats when the global random state is repeated")
    rs = {bits(f(s)) for s in seeds}
    ck.expect(len(rs) == len(seeds), "seed-ignored", f"{name}: different seeds give the same result")


def rng_pairs(ck, names, fs, all_names):
    """f(seed) is the same whatever other random function ran before, with whatever seed"""
    base = {n: bits(fs[n](11)) for n in all_names}
    for n in names:
        for m in all_names:
            fs[m](5); fs[m](None)
            r = bits(fs[n](11))
            ck.step(); ck.nstates += 1
            ck.expect(r == base[n], "history-dependent", f"{n} with seed 11 gives another result after {m}")
        ck.trace()


def main(ck):
    T = ck.thorough
    ops = operations()
    base, broken = {}, []
    first = world()
    read0 = {k: read(v) for k, v in first.items()}

    def baseline(n):
        base[n] = read(ops[n][0](world()))
    for n in ops:
        ck.run(f"baseline/{n}", baseline, n)
    names = [n for n in ops if n in base]
    cheap = [n for n in names if not ops[n][1]]
    jobs = []
    for n in names:
        jobs.append((f"single/{n}", isolate_case, (n, ops, base, read0)))
        jobs.append((f"pair/{n}", run_history, ((n,), ops, base, cheap, read0)))
        if n in cheap:
            for before in (False, True):
                jobs.append((f"owner/{n}/{before}", owner_case, (n, ops, base, None, read0, before)))
    for k in first:
        if isinstance(first[k], (np.ndarray, dict, list)):
            for before in (False, True):
                jobs.append((f"owner-world/{k}/{before}", owner_case, (None, ops, base, [k], read0, before)))
    jobs.append(("reverse", run_history, ((), ops, base, names[::-1], read0)))
    jobs.append(("forward", run_history, ((), ops, base, names + cheap, read0)))
    if T:
        for i, n in enumerate(names):
            jobs.append((f"pair-solver/{n}", run_history, ((n,), ops, base, [m for m in names if ops[m][1]], read0)))
        for n in cheap:
            for m in cheap:
                if n != m:
                    jobs.append((f"triple/{n}/{m}", run_history, ((n, m), ops, base, cheap[::7] + [n], read0)))
    fs = random_functions()
    fn = list(fs)
    for n in fn:
        jobs.append((f"rng/{n}", rng_case, (n, fs, list(range(ck.pick(4, 20))) + [12345, 2**31])))
    for i in range(0, len(fn), 6):
        jobs.append((f"rng-order/{i}", rng_pairs, (fn[i:i + 6], fs, fn)))

    def job(k, items):
        for key, f, a in items:
            k.run(key, f, k, *a, repro=key)
    ck.pmap(job, [jobs[i::64] for i in range(64)])
    ck.nstates += len(names) * (len(cheap) + 2)
    ck.outcome("operations", len(names)); ck.outcome("random-functions", len(fn))
    ck.sample(names[:8])
    ck.assumptions.append("objects are compared through their public attributes")
