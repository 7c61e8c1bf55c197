"""Projection of cells, elements and functionals to the vocabulary of the specification."""
import inspect

import sympy

import gf

# constructor parameters that name the same thing in different functional classes
_ALIASES = {"f_in": "f", "dot_with_in": "dot_with", "point_in": "point", "direction_in": "direction",
            "vector_in": "vector", "inner_with_left_in": "inner_with_left",
            "inner_with_right_in": "inner_with_right"}


def install_recorder():
    """Remember the constructor call of every functional (public constructor arguments only)."""
    from symfem import functionals as F
    if getattr(F, "_verif_installed", False):
        return
    F._verif_installed = True
    depth = [0]

    def wrap(cls):
        orig = cls.__init__
        sig = inspect.signature(orig)

        def init(self, *args, **kwargs):
            top = depth[0] == 0
            depth[0] += 1
            try:
                orig(self, *args, **kwargs)
            finally:
                depth[0] -= 1
            if top:
                b = sig.bind(self, *args, **kwargs)
                b.apply_defaults()
                a = {_ALIASES.get(k, k): v for k, v in b.arguments.items() if k != "self"}
                self._verif_call = (type(self).__name__, a)
        cls.__init__ = init

    for name in dir(F):
        c = getattr(F, name)
        if isinstance(c, type) and issubclass(c, F.BaseFunctional) and "__init__" in c.__dict__ \
                and c is not F.BaseFunctional:
            wrap(c)


def as_tuple(v):
    """A point/vector given in any accepted form, as a tuple of expressions."""
    from symfem.functions import parse_function_input
    v = parse_function_input(v).as_sympy()
    assert isinstance(v, tuple)
    return v


def projector(p):
    from symfem.symbols import t, x
    P = gf.Projector(p, list(x))
    for i, v in enumerate(t):
        P.vars[v] = i
    return P


def cell_radicands(cell, verts):
    """Squares of the measures of all sub-entities."""
    out = set()
    for vs in (verts, DEFAULT[cell]):
        for d in range(1, DIM[cell] + 1):
            for n, s in enumerate(sub_entities(cell, d)):
                out.add(measure(sub_type(cell, d, n), [vs[i] for i in s]) ** 2)
    return out


def with_projector(rng, fn, tries=80, cell=None, verts=None):
    ps = list(gf.primes())
    if verts is not None and any(gf.squarefree(r) not in (1, 2, 3, 5, 6) for r in cell_radicands(cell, verts)):
        ps = gf.primes_for(cell_radicands(cell, verts))
    rng.shuffle(ps)
    for p in ps[:tries]:
        try:
            return fn(projector(p))
        except gf.BadPrime:
            continue
    raise gf.NotRepresentable("no suitable prime")


# ------------------------------------------------------------------------------------------ cells
AXIS = {"point": [], "interval": [1], "triangle": [1, 2], "quadrilateral": [1, 2],
        "tetrahedron": [1, 2, 3], "prism": [1, 2, 3], "hexahedron": [1, 2, 4], "pyramid": [1, 2, 4]}
DEFAULT = {
    "point": ((),), "interval": ((0,), (1,)), "triangle": ((0, 0), (1, 0), (0, 1)),
    "quadrilateral": ((0, 0), (1, 0), (0, 1), (1, 1)),
    "tetrahedron": ((0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)),
    "hexahedron": ((0, 0, 0), (1, 0, 0), (0, 1, 0), (1, 1, 0), (0, 0, 1), (1, 0, 1), (0, 1, 1), (1, 1, 1)),
    "prism": ((0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (0, 1, 1)),
    "pyramid": ((0, 0, 0), (1, 0, 0), (0, 1, 0), (1, 1, 0), (0, 0, 1))}
DIM = {"point": 0, "interval": 1, "triangle": 2, "quadrilateral": 2, "tetrahedron": 3,
       "hexahedron": 3, "prism": 3, "pyramid": 3}
EDGES = {
    "point": [], "interval": [(0, 1)], "triangle": [(1, 2), (0, 2), (0, 1)],
    "tetrahedron": [(2, 3), (1, 3), (1, 2), (0, 3), (0, 2), (0, 1)],
    "quadrilateral": [(0, 1), (0, 2), (1, 3), (2, 3)],
    "hexahedron": [(0, 1), (0, 2), (0, 4), (1, 3), (1, 5), (2, 3), (2, 6), (3, 7), (4, 5), (4, 6), (5, 7), (6, 7)],
    "prism": [(0, 1), (0, 2), (0, 3), (1, 2), (1, 4), (2, 5), (3, 4), (3, 5), (4, 5)],
    "pyramid": [(0, 1), (0, 2), (0, 4), (1, 3), (1, 4), (2, 3), (2, 4), (3, 4)]}
FACES = {
    "point": [], "interval": [], "triangle": [(0, 1, 2)], "quadrilateral": [(0, 1, 2, 3)],
    "tetrahedron": [(1, 2, 3), (0, 2, 3), (0, 1, 3), (0, 1, 2)],
    "hexahedron": [(0, 1, 2, 3), (0, 1, 4, 5), (0, 2, 4, 6), (1, 3, 5, 7), (2, 3, 6, 7), (4, 5, 6, 7)],
    "prism": [(0, 1, 2), (0, 1, 3, 4), (0, 2, 3, 5), (1, 2, 4, 5), (3, 4, 5)],
    "pyramid": [(0, 1, 2, 3), (0, 1, 4), (0, 2, 4), (1, 3, 4), (2, 3, 4)]}


def sub_entities(cell, dim):
    if dim == 0:
        return [(i,) for i in range(len(DEFAULT[cell]))]
    if dim == 1:
        return EDGES[cell]
    if dim == 2:
        return FACES[cell]
    return [tuple(range(len(DEFAULT[cell])))]


def sub_type(cell, dim, n):
    if dim == 0:
        return "point"
    if dim == 1:
        return "interval"
    if dim == 2:
        return "triangle" if len(sub_entities(cell, 2)[n]) == 3 else "quadrilateral"
    return cell


def _S(v):
    return tuple(sympy.sympify(c) for c in v)


def measure(cell, verts):
    """Square root of the Gram determinant of the axes."""
    v = [_S(w) for w in verts]
    ax = [[b - a for a, b in zip(v[0], v[i])] for i in AXIS[cell]]
    if not ax:
        return sympy.Integer(1)
    m = sympy.Matrix([[sum(a * b for a, b in zip(u, w)) for w in ax] for u in ax])
    return sympy.sqrt(m.det())


def cell_jacs(P, cell, verts):
    out = []
    for d in range(1, DIM[cell] + 1):
        out.append([P.num(measure(sub_type(cell, d, n), [verts[i] for i in s]))
                    for n, s in enumerate(sub_entities(cell, d))])
    return out


def context(P, cell, verts):
    tdim = DIM[cell]
    v = [_S(w) for w in verts]
    sgn = 1
    if tdim and len(v[0]) == tdim:
        ax = sympy.Matrix([[b - a for a, b in zip(v[0], v[i])] for i in AXIS[cell]])
        sgn = 1 if ax.det() > 0 else -1
    return {"p": P.p, "cell": cell, "verts": [P.point(w) for w in v], "jac": cell_jacs(P, cell, v),
            "djac": cell_jacs(P, cell, DEFAULT[cell]), "sgn": sgn,
            "default": tuple(v) == tuple(_S(w) for w in DEFAULT[cell])}


def bary(cell, verts, pt):
    """Local coordinates of pt on a full-dimensional simplex/box cell (exact)."""
    v = [_S(w) for w in verts]
    ax = sympy.Matrix([[b - a for a, b in zip(v[0], v[i])] for i in AXIS[cell]]).T
    return ax.inv() * sympy.Matrix([sympy.sympify(c) - a for a, c in zip(v[0], pt)])


def simplex_name(n, dim):
    return {(2, 1): "interval", (3, 2): "triangle", (4, 3): "tetrahedron", (4, 2): "quadrilateral"}[(n, dim)]


def in_piece(cell, verts, pt):
    t = bary(cell, verts, pt)
    if cell == "quadrilateral":
        # general convex quadrilateral with vertices in reference order
        v = [_S(w) for w in verts]
        loop = [v[0], v[1], v[3], v[2]]
        s = []
        for i in range(4):
            a, b = loop[i], loop[(i + 1) % 4]
            s.append((b[0] - a[0]) * (pt[1] - a[1]) - (b[1] - a[1]) * (pt[0] - a[0]))
        return all(k >= 0 for k in s) or all(k <= 0 for k in s)
    return all(c >= 0 for c in t) and sum(t) <= 1


# -------------------------------------------------------------------------------------- functions
def sympy_pieces(f):
    """[(vertices or None, sympy format)] of a symfem function."""
    if hasattr(f, "get_function"):
        f = f.get_function()
    if hasattr(f, "pieces") and not isinstance(f, (tuple, list)):
        return [(tuple(tuple(c for c in v) for v in vs), gf.as_plain(g)) for vs, g in f.pieces.items()]
    return [(None, gf.as_plain(f))]


def comps(g):
    if isinstance(g, sympy.MatrixBase):
        return [g.rows, g.cols], [g[i, j] for i in range(g.rows) for j in range(g.cols)]
    if isinstance(g, (tuple, list)):
        return [len(g)], list(g)
    return [], [g]


def basis_matrix(P, fs, tdim, cancel=False):
    """Coefficient form of a list of functions.

    {"sh", "pieces": [{"v", "cell", "a", "den", "m": per component exponents, "c": per function per
    component coefficients}]}; all functions must use the same pieces.
    """
    pcs = [sympy_pieces(f) for f in fs]
    keys = [k for k, _ in pcs[0]]
    out = []
    shape = None
    ks = {repr(k): i for i, k in enumerate(keys)}
    for q in pcs:
        if len(q) != len(keys) or any(repr(k) not in ks for k, _ in q):
            raise gf.NotRepresentable("functions have different pieces")
    for k in keys:
        rows = []
        for q in pcs:
            g = [h for kk, h in q if repr(kk) == repr(k)][0]
            sh, cs = comps(g)
            if shape is None:
                shape = sh
            if sh != shape:
                raise gf.NotRepresentable("functions of different shapes")
            if cancel:
                cs = [sympy.cancel(sympy.sympify(c)) for c in cs]
            rows.append([P.ratfun(c) for c in cs])
        one = {P.zero_exp: 1}
        dens = []
        for r in rows:
            for n, d in r:
                if d != one and d not in dens:
                    dens.append(d)
        if not dens:
            den = one
        elif not cancel:
            return basis_matrix(P, fs, tdim, cancel=True)
        else:
            den = common_denominator(P, dens)
        nums = []
        for r in rows:
            rr = []
            for n, d in r:
                rr.append(n if d == den else P._pmul(n, divide(P, den, d)))
            nums.append(rr)
        nc = len(nums[0])
        mons = [sorted({e for r in nums for e in r[c]}) for c in range(nc)]
        out.append({"v": [] if k is None else [P.point(_S(v)) for v in k],
                    "cell": "" if k is None else simplex_name(len(k), tdim),
                    "a": 1 if k is None else P.num(piece_measure(k, tdim)),
                    "den": [] if den == one else P.terms(den),
                    "m": [[list(e) for e in m] for m in mons],
                    "c": [[[r[c].get(e, 0) for e in mons[c]] for c in range(nc)] for r in nums]})
    return {"sh": shape, "pieces": out}


def piece_measure(verts, tdim):
    cell = simplex_name(len(verts), tdim)
    v = [_S(w) for w in verts]
    ax = sympy.Matrix([[b - a for a, b in zip(v[0], v[i])] for i in AXIS[cell]])
    return abs(ax.det())


def common_denominator(P, dens):
    best = dens[0]
    for d in dens[1:]:
        if divide(P, best, d) is not None:
            continue
        if divide(P, d, best) is not None:
            best = d
        else:
            best = P._pmul(best, d)
    return best


def divide(P, a, b):
    """Exact quotient of polynomials over GF(p), or None."""
    one = {P.zero_exp: 1}
    if b == one:
        return a
    r, q = dict(a), {}
    lb = max(b)
    ib = P._inv(b[lb])
    while r:
        la = max(r)
        e = tuple(i - j for i, j in zip(la, lb))
        if min(e) < 0:
            return None
        c = r[la] * ib % P.p
        q[e] = c
        r = P._padd(r, {tuple(i + j for i, j in zip(e, k)): -c * v % P.p for k, v in b.items()})
    return q


def degrees(bm, per_variable):
    d = 0
    for pc in bm["pieces"]:
        for m in pc["m"]:
            for e in m:
                d = max(d, max(e) if per_variable else sum(e))
    return d


# ------------------------------------------------------------------------------------ functionals
KNOWN_POINT = {"PointEvaluation", "WeightedPointEvaluation", "DerivativePointEvaluation",
               "PointDirectionalDerivativeEvaluation", "PointNormalDerivativeEvaluation",
               "PointComponentSecondDerivativeEvaluation", "PointInnerProduct", "DotPointEvaluation",
               "PointDivergenceEvaluation"}
KNOWN_INT = {"IntegralAgainst", "IntegralOfDivergenceAgainst", "IntegralMoment",
             "DerivativeIntegralMoment", "DivergenceIntegralMoment", "TangentIntegralMoment",
             "NormalIntegralMoment", "NormalDerivativeIntegralMoment", "InnerProductIntegralMoment",
             "NormalInnerProductIntegralMoment", "IntegralOfDirectionalMultiderivative"}


def unit_normal_2d(verts):
    v = [_S(w) for w in verts]
    d = [b - a for a, b in zip(v[0], v[1])]
    n = sympy.sqrt(d[0] ** 2 + d[1] ** 2)
    return (-d[1] / n, d[0] / n)


def describe(P, dof, pieces=None, pcell=None):
    """The functional in the vocabulary of Functionals.tla, or None if its kind is unknown."""
    from symfem.functions import parse_function_input
    call = getattr(dof, "_verif_call", None)
    if call is None:
        return None
    k, a = call
    if k not in KNOWN_POINT and k not in KNOWN_INT:
        return None
    e = [int(c) for c in a["entity"]]
    r = {"k": k, "e": e, "pcs": [1], "pt": [], "w": 1, "der": [], "dir": [], "vec": [], "l": [],
         "r": [], "comp": [], "f": {"sh": [], "c": [[[], []]]}, "dirs": [], "ords": [], "map": str(a.get("mapping")),
         "fdeg": 0}
    if k in KNOWN_POINT:
        pt = as_tuple(a["point"])
        r["pt"] = P.point(pt)
        r["_pt"] = pt
    if k == "WeightedPointEvaluation":
        r["w"] = P.num(a["weight"])
    elif k == "DerivativePointEvaluation":
        r["der"] = [int(c) for c in a["derivative"]]
    elif k == "PointDirectionalDerivativeEvaluation":
        r["dir"] = P.point(as_tuple(a["direction"]))
    elif k == "PointNormalDerivativeEvaluation":
        r["k"] = "PointDirectionalDerivativeEvaluation"
        r["dir"] = P.point(unit_normal_2d(a["edge"].vertices))
    elif k == "PointComponentSecondDerivativeEvaluation":
        r["comp"] = [int(c) for c in a["component"]]
    elif k == "PointInnerProduct":
        r["l"] = P.point(as_tuple(a["lvec"]))
        r["r"] = P.point(as_tuple(a["rvec"]))
    elif k == "DotPointEvaluation":
        v = parse_function_input(a["vector"]).as_sympy()
        r["vec"] = P.point(v) if isinstance(v, tuple) else \
            (P.point(list(v)) if isinstance(v, sympy.MatrixBase) else [P.num(v)])
    elif k == "IntegralOfDirectionalMultiderivative":
        r["dirs"] = [P.point(_S(d)) for d in a["directions"]]
        r["ords"] = [int(c) for c in a["orders"]]
        r["w"] = P.num(a["scale"])
    if k in ("DerivativeIntegralMoment",):
        r["vec"] = P.point(as_tuple(a["dot_with"]))
    if k == "InnerProductIntegralMoment":
        r["l"] = P.point(as_tuple(a["inner_with_left"]))
        r["r"] = P.point(as_tuple(a["inner_with_right"]))
    if "f" in a:
        f = parse_function_input(a["f"])
        if hasattr(f, "get_function"):
            f = f.get_function()
        r["f"] = P.plain(gf.as_plain(f))
        if any(c[1] for c in r["f"]["c"]):
            return None
        r["fdeg"] = max([0] + [sum(t[1:]) for c in r["f"]["c"] for t in c[0]])
        r["fvdeg"] = max([0] + [max(t[1:]) for c in r["f"]["c"] for t in c[0]])
    return r
