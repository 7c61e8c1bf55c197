"""C15: every way of reading the basis of an element gives the same functions."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
import common  # noqa: E402
import catalogue  # noqa: E402
import gen  # noqa: E402
import gf  # noqa: E402
import proj  # noqa: E402

ORDERS = ["xyzxyz", "xyz,xyz", "xxyyzz", "xx,yy,zz"]
UNKNOWN = ["zyx", "xyxy", "", "xyz", "XYZXYZ", "xyz, xyz", "xxyy", "xx,yy"]


def flatten(v):
    """Lengths of a regular nesting and its entries in reading order; [-1] when it is not regular."""
    import sympy
    if isinstance(v, sympy.MatrixBase):
        return [v.rows * v.cols], [v[i, j] for i in range(v.rows) for j in range(v.cols)]
    if hasattr(v, "as_sympy"):
        return flatten(v.as_sympy())
    if isinstance(v, (list, tuple)):
        if not v:
            return [0], []
        parts = [flatten(w) for w in v]
        if any(p[0] != parts[0][0] for p in parts):
            return [-1], []
        return [len(v)] + parts[0][0], [e for p in parts for e in p[1]]
    return [], [v]


import sympy as _sp  # noqa: E402
SINGULAR = (_sp.zoo, _sp.nan, _sp.oo, _sp.S.NegativeInfinity)


def points(rng, cell, vv, pcs, n):
    """Random points of the cell with the piece they lie in, in different input forms."""
    import sympy
    out = []
    while len(out) < n:
        if not pcs or pcs[0] is None:
            den = rng.choice([7, 13, 24, 30])
            r = [sympy.Rational(rng.randrange(1, 3 * den), 3 * den) for _ in range(proj.DIM[cell])]
            if cell in ("triangle", "tetrahedron") and sum(r) >= 1 or cell == "prism" and r[0] + r[1] >= 1 \
                    or cell == "pyramid" and max(r[0], r[1]) + r[2] >= 1:
                continue
            ax = [[b - a for a, b in zip(vv[0], vv[i])] for i in proj.AXIS[cell]]
            pt = tuple(sympy.sympify(vv[0][g]) + sum(r[a] * ax[a][g] for a in range(len(ax))) for g in range(len(vv[0])))
            out.append((1, pt))
        else:
            q = rng.randrange(len(pcs))
            w = [rng.randrange(1, 40) for _ in pcs[q]]
            s = sum(w)
            pt = tuple(sum(sympy.Rational(a, s) * v[g] for a, v in zip(w, pcs[q])) for g in range(len(pcs[q][0])))
            out.append((q + 1, pt))
    return out


def forms(rng, pts):
    from symfem.functions import VectorFunction  # noqa: F401
    out = []
    for _, p in pts:
        out.append(rng.choice([tuple, list, tuple])(p))
    return rng.choice([tuple, list])(out)


def scaled(v, m):
    return int(round(float(v) / m * 1e7))


def observe(cell, name, order, kw, verts, tensor_first=False):
    import sympy
    import symfem
    from symfem.finite_element import NoTensorProduct
    from symfem.symbols import x
    rng = common.rng("C15", cell, name, order, sorted(kw.items()), verts)

    def new():
        return symfem.create_element(cell, name, order, **kw) if verts is None else \
            symfem.create_element(cell, name, order, vertices=verts, **kw)
    el = new()
    basis = list(el.get_basis_functions())
    vv = tuple(tuple(v) for v in el.reference.vertices)
    pcs0 = [k for k, _ in proj.sympy_pieces(basis[0])]
    pts = points(rng, cell, vv, pcs0, 2)
    fs = [b.get_function() if hasattr(b, "get_function") else b for b in basis]
    td = proj.DIM[cell]
    tabs = []
    for o in ORDERS + ["default", rng.choice(UNKNOWN)]:
        try:
            # a different element now and then: answers must not depend on what was read before
            e = el if rng.random() < 0.8 or len(basis) > 30 else new()
            got = e.tabulate_basis(forms(rng, pts)) if o == "default" else e.tabulate_basis(forms(rng, pts), o)
            tabs.append((o, False, [flatten(r) for r in got]))
        except ValueError:
            tabs.append((o, True, []))
    fl = [flatten(r) for r in el.tabulate_basis_float(forms(rng, pts))]
    exact, floats = [], []
    nf = len(fs)
    for (q, pt), (sig, f) in zip(pts, fl):
        row = []
        for g in fs:
            h = proj.sympy_pieces(g)[q - 1][1]
            cs = proj.comps(h)[1]
            row.append([sympy.sympify(c).subs(dict(zip(x, pt))).evalf(30) for c in cs])
        m = max([1.0] + [abs(float(c)) for r in row for c in r])
        exact.append([[scaled(c, m) for c in r] for r in row])
        nc = len(row[0])
        ff = [scaled(c, m) for c in f]
        floats.append([ff[j * nc:(j + 1) * nc] for j in range(nf)]
                      if (sig == [nf] if el.range_dim == 1 else sig == [nf, nc]) and all(abs(float(c)) < 100 * m for c in f) else [])
    # lazily obtained single functions
    lazy = []
    poly = True
    el2 = el if len(basis) > 14 else new()
    for n in sorted({0, len(basis) - 1, rng.randrange(len(basis))}):
        g = el2.get_basis_function(n)
        k = rng.randrange(len(pts))
        q, pt = pts[k]

        def at(f, pt=pt, q=q):
            h = proj.sympy_pieces(f)
            h = h[q - 1 if len(h) > 1 else 0][1]
            return [sympy.sympify(c).subs(dict(zip(x, pt))) for c in proj.comps(h)[1]]
        if pcs0[0] is None:
            lazy.append((n, k, "sympy form", 0, at(g)))
            d = rng.randrange(td)
            lazy.append((n, k, "substitution one variable at a time", 0,
                         proj.comps(gf.as_plain(chain(g, x, pt)))[1]))
            if len(vv[0]) == td:
                lazy.append((n, k, "derivative", d + 1, at(g.diff(x[d]))))
        lazy.append((n, k, "function", 0, at(g.get_function())))
        lazy.append((n, k, "substitution", 0, proj.comps(gf.as_plain(g.subs(x, pt)))[1]))
        lazy.append((n, k, "negative", 0, at(-g)))
        lazy.append((n, k, "double", 0, at(2 * g)))
        lazy.append((n, k, "double", 0, at(g + g)))
        if g.is_vector or g.is_matrix:
            lazy.append((n, k, "shape", 0, list(g.shape)))
            lazy.append((n, k, "shape", 0, list(basis[n].shape)))
        lazy.append((n, k, "kind", 0, [1 if g.is_vector else 2 if g.is_matrix else 0]))
        if g.is_vector and pcs0[0] is None:
            lazy.append((n, k, "components", 0, [c for i in range(len(g)) for c in at(g[i])]))
            lazy.append((n, k, "length", 0, [len(g)]))
            lazy.append((n, k, "iteration", 0, [c for h in g for c in at(h)]))
    pairs = []
    if len(vv[0]) == td:
        for n in rng.sample(range(len(basis)), 1 if len(basis) > 4 else min(2, len(basis))):
            q, pt = rng.choice(pts)
            pairs += compare(rng, el, (el if len(basis) > 14 else new()).get_basis_function(n), fs[n], q, pt,
                             len(basis) <= 4 and pcs0[0] is None)
    # tensor products
    fac, tens = [], []
    try:
        fac = [(t, [[f.as_sympy() for f in e.get_basis_functions()] for e in factors], [int(i) for i in perm])
               for t, factors, perm in new().get_tensor_factorisation()]
    except NoTensorProduct:
        pass
    try:
        e = new()
        if rng.random() < 0.5:
            e.get_basis_function(0)
        tf = e.get_basis_functions(use_tensor_factorisation=True)
        tens = [[[sympy.sympify(c).subs(dict(zip(x, pt))) for c in proj.comps(proj.sympy_pieces(f)[q - 1][1])[1]]
                 for f in tf] for q, pt in pts]
    except (NoTensorProduct, AssertionError):
        pass
    again = el.get_basis_functions()
    seq = [a == b or a is b for a, b in zip(again, basis)] if len(again) == len(basis) else []

    def build(P):
        bm = proj.basis_matrix(P, fs, td)
        o = {"p": P.p, "n": el.space_dim, "sh": bm["sh"], "pts": [{"q": q, "x": P.point(pt)} for q, pt in pts],
             "pieces": [{"m": pc["m"], "c": pc["c"], "den": pc["den"]} for pc in bm["pieces"]],
             "tabs": [{"order": a, "refused": b, "rows": [{"sig": s, "flat": [P.num(v) for v in f]} for s, f in r]}
                      for a, b, r in tabs],
             "exact": exact, "floats": floats, "seq": seq,
             "lazy": [{"n": n + 1, "k": k + 1, "how": h, "d": d,
                       "vals": v if h in ("shape", "kind", "length") else [P.num(c) for c in v]}
                      for n, k, h, d, v in lazy if h != "derivative" or all(not pc["den"] for pc in bm["pieces"])],
             "pairs": [{"how": h, "a": {"t": a[0], "v": [P.num(c) for c in a[1]]}, "b": {"t": b[0], "v": [P.num(c) for c in b[1]]}}
                       for h, a, b in pairs],
             "fac": [{"type": t, "perm": perm, "factors": [[P.scalar(f) for f in e] for e in factors]}
                     for t, factors, perm in fac],
             "tens": [[[P.num(c) for c in f] for f in row] for row in tens]}
        return o
    _ = poly
    return [(catalogue.label(cell, name, order, kw, verts), proj.with_projector(rng, build, cell=cell, verts=vv))]


def operations(rng, el, f):
    """Operations of functions, applied to a lazily obtained function and to the entry of the full basis."""
    import sympy
    from symfem.functions import MatrixFunction, ScalarFunction, VectorFunction
    from symfem.symbols import t, x
    td = el.reference.tdim
    sh = [] if f.is_scalar else list(f.shape)
    s = gen.poly(rng, td, 1)
    n = sh[0] if sh else 2
    v = tuple(gen.poly(rng, td, 1) for _ in range(n))
    m = tuple(tuple(gen.poly(rng, td, 1) for _ in range(sh[-1] if sh else 2)) for _ in range(n))
    same = s if not sh else v if len(sh) == 1 else m
    wrap = ScalarFunction(s) if not sh else VectorFunction(v) if len(sh) == 1 else MatrixFunction(m)
    u = sympy.symbols("u0 u1 u2")
    ref = el.reference
    sub = ref.sub_entity(td - 1, rng.randrange(ref.sub_entity_count(td - 1))) if td > 1 else ref
    k = rng.randrange(2)
    ops = [("sum", lambda f: f + same), ("sum, on the right", lambda f: same + f if not sh else wrap + f),
           ("difference", lambda f: f - same), ("difference, on the right", lambda f: wrap - f),
           ("difference from a raw value", lambda f: s - f), ("product", lambda f: f * s), ("product, on the right", lambda f: s * f),
           ("product with a function", lambda f: f * ScalarFunction(s)), ("product of a function", lambda f: ScalarFunction(s) * f),
           ("quotient", lambda f: f / (s + 17)), ("quotient, below", lambda f: s / (f + 3)), ("reciprocal", lambda f: 1 / f),
           ("negative", lambda f: -f), ("power", lambda f: f ** 3),
           ("matrix product", lambda f: f @ MatrixFunction(m)), ("matrix product, on the right", lambda f: MatrixFunction(m) @ f),
           ("matrix product with raw entries", lambda f: f @ m), ("matrix product, raw entries first", lambda f: m @ f),
           ("derivative", lambda f: f.diff(x[rng2(3)])), ("directional derivative", lambda f: f.directional_derivative((1, -2, 3)[:td])),
           ("component of the Jacobian", lambda f: f.jacobian_component((rng2(n), rng2(td)))),
           ("Jacobian", lambda f: f.jacobian(td)), ("dot", lambda f: f.dot(wrap)), ("dot with raw entries", lambda f: f.dot(same)),
           ("cross", lambda f: f.cross(v)), ("divergence", lambda f: f.div()), ("gradient", lambda f: f.grad(td)),
           ("curl", lambda f: f.curl()), ("norm", lambda f: f.norm() ** 2),
           ("integral", lambda f: f.integral(ref, x)), ("integral over a facet", lambda f: f.integral(sub, x)),
           ("integral, other variables", lambda f: f.integral(ref, u)), ("integral, dummy variables", lambda f: f.integral(ref, x, u)),
           ("integral, dummy variables by name", lambda f: f.integral(sub, dummy_vars=u)), ("integral without variables", lambda f: f.integral(ref)),
           ("integral of a substituted function", lambda f: f.subs(x, u).integral(ref, u)),
           ("substitution of expressions", lambda f: f.subs(x[:td], [x[i] + 2 * x[0] for i in range(td)])),
           ("substitution of one variable", lambda f: f.subs(x[rng2(td)], s)),
           ("substitution of others", lambda f: f.subs(x, u).subs(u, (t[0], t[1], x[2])).subs(t, (x[0] + 1, 2, 3))),
           ("item", lambda f: f[k]), ("last item", lambda f: f[-1]), ("entry", lambda f: f[1, k]), ("slice", lambda f: f[0:1]),
           ("items", lambda f: VectorFunction([g for g in f])), ("length", lambda f: len(f)), ("determinant", lambda f: f.det()),
           ("transpose", lambda f: f.transpose()), ("with floats", lambda f: f.with_floats()),
           ("maximum degree", lambda f: f.maximum_degree(ref)), ("TeX", lambda f: f.as_tex()), ("shape", lambda f: f.shape),
           ("flags", lambda f: (f.is_scalar, f.is_vector, f.is_matrix)),
           ("equality", lambda f: f == wrap), ("inequality", lambda f: f != wrap),
           ("negative of the substituted function", lambda f: -f.subs(x, (x[1], x[0], x[2]))),
           ("derivative of the substituted function", lambda f: f.subs(x, (x[1], x[0], x[2])).diff(x[0])),
           ("items of the substituted function", lambda f: f.subs(x, (x[1], x[0], x[2]))[0]),
           ("shape of the substituted function", lambda f: f.subs(x, (x[1], x[0], x[2])).shape)]
    a = rng.randrange(1000)

    def rng2(n):
        return a % n
    return ops


def answer(op, f, q, pt, limit=20):
    """The answer of an operation as (kind, numbers): values at a point, integers or a refusal."""
    import sympy
    from symfem.functions import AnyFunction
    from symfem.symbols import x
    try:
        r = op(f)
    except Exception:  # noqa: BLE001
        return "refused", []
    if isinstance(r, AnyFunction):
        h = proj.sympy_pieces(r)
        h = h[q - 1 if len(h) > 1 else 0][1]
        sh, cs = proj.comps(h)
        if any(c.has(sympy.Float) for c in cs):
            cs = [sympy.Integer(round(float(c.subs(dict(zip(x, pt)))) * 1000)) for c in cs]
        return "value of shape " + str(list(sh)), [sympy.sympify(c).subs(dict(zip(x, pt))) for c in cs]
    if isinstance(r, sympy.Basic) and not isinstance(r, sympy.Tuple) and not r.is_Boolean:
        return "expression", [r.subs(dict(zip(x, pt)))]
    if isinstance(r, str):
        return "text", [int.from_bytes(r.encode()[:200], "big") % (1 << 29), len(r)]
    return "number", [int(c) for c in (r if isinstance(r, tuple) else (r, ))]


def compare(rng, el, g, f, q, pt, many):
    """The same operations on a lazily obtained function g and on the function f itself."""
    import sympy
    out = []
    ops = operations(rng, el, f)
    for how, op in ops if many else rng.sample(ops, min(8, len(ops))):
        pt3 = tuple(pt) + (sympy.Rational(1, 3),) * (3 - len(pt))
        a, b = answer(op, g, q, pt3), answer(op, f, q, pt3)
        if any(not sympy.sympify(c).is_number or sympy.sympify(c).has(*SINGULAR) for c in a[1] + b[1]):
            same = len(a[1]) == len(b[1]) and all(c == d or sympy.expand(c - d) == 0 for c, d in zip(a[1], b[1]))
            a, b = (a[0], [0 if same else 1]), (b[0], [0])
        out.append((how, a, b))
    return out


def chain(g, x, pt):
    for v, c in zip(x, pt):
        g = g.subs(v, c)
    return g


def tasks(thorough):
    out = []
    for c in catalogue.cases(thorough=thorough, budget=90 if thorough else 45, maxn=120 if thorough else 40):
        if c["n"] == 0:
            continue
        a = (c["cell"], c["name"], c["order"], c["kw"], None)
        out.append((catalogue.label(*a), observe, a))
    for c in catalogue.cases(thorough=thorough, budget=30 if thorough else 16, per=1, plain=not thorough, maxn=100 if thorough else 24):
        if c["n"] == 0:
            continue
        for v in catalogue.other_cells(c["cell"], common.rng("C15cells", c["cell"], c["name"], c["order"]), 1):
            a = (c["cell"], c["name"], c["order"], c["kw"], v)
            out.append((catalogue.label(*a), observe, a))
    # tensor products at every order, variant and cell
    seen = {o[0] for o in out}
    for cell, top in (("quadrilateral", 6 if thorough else 4), ("hexahedron", 3 if thorough else 2)):
        for k in range(0, top + 1):
            for var in ("equispaced", "lobatto", "legendre", "gll", "radau"):
                a = (cell, "Q", k, {"variant": var}, None)
                if catalogue.label(*a) not in seen and not (var == "radau" and k > 2) \
                        and (cell == "quadrilateral" or k < 2 or var in ("equispaced", "gll") or thorough):
                    out.append((catalogue.label(*a), observe, a))
            if k and k < 3:
                for v in catalogue.other_cells(cell, common.rng("C15q", cell, k), 1):
                    a = (cell, "Q", k, {}, v)
                    if catalogue.label(*a) not in seen:
                        out.append((catalogue.label(*a), observe, a))
    return out


def run():
    return common.drive("C15", "model_checking",
                        "element x order x options x cell, each with tabulations, float tabulation, single functions and factorisation",
                        "C15_Reading", tasks(common.THOROUGH), lanes=16, chunk=400, limit=180 if common.THOROUGH else 70,
                        nontrivial=lambda o: o["n"] > 1,
                        refusal=lambda tr, a: catalogue.is_refusal(tr, a[4]))


if __name__ == "__main__":
    common.main(run)
