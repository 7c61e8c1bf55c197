"""Observations of derivatives, integrals and norms of functions (the calculus steps of a program)."""
import sympy

import common
import gen
import geo
import gf
import proj

OPS = {"diff", "ddir", "jaccomp", "jacobian", "grad", "divg", "curl", "norm", "detnorm", "integral", "integrate"}
CELLS = ["interval", "triangle", "quadrilateral", "tetrahedron", "hexahedron", "prism", "pyramid", "point"]


def domain(rng):
    """A reference (possibly embedded, possibly a sub-entity of a cell): (reference, cell, vertices)."""
    import symfem
    cell = rng.choice(CELLS[:7])
    gd = rng.choice([d for d in (1, 2, 3) if d >= proj.DIM[cell]])
    verts = geo.affine_cell(cell, rng, gd, frac=False) if rng.random() < .8 or gd > proj.DIM[cell] else tuple(proj.DEFAULT[cell])
    ref = symfem.create_reference(cell, verts) if rng.random() < .5 or tuple(verts) != tuple(proj.DEFAULT[cell]) \
        else symfem.create_reference(cell)
    if rng.random() < .4:
        d = rng.randrange(0, proj.DIM[cell] + 1)
        n = rng.randrange(ref.sub_entity_count(d))
        s = ref.sub_entity(d, n)
        if d < proj.DIM[cell]:
            vs = [verts[i] for i in proj.sub_entities(cell, d)[n]]
            return s, proj.sub_type(cell, d, n), vs
        return s, cell, verts
    return ref, cell, verts


def observe(op, a, arg, rng):
    import fmachine
    from symfem.symbols import t, x
    sa = fmachine.value(a)
    ka = fmachine.kind(a)
    k = arg[0]
    extra = {}
    ctx = None
    if any(len(str(i)) > 4000 for i in sa[1]):
        return None
    poly = all(sympy.sympify(c).is_polynomial(*x) for c in sa[1])
    try:
        if op == "diff":
            extra["dir"] = [int(i == k % 3) for i in range(3)]
            res = a.diff(x[k % 3])
        elif op == "ddir":
            d = [gen.num(rng) for _ in range(rng.randrange(1, 4))]
            extra["dir"] = d + [0] * (3 - len(d))
            res = a.directional_derivative(tuple(d))
        elif op == "jaccomp":
            extra["ij"] = [k % 3 + 1, (k // 3) % 3 + 1]
            res = a.jacobian_component((k % 3, (k // 3) % 3))
        elif op == "jacobian":
            extra["dim"] = k % 3 + 1
            res = a.jacobian(k % 3 + 1)
        elif op == "grad":
            extra["dim"] = k % 3 + 1
            res = a.grad(k % 3 + 1)
        elif op == "divg":
            res = a.div()
        elif op == "curl":
            res = a.curl()
        elif op == "norm":
            res = a.norm()
        elif op == "detnorm":
            if len(sa[0]) != 2 or sa[0] != [3, 2]:
                return None
            res = a.det()
        elif op == "integral":
            if not poly:
                return None
            ref, cell, verts = domain(rng)
            ctx = (cell, verts)
            if any(c.has(v) for c in sa[1] for v in x[len(verts[0]):]):
                return None
            form = rng.randrange(5)
            if form == 0:
                u = sympy.symbols("u0 u1 u2")
                res = a.integral(ref, x, u)
            elif form == 1:
                res = a.integral(ref, dummy_vars=x)
            elif form == 2:
                res = a.subs(x, t).integral(ref, t, x)
            elif form == 3:
                res = a.integral(ref, list(x))
            else:
                res = a.integral(ref)
        elif op == "integrate":
            if not poly or sa[0]:
                return None
            vs = rng.sample(range(3), rng.choice((1, 1, 2)))
            lims = []
            for i, v in enumerate(vs):
                rest = [x[w] for w in range(3) if w not in vs[:i + 1]]
                lo, hi = gen.num(rng), gen.num(rng)
                if rest and rng.random() < .5:
                    hi = hi + gen.num(rng) * rng.choice(rest)
                lims.append((v, lo, hi))
            extra["lims"] = lims
            f = a.get_function() if hasattr(a, "get_function") else a
            res = f.integrate(*[(x[v], lo, hi) for v, lo, hi in lims])
        t_ = "value"
    except Exception:  # noqa: BLE001
        res, t_ = None, "refused"
    if t_ == "value":
        v = fmachine.value(res)
        if any(i.has(*fmachine.SINGULAR) for i in v[1]) or sum(len(str(i)) for i in v[1]) > 8000:
            return None
        if op == "integral" and not v[1][0].is_number:
            t_ = "not a number"
    if op in ("norm", "detnorm") and t_ == "value":
        qs, sq = [], []
        for _ in range(3):
            q = [gen.num(rng) for _ in range(3)]
            w = v[1][0].subs(dict(zip(x, q)))
            if w.has(*fmachine.SINGULAR) or not w.is_number:
                continue
            s = sympy.simplify(w ** 2)
            if not s.is_Rational:
                s = sympy.nsimplify(s)
            qs.append(q)
            sq.append((s, 1 if sympy.N(w) >= 0 and abs(sympy.im(sympy.N(w))) < 1e-12 else -1))

    def build(P):
        pts = [[rng.randrange(P.p) for _ in range(3)] for _ in range(2)]
        o = {"p": P.p, "op": op, "ka": ka, "a": fmachine.plain(P, sa), "t": t_, "pts": pts,
             "dir": P.point(extra.get("dir", [])), "ij": extra.get("ij", []), "dim": extra.get("dim", 0),
             "r": {"sh": [], "c": []}, "qs": [], "sq": [], "sg": [], "lims": [], "cell": "", "verts": [], "jac": 0}
        if op in ("norm", "detnorm"):
            if t_ == "value":
                o["qs"] = [P.point(q) for q in qs]
                o["sq"] = [P.num(s) for s, _ in sq]
                o["sg"] = [s for _, s in sq]
        elif t_ == "value":
            o["r"] = fmachine.plain(P, v)
        if op == "integrate":
            o["lims"] = [[i + 1, P.scalar(lo), P.scalar(hi)] for i, lo, hi in extra["lims"]]
        if ctx:
            o["cell"], o["verts"] = ctx[0], [P.point(w) for w in ctx[1]]
            o["jac"] = P.num(proj.measure(*ctx))
        for f in (o["a"], o["r"]):
            for c in f["c"]:
                for q in c:
                    if any(e > 22 for m in q for e in m[1:]):
                        raise gf.NotRepresentable("degree above the table size")
        return o
    try:
        if ctx:
            return proj.with_projector(rng, build, cell=ctx[0], verts=ctx[1])
        return proj.with_projector(rng, build)
    except gf.NotRepresentable:
        return None
