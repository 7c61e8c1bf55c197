"""Runs programs of the function machine with piecewise functions (PIECES > 0) and records them."""
import sympy

import common
import fmachine
import gen
import geo
import gf
import proj

DOMS = {1: ["interval"], 2: ["triangle", "quadrilateral"], 3: ["tetrahedron"]}
CALC = {"diff", "ddir", "jaccomp", "jacobian", "grad", "divg", "curl", "norm", "integral"}


def mid(*vs):
    return tuple(sum(c) / sympy.Integer(len(vs)) for c in zip(*vs))


def subdivision(cell, v, k):
    """Pieces that tile the cell."""
    if cell == "interval":
        a, b = v
        m, q = mid(a, b), mid(a, mid(a, b))
        return [[[a, b]], [[a, m], [m, b]], [[a, q], [q, m], [m, b]], [[a, q], [q, b]], [[m, b], [a, m]]][k]
    if cell == "triangle":
        a, b, c = v
        m, n, o, z = mid(b, c), mid(a, c), mid(a, b), mid(a, b, c)
        return [[[a, b, c]], [[a, b, m], [a, m, c]], [[a, b, z], [b, c, z], [c, a, z]],
                [[a, o, n, z], [b, m, o, z], [c, n, m, z]],
                [[a, o, n], [o, b, m], [n, m, c], [o, m, n]]][k]
    if cell == "quadrilateral":
        a, b, c, d = v
        m, n, z = mid(a, b), mid(c, d), mid(a, b, c, d)
        return [[[a, b, c, d]], [[a, m, c, n], [m, b, n, d]], [[a, b, c], [b, d, c]],
                [[a, b, z], [b, d, z], [d, c, z], [c, a, z]], [[a, m, c, n], [m, b, n], [b, d, n]]][k]
    a, b, c, d = v
    m, z = mid(a, b), mid(a, b, c, d)
    return [[[a, b, c, d]], [[a, m, c, d], [m, b, c, d]],
            [[z, b, c, d], [a, z, c, d], [a, b, z, d], [a, b, c, z]],
            [[a, m, c, d], [m, b, c, d]], [[a, mid(c, d), b, c], [a, b, mid(c, d), d]]][k]


QPERM = [(0, 1, 2, 3), (0, 2, 1, 3), (1, 0, 3, 2), (3, 1, 2, 0), (2, 0, 3, 1)]


def reorder(pieces, how, cell, rng):
    """1: as given, 2: reversed, 3: rotated, 4: other vertex orders, 5: one piece missing, 6: as given"""
    pieces = [tuple(p) for p in pieces]
    if how == 2:
        return pieces[::-1]
    if how == 3:
        return pieces[1:] + pieces[:1]
    if how == 4:
        out = []
        for p in pieces:
            if len(p) == 4 and cell in ("triangle", "quadrilateral"):
                q = rng.choice(QPERM)
                out.append(tuple(p[i] for i in q))
            else:
                out.append(tuple(rng.sample(p, len(p))))
        return out
    if how == 5 and len(pieces) > 1:
        return pieces[:-1] if rng.random() < .7 else pieces[1:]
    return pieces


def expand(f):
    return sympy.expand(f)


def component(rng, tdim, scalar):
    nv = tdim if rng.random() < .8 else 3
    return gen.poly(rng, nv, 2 if scalar else 1, rng.choice((1, 2)))


def make_pieces(entry, dom, rng):
    from symfem.functions import MatrixFunction, ScalarFunction, VectorFunction
    from symfem.piecewise_functions import PiecewiseFunction
    cell, verts = dom
    tdim = proj.DIM[cell]
    sub, how = entry["arg"]
    if rng.random() < .5:
        sub = 3                   # most operands use the same subdivision
    if rng.random() < .4:
        how = 1
    s = entry["s"]
    d = {}
    same = rng.random() < .1
    for k, p in enumerate(reorder(subdivision(cell, verts, sub - 1), how, cell, rng)):
        if not (same and k):
            if not s:
                c = component(rng, tdim, True)
                f = c if rng.random() < .5 else ScalarFunction(c)
            elif len(s) == 1:
                c = [component(rng, tdim, False) for _ in range(s[0])]
                f = tuple(c) if rng.random() < .5 else VectorFunction(c)
            else:
                c = [[0 if rng.random() < .2 else component(rng, tdim, False) for _ in range(s[1])] for _ in range(s[0])]
                f = sympy.Matrix(c) if rng.random() < .5 else MatrixFunction(c)
        d[p] = f
    return PiecewiseFunction(d, tdim)


def is_pw(o):
    from symfem.piecewise_functions import PiecewiseFunction
    return isinstance(o, PiecewiseFunction)


def value(o):
    """[(vertices or None, shape, components)]"""
    if is_pw(o):
        return [(tuple(tuple(sympy.sympify(c) for c in v) for v in vs), *fmachine.value(f)) for vs, f in o.pieces.items()]
    return [(None, *fmachine.value(o))]


def digest(o):
    return [(k, sh, [sympy.srepr(i) for i in c]) for k, sh, c in value(o)]


def kind(o):
    return "P" if is_pw(o) else fmachine.kind(o)


def fits(v):
    return all(sum(len(str(i)) for i in c) < 5000 for _, _, c in v)


def singular(v):
    return any(i.has(*fmachine.SINGULAR) for _, _, c in v for i in c)


def sample(cell, verts, n, rng, boundary=False):
    """Points of a cell with small denominators."""
    out = []
    td = proj.DIM[cell]
    ax = [[b - a for a, b in zip(verts[0], verts[i])] for i in proj.AXIS[cell]]
    den = 4 if boundary else 7
    while len(out) < n:
        t = [sympy.Rational(rng.randrange(0 if boundary else 1, den + (1 if boundary else 0)), den) for _ in range(td)]
        if cell in ("triangle", "tetrahedron") and (sum(t) > 1 or (not boundary and sum(t) == 1)):
            continue
        out.append(tuple(a + sum(s * x[i] for s, x in zip(t, ax)) for i, a in enumerate(verts[0])))
    return out


def substitution(form, dom, rng):
    """(arguments for subs, indices of variables, expressions, is it a full point)"""
    cell, verts = dom
    td = proj.DIM[cell]
    x = fmachine.xs()
    if form in (2, 3, 4):
        if form == 4:
            pt = sample(cell, geo.affine_cell(cell, rng, td, frac=False), 1, rng)[0]      # often outside
        else:
            pt = sample(cell, verts, 1, rng, boundary=form == 3)[0]
        order = list(range(td))
        if rng.random() < .3:
            rng.shuffle(order)
        vals = tuple(pt[i] for i in order)
        return (tuple(x[i] for i in order) if rng.random() < .8 or order != sorted(order) or td != 3 else x, vals), order, list(vals), True
    if form == 1:
        k, v = rng.randrange(3), gen.num(rng)
        return (x[k], v), [k], [v], False
    lin = lambda: gen.num(rng) + sum(gen.num(rng) * v for v in rng.sample(list(x), 2))  # noqa: E731
    n = rng.choice((td, 3))
    v = [lin() + (1 if i else x[0]) for i in range(n)]
    if all(sympy.sympify(i).is_number for i in v):
        v[0] = v[0] + x[1]
    return (x[:n], tuple(v)), list(range(n)), v, False


def facet_domain(dom, rng):
    cell, verts = dom
    d = proj.DIM[cell] - 1
    n = rng.randrange(len(proj.sub_entities(cell, d)))
    return proj.sub_type(cell, d, n), [verts[i] for i in proj.sub_entities(cell, d)[n]]


def run(prog, key, pieces):
    rng = common.rng("pwmachine", pieces, key)
    cell = rng.choice(DOMS[pieces])
    while True:
        verts = geo.affine_cell(cell, rng, pieces, frac=False)
        if max(abs(c) for v in verts for c in v) < 12:
            break
    dom = (cell, verts)
    regs, marks, out = [], [], []
    for n, st in enumerate(prog):
        op = st["op"]
        if op == "new":
            regs.append(make_pieces(st, dom, rng) if st["k"] == "P" else fmachine.make(st, rng))
            marks.append(digest(regs[-1]))
            continue
        a = regs[st["i"] - 1]
        b = regs[st["j"] - 1]
        if a is None or b is None:
            if st["adds"]:
                regs.append(None)
                marks.append(None)
            continue
        if op in fmachine.BIN or is_pw(a):
            rec, res = operate(op, a, b, st["arg"], dom, rng)
        else:
            rec, res = None, None
        changed = [i + 1 for i, (r, m) in enumerate(zip(regs, marks)) if r is not None and digest(r) != m]
        if rec is not None:
            rec["changed"] = changed
            lab = f"{op} {kind(a)}" + (f" {kind(b)}" if op in fmachine.BIN else "")
            out.append((f"{lab} on {cell}: program {key} step {n + 1}", rec))
        for i in changed:
            marks[i - 1] = digest(regs[i - 1])
        if st["adds"]:
            ok = res is not None and fits(value(res)) and not singular(value(res)) and all(0 not in sh for _, sh, _ in value(res))
            if ok and not fmachine.is_fun(res):
                res = fmachine.wrap(res)
            regs.append(res if ok else None)
            marks.append(digest(res) if ok else None)
    return out


def operate(op, a, b, arg, dom, rng):
    import symfem
    from symfem.piecewise_functions import PiecewiseFunction
    from symfem.symbols import t, x
    cell, verts = dom
    td = proj.DIM[cell]
    extra = {"sub": ([], []), "full": 0, "dir": [], "ij": [], "dim": 0, "D": None, "F": None}
    t_ = "value"
    qs = sample(cell, verts, 3, rng)
    k = arg[0] if arg else 0
    if op in ("norm", "integral") and any(not sympy.sympify(c).is_polynomial(*x) for _, _, cs in value(a) for c in cs):
        return None, None
    try:
        if op == "eq":
            if is_pw(a) and rng.random() < .6:
                d = {}
                for (vs, f), cs in zip(a.pieces.items(), value(a)):
                    d[vs] = sympy.expand(cs[2][0]) if f.is_scalar else tuple(sympy.expand(c) for c in cs[2]) if f.is_vector else f
                if rng.random() < .5:
                    vs = rng.choice(list(d))
                    d[vs] = d[vs] + x[0] if not isinstance(d[vs], tuple) else tuple(c + 1 for c in d[vs])
                d = {vs: d[vs] for vs in (list(d)[::-1] if rng.random() < .3 else d)}
                if len(d) > 1 and rng.random() < .2:
                    del d[list(d)[-1]]
                b = PiecewiseFunction(d, td)
            res = a == b
            ne = a != b
            t_ = "bool"
        elif op in fmachine.BIN:
            res = fmachine.BIN[op](a, b)
        elif op == "neg":
            res = -a
        elif op == "pow":
            res = a ** rng.choice((arg[0], sympy.Integer(arg[0])))
        elif op == "powp":
            res = a ** PiecewiseFunction({v: e for v, e in zip(a.pieces, (list(arg) * len(a.pieces)))}, td)
        elif op == "item":
            res = a[arg[0]]
        elif op == "item2":
            res = a[arg[0], arg[1]]
        elif op == "slice":
            res = a[arg[0]:arg[1]]
        elif op == "len":
            res = len(a)
            t_ = "number"
        elif op == "shape":
            res = a.shape
            t_ = "shape"
        elif op == "transpose":
            res = a.transpose()
        elif op == "det":
            res = a.det()
        elif op == "subs":
            args, vs, es, extra["full"] = substitution(arg[0], dom, rng)
            extra["sub"] = (vs, es)
            res = a.subs(*args)
        elif op == "piece":
            if arg[0] >= 5:
                qs = sample(cell, geo.affine_cell(cell, rng, td, frac=False), 1, rng)
            else:
                qs = sample(cell, verts, 1, rng, boundary=arg[0] >= 3)
            q = qs[0] if rng.random() < .5 or td == 3 else (*qs[0], sympy.Integer(rng.randrange(-2, 3)))
            res = a.get_piece(q)
        elif op == "mapped":
            while True:
                m = [[rng.randrange(-2, 3) for _ in range(td)] for _ in range(td)]
                if sympy.Matrix(m).det() != 0:
                    break
            o = [rng.randrange(-3, 4) for _ in range(td)]
            extra["F"] = (m, o)
            res = PiecewiseFunction(dict(a.pieces), a.tdim)
            res.map_pieces(tuple(o[i] + sum(m[i][j] * x[j] for j in range(td)) for i in range(td)))
        elif op == "diff":
            extra["dir"] = [int(i == k % 3) for i in range(3)]
            res = a.diff(x[k % 3])
        elif op == "ddir":
            d = [gen.num(rng) for _ in range(rng.randrange(1, 4))]
            extra["dir"] = d + [0] * (3 - len(d))
            res = a.directional_derivative(tuple(d))
        elif op == "jaccomp":
            extra["ij"] = [k % 3 + 1, (k // 3) % 3 + 1]
            res = a.jacobian_component((k % 3, (k // 3) % 3))
        elif op in ("jacobian", "grad"):
            extra["dim"] = k % 3 + 1
            res = getattr(a, op)(k % 3 + 1)
        elif op == "divg":
            res = a.div()
        elif op == "curl":
            res = a.curl()
        elif op == "norm":
            n = a.norm()
            res = PiecewiseFunction({v: f.as_sympy() ** 2 for v, f in n.pieces.items()}, td)
        elif op == "integral":
            if any(sympy.sympify(c).has(v) for _, _, cs in value(a) for c in cs for v in x[td:]):
                return None, None
            dc, dv = cell, list(verts)
            if k in (3, 4):
                p = rng.choice([v[0] for v in value(a)])
                dc, dv = proj.simplex_name(len(p), td), list(p)
            elif k == 5:
                dc, dv = facet_domain(dom, rng)
            elif k == 6:
                s = [rng.choice((8, -9, 20))] + [rng.randrange(-3, 4) for _ in range(td - 1)]
                dv = [tuple(c + e for c, e in zip(v, s)) for v in verts]
            elif k == 7:
                # a cell on the other side of a facet
                if cell in ("triangle", "tetrahedron", "interval"):
                    dv = [tuple(2 * c - e for c, e in zip(verts[1], verts[0]))] + list(verts[1:]) if td == 1 else \
                        [tuple(verts[1][i] + verts[2][i] - verts[0][i] for i in range(td))] + list(verts[1:])
                else:
                    dv = [tuple(2 * c - e for c, e in zip(v, w)) for v, w in zip((verts[1], verts[1], verts[3], verts[3]),
                                                                              (verts[1], verts[0], verts[3], verts[2]))]
            elif k == 8 and cell != "quadrilateral":
                dv = rng.sample(dv, len(dv))
            extra["D"] = (dc, dv)
            ref = symfem.create_reference(dc, tuple(tuple(v) for v in dv))
            form = rng.randrange(4)
            if form == 0:
                res = a.integral(ref, x, sympy.symbols("u0 u1 u2"))
            elif form == 1:
                res = a.integral(ref, dummy_vars=x)
            elif form == 2:
                res = a.subs(x, t).integral(ref, t, x)
            else:
                res = a.integral(ref)
        else:
            return None, None
    except Exception as ex:  # noqa: BLE001
        res, t_ = None, "refused"
        import os
        if os.environ.get("VERIF_TRACE"):
            import traceback
            extra["trace"] = traceback.format_exc()[-1500:]
    va, vb = value(a), value(b)
    if t_ == "value" and is_pw(res) and any(is_pw(f) for f in res.pieces.values()):
        res, t_ = None, "nested"
    vr = value(res) if t_ == "value" else []
    if t_ == "value" and singular(vr):
        t_, vr = "singular", []
    if not (fits(va) and fits(vb) and fits(vr)):
        return None, (res if t_ == "value" else None)
    dom_i = extra["D"]
    # common denominator of all coordinates
    coords = [c for v in (va, vb, vr) for vs, _, _ in v for w in (vs or ()) for c in w] + [c for q in qs for c in q]
    if dom_i:
        coords += [sympy.sympify(c) for w in dom_i[1] for c in w]
    spt = None
    if extra["full"]:
        spt = [None] * td
        for i, e in zip(*extra["sub"]):
            spt[i] = e
        coords += spt
    den = int(sympy.ilcm(1, *[sympy.Rational(c).q for c in coords]))
    bound = max(abs(int(c * den)) for c in coords)
    if bound > (400 if td == 3 else 8000):
        return None, (res if t_ == "value" else None)

    def ints(pt):
        return [int(sympy.sympify(c) * den) for c in pt]

    def build(P):
        def pw(v):
            out = []
            for vs, sh, c in v:
                q = {"sh": sh, "c": [P.scalar(i) for i in c]}
                for cc in q["c"]:
                    for mm in cc:
                        if any(e > 22 for m in mm for e in m[1:]):
                            raise gf.NotRepresentable("degree above the table size")
                if vs is None:
                    out.append({"cell": "", "iv": [], "v": [], "jac": 0, "f": q})
                else:
                    c_ = proj.simplex_name(len(vs), td)
                    out.append({"cell": c_, "iv": [ints(w) for w in vs], "v": [P.point(w) for w in vs],
                                "jac": P.num(proj.measure(c_, vs)) if op == "integral" else 0, "f": q})
            return out
        o = {"p": P.p, "op": op, "arg": list(arg), "ka": kind(a), "kb": kind(b), "tdim": td, "t": t_,
             "a": pw(va), "b": pw(vb), "r": pw(vr), "den": den,
             "qs": [[ints(q), P.point(q[:td]) + [rng.randrange(P.p) for _ in range(3 - td)]] for q in qs],
             "sub": [[i + 1 for i in extra["sub"][0]], [P.scalar(e) for e in extra["sub"][1]]],
             "full": int(extra["full"]), "spt": ints(spt) if spt else [], "dir": P.point(extra["dir"]), "ij": extra["ij"],
             "dim": extra["dim"], "F": list(extra["F"]) if extra["F"] else [],
             "v": [int(bool(res)), int(bool(ne))] if t_ == "bool" else [res] if t_ == "number" else list(res) if t_ == "shape" else [],
             "dom": [], "gen": [rng.randrange(1, P.p) for _ in range(3)]}
        if dom_i:
            o["dom"] = [{"cell": dom_i[0], "iv": [ints(w) for w in dom_i[1]], "v": [P.point(w) for w in dom_i[1]],
                         "jac": P.num(proj.measure(*dom_i))}]
        if "trace" in extra:
            o["trace"] = extra["trace"]
        return o
    rads = None
    try:
        if dom_i and op == "integral":
            rec = with_measures(rng, build, [dom_i] + [(proj.simplex_name(len(vs), td), vs) for vs, _, _ in va])
        else:
            rec = proj.with_projector(rng, build)
    except gf.NotRepresentable:
        rec = None
    return rec, (res if t_ == "value" and op != "piece" else None)


def with_measures(rng, build, cells):
    dc, dv = cells[0]
    return proj.with_projector(rng, build, cell=dc, verts=dv)
