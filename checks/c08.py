"""C08: the reference cells are consistent polytopes."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
import common  # noqa: E402
import gen  # noqa: E402
import geo  # noqa: E402
import proj  # noqa: E402
from proj import DEFAULT, DIM  # noqa: E402


def ints(vs):
    return [[int(c) for c in v] for v in vs]


def attempt(fn, exc):
    try:
        return fn()
    except exc:
        return None


def yes(fn, exc=(NotImplementedError,)):
    try:
        return "yes" if bool(fn()) else "no"
    except exc:
        return "refused"


def topology(cell):
    import symfem
    r = symfem.create_reference(cell)
    td = r.tdim

    def types(d):
        t = r.sub_entity_types[d]
        n = r.sub_entity_count(d)
        return [t] * n if isinstance(t, str) else list(t or [])
    o = {"k": "topo", "cell": cell, "tdim": td, "gdim": r.gdim, "name": r.name,
         "subs": [[list(s) for s in r.sub_entities(d)] for d in range(4)],
         "cosubs": [[list(s) for s in r.sub_entities(codim=d)] for d in range(td + 1)],
         "counts": [r.sub_entity_count(d) for d in range(4)],
         "cocounts": [r.sub_entity_count(codim=d) for d in range(td + 1)],
         "types": [types(d) for d in range(td + 1)],
         "refverts": ints(r.reference_vertices), "defverts": ints(r.default_reference().vertices),
         "z": [[list(e) for e in g] for g in r.z_ordered_entities()],
         "zx": [[list(e) for e in g] for g in r.z_ordered_entities_extra_dim()],
         "cw": [list(r.vertices).index(v) for v in r.clockwise_vertices]}
    return [(f"topology of {cell}", o)]


def subs(cell, verts):
    import symfem
    r = symfem.create_reference(cell, vertices=verts)
    own = tuple(tuple(v) for v in verts)
    out = []
    for d in range(r.tdim + 1):
        for n in range(len(proj.sub_entities(cell, d))):
            for refv in (False, True):
                s = r.sub_entity(d, n, reference_vertices=refv)
                vs = DEFAULT[cell] if refv else own

                def build(P, s=s, vs=vs, d=d, n=n):
                    num = lambda v: P.point(proj._S(v))  # noqa: E731
                    return {"k": "sub", "p": P.p, "cell": cell, "d": d, "n": n, "type": s.name,
                            "verts": [num(v) for v in vs], "sverts": [num(v) for v in s.vertices]}
                out.append((f"{cell} sub-entity {d},{n} {'reference ' if refv else ''}of {own}",
                            proj.with_projector(common.rng("C08s", cell, d, n), build)))
    return out


def geometry(cell, verts, via):
    """via = None: the cell itself; else (parent cell, parent vertices, d, n): a sub-entity."""
    import symfem
    if via:
        r = symfem.create_reference(via[0], vertices=via[1]).sub_entity(via[2], via[3])
    else:
        r = symfem.create_reference(cell, vertices=verts)
    td, gd = DIM[cell], len(verts[0])
    jac = r.jacobian() if td else 1
    normal = attempt(r.normal, RuntimeError)
    tangent = attempt(r.tangent, RuntimeError)
    sax = [tuple(a) for a in r.scaled_axes()]

    def build(P):
        num = lambda v: P.point(proj._S(v))  # noqa: E731
        return {"k": "geom", "p": P.p, "cell": cell, "verts": [num(v) for v in verts],
                "origin": num(r.origin), "axes": [num(a) for a in r.axes],
                "jac": P.num(jac), "jpos": bool(jac > 0), "vol": P.num(r.volume()),
                "mid": num(r.midpoint()), "normal": num(normal) if normal is not None else [],
                "tangent": num(tangent) if tangent is not None else [],
                "saxes": [num(a) for a in sax],
                "spos": [bool(sum(u * w for u, w in zip(a, b)) > 0) for a, b in zip(sax, r.axes)]}
    o = proj.with_projector(common.rng("C08g", cell, verts, via), build, tries=2000)
    del gd
    return [(f"measures of {cell} {verts}" + (f" in {via[0]}" if via else ""), o)]


def limits(cell, verts, k):
    import symfem
    from symfem.symbols import t, x, AxisVariables
    import sympy
    rng = common.rng("C08l", cell, verts, k)
    r = symfem.create_reference(cell, vertices=verts)
    td = DIM[cell]
    own = sympy.symbols("alpha beta gamma")
    which = rng.randrange(3)
    if which == 0:
        vs, lims = t, r.integration_limits()
    elif which == 1:
        vs, lims = x, r.integration_limits(x)
    else:
        vs, lims = own, r.integration_limits(own)
    del AxisVariables
    names = list(vs)
    f = 1 if k == 0 else gen.poly(rng, td, rng.choice([1, 2, 3]), 4)

    def build(P):
        from gf import Projector
        Q = Projector(P.p, names)
        X = Projector(P.p, list(x))
        return {"k": "limits", "p": P.p, "cell": cell, "f": X.scalar(f)[0],
                "lims": [[names.index(li[0]) + 1, Q.scalar(li[1])[0], Q.scalar(li[2])[0]] for li in lims]}
    return [(f"limits of {cell} {verts} in variables {which} of {f}", proj.with_projector(rng, build))]


def member(cell, verts, k):
    import symfem
    import sympy
    rng = common.rng("C08m", cell, verts, k)
    r = symfem.create_reference(cell, vertices=verts)
    td = DIM[cell]
    default = verts == DEFAULT[cell]
    den = rng.choice([1, 2, 3, 4, 6])
    v = [proj._S(w) for w in verts]
    ax = [[b - a for a, b in zip(v[0], v[i])] for i in proj.AXIS[cell]]
    out = []
    for _ in range(10):
        style = rng.randrange(5)
        if style == 0:      # on an edge line, possibly beyond the edge
            e = rng.choice(proj.EDGES[cell])
            s = rng.randrange(-1, den + 2)
            a, b = DEFAULT[cell][e[0]], DEFAULT[cell][e[1]]
            t = [den * p + s * (q - p) for p, q in zip(a, b)]
        elif style == 1 and td > 1:    # in a face plane, possibly outside the face
            f = rng.choice(proj.FACES[cell])
            a, b, c = (DEFAULT[cell][i] for i in f[:3])
            s, w = rng.randrange(-1, den + 2), rng.randrange(-1, den + 2)
            t = [den * p + s * (q - p) + w * (u - p) for p, q, u in zip(a, b, c)]
        elif style == 2:
            t = [den * p for p in rng.choice(DEFAULT[cell])]
        else:
            t = [rng.randrange(-1, den + 2) for _ in range(td)]
        pt = tuple(v[0][g] + sum(sympy.Rational(tk, den) * a[g] for tk, a in zip(t, ax)) for g in range(len(v[0])))

        def build(P):
            num = lambda w: P.point(proj._S(w))  # noqa: E731
            return {"k": "member", "p": P.p, "cell": cell, "verts": [num(w) for w in verts], "t": t, "den": den,
                    "pt": num(pt), "def": default,
                    "contains": yes(lambda: r.contains(pt)), "vertex": yes(lambda: r.at_vertex(pt)),
                    "edge": yes(lambda: r.on_edge(pt)) if len(pt) > 1 else "refused",
                    "face": yes(lambda: r.on_face(pt)) if td > 1 and (td == len(pt)) else "refused"}
        out.append((f"{cell} {verts} membership of {t}/{den}", proj.with_projector(rng, build)))
    return out


def predicates(cell, k):
    from symfem import geometry as G
    import sympy
    rng = common.rng("C08p", cell, k)
    fn = {"interval": G.point_in_interval, "triangle": G.point_in_triangle,
          "quadrilateral": G.point_in_quadrilateral, "tetrahedron": G.point_in_tetrahedron}[cell]
    td = DIM[cell]
    out = []
    for m in range(12):
        vs = geo.affine_cell(cell, rng, td, frac=False)
        if cell == "quadrilateral" and rng.random() < 0.5:
            w = geo.convex_quad(rng)
            vs = w
        style = rng.random()
        if style < 0.25:
            q = rng.choice(vs)
        elif style < 0.6:      # on the line of a side or the plane of a face, in or out
            i, j = rng.sample(range(len(vs)), 2)
            s = rng.choice([-1, 1, 2])
            vs = tuple(tuple(2 * c for c in v) for v in vs)
            q = tuple(a + (b - a) // 2 * s for a, b in zip(vs[i], vs[j]))
        else:
            q = tuple(rng.randrange(-4, 6) for _ in range(td))
        kinds = [("exact", lambda c: sympy.Integer(c)), ("float", lambda c: sympy.Float(float(c)))]
        for nm, cv in kinds:
            a = bool(fn(tuple(cv(c) for c in q), tuple(tuple(sympy.Integer(c) for c in v) for v in vs)))
            out.append((f"point_in_{cell} {nm} {q} {vs}",
                        {"k": "pred", "cell": cell, "v": ints(vs), "q": [int(c) for c in q], "ans": a}))
    return out


def lattice(cell, verts, n, lines):
    import symfem
    import sympy
    rng = common.rng("C08t", cell, verts, n, lines)
    r = symfem.create_reference(cell, vertices=verts)
    pairs = []
    if lines:
        pts, pairs = r.make_lattice_with_lines(n)
        fl, fp = r.make_lattice_with_lines_float(n)
        same = list(map(tuple, fp)) == list(map(tuple, pairs))
    else:
        pts = r.make_lattice(n)
        fl = r.make_lattice_float(n)
        same = True
    same = same and len(fl) == len(pts) and all(
        abs(float(a) - float(b)) < 1e-9 for p, q in zip(pts, fl) for a, b in zip(p, q))
    v = [proj._S(w) for w in verts]
    ax = [[b - a for a, b in zip(v[0], v[i])] for i in proj.AXIS[cell]]
    A = sympy.Matrix(ax).T
    ts = []
    for p in pts:
        rhs = sympy.Matrix([c - a for a, c in zip(v[0], p)])
        s = (A.T * A).inv() * A.T * rhs
        ts.append([sympy.Rational(c) for c in s])
    den = 1
    for t in ts:
        for c in t:
            den = sympy.ilcm(den, c.q)
    ti = [[int(c * den) for c in t] for t in ts]

    def build(P):
        num = lambda w: P.point(proj._S(w))  # noqa: E731
        return {"k": "lattice", "p": P.p, "cell": cell, "verts": [num(w) for w in verts], "n": n, "lines": lines,
                "pts": [num(p) for p in pts], "ts": ti, "den": int(den), "pairs": [list(p) for p in pairs],
                "floats": same}
    return [(f"lattice of {cell} {verts} n={n} lines={lines}", proj.with_projector(rng, build))]


def inter(c1, c2, k):
    import symfem
    rng = common.rng("C08i", c1, c2, k)
    out = []
    for m in range(8):
        vs = []
        for i, c in enumerate((c1, c2)):
            r = rng.random()
            if r < 0.35 and (i == 0 or m % 2):
                vs.append(DEFAULT[c])
            elif i == 1 and r < 0.65 and DIM[c] == DIM[c1]:   # a small cell near or inside the first
                b = geo.affine_cell(c, rng, DIM[c], frac=False)
                s = rng.randrange(4, 9)
                v0 = [tuple(s * x for x in v) for v in vs[0]]
                o = [sum(v[g] for v in v0) // len(v0) for g in range(DIM[c])]
                vs[0] = tuple(v0)
                vs.append(tuple(tuple(x + y for x, y in zip(v, o)) for v in b))
            else:
                w = geo.affine_cell(c, rng, DIM[c], frac=False)
                if i == 1 and rng.random() < 0.5:      # share an edge or vertex, or move away
                    d = tuple(a - b for a, b in zip(vs[0][rng.randrange(len(vs[0]))], w[rng.randrange(len(w))]))
                    w = tuple(tuple(a + b for a, b in zip(v, d)) for v in w)
                vs.append(w)
        a = symfem.create_reference(c1, vertices=vs[0])
        b = symfem.create_reference(c2, vertices=vs[1])
        try:
            q = a.intersection(b)
            ans = "none" if q is None else ("first" if q is a or q == a else "second" if q is b or q == b else "other")
        except NotImplementedError:
            ans = "refused"
        out.append((f"intersection of {c1} {vs[0]} and {c2} {vs[1]}",
                    {"k": "inter", "c1": c1, "c2": c2, "v1": ints(vs[0]), "v2": ints(vs[1]), "ans": ans}))
    return out


def dual(n):
    import symfem
    import sympy
    name = f"dual polygon({n})"
    r = symfem.create_reference(name)
    S = sympy.nsimplify
    del S
    cv = ((1, 2),) + tuple((3 + i, i * i) for i in range(2 * n))
    c = symfem.create_reference(name, vertices=cv)
    custom = ints(c.vertices) == [list(v) for v in cv[1:]] and [int(i) for i in c.origin] == [1, 2] \
        and c != r and r == symfem.create_reference(name) \
        and ints(c.sub_entity(1, 0).vertices) == [list(cv[1]), list(cv[2])]
    latn = 4
    lat = [tuple(p) for p in r.make_lattice(latn)]
    vs = [tuple(v) for v in r.vertices]
    exp = []
    for i in range(2 * n):
        for p in symfem.create_reference("triangle").make_lattice(latn // 2):
            a, b = vs[i], vs[(i + 1) % (2 * n)]
            exp.append(tuple(p[0] * a[g] + p[1] * b[g] for g in range(2)))

    def build(P):
        num = lambda w: P.point([sympy.expand(sympy.sympify(c)) for c in w])  # noqa: E731
        return {"k": "dual", "p": P.p, "n": n, "verts": [num(v) for v in vs], "origin": num(r.origin),
                "edges": [list(e) for e in r.edges], "faces": [list(f) for f in r.faces],
                "counts": [r.sub_entity_count(d) for d in range(4)],
                "types": list(r.sub_entity_types[:3]),
                "everts": [[num(v) for v in r.sub_entity(1, i).vertices] for i in range(2 * n)],
                "custom": bool(custom), "lat": [num(p) for p in lat], "latexp": [num(p) for p in exp]}
    return [(name, proj.with_projector(common.rng("C08d", n), build))]


def run():
    T = common.THOROUGH
    rng = common.rng("C08")
    tasks = []
    for cell in DEFAULT:
        td = DIM[cell]
        tasks.append((f"topology {cell}", topology, (cell,)))
        sets = [DEFAULT[cell]] if td else []
        for gd in range(max(td, 1), 4):
            sets += [geo.affine_cell(cell, rng, gd) for _ in range(40 if T else 6)]
        for i, v in enumerate(sets):
            tasks.append((f"subs {cell} {v}", subs, (cell, v)))
            tasks.append((f"geometry {cell} {v}", geometry, (cell, v, None)))
            if td:
                for k in range(3):
                    tasks.append((f"limits {cell} {v}", limits, (cell, v, k)))
                for k in range(6 if T else 2):
                    tasks.append((f"member {cell} {v}", member, (cell, v, k)))
            if td > 1 and i < (12 if T else 3):
                for d in range(1, td):
                    for n, s in enumerate(proj.sub_entities(cell, d)):
                        tasks.append((f"geometry {cell} {v} {d} {n}", geometry,
                                      (proj.sub_type(cell, d, n), tuple(v[j] for j in s), (cell, v, d, n))))
            full = v == DEFAULT[cell]
            if cell in ("interval", "triangle", "quadrilateral", "tetrahedron") and i < 8 and len(v[0]) == td \
                    or full and cell in ("hexahedron", "prism"):
                for n in range(2 if cell in ("triangle", "tetrahedron", "interval") else 1, 6 if td < 3 else 4):
                    tasks.append((f"lattice {cell} {v} {n}", lattice, (cell, v, n, False)))
            if cell in ("interval", "triangle", "quadrilateral") and i < 8 and len(v[0]) == td:
                for n in range(2, 6):
                    tasks.append((f"lattice lines {cell} {v} {n}", lattice, (cell, v, n, True)))
    for cell in ("interval", "triangle", "quadrilateral", "tetrahedron"):
        for k in range(20 if T else 4):
            tasks.append((f"point in {cell}", predicates, (cell, k)))
    for c1 in ("triangle", "quadrilateral"):
        for c2 in ("triangle", "quadrilateral"):
            for k in range(20 if T else 4):
                tasks.append((f"intersection {c1} {c2}", inter, (c1, c2, k)))
    for k in range(20 if T else 4):
        tasks.append(("intersection tetrahedra", inter, ("tetrahedron", "tetrahedron", k)))
    for n in (3, 4, 6):
        tasks.append((f"dual polygon {n}", dual, (n,)))
    return common.drive(
        "C08", "model_checking",
        "one observation per table, sub-entity, measured cell, set of limits, point tested, lattice or "
        "pair of cells; each is judged by the incidence tables and integer/finite-field geometry of the specification",
        "C08_Cells", tasks, lanes=8)


if __name__ == "__main__":
    common.main(run)
