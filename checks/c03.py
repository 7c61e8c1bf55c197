"""C03: basis functions on neighbouring cells glue with the declared continuity."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
import common  # noqa: E402
import catalogue  # noqa: E402
import geo  # noqa: E402
import gf  # noqa: E402
import proj  # noqa: E402

MAXPOW = 24


def neighbour(cell, v1, dim, e1, e2, rng):
    """A random affine cell whose sub-entity e2 has the vertices of sub-entity e1 of v1."""
    import sympy
    td = proj.DIM[cell]
    ref = proj.DEFAULT[cell]
    s1 = proj.sub_entities(cell, dim)[e1]
    s2 = proj.sub_entities(cell, dim)[e2]
    tgt = [proj._S(v1[i]) for i in s1]
    st = proj.sub_type(cell, dim, e2)
    ax2 = [[b - a for a, b in zip(ref[s2[0]], ref[s2[i]])] for i in proj.AXIS[st]] if dim else []
    axt = [[b - a for a, b in zip(tgt[0], tgt[i])] for i in proj.AXIS[st]] if dim else []
    # complete the axes of the entity in the reference cell to a basis and choose images at random
    extra = []
    M = [list(a) for a in ax2]
    for k in range(td):
        u = [1 if i == k else 0 for i in range(td)]
        if sympy.Matrix(M + [u]).rank() == len(M) + 1:
            M.append(u)
            extra.append(u)
    while True:
        img = [list(a) for a in axt] + [[rng.randrange(-3, 4) for _ in range(td)] for _ in extra]
        if sympy.Matrix(img).det() == 0:
            continue
        J = (sympy.Matrix(M).inv() * sympy.Matrix(img))     # rows: images of the unit vectors
        o = sympy.Matrix([list(tgt[0])]) - sympy.Matrix([list(ref[s2[0]])]) * J
        out = []
        for r in ref:
            q = o + sympy.Matrix([list(r)]) * J
            out.append(tuple(q[0, i] for i in range(td)))
        if all(c.is_Integer for v in out for c in v):
            out = [tuple(int(c) for c in v) for v in out]
        return tuple(out)


def functions(el, verts, default):
    fs = el.get_basis_functions() if default else el.map_to_cell(verts)
    return [b.get_function() if hasattr(b, "get_function") else b for b in fs]


def observe(cell, name, order, kw, v1, pairs, suffix=""):
    """pairs: [(dim, e1, e2, v2)]; v1 None: the default cell."""
    import symfem
    rng = common.rng("C03", cell, name, order, sorted(kw.items()), v1, pairs)
    from symfem.finite_element import DirectElement
    el = symfem.create_element(cell, name, order, **kw)
    if isinstance(el, DirectElement):
        return []       # documented: cannot be mapped
    cont = el.continuity.replace("{order}", str(order))
    kk = 0
    if cont[0] == "C":
        cont, kk = "C", int(cont[1:])
    lab = catalogue.label(cell, name, order, kw) + suffix
    td = proj.DIM[cell]
    w1 = tuple(proj.DEFAULT[cell]) if v1 is None else v1
    if cont == "L2":
        return [(f"{lab} declared continuity", {"p": gf.PRIMES[0] if hasattr(gf, "PRIMES") else 2, "cell": cell, "fam": name,
                                                 "cont": cont, "kk": 0, "inner": order == 0})]
    f1 = functions(el, w1, v1 is None)
    table = [[list(el.entity_dofs(d, e)) for e in range(el.reference.sub_entity_count(d))] for d in range(td + 1)]
    out = []
    for dim, e1, e2, v2 in pairs:
        f2 = functions(el, v2, False)
        sv = [proj._S(w1[i]) for i in proj.sub_entities(cell, dim)[e1]]
        st = proj.sub_type(cell, dim, e1)
        import sympy
        pts = []
        for _ in range(1 if dim == 0 else 3):
            w = [sympy.Rational(rng.randrange(1, 30), 100) for _ in range(dim)]
            pts.append((w, tuple(sv[0][g] + sum(a * (sv[i][g] - sv[0][g]) for a, i in zip(w, proj.AXIS[st]))
                                 for g in range(td))))

        def build(P):
            a, b = proj.basis_matrix(P, f1, td), proj.basis_matrix(P, f2, td)
            for bm in (a, b):
                for pc in bm["pieces"]:
                    if any(max(e) > MAXPOW for m in pc["m"] for e in m):
                        raise gf.NotRepresentable("degree above the table size")
            xs = [{"t": P.point(w), "q1": pieces_at(a, f1[0], x), "q2": pieces_at(b, f2[0], x)} for w, x in pts]
            return {"p": P.p, "cell": cell, "fam": name, "verts": [[P.point(v) for v in w1], [P.point(v) for v in v2]],
                    "ed": dim, "e": [e1, e2], "cont": cont, "kk": kk, "n": el.space_dim, "table": table,
                    "fs": [a, b], "inner": order == 0 or kw.get("variant") == "legendre",
                    "on": repr((w1, v2)), "cs": [rng.randrange(1, P.p) for _ in range(el.space_dim)], "xs": xs}
        out.append((f"{lab} sharing {dim}-entities",
                    proj.with_projector(rng, build, **roots(f1))))
    return out


def roots(fs):
    return {}


def pieces_at(bm, f0, pt):
    vs = [k for k, _ in proj.sympy_pieces(f0)]
    return [q + 1 for q, (pc, v) in enumerate(zip(bm["pieces"], vs))
            if v is None or proj.in_piece(pc["cell"], v, pt)]


def select(thorough):
    if thorough:
        return catalogue.cases(thorough=True)
    out = catalogue.cases(budget=0, maxn=48)
    # several functions on every face
    out += [c for c in catalogue.data() if not c["kw"] and (c["cell"], c["name"], c["order"]) in DEEP]
    have = {catalogue.label(c["cell"], c["name"], c["order"], c["kw"]) for c in out}
    for c in catalogue.cases(budget=220, plain=True, maxn=60):
        if catalogue.label(c["cell"], c["name"], c["order"], c["kw"]) not in have:
            out.append(c)
    return sorted(out, key=lambda c: -c["cost"])


DEEP = {("hexahedron", "Q", 3), ("prism", "Lagrange", 4), ("tetrahedron", "Raviart-Thomas", 3), ("pyramid", "Lagrange", 4),
        ("tetrahedron", "Lagrange", 4)}

# maps of several kinds that only preserve the trace on rectangles whose sides are parallel to the axes
RECTANGLES = {"Huang-Zhang"}


def rectangle(rng):
    a, b = rng.choice((-2, -1, 1, 2, 3)), rng.choice((-2, -1, 1, 2, 3))
    o = (rng.randrange(-2, 3), rng.randrange(-2, 3))
    return tuple((o[0] + i * a, o[1] + j * b) for j in (0, 1) for i in (0, 1))


def tasks(thorough):
    out = []
    for c in select(thorough):
        cell = c["cell"]
        td = proj.DIM[cell]
        rng = common.rng("C03", cell, c["name"], c["order"], sorted(c["kw"].items()))
        v1 = None if rng.random() < .6 else geo.affine_cell(cell, rng, td, frac=False)
        w1 = tuple(proj.DEFAULT[cell]) if v1 is None else v1
        pairs = []
        dims = [td - 1] * (6 if thorough else 2 if c["n"] <= 24 else 1) + ([] if td < 3 else [1, 0]) + ([0] if td == 2 else [])
        if not thorough and c["n"] > 24:
            dims = dims[:2]
        for d in dims:
            ents = proj.sub_entities(cell, d)
            apex = cell == "pyramid" and d == 0      # the functions are only limits of quotients there
            e1 = rng.randrange(len(ents) - apex)
            same = [i for i in range(len(ents) - apex) if proj.sub_type(cell, d, i) == proj.sub_type(cell, d, e1)]
            e2 = e1 if c["name"] == "transition" else rng.choice(same)
            pairs.append((d, e1, e2, neighbour(cell, w1, d, e1, e2, rng)))
        # every facet against the next one of its kind
        if td == 3 and c["name"] != "transition" and (thorough or c["cost"] < 7):
            for st in sorted({proj.sub_type(cell, 2, i) for i in range(len(proj.FACES[cell]))}):
                kin = [i for i in range(len(proj.FACES[cell])) if proj.sub_type(cell, 2, i) == st]
                for i, e1 in enumerate(kin):
                    e2 = kin[(i + 1) % len(kin)]
                    pairs.append((2, e1, e2, neighbour(cell, w1, 2, e1, e2, rng)))
        if c["name"] in RECTANGLES:
            r1 = rectangle(rng)
            pr = []
            for e1, e2, ax in ((0, 3, 1), (3, 0, 1), (1, 2, 0), (2, 1, 0)):
                # the neighbour across edge e1: move by one side, then stretch away from the shared edge
                k = rng.choice((1, 2, 3))
                far = [r1[i] for i in proj.EDGES[cell][3 - e1]]
                near = [r1[i] for i in proj.EDGES[cell][e1]]
                d = [(n[ax] - f[ax]) * k for n, f in zip(near, far)]
                new = [tuple(n[i] + (dd if i == ax else 0) for i in range(2)) for n, dd in zip(near, d)]
                v2 = [None] * 4
                for i, q in zip(proj.EDGES[cell][e2], near):
                    v2[i] = q
                for i, q in zip(proj.EDGES[cell][e1], new):
                    v2[i] = q
                pr.append((1, e1, e2, tuple(v2)))
            a = (cell, c["name"], c["order"], c["kw"], r1, pr, " on rectangles")
            out.append((catalogue.label(*a[:4]) + a[6], run_pairs, a))
        # traces below the facets only exist for values and tangential parts; the observer drops the rest
        a = (cell, c["name"], c["order"], c["kw"], v1, pairs)
        out.append((catalogue.label(*a[:4]), run_pairs, a))
    return out


def run_pairs(cell, name, order, kw, v1, pairs, suffix=""):
    import symfem
    el = symfem.create_element(cell, name, order, **kw)
    cont = el.continuity
    td = proj.DIM[cell]
    keep = [p for p in pairs if p[0] == td - 1 or (p[0] >= 1 and "curl" in cont) or cont[0] == "C"]
    return observe(cell, name, order, kw, v1, keep, suffix)


def refusal(v, a):
    return catalogue.is_refusal(v, a[5])


def run():
    return common.drive(
        "C03", "model_checking",
        "one observation per (element, pair of cells, shared sub-entity): traces of a random combination of "
        "the matched functions and of the remaining ones at random points of the shared entity",
        "C03_Conformity", tasks(common.THOROUGH), lanes=8, chunk=400,
        limit=900 if common.THOROUGH else 60, deadline=9000 if common.THOROUGH else 300,
        nontrivial=lambda o: True, refusal=refusal)


if __name__ == "__main__":
    common.main(run)
