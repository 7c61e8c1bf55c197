"""C02: the basis functions span the space that defines the family."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
import common  # noqa: E402
import catalogue  # noqa: E402
import gf  # noqa: E402
import proj  # noqa: E402

MAXPOW = 24
NR, NONE = -99, -98
# families whose space can be judged on every affine cell
INVARIANT = {"Lagrange", "Bernstein", "dPc", "Crouzeix-Raviart", "Fortin-Soulie", "Morley", "Hermite",
             "vector Lagrange", "vector dPc", "matrix Lagrange", "symmetric matrix Lagrange",
             "Hellan-Herrmann-Johnson", "Q", "vector Q", "Raviart-Thomas", "Nedelec",
             "Brezzi-Douglas-Marini", "Nedelec2", "bubble", "Argyris", "Morley-Wang-Xu"}
SPLIT = {"enriched Galerkin", "enriched vector Galerkin"}


def choose(n, r):
    out = 1
    for i in range(r):
        out = out * (n - i) // (i + 1)
    return max(out, 0) if n >= r else 0


def transition(cell, order, kw):
    """Dimension, degree contained, degree containing."""
    e, f = kw["edge_orders"], kw.get("face_orders") or []
    tdim = 2 if cell == "triangle" else 3
    n = tdim + 1 + sum(k - 1 for k in e) + sum(choose(k - 1, 2) for k in f) + choose(order - 1, tdim)
    return n, min([order] + list(e) + list(f)), max([order] + list(e) + list(f))


def reported(el, name):
    try:
        v = getattr(el, name)
    except NotImplementedError:
        return NR
    return NONE if v is None else int(v)


def pieces_ok(fam, cell, vv, pcs):
    """Are the pieces the refinement the family is defined on?"""
    import sympy
    vs = [tuple(map(sympy.sympify, v)) for v in vv]
    n = len(vs)
    mid = tuple(sum(c) / sympy.Integer(n) for c in zip(*vs))
    got = {frozenset(tuple(map(sympy.sympify, w)) for w in k) for k in pcs}
    if len(got) != len(pcs):
        return False
    if fam in ("Hsieh-Clough-Tocher", "reduced Hsieh-Clough-Tocher", "Alfeld-Sorokina", "P1 macro",
               "Guzman-Neilan"):
        return got == {frozenset([mid] + [w for j, w in enumerate(vs) if j != i]) for i in range(n)}
    if fam == "P1-iso-P2":
        def m(*i):
            return tuple(sum(c) / sympy.Integer(len(i)) for c in zip(*[vs[k] for k in i]))
        if cell == "interval":
            return got == {frozenset([vs[0], m(0, 1)]), frozenset([vs[1], m(0, 1)])}
        if cell == "triangle":
            return got == {frozenset([vs[i], m(i, (i + 1) % 3), m(i, (i + 2) % 3)]) for i in range(3)} | {
                frozenset([m(0, 1), m(1, 2), m(0, 2)])}
        return got == {frozenset([vs[i], m(i, i ^ 1), m(i, i ^ 2), mid]) for i in range(4)}
    return True


def observe(cell, name, order, kw, verts, polyset=False):
    import symfem
    rng = common.rng("C02", cell, name, order, sorted(kw.items()), verts)
    el = symfem.create_element(cell, name, order, **kw) if verts is None else \
        symfem.create_element(cell, name, order, vertices=verts, **kw)
    basis = list(el.get_polynomial_basis() if polyset else el.get_basis_functions())
    fs = [b.get_function() if hasattr(b, "get_function") else b for b in basis]
    vv = tuple(tuple(v) for v in el.reference.vertices)
    lab = catalogue.label(cell, name, order, kw, verts) + (" polynomial basis" if polyset else "")
    td = proj.DIM[cell]

    def build(P):
        bm = proj.basis_matrix(P, fs, td)
        o = {"p": P.p, "fam": name, "cell": cell, "order": order, "verts": [P.point(v) for v in vv],
             "default": verts is None, "n": el.space_dim, "dim": -1, "sh": bm["sh"], "pieces": bm["pieces"],
             "space": verts is None or name in INVARIANT, "contains": -1, "within": -1, "split": 0,
             "piecesok": True}
        if name == "transition":
            o["dim"], o["contains"], o["within"] = transition(cell, order, kw)
        if name == "direct serendipity":
            o["contains"] = order
        if name in SPLIT:
            o["split"] = len(fs) - 1
        if len(bm["pieces"]) > 1:
            o["piecesok"] = pieces_ok(name, cell, vv, [k for k, _ in proj.sympy_pieces(fs[0])])
        nc = len(bm["pieces"][0]["m"])
        ns = len(fs) + 6

        def r():
            return rng.randrange(1, P.p)
        o["smp"] = [[{"pt": [r() for _ in range(td)], "w": [r() for _ in range(nc)]}
                     for _ in bm["pieces"]] for _ in range(ns)]
        o["cs"] = [r() for _ in fs]
        o["gs"] = [r() for _ in range(400)]
        for k, nm in (("lsub", "lagrange_subdegree"), ("lsup", "lagrange_superdegree"),
                      ("psub", "polynomial_subdegree"), ("psup", "polynomial_superdegree"),
                      ("mdeg", "maximum_degree")):
            o[k] = reported(el, nm)
        if any(max(e) > MAXPOW for pc in o["pieces"] for m in pc["m"] for e in m):
            raise gf.NotRepresentable("degree above the table size")
        return o

    return [(lab, proj.with_projector(rng, build, cell=cell, verts=vv))]


def tasks(thorough):
    out = []
    for c in catalogue.cases(thorough=thorough, budget=150, maxn=None if thorough else 60):
        a = (c["cell"], c["name"], c["order"], c["kw"], None)
        out.append((catalogue.label(*a), observe, a))
    for c in catalogue.cases(thorough=thorough, budget=40, per=2, plain=True, names=INVARIANT,
                             maxn=None if thorough else 40):
        for v in catalogue.other_cells(c["cell"], common.rng("C02cells", c["cell"], c["name"], c["order"]),
                                       3 if thorough else 1):
            a = (c["cell"], c["name"], c["order"], c["kw"], v)
            out.append((catalogue.label(*a), observe, a))
    for c in catalogue.sets(70 if not thorough else 160, 1.0 if not thorough else 60.0):
        a = (c["cell"], c["name"], c["order"], c["kw"], None, True)
        out.append((catalogue.label(*a[:5]) + " polynomial basis", observe, a))
    return out


def run():
    return common.drive(
        "C02", "model_checking",
        "one observation per (element, order, options, cell vertices): the specification compares the "
        "recorded basis functions with the space of the family, over a prime field",
        "C02_Spaces", tasks(common.THOROUGH), lanes=16, chunk=400,
        limit=900 if common.THOROUGH else 60, deadline=9000 if common.THOROUGH else 300,
        refusal=lambda v, a: catalogue.is_refusal(v, a[4]))


if __name__ == "__main__":
    common.main(run)
