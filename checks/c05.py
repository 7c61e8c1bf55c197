"""C05: functions are pushed forward to cells by their declared transformation."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
import common  # noqa: E402
import catalogue  # noqa: E402
import gen  # noqa: E402
import geo  # noqa: E402
import gf  # noqa: E402
import proj  # noqa: E402

MAXPOW = 24
MAPS = ("identity", "l2", "covariant", "contravariant", "double_covariant", "double_contravariant")


def cellinfo(P, cell, verts):
    import sympy
    v = [proj._S(w) for w in verts]
    ax = [[b - a for a, b in zip(v[0], v[i])] for i in proj.AXIS[cell]]
    return {"p": P.p, "cell": cell, "verts": [P.point(w) for w in v], "pj": P.num(sympy.sqrt(geo.gram(ax)))}


def roots(cell, verts):
    """Square roots are only needed for the measure of cells embedded in a higher dimension."""
    return {"cell": cell, "verts": verts} if len(verts[0]) > proj.DIM[cell] else {}


def fun(P, f):
    sh, cs = proj.comps(gf.as_plain(f))
    cs = [P.scalar(c) for c in cs]
    if any(max(t[1:]) > MAXPOW for c in cs for s in c for t in s):
        raise gf.NotRepresentable("degree above the table size")
    return {"sh": sh, "c": cs}


def observe_map(cell, verts, name, op, sub, k):
    """One named map applied to a random function."""
    import symfem
    from symfem import mappings
    rng = common.rng("C05", cell, verts, name, op, sub, k)
    td, gd = proj.DIM[cell], len(verts[0])
    ref = symfem.create_reference(cell)
    fwd, inv = ref.get_map_to(verts), ref.get_inverse_map_to(verts)
    nv, n = (gd, gd) if op == "inverse" else (td, td)
    if name in ("identity", "l2"):
        f = gen.poly(rng, nv, 3)
        if name == "identity" and k % 3 == 1:
            f = gen.vpoly(rng, nv, n, 2)
        if name == "identity" and k % 3 == 2:
            f = gen.mpoly(rng, nv, n, 2)
    elif "double" in name:
        f = gen.mpoly(rng, nv, n, 2)
    else:
        f = gen.vpoly(rng, nv, n, 2)
    suffix = {"forward": "", "inverse": "_inverse", "it": "_inverse_transpose"}[op]
    if k % 2 and op != "it":
        m = mappings.get_mapping(name, inverse=(op == "inverse"))
    elif k % 2:
        m = mappings.get_mapping(name, inverse=True, transpose=True)
    else:
        m = getattr(mappings, name + suffix)
    raw, f = f, symfem.functions.parse_function_input(f)
    given = f if k % 4 > 1 else raw
    g = m(given, fwd, inv) if sub else m(given, fwd, inv, False)
    ts = [tuple(gen.num(rng) for _ in range(td)) for _ in range(3)]
    out = []

    def build(P):
        o = cellinfo(P, cell, verts)
        o.update({"kind": "map", "name": name, "op": op, "sub": sub, "f": fun(P, f), "r": fun(P, g),
                  "ts": [P.point(t) for t in ts]})
        return o
    out.append((f"{name}{suffix} {cell} {verts} {sub} {k}", proj.with_projector(rng, build, **roots(cell, verts))))
    if op == "forward" and sub and td == gd:
        h = mappings.get_mapping(name, inverse=True)(g, fwd, inv, True)

        def build2(P):
            o = cellinfo(P, cell, verts)
            o.update({"kind": "pair", "f": fun(P, f), "r": fun(P, h), "ts": [P.point(t) for t in ts]})
            return o
        out.append((f"{name} and its inverse {cell} {verts} {k}",
                    proj.with_projector(rng, build2)))
    return out


def declared(el):
    """The declared map of every basis function, or None if the element refuses to be mapped."""
    from symfem.finite_element import CiarletElement, EnrichedElement
    from symfem.mappings import MappingNotImplemented
    from symfem.symbols import x
    if isinstance(el, EnrichedElement):
        out = []
        for s in el._subelements:
            m = declared(s)
            if m is None:
                return None
            out += m
        return out
    if not isinstance(el, CiarletElement):
        return None
    td = el.reference.tdim
    for d in el.dofs:
        try:
            d.perform_mapping([], tuple(x[:td]), tuple(x[:td]))
        except MappingNotImplemented:
            return None
    return [d.mapping for d in el.dofs]


def observe_elem(cell, name, order, kw, verts, how):
    import symfem
    from symfem.finite_element import DirectElement, EnrichedElement
    rng = common.rng("C05e", cell, name, order, sorted(kw.items()), verts, how)
    el = symfem.create_element(cell, name, order, **kw)
    td = el.reference.tdim
    if isinstance(el, DirectElement):
        return []       # documented: cannot be mapped
    maps = declared(el)
    if maps is None and isinstance(el, EnrichedElement):
        return []
    before = [b.get_function() if hasattr(b, "get_function") else b for b in el.get_basis_functions()]
    if how == "plain":
        mapped = el.map_to_cell(verts)
    elif how == "basis":
        mapped = el.map_to_cell([list(v) for v in verts], basis=list(before))
    else:
        ref = symfem.create_reference(cell)
        mapped = el.map_to_cell(verts, forward_map=ref.get_map_to(verts), inverse_map=ref.get_inverse_map_to(verts))
    mapped = [b.get_function() if hasattr(b, "get_function") else b for b in mapped]
    if maps is None:
        el2 = symfem.create_element(cell, name, order, vertices=verts, **kw)
        src = [b.get_function() if hasattr(b, "get_function") else b for b in el2.get_basis_functions()]
        maps = ["same"] * len(src)
    else:
        # the functions of the element are read again: mapping must not change them
        src = [b.get_function() if hasattr(b, "get_function") else b for b in el.get_basis_functions()]
    n = el.space_dim
    td, gd = proj.DIM[cell], len(verts[0])

    def build(P):
        o = cellinfo(P, cell, verts)
        a = proj.basis_matrix(P, src, td)
        b = proj.basis_matrix(P, mapped, gd)
        for bm in (a, b):
            for pc in bm["pieces"]:
                if any(max(e) > MAXPOW for m in pc["m"] for e in m):
                    raise gf.NotRepresentable("degree above the table size")
        o.update({"kind": "elem", "n": n, "a": a, "b": b, "maps": maps, "cs": [rng.randrange(1, P.p) for _ in range(n)],
                  "pts": [[rng.randrange(1, P.p) for _ in range(td if "same" not in maps else gd)] for _ in a["pieces"]]})
        return o
    return [(catalogue.label(cell, name, order, kw) + f" mapped ({how}) to {verts}",
             proj.with_projector(rng, build, **roots(cell, verts)))]


def tasks(thorough):
    out = []
    n = 24 if thorough else 4
    for cell in proj.DEFAULT:
        td = proj.DIM[cell]
        if td == 0:
            continue
        for gd in range(td, 4):
            rng = common.rng("C05cells", cell, gd)
            special = geo.special_cells(cell, rng) * (3 if thorough else 1) if gd == td else []
            for k in range(n + len(special)):
                v = geo.affine_cell(cell, rng, gd) if k < n else special[k - n]
                for name in MAPS:
                    if td == 1 and gd > 1 and name not in ("identity", "covariant", "double_covariant"):
                        continue     # the library takes no determinant of a column
                    for op in ("forward", "inverse", "it"):
                        if "double" in name and op == "it":
                            continue
                        if gd > td and op == "inverse" and name in ("l2", "contravariant", "double_contravariant"):
                            continue
                        for sub in (True, False):
                            a = (cell, v, name, op, sub, k)
                            out.append((f"{name} {op} {cell} {v}", observe_map, a))
    for c in catalogue.cases(thorough=thorough, budget=60, maxn=None if thorough else 48):
        rng = common.rng("C05e", c["cell"], c["name"], c["order"], sorted(c["kw"].items()))
        for how in ("plain", "basis", "maps") if thorough else (rng.choice(("plain", "basis", "maps")),):
            v = geo.affine_cell(c["cell"], rng, proj.DIM[c["cell"]], frac=False)
            if rng.random() < .25:
                v = rng.choice(geo.special_cells(c["cell"], rng))
            a = (c["cell"], c["name"], c["order"], c["kw"], v, how)
            out.append((catalogue.label(*a[:4]) + f" mapped ({how}) to {v}", observe_elem, a))
    man = catalogue.cases(thorough=False, budget=20, per=2, plain=True, maxn=20,
                          cells=("interval", "triangle", "quadrilateral"),
                          names={"Lagrange", "Q", "Nedelec", "Raviart-Thomas", "dPc", "Regge", "Nedelec2",
                                 "Hellan-Herrmann-Johnson", "Qdiv", "Qcurl", "NCE", "NCF", "enriched Galerkin"})
    for c in man:
        td = proj.DIM[c["cell"]]
        rng = common.rng("C05m", c["cell"], c["name"], c["order"])
        gd = 3 if td == 2 else rng.choice((2, 3))
        a = (c["cell"], c["name"], c["order"], c["kw"], geo.affine_cell(c["cell"], rng, gd, frac=False), "plain")
        if c["name"] != "enriched Galerkin":
            out.append((catalogue.label(*a[:4]) + f" mapped to {a[4]}", observe_elem, a))
    return out


def refusal(v, a):
    if len(a) > 5 and isinstance(a[3], dict):
        return catalogue.is_refusal(v, a[4])
    return False


def run():
    return common.drive(
        "C05", "model_checking",
        "one observation per (named map, direction, cell, function) and per (element, cell, way of calling "
        "map_to_cell): values at random points compared with the defining identity over a prime field",
        "C05_PushForward", tasks(common.THOROUGH), lanes=8, chunk=400,
        limit=900 if common.THOROUGH else 60, deadline=6000 if common.THOROUGH else 300,
        nontrivial=lambda o: True, refusal=refusal)


if __name__ == "__main__":
    common.main(run)
