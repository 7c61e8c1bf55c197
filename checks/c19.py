"""C19: dual and macro elements are consistent across their sub-cells."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
import common  # noqa: E402
import catalogue  # noqa: E402
import gf  # noqa: E402
import proj  # noqa: E402

MACRO = {"Hsieh-Clough-Tocher", "reduced Hsieh-Clough-Tocher", "P1 macro", "P1-iso-P2", "Guzman-Neilan",
         "Alfeld-Sorokina"}
# mapping these to a cell keeps the regularity (the others are not preserved by their map)
MAPPED = {"P1-iso-P2", "Guzman-Neilan", "P1 macro"}
ONE = 1 << 20


def ints(vs):
    """Vertices as integers, or None when they are not multiples of 1/12."""
    import sympy
    out = []
    for v in vs:
        w = [12 * sympy.sympify(c) for c in v]
        if any(not c.is_Integer for c in w):
            return None
        out.append([int(c) for c in w])
    return out


def macro(cell, name, order, kw, verts, mapped):
    import symfem
    rng = common.rng("C19", cell, name, order, sorted(kw.items()), verts, mapped)
    if verts is None or mapped:
        el = symfem.create_element(cell, name, order, **kw)
    else:
        el = symfem.create_element(cell, name, order, vertices=verts, **kw)
    if mapped:
        fs = el.map_to_cell(verts)
        vv = verts
    else:
        fs = el.get_basis_functions()
        vv = el.reference.vertices
    fs = [b.get_function() if hasattr(b, "get_function") else b for b in fs]
    vv = tuple(tuple(v) for v in vv)
    lab = catalogue.label(cell, name, order, kw, verts) + (" mapped" if mapped else "")
    keys = [[k for k, _ in proj.sympy_pieces(f)] for f in fs]
    first = {frozenset(map(proj._S, k)) for k in keys[0]}
    same = [len(k) == len(keys[0]) and {frozenset(map(proj._S, w)) for w in k} == first for k in keys]

    def build(P):
        bm = proj.basis_matrix(P, fs, proj.DIM[cell])
        return {"kind": "macro", "p": P.p, "fam": name, "cell": cell, "order": order,
                "pieces": bm["pieces"], "iv": ints(vv), "ip": [ints(k) or [[0] * len(vv[0])] for k in keys[0]],
                "same": same, "piola": bool(mapped and name == "Guzman-Neilan"),
                "ws": [[rng.randrange(2, P.p) for _ in range(3)] for _ in range(3)]}
    return [(lab, proj.with_projector(rng, build, cell=cell, verts=vv))]


def num(e):
    """The nearest multiple of 2^-20 (as an integer)."""
    import sympy
    v = complex(sympy.N(sympy.sympify(e), 25))
    if abs(v.imag) > 1e-9:
        raise ValueError("a complex value")
    return int(round(v.real * ONE))


def dual(n, el_name):
    import symfem
    import sympy
    from symfem.symbols import x
    name, order = {"P0": ("dual", 0), "P1": ("dual", 1), "BC": ("Buffa-Christiansen", 1),
                   "RBC": ("rotated Buffa-Christiansen", 1)}[el_name]
    rng = common.rng("C19dual", n, el_name)
    el = symfem.create_element(f"dual polygon({n})", name, order)
    ref = el.reference
    fns = el.get_basis_functions()
    vs = [proj._S(v) for v in ref.vertices]
    idx = {v: i for i, v in enumerate(vs)}
    idx[proj._S(ref.origin)] = -1
    o = {"kind": "dual", "el": el_name, "n": n, "nf": el.space_dim, "conf": el.continuity,
         "origin": [num(c) // 64 for c in ref.origin], "verts": [[num(c) // 64 for c in v] for v in vs],
         "fns": [], "at": []}
    th = sympy.Rational(1, 3)
    for f in fns:
        f = f.get_function() if hasattr(f, "get_function") else f
        rows = []
        items = list(f.pieces.items())
        vals = []
        for key, g in items:
            k = [proj._S(v) for v in key]
            pts = [[complex(sympy.N(c, 30)).real for c in v] for v in k]
            pts.append([sum(c) / 3 for c in zip(*pts)])
            cs = list(proj.comps(gf.as_plain(g))[1])
            fn = [sympy.lambdify(x[:2], c, "mpmath") for c in cs]
            at = [[complex(h(*map(sympy.Float, p))).real for h in fn] for p in pts]
            vals.append((k, at[3]))
            row = {"vs": [idx.get(v, -2) for v in k]}
            if len(cs) == 1:
                row["r"] = [int(round(a[0] * ONE)) for a in at]
            else:
                r = []
                for a, b in ((0, 1), (1, 2), (0, 2)):
                    e = [pts[b][i] - pts[a][i] for i in range(2)]
                    # outwards through the outer edge, onwards (anticlockwise) through the inner ones
                    s = 1 if a == 1 else -1
                    nrm = (e[1], -e[0]) if el_name == "BC" else (-e[0], -e[1])
                    r.append([int(round(s * (w[0] * nrm[0] + w[1] * nrm[1]) * ONE)) for w in at])
                row["r"] = r
            rows.append(row)
        o["fns"].append(rows)
        # the function itself at points inside some of its pieces
        got = []
        for key, want in rng.sample(vals, min(2, len(vals))):
            mid = tuple(sum(c) * th for c in zip(*key))
            try:
                v = proj.comps(gf.as_plain(f.subs(x, mid)))[1]
            except NotImplementedError:
                continue
            got.append({"got": [num(c) for c in v], "want": [int(round(c * ONE)) for c in want]})
        o["at"].append(got)
    return [(f"dual polygon({n}) {name} {order}", o)]


def tasks(thorough):
    out = []
    for c in catalogue.cases(thorough=thorough, budget=400, names=MACRO):
        a = (c["cell"], c["name"], c["order"], c["kw"], None, False)
        out.append((catalogue.label(*a[:5]), macro, a))
        for i, v in enumerate(catalogue.other_cells(c["cell"], common.rng("C19cells", c["cell"], c["name"], c["order"]),
                                                    12 if thorough else 3)):
            for mapped in (False, True):
                if mapped and c["name"] not in MAPPED:
                    continue
                if c["cell"] == "tetrahedron" and not thorough and (c["order"] > 1 or i > 0):
                    continue
                a = (c["cell"], c["name"], c["order"], c["kw"], v, mapped)
                out.append((catalogue.label(*a[:5]) + (" mapped" if mapped else ""), macro, a))
    for n in list(range(3, 25)) if thorough else [3, 4, 5, 6, 8, 9, 12]:
        for e in ("P0", "P1", "BC", "RBC"):
            out.append((f"dual polygon({n}) {e}", dual, (n, e)))
    return out


def run():
    rep = common.Report("C19", "model_checking",
                        "one observation per macro element and cell (pieces, functions on both sides of every "
                        "interface over a prime field) and per dual element and number of sides; the walk around "
                        "the fan of a dual polygon is model checked on its own")
    out, st = common.tlc("DualFan", cfg="DualFan.cfg")
    if st["rc"] != 0:
        raise common.MachineryError("DualFan: " + out[-800:])
    rep.tlc(st)
    return common.drive("C19", "model_checking", None, "C19_SubCells", tasks(common.THOROUGH), lanes=8, chunk=400,
                        limit=1200 if common.THOROUGH else 150, deadline=6000 if common.THOROUGH else 400, rep=rep,
                        refusal=lambda v, a: len(a) == 6 and catalogue.is_refusal(v, a[4]))


if __name__ == "__main__":
    common.main(run)
