"""The catalogue of elements the checks enumerate, with the cost of each case (spec/catalogue.json).

The catalogue is data of the specification: which families exist on which cells, from which order.
Costs only decide which cases fit the quick tier.
"""
import json
import os

import common
import gf

_DATA = None


def data():
    global _DATA
    if _DATA is None:
        with open(os.path.join(common.SPEC, "catalogue.json")) as f:
            _DATA = json.load(f)
    return _DATA


def label(cell, name, order, kw, verts=None):
    s = f"{name} {cell} {order}"
    if kw:
        s += " " + ",".join(f"{k}={v}" for k, v in sorted(kw.items()))
    if verts is not None:
        s += " on " + repr(verts)
    return s


def cases(thorough=False, budget=150.0, per=None, plain=False, maxcost=None, cells=None, names=None,
          maxn=None):
    """Cases ordered so that expensive ones start first.

    Quick tier: cheapest cases of every (name, cell, options) family first, until the total cost
    (seconds of one process) reaches the budget; every family keeps at least its first order.
    """
    all_ = [c for c in data() if (not plain or not c["kw"] or "tri" in c["kw"])
            and (cells is None or c["cell"] in cells) and (names is None or c["name"] in names)
            and (maxn is None or c["n"] <= maxn)]
    if maxcost is not None:
        all_ = [c for c in all_ if c["cost"] <= maxcost]
    fam = {}
    for c in all_:
        fam.setdefault((c["name"], c["cell"], json.dumps(c["kw"], sort_keys=True)), []).append(c)
    out = []
    if thorough:
        for f in fam.values():
            f.sort(key=lambda c: c["order"])
            out += f if per is None else f[:per + 1]
    else:
        spent = 0.0
        pool = []
        for f in fam.values():
            f.sort(key=lambda c: c["order"])
            out.append(f[0])
            spent += f[0]["cost"]
            pool += list(enumerate(f))[1:per]
        pool.sort(key=lambda q: q[1]["cost"] * (1 + q[0]))
        for _, c in pool:
            if spent + c["cost"] > budget:
                break
            out.append(c)
            spent += c["cost"]
    out.sort(key=lambda c: -c["cost"])
    return out


def sets(maxn, maxcost):
    """Families and orders whose polynomial set can be built (spec/catalogue_sets.json)."""
    with open(os.path.join(common.SPEC, "catalogue_sets.json")) as f:
        return sorted((c for c in json.load(f) if c["n"] <= maxn and c["cost"] <= maxcost),
                      key=lambda c: -c["cost"])


def other_cells(cell, rng, k, dim=None):
    """k random non-degenerate affine images of the reference cell with small integer vertices."""
    import proj
    ref = proj.DEFAULT[cell]
    td = proj.DIM[cell]
    gd = td if dim is None else dim
    out = []
    if td == 0:
        return out
    if td == gd and rng.random() < .25:
        import geo
        out += [v for v in rng.sample(geo.special_cells(cell, rng), k)
                if v != ref and len(gf.primes_for(proj.cell_radicands(cell, v))) >= 8][:1]
    while len(out) < k:
        o = [rng.randrange(-2, 3) for _ in range(gd)]
        ax = [[rng.randrange(-2, 4) for _ in range(gd)] for _ in range(td)]
        import sympy
        g = sympy.Matrix([[sum(a * b for a, b in zip(u, w)) for w in ax] for u in ax]).det()
        if g == 0:
            continue
        v = tuple(tuple(o[i] + sum(r[a] * ax[a][i] for a in range(td)) for i in range(gd)) for r in ref)
        if v == ref or (gd == td and len(gf.primes_for(proj.cell_radicands(cell, v))) < 8):
            continue
        out.append(v)
    return out


REFUSALS = ("NotImplementedError", "NonDefaultReferenceError")


def is_refusal(trace, verts):
    """An explicit refusal of a documented kind on a non-default cell."""
    return verts is not None and trace.split(":", 1)[0] in REFUSALS
