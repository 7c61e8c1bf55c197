"""C01: basis functions are dual to the degrees of freedom."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
import common  # noqa: E402
import catalogue  # noqa: E402
import gf  # noqa: E402
import proj  # noqa: E402

MAXPOW = 24


def observe(cell, name, order, kw, verts, nev):
    import symfem
    rng = common.rng("C01", cell, name, order, sorted(kw.items()), verts)
    if verts is None:
        el = symfem.create_element(cell, name, order, **kw)
    else:
        el = symfem.create_element(cell, name, order, vertices=verts, **kw)
    dofs = list(el.dofs) if hasattr(el, "dofs") else None
    basis = list(el.get_basis_functions())
    dim = el.space_dim
    vv = tuple(tuple(v) for v in el.reference.vertices)
    fs = [b.get_function() if hasattr(b, "get_function") else b for b in basis]
    direct = dofs is None       # defined by its basis functions: only the counts apply
    n = len(fs) if direct else len(dofs)
    dofs = dofs or []

    def build(P):
        o = proj.context(P, el.reference.name, vv)
        o.update({"n": len(fs), "ndofs": n, "dim": dim})
        o["cs"] = [rng.randrange(1, P.p) for _ in range(n)]
        bm = proj.basis_matrix(P, fs, el.reference.tdim)
        o["sh"], o["pieces"] = bm["sh"], bm["pieces"]
        box = el.reference.name in ("interval", "quadrilateral", "hexahedron")
        pervar = box and o["default"]
        fdeg = proj.degrees(bm, pervar)
        rational = any(pc["den"] for pc in o["pieces"])
        ents = {}
        out = []
        skipped = 0
        for d in dofs:
            r = proj.describe(P, d)
            ref = getattr(d, "_verif_call", (None, {}))[1].get("reference")
            if r is None or (ref is not None and tuple(tuple(v) for v in ref.vertices) != vv):
                out.append({"k": "skip"})
                skipped += 1
                continue
            pt = r.pop("_pt", None)
            e = r["e"]
            isint = r["k"] in proj.KNOWN_INT
            if isint and rational:
                out.append({"k": "skip"})
                skipped += 1
                continue
            if len(o["pieces"]) > 1:
                if not isint:
                    r["pcs"] = pieces_at(bm, fs[0], [pt])
                elif e[0] == el.reference.tdim:
                    r["pcs"] = [1]
                else:
                    se = proj.sub_entities(el.reference.name, e[0])[e[1]]
                    r["pcs"] = pieces_at(bm, fs[0], [vv[i] for i in se])
                if not r["pcs"]:
                    out.append({"k": "skip"})
                    skipped += 1
                    continue
            if isint:
                full = e[0] == el.reference.tdim
                deg = fdeg + (r["fvdeg"] if pervar else r["fdeg"])
                if el.reference.name in ("prism", "pyramid") or (full and len(o["pieces"]) > 1):
                    deg = proj.degrees(bm, False) + r["fdeg"]
                ent = ents.setdefault(tuple(e), {"e": e, "n": 1, "pcs": r["pcs"], "val": False,
                                                 "div": False, "grad": False})
                ent["n"] = max(ent["n"], deg)
                which = "div" if r["k"] in ("IntegralOfDivergenceAgainst", "DivergenceIntegralMoment") \
                    else ("grad" if r["k"] in ("DerivativeIntegralMoment", "NormalDerivativeIntegralMoment")
                          else "val")
                ent[which] = True
            out.append(r)
        keys = list(ents)
        o["ents"] = [ents[k] for k in keys]
        for r in out:
            if r["k"] in proj.KNOWN_INT:
                r["ei"] = keys.index(tuple(r["e"])) + 1
        o["dofs"] = out
        if any(max(e) > MAXPOW for pc in o["pieces"] for m in pc["m"] for e in m):
            raise gf.NotRepresentable("degree above the table size")
        return o, skipped

    o, skipped = proj.with_projector(rng, build, cell=el.reference.name, verts=vv)
    # what the implementation's own evaluation says, on sampled pairs
    pairs = [] if direct else [(i, i) for i in range(n)] + [(i, j) for i in range(n) for j in range(n) if i != j]
    if len(pairs) > nev:
        d = rng.sample(range(n), min(n, nev // 3))
        pairs = [(i, i) for i in d] + [p for p in rng.sample(pairs[n:], nev - len(d))]
    P = proj.projector(o["p"])
    o["ev"] = []
    for i, j in pairs:
        v = dofs[i].eval(fs[j])
        try:
            o["ev"].append([i + 1, j + 1, P.num(gf.as_plain(v))])
        except (gf.BadPrime, gf.NotRepresentable):
            import sympy
            w = sympy.simplify(gf.as_plain(v))
            o["ev"].append([i + 1, j + 1, P.num(w)])
    return {"o": o, "skipped": skipped, "kinds": sorted({d["k"] for d in o["dofs"]})}


def pieces_at(bm, f0, pts):
    """1-based numbers of the pieces whose closure contains all the points."""
    vs = [k for k, _ in proj.sympy_pieces(f0)]
    out = []
    for q, (pc, v) in enumerate(zip(bm["pieces"], vs)):
        if v is None or all(proj.in_piece(pc["cell"], v, p) for p in pts):
            out.append(q + 1)
    return out


def run():
    rep = common.Report(
        "C01", "model_checking",
        "one observation per (element, order, options, cell vertices): the specification applies the "
        "mathematical definition of every functional to a random combination of the recorded basis "
        "functions in a prime field; non-trivial when at least one functional was judged")
    todo = []
    for c in catalogue.cases(thorough=common.THOROUGH, budget=150):
        todo.append((c["cell"], c["name"], c["order"], c["kw"], None, 40 if common.THOROUGH else 12))
    for c in catalogue.cases(thorough=common.THOROUGH, budget=60, per=2, plain=True):
        for v in catalogue.other_cells(c["cell"], common.rng("C01cells", c["cell"], c["name"], c["order"]),
                                       3 if common.THOROUGH else 1):
            todo.append((c["cell"], c["name"], c["order"], c["kw"], v, 12 if common.THOROUGH else 4))
    res = common.pmap([(observe, t) for t in todo], limit=900 if common.THOROUGH else 60,
                      deadline=9000 if common.THOROUGH else 420, initfn=proj.install_recorder)
    cases, labels, kinds, skipped, refused = [], [], set(), 0, 0
    for t, (st, v, _) in zip(todo, res):
        lab = catalogue.label(*t[:5])
        if st == "ok":
            cases.append(v["o"])
            labels.append((t, lab))
            kinds.update(v["kinds"])
            skipped += v["skipped"]
        elif st == "error" and catalogue.is_refusal(v, t[4]):
            refused += 1
        elif st == "error":
            rep.violation(f"{lab}: raised", v[-900:])
        else:
            rep.count(**{st: 1})
    bad, stats = common.judge("C01_Duality", cases, lanes=16, chunk=400)
    rep.tlc(stats)
    rep.count(evaluations=len(cases), functionals=sum(len(c["dofs"]) for c in cases),
              functionals_skipped=skipped, refused=refused, pairs=sum(len(c["ev"]) for c in cases),
              kinds=sorted(kinds))
    for c, (t, lab) in zip(cases, labels):
        if any(d["k"] != "skip" for d in c["dofs"]):
            rep.distinct(lab)
        rep.sample({"element": lab, "p": c["p"], "dofs": [d["k"] for d in c["dofs"]][:12]})
        for cl in sorted(bad.get(c["id"], ())):
            if cl.startswith("observer:"):
                raise common.MachineryError(f"{lab}: {cl}")
            rep.violation(f"{lab}: {cl}", {"element": lab, "p": c["p"]})
    return rep.finish()


if __name__ == "__main__":
    common.main(run)
