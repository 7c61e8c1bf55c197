"""C13: quadrature rules."""
import math
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
import common  # noqa: E402
import gf  # noqa: E402


def observe(rule, name, n, via):
    from symfem import quadrature
    import sympy
    rec = {"rule": rule, "n": n, "refused": False, "pts": [], "wts": [], "rank": [], "p": 2}
    try:
        pts, wts = (quadrature.get_quadrature(name, n) if via == "name"
                    else getattr(quadrature, name)(n))
        if any(sympy.sympify(v).has(sympy.nan, sympy.zoo, sympy.oo) for v in list(pts) + list(wts)):
            rec["rank"] = [-1] * n
            rec["pts"] = [1] * n
            rec["wts"] = [1] * n
            return rec
    except (NotImplementedError, ValueError):
        rec["refused"] = True
        return rec

    def proj(P):
        return P.p, [P.num(v) for v in pts], [P.num(v) for v in wts]
    rec["p"], rec["pts"], rec["wts"] = gf.with_prime(common.rng("C13", rule, n, via), proj)
    rec["rank"] = [int(round(float(v) * 10 ** 8)) for v in pts]
    return rec


def run():
    rep = common.Report("C13", "model_checking",
                        "every rule by function and by name, all sizes; moments up to the nominal "
                        "degree are evaluated exactly in a prime field by the specification; a case "
                        "is non-trivial when the rule was returned and not refused")
    cap = 30 if common.THOROUGH else 14
    todo = []
    for rule, names in (("equispaced", ["equispaced"]), ("lobatto", ["lobatto", "gll"]),
                        ("radau", ["radau"]), ("legendre", ["legendre"])):
        for n in range(0, cap):
            for name in names:
                todo.append((rule, name, n, "name"))
            todo.append((rule, rule, n, "function"))
    res = common.pmap([(observe, t) for t in todo], limit=120)
    cases, labels = [], []
    for t, (st, v, _) in zip(todo, res):
        if st == "ok":
            cases.append(v)
            labels.append(t)
        else:
            rep.violation(f"{t}: {st}", str(v)[:600])
    bad, stats = common.judge("C13_Quadrature", cases)
    rep.tlc(stats)
    rep.count(evaluations=len(cases), refused=sum(c["refused"] for c in cases))
    for c, t in zip(cases, labels):
        if not c["refused"]:
            rep.distinct((t[0], t[2]))
            rep.sample({"rule": t[0], "n": t[2], "via": t[3], "p": c["p"], "points": c["pts"]})
        for cl in sorted(bad.get(c["id"], ())):
            rep.violation(f"{t[0]} n={t[2]} ({t[3]}): {cl}", c)
    return rep.finish()


if __name__ == "__main__":
    common.main(run)
