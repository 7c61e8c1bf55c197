"""C14: polynomial sets, orthogonal, dual and Lobatto bases."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
import common  # noqa: E402
import gf  # noqa: E402
import proj  # noqa: E402

CELLS = ["interval", "triangle", "quadrilateral", "tetrahedron", "hexahedron", "prism", "pyramid"]
SCALAR = ["polynomial_set_1d", "quolynomial_set_1d", "serendipity_set_1d"]
VECTOR = ["polynomial_set_vector", "quolynomial_set_vector", "serendipity_set_vector"]
SQUARE = ["Hdiv_polynomials", "Hcurl_polynomials", "Hdiv_quolynomials", "Hcurl_quolynomials",
          "Hdiv_serendipity", "Hcurl_serendipity"]


def project(rng, vs, build):
    """Run build(P) for a projector in which the given variables are the coordinates."""
    def go(P):
        from symfem.symbols import x
        P.vars = {v: i for i, v in enumerate(vs if vs is not None else list(x))}
        return build(P)
    return proj.with_projector(rng, go)


def comps(P, f):
    """Components of a function, or None if it involves variables that were not asked for."""
    if hasattr(f, "as_sympy"):
        f = f.as_sympy()
    out = []
    for c in f if isinstance(f, tuple) else (f,):
        import sympy
        c = sympy.sympify(c)
        if any(s not in P.vars for s in c.free_symbols):
            return None
        out.append(reduced(P, c))
    return out


def reduced(P, c):
    """A rational function without common powers of 1 - z."""
    n, d = P.ratfun(c)
    if len(d) > 1:
        lin = {P.zero_exp: 1, (0, 0, 1): P.p - 1}
        while True:
            a, b = proj.divide(P, n, lin), proj.divide(P, d, lin)
            if a is None or b is None:
                break
            n, d = a, b
        n, d = P._norm(n, d)
    return [P.terms(n), [] if d == {P.zero_exp: 1} else P.terms(d)]


def record(P, rng, o, fs, dim, nsmp):
    got = [comps(P, f) for f in fs]
    o["foreign"] = o.get("foreign", False) or any(c is None for c in got)
    o["smp"] = [{"pt": [rng.randrange(2, P.p) for _ in range(dim)],
                 "w": [rng.randrange(1, P.p) for _ in range(9)]} for _ in range(nsmp)]
    return [c for c in got if c is not None]


def variables(kind, n, rng):
    import sympy
    from symfem.symbols import t, x
    if kind == "default":
        return None
    if kind == "t":
        return list(t)[:n]
    if kind == "other":
        return list(sympy.symbols("u v w"))[:n]
    vs = list(x)
    while True:
        rng.shuffle(vs)
        if vs != list(x):
            return vs[:n]


def observe_set(ctor, d, r, order, kind, cell=None):
    import symfem.polynomials as sp
    rng = common.rng("C14", ctor, d, r, order, kind, cell)
    vs = variables(kind, d, rng)
    kw = {} if vs is None else {"variables": vs}
    f = getattr(sp, ctor)
    if ctor == "polynomial_set":
        fs = f(cell, order, **kw)
    elif ctor.endswith("_1d"):
        fs = f(d, order, **kw)
    else:
        fs = f(d, r, order, **kw)

    def build(P):
        o = {"kind": "set", "p": P.p, "ctor": ctor, "d": d, "r": r, "order": order, "cell": cell or "",
             "foreign": False}
        o["fs"] = record(P, rng, o, fs, d, len(fs) + 20 + (d * (order + 1) ** d if "serendipity" in ctor else 0))
        return o
    return [(f"{ctor}({cell or d}, {r}, {order}) variables {kind}", project(rng, vs, build))]


def derivative_arrays(dim, derivs):
    """For every array of derivatives after the first: an earlier array and the variable to differentiate."""
    if dim == 1:
        return [[k, 1] for k in range(1, derivs + 1)]

    def index(e):
        if dim == 2:
            p, q = e
            return (p + q + 1) * (p + q) // 2 + q
        p, q, r = e
        return (p + q + r) * (p + q + r + 1) * (p + q + r + 2) // 6 + (q + r) * (q + r + 1) // 2 + r
    import itertools
    out = {}
    for e in itertools.product(range(derivs + 1), repeat=dim):
        if 0 < sum(e) <= derivs:
            v = max(i for i in range(dim) if e[i])
            out[index(e)] = [index(tuple(k - (i == v) for i, k in enumerate(e))) + 1, v + 1]
    return [out[i] for i in sorted(out)]


def observe_ortho(cell, order, derivs, normal, kind):
    import symfem.polynomials as sp
    rng = common.rng("C14o", cell, order, derivs, normal, kind)
    d = proj.DIM[cell]
    vs = variables(kind, d, rng)
    f = sp.orthonormal_basis if normal else sp.orthogonal_basis
    arrays = f(cell, order, derivs) if vs is None else f(cell, order, derivs, vs)

    def build(P):
        o = {"kind": "ortho", "p": P.p, "ctor": "basis", "d": d, "r": 1, "cell": cell, "order": order,
             "normal": normal, "foreign": False, "dv": derivative_arrays(d, derivs),
             "deg": order if cell != "pyramid" else 2 * order}
        o["fs"] = [record(P, rng, o, a, d, len(arrays[0]) + 20) for a in arrays]
        o["as"] = [rng.randrange(1, P.p) for _ in arrays[0]]
        o["bs"] = [rng.randrange(1, P.p) for _ in arrays[0]]
        return o
    return [(f"{'orthonormal' if normal else 'orthogonal'} basis {cell} order {order} derivatives {derivs} variables {kind}",
             project(rng, vs, build))]


def dual_obs(rng, cell, fs, ds, deg, span, lab):
    def build(P):
        d = proj.DIM[cell]
        o = {"kind": "dual", "p": P.p, "cell": cell, "deg": deg, "foreign": False}
        o["ds"] = record(P, rng, o, ds, d, 0)
        o["span"] = record(P, rng, o, span, d, 0)
        o["fs"] = record(P, rng, o, fs, d, len(span) + 8)
        o["as"] = [rng.randrange(1, P.p) for _ in fs]
        o["bs"] = [rng.randrange(1, P.p) for _ in fs]
        return o
    return [(lab, project(rng, None, build))]


def observe_dual(cell, n):
    import sympy
    import symfem.polynomials as sp
    from symfem.functions import ScalarFunction
    from symfem.symbols import x
    rng = common.rng("C14d", cell, n)
    d = proj.DIM[cell]
    size = rng.randrange(1, 6)
    fs = []
    for _ in range(size):
        e = 0
        for _ in range(rng.randrange(1, 4)):
            t = sympy.Rational(rng.choice([-3, -2, -1, 1, 2, 3, 5]), rng.choice([1, 1, 2, 3, 7]))
            left = 3
            for v in range(d):
                k = rng.randrange(0, left + 1)
                left -= k
                t *= x[v] ** k
            e += t
        fs.append(ScalarFunction(e))
    m = sympy.Matrix([[sympy.Poly(f.as_sympy(), *x).coeff_monomial(mono) for f in fs]
                      for mono in {mono for f in fs for mono in [sympy.prod(v ** k for v, k in zip(x, e))
                                                                 for e in sympy.Poly(f.as_sympy(), *x).monoms()]}])
    if m.rank() < size:
        return []
    return dual_obs(rng, cell, fs, sp.l2_dual(cell, fs), 6, fs, f"L2 dual on {cell} number {n}")


def observe_lobatto(cell, order, ends):
    import symfem.polynomials as sp
    rng = common.rng("C14l", cell, order, ends)
    fs = sp.lobatto_basis(cell, order, ends)
    out = []

    def build(P):
        d = proj.DIM[cell]
        o = {"kind": "lobatto", "p": P.p, "cell": cell, "order": order, "ends": ends, "deg": order, "foreign": False}
        o["fs"] = record(P, rng, o, fs, d, (order + 1) ** d + 8)
        o["as"] = [rng.randrange(1, P.p) for _ in fs]
        o["bs"] = [rng.randrange(1, P.p) for _ in fs]
        return o
    lab = f"Lobatto basis {cell} order {order} {'with' if ends else 'without'} end points"
    if fs:
        out.append((lab, project(rng, None, build)))
    ds = sp.lobatto_dual_basis(cell, order, ends)
    if fs or ds:
        out += dual_obs(rng, cell, fs, ds, 2 * order, sp.lobatto_basis(cell, order, True), "dual of " + lab)
    return out


def tasks(thorough):
    out = []

    def add(fn, *a):
        out.append((f"{fn.__name__} {a}", fn, a))
    kinds = ["default", "t", "permuted", "other"]
    top = 6 if thorough else 4
    for d in (1, 2, 3):
        for k in range(0, (top + 2 if d < 3 else top) + 1):
            for kind in kinds:
                for c in SCALAR:
                    if c.startswith("quo") and d == 3 and k > (4 if thorough else 3):
                        continue
                    if not (c.startswith("ser") and k < 1):
                        add(observe_set, c, d, 1, k, kind)
                if k <= 3:
                    for c in VECTOR:
                        for r in (1, 2, 3) if k < 3 else (d,):
                            if not (c.startswith("ser") and k < 1) and (r < 3 or k < 3 or thorough):
                                add(observe_set, c, d, r, k, kind)
                if d > 1 and (d == 2 or k <= (4 if thorough else 3)):
                    for c in SQUARE:
                        if k >= 1:
                            add(observe_set, c, d, d, k, kind)
    for k in range(0, 5 if thorough else 4):
        for kind in kinds:
            for c in ("prism", "pyramid"):
                add(observe_set, c + "_polynomial_set_1d", 3, 1, k, kind)
                if k < 3:
                    for r in (1, 2, 3):
                        add(observe_set, c + "_polynomial_set_vector", 3, r, k, kind)
            for c in CELLS:
                add(observe_set, "polynomial_set", proj.DIM[c], 1, k, kind, c)
    last = {"interval": 8, "triangle": 5, "quadrilateral": 4, "tetrahedron": 4, "hexahedron": 2, "prism": 3, "pyramid": 3}
    for c in CELLS:
        for k in range(0, last[c] + (1 if thorough else 0) + 1):
            for normal in (False, True):
                for kind in kinds:
                    if kind != "default" and k > max(2, last[c] - 2):
                        continue
                    big = k >= last[c] and proj.DIM[c] == 3
                    if normal and big and kind != "default":
                        continue
                    if normal and c == "pyramid" and k > 2 and not thorough:
                        continue
                    der = 0 if normal and big else (2 if proj.DIM[c] == 3 and k > 1 else 3) if kind == "default" else 1
                    add(observe_ortho, c, k, der, normal, kind)
    for c in CELLS:
        for n in range(40 if thorough else 10):
            add(observe_dual, c, n)
    for c, m in (("interval", 8), ("quadrilateral", 4), ("hexahedron", 3)):
        for k in range(1, m + (1 if thorough else 0) + 1):
            for e in (True, False):
                if c == "hexahedron" and e and k > 2:
                    continue
                add(observe_lobatto, c, k, e)
    return out


def run():
    return common.drive("C14", "model_checking",
                        "polynomial set or basis x cell or dimension x degree x choice of variables",
                        "C14_Polynomials", tasks(common.THOROUGH), lanes=16, chunk=4000, limit=120,
                        nontrivial=lambda o: len(o.get("fs", ())) > 1)


if __name__ == "__main__":
    common.main(run)
