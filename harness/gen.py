"""Random exact inputs: points, vectors and polynomial functions."""
import sympy


def num(rng):
    return sympy.Rational(rng.randrange(-7, 8), rng.choice([1, 1, 2, 3]))


def nz(rng):
    while True:
        n = num(rng)
        if n != 0:
            return n


def vec(rng, n):
    while True:
        v = tuple(num(rng) for _ in range(n))
        if any(c != 0 for c in v):
            return v


def matrix(rng, n, m):
    return tuple(tuple(num(rng) for _ in range(m)) for _ in range(n))


def monomials(nv, deg):
    from symfem.symbols import x
    out = []
    for i in range(deg + 1):
        for j in range(deg + 1 - i if nv > 1 else 1):
            for k in range(deg + 1 - i - j if nv > 2 else 1):
                out.append(x[0] ** i * x[1] ** j * x[2] ** k)
    return out


def poly(rng, nv, deg, terms=3):
    """A random polynomial in the first nv coordinates (a number if nv is 0)."""
    if nv == 0:
        return nz(rng)
    ms = monomials(nv, deg)
    pick = rng.sample(ms[1:], min(terms, len(ms) - 1)) if len(ms) > 1 else []
    return sum((nz(rng) * m for m in pick), nz(rng) * ms[0])


def vpoly(rng, nv, n, deg):
    return tuple(poly(rng, nv, deg, 2) for _ in range(n))


def mpoly(rng, nv, n, deg):
    return tuple(tuple(poly(rng, nv, deg, 2) for _ in range(n)) for _ in range(n))


def entity_point(rng, sub):
    """A rational point in the interior of a (straight-sided) cell."""
    vs = [tuple(sympy.sympify(c) for c in v) for v in sub.vertices]
    w = [sympy.Integer(rng.randrange(1, 6)) for _ in vs]
    s = sum(w)
    return tuple(sum(a * v[i] for a, v in zip(w, vs)) / s for i in range(len(vs[0])))
