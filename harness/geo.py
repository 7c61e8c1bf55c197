"""Random cells with exact rational vertices."""
import itertools

import sympy

import proj


def is_affine(cell, verts):
    v = [proj._S(w) for w in verts]
    ax = [[b - a for a, b in zip(v[0], v[i])] for i in proj.AXIS[cell]]
    for r, w in zip(proj.DEFAULT[cell], v):
        if any(v[0][g] + sum(r[a] * ax[a][g] for a in range(len(ax))) != w[g] for g in range(len(w))):
            return False
    return True


def gram(ax):
    return sympy.Matrix([[sum(a * b for a, b in zip(u, w)) for w in ax] for u in ax]).det() if ax else 1


def affine_cell(cell, rng, gd, frac=True):
    """A non-degenerate affine image of the reference cell in gd dimensions."""
    td = proj.DIM[cell]
    den = rng.choice([1, 1, 1, 2, 3]) if frac else 1
    q = lambda a, b: sympy.Rational(rng.randrange(a, b), den)  # noqa: E731
    while True:
        o = [q(-3, 4) for _ in range(gd)]
        ax = [[q(-3, 5) for _ in range(gd)] for _ in range(td)]
        if gram(ax) != 0:
            break
    out = []
    for r in proj.DEFAULT[cell]:
        out.append(tuple(o[i] + sum(r[a] * ax[a][i] for a in range(td)) for i in range(gd)))
    if all(c.q == 1 for v in out for c in v):
        out = [tuple(int(c) for c in v) for v in out]
    return tuple(out)


def image(cell, o, ax):
    return tuple(tuple(sympy.sympify(o[i] + sum(r[a] * ax[a][i] for a in range(len(ax)))) for i in range(len(o)))
                 for r in proj.DEFAULT[cell])


def special_cells(cell, rng):
    """Cells whose maps are special: renumberings of the reference cell (among them maps that are their own
    inverses), translations, reflections, scalings, shears of the same volume and a rotation."""
    td = proj.DIM[cell]
    ref = [tuple(v) for v in proj.DEFAULT[cell]]
    out = []
    autos = []
    for vs in itertools.permutations(ref, td + 1):
        ax0 = [[b - a for a, b in zip(vs[0], w)] for w in vs[1:]]
        im = image(cell, vs[0], ax0)
        if gram(ax0) != 0 and set(im) == set(ref) and list(im) != ref:
            autos.append(im)
    own = [v for v in autos if all(image(cell, v[0], [[b - a for a, b in zip(v[0], v[i])] for i in proj.AXIS[cell]])[ref.index(w)]
                                   == r for w, r in zip(v, ref))]
    if autos:
        out.append(rng.choice(autos))
    if own:
        out.append(rng.choice(own))
    e = [[int(i == j) for j in range(td)] for i in range(td)]
    zero = [0] * td
    o = [rng.randrange(-2, 3) or 3 for _ in range(td)]
    k = sympy.Rational(rng.choice((2, 3, -1, -2)), rng.choice((1, 1, 2)))
    out.append(image(cell, o, e))
    out.append(image(cell, o, [[k * c for c in r] for r in e]))
    out.append(image(cell, o, [[-c for c in r] for r in e]))
    if td > 1:
        sh = [list(r) for r in e]
        i, j = rng.sample(range(td), 2)
        sh[i][j] = rng.choice((-2, -1, 1, 2))
        out.append(image(cell, zero, sh))
        q = [[sympy.Rational(3, 5), sympy.Rational(4, 5)], [sympy.Rational(-4, 5), sympy.Rational(3, 5)]]
        rot = [[q[i][j] if i < 2 and j < 2 else int(i == j) for j in range(td)] for i in range(td)]
        out.append(image(cell, rng.choice((zero, o)), rot))
    return [tuple(tuple(int(c) if c.is_Integer else c for c in v) for v in w) for w in out]


def warped_cell(cell, rng, gd):
    """A cell of quadrilateral type whose vertices are not an affine image."""
    while True:
        v = [list(w) for w in affine_cell(cell, rng, gd, frac=False)]
        w = v[-1] if cell != "pyramid" else v[3]
        w[rng.randrange(gd)] += rng.choice([1, 2])
        v = tuple(tuple(c for c in u) for u in v)
        if not is_affine(cell, v):
            return v


def convex_quad(rng):
    """A strictly convex quadrilateral of either orientation, in reference vertex order."""
    while True:
        v = [(rng.randrange(-4, 6), rng.randrange(-4, 6)) for _ in range(4)]
        loop = [v[0], v[1], v[3], v[2]]
        s = []
        for i in range(4):
            a, b, c = loop[i], loop[(i + 1) % 4], loop[(i + 2) % 4]
            s.append((b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0]))
        if all(k > 0 for k in s) or all(k < 0 for k in s):
            return tuple(v)
