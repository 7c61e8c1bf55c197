"""Projection of exact symbolic values onto a prime field.

Every exact number symfem produces lives in Q or in a field Q(sqrt(2), sqrt(3), ...).  For a prime p
not dividing any denominator and for which the radicands are squares there is a ring homomorphism
from that ring onto GF(p); an identity between symfem values therefore maps to an identity between
residues.  The specification (spec/GF.tla) computes with the residues only: TLC integers are 32 bit,
so p < 46341 keeps every product below 2^31.  The direction that matters for false alarms is exact:
a true identity can never become false.  A false identity survives with probability about 1/p.
"""
import random
import sympy


class BadPrime(Exception):
    """The value has no image for this prime; use another one."""


class NotRepresentable(Exception):
    """The value is not an exact algebraic polynomial/rational expression."""


def _isprime(n):
    return sympy.isprime(n)


def _good_primes():
    out = []
    small = [2, 3, 5, 7, 11, 13]
    n = 46340
    while n > 12000:
        if _isprime(n) and all(pow(q, (n - 1) // 2, n) == 1 for q in small):
            out.append(n)
        n -= 1
    return out


_ALL = None


def all_primes():
    global _ALL
    if _ALL is None:
        _ALL = [int(q) for q in sympy.primerange(12000, 46341)]
    return _ALL


def squarefree(r):
    """Square-free integer with the same square class as the positive rational r."""
    r = sympy.Rational(r)
    out = 1
    for q, e in sympy.factorint(int(r.p) * int(r.q)).items():
        if e % 2:
            out *= int(q)
    return out


def primes_for(radicands, extra=(2, 3, 5)):
    """Primes for which all the radicands (and, if possible, the usual small ones) are squares."""
    rs = {squarefree(r) for r in radicands} - {1}
    def ok(p, s):
        return all(a % p and pow(a, (p - 1) // 2, p) == 1 for a in s)
    good = [p for p in all_primes() if ok(p, rs | set(extra))]
    return good or [p for p in all_primes() if ok(p, rs)]


_PR = None


def primes():
    global _PR
    if _PR is None:
        _PR = _good_primes()
    return _PR


def sqrt_mod(a, p):
    """A square root of a modulo p (p prime), or None."""
    a %= p
    if a == 0:
        return 0
    if pow(a, (p - 1) // 2, p) != 1:
        return None
    if p % 4 == 3:
        return pow(a, (p + 1) // 4, p)
    q, s = p - 1, 0
    while q % 2 == 0:
        q //= 2
        s += 1
    z = 2
    while pow(z, (p - 1) // 2, p) != p - 1:
        z += 1
    m, c, t, r = s, pow(z, q, p), pow(a, q, p), pow(a, (q + 1) // 2, p)
    while t != 1:
        i, t2 = 0, t
        while t2 != 1:
            t2 = t2 * t2 % p
            i += 1
        b = pow(c, 1 << (m - i - 1), p)
        m, c, t, r = i, b * b % p, t * b * b % p, r * b % p
    return r


class Projector:
    """Homomorphism onto GF(p) for numbers, polynomials and rational functions."""

    def __init__(self, p, variables=None):
        self.p = p
        if variables is None:
            from symfem.symbols import x
            variables = list(x)
        self.vars = {v: i for i, v in enumerate(variables)}
        self.nv = len(variables)
        self.zero_exp = (0,) * self.nv
        self._roots = {}
        self._memo = {}

    # -- dense-free polynomial arithmetic: dict exponent tuple -> residue
    def _padd(self, a, b):
        out = dict(a)
        p = self.p
        for k, v in b.items():
            s = (out.get(k, 0) + v) % p
            if s:
                out[k] = s
            else:
                out.pop(k, None)
        return out

    def _pmul(self, a, b):
        p = self.p
        out = {}
        for ka, va in a.items():
            for kb, vb in b.items():
                k = tuple(i + j for i, j in zip(ka, kb))
                out[k] = (out.get(k, 0) + va * vb) % p
        return {k: v for k, v in out.items() if v}

    def _ppow(self, a, n):
        out = {self.zero_exp: 1}
        for _ in range(n):
            out = self._pmul(out, a)
        return out

    def _inv(self, a):
        a %= self.p
        if a == 0:
            raise BadPrime()
        return pow(a, self.p - 2, self.p)

    def prime_root(self, q):
        if q not in self._roots:
            r = sqrt_mod(q, self.p)
            if r is None:
                raise BadPrime()
            self._roots[q] = r
        return self._roots[q]

    def _sqrt_rational(self, r):
        n, d = int(r.p), int(r.q)
        if n < 0:
            raise NotRepresentable(f"square root of {r}")
        out = 1
        for m, sign in ((n, 1), (d, -1)):
            if m == 0:
                return 0
            for q, e in sympy.factorint(m).items():
                v = pow(int(q), e // 2, self.p)
                if e % 2:
                    v = v * self.prime_root(int(q)) % self.p
                out = out * (v if sign == 1 else self._inv(v)) % self.p
        return out

    def ratfun(self, e):
        """Numerator and denominator (as dicts) of an expression."""
        one = {self.zero_exp: 1}
        if isinstance(e, (int,)):
            v = e % self.p
            return ({self.zero_exp: v} if v else {}), one
        if isinstance(e, float):
            raise NotRepresentable("float")
        e = sympy.sympify(e)
        if e in self._memo:
            return self._memo[e]
        r = self._ratfun(e)
        self._memo[e] = r
        return r

    def _ratfun(self, e):
        one = {self.zero_exp: 1}
        if e.is_Float:
            raise NotRepresentable(f"float {e}")
        if e.is_Rational:
            v = int(e.p) % self.p * self._inv(int(e.q)) % self.p
            return ({self.zero_exp: v} if v else {}), one
        if e.is_Symbol:
            if e not in self.vars:
                raise NotRepresentable(f"symbol {e}")
            k = [0] * self.nv
            k[self.vars[e]] = 1
            return {tuple(k): 1}, one
        if e.is_Add:
            n, d = {}, one
            for a in e.args:
                an, ad = self.ratfun(a)
                if ad == d:
                    n = self._padd(n, an)
                else:
                    n = self._padd(self._pmul(n, ad), self._pmul(an, d))
                    d = self._pmul(d, ad)
            return self._norm(n, d)
        if e.is_Mul:
            n, d = one, one
            for a in e.args:
                an, ad = self.ratfun(a)
                n = self._pmul(n, an)
                if ad != one:
                    d = self._pmul(d, ad)
            return self._norm(n, d)
        if e.is_Pow:
            b, x = e.args
            if x.is_Integer:
                bn, bd = self.ratfun(b)
                k = int(x)
                if k < 0:
                    bn, bd, k = bd, bn, -k
                return self._norm(self._ppow(bn, k), self._ppow(bd, k))
            if x.is_Rational and int(x.q) == 2:
                k = int(x.p)
                if b.is_Rational:
                    v = self._sqrt_rational(b)
                else:
                    bv = self.num(b)
                    v = sqrt_mod(bv, self.p)
                    if v is None:
                        raise BadPrime()
                v = pow(v, k, self.p) if k >= 0 else pow(self._inv(v), -k, self.p)
                return ({self.zero_exp: v} if v else {}), one
        raise NotRepresentable(f"{type(e).__name__}: {str(e)[:60]}")

    def _norm(self, n, d):
        if not d:
            raise BadPrime()
        if len(d) == 1 and self.zero_exp in d:
            i = self._inv(d[self.zero_exp])
            if i != 1:
                n = {k: v * i % self.p for k, v in n.items()}
            return n, {self.zero_exp: 1}
        return n, d

    def num(self, e):
        """Residue of a number."""
        n, d = self.ratfun(e)
        if any(k != self.zero_exp for k in n) or any(k != self.zero_exp for k in d):
            raise NotRepresentable(f"not a number: {str(e)[:60]}")
        return n.get(self.zero_exp, 0) * self._inv(d.get(self.zero_exp, 0)) % self.p

    def terms(self, d):
        return [[v] + list(k) for k, v in sorted(d.items())]

    def scalar(self, e):
        """[numerator terms, denominator terms]; an empty denominator stands for 1."""
        n, d = self.ratfun(e)
        one = {self.zero_exp: 1}
        return [self.terms(n), [] if d == one else self.terms(d)]

    def plain(self, f):
        """A non-piecewise function in sympy format -> {"sh": shape, "c": components}."""
        if isinstance(f, sympy.MatrixBase):
            return {"sh": [f.rows, f.cols],
                    "c": [self.scalar(f[i, j]) for i in range(f.rows) for j in range(f.cols)]}
        if isinstance(f, (tuple, list)):
            return {"sh": [len(f)], "c": [self.scalar(c) for c in f]}
        return {"sh": [], "c": [self.scalar(f)]}

    def point(self, pt):
        return [self.num(c) for c in pt]

    def func(self, f):
        """Any symfem function (or sympy format value) -> list of pieces.

        A function is a sequence of pieces; "v" is the sequence of vertices of the piece (empty: the
        whole domain), each vertex a sequence of <<num, den>> rationals; "f" is the plain function.
        """
        if hasattr(f, "get_function"):
            f = f.get_function()
        if hasattr(f, "as_sympy"):
            if hasattr(f, "pieces") and not isinstance(f, (tuple, list)):
                return [{"v": [[rat(c) for c in v] for v in vs], "f": self.plain(as_plain(g))}
                        for vs, g in f.pieces.items()]
            f = f.as_sympy()
        if isinstance(f, dict):
            return [{"v": [[rat(c) for c in v] for v in vs], "f": self.plain(as_plain(g))}
                    for vs, g in f.items()]
        return [{"v": [], "f": self.plain(f)}]


def as_plain(g):
    if hasattr(g, "get_function"):
        g = g.get_function()
    if hasattr(g, "as_sympy"):
        g = g.as_sympy()
    return g


def rat(c):
    c = sympy.sympify(c)
    if not c.is_Rational:
        raise NotRepresentable(f"not rational: {c}")
    n, d = int(c.p), int(c.q)
    if abs(n) >= 2 ** 31 or d >= 2 ** 31:
        raise NotRepresentable("large rational")
    return [n, d]


def with_prime(rng, fn, tries=60):
    """Run fn(Projector) for randomly chosen primes until one represents every value."""
    ps = list(primes())
    rng.shuffle(ps)
    for p in ps[:tries]:
        try:
            return fn(Projector(p))
        except BadPrime:
            continue
    raise NotRepresentable("no suitable prime")
