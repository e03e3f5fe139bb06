"""Field elements as polynomials over the rationals in opaque atoms (canonical, so equal expressions are identical terms).

`fe` terms: mk("fe", ((monomial, numerator, denominator), ...)); a monomial is ((atom id order), exponent) pairs.  An identity
of such polynomials holds in every field whose characteristic divides no denominator.  A vector (SIMD) element is
mk("simd", (fe, ...)), with element-wise operations and broadcasting of scalars."""
from fractions import Fraction
from terms import *

_poly = {}


def pack(p):
    p = {m: c for m, c in p.items() if c}
    t = mk("fe", tuple((m, c.numerator, c.denominator) for m, c in sorted(p.items(), key=lambda x: [(a.id, e) for a, e in x[0]])))
    _poly[t] = p
    return t


def poly(t):
    if t.op == "fe":
        p = _poly.get(t)
        if p is None:
            p = {m: Fraction(n, d) for m, n, d in t.a[0]}
            _poly[t] = p
        return p
    if t.op == "int":
        return {(): Fraction(t.a[0])} if t.a[0] else {}
    return {((t, 1),): Fraction(1)}


def fe(x):
    """python number or term -> fe term"""
    if isinstance(x, (int, Fraction)):
        return pack({(): Fraction(x)})
    return x if x.op in ("fe", "simd") else pack(poly(x))


def atom(name):
    t = mk("sym", name, "in")
    return pack({((t, 1),): Fraction(1)})


ZERO, ONE = fe(0), fe(1)
HALF = fe(Fraction(1, 2))
LIMIT = 60000


class TooBig(Exception):
    pass


def lift2(f):
    def g(x, y):
        if x.op == "simd" or y.op == "simd":
            n = len(x.a[0]) if x.op == "simd" else len(y.a[0])
            xs = x.a[0] if x.op == "simd" else (x,) * n
            ys = y.a[0] if y.op == "simd" else (y,) * n
            return mk("simd", tuple(f(a, b) for a, b in zip(xs, ys)))
        return f(x, y)
    return g


@lift2
def fadd(x, y):
    p = dict(poly(x))
    for m, c in poly(y).items():
        p[m] = p.get(m, 0) + c
    return pack(p)


def fneg(x):
    if x.op == "simd":
        return mk("simd", tuple(map(fneg, x.a[0])))
    return pack({m: -c for m, c in poly(x).items()})


def fsub(x, y):
    return fadd(fe(x), fneg(fe(y)))


def mmul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(d.items(), key=lambda x: x[0].id))


@lift2
def fmul(x, y):
    px, py = poly(x), poly(y)
    if len(px) * len(py) > LIMIT * 8:
        raise TooBig("polynomial too large")
    p = {}
    for m1, c1 in px.items():
        for m2, c2 in py.items():
            m = mmul(m1, m2)
            p[m] = p.get(m, 0) + c1 * c2
    if len(p) > LIMIT:
        raise TooBig("polynomial too large")
    return pack(p)


def fpow(x, n):
    r = fe(1)
    for _ in range(n):
        r = fmul(r, x)
    return r


def const_of(t):
    p = poly(t)
    if not p:
        return Fraction(0)
    if len(p) == 1 and () in p:
        return p[()]
    return None


def feq(x, y):
    """x = y as a condition"""
    if x.op == "simd" or y.op == "simd":
        n = len(x.a[0]) if x.op == "simd" else len(y.a[0])
        xs = x.a[0] if x.op == "simd" else (x,) * n
        ys = y.a[0] if y.op == "simd" else (y,) * n
        r = TRUE
        for a, b in zip(xs, ys):
            r = band(r, feq(a, b))
        return r
    d = poly(fsub(x, y))
    if not d:
        return TRUE
    if set(d) == {()}:
        return FALSE
    lead = sorted(d, key=lambda m: [(a.id, e) for a, e in m])[-1]
    return mk("feq0", pack({m: c / d[lead] for m, c in d.items()}))


def atoms(t, out=None):
    out = set() if out is None else out
    for m in poly(t):
        for a, _ in m:
            out.add(a)
    return out


P = (1 << 61) - 1


def value(t, val):
    """value modulo a large prime under val: atom -> int"""
    r = 0
    for m, c in poly(t).items():
        x = c.numerator % P * pow(c.denominator, P - 2, P)
        for a, e in m:
            x = x * pow(val[a], e, P) % P
        r += x
    return r % P


def total(xs):
    r = fe(0)
    for x in xs:
        r = fadd(r, x)
    return r


def prod(xs):
    r = fe(1)
    for x in xs:
        r = fmul(r, x)
    return r


def eq_table(rs):
    """[eq(rs, b) for b in 0 .. 2^n), least significant bit first"""
    out = [fe(1)]
    for r in rs:
        out = [fmul(x, fsub(fe(1), r)) for x in out] + [fmul(x, r) for x in out]
    return out


def eq_vec(a, b):
    return prod(fadd(fmul(x, y), fmul(fsub(fe(1), x), fsub(fe(1), y))) for x, y in zip(a, b))


def lagrange(vals, x):
    """value at x of the polynomial through (0, vals[0]), (1, vals[1]), ..."""
    n = len(vals)
    r = fe(0)
    for i in range(n):
        num, den = fe(1), Fraction(1)
        for j in range(n):
            if j != i:
                num = fmul(num, fsub(x, fe(j)))
                den *= i - j
        r = fadd(r, fmul(fmul(num, fe(1 / den)), vals[i]))
    return r
