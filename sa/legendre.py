"""Legendre series, Gauss-Legendre nodes (exact polynomials; nodes are named
algebraic constants)."""
from fractions import Fraction
from functools import lru_cache
from decimal import Decimal, localcontext
from .alg import *
from . import alg
from .arr import *


@lru_cache(None)
def legendre_coefs(n):
    """monomial coefficients of P_n, low degree first"""
    if n == 0:
        return (Fraction(1),)
    if n == 1:
        return (Fraction(0), Fraction(1))
    a = legendre_coefs(n - 1)
    b = legendre_coefs(n - 2)
    r = [Fraction(0)] * (n + 1)
    for i, c in enumerate(a):
        r[i + 1] += Fraction(2 * n - 1, n) * c
    for i, c in enumerate(b):
        r[i] -= Fraction(n - 1, n) * c
    return tuple(r)


def leg_value(n, x):
    """P_n at a value"""
    r = ZERO
    p = ONE
    for c in legendre_coefs(n):
        if c:
            r = r + p.scale(c)
        p = p * x
    return r


def leg_deriv(n, x):
    r = ZERO
    p = ONE
    for i, c in enumerate(legendre_coefs(n)[1:]):
        if c:
            r = r + p.scale(c * (i + 1))
        p = p * x
    return r


def leg_poly_eval(coefs, x):
    r = ZERO
    for n, c in enumerate(coefs):
        if not c.is_zero():
            r = r + c * leg_value(n, x)
    return r


# -- Gauss nodes: for n points, node g (ascending); symmetric
def gauss_node(n, g):
    h = n // 2
    if n % 2 and g == h:
        return ZERO
    if g < h:
        return -gauss_node(n, n - 1 - g)
    if n == 2:
        return power(C(Fraction(1, 3)), Fraction(1, 2))
    if n == 3:
        return power(C(Fraction(3, 5)), Fraction(1, 2))
    return Rat.of(atom('glx', n, g, pos=True))


def gauss_weight(n, g):
    if g < n // 2:
        return gauss_weight(n, n - 1 - g)
    if n == 1:
        return C(2)
    if n == 2:
        return ONE
    if n == 3:
        return C(Fraction(8, 9)) if g == 1 else C(Fraction(5, 9))
    return Rat.of(atom('glw', n, g, pos=True))


@lru_cache(None)
def numeric_node(n, g):
    """(node, weight) with about 100 digits"""
    import math
    with localcontext() as ctx:
        ctx.prec = 125
        co = [Decimal(c.numerator) / Decimal(c.denominator) for c in legendre_coefs(n)]

        def p(x):
            r = Decimal(0)
            for c in reversed(co):
                r = r * x + c
            return r

        def dp(x):
            r = Decimal(0)
            for i in range(len(co) - 1, 0, -1):
                r = r * x + co[i] * i
            return r
        k = n - 1 - g
        x = Decimal(math.cos(math.pi * (k + 0.75) / (n + 0.5)))
        for _ in range(60):
            d = p(x) / dp(x)
            x -= d
            if abs(d) < Decimal(10) ** -118:
                break
        w = 2 / ((1 - x * x) * dp(x) ** 2)
        return +x, +w


class LegPoly:
    """instance of numpy's Legendre series class"""
    __slots__ = ('coefs', 'domain', 'window')

    def __init__(self, coefs, domain=None, window=None):
        self.coefs = tuple(coefs)
        self.domain = domain or (C(-1), ONE)
        self.window = window or (C(-1), ONE)

    def __repr__(self):
        return 'Legendre(%s)' % ', '.join(show(c) for c in self.coefs)

    def __eq__(self, o):
        return isinstance(o, LegPoly) and len(o.coefs) == len(self.coefs) and all(
            a.eq(b) for a, b in zip(self.coefs + self.domain + self.window,
                                    o.coefs + o.domain + o.window))

    def poly(self):
        """monomial coefficients in the window variable"""
        r = [ZERO] * max(len(self.coefs), 1)
        for n, c in enumerate(self.coefs):
            for i, k in enumerate(legendre_coefs(n)):
                if k:
                    r[i] = r[i] + c.scale(k)
        return r

    def mapparms(self):
        return mapparms(self.domain, self.window)

    def __call__(self, x):
        off, scl = self.mapparms()
        return leg_poly_eval(self.coefs, off + scl * x)


def mapparms(old, new):
    ol = old[1] - old[0]
    nl = new[1] - new[0]
    off = (old[1] * new[0] - old[0] * new[1]) / ol
    return off, nl / ol


def from_poly(p):
    """Legendre coefficients of a monomial polynomial"""
    p = list(p)
    out = [ZERO] * max(len(p), 1)
    for n in range(len(p) - 1, -1, -1):
        co = legendre_coefs(n)
        c = p[n].scale(1 / co[n])
        out[n] = c
        for i, k in enumerate(co):
            if k:
                p[i] = p[i] - c.scale(k)
    return trim(out)


def trim(c):
    c = list(c)
    while len(c) > 1 and c[-1].is_zero():
        c.pop()
    return c


def pmul(a, b):
    r = [ZERO] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        if x.is_zero():
            continue
        for j, y in enumerate(b):
            r[i + j] = r[i + j] + x * y
    return r


def padd(a, b):
    n = max(len(a), len(b))
    return [(a[i] if i < len(a) else ZERO) + (b[i] if i < len(b) else ZERO) for i in range(n)]


def pcompose(p, lin):
    """p(lin(x)), lin = [off, scl]"""
    r = [ZERO]
    for c in reversed(p):
        r = padd(pmul(r, lin), [c])
    return r


def same_frame(a, b):
    return all(x.eq(y) for x, y in zip(a.domain + a.window, b.domain + b.window))


def poly_op(I, op, a, b):
    if isinstance(a, LegPoly) and isinstance(b, LegPoly):
        if not same_frame(a, b):
            I.raise_('TypeError', 'Domains/windows differ')
        if op == 'Add':
            return LegPoly(trim(padd(a.coefs, b.coefs)), a.domain, a.window)
        if op == 'Sub':
            return LegPoly(trim(padd(a.coefs, [-x for x in b.coefs])), a.domain, a.window)
        if op == 'Mult':
            return LegPoly(from_poly(pmul(a.poly(), b.poly())), a.domain, a.window)
    else:
        p, s = (a, b) if isinstance(a, LegPoly) else (b, a)
        if isinstance(s, Cond):
            s = ite(s, ONE, ZERO)
        if isinstance(s, Rat):
            if op == 'Mult':
                return LegPoly([c * s for c in p.coefs], p.domain, p.window)
            if op == 'Div' and p is a:
                return LegPoly([c / s for c in p.coefs], p.domain, p.window)
            if op == 'Add':
                return LegPoly((p.coefs[0] + s,) + p.coefs[1:], p.domain, p.window)
            if op == 'Sub':
                if p is a:
                    return LegPoly((p.coefs[0] - s,) + p.coefs[1:], p.domain, p.window)
                q = [-c for c in p.coefs]
                return LegPoly([q[0] + s] + q[1:], p.domain, p.window)
            if op == 'Pow' and p is a and s.as_int() is not None:
                r = [ONE]
                for _ in range(s.as_int()):
                    r = pmul(r, p.poly())
                return LegPoly(from_poly(r), p.domain, p.window)
    raise Unsupported('%s of Legendre series' % op)


def deriv(p, m=1):
    q = p.poly()
    off, scl = p.mapparms()
    for _ in range(m):
        q = [c.scale(i + 1) * scl for i, c in enumerate(q[1:])] or [ZERO]
    return LegPoly(from_poly(q), p.domain, p.window)


def integ(I, p, m=1, lbnd=None):
    off, scl = p.mapparms()
    q = p.poly()
    lb = ZERO if lbnd is None else off + scl * lbnd
    if lbnd is None:
        lb = ZERO            # numpy: lbnd=None -> 0 in window coordinates
    for _ in range(m):
        q = [ZERO] + [c.scale(Fraction(1, i + 1)) / scl for i, c in enumerate(q)]
        v = ZERO
        for c in reversed(q):
            v = v * lb + c
        q[0] = q[0] - v
    return LegPoly(from_poly(q), p.domain, p.window)


def convert(p, domain, window):
    """p as a series with another domain/window: p(identity)"""
    # identity series in the new frame: x in domain -> line in window variable
    off, scl = mapparms(window, domain)
    po, ps = p.mapparms()
    lin = [po + ps * off, ps * scl]
    return LegPoly(from_poly(pcompose(p.poly(), lin)), domain, window)
