"""Polynomial basis, quadrature and projection."""
from sa.model import *
from sa import legendre as LG

RULE = ('Basis(p) is interpreted symbolically for each order; every table is compared, as an exact '
        'algebraic number, with the Legendre/Gauss definition; the projection is compared for an '
        'uninterpreted function and the polynomial helpers for generic coefficients.')


def run(ctx):
    ctx.rule(RULE)
    ctx.minimum = 120
    orders = ctx.around(range(0, 13) if ctx.thorough else range(0, 10))
    for p in orders:
        I = interp(ctx)
        n = p + 1
        B = run_(ctx, I, p)
        at = lambda name, *ix: I.at(member(I, B, name), *ix)
        ctx.eq('p=%d order' % p, member(I, B, 'p'), C(p))
        ctx.eq('p=%d number of coefficients' % p, member(I, B, 'N_s'), C(n))
        x, w = member(I, B, 'x'), member(I, B, 'w')
        ng = x.shape[0].as_int()
        if not ctx.ob('p=%d as many quadrature nodes as weights' % p,
                      ng is not None and w.shape[0].as_int() == ng
                      and member(I, B, 'N_G') == C(ng), 'shapes %r %r' % (x.shape, w.shape)):
            continue
        xs = [at('x', g) for g in range(ng)]
        ws = [at('w', g) for g in range(ng)]
        for k in range(2 * p + 2):
            s = ZERO
            for a, b in zip(xs, ws):
                s = s + b * a.ipow(k)
            ctx.eq('p=%d quadrature integrates degree %d exactly' % (p, k), s,
                   C(Fraction(2, k + 1)) if k % 2 == 0 else ZERO)
        for nm, sh in (('phi', (ng, n)), ('dphi_w', (n, ng)), ('psi', (2, n)), ('m', (n,)),
                       ('minv', (n,))):
            v = member(I, B, nm)
            ctx.ob('p=%d shape of %s' % (p, nm), tuple(s.as_int() for s in v.shape) == sh,
                   'shape %r, required %r' % (v.shape, sh))
        for j in range(n):
            for g in range(ng):
                ctx.eq('p=%d phi[%d,%d] is P_%d at node %d' % (p, g, j, j, g), at('phi', g, j),
                       leg(j, xs[g]))
                ctx.eq('p=%d gradient table [%d,%d] is w P\'' % (p, j, g), at('dphi_w', j, g),
                       ws[g] * dleg(j, xs[g]))
            ctx.eq('p=%d left edge value %d' % (p, j), at('psi', 0, j), C((-1) ** j))
            ctx.eq('p=%d right edge value %d' % (p, j), at('psi', 1, j), ONE)
            ctx.eq('p=%d mass %d' % (p, j), at('m', j), C(Fraction(2, 2 * j + 1)))
            ctx.eq('p=%d inverse mass %d' % (p, j), at('minv', j), C(Fraction(2 * j + 1, 2)))
        # projection of an arbitrary function on an arbitrary interval
        a, h = finite(sym('a')), sym('h', pos=True)
        b = a + h
        for comp in (0, 1, 2):
            f = Native(lambda I_, args, kw: I_.list_([fn('f%d' % c, args[0]) for c in range(3)]), 'f')
            args = (a, b, f) if comp == 0 else (a, b, f, C(comp))
            g = Native(lambda I_, args, kw: I_.list_([fn('g%d' % c, args[0]) for c in range(3)]), 'f')
            warm(I, member(I, B, 'projection'), (a, b, g) + args[3:])
            r = invoke(ctx, I, 'projection p=%d' % p, member(I, B, 'projection'), args)
            if not ctx.ob('p=%d projection gives p+1 coefficients' % p,
                          isinstance(r, View) and [s.as_int() for s in r.shape] == [n], repr(r)):
                break
            X, W = nodes(p)
            for j in range(n):
                s = ZERO
                for g in range(n):
                    s = s + W[g] * leg(j, X[g]) * fn('f%d' % comp, a + h * (ONE + X[g]) * HALF)
                ctx.eq('p=%d projection of component %d, coefficient %d' % (p, comp, j),
                       I.at(r, j), s * C(Fraction(2 * j + 1, 2)))
        if p <= 4:
            for d in range(p + 1):      # exactness on polynomials of degree d
                f = Native(lambda I_, args, kw: I_.list_([num_(args[0]).ipow(d)]), 'poly')
                r = invoke(ctx, I, 'projection of x^%d' % d, member(I, B, 'projection'), (a, b, f))
                for g in range(p + 1):
                    y = C(Fraction(2 * g, p + 1) - 1) if p else ZERO
                    s = ZERO
                    for j in range(n):
                        s = s + I.at(r, j) * leg(j, y)
                    ctx.eq('p=%d projection reproduces degree %d' % (p, d), s,
                           (a + h * (ONE + y) * HALF).ipow(d))
    several(ctx)
    helpers(ctx)


def several(ctx):
    """bases of different orders in one program do not disturb one another"""
    I = interp(ctx)
    orders = (3, 1, 3, 0, 2)
    Bs = [run_(ctx, I, p) for p in orders]
    for k, (p, B) in enumerate(zip(orders, Bs)):
        at = lambda name, *ix: I.at(member(I, B, name), *ix)
        x, w = member(I, B, 'x'), member(I, B, 'w')
        if not ctx.ob('basis %d of order %d has p+1 nodes' % (k, p), x.shape[0].as_int() == p + 1, repr(x.shape)):
            continue
        for j in range(p + 1):
            for g in range(p + 1):
                ctx.eq('basis %d phi[%d,%d]' % (k, g, j), at('phi', g, j), leg(j, at('x', g)))
                ctx.eq('basis %d gradient[%d,%d]' % (k, j, g), at('dphi_w', j, g), at('w', g) * dleg(j, at('x', g)))
            ctx.eq('basis %d left edge %d' % (k, j), at('psi', 0, j), C((-1) ** j))
            ctx.eq('basis %d inverse mass %d' % (k, j), at('minv', j), C(Fraction(2 * j + 1, 2)))


def num_(x):
    return x if isinstance(x, Rat) else C(x)


def run_(ctx, I, p):
    return invoke(ctx, I, 'Basis(%d)' % p, func(I, 'dg1d.basis', 'Basis'), (C(p),))


def helpers(ctx):
    I = interp(ctx)
    shift = func(I, 'dg1d.basis', 'shift_legendre_polynomial')
    integ = func(I, 'dg1d.basis', 'integrate_legendre_product')
    N = 6 if ctx.thorough else 4
    y = finite(sym('y'))
    L = Ext('numpy.polynomial.legendre.Legendre')
    for d in range(N + 1):
        co = [finite(sym('c%d' % i)) for i in range(d + 1)]
        l = I.call(L, (I.list_(co),), {})
        for s in (Fraction(2), Fraction(-2), Fraction(1, 3), Fraction(-5, 7)):
            r = invoke(ctx, I, 'shift_legendre_polynomial', shift, (l, C(s)))
            v = I.call(r, (y,), {})
            want = ZERO
            for i, c in enumerate(co):
                want = want + c * leg(i, y + C(s))
            ctx.eq('shifting a degree %d polynomial by %s' % (d, s), v, want)
        m = [finite(sym('d%d' % i)) for i in range(N - d + 1)]
        if m:
            l2 = I.call(L, (I.list_(m),), {})
            r = invoke(ctx, I, 'integrate_legendre_product', integ, (l, l2))
            want = ZERO
            for i in range(min(len(m), len(co))):
                want = want + co[i] * m[i] * C(Fraction(2, 2 * i + 1))
            ctx.eq('integral of a product of degrees %d and %d' % (d, len(m) - 1), r, want)
    for d in range(15):
        for e in range(15):
            l1 = I.call(Ext('numpy.polynomial.legendre.Legendre.basis'), (C(d),), {})
            l2 = I.call(Ext('numpy.polynomial.legendre.Legendre.basis'), (C(e),), {})
            r = invoke(ctx, I, 'integrate_legendre_product', integ, (l1, l2))
            ctx.eq('integral of P_%d P_%d' % (d, e), r,
                   C(Fraction(2, 2 * d + 1)) if d == e else ZERO)
