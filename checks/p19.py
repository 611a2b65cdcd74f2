"""Hierarchical reconstruction of a flagged cell."""
from sa import alg
from sa.model import *

RULE = ('Limiter.limit is interpreted with every cell flagged, for each order, arbitrary coefficients, a symbolic '
        'number of cells and an arbitrary interior cell; the new coefficients are compared with hierarchical '
        'reconstruction of the Taylor expansions of the cell and its neighbours. The minmod function is decided '
        'separately on all arguments and otherwise treated as an odd, symmetric, positively homogeneous function.')
BOUNDED = True


def run(ctx):
    ctx.rule(RULE)
    ctx.minimum = 40
    minmod_itself(ctx)
    integrals(ctx)
    for p in ctx.orders(range(0, 10 if ctx.thorough else 7), 9, 4):
        cellwise(ctx, p, 'advection')
    cellwise(ctx, 2, 'euler')
    for p in ctx.orders(range(0, 8 if ctx.thorough else 5), 9, 4):
        consequences(ctx, p)


# ------------------------------------------------------------------- minmod
def minmod(a, b):
    return ite(cand(cgt(a, ZERO), cgt(b, ZERO)), rmin(a, b),
               ite(cand(clt(a, ZERO), clt(b, ZERO)), rmax(a, b), ZERO))


def lead(a):
    """leading coefficient of a polynomial value"""
    return C(a.num[max(a.num)]) if not a.den else ONE


def mm(a, b):
    """opaque minmod in a canonical form (odd, symmetric, homogeneous)"""
    if a.eq(b):
        return a
    if a.is_zero() or b.is_zero():
        return ZERO
    la, lb = lead(a), lead(b)
    na, nb = a / la, b / lb
    if na.eq(nb):
        t = (la / lb).as_const()
        return ZERO if t < 0 else a if t < 1 else b
    if nb.key() < na.key():
        a, b, la, na = b, a, lb, nb
    return la * fn('minmod', na, b / la)


alg.REBUILD['minmod'] = lambda args, at: mm(*args)


def opaque_minmod(I, seen):
    try:
        f = member(I, module(I, 'dg1d.limiting'), 'scalar_minmod')
    except Vanished:
        return

    def g(I, func_, args, kw):
        a = bind2(func_, args, kw)
        if len(a) != 2:
            return NotImplemented
        if all(isinstance(x, Rat) for x in a):
            seen.append(1)
            return mm(a[0], a[1])
        if all(isinstance(x, View) for x in a) and len(a[0].shape) == len(a[1].shape) and \
                all(x.eq(y) for x, y in zip(a[0].shape, a[1].shape)):
            seen.append(1)
            g, h = I.getter(a[0]), I.getter(a[1])
            return I.arr(a[0].shape, lambda ix: mm(g(ix), h(ix)))
        return NotImplemented
    I.intercept['dg1d.limiting.scalar_minmod'] = g


def minmod_itself(ctx):
    I = interp(ctx)
    a, b = finite(sym('a')), finite(sym('b'))
    try:
        f = func(I, 'dg1d.limiting', 'scalar_minmod')
    except Vanished:
        return
    ctx.eq('minmod', invoke(ctx, I, 'minmod', f, (a, b)), minmod(a, b))


def integrals(ctx):
    for k in range(0, 4):
        for n in range(k, 6):
            I = interp(ctx)
            a, b = finite(sym('a')), finite(sym('b'))

            def ref(a, b):
                q = n - k + 1
                w = ONE
                for j in range(1, q + 1):
                    w = w * C(j)
                pa = pb = ONE
                for j in range(q):
                    pa, pb = pa * a, pb * b
                return (pb - pa) / w
            try:
                f = func(I, 'dg1d.limiting', 'integrate_monomial_derivative')
                ctx.eq('integral of the %d-th derivative of x^%d/%d! over the cell' % (k, n, n),
                       invoke(ctx, I, 'integral', f, (C(k), C(n))), ref(C(-1), ONE))
                f = func(I, 'dg1d.limiting', 'integrate_monomial_derivative_bounds')
                ctx.eq('integral of the %d-th derivative of x^%d/%d! over [a, b]' % (k, n, n),
                       invoke(ctx, I, 'integral', f, (C(k), C(n), a, b)), ref(a, b))
            except Vanished:
                return


# ---------------------------------------------------------------- reference
def taylor(p):
    """T[n][j]: n-th derivative at 0 of the Legendre polynomial j"""
    out = []
    for n in range(p + 1):
        row = []
        for j in range(p + 1):
            co = legcoef(j)
            f = ONE
            for q in range(1, n + 1):
                f = f * C(q)
            row.append(f * C(co[n]) if n < len(co) else ZERO)
        out.append(row)
    return out


def legcoef(j):
    a, b = [Fraction(1)], [Fraction(0), Fraction(1)]
    if j == 0:
        return a
    for n in range(1, j):
        c = [Fraction(0)] * (n + 2)
        for i, v in enumerate(b):
            c[i + 1] += Fraction(2 * n + 1, n + 1) * v
        for i, v in enumerate(a):
            c[i] -= Fraction(n, n + 1) * v
        a, b = b, c
    return b


def solve_upper(T, a):
    """coefficients u with T u = a, T upper triangular"""
    n = len(a)
    u = [ZERO] * n
    for i in range(n - 1, -1, -1):
        s = a[i]
        for j in range(i + 1, n):
            s = s - T[i][j] * u[j]
        u[i] = s / T[i][i]
    return u


def fact(n):
    r = 1
    for k in range(2, n + 1):
        r *= k
    return r


def average(co, x0):
    """average over [x0, x0+2] of sum co[k] x^k/k!"""
    s = ZERO
    for k, c in enumerate(co):
        s = s + c * C(Fraction((x0 + 2) ** (k + 1) - x0 ** (k + 1), 2 * fact(k + 1)))
    return s


def hr_ref(p, uc, ul, ur, mmf):
    """hierarchical reconstruction; Legendre coefficients in and out"""
    T = taylor(p)

    def tay(u):
        return [sum((T[n][j] * u[j] for j in range(p + 1)), ZERO) for n in range(p + 1)]
    a, l, r = tay(uc), tay(ul), tay(ur)
    if p == 0:
        return list(uc)
    lim = [ZERO] * (p + 1)
    for m in range(p, 0, -1):
        # candidate averages of the linear part of the (m-1)-th derivative
        rest = [ZERO, ZERO] + lim[m + 1:]
        L = [average(x[m - 1:], -1) - average(rest, x0) for x, x0 in ((l, -3), (a, -1), (r, 1))]
        lim[m] = mmf((L[1] - L[0]) * HALF, (L[2] - L[1]) * HALF)
        lim[0] = L[1]
    return solve_upper(T, lim)


# ------------------------------------------------------------------ analysis
def flag_all(I, value=ONE):
    def f(I, func_, args, kw):
        self_ = bind2(func_, args, kw)[0]
        v = member(I, self_, 'sensors')
        I.setattr_(self_, 'sensors', I.arr(v.shape, lambda ix: value))
        return None
    I.intercept['dg1d.sensor.Sensor.sensing'] = f


def limited(ctx, p, system, U=None, seen=None, tag=''):
    I = interp(ctx)
    sol = solution(ctx, I, 'sinewave' if system == 'advection' else 'entrpyw', p, 'roe', '', ('0.1', '0.2'))
    nf = 1 if system == 'advection' else 3
    if U is None:
        set_u(I, sol, 'U')
    else:
        u = member(I, sol, 'u')
        I.setattr_(sol, 'u', I.arr(u.shape, lambda ix: U(ix[0].as_int(), ix[1]) if ix[0].as_int() is not None
                                   else Rat.of(atom('elem', 'V', tuple(ix)))))
    set_bc(I, sol, 'zerograd', 'zerograd')
    L = invoke(ctx, I, 'Limiter', func(I, 'dg1d.limiting', 'Limiter'), ('adaptive_hr', sol))
    flag_all(I)
    if seen is not None:
        opaque_minmod(I, seen)
    if p <= 2 and U is None:
        # an earlier use, on other data
        u = member(I, sol, 'u')
        set_u(I, sol, 'W')
        warm(I, member(I, L, 'limit'), (sol,))
        I.setattr_(sol, 'u', u)
    invoke(ctx, I, tag + 'limit', member(I, L, 'limit'), (sol,))
    return I, sol, nf


def interior():
    return cell('e', TWO, NE - ONE)


def cellwise(ctx, p, system):
    tag = '%s p=%d: ' % (system, p)
    seen = []
    I, sol, nf = limited(ctx, p, system, None, seen, tag)
    e = interior()
    for f in range(nf):
        cols = [[elem2('U', C(j), (e + C(d)) * C(nf) + C(f)) for j in range(p + 1)] for d in (0, -1, 1)]
        want = hr_ref(p, *cols, mm if seen else minmod)
        for m in range(p + 1):
            got = coef(I, sol, m, e, f)
            ctx.eq(tag + 'mode %d field %d' % (m, f), got, want[m], bound=not seen and p > 2)
        ctx.eq(tag + 'field %d keeps the average of the cell' % f, coef(I, sol, 0, e, f), cols[0][0])


def consequences(ctx, p):
    """data of one polynomial of degree p is left alone"""
    c = [finite(sym('c%d' % k)) for k in range(p + 1)]
    T = taylor(p)

    def coefs(x):
        # Taylor coefficients about the centre x of sum c_k t^k / k!  (t in half cells)
        a = []
        for n in range(p + 1):
            s = ZERO
            for k in range(n, p + 1):
                xp = ONE
                for q in range(k - n):
                    xp = xp * x
                s = s + c[k] * xp / C(fact(k - n))
            a.append(s)
        return solve_upper(T, a)
    seen = []
    tag = 'p=%d: ' % p
    I, sol, nf = limited(ctx, p, 'advection', lambda m, col: coefs(col * TWO)[m], seen, tag)
    e = interior()
    want = coefs(e * TWO)
    for m in range(p + 1):
        ctx.eq(tag + 'one polynomial of degree %d over the cells is kept, mode %d' % (p, m),
               coef(I, sol, m, e, 0), want[m], bound=not seen)
