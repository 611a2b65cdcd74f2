"""Initial states, boundary conditions and ratio of specific heats of the named problems."""
from sa.model import *
from sa.lib import sfun
from .p10 import DOMAIN, num

RULE = ('Solution() is interpreted for every named problem; each coefficient of an arbitrary cell is compared with '
        'the Gauss projection of the documented state, the boundary conditions and gamma with the documented ones, '
        'also after another solution with a different gamma was created.')


def c(x):
    return C(Fraction(str(x)))


def euler(rho, v, p, g):
    return rho, rho * v, p / (g - ONE) + rho * v * v * HALF


def sin(x):
    return sfun('sin', x)


def profiles(I):
    pi = I.attr(Ext('numpy'), 'pi')
    g14 = C(Fraction(7, 5))

    def simplew(x):
        g = C(3)

        def ramp(y):
            return sfun('tanh', y / (c('0.25') - y * y)) / g
        lo, hi = ramp(x + ONE), ramp(x - ONE)
        u = ite(cle(x, c('-1.5')), -TWO / g,
                ite(clt(x, c('-0.5')), -ONE / g + lo,
                    ite(cle(x, HALF), ZERO, ite(clt(x, c('1.5')), ONE / g + hi, TWO / g))))
        a = ONE - (g - ONE) / TWO * rabs(u)
        rho = g * power(a, TWO / (g - ONE))
        return euler(rho, u, rho * a * a / g, g)

    def acsticw(x):
        cs = sfun('cos', pi * x * HALF)
        h = c('0.0001') * cs.ipow(8)
        return euler(ONE + h, ZERO, ONE / g14 + h, g14)

    def scktube(x):
        q = [finite(sym(n)) for n in TUBE]
        l = clt(x, q[0])
        return euler(*[ite(l, q[k], q[k + 3]) for k in (1, 2, 3)], g14)

    def shuoshe(x):
        l = clt(x, ONE)
        return euler(ite(l, c('3.857143'), ONE + c('0.2') * sin(c(5) * (x - c(5)))),
                     ite(l, c('2.629369'), ZERO), ite(l, c('10.333333'), ONE), g14)
    return {
        'sinewave': (lambda x: (sin(TWO * pi * x),), 'periodic', g14),
        'ictest': (lambda x: (sin(x - pi / C(3)).ipow(3) + ONE,), 'periodic', g14),
        'simplew': (simplew, 'zerograd', C(3)),
        'entrpyw': (lambda x: euler(ONE + c('0.2') * sin(pi * x), ONE, ONE, g14), 'periodic', g14),
        'acsticw': (acsticw, 'periodic', g14),
        'scktube': (scktube, 'zerograd', g14),
        'shuoshe': (shuoshe, 'zerograd', g14)}




# problems on the same domain
ALIKE = {'sinewave': 'ictest', 'ictest': 'sinewave', 'entrpyw': 'acsticw', 'acsticw': 'scktube', 'scktube': 'entrpyw'}


def run(ctx):
    ctx.rule(RULE)
    ctx.minimum = 60
    for ic in DOMAIN:
        for p in ctx.orders(range(0, 7 if ctx.thorough else 4)):
            for before in (None, 'simplew', 'scktube', ic, ALIKE.get(ic)) if p == 1 else (None,):
                one(ctx, ic, p, before)


def whole(v):
    """does the value use that the number of the cell is an integer?"""
    return any(a.kind not in ('sym', 'prime', 'sin', 'cos', 'tanh', 'abs', 'ite', 'pow', 'spow', 'cpow', 'polybase')
               for a in deep_atoms(v).values())


def one(ctx, ic, p, before):
    I = interp(ctx)
    if before:
        # a problem of the same domain at the same order, or this one at another order
        solution(ctx, I, before, 2 if before == ic else 1)
        if before == 'scktube':
            const_gamma(I, gamma_sym())
    sol = solution(ctx, I, ic, p)
    tag = '%s p=%d%s ' % (ic, p, ' after ' + before if before else '')
    f, bc, g = profiles(I)[ic]
    nf = 1 if ICS[ic][0] == 'advection' else 3
    for n in ('bc_l', 'bc_r'):
        v = member(I, sol, n)
        ctx.ob(tag + n, v == bc, 'is %r, should be %r' % (v, bc))
    m = module(I, 'dg1d.constants')
    if nf == 3:
        ctx.eq(tag + 'gamma', member(I, m, 'gamma'), g)
    A, B = (C(x) for x in DOMAIN[ic])
    dx = (B - A) / NE
    e = cell()
    xc = A + dx * (e - HALF)
    X, W = nodes(p)
    vals = [f(xc + dx * HALF * x) for x in X]
    for k in range(nf):
        if p > 1 and ic == 'simplew':
            # many cases in every node: the values at the nodes determine the coefficients
            for i, x in enumerate(X):
                got = ZERO
                for j in range(p + 1):
                    got = got + coef(I, sol, j, e, k) * leg(j, x)
                ctx.eq(tag + 'field %d at node %d' % (k, i), got, vals[i][k])
            continue
        for j in range(p + 1):
            s = ZERO
            for x, w, v in zip(X, W, vals):
                s = s + w * leg(j, x) * v[k]
            got = coef(I, sol, j, e, k)
            if p == 0 and not whole(got):
                # cell centres are dense in the domain: compare as functions of the position
                y = (B - A) / (ONE + sym('q', pos=True)) + A
                r = {e: NE * (y - A) / (B - A) + HALF}
                ctx.eq(tag + 'field %d at any cell centre' % k, subst(got, r), f(y)[k])
                continue
            ctx.eq(tag + 'field %d coefficient %d' % (k, j), got, s * C(Fraction(2 * j + 1, 2)))
