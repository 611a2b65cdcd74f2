"""Sensors."""
from sa.model import *

RULE = ('Sensor.sensing is interpreted for arbitrary coefficients (admissible averages for Euler), thresholds, a '
        'symbolic number of cells, an arbitrary cell and arbitrary earlier sensor values; the flag of the cell is '
        'compared with the definition over its two faces.')
BOUNDED = True


def run(ctx):
    ctx.rule(RULE)
    ctx.minimum = 12
    for p in ctx.orders((0, 1, 2, 3, 4), hard=12):
        advection(ctx, p)
    for p in ctx.orders((0,)):
        euler(ctx, p, gamma_sym())
    euler(ctx, 1, C(Fraction(7, 5)))


def sense(x):
    return TWO * x / ((ONE + x) * (ONE + x))


def advection_flag(th, a, b):
    return cgt(sense(rabs(b - a)), th)


def setup(ctx, I, ic, p, nth):
    th = [sym('th%d' % k, pos=True) for k in range(nth)]
    sol = solution(ctx, I, ic, p, '', '', th)
    sen = member(I, sol, 'sensors')
    v = member(I, sen, 'sensors')
    if not ctx.ob('one sensor per cell and ghost', isinstance(v, View) and len(v.shape) == 1
                  and v.shape[0].eq(NE + TWO), repr(v)):
        raise Stop()
    # whatever the sensors were before
    I.setattr_(sen, 'sensors', I.arr(v.shape, lambda ix: Rat.of(atom('elem', 'old', tuple(ix), isint=True))))
    return sol, sen, th


def result(ctx, I, sol, sen, tag):
    invoke(ctx, I, tag + 'sensing', member(I, sen, 'sensing'), (sol,))
    return I.getter(member(I, sen, 'sensors'))


def unchanged(ctx, I, sol, tag, p, nf):
    e = cell()
    for m in range(p + 1):
        for f in range(nf):
            ctx.eq(tag + 'leaves the solution alone, mode %d field %d' % (m, f), coef(I, sol, m, e, f),
                   I.before((C(m), e * C(nf) + C(f))))


def advection(ctx, p):
    I = interp(ctx)
    tag = 'advection p=%d: ' % p
    sol, sen, th = setup(ctx, I, 'sinewave', p, 1)
    set_u(I, sol, 'U')
    I.before = I.getter(member(I, sol, 'u'))
    for which in ('first', 'second', 'third'):
        g = result(ctx, I, sol, sen, tag)
        e = cell()
        nm = 'U'
        if which == 'third':
            # the solution has changed in the meantime
            (refill if p else set_u)(I, sol, 'V')
            I.before = I.getter(member(I, sol, 'u'))
            g = result(ctx, I, sol, sen, tag)
            nm = 'V'
        u = [elem2(nm, ZERO, e + C(k)) for k in (-1, 0, 1)]
        ctx.eq(tag + 'flag (%s time)' % which, g((e,)),
               ite(cor(advection_flag(th[0], u[0], u[1]), advection_flag(th[0], u[1], u[2])), ONE, ZERO))
    unchanged(ctx, I, sol, tag, p, 1)


def euler_flags(th, L, R, gam):
    RT = power(R['rho'] / L['rho'], HALF)
    v = (L['v'] + RT * R['v']) / (ONE + RT)
    H = (L['H'] + RT * R['H']) / (ONE + RT)
    a2 = (gam - ONE) * (H - v * v * HALF)
    a = power(a2, HALF)
    dp = R['p'] - L['p']
    xi = rabs(R['rho'] - L['rho'] - dp / a2) / (L['rho'] + R['rho'])
    ph = rabs(dp) / (L['p'] + R['p'])
    contact = cgt(sense(xi), th[0])
    shock = cand(cgt(sense(ph), th[1]), cgt(L['v'] - L['a'], v - a), cgt(v - a, R['v'] - R['a']))
    return contact, shock


def euler(ctx, p, g):
    I = interp(ctx)
    tag = 'euler p=%d gamma=%s: ' % (p, show(g))
    sol, sen, th = setup(ctx, I, 'entrpyw', p, 2)
    const_gamma(I, g)
    u = member(I, sol, 'u')

    def at(ix):
        i, c = third(ix[1])
        v = prim('U', i, g)['u'][c]
        if ix[0].as_int() == 0:
            return v
        return ite(ceq(ix[0], ZERO), v, Rat.of(atom('elem', 'W', tuple(ix))))
    I.setattr_(sol, 'u', I.arr(u.shape, at))
    # sensing another state before, on the same and on another solution
    I.setattr_(sol, 'u', I.arr(u.shape, lambda ix: prim('w', third(ix[1])[0], g)['u'][third(ix[1])[1]]))
    warm(I, member(I, sen, 'sensing'), (sol,))
    v = member(I, sen, 'sensors')
    I.setattr_(sen, 'sensors', I.arr(v.shape, lambda ix: Rat.of(atom('elem', 'old', tuple(ix), isint=True))))
    I.setattr_(sol, 'u', I.arr(u.shape, at))
    I.before = I.getter(member(I, sol, 'u'))
    s = result(ctx, I, sol, sen, tag)
    e = cell()
    q = [prim('U', e + C(k), g) for k in (-1, 0, 1)]
    cl, sl = euler_flags(th, q[0], q[1], g)
    cr, sr = euler_flags(th, q[1], q[2], g)
    ctx.eq(tag + 'flag', s((e,)), ite(cor(sl, sr), TWO, ite(cor(cl, cr), ONE, ZERO)))
    unchanged(ctx, I, sol, tag, p, 3)
