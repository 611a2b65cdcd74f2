"""A uniform flow stays uniform."""
from sa.model import *

RULE = ('the residual, the sensors, the limiter and a Runge-Kutta step are interpreted, with the flux functions of the source, on a uniform '
        'state with arbitrary density, velocity, pressure and ratio of specific heats, any number of cells and every boundary '
        'condition and enhancement: every coefficient of the residual must vanish and the state must be kept.')
BOUNDED = True


def run(ctx):
    ctx.rule(RULE)
    ctx.minimum = 60
    orders = ctx.around(range(0, 6 if ctx.thorough else 4))
    for system, rss in (('advection', ('',)), ('euler', ('rusanov', 'roe', 'godunov'))):
        for rs in rss:
            for bc in ('periodic', 'zerograd'):
                for p in orders:
                    for enh in ('', 'icb 0'):
                        if (rs == 'godunov' or enh) and p != 1:
                            continue
                        residual(ctx, system, rs, bc, p, enh)
                limiter(ctx, system, rs, bc, 1)
                if not rs == 'godunov':
                    limiter(ctx, system, rs, bc, 1, sharp=True)
            if not rs == 'godunov':
                limiter(ctx, system, rs, 'zerograd', 2)


def uniform(ctx, I, system, rs, bc, p, enh='', th=()):
    """a solution holding one state everywhere (ghost cells included)"""
    sol = solution(ctx, I, 'sinewave' if system == 'advection' else 'entrpyw', p, rs, enh, th)
    set_bc(I, sol, bc, bc)
    u = member(I, sol, 'u')
    if system == 'advection':
        vals = (finite(sym('c')),)
    else:
        g = gamma_sym()
        const_gamma(I, g)
        vals = positive_state(I, '', g)['u']

    def at(ix):
        f = 0 if len(vals) == 1 else third(ix[1])[1]
        m = ix[0].as_int()
        if m is not None:
            return vals[f] if m == 0 else ZERO
        return ite(ceq(ix[0], ZERO), vals[f], ZERO)
    I.setattr_(sol, 'u', I.arr(u.shape, at))
    return sol, vals


def residual(ctx, system, rs, bc, p, enh):
    I = interp(ctx)
    sol, vals = uniform(ctx, I, system, rs, bc, p, enh)
    tag = '%s %s p=%d %s %s: ' % (system, rs, p, bc, enh)
    D = invoke(ctx, I, 'DG()', func(I, 'dg1d.dg', 'DG'), (sol,))
    R = invoke(ctx, I, tag + 'residual', member(I, D, 'residual'), (sol,))
    e = cell()
    nf = len(vals)
    for m in range(p + 1):
        for f in range(nf):
            ctx.eq(tag + 'residual of mode %d field %d' % (m, f), I.getter(R)((C(m), e * C(nf) + C(f))), ZERO)


def limiter(ctx, system, rs, bc, p, sharp=False):
    I = interp(ctx)
    th = (ZERO, ZERO) if sharp else (sym('th0', pos=True), sym('th1', pos=True))
    th = th[:1 if system == 'advection' else 2]
    sol, vals = uniform(ctx, I, system, rs, bc, p, '', th)
    tag = '%s %s p=%d %s limited%s: ' % (system, rs, p, bc, ' at thresholds of zero' if sharp else '')
    L = invoke(ctx, I, 'Limiter()', func(I, 'dg1d.limiting', 'Limiter'), ('adaptive_hr', sol))
    invoke(ctx, I, tag + 'limit', member(I, L, 'limit'), (sol,))
    e = cell()
    nf = len(vals)
    s = I.getter(member(I, member(I, sol, 'sensors'), 'sensors'))
    ctx.eq(tag + 'no cell is flagged', s((e,)), ZERO)
    for m in range(p + 1):
        for f in range(nf):
            ctx.eq(tag + 'mode %d field %d is kept' % (m, f), coef(I, sol, m, e, f), vals[f] if m == 0 else ZERO)
