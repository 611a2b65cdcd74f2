"""Flux consistency: one equation of state and flux function everywhere."""
from sa.model import *

RULE = ('every interface flux is interpreted with the same arbitrary admissible state on both sides of an '
        'arbitrary interface and compared with the physical flux; the interior flux is compared with the '
        'physical flux of the ideal-gas equation of state at every quadrature node and cell, and each system '
        'and solver name is resolved through Solution to the function it selects.')
BOUNDED = True


def run(ctx):
    ctx.rule(RULE)
    ctx.minimum = 20
    for g in (gamma_sym(), C(Fraction(7, 5)), C(3)):
        for rs in ('rusanov', 'roe', 'godunov'):
            ctx.part(consistent, rs, g)
        ctx.part(interior, g)
    ctx.part(advection)
    ctx.part(dispatch)


def consistent(ctx, rs, g):
    I = interp(ctx)
    const_gamma(I, g)
    a, b = states(I, 'L', g, NI), states(I, 'L', g, NI)
    f = func(I, 'dg1d.euler_physics', 'riemann_' + rs)
    if rs != 'godunov':
        warm(I, f, (states(I, 'wL', g, NI), states(I, 'wR', g, NI)))
    F = invoke(ctx, I, 'riemann_' + rs, f, (a, b))
    i = interface()
    want = prim('L', i, g)['flux']
    for c in range(3):
        ctx.eq('%s gamma=%s of equal states, component %d' % (rs, show(g), c),
               I.getter(F)((C(3) * i + C(c),)), want[c])


def interior(ctx, g):
    I = interp(ctx)
    const_gamma(I, g)
    i = interface()

    def node(n, j):
        r, a = (Rat.of(atom('elem', x, (n, j), pos=True)) for x in 'ra')
        v = Rat.of(atom('elem', 'v', (n, j)))
        return state(r * r, v, a, g)

    def at(ix):
        j, c = third(ix[1])
        return node(ix[0], j)['u'][c]
    ng = sym('N_G', isint=True, pos=True)
    n = sym('n', isint=True)
    FACTS.push(n, ZERO, ng - ONE)
    u = I.arr((ng, NI * C(3)), at)
    f = func(I, 'dg1d.euler_physics', 'interior_flux')

    def other(ix):
        return prim('w', third(ix[1])[0], g)['u'][third(ix[1])[1]]
    warm(I, f, (I.arr((ng, NI * C(3)), other),))
    F = invoke(ctx, I, 'interior_flux', f, (u,))
    for c in range(3):
        ctx.eq('interior flux gamma=%s component %d' % (show(g), c),
               I.getter(F)((n, C(3) * i + C(c))), node(n, i)['flux'][c])


def advection(ctx):
    I = interp(ctx)
    m = 'dg1d.advection_physics'

    def gen(name):
        return I.arr((NI,), lambda ix: at_elem(name, ix[0]))
    i = interface()
    f = func(I, m, 'riemann_upwinding')
    warm(I, f, (gen('wa'), gen('wb')))
    F = invoke(ctx, I, 'riemann_upwinding', f, (gen('a'), gen('b')))
    ctx.eq('advection takes the upwind value', I.getter(F)((i,)), at_elem('a', i))
    ng = sym('N_G', isint=True, pos=True)
    u = I.arr((ng, NI), lambda ix: Rat.of(atom('elem', 'g', tuple(ix))))
    f = func(I, m, 'interior_flux')
    warm(I, f, (I.arr((ng, NI), lambda ix: Rat.of(atom('elem', 'w', tuple(ix)))),))
    F = invoke(ctx, I, 'interior_flux', f, (u,))
    n = sym('n', isint=True)
    ctx.eq('advection flux is the solution', I.getter(F)((n, i)), Rat.of(atom('elem', 'g', (n, i))))


def dispatch(ctx):
    """the flux a Solution uses is the one its deck names"""
    for rs, name in (('rusanov', 'rusanov'), ('godunov', 'godunov'), ('roe', 'roe'), ('', 'roe'),
                     ('unheard of', 'roe')) + tuple((w, 'roe') for w in ctx.words('rusanov', 'godunov', 'roe')):
        I = interp(ctx)
        sol = solution(ctx, I, 'entrpyw', 1, rs)
        opaque_euler(I)
        g = gamma_sym()
        ul, ur = states(I, 'L', g, NI), states(I, 'R', g, NI)
        i = interface()
        F = invoke(ctx, I, 'Solution.riemann', member(I, sol, 'riemann'), (ul, ur))
        L, R = prim('L', i, g), prim('R', i, g)
        for c in range(3):
            ctx.eq('solver %r component %d' % (rs, c), I.getter(F)((C(3) * i + C(c),)),
                   fn('q%s%d' % (name, c), *(L['u'] + R['u'])))
        u = I.arr((TWO, NI * C(3)), lambda ix: prim('L', third(ix[1])[0], g)['u'][third(ix[1])[1]])
        F = invoke(ctx, I, 'Solution.interior_flux', member(I, sol, 'interior_flux'), (u,))
        for c in range(3):
            ctx.eq('interior flux with solver %r component %d' % (rs, c),
                   I.getter(F)((ONE, C(3) * i + C(c))), fn('f%d' % c, *L['u']))
