"""Mirror symmetry of the Euler interface fluxes."""
from sa.model import *

RULE = ('each Euler interface flux is interpreted twice, for arbitrary admissible states (L, R) and for '
        'their mirror image (R with velocity reversed, L with velocity reversed); mass and energy flux must '
        'change sign and the momentum flux must stay, decided by case analysis.')
BOUNDED = True


def run(ctx):
    ctx.rule(RULE)
    ctx.minimum = 6
    for g in (gamma_sym(), C(Fraction(7, 5))):
        for rs in ('rusanov', 'roe'):
            mirror(ctx, rs, g)


def mirror(ctx, rs, g):
    i = interface()
    out = []
    for m in (False, True):
        I = interp(ctx)
        const_gamma(I, g)
        a, b = ('R', 'L') if m else ('L', 'R')
        f = func(I, 'dg1d.euler_physics', 'riemann_' + rs)
        warm(I, f, (states(I, 'wL', g, NI), states(I, 'wR', g, NI)))
        F = invoke(ctx, I, 'riemann_' + rs, f,
                   (states(I, a, g, NI, m), states(I, b, g, NI, m)))
        out.append([I.getter(F)((C(3) * i + C(c),)) for c in range(3)])
    for c, s in ((0, -1), (1, 1), (2, -1)):
        ctx.eq('%s gamma=%s component %d' % (rs, show(g), c), out[1][c], out[0][c].scale(s))
