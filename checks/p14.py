"""The Roe and Rusanov interface fluxes are the published ones."""
from sa.model import *

RULE = ('riemann_rusanov and riemann_roe are interpreted for arrays of any number of interfaces with '
        'arbitrary admissible states on both sides; each component at an arbitrary interface is compared '
        'with the published formula by case analysis on the signs of the absolute values and switches.')
BOUNDED = True


def run(ctx):
    ctx.rule(RULE)
    ctx.minimum = 6
    for g in (gamma_sym(), C(Fraction(7, 5))):
        for name in ('rusanov', 'roe'):
            one(ctx, name, g)


def one(ctx, name, g):
    I = interp(ctx)
    const_gamma(I, g)
    f = func(I, 'dg1d.euler_physics', 'riemann_' + name)
    warm(I, f, (states(I, 'wL', g, NI), states(I, 'wR', g, NI)))
    F = invoke(ctx, I, name, f,
               (states(I, 'L', g, NI), states(I, 'R', g, NI)))
    i = interface()
    L, R = prim('L', i, g), prim('R', i, g)
    want = rusanov_ref(L, R) if name == 'rusanov' else roe_ref(L, R, g)
    get = I.getter(F)
    for c in range(3):
        ctx.eq('%s gamma=%s component %d' % (name, show(g), c), get((C(3) * i + C(c),)), want[c])
