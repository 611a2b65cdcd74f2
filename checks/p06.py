"""The residual is the DG weak form."""
from sa.model import *

RULE = ('DG.residual is interpreted for arbitrary coefficients, a symbolic number of cells and an '
        'arbitrary cell, with the pointwise flux and interface flux of the Euler equations as '
        'uninterpreted functions; every mode and field is compared with the weak form evaluated '
        'with p+1 Gauss points and boundary-condition ghosts.')
BOUNDED = True
BCS = (('periodic', 'periodic'), ('zerograd', 'zerograd'), ('periodic', 'zerograd'), ('zerograd', 'periodic'))


def run(ctx):
    ctx.rule(RULE)
    ctx.minimum = 40
    for p in range(0, 9 if ctx.thorough else 6):
        for system, rs in (('advection', ''), ('euler', 'roe'), ('euler', 'rusanov'),
                           ('euler', 'godunov')):
            for bc in BCS:
                if rs in ('rusanov', 'godunov') and p not in (1, 2):
                    continue
                if bc[0] != bc[1] and p > 1:
                    continue
                one(ctx, p, system, rs, bc)
    for p in ctx.orders(range(5, 13), hard=4):
        if p > (8 if ctx.thorough else 5):
            one(ctx, p, 'advection', '', BCS[p % 2])
            if p in ctx.around(()):
                one(ctx, p, 'euler', 'roe', BCS[1 - p % 2])


def one(ctx, p, system, rs, bc):
    I = interp(ctx)
    sol = solution(ctx, I, 'sinewave' if system == 'advection' else 'entrpyw', p, rs)
    opaque_euler(I)
    set_bc(I, sol, *bc)
    D = invoke(ctx, I, 'DG()', func(I, 'dg1d.dg', 'DG'), (sol,))
    tag = '%s %s p=%d %s' % (system, rs, p, bc[0] if bc[0] == bc[1] else '%s/%s' % bc)
    # an earlier evaluation for other data must not leave a trace
    set_u(I, sol, 'V')
    invoke(ctx, I, tag + ' residual', member(I, D, 'residual'), (sol,))
    if p % 2:
        # changed in place, by an update
        refill(I, sol, 'U')
    else:
        set_u(I, sol, 'U')
    R = invoke(ctx, I, tag + ' residual', member(I, D, 'residual'), (sol,))
    nf = 1 if system == 'advection' else 3
    if not ctx.ob(tag + ' shape of the residual', isinstance(R, View) and len(R.shape) == 2
                  and R.shape[0] == C(p + 1) and R.shape[1].eq((NE + TWO) * C(nf)), repr(R)):
        return
    g = I.getter(R)
    e = cell()
    U = ghosted(lambda m, c, f: elem2('U', C(m), c * C(nf) + C(f)), bc[0], bc[1], nf)
    dx = member(I, sol, 'dx')
    want = residual_ref(p, system, rs, U, dx, e)
    for (m, f), w in want.items():
        ctx.eq('%s mode %d field %d' % (tag, m, f), g((C(m), e * C(nf) + C(f))), w)
    # the interior coefficients are read, not changed
    for m in range(p + 1):
        for f in range(nf):
            ctx.eq('%s leaves mode %d field %d alone' % (tag, m, f), coef(I, sol, m, e, f),
                   elem2('U', C(m), e * C(nf) + C(f)))
