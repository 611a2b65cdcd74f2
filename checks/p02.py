"""Every integrator performs the step of its coefficient table."""
from sa.model import *

NAMES = ('rk3', 'rk4', 'rk5', 'rk6', 'rk8', 'rk10', 'rk12', 'rk14')
RULE = ('integrate() is interpreted for each integrator name with the residual as an '
        'uninterpreted operator on the interior coefficients; both the first iteration from the '
        'initial state and an iteration from an arbitrary loop state (all loop-modified storage '
        'unknown) must end with u + h sum c_k K_k, K_k = R(u + h sum beta_kj K_j).')


def run(ctx, limited=False):
    ctx.rule(RULE)
    ctx.minimum = 50
    names = NAMES + ('low_storage_rk4', '', 'no_such_scheme')
    for rk in names:
        step(ctx, rk, limited, 0)
    for rk in ctx.words(*NAMES[:1] + NAMES[4:6] + ('low_storage_rk4',)):
        if rk not in names and not limited:
            step(ctx, rk, limited, 0)
    for rk in ('rk3', 'rk4', 'low_storage_rk4'):
        step(ctx, rk, limited, 2)
        step(ctx, rk, limited, 1, 'euler')


def tableau(ctx, I, rk):
    return table(ctx, I, rk) if rk in NAMES else RK4


def step(ctx, rk, limited, p, system='advection'):
    I = interp(ctx)
    sol, loops, dk = integration(ctx, I, rk, p, limited, system=system)
    tag = '%s %s p=%d' % (rk or "''", system, p)
    if not loops:
        ctx.ob(tag + ' has a time loop', False, 'no time loop was reached: %r' % (I.rk_raised,))
        return
    rec = loops[-1]
    start, cond, end, brk = rec.first
    if end is None or rec.end is None:
        ctx.ob(tag + ' completes a step', False, 'the loop body never completes: %r' % (I.rk_raised,))
        return
    tab = tableau(ctx, interp(ctx) if I.st is None else I, rk)
    for which, s, e in (('first step', start, end), ('any step', rec.start, rec.end)):
        with At(I, s):
            u0 = content(I, sol)
            t0, n0 = member(I, sol, 't'), member(I, sol, 'n')
        with At(I, e):
            u1 = content(I, sol)
            t1, n1 = member(I, sol, 't'), member(I, sol, 'n')
        h = t1 - t0
        want, args = reference_step(tab, u0, h, limited,
                                    places(p + 1, 1 if system == 'advection' else 3))
        for m in range(len(u0)):
            ctx.eq('%s %s component %d' % (tag, which, m), u1[m], want[m], conds=e.pc, loc=rec.loc)
        ctx.eq('%s %s counts one step' % (tag, which), n1, n0 + ONE, conds=e.pc, loc=rec.loc)
        if not limited:
            continue
        for ev in e.events[len(s.events):]:
            if ev.kind != 'printer':
                continue
            body = ev.data[3]
            for m in range(len(u1)):
                ctx.eq('%s %s: the limited solution is output, component %d' % (tag, which, m), body[m], u1[m],
                       conds=tuple(e.pc) + tuple(ev.pc), loc=ev.loc)
