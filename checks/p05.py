"""The CFL time step: formula, wave speed over the whole domain, aborts."""
from sa.model import *
from sa.loops import mk_red

RULE = ('cfl_time_step is evaluated for arbitrary dx, CFL number and solution and must equal '
        'dx*cfl/((2p+1)*v) with v the maximum of |v|+a over the averages of all cells (1 for advection); '
        'the conditions under which integrate() exits the program are compared with dt < 1e-14 or dt not '
        'a number.')
BOUNDED = True


def run(ctx):
    ctx.rule(RULE)
    ctx.minimum = 12
    for system, ic in (('advection', 'sinewave'), ('euler', 'entrpyw')):
        for p in ctx.orders(range(12 if ctx.thorough else 8), hard=12):
            formula(ctx, system, ic, p)
    for g in (gamma_sym(), C(Fraction(7, 5))):
        speed(ctx, g)
    aborts(ctx)


def formula(ctx, system, ic, p):
    I = interp(ctx)
    sol = solution(ctx, I, ic, p, 'roe')
    set_u(I, sol, 'U')
    dx, cfl = sym('dx', pos=True), sym('cfl', pos=True)
    warm(I, func(I, 'dg1d.rk', 'cfl_time_step'), (sol, sym('cfl0', pos=True)))
    I.setattr_(sol, 'dx', dx)
    v = invoke(ctx, I, 'max_wave_speed', member(I, sol, 'max_wave_speed'), ())
    if system == 'advection':
        ctx.eq('advection p=%d: wave speed' % p, v, ONE)
    if isinstance(v, Rat) and v.as_const() is None:
        # any positive speed
        w = sym('v', pos=True)
        I.intercept['dg1d.solution.Solution.max_wave_speed'] = lambda I, f, a, k: w
        dt = invoke(ctx, I, 'cfl_time_step', func(I, 'dg1d.rk', 'cfl_time_step'), (sol, cfl))
        v = w if w.atoms() & dt.atoms() else v
    else:
        dt = invoke(ctx, I, 'cfl_time_step', func(I, 'dg1d.rk', 'cfl_time_step'), (sol, cfl))
    ctx.eq('%s p=%d: time step' % (system, p), dt, dx * cfl / (v * C(2 * p + 1)))


def speed(ctx, g):
    tag = 'euler gamma=%s: ' % show(g)
    name = tag + 'maximum over all cells'
    I, v, S = wave_speed(ctx, g, None)
    a = [ATOMS[x] for x in v.atoms()]
    if len(a) == 1 and a[0].kind == 'skipnan':
        ctx.ob(tag + 'a cell that is not a number shows in the wave speed', False,
               'the reduction skips values that are not numbers, so the run is not stopped')
        v = a[0].args[0]
    # ghost cells repeat averages of the domain, so they may or may not take part
    for lo in (ZERO, ONE):
        for hi in (NE + ONE, NE + TWO):
            k = sym('\u03ba%s%s' % (show(lo), show(hi)), isint=True)
            FACTS.push(k, lo, hi - ONE)
            m = mk_red('max', S(k), k, lo, hi)
            for extra in (None, ZERO, S(ZERO), S(ONE), S(NE), S(NE + ONE)):
                if v.eq(m if extra is None else rmax(m, extra)):
                    ctx.ob(name, True)
                    return
    for bc in ('periodic', 'zerograd'):
        I, v, S = wave_speed(ctx, g, bc)
        k = sym('\u03ba', isint=True)
        FACTS.push(k, ZERO, NE + ONE)
        ctx.eq('%s (%s)' % (name, bc), v, mk_red('max', S(k), k, ZERO, NE + TWO))


def wave_speed(ctx, g, bc):
    I = interp(ctx)
    sol = solution(ctx, I, 'entrpyw', 1, 'roe')
    const_gamma(I, g)
    set_u(I, sol, 'U')
    if bc:
        set_bc(I, sol, bc, bc)
        invoke(ctx, I, 'apply_bc', member(I, sol, 'apply_bc'), ())
    # an earlier evaluation, for another state of the same solution
    u = member(I, sol, 'u')
    set_u(I, sol, 'W')
    warm(I, member(I, sol, 'max_wave_speed'))
    if bc:
        I.setattr_(sol, 'u', u)
    else:
        refill(I, sol, 'U')
    v = invoke(ctx, I, 'max_wave_speed', member(I, sol, 'max_wave_speed'), ())

    def S(c):
        r, m, E = (coef(I, sol, 0, c, f) for f in range(3))
        p = (g - ONE) * (E - m * m / r * HALF)
        return rabs(m / r) + power(g * p / r, HALF)
    return I, v, S


def aborts(ctx):
    bad = C(Fraction(1, 10 ** 14))
    for rk in ('rk4', 'low_storage_rk4'):
        for what, v in (('', sym('v', pos=True)), (' (not a number)', sym('nan'))):
            I = interp(ctx)
            dx = []

            def prepare(I, sol, dk):
                I.intercept['dg1d.solution.Solution.max_wave_speed'] = lambda I, f, a, k: v
                I.setattr_(dk, 'cfl', CFL * bad)
                dx.append(member(I, sol, 'dx'))
                I.hooks['havoc'] = lambda I, H, cell, name, init, end: \
                    init if isinstance(init, Cond) else NotImplemented
            sol, loops, dk = integration(ctx, I, rk, 1, False, prepare=prepare)
            if not loops:
                ctx.ob(rk + ' has a time loop', False, repr(I.rk_raised))
                continue
            rec = loops[-1]
            ex = [cand(*st.pc) for st, e in rec.raised if e.type == 'SystemExit']
            got = cor(*ex) if ex else FALSE
            dt = dx[0] * CFL / (v * C(3))
            want = clt(dt, ONE) if not what else TRUE
            ctx.eq('%s stops exactly when the step is below 1e-14 or not a number%s' % (rk, what),
                   got, want, loc=rec.loc)
