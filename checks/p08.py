"""Boundary conditions and fresh ghost cells."""
from sa.model import *
from .p10 import failing
from . import p19

RULE = ('apply_bc is interpreted for every pair of boundary conditions (named directly and by strings cut out of '
        'an output header), a symbolic number of cells and arbitrary contents; the residual, the limiter and a '
        'whole time step are interpreted from solutions whose ghost cells hold arbitrary values and compared with '
        'operators that only see the interior.')
BOUNDED = True
BCS = ('periodic', 'zerograd')


def run(ctx):
    ctx.rule(RULE)
    ctx.minimum = 60
    for system in ('advection', 'euler'):
        for l in BCS:
            for r in BCS:
                for p in ctx.orders((0, 1, 2, 3) if ctx.thorough else (0, 2)):
                    ghosts(ctx, system, l, r, p)
                residual(ctx, system, l, r)
                limiter(ctx, system, l, r)
        for l, r in (('bogus', 'periodic'), ('periodic', 'bogus'), ('', ''), ('zerograd', 'Periodic')):
            invalid(ctx, system, l, r)
    for k, w in enumerate([''] + ctx.words('periodic', 'zerograd')):
        for l, r in ((w, 'zerograd'), ('periodic', w)):
            invalid(ctx, ('advection', 'euler')[k % 2], l, r)
    for rk in ('rk3', 'rk4', 'low_storage_rk4'):
        for bc in BCS:
            step(ctx, rk, bc)


def setup(ctx, I, system, p, l, r, th=()):
    sol = solution(ctx, I, 'sinewave' if system == 'advection' else 'entrpyw', p, 'roe', '', th)
    set_u(I, sol, 'U')
    set_bc(I, sol, l, r)
    return sol, 1 if system == 'advection' else 3


def filled(l, r, nf, name='U'):
    return ghosted(lambda m, c, f: elem2(name, C(m), c * C(nf) + C(f)), l, r, nf)


def ghosts(ctx, system, l, r, p):
    I = interp(ctx)
    sol, nf = setup(ctx, I, system, p, l, r)
    tag = '%s p=%d (%s, %s): ' % (system, p, l, r)
    want = filled(l, r, nf)
    set_u(I, sol, 'W')
    set_bc(I, sol, r, 'periodic' if l == 'zerograd' else 'zerograd')
    warm(I, member(I, sol, 'apply_bc'))
    set_u(I, sol, 'U')
    set_bc(I, sol, l, r)
    invoke(ctx, I, tag + 'apply_bc', member(I, sol, 'apply_bc'), ())
    e = cell()
    if p:
        # and again, after the coefficients were changed in place
        refill(I, sol, 'V')
        invoke(ctx, I, tag + 'apply_bc', member(I, sol, 'apply_bc'), ())
        want = filled(l, r, nf, 'V')
    u = member(I, sol, 'u')
    ctx.ob(tag + 'shape kept', isinstance(u, View) and u.shape[1].eq((NE + TWO) * C(nf))
           and u.shape[0].eq(C(p + 1)), repr(u))
    for m in range(p + 1):
        for f in range(nf):
            for nm, c in (('left ghost', ZERO), ('right ghost', NE + ONE), ('interior', e)):
                ctx.eq(tag + '%s mode %d field %d' % (nm, m, f), coef(I, sol, m, c, f), want(m, c, f))


def residual(ctx, system, l, r):
    I = interp(ctx)
    sol, nf = setup(ctx, I, system, 1, l, r)
    opaque_euler(I)
    D = invoke(ctx, I, 'DG()', func(I, 'dg1d.dg', 'DG'), (sol,))
    tag = '%s residual (%s, %s): ' % (system, l, r)
    # an earlier evaluation of other data with other boundaries
    set_u(I, sol, 'W')
    set_bc(I, sol, r, 'periodic' if l == 'zerograd' else 'zerograd')
    warm(I, member(I, D, 'residual'), (sol,))
    set_u(I, sol, 'U')
    set_bc(I, sol, l, r)
    R = invoke(ctx, I, tag, member(I, D, 'residual'), (sol,))
    e = cell()
    want = residual_ref(1, system, 'roe', filled(l, r, nf), member(I, sol, 'dx'), e)
    for (m, f), w in want.items():
        ctx.eq(tag + 'mode %d field %d' % (m, f), I.getter(R)((C(m), e * C(nf) + C(f))), w)


def opaque_sensing(I):
    """sensors as an unknown function of the averages of a cell and its neighbours"""
    def f(I, func_, args, kw):
        self_, sol = bind2(func_, args, kw)
        nf = member(I, sol, 'N_F').as_int()
        g = I.getter(member(I, sol, 'u'))
        v = member(I, self_, 'sensors')
        snap = g

        def at(ix):
            if ix[0].is_zero() or (ix[0] - NE - ONE).is_zero():
                return ZERO         # what a ghost cell is given is not looked at
            return fn('sens', *[snap((ZERO, (ix[0] + C(k)) * C(nf) + C(q)))
                                for k in (-1, 0, 1) for q in range(nf)])
        I.event('sensing')
        I.setattr_(self_, 'sensors', I.arr(v.shape, at))
        return None
    I.intercept['dg1d.sensor.Sensor.sensing'] = f


def opaque_hr(I, seen):
    def f(I, func_, args, kw):
        a = bind2(func_, args, kw)
        if len(a) != 4 or not all(isinstance(v, View) and len(v.shape) == 1 for v in a[1:]):
            return NotImplemented
        self_, uc, ul, ur = a
        seen.append(1)
        body = []
        for v in (uc, ul, ur):
            g = I.getter(v)
            body += [g((C(k),)) for k in range(v.shape[0].as_int())]
        return I.arr(uc.shape, lambda ix: fn('hr', ix[0], *body))
    I.intercept['dg1d.limiting.Limiter.hr'] = f


def hr_model(p, seen):
    """(mode, columns own/left/right) -> reconstructed coefficient, as the analysis represents it"""
    if seen:
        return lambda m, cols: fn('hr', C(m), *[x for c in cols for x in c])
    return lambda m, cols: p19.hr_ref(p, *cols, p19.mm)[m]


def limited_ref(U, p, nf, hr):
    """what adaptive limiting makes of coefficient (m, e, f); U is a ghosted reader"""
    def at(m, e, f):
        s = fn('sens', *[U(0, e + C(k), q) for k in (-1, 0, 1) for q in range(nf)])
        cols = [[U(j, e + C(k), f) for j in range(p + 1)] for k in (0, -1, 1)]
        return ite(ceq(s, ZERO), U(m, e, f), hr(m, cols))
    return at


def limiter(ctx, system, l, r, p=1):
    I = interp(ctx)
    sol, nf = setup(ctx, I, system, p, l, r, ('0.1', '0.2'))
    tag = '%s limiter (%s, %s): ' % (system, l, r)
    L = invoke(ctx, I, 'Limiter', func(I, 'dg1d.limiting', 'Limiter'), ('adaptive_hr', sol))
    opaque_sensing(I)
    seen = []
    opaque_hr(I, seen)
    p19.opaque_minmod(I, [])
    U = filled(l, r, nf)
    invoke(ctx, I, tag + 'limit', member(I, L, 'limit'), (sol,))
    lim = limited_ref(U, p, nf, hr_model(p, seen))
    e = cell()
    want = ghosted(lambda m, c, f: lim(m, c, f), l, r, nf)
    for m in range(p + 1):
        for f in range(nf):
            for nm, c in (('left ghost', ZERO), ('right ghost', NE + ONE), ('cell', e)):
                ctx.eq(tag + '%s mode %d field %d' % (nm, m, f), coef(I, sol, m, c, f), want(m, c, f))


def invalid(ctx, system, l, r):
    I = interp(ctx)
    sol, nf = setup(ctx, I, system, 1, l, r)
    n = len(I.raised)
    f = member(I, sol, 'apply_bc')
    loc = where(I, f)
    dead = False
    try:
        I.call(f, (), {})
    except PyExc as e:
        I.raised.append((I.st, e.exc))
        dead = True
    except Dead:
        dead = True
    ex = [e for s, e in I.raised[n:]]
    tag = '%s (%r, %r) ' % (system, l, r)
    ctx.ob(tag + 'is refused', dead and bool(ex), 'continues', loc)
    for e in ex:
        ctx.ob(tag + 'is refused with an error', e.type != 'SystemExit' or failing(I, e), 'exit status %r' % (e.args,), loc)


def step(ctx, rk, bc):
    """ghost cells are those of the interior whenever the time step is chosen from the solution"""
    I = interp(ctx)
    seen = []

    def prepare(I, sol, dk):
        set_bc(I, sol, bc, bc)

        def speed(I, f, a, k):
            seen.append((I.st, sol))
            return VMAX
        I.intercept['dg1d.solution.Solution.max_wave_speed'] = speed
    sol, loops, dk = integration(ctx, I, rk, 1, None, prepare=prepare)
    if not loops:
        ctx.ob(rk + ' has a time loop', False, repr(I.rk_raised))
        return
    rec = loops[-1]
    tag = '%s %s: ' % (rk, bc)

    def fresh(st):
        with At(I, st):
            u = I.getter(member(I, sol, 'u'))
            out = []
            for m in range(2):
                a, b = u((C(m), ONE)), u((C(m), NE))
                out.append((u((C(m), ZERO)), b if bc == 'periodic' else a))
                out.append((u((C(m), NE + ONE)), a if bc == 'periodic' else b))
            return out
    if seen and all(x.eq(y) for x, y in fresh(seen[-1][0])):
        ctx.ob(tag + 'ghosts are refreshed before the step is chosen', True)
        return
    if rec.end is None:
        ctx.ob(tag + 'completes a step', False, repr(I.rk_raised))
        return
    for j, (x, y) in enumerate(fresh(rec.end)):
        ctx.eq(tag + 'ghost value %d at the end of a step' % j, x, y, conds=rec.end.pc, loc=rec.loc)
