"""Limiting is local, leaves unflagged cells alone and keeps cell averages."""
from sa.model import *
from . import p19
from .p08 import opaque_sensing, opaque_hr, hr_model, limited_ref, setup, filled

RULE = ('Limiter.limit is interpreted for arbitrary coefficients, a symbolic number of cells, an unknown sensor '
        'function and an unknown reconstruction of (cell, left, right); every coefficient of an arbitrary cell is '
        'compared with: unchanged where the sensor is zero, the reconstruction of the pre-limiting columns elsewhere.')
BOUNDED = True


def run(ctx):
    ctx.rule(RULE)
    ctx.minimum = 30
    for p in ctx.orders(range(0, 6 if ctx.thorough else 4)):
        cellwise(ctx, 'advection', p)
    cellwise(ctx, 'euler', 1)
    if ctx.thorough:
        cellwise(ctx, 'euler', 2)
    for name in ['', 'none', 'hr', 'adaptive'] + ctx.words('adaptive_hr'):
        off(ctx, name)
    twice(ctx)
    averages(ctx)


def inner():
    return cell('e', TWO, NE - ONE)


def make(ctx, I, system, p, kind='adaptive_hr', seen=None):
    sol, nf = setup(ctx, I, system, p, 'zerograd', 'zerograd', ('0.1', '0.2'))
    L = invoke(ctx, I, 'Limiter', func(I, 'dg1d.limiting', 'Limiter'), (kind, sol))
    opaque_sensing(I)
    opaque_hr(I, seen)
    p19.opaque_minmod(I, [])
    return sol, nf, L


def named(name, nf):
    return lambda m, c, f: elem2(name, C(m), c * C(nf) + C(f))


def cellwise(ctx, system, p):
    I = interp(ctx)
    seen = []
    tag = '%s p=%d: ' % (system, p)
    sol, nf, L = make(ctx, I, system, p, seen=seen)
    before = member(I, sol, 'u')
    invoke(ctx, I, tag + 'limit', member(I, L, 'limit'), (sol,))
    for where_, e in (('', inner()), (' of the first cell', ONE), (' of the last cell', NE)):
        want = limited_ref(filled('zerograd', 'zerograd', nf), p, nf, hr_model(p, seen))
        for m in range(p + 1):
            for f in range(nf):
                ctx.eq(tag + 'mode %d field %d%s' % (m, f, where_), coef(I, sol, m, e, f), want(m, e, f))
    u = member(I, sol, 'u')
    ctx.ob(tag + 'shape kept', isinstance(u, View) and len(u.shape) == 2 and
           all(x.eq(y) for x, y in zip(u.shape, before.shape)), repr(u))


def off(ctx, name):
    """every other limiter name leaves the solution alone"""
    I = interp(ctx)
    sol, nf, L = make(ctx, I, 'advection', 2, name, [])
    invoke(ctx, I, 'limit', member(I, L, 'limit'), (sol,))
    e = cell()
    for m in range(3):
        ctx.eq('limiter %r leaves mode %d alone' % (name, m), coef(I, sol, m, e, 0), named('U', nf)(m, e, 0))


def twice(ctx):
    """a limiter used on one solution and then on a copy of another: results do
    not depend on earlier uses and earlier results do not change"""
    I = interp(ctx)
    seen = []
    sol, nf, L = make(ctx, I, 'advection', 1, seen=seen)
    other = invoke(ctx, I, 'copy', member(I, sol, 'copy'), ())
    set_u(I, other, 'V')
    set_bc(I, other, 'zerograd', 'zerograd')
    e = inner()
    lim = member(I, L, 'limit')
    invoke(ctx, I, 'limit', lim, (sol,))
    first = [coef(I, sol, m, e, 0) for m in range(2)]
    invoke(ctx, I, 'limit', lim, (other,))
    want = limited_ref(named('V', nf), 1, nf, hr_model(1, seen))
    for m in range(2):
        ctx.eq('second use, mode %d' % m, coef(I, other, m, e, 0), want(m, e, 0))
        ctx.eq('the earlier result stays, mode %d' % m, coef(I, sol, m, e, 0), first[m])
    # in-place updates of one do not reach the other or the limiter
    g = member(I, other, 'smart_axpy')
    k = I.arr(member(I, other, 'u').shape, lambda ix: Rat.of(atom('elem', 'K', tuple(ix))))
    invoke(ctx, I, 'smart_axpy', g, (ONE, k))
    for m in range(2):
        ctx.eq('results are separate arrays, mode %d' % m, coef(I, sol, m, e, 0), first[m])


def averages(ctx):
    """with the real sensors out of the way every cell average survives"""
    for p in ctx.orders(range(0, 10 if ctx.thorough else 8), hard=3):
        I = interp(ctx)
        seen = []
        sol, nf, L = make(ctx, I, 'advection', p, seen=seen)
        I.intercept.pop('dg1d.limiting.Limiter.hr', None)
        invoke(ctx, I, 'limit', member(I, L, 'limit'), (sol,))
        e = inner()
        ctx.eq('p=%d: limiting keeps the cell average' % p, coef(I, sol, 0, e, 0), named('U', 1)(0, e, 0))
