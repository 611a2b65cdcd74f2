"""Conservation: fluxes telescope, limiting keeps averages, steps only add residuals."""
from sa.model import *
from . import p19
from .p02 import NAMES

RULE = ('The cell-average residual is interpreted with interface fluxes and pointwise fluxes uninterpreted, for '
        'every face evaluation and boundary condition: it must be (flux in - flux out)/dx with the flux leaving a '
        'cell entering its right neighbour and, for periodic boundaries, the flux leaving the last cell entering the '
        'first. integrate() is interpreted with a residual whose cell average vanishes and a limiter that keeps the '
        'averages: no step may change an average. Limiting with arbitrary sensors keeps the averages.')
BOUNDED = True


def run(ctx):
    ctx.rule(RULE)
    ctx.minimum = 60
    for p in ctx.orders(range(0, 5 if ctx.thorough else 3)):
        for enh in [''] + (['full ' + ' '.join(str(k) for k in range(p + 1)), 'icb 0'] if p < 3 else []):
            for bc in (('periodic', 'periodic'), ('zerograd', 'zerograd'), ('zerograd', 'periodic')):
                telescopes(ctx, 'advection', p, enh, bc)
                if p < 2 or ctx.thorough:
                    telescopes(ctx, 'euler', p, enh, bc)
    for rk in NAMES + ('low_storage_rk4',):
        steps(ctx, rk, 'advection')
    steps(ctx, 'rk4', 'euler')
    limiting(ctx)


def opaque_advection(I):
    def q(I, func_, args, kw):
        ul, ur = bind2(func_, args, kw)
        a, b = I.getter(ul), I.getter(ur)
        return I.arr(ul.shape, lambda ix: fn('q0', a(ix), b(ix)))

    def f(I, func_, args, kw):
        (u,) = bind2(func_, args, kw)
        a = I.getter(u)
        return I.arr(u.shape, lambda ix: fn('f0', a(ix)))
    I.intercept['dg1d.advection_physics.riemann_upwinding'] = q
    I.intercept['dg1d.advection_physics.interior_flux'] = f


def telescopes(ctx, system, p, enh, bc):
    I = interp(ctx)
    nf = 1 if system == 'advection' else 3
    tag = '%s p=%d %r %s: ' % (system, p, enh, '/'.join(bc))
    sol = solution(ctx, I, 'sinewave' if nf == 1 else 'entrpyw', p, 'roe', enh)
    opaque_euler(I)
    opaque_advection(I)
    set_bc(I, sol, *bc)
    set_u(I, sol, 'U')
    D = invoke(ctx, I, 'DG()', func(I, 'dg1d.dg', 'DG'), (sol,))
    R = invoke(ctx, I, tag + 'residual', member(I, D, 'residual'), (sol,))
    g = I.getter(R)
    dx = member(I, sol, 'dx')

    def mean(e, f):
        return g((ZERO, e * C(nf) + C(f))) * dx
    for f in range(nf):
        # interior interface between e and e+1
        if not isinstance(NE, Rat) or NE.as_int() is None or NE.as_int() > 2:
            e = cell('e', TWO, NE - TWO)
            inn, out = split(ctx, tag + 'cell', mean(e, f))
            inn2, out2 = split(ctx, tag + 'its right neighbour', mean(e + ONE, f))
            if None in (inn, inn2):
                return
            ctx.eq(tag + 'field %d: what leaves a cell enters the next' % f, out, inn2)
        i1, o1 = split(ctx, tag + 'first cell', at_size(mean(ONE, f)))
        i2, o2 = split(ctx, tag + 'second cell', at_size(mean(TWO, f)))
        i8, o8 = split(ctx, tag + 'last cell but one', at_size(mean(NE - ONE, f)))
        i9, o9 = split(ctx, tag + 'last cell', at_size(mean(NE, f)))
        if None in (i1, i2, i8, i9):
            return
        ctx.eq(tag + 'field %d: what leaves the first cell enters the second' % f, o1, i2)
        ctx.eq(tag + 'field %d: what leaves the last cell but one enters the last' % f, o8, i9)
        if bc == ('periodic', 'periodic'):
            ctx.eq(tag + 'field %d: what leaves the last cell enters the first' % f, o9, i1)


def at_size(x):
    """for at least three cells (so that first, second and last are told apart)"""
    if NE.as_int() is not None:
        return x
    n = sym('N_E3', isint=True, pos=True)
    FACTS.push(n, C(4), None)
    return subst(x, {NE: n})


def split(ctx, name, r):
    """r = flux in - flux out, with uninterpreted fluxes"""
    inn = out = None
    ok = isinstance(r, Rat) and not r.den and len(r.num) == 2
    if ok:
        for m, c in r.num.items():
            at = ATOMS[m[0][0]] if len(m) == 1 and m[0][1] == 1 else None
            if at is None or at.kind[0] != 'q':
                ok = False
            elif c == 1:
                inn = Rat({m: F1})
            elif c == -1:
                out = Rat({m: F1})
    if not ok or inn is None or out is None:
        if isinstance(r, Rat) and r.is_zero():
            return ZERO, ZERO
        ctx.ob(name + ' changes by the flux in minus the flux out', False, 'average changes by %s / dx' % show(r, 300))
        return None, None
    return inn, out


def steps(ctx, rk, system):
    """a residual without average leaves all averages alone"""
    nf = 1 if system == 'advection' else 3
    I = interp(ctx)

    def prepare(I, sol, dk):
        def res(I, func_, args, kw):
            self_, s = bind2(func_, args, kw)
            u = member(I, s, 'u')
            k = I.fresh('R')
            return I.arr(u.shape, lambda ix: ite(ceq(ix[0], ZERO), ZERO,
                                                 Rat.of(atom('elem', k, tuple(ix)))))

        def lim(I, func_, args, kw):
            self_, s = bind2(func_, args, kw)
            u = member(I, s, 'u')
            g = I.getter(u)
            k = I.fresh('L')
            I.setattr_(s, 'u', I.arr(u.shape, lambda ix: ite(ceq(ix[0], ZERO), g(ix),
                                                             Rat.of(atom('elem', k, tuple(ix))))))
            return None
        I.intercept['dg1d.dg.DG.residual'] = res
        I.intercept['dg1d.limiting.Limiter.limit'] = lim
    sol, loops, dk = integration(ctx, I, rk, 1, None, system=system, prepare=prepare)
    if not loops:
        ctx.ob(rk + ' has a time loop', False, repr(I.rk_raised))
        return
    rec = loops[-1]
    if rec.end is None:
        ctx.ob(rk + ' completes a step', False, repr(I.rk_raised))
        return
    for which, s, e in (('first', rec.first[0], rec.first[2]), ('any', rec.start, rec.end)):
        with At(I, s):
            u0 = content(I, sol)
        with At(I, e):
            u1 = content(I, sol)
        for f in range(nf):
            ctx.eq('%s %s: %s step keeps the averages of field %d when the fluxes balance' % (rk, system, which, f),
                   u1[f], u0[f], conds=e.pc, loc=rec.loc)


def limiting(ctx):
    from .p18 import averages
    averages(ctx)
