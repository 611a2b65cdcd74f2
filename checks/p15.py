"""The Godunov flux solves the Riemann problem by the published iteration."""
from sa.model import *
from sa.loops import get_cell, set_cell

RULE = ('riemann_godunov is interpreted for arbitrary admissible states at an arbitrary interface, the '
        'fixed-point loop summarised by an arbitrary previous iterate; initial guess, iteration map, stopping '
        'rule, failure exit, supersonic shortcuts, star state, upwinding of the contact and sonic points are '
        'compared with the published algorithm; the two helper curves are compared separately.')
PHYS = 'dg1d.euler_physics'
TOL = Fraction(1, 10 ** 6)
BOUNDED = True


def run(ctx):
    ctx.rule(RULE)
    ctx.minimum = 12
    g = gamma_sym()
    massflux(ctx, g)
    sonic(ctx, g)
    flux(ctx, g)


def massflux_ref(g, r, c, pQ, pm, eps=Fraction(1, 10 ** 15)):
    g1 = (g + ONE) / g * HALF
    g2 = (g - ONE) / g * HALF
    x = pm / pQ
    return ite(cge(x, C(1 - eps)), r * c * power(ONE + g1 * (x - ONE), HALF),
               r * c * g2 * (ONE - x) / (ONE - power(x, g2)))


def massflux(ctx, g):
    I = interp(ctx)
    const_gamma(I, g)
    r, c, pQ, pm = (sym(n, pos=True) for n in ('r', 'c', 'pQ', 'pm'))
    f = func(I, PHYS, 'massflux')
    v = invoke(ctx, I, 'massflux', f, (r, c, pQ, pm))
    want = massflux_ref(g, r, c, pQ, pm)
    if not v.eq(want):
        # where exactly the two curves are joined does not matter
        x = pm / pQ
        for nm, d in (('shock', ONE + sym('z', pos=True)), ('rarefaction', ONE / (ONE + sym('z', pos=True)))):
            I2 = interp(ctx)
            const_gamma(I2, g)
            got = invoke(ctx, I2, 'massflux', func(I2, PHYS, 'massflux'), (r, c, pQ, pQ * d))
            far = [cor(cgt(d, C(1 + Fraction(1, 10 ** 6))), clt(d, C(1 - Fraction(1, 10 ** 6))))]
            ctx.eq('mass flux across a ' + nm, got, massflux_ref(g, r, c, pQ, pQ * d), conds=far)
    else:
        ctx.ob('mass flux across a shock', True)
        ctx.ob('mass flux across a rarefaction', True)
    # the singular point of the rarefaction branch is not evaluated
    I = interp(ctx)
    const_gamma(I, g)
    v = invoke(ctx, I, 'massflux', func(I, PHYS, 'massflux'), (r, c, pQ, pQ))
    ctx.eq('mass flux across no wave', v, r * c)


def sonic_ref(g, u1, c1, P1, u2, c2, a1, a2):
    R1, R2 = a2 / (a2 - a1), -a1 / (a2 - a1)
    us, cs = R1 * u1 + R2 * u2, R1 * c1 + R2 * c2
    Ps = power(cs / c1, TWO * g / (g - ONE)) * P1
    rs = g * Ps / (cs * cs)
    return rs, rs * us, Ps / (g - ONE) + rs * us * us * HALF


def sonic(ctx, g):
    I = interp(ctx)
    const_gamma(I, g)
    # interpolation weights positive: the sonic point lies inside the fan
    c1, P1, c2 = (sym(n, pos=True) for n in ('c1', 'P1', 'c2'))
    u1, u2 = finite(sym('u1')), finite(sym('u2'))
    for nm, a1, a2 in (('left', -sym('a1', pos=True), sym('a2', pos=True)),
                       ('right', sym('a1', pos=True), -sym('a2', pos=True))):
        v = invoke(ctx, I, 'sonic', func(I, PHYS, 'sonic'), (u1, c1, P1, u2, c2, a1, a2))
        got = I.items(v)
        want = sonic_ref(g, u1, c1, P1, u2, c2, a1, a2)
        for k in range(3):
            ctx.eq('sonic point of a %s fan, component %d' % (nm, k), got[k], want[k])


def flux(ctx, g):
    I = interp(ctx)
    const_gamma(I, g)
    for n, k in (('massflux', 4), ('sonic', 7)):
        f = func(I, PHYS, n)
        if len(f.node.args.args) != k:
            raise Vanished('%s of %d arguments' % (n, k))
    I.intercept[PHYS + '.massflux'] = lambda I, f, a, k: fn('massflux', *bind2(f, a, k), pos=True)
    I.intercept[PHYS + '.sonic'] = lambda I, f, a, k: tuple(
        fn('sonic%d' % c, *bind2(f, a, k), pos=(c == 0)) for c in range(3))
    seen = []

    def leave(I, rec, st):
        """the accepted pressure becomes an arbitrary positive number"""
        for cell, v in rec.cells.items():
            init = get_cell(rec.entry, cell)
            if isinstance(v, Rat) and isinstance(init, Rat) and not is_intlike(init):
                break
        else:
            return
        idx = index_of(init)
        nxt = next_iterate(prim('L', idx, g), prim('R', idx, g), v)
        for oid, ob in list(st.heap.items()):
            if ob.kind == 'frame':
                for n, x in ob.data.items():
                    if isinstance(x, Rat) and x.eq(nxt):
                        set_cell(st, ('frame', oid, n), at_elem('P2', idx, True))
                        seen.append(n)
    f = func(I, PHYS, 'riemann_godunov')
    warm(I, f, (states(I, 'wL', g, NI), states(I, 'wR', g, NI)))
    I.hooks['loop_exit'] = leave
    F = invoke(ctx, I, 'riemann_godunov', f,
               (states(I, 'L', g, NI), states(I, 'R', g, NI)), allow=('SystemExit',))
    raised = [(st, e) for st, e in I.raised if e.type == 'SystemExit']
    i = interface()
    L, R = prim('L', i, g), prim('R', i, g)
    iterates = []
    for rec in I.loop_log:
        for cell, v in rec.cells.items():
            init = get_cell(rec.entry, cell)
            if isinstance(v, Rat) and isinstance(init, Rat) and not is_intlike(init):
                iterates.append((rec, cell, v, init))
    if len(iterates) != 1:
        raise Vanished('one iterate of the fixed-point iteration (%d found)' % len(iterates))
    rec, cell, pm, init = iterates[0]
    # the interface the loop record speaks of
    idx = index_of(init)
    Lk, Rk = prim('L', idx, g), prim('R', idx, g)
    e = (ONE - g) / g * HALF
    guess = power(((Lk['v'] - Rk['v']) * (g - ONE) * HALF + Lk['a'] + Rk['a']) /
                  (Lk['a'] * power(Lk['p'], e) + Rk['a'] * power(Rk['p'], e)), TWO * g / (g - ONE))
    ctx.eq('initial guess', init, guess, loc=rec.loc)
    nxt = next_iterate(Lk, Rk, pm)
    if rec.end is not None:
        ctx.eq('iteration map', get_cell(rec.end, cell), nxt, conds=tuple(rec.end.pc), loc=rec.loc)
    ctx.ob('the iteration can end', bool(rec.brk), 'the loop is never left', rec.loc)
    for b in rec.brk:
        ctx.eq('an accepted pressure is converged', ite(cle(rabs(nxt - pm), C(TOL)), ONE, ZERO), ONE,
               conds=tuple(b.pc), loc=rec.loc)
    ctx.ob('the accepted pressure is the last iterate', bool(seen), 'the last iterate is not kept', rec.loc)
    ctx.ob('failure to converge stops the program', bool(raised), 'no exit from the iteration', rec.loc)
    for st, ex in raised:
        ctx.eq('only failure to converge stops the program',
               ite(cand(*st.pc, clt(rabs(nxt - pm), C(TOL))), ONE, ZERO), ZERO, loc=ex.loc)
    want = godunov_ref(g, L, R, at_elem('P2', i, True))
    for c in range(3):
        ctx.eq('flux component %d' % c, I.getter(F)((C(3) * i + C(c),)), want[c], loc=rec.loc)


def index_of(x):
    for a in x.atoms():
        at = ATOMS[a]
        for y in deep_atoms(Rat.of(at)).values():
            if y.kind == 'elem' and y.args[0] in ('rL', 'aL', 'vL'):
                return y.args[1][0]
    raise Vanished('interface index of the initial guess')


def curves(L, R, pm):
    return (fn('massflux', L['rho'], L['a'], L['p'], pm, pos=True),
            fn('massflux', R['rho'], R['a'], R['p'], pm, pos=True))


def next_iterate(L, R, pm):
    mL, mR = curves(L, R, pm)
    return (mL * R['p'] + mR * L['p'] - mL * mR * (R['v'] - L['v'])) / (mL + mR)


def godunov_ref(g, L, R, pm):
    mL, mR = curves(L, R, pm)
    vm = (mL * L['v'] + mR * R['v'] - (R['p'] - L['p'])) / (mL + mR)
    gam = (g + ONE) / (g - ONE)

    def rm(S):
        x = pm / S['p']
        return ite(cge(x, ONE), S['rho'] * (ONE + gam * x) / (gam + x), S['rho'] * power(x, ONE / g))
    rL, rR = rm(L), rm(R)
    rI = ite(cge(vm, ZERO), rL, rR)
    aL, aR = power(g * pm / rL, HALF), power(g * pm / rR, HALF)
    sL, sR = vm - aL, vm + aR
    inner = cand(cle(sL, ZERO), cge(sR, ZERO))
    lsonic = cand(cgt(sL, ZERO), clt(L['v'] - L['a'], ZERO))
    mid = (rI, rI * vm, pm / (g - ONE) + rI * vm * vm * HALF)
    left = [fn('sonic%d' % c, L['v'], L['a'], L['p'], vm, aL, L['v'] - L['a'], sL, pos=(c == 0))
            for c in range(3)]
    right = [fn('sonic%d' % c, R['v'], R['a'], R['p'], vm, aR, R['v'] + R['a'], sR, pos=(c == 0))
             for c in range(3)]
    U = [ite(inner, a, ite(lsonic, b, c)) for a, b, c in zip(mid, left, right)]

    def phys(U):
        p = (g - ONE) * (U[2] - U[1] * U[1] / U[0] * HALF)
        return U[1], U[1] * U[1] / U[0] + p, (U[2] + p) * U[1] / U[0]
    out = []
    for c in range(3):
        v = ite(inner, phys(mid)[c], ite(lsonic, phys(left)[c], phys(right)[c]))
        v = ite(cle(R['v'] / R['a'], C(-1)), R['flux'][c], v)
        out.append(ite(cge(L['v'] / L['a'], ONE), L['flux'][c], v))
    return out
