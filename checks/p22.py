"""What is written is what is read back."""
from sa.model import *
from sa.strs import split_any, strip
from sa import strs

RULE = ('printer is interpreted for arbitrary coefficients, time, step count and output number with a symbolic number of '
        'cells; the abstract files it leaves are compared with the documented layout, and loader is interpreted on '
        'those files from an empty solution: everything read back, and the residual evaluated from it, must be the '
        'original.')

N = sym('n', isint=True)
FACTS.push(N, ZERO, None)
T = finite(sym('t'))
K = sym('k', isint=True)
# the output number when the number of cells is fixed
FIXED = {'K': 2, 'K0': 1}
FACTS.push(K, ZERO, None)
FIELDS = {'advection': ('u',), 'euler': ('rho', 'rhou', 'E')}


BOUNDED = True


def run(ctx):
    global K
    if NE.as_int() is not None:
        K = C(17)
    ctx.rule(RULE)
    ctx.minimum = 80
    ctx.assumptions.append('at least two cells; 19 significant digits are read back as the value written')
    for system in ('advection', 'euler'):
        for p in ctx.orders(range(0, 6 if ctx.thorough else 4)):
            for bc in (('periodic', 'periodic'), ('zerograd', 'periodic')):
                both(ctx, system, p, bc)
        both(ctx, system, 10, ('periodic', 'zerograd'), False)    # two-digit column names
        names(ctx, system)
        sensors(ctx, system)
    for ic in ('simplew', 'entrpyw', 'shuoshe'):
        gas(ctx, ic)


def make(ctx, I, system, p, bc, th=()):
    sol = solution(ctx, I, 'sinewave' if system == 'advection' else 'entrpyw', p, 'roe', '', th)
    set_u(I, sol, 'U')
    set_bc(I, sol, *bc)
    # any uniform mesh, wherever it lies
    A, dx = finite(sym('A')), sym('DX', pos=True)
    I.setattr_(sol, 'dx', dx)
    I.setattr_(sol, 'x', I.arr((NE + ONE,), lambda ix: A + ix[0] * dx))
    I.setattr_(sol, 'xc', I.arr((NE,), lambda ix: A + (ix[0] + HALF) * dx))
    for n, v in (('t', T), ('n', N)):
        member(I, sol, n)
        I.setattr_(sol, n, v)
    return sol


def saves(I, k0):
    return [e for e in I.st.events[k0:] if e.kind == 'savetxt']


def fname(I, field, k):
    return mkstr([field, I.lib.format_value(I, k, '010d'), '.dat'])


def both(ctx, system, p, bc, residual=True):
    I = interp(ctx)
    nf = len(FIELDS[system])
    tag = '%s p=%d %s: ' % (system, p, '/'.join(bc))
    sol = make(ctx, I, system, p, bc)
    # an earlier output of other data
    u = member(I, sol, 'u')
    set_u(I, sol, 'W')
    I.setattr_(sol, 't', finite(sym('t0')))
    I.setattr_(sol, 'n', sym('n0', isint=True, pos=True))
    K0 = K + ONE
    warm(I, member(I, sol, 'printer'), (K0, finite(sym('dt'))))
    I.setattr_(sol, 'u', u)
    I.setattr_(sol, 't', T)
    I.setattr_(sol, 'n', N)
    k0 = len(I.st.events)
    invoke(ctx, I, tag + 'printer', member(I, sol, 'printer'), (K, finite(sym('dt'))))
    S = saves(I, k0)
    ctx.ob(tag + 'one file per field', len(S) == nf, '%d files' % len(S))
    i = cell('i', ZERO, NE - ONE)
    xc = I.getter(member(I, sol, 'xc'))
    for f, e in enumerate(S[:nf]):
        name, shape, g, fmt, delim, header, com = e.data[:7]
        ctx.ob(tag + 'file of field %s' % FIELDS[system][f], same_value(name, fname(I, FIELDS[system][f], K)), repr(name))
        ctx.ob(tag + 'one row per cell, centre and %d coefficients' % (p + 1),
               shape[0].eq(NE) and shape[1].as_int() == p + 2, repr(shape))
        ctx.ob(tag + 'numbers keep full precision', fmt in ('%.18e', '%.17e', '%.16e'), repr(fmt))
        ctx.ob(tag + 'columns are comma separated', delim == ',' and com == '# ', repr((delim, com)))
        if shape[1].as_int() != p + 2:
            continue
        ctx.eq(tag + 'field %d first column is the cell centre' % f, g((i, ZERO)), xc((i,)))
        for m in range(p + 1):
            ctx.eq(tag + 'field %d column of mode %d' % (f, m), g((i, C(m + 1))),
                   elem2('U', C(m), (i + ONE) * C(nf) + C(f)))
        lines = strs.split_any(header, '\n')
        head = mkstr(['n=', I.lib.format_value(I, N, 'd'), ', t=', I.lib.format_value(I, T, '.18e'),
                      ', bc_l=', bc[0], ', bc_r=', bc[1]])
        ctx.ob(tag + 'field %d header' % f, same_value(lines[0], head), repr(lines[0]))
        ctx.ob(tag + 'field %d names its columns' % f, len(lines) == 2 and
               same_value(lines[1], ', '.join(['xc'] + ['u%d' % m for m in range(p + 1)])), repr(lines[1:]))
    # printing does not disturb what is printed
    e = cell()
    for m in range(p + 1):
        for f in range(nf):
            ctx.eq(tag + 'printing leaves mode %d field %d alone' % (m, f), coef(I, sol, m, e, f),
                   elem2('U', C(m), e * C(nf) + C(f)))
    # and back
    cls = func(I, 'dg1d.solution', 'Solution')
    new = invoke(ctx, I, "Solution('empty')", cls, ('empty', system, ZERO, 'roe'))
    if p < 3:
        warm(I, member(I, new, 'loader'), (K0,))
    invoke(ctx, I, tag + 'loader', member(I, new, 'loader'), (K,))
    for a, v in (('t', T), ('n', N), ('N_E', NE), ('N_F', C(nf)), ('dx', member(I, sol, 'dx'))):
        ctx.eq(tag + 'read back ' + a, member(I, new, a), v)
    for a, v in (('bc_l', bc[0]), ('bc_r', bc[1])):
        ctx.ob(tag + 'read back ' + a, same_value(member(I, new, a), v), repr(member(I, new, a)))
    b = member(I, new, 'basis')
    ctx.eq(tag + 'read back order', member(I, b, 'p'), C(p))
    u = member(I, new, 'u')
    ctx.ob(tag + 'shape of the coefficients', isinstance(u, View) and len(u.shape) == 2 and u.shape[0].eq(C(p + 1))
           and u.shape[1].eq((NE + TWO) * C(nf)), repr(u))
    for m in range(p + 1):
        for f in range(nf):
            ctx.eq(tag + 'read back mode %d field %d' % (m, f), coef(I, new, m, e, f), elem2('U', C(m), e * C(nf) + C(f)))
    j = cell('j', ZERO)
    for a, k in (('xc', i), ('x', j)):
        v, w = member(I, new, a), member(I, sol, a)
        ctx.ob(tag + 'length of ' + a, isinstance(v, View) and v.shape[0].eq(w.shape[0]), repr(v))
        ctx.eq(tag + 'read back ' + a, I.getter(v)((k,)), I.getter(w)((k,)))
    if not residual:
        return
    opaque_euler(I)
    D = invoke(ctx, I, 'DG()', func(I, 'dg1d.dg', 'DG'), (new,))
    R = invoke(ctx, I, tag + 'residual of what was read', member(I, D, 'residual'), (new,))
    U = ghosted(lambda m, c, f: elem2('U', C(m), c * C(nf) + C(f)), bc[0], bc[1], nf)
    for (m, f), w in residual_ref(p, system, 'roe', U, member(I, sol, 'dx'), e).items():
        ctx.eq(tag + 'residual of what was read, mode %d field %d' % (m, f), I.getter(R)((C(m), e * C(nf) + C(f))), w)


def names(ctx, system):
    """two outputs never share a file"""
    I = interp(ctx)
    sol = make(ctx, I, system, 1, ('periodic', 'periodic'), ('0.1', '0.2'))
    k0 = len(I.st.events)
    pr = member(I, sol, 'printer')
    for q in (C(0), C(1), C(12), C(123456)):
        invoke(ctx, I, 'printer', pr, (q, ONE))
    S = [e.data[0] for e in saves(I, k0)]
    ctx.ob(system + ': each output goes to its own files', len(set(map(repr, S))) == len(S) == 4 * (len(FIELDS[system]) + 1),
           repr(S))


def sensors(ctx, system):
    I = interp(ctx)
    sol = make(ctx, I, system, 1, ('periodic', 'periodic'), ('0.1', '0.2'))
    sen = member(I, sol, 'sensors')
    v = member(I, sen, 'sensors')
    I.setattr_(sen, 'sensors', I.arr(v.shape, lambda ix: Rat.of(atom('elem', 'S', tuple(ix), isint=True))))
    k0 = len(I.st.events)
    invoke(ctx, I, 'printer', member(I, sol, 'printer'), (K, ONE))
    S = [e for e in saves(I, k0) if same_value(e.data[0], fname(I, 'sensor', K))]
    if not ctx.ob(system + ': the sensors are written', len(S) == 1, repr([e.data[0] for e in saves(I, k0)])):
        return
    name, shape, g, fmt, delim, header, com = S[0].data[:7]
    i = cell('i', ZERO, NE - ONE)
    if ctx.ob(system + ': one sensor row per cell', shape[0].eq(NE) and shape[1].as_int() == 2, repr(shape)):
        ctx.eq(system + ': sensor row position', g((i, ZERO)), I.getter(member(I, sol, 'xc'))((i,)))
        ctx.eq(system + ': sensor row value', g((i, ONE)), Rat.of(atom('elem', 'S', (i + ONE,), isint=True)))
    I = interp(ctx)
    sol = make(ctx, I, system, 1, ('periodic', 'periodic'))
    k0 = len(I.st.events)
    invoke(ctx, I, 'printer', member(I, sol, 'printer'), (K, ONE))
    ctx.ob(system + ': no sensor file without sensors', not any(same_value(e.data[0], fname(I, 'sensor', K))
                                                             for e in saves(I, k0)))


def gas(ctx, ic):
    """the gas a restart computes with is the one that was printed"""
    I = interp(ctx)
    sol = solution(ctx, I, ic.split()[0], 1, 'roe', extra=ic.split()[1:])
    const = module(I, 'dg1d.constants')
    g0 = member(I, const, 'gamma')
    invoke(ctx, I, 'printer', member(I, sol, 'printer'), (K, ONE))
    new = invoke(ctx, I, "Solution('empty')", func(I, 'dg1d.solution', 'Solution'), ('empty', 'euler', ZERO, 'roe'))
    invoke(ctx, I, 'loader', member(I, new, 'loader'), (K,))
    g1 = member(I, const, 'gamma')
    ctx.ob('ratio of specific heats after loading ' + ic, same_value(g0, g1),
           'output of %s is printed with gamma=%s and restarts with gamma=%s' % (ic, show(g0), show(g1)),
           finding='gamma-not-stored' if ic == 'simplew' and same_value(g1, C(Fraction(7, 5))) else None)
