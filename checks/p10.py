"""Mesh and geometry of a new solution."""
from sa.model import *

RULE = ('Solution() is interpreted for every named problem, order and a symbolic number of cells; edges, centres, '
        'cell size, array shapes, scaled inverse mass matrix, time, step counter and ghost layout are compared with '
        'the uniform partition of the problem domain; unknown names and missing parameters are followed too.')
DOMAIN = {'sinewave': (-1, 1), 'ictest': (-1, 1), 'simplew': (-4, 4), 'entrpyw': (-1, 1),
          'acsticw': (-1, 1), 'scktube': (-1, 1), 'shuoshe': (0, 10)}


def run(ctx):
    ctx.rule(RULE)
    ctx.minimum = 60
    for ic in DOMAIN:
        for p in ctx.orders(range(0, 8 if ctx.thorough else 5), hard=12):
            mesh(ctx, ic, p)
    for rs in ('roe', ''):
        empty(ctx, rs, 'empty')
    for w in ctx.words(*DOMAIN):
        empty(ctx, 'roe', w)
    short(ctx)


def mesh(ctx, ic, p):
    I = interp(ctx)
    tag = '%s p=%d ' % (ic, p)
    sol = solution(ctx, I, ic, p)
    A, B = (C(x) for x in DOMAIN[ic])
    nf = 1 if ICS[ic][0] == 'advection' else 3
    dx = (B - A) / NE
    ctx.eq(tag + 'number of cells', member(I, sol, 'N_E'), NE)
    ctx.eq(tag + 'number of fields', member(I, sol, 'N_F'), C(nf))
    ctx.eq(tag + 'cell size', member(I, sol, 'dx'), dx)
    ctx.eq(tag + 'initial time', num(member(I, sol, 't')), ZERO)
    ctx.eq(tag + 'initial step', num(member(I, sol, 'n')), ZERO)
    x, xc, u, mi = (member(I, sol, n) for n in ('x', 'xc', 'u', 'scaled_minv'))
    i = sym('i', isint=True)
    FACTS.push(i, ZERO, NE)
    for nm, v, want in (('edges', x, (NE + ONE,)), ('centres', xc, (NE,)),
                        ('coefficients', u, (C(p + 1), (NE + TWO) * C(nf))), ('inverse mass', mi, (C(p + 1),))):
        if not ctx.ob(tag + nm + ' shape', isinstance(v, View) and len(v.shape) == len(want) and
                      all(a.eq(b) for a, b in zip(v.shape, want)), 'shape %r' % (getattr(v, 'shape', None),)):
            return
    ctx.eq(tag + 'edge', I.getter(x)((i,)), A + dx * i)
    e = sym('e0', isint=True)
    FACTS.push(e, ZERO, NE - ONE)
    ctx.eq(tag + 'centre', I.getter(xc)((e,)), A + dx * (e + HALF))
    for m in range(p + 1):
        ctx.eq(tag + 'scaled inverse mass %d' % m, I.getter(mi)((C(m),)), C(2 * m + 1) / dx)
    b = member(I, sol, 'basis')
    ctx.eq(tag + 'order', num(member(I, b, 'p')), C(p))


def num(v):
    return v if isinstance(v, Rat) else C(v) if isinstance(v, (int, Fraction)) else v


def empty(ctx, rs, ic):
    """an unknown problem gives an empty solution and does not stop (the plot tools load into it)"""
    for system, nf in (('advection', 1), ('euler', 3)):
        I = interp(ctx)
        cls = func(I, 'dg1d.solution', 'Solution')
        n = len(ctx.violations)
        sol = invoke(ctx, I, 'Solution(%s)' % ic, cls, (ic, system, C(0), rs))
        u = member(I, sol, 'u')
        ctx.ob('unknown problem (%s, %s) leaves no cells' % (ic, system), isinstance(u, View) and
               u.shape[1].eq(ZERO) and num(member(I, sol, 'N_E')).eq(ZERO), repr(u))
        ctx.eq('unknown problem (%s, %s): number of fields' % (ic, system), num(member(I, sol, 'N_F')), C(nf))


def short(ctx):
    """a shock tube with a wrong number of parameters stops the program with an error"""
    for k in (0, 5, 6, 8):
        I = interp(ctx)
        cls = func(I, 'dg1d.solution', 'Solution')
        n = len(I.raised)
        loc = where(I, cls)
        l = line('scktube', tuple('q%d' % j for j in range(k)) or None) if k else mkstr(['scktube', ' ', Tok('NE')])
        dead = False
        try:
            I.call(cls, (l, 'euler', ONE), {})
        except PyExc as e:
            I.raised.append((I.st, e.exc))
            dead = True
        except Dead:
            dead = True
        exits = [e for s, e in I.raised[n:] if e.type == 'SystemExit']
        ctx.ob('shock tube with %d parameters stops' % k, dead and bool(exits),
               'construction %s: %r' % ('stops' if dead else 'continues', I.raised[n:]), loc)
        for e in exits:
            ctx.ob('shock tube with %d parameters stops with an error' % k, failing(I, e),
                   'exit status %r' % (e.args,), e.loc)


def failing(I, e):
    a = list(getattr(e, 'args', ()) or ())
    if not a:
        return False
    a = a[0]
    if isinstance(a, (str, AStr)):
        return True
    if isinstance(a, Rat):
        return a.as_int() not in (None, 0)
    return a is not None and a != 0
