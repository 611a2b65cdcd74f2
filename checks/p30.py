"""The plot shows the solution it loaded."""
import ast
import os
from decimal import Decimal, localcontext
from sa.model import *
from sa import witness, harness
from . import p22

RULE = ('plot.py is interpreted as a program on the files a solution with arbitrary coefficients leaves (four cells, and numbers '
        'of cells around the lengths the source names); the points it '
        'draws in each figure must be exactly the nodes and edges of the interior cells with the values (primitive variables for '
        'Euler) of the printed solution there, and the sensors when a sensor file is present.')


def run(ctx):
    ctx.rule(RULE)
    ctx.minimum = 60
    harness.fix_cells(4)
    import sys
    me = sys.modules[__name__]
    for system in ('advection', 'euler'):
        for p in ctx.orders(range(0, 6 if ctx.thorough else 4)):
            one(ctx, me.NE.as_int(), system, p, False)
    one(ctx, me.NE.as_int(), 'advection', 1, True)
    one(ctx, me.NE.as_int(), 'euler', 1, True)
    many = lengths(ctx.repo)
    for n in sorted(many)[:12 if ctx.thorough else 5] + sorted(many)[-1:]:
        harness.fix_cells(n)
        for system, p, sensing in (('advection', 0, True), ('euler', 0, False)):
            ctx.soft = True
            ctx.part(one, n, system, p, sensing)
            ctx.soft = False


def lengths(repo):
    """numbers of cells beyond the lists and constants of the plotting tool"""
    out = {9}
    with open(os.path.join(repo, 'dg1d', 'plot.py')) as h:
        t = ast.parse(h.read())
    for n in ast.walk(t):
        if isinstance(n, (ast.List, ast.Tuple)):
            out.add(len(n.elts) + 1)
        if isinstance(n, ast.Constant) and type(n.value) is int:
            out.add(n.value + 1)
    return {n for n in out if 4 < n <= 41}


MOST = [60]     # longer curves are references


def one(ctx, n, system, p, sensing):
    from sa.interp import PyExc as PE
    I = interp(ctx)
    tag = '%s p=%d%s%s: ' % (system, p, ' with sensors' if sensing else '', '' if n == 4 else ' %d cells' % n)
    MOST[0] = max(60, (p + 3) * n)
    sol = p22.make(ctx, I, system, p, ('zerograd', 'periodic'), ('0.1', '0.2') if sensing else ())
    g = gamma_euler(I) if system == 'euler' else None
    if sensing:
        sen = member(I, sol, 'sensors')
        v = member(I, sen, 'sensors')

        def flags(name):
            I.setattr_(sen, 'sensors', I.arr(v.shape, lambda ix: Rat.of(atom('elem', name, tuple(ix), isint=True))))
    u = member(I, sol, 'u')
    xs, xcs = I.getter(member(I, sol, 'x')), I.getter(member(I, sol, 'xc'))
    # an earlier output with other contents, then the one to show
    I.setattr_(sol, 'u', I.arr(u.shape, lambda ix: Rat.of(atom('elem', 'U0', tuple(ix)))))
    if sensing:
        flags('S0')
    invoke(ctx, I, 'printer', member(I, sol, 'printer'), (C(0), ONE))
    I.setattr_(sol, 'u', u)
    if sensing:
        flags('S')
    invoke(ctx, I, 'printer', member(I, sol, 'printer'), (C(7), ONE))
    I.hooks['arg'] = lambda I_, dest, kk: {'step': C(7), 'system': system, 'show': FALSE}.get(dest, NotImplemented)

    def exists(I_, name):
        return TRUE if any(e.kind == 'savetxt' and same_value(e.data[0], name) for e in I_.st.events) else FALSE
    I.hooks['exists'] = exists
    F = Figures(I, points, 0)
    drawn = F.drawn
    k = len(I.raised)
    ctx.subject = ('dg1d/plot.py', 1)
    try:
        I.load_module('dg1d.plot', main=True)
    except PE as e:
        I.raised.append((I.st, e.exc))
    except Dead:
        pass
    for st, exc in I.raised[k:]:
        unexpected(ctx, I, tag + 'plot.py', st, exc)
    if I.st is None:
        ctx.ob(tag + 'plot.py ends', False, repr(I.raised[k:]))
        return
    if not any(drawn.values()):
        raise Unsupported('plot.py draws nothing this analysis follows')
    nf = 1 if system == 'advection' else 3
    X, _ = nodes(p)
    for f in range(nf):
        want = []
        for e in range(1, n + 1):
            a, b = xs((C(e - 1),)), xs((C(e),))
            for x in X:
                want.append((((b - a) * x + a + b) * HALF, value(system, p, e, x, f, g)))
            want.append((a, value(system, p, e, C(-1), f, g)))
            want.append((b, value(system, p, e, ONE, f, g)))
        match(ctx, tag + 'figure %d' % f, drawn.get(f, []), want)
    if sensing:
        match(ctx, tag + 'sensor figure', drawn.get(nf, []),
              [(xcs((C(e - 1),)), Rat.of(atom('elem', 'S', (C(e),), isint=True))) for e in range(1, n + 1)])
    else:
        ctx.ob(tag + 'no sensor figure without sensors', not drawn.get(nf), '%d curves' % len(drawn.get(nf, [])))


def gamma_euler(I):
    return member(I, module(I, 'dg1d.constants'), 'gamma')


def value(system, p, e, x, f, g):
    """what is shown of field f of cell e at local position x"""
    nf = 1 if system == 'advection' else 3

    def u(k):
        s = ZERO
        for m in range(p + 1):
            s = s + leg(m, x) * elem2('U', C(m), C(e * nf + k))
        return s
    if nf == 1 or f == 0:
        return u(0)
    v = u(1) / u(0)
    return v if f == 1 else (g - ONE) * (u(2) - HALF * u(0) * v * v)


def points(I, x):
    if isinstance(x, View):
        n = 1
        for s in x.shape:
            if s.as_int() is None:
                raise Unsupported('plot of an array of unknown length')
            n *= s.as_int()
        if n > MOST[0]:
            return None
        if len(x.shape) == 1:
            g = I.getter(x)
            return [g((C(i),)) for i in range(n)]
        if len(x.shape) == 2 and x.shape[0].as_int() is not None:
            g = I.getter(x)
            return [g((C(i), C(j))) for j in range(x.shape[1].as_int()) for i in range(x.shape[0].as_int())]
        raise Unsupported('plot of a %d-dimensional array' % len(x.shape))
    if isinstance(x, Rat):
        return [x]
    return list(I.items(x))


def match(ctx, tag, curves, want):
    pts = []
    for x, y, _ in curves:
        if x is None or y is None:
            continue            # a reference curve
        if not ctx.ob(tag + ': as many abscissas as ordinates', len(x) == len(y), '%d and %d' % (len(x), len(y))):
            return
        pts += list(zip(x, y))
    used = set()
    with localcontext() as c:
        c.prec = 50
        P = next(q for q in sample() if ok(q, want))
        W = [(P.rat(x), P.rat(y)) for x, y in want]
        G = []
        for x, y in pts:
            try:
                G.append((P.rat(x), P.rat(y)))
            except ZeroDivisionError:
                G.append((Decimal('inf'), Decimal('inf')))      # not a point at all
            except witness.Reject as e:
                if 'zero' not in str(e):
                    raise Unsupported('points drawn: %s' % e)
                G.append((Decimal('inf'), Decimal('inf')))

        def near(a, b):
            return all(s.is_finite() and t.is_finite() and abs(s - t) <= Decimal(10) ** -25 * (1 + abs(s) + abs(t)) for s, t in zip(a, b))
        pairs = []
        for k, w in enumerate(W):
            hit = [i for i, q in enumerate(G) if near(w, q)]
            ctx.ob('%s: point %d is drawn' % (tag, k), bool(hit), 'nothing at (%.6g, %.6g) for %s' % (w[0], w[1], show(want[k][1], 200)))
            used.update(hit)
            pairs += [(k, i) for i in hit[:1]]
        for i, q in enumerate(G):
            if i not in used:
                ctx.ob('%s: nothing else is drawn' % tag, False, 'a point at (%.6g, %.6g), that is (%s, %s)' % (
                    q[0], q[1], show(pts[i][0], 100), show(pts[i][1], 200)))
                break
        else:
            ctx.ob('%s: nothing else is drawn' % tag, True)
    for k, i in pairs:
        ctx.eq('%s: position of point %d' % (tag, k), pts[i][0], want[k][0])
        ctx.eq('%s: value of point %d' % (tag, k), pts[i][1], want[k][1])


def sample():
    t = 0
    while True:
        yield witness.Point((11, t), 1)
        t += 1


def ok(P, want):
    try:
        for x, y in want:
            P.rat(x), P.rat(y)
        return True
    except (witness.Reject, ArithmeticError):
        return False
