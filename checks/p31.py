"""The convergence plot shows the error and the run time of each run of the study."""
from decimal import localcontext
from fractions import Fraction
import posixpath
from sa.model import *
from sa import witness
from sa.strs import mkstr, Tok
from .p24 import tok

RULE = ('advection_convergence/plot.py is interpreted as a program on the directories a study leaves (arbitrary numbers in the '
        'outputs, arbitrary elapsed times in the logs); the curves it draws must be, in one figure, the L2 norm of last minus first '
        'cell averages over the number of cells in increasing order with a reference of slope 2p+1 through the first error, and in '
        'another the same errors over the elapsed seconds.')
BASE = '/R/advection_convergence'
# as directories are listed: in no numerical order
RES = {1: (16, 4, 8, 2, 10, 12, 6, 14, 5), 2: (4, 16, 8), 3: (8, 4), 4: (8, 4)}
OTHER = (4, 8)


def run(ctx):
    ctx.rule(RULE)
    ctx.minimum = 20
    ctx.part(one, 'short runs: ', '')
    ctx.part(one, 'runs of more than a day: ', '2 days, ')


def resolutions(order):
    return RES.get(order, OTHER)


def data(order, res, out, row, col):
    return Rat.of(atom('elem', 'D%d_%d_%d' % (order, res, out), (C(row) if isinstance(row, int) else row,
                                                                  C(col) if isinstance(col, int) else col)))


def where(path):
    """(order, resolution, rest) of a path of the study"""
    r = posixpath.relpath(posixpath.normpath(posixpath.join(BASE, path)), BASE).split('/')
    n = [int(x) if x.isdigit() else None for x in r[:2]]
    if None in n or not n or len(n) == 2 and n[1] not in resolutions(n[0]):
        return None
    return n + [r[2:]]


def log(order, res, days):
    words = [['Code version:  ', '9a9084b', '\n'], ['Parsing the deck file.\n'], ['Generating the solution.\n'],
             ['Solution written to file at step ', '     42 and time 8.000000e-01 (current time step:1.9e-02).\n'],
             ['Integrating the solution in time.\n'],
             ['Elapsed time ', days, '0:03:%02d.125000' % res, ' (or ', Tok('x_sec%d_%d' % (order, res)), ' seconds)\n']]
    return tuple(mkstr(w) for w in words)


def one(ctx, tag, days):
    I = ctx.interp(search=('advection_convergence', '', 'dg1d'))
    I.hooks['cwd'] = BASE
    I.hooks['tokval'] = lambda I_, name, kind: tok(name, 'int' if name.startswith('i_') else kind)
    listed = set()

    def listing(I_, path):
        w = where(path)
        if w is None or w[2:] and len(w) > 2 and w[2]:
            raise Unsupported('listing of %s' % path)
        if len(w) == 3:
            raise Unsupported('listing of %s' % path)
        listed.add(w[0])
        return [str(n) for n in resolutions(w[0])]
    I.hooks['listdir'] = listing

    def exists(I_, path):
        if not isinstance(path, str):
            raise Unsupported('existence of a computed path')
        return TRUE if where(path) is not None else FALSE
    I.hooks['exists'] = exists

    def opened(I_, fname):
        w = where(fname) if isinstance(fname, str) else None
        if w is None or len(w) < 3 or w[2] != ['logfile']:
            I_.raise_('FileNotFoundError', repr(fname))
        return log(w[0], w[1], days)
    I.hooks['open'] = opened

    def rows(I_, fname):
        w = where(fname) if isinstance(fname, str) else None
        if w is None or len(w) < 3 or len(w[2]) != 1:
            I_.raise_('FileNotFoundError', repr(fname))
        f = w[2][0]
        if not (f[0] == 'u' and f.endswith('.dat') and f[1:-4].isdigit() and len(f) == 15 and int(f[1:-4]) <= 10):
            I_.raise_('FileNotFoundError', repr(fname))
        o, r, k = w[0], w[1], int(f[1:-4])
        return (C(r), C(o + 2)), lambda ix: data(o, r, k, ix[0], ix[1])
    I.hooks['loadtxt_rows'] = rows
    I.hooks['arg'] = lambda I_, dest, kk: {'show': FALSE}.get(dest, NotImplemented)
    F = Figures(I, values)
    drawn = F.drawn
    k = len(I.raised)
    ctx.subject = ('advection_convergence/plot.py', 1)
    try:
        I.load_module('plot', main=True)
    except PyExc as e:
        I.raised.append((I.st, e.exc))
    except Dead:
        pass
    for st, exc in I.raised[k:]:
        if exc.type == 'SystemExit' and (not exc.args or exc.args[0] is None):
            continue
        unexpected(ctx, I, tag + 'plot.py', st, exc)
    if I.st is None:
        ctx.ob(tag + 'plot.py ends', False, repr(I.raised[k:]))
        return
    if not any(drawn.values()):
        raise Unsupported('plot.py draws nothing this analysis follows')
    ctx.ob(tag + 'the orders of the study are read', bool(listed), '')
    curves(ctx, tag, sorted(listed), drawn)


def curves(ctx, tag, orders, drawn):
    left = [(f, c) for f in sorted(drawn) for c in drawn[f]]
    E2 = {(o, r): square(o, r) for o in orders for r in resolutions(o)}
    P = point(E2)
    kappa2 = None
    figs = [set(), set()]
    for o in orders:
        R = sorted(resolutions(o))
        T = [tok('x_sec%d_%d' % (o, r), 'num') for r in R]
        for i, (xs, what) in enumerate(((list(map(C, R)), 'errors over the number of cells'), (T, 'errors over the run time'))):
            t = '%sorder %d: %s' % (tag, o, what)
            hit = None
            for n, (f, (x, y, loc)) in enumerate(left):
                if x is None or y is None or len(x) != len(R) or len(y) != len(R) or not near(P, x, xs):
                    continue
                k2 = ratio(P, y, [E2[o, r] for r in R])
                if k2 is not None and (kappa2 is None or k2 == kappa2):
                    kappa2 = k2
                    hit = n
                    break
            ctx.ob(t + ' are drawn', hit is not None, 'no curve through %s; drawn: %s' % (
                show(xs[0], 60), '; '.join('figure %d: (%s, %s) ...' % (f, show(c[0][0], 60), show(c[1][0], 160))
                                           for f, c in left if c[0] and c[1])[:800]))
            if hit is None:
                continue
            f, (x, y, loc) = left.pop(hit)
            figs[i].add(f)
            for q, r in enumerate(R):
                ctx.eq('%s: abscissa at %d cells' % (t, r), x[q], xs[q])
                ctx.eq('%s: squared error at %d cells' % (t, r), y[q] * y[q], C(kappa2) * E2[o, r])
    if kappa2 is None:
        return
    for i, what in enumerate(('errors over the number of cells', 'errors over the run time')):
        if figs[i]:
            ctx.ob(tag + 'the %s are in one figure' % what, len(figs[i]) == 1, repr(figs[i]))
    if figs[0] and figs[1]:
        ctx.ob(tag + 'the two kinds are in different figures', not figs[0] & figs[1], repr(figs))
    # what is left: the reference lines
    for f, (x, y, loc) in left:
        if x is None or y is None:
            continue
        o = next((o for o in orders if len(x) == len(y) == len(resolutions(o)) and near(P, x, [C(r) for r in sorted(resolutions(o))]) and
                  slope(P, x, y, kappa2, E2, o)), None)
        ctx.ob('%sa further curve in figure %d is the theoretical error' % (tag, f), o is not None,
               '(%s, %s) ...' % (show(x[0], 60), show(y[0], 200)) if x and y else '', loc)
    for o in orders:
        n = sum(1 for f, (x, y, loc) in left if x is not None and y is not None and len(x) == len(y) == len(resolutions(o)) and
                near(P, x, [C(r) for r in sorted(resolutions(o))]) and slope(P, x, y, kappa2, E2, o))
        ctx.ob('%sorder %d: the theoretical error is drawn' % (tag, o), n > 0, '')


def square(o, r):
    s = ZERO
    for i in range(r):
        d = data(o, r, 0, i, 1) - data(o, r, 10, i, 1)
        s = s + d * d
    return s / C(r)


def values(I, x):
    if isinstance(x, View):
        if len(x.shape) != 1 or x.shape[0].as_int() is None or x.shape[0].as_int() > 60:
            return None
        g = I.getter(x)
        return [g((C(i),)) for i in range(x.shape[0].as_int())]
    if isinstance(x, Rat):
        return [x]
    return list(I.items(x))


def num(P, x):
    try:
        return P.rat(x)
    except (ZeroDivisionError, witness.Reject):
        return None


def close(a, b):
    return a is not None and b is not None and a.is_finite() and b.is_finite() and abs(a - b) <= (abs(a) + abs(b) + 1) * TOL


from decimal import Decimal      # noqa: E402
TOL = Decimal(10) ** -20


def near(P, x, want):
    with localcontext() as c:
        c.prec = 50
        return all(isinstance(a, Rat) and close(num(P, a), num(P, b)) for a, b in zip(x, want))


def ratio(P, y, E2):
    """the square of the factor between the values drawn and the norm, when it is the same simple number everywhere"""
    with localcontext() as c:
        c.prec = 50
        out = set()
        for a, b in zip(y, E2):
            u, v = num(P, a) if isinstance(a, Rat) else None, num(P, b)
            if u is None or v is None or not u.is_finite() or v == 0 or u < 0:
                return None
            k = Fraction(u * u / v).limit_denominator(64)
            if k == 0 or not close(u * u / v, Decimal(k.numerator) / Decimal(k.denominator)):
                return None
            out.add(k)
        return out.pop() if len(out) == 1 else None


def slope(P, x, y, kappa2, E2, o):
    R = sorted(resolutions(o))
    with localcontext() as c:
        c.prec = 50
        for q, r in enumerate(R):
            u, v = num(P, y[q]) if isinstance(y[q], Rat) else None, num(P, C(kappa2) * E2[o, R[0]])
            if u is None or v is None or not close(u * u, v * (Decimal(R[0]) / Decimal(r)) ** (2 * (2 * o + 1))):
                return False
        return True


def point(E2):
    t = 0
    while True:
        P = witness.Point((13, t), 1)
        t += 1
        with localcontext() as c:
            c.prec = 50
            if all(num(P, e) is not None for e in E2.values()):
                return P
