"""Order conditions of the Runge-Kutta tables."""
from sa.model import *

ORDERS = {'rk3': 3, 'rk4': 4, 'rk5': 5, 'rk6': 6, 'rk8': 8, 'rk10': 10, 'rk12': 12, 'rk14': 14}
TOL = Fraction(1, 10 ** 12)
BITS = 160


def trees(n):
    """rooted trees with up to n vertices: trees[k] lists those with k vertices, each a sorted
    tuple of (order, index) children; returns also density gamma"""
    out = {1: [()]}
    for k in range(2, n + 1):
        lst = []

        def rec(left, last, acc):
            if left == 0:
                lst.append(tuple(acc))
                return
            for o in range(min(left, last[0]), 0, -1):
                top = len(out[o])
                if o == last[0]:
                    top = min(top, last[1] + 1)
                for i in range(top - 1, -1, -1):
                    acc.append((o, i))
                    rec(left - o, (o, i), acc)
                    acc.pop()
        rec(k - 1, (k - 1, len(out[k - 1]) - 1), [])
        out[k] = lst
    return out


def conditions(c, b, order):
    """yield (tree name, defect) of every order condition, in fixed point"""
    S = len(c)
    one = 1 << BITS

    def fx(q):
        q = number(q)
        return (q.numerator << BITS) // q.denominator
    cv = [fx(x) for x in c]
    A = [[(j, fx(b[i][j])) for j in range(len(b[i])) if j < S and fx(b[i][j]) != 0] for i in range(S)]
    T = trees(order)
    phi, dens, stage = {}, {}, {}
    for k in range(1, order + 1):
        for ix, ch in enumerate(T[k]):
            v = [one] * S
            g = k
            for key in ch:
                w = stage[key]
                v = [(x * y) >> BITS for x, y in zip(v, w)]
                g *= dens[key]
            s = sum(x * y for x, y in zip(cv, v)) >> BITS
            dens[k, ix] = g
            if k < order:
                stage[k, ix] = [sum(a * v[j] for j, a in row) >> BITS for row in A]
            yield k, ix, Fraction(s, one) - Fraction(1, g)
BOUNDED = True


def run(ctx):
    ctx.rule('the coefficient tables are evaluated exactly from the source (decimal literals, rational '
             'arithmetic and square roots to 60 digits); every rooted-tree order condition up to the nominal '
             'order, explicitness and the row sums are checked to %g.' % float(TOL))
    ctx.minimum = 50
    deep = 14
    for rk, order in ORDERS.items():
        I = interp(ctx)
        c, a, b = table(ctx, I, rk)
        f = func(I, 'dg1d.rk_coeffs', 'get_%s_coefficients' % rk)
        loc = where(I, f)
        S = len(c)
        ctx.ob('%s has as many rows as stages' % rk, len(a) == S and len(b) == S,
               '%d weights, %d nodes, %d rows' % (S, len(a), len(b)), loc)
        if not (len(a) == S and len(b) == S):
            continue
        for i in range(S):
            up = [j for j in range(i, len(b[i])) if number(b[i][j]) != 0]
            ctx.ob('%s stage %d is explicit' % (rk, i), not up, 'depends on stages %s' % up, loc)
            s = sum((number(x) for x in b[i]), Fraction(0))
            ctx.ob('%s stage %d time is its row sum' % (rk, i), abs(s - number(a[i])) < TOL,
                   'row sum %.17g, stage time %.17g' % (s, number(a[i])), loc)
        worst = {}
        n = {}
        for k, ix, d in conditions(c, b, min(order, deep)):
            n[k] = n.get(k, 0) + 1
            if k not in worst or abs(d) > abs(worst[k][1]):
                worst[k] = (ix, d)
        for k in sorted(worst):
            ix, d = worst[k]
            ctx.ob('%s order %d conditions (%d trees)' % (rk, k, n[k]), abs(d) < TOL,
                   'condition of tree %d is off by %.3e' % (ix, float(d)), loc)
            ctx.notes.append('%s order %d: %d trees, worst defect %.1e' % (rk, k, n[k], float(d)))
