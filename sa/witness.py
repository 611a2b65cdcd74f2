"""Confirmation of a difference between two normal forms.

When the normal forms of two values differ, the abstract values themselves (not
the program) are evaluated at sample points of the domain until one separates
them.  A difference without a separating point is reported as undecided: an
incompleteness of the normal form must not become an alarm.
"""
import hashlib
import math
import random
from decimal import Decimal, getcontext, localcontext
from fractions import Fraction
from .alg import *
from . import alg


class Reject(Exception):
    pass


class Undefined(Reject):
    """the value itself (not a condition or the argument of a function) divides by zero"""


class Point:
    """one sample point: a lazily drawn assignment to all atoms"""

    def __init__(self, seed, mode, hints=None):
        self.seed, self.mode = seed, mode
        self.hints = hints or {}
        self.val = {}
        self.bound = {}
        self.named = {}
        self.bools = {}
        self.memo = {}
        self.prec = 60
        self.inner = 0

    def draw(self, key, pos, isint=False):
        h = hashlib.sha256(repr((self.seed, key)).encode()).digest()
        r = random.Random(h)
        hs = self.hints.get(key[1]) if self.mode == 6 and len(key) > 1 and not isint else None
        if self.mode == 6 and hs is None:
            hs = ()
        if hs and r.random() < 0.8:      # around the places where branches switch
            return r.choice(hs) * r.choice((Decimal('0.4'), Decimal('0.9'), Decimal(1), Decimal('1.1'), Decimal(2)))
        if self.mode == 5:      # coinciding states
            v = 1 if pos else r.choice((1, 1, 0, -1))
        elif self.mode == 0:      # small values, many coincidences
            v = r.choice((Fraction(1, 2), 1, 1, 2) if pos else (0, 0, 1, -1, Fraction(1, 2), 2, -2))
        elif self.mode == 1:
            v = Fraction(r.randint(1, 400), 100) if pos else Fraction(r.randint(-400, 400), 100)
        elif self.mode == 2:    # wide dynamic range
            v = Fraction(10) ** r.randint(-3, 3) * Fraction(r.randint(10, 99), 10)
            if not pos and r.random() < 0.5:
                v = -v
        elif self.mode == 3:    # near-equal values
            v = 1 + Fraction(r.randint(0, 20), 10000)
            if not pos and r.random() < 0.2:
                v = -v
        else:
            v = Fraction(r.randint(50, 200), 100)
            if not pos:
                v = v * r.choice((1, 1, -1, 0))
        if isint:
            v = Fraction(int(v))
            if pos and v < 1:
                v = Fraction(1)
        return Decimal(Fraction(v).numerator) / Decimal(Fraction(v).denominator)

    # -- evaluation
    def rat(self, r):
        if self.bound:
            return self._rat(r)
        k = r.key()
        v = self.memo.get(k)
        if v is None:
            v = self._rat(r)
            self.memo[k] = v
        return v

    def _rat(self, r):
        t = self.poly(r.num.items())
        for k, e in r.den:
            d = self.poly(k)
            if d == 0:
                raise Reject('zero denominator') if self.inner else Undefined('zero denominator')
            t = t / d ** int(e)
        return t

    def poly(self, items):
        t = Decimal(0)
        for m, c in items:
            x = Decimal(c.numerator) / Decimal(c.denominator)
            for a, e in m:
                b = self.atom(a)
                x *= self.pow(b, Fraction(e))
            t += x
        return t

    def pow(self, b, e):
        if e.denominator == 1:
            n = int(e)
            if n < 0 and b == 0:
                raise Reject('0**-1') if self.inner else Undefined('0**-1')
            if b == 0 and n == 0:
                return Decimal(1)
            return b ** n
        if b < 0:
            raise Reject('root of a negative')
        if b == 0:
            if e < 0:
                raise Reject('0**-x')
            return Decimal(0)
        if e.denominator == 2:
            return b.sqrt() ** int(e.numerator)
        return (b.ln() * Decimal(e.numerator) / Decimal(e.denominator)).exp()

    def rpow(self, b, e):
        if e == e.to_integral_value() and abs(e) < 1000:
            return self.pow(b, Fraction(int(e)))
        if b < 0:
            raise Reject('power of a negative')
        if b == 0:
            if e < 0:
                raise Reject('0**-x')
            return Decimal(0)
        v = b.ln() * e
        if abs(v) > 2000:
            raise Reject('overflow')
        return v.exp()

    def atom(self, i):
        at = ATOMS[i]
        if at.kind == 'sym':
            if i in self.bound:
                return self.bound[i]
            return self.symbol(i)
        if self.bound:
            return self._atom(i)
        v = self.val.get(i)
        if v is None:
            v = self.val[i] = self._atom(i)
        return v

    def symbol(self, i):
        v = self.val.get(i)
        if v is not None:
            return v
        at = ATOMS[i]
        if at.args[0] == 'pi':
            v = Decimal(alg.PI100)
        elif at.isint:
            lo = hi = None
            if i in FACTS.bounds:
                b = FACTS.bounds[i]
                if b[0] is not None:
                    lo = int(self.rat(b[0]))
                if b[1] is not None:
                    hi = int(self.rat(b[1]))
            if lo is None:
                lo = 1 if at.pos else (hi - 6 if hi is not None else -3)
            if hi is None:
                hi = lo + 6
            if hi < lo:
                raise Reject('empty range')
            h = hashlib.sha256(repr((self.seed, 'i', at.args[0])).encode()).digest()
            v = Decimal(random.Random(h).randint(lo, hi))
        else:
            v = self.draw(('sym', at.args[0]), at.pos)
            if i in FACTS.bounds:
                b = FACTS.bounds[i]
                if b[0] is not None and v < self.rat(b[0]):
                    v = 2 * self.rat(b[0]) - v
                if b[1] is not None and v > self.rat(b[1]):
                    raise Reject('out of range')
        self.val[i] = v
        self.named[at.args[0]] = v
        return v

    def any(self, x):
        if isinstance(x, Rat):
            return ('n', str(+self.rat(x).quantize(Decimal(10) ** -30)
                            if abs(self.rat(x)) < Decimal(10) ** 25 else self.rat(x)))
        if isinstance(x, Cond):
            return ('c', self.cond(x))
        if isinstance(x, (tuple, list)):
            return tuple(self.any(y) for y in x)
        return repr(x)

    def _atom(self, i):
        at = ATOMS[i]
        k = at.kind
        if k == 'elem':
            key = ('elem', at.args[0], tuple(self.any(x) for x in at.args[1]))
            v = self.draw(key, at.pos, at.isint)
            self.named['%s[%s]' % (at.args[0], ','.join(
                str(x[1]).split('.')[0] for x in key[2] if isinstance(x, tuple)))] = v
            return v
        if k == 'abs':
            return abs(self.rat(at.args[0]))
        if k == 'prime':
            return Decimal(at.args[0])
        if k == 'polybase':
            v = self.rat(at.args[0])
            if v < 0:
                raise Reject('root of a negative')
            return v
        if k in ('glx', 'glw'):
            from .legendre import numeric_node
            return numeric_node(int(at.args[0]), int(at.args[1]))[0 if k == 'glx' else 1]
        if k in ('pow', 'spow', 'cpow'):
            return self.rpow(self.rat(at.args[0]), self.rat(at.args[1]))
        if k == 'ite':
            return self.rat(at.args[1] if self.cond(at.args[0]) else at.args[2])
        if k == 'divzero':
            raise Reject('division by zero') if self.inner else Undefined('division by zero')
        self.inner += 1
        try:
            return self._function(i, at, k)
        finally:
            self.inner -= 1

    def _function(self, i, at, k):
        if k == 'red':
            kind, sg, n, b = at.args
            nn = int(self.rat(n))
            if nn > 40:
                raise Reject('large reduction')
            (m, c), = sg.num.items()
            old = dict(self.bound)
            vs = []
            for j in range(nn):
                self.bound = dict(old)
                self.bound[m[0][0]] = Decimal(j)
                vs.append(self.rat(b))
            self.bound = old
            if kind == 'sum':
                return sum(vs, Decimal(0))
            if not vs:
                raise Reject('empty reduction')
            return max(vs) if kind == 'max' else min(vs)
        if k in ('sin', 'cos', 'tanh', 'tan', 'sinh', 'cosh', 'arctan', 'exp', 'log', 'floor', 'ceil',
                 'trunc') and isinstance(at.args[0], Rat):
            x = self.rat(at.args[0])
            if k == 'exp':
                if abs(x) > 2000:
                    raise Reject('overflow')
                return x.exp()
            if k == 'log':
                if x <= 0:
                    raise Reject('log')
                return x.ln()
            if k == 'floor':
                return Decimal(math.floor(x))
            if k == 'ceil':
                return Decimal(math.ceil(x))
            if k == 'trunc':
                return Decimal(math.trunc(x))
            if k in ('tanh', 'sinh', 'cosh'):
                if abs(x) > 100:
                    raise Reject('overflow')
                u, v = x.exp(), (-x).exp()
                return (u - v) / (u + v) if k == 'tanh' else (u - v) / 2 if k == 'sinh' else (u + v) / 2
            if k in ('sin', 'cos'):
                return sincos(x, k)
            f = {'arctan': math.atan}.get(k) or getattr(math, k)
            self.prec = min(self.prec, 13)
            try:
                return Decimal(f(float(x)))
            except (OverflowError, ValueError):
                raise Reject(k)
        if k == 'int' and isinstance(at.args[0], Rat):
            return Decimal(math.trunc(self.rat(at.args[0])))
        if k == 'factorial':
            n = self.rat(at.args[0])
            if n < 0 or n > 60:
                raise Reject('factorial')
            return Decimal(math.factorial(int(n)))
        if k == 'minusonepow':
            return Decimal(-1 if int(self.rat(at.args[0])) % 2 else 1)
        if k == 'pow0':
            return Decimal(0)
        if k == 'invent':
            return self.inverse(at.args[0], *at.args[1:])
        if k == 'round' and len(at.args) != 1:
            raise Reject(k)
        key = (k,) + tuple(self.any(a) for a in at.args)
        v = self.draw(key, at.pos, at.isint)
        self.named['%s(...)' % k] = v
        return v

    def inverse(self, entries, i, j):
        n = math.isqrt(len(entries))
        M = [[self.rat(entries[r * n + c]) for c in range(n)] + [Decimal(int(r == c)) for c in range(n)] for r in range(n)]
        for c in range(n):
            p = max(range(c, n), key=lambda r: abs(M[r][c]))
            if abs(M[p][c]) < Decimal(10) ** -25:
                raise Reject('singular matrix')
            M[c], M[p] = M[p], M[c]
            M[c] = [x / M[c][c] for x in M[c]]
            for r in range(n):
                if r != c and M[r][c]:
                    f = M[r][c]
                    M[r] = [x - f * y for x, y in zip(M[r], M[c])]
        return M[i.as_int()][n + j.as_int()]

    def cond(self, c):
        self.inner += 1
        try:
            return self._cond(c)
        finally:
            self.inner -= 1

    def _cond(self, c):
        o = c.op
        if o == 'true':
            return True
        if o == 'false':
            return False
        if o == 'and':
            return all(self.cond(a) for a in c.args)
        if o == 'or':
            return any(self.cond(a) for a in c.args)
        if o == 'not':
            return not self.cond(c.args[0])
        if o == 'sign':
            return self.sign(c.args[0]) in c.args[1]
        if o == 'b' and c.args and c.args[0] in ('any', 'all') and len(c.args) == 3 \
                and isinstance(c.args[1], Cond):
            kind, b, n = c.args
            nn = int(self.rat(n))
            if nn > 40:
                raise Reject('large reduction')
            sgs = [a for a in deep_atoms(b) if ATOMS[a].kind == 'sym'
                   and ATOMS[a].args[0].startswith('\u03c3')] if not isinstance(b, bool) else []
            if not sgs:
                raise Reject('reduction')
            sg = max(sgs, key=lambda a: ATOMS[a].args[0])
            old = dict(self.bound)
            vs = []
            for j in range(nn):
                self.bound = dict(old)
                self.bound[sg] = Decimal(j)
                vs.append(self.cond(b))
            self.bound = old
            return any(vs) if kind == 'any' else all(vs)
        key = ('cond',) + tuple(self.any(a) for a in c.args)
        h = hashlib.sha256(repr((self.seed, key)).encode()).digest()
        self.named[repr(c)[:60]] = v = bool(h[0] & 1)
        return v

    def sign(self, r):
        v = self.rat(r)
        if abs(v) < Decimal(10) ** (-(self.prec - 12) if self.prec > 20 else -self.prec):
            # a small number, or what cancellation left of zero
            if v == 0 or not all(ATOMS[a].kind in ('sym', 'elem') for a in r.atoms()):
                return 0
            scale = max((abs(self.poly([t])) for t in r.num.items()), default=Decimal(0))
            if abs(self.poly(r.num.items())) < scale * Decimal(10) ** -25:
                return 0
        return 1 if v > 0 else -1


def sincos(x, k):
    pi = Decimal(alg.PI100)
    if k == 'cos':
        x = x + pi / 2
    x = x - (x / (2 * pi)).to_integral_value() * 2 * pi
    t = s = x
    n = 1
    while abs(t) > Decimal(10) ** -58 and n < 400:
        t = -t * x * x / ((n + 1) * (n + 2))
        s += t
        n += 2
    return s


def signs_in(x, out=None):
    """the expressions whose sign decides a branch in x"""
    out = {} if out is None else out
    seen = set()

    def go(y):
        if isinstance(y, Rat):
            for i in y.atoms():
                if i not in seen:
                    seen.add(i)
                    at = ATOMS[i]
                    if at.kind == 'abs':
                        out[at.args[0].key()] = at.args[0]
                    for a in at.args:
                        go(a)
        elif isinstance(y, Cond):
            if y.op == 'sign':
                out[y.args[0].key()] = y.args[0]
            for a in y.args:
                go(a)
        elif isinstance(y, (tuple, list)):
            for a in y:
                go(a)
    go(x)
    return list(out.values())


def thresholds(a, b):
    """values of single quantities at which a branch of a or b switches"""
    out = {}
    n = 0
    for r in signs_in((a, b)):
        leaf = None
        for i in deep_atoms(r):
            at = ATOMS[i]
            if at.kind == 'elem' or at.kind == 'sym' and not at.isint and at.args[0] != 'pi':
                if leaf is not None and leaf != i:
                    leaf = None
                    break
                leaf = i
        if leaf is None or n > 40:
            continue
        n += 1
        at = ATOMS[leaf]

        def f(z):
            p = Point((0, 'threshold'), 1)
            p.val[leaf] = z
            return p.rat(r)
        grid = [Decimal(10) ** k for k in range(-12, 13)]
        if not at.pos:
            grid = [-z for z in reversed(grid)] + [Decimal(0)] + grid
        old = None
        for z in grid:
            try:
                v = f(z)
            except (Reject, ArithmeticError, ValueError, OverflowError):
                old = None
                continue
            if old is not None and (old[1] < 0) != (v < 0):
                lo, hi, neg = old[0], z, old[1] < 0
                try:
                    for _ in range(40):
                        m = (lo * hi).sqrt().copy_sign(hi) if lo * hi > 0 else (lo + hi) / 2
                        if (f(m) < 0) == neg:
                            lo = m
                        else:
                            hi = m
                    m = (lo + hi) / 2
                    out.setdefault(at.args[0], set()).add(m)
                except (Reject, ArithmeticError, ValueError, OverflowError):
                    pass
            old = (z, v)
    return {k: sorted(v) for k, v in out.items()}


def boundary(a, b, assume, conds, seed, rounds=12):
    """points between the places where branches of a and b switch"""
    S = signs_in((a, b))
    if not S:
        return None
    with localcontext() as ctx:
        ctx.prec = 60
        ctx.Emax = 10 ** 6
        ctx.Emin = -10 ** 6
        syms = sorted({i for r in S for i in deep_atoms(r) if ATOMS[i].kind == 'sym'
                       and not ATOMS[i].isint and ATOMS[i].args[0] != 'pi'})[:6]
        for t in range(rounds):
            for i in syms:
                roots = set()
                at = ATOMS[i]
                for r in S:
                    if i not in deep_atoms(r):
                        continue
                    try:
                        f = []
                        for z in (1, 2, 3):
                            p = Point((seed, 'b', t), t % 5)
                            p.val[i] = Decimal(z)
                            f.append(p.rat(r))
                        if f[0] != f[1]:
                            roots.add(1 - f[0] / (f[1] - f[0]))
                        # quotients of linear functions: (a z + b)/(z + d)
                        den = f[0] - 2 * f[1] + f[2]
                        if abs(den) > Decimal(10) ** -40:
                            d = (-f[0] + 4 * f[1] - 3 * f[2]) / den
                            g = [f[0] * (1 + d), f[1] * (2 + d)]
                            if g[0] != g[1]:
                                roots.add(1 - g[0] / (g[1] - g[0]))
                    except (Reject, ArithmeticError, ValueError, OverflowError):
                        continue
                rs = sorted(z for z in roots if abs(z) < 10 ** 6)
                zs = list(rs)
                if rs:
                    zs += [(x + y) / 2 for x, y in zip(rs, rs[1:])] + [rs[0] - 1, rs[-1] + 1, rs[0] / 2]
                for z in zs:
                    if at.pos and z <= 0:
                        continue
                    p = Point((seed, 'b', t), t % 5)
                    p.val[i] = z
                    p.named[at.args[0]] = z
                    try:
                        if not all(p.sign(r) in s for r, s in assume):
                            continue
                        if not all(p.cond(c) for c in conds):
                            continue
                        x, y = value(p, a), value(p, b)
                        if differ(p, x, y):
                            return p, x, y
                    except (Reject, ArithmeticError, ValueError, OverflowError):
                        continue
    return None


def value(p, x):
    if isinstance(x, Cond):
        return p.cond(x)
    if isinstance(x, Rat):
        return p.rat(x)
    if isinstance(x, (tuple, list)):
        return tuple(value(p, y) for y in x)
    return x


def differ(p, x, y):
    if isinstance(x, tuple) and isinstance(y, tuple):
        return len(x) != len(y) or any(differ(p, a, b) for a, b in zip(x, y))
    if isinstance(x, bool) or isinstance(y, bool):
        return x != y
    if isinstance(x, Decimal) and isinstance(y, Decimal):
        if p.prec > 20:
            return abs(x - y) > Decimal(10) ** -18 * (abs(x) + abs(y)) + Decimal(10) ** -36
        return abs(x - y) > Decimal(10) ** -9 * (1 + abs(x) + abs(y))
    return x != y


def find(a, b, assume=(), conds=(), tries=400, seed=1, enough=60):
    """a sample point of the domain where a and b differ, or None"""
    okcount = 0
    with localcontext() as ctx:
        ctx.prec = 60
        ctx.Emax = 10 ** 6
        ctx.Emin = -10 ** 6
        hints = None
        for t in range(tries):
            if t == 6:
                hints = thresholds(a, b)
            p = Point((seed, t), t % 7 if hints else t % 6, hints)
            try:
                if not all(p.sign(r) in s for r, s in assume):
                    continue
                if not all(p.cond(c) for c in conds):
                    continue
                y = value(p, b)
                try:
                    x = value(p, a)
                except Undefined:
                    return p, 'undefined (division by zero)', y
                okcount += 1
                if differ(p, x, y):
                    return p, x, y
            except (Reject, ArithmeticError, ValueError, OverflowError):
                continue
            if okcount >= enough:
                break
    return None


def describe(w, limit=12):
    p, x, y = w

    def s(v):
        if isinstance(v, Decimal):
            return '%.10g' % v
        if isinstance(v, tuple):
            return '(%s)' % ', '.join(s(u) for u in v)
        return str(v)
    at = ', '.join('%s=%s' % (k, s(v)) for k, v in sorted(p.named.items())[:limit])
    return 'computed %s, required %s at %s' % (s(x), s(y), at)


def point(conds, assume=(), tries=400, seed=1):
    """a sample point satisfying the conditions, or None"""
    with localcontext() as ctx:
        ctx.prec = 60
        ctx.Emax = 10 ** 6
        ctx.Emin = -10 ** 6
        for t in range(tries):
            p = Point((seed, 'p', t), t % 6)
            try:
                if all(p.sign(r) in s for r, s in assume) and all(p.cond(c) for c in conds):
                    return p
            except (Reject, ArithmeticError, ValueError, OverflowError):
                continue
    return None
