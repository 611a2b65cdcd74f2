"""Exact algebra used as the value domain of the analyser.

Scalars are kept in a normal form  num / den  where `num` is a Laurent
polynomial with rational coefficients over *atoms* and `den` is a product of
non-monomial polynomials.  Atoms are symbols, array elements, and applications
of functions (absolute value, gated choice, sums, opaque library functions...)
to normal forms; they are hash-consed up to equality of their arguments, which
is what makes this a (global) value numbering.  Nothing is ever evaluated at a
point: two values are equal when their difference normalises to zero.
"""
import heapq
import hashlib
import time
from fractions import Fraction
from math import gcd
from functools import lru_cache
from decimal import Decimal, localcontext

F0, F1 = Fraction(0), Fraction(1)


class AlgError(Exception):
    pass


# --------------------------------------------------------------------------
# Atoms
# --------------------------------------------------------------------------
class Atom:
    __slots__ = ('id', 'kind', 'args', 'pos', 'isint', 'special')

    def __repr__(self):
        return show_atom(self)


ATOMS = []
_INTERN = {}
_BYSIG = {}

SPECIAL_KINDS = ('polybase', 'prime', 'abs', 'pow')


def _argkey(a):
    if isinstance(a, Rat):
        return ('R', a.key())
    if isinstance(a, Cond):
        return ('C', a.key())
    if isinstance(a, tuple):
        return ('T',) + tuple(_argkey(x) for x in a)
    return ('V', a)


def _argeq(a, b):
    if isinstance(a, Rat) and isinstance(b, Rat):
        return a.eq(b)
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(_argeq(x, y) for x, y in zip(a, b))
    if isinstance(a, Cond) and isinstance(b, Cond):
        return a.key() == b.key()
    if type(a) is not type(b):
        return False
    return a == b


def _simple(a):
    """argument whose structural key is canonical"""
    if isinstance(a, Rat):
        return not a.den and all(
            not ATOMS[i].special and ATOMS[i].kind in ('sym',) for m in a.num for i, e in m)
    if isinstance(a, tuple):
        return all(_simple(x) for x in a)
    if isinstance(a, Cond):
        return False
    return True


LIMIT = [None]          # when to give up


class TimeUp(Exception):
    pass


def tick():
    if LIMIT[0] is not None and time.monotonic() > LIMIT[0]:
        raise TimeUp('no time left')


def atom(kind, *args, pos=False, isint=False):
    if LIMIT[0] is not None:
        tick()
    key = (kind,) + tuple(_argkey(a) for a in args)
    at = _INTERN.get(key)
    if at is not None:
        return at
    sig = (kind, len(args)) + tuple(type(a).__name__ if not isinstance(a, (str, int)) else a
                                    for a in args)
    if not all(_simple(a) for a in args):
        for other in _BYSIG.get(sig, ()):
            if all(_argeq(x, y) for x, y in zip(args, other.args)):
                _INTERN[key] = other
                return other
    at = Atom()
    at.id = len(ATOMS)
    at.kind = kind
    at.args = args
    at.pos = pos
    at.isint = isint
    at.special = kind in SPECIAL_KINDS
    ATOMS.append(at)
    _INTERN[key] = at
    _BYSIG.setdefault(sig, []).append(at)
    return at


_SHOWN = {}


def _clip(s):
    """long texts are shortened injectively (values are DAGs, their text is a tree)"""
    if len(s) <= 1500:
        return s
    return '%s..#%s' % (s[:600], hashlib.sha1(s.encode()).hexdigest()[:16])


def show_atom(a):
    s = _SHOWN.get(a)
    if s is None:
        s = _SHOWN[a] = _clip(_show_atom(a))
    return s


def _show_atom(a):
    k = a.kind
    if k == 'sym':
        return a.args[0]
    if k == 'elem':
        return '%s[%s]' % (a.args[0], ', '.join(show(x) for x in a.args[1]))
    if k == 'abs':
        return '|%s|' % show(a.args[0])
    if k == 'prime':
        return '%d' % a.args[0]
    if k == 'polybase':
        return '(%s)' % show(a.args[0])
    if k == 'pow':
        return '%s^(%s)' % (show(a.args[0]), show(a.args[1]))
    if k == 'ite':
        return '(%s if %s else %s)' % (show(a.args[1]), a.args[0], show(a.args[2]))
    return '%s(%s)' % (k, ', '.join(show(x) for x in a.args))


def show(x, limit=400):
    if isinstance(x, Rat):
        s = x.show()
    elif isinstance(x, tuple):
        s = '(' + ', '.join(show(y) for y in x) + ')'
    else:
        s = str(x)
    return s if len(s) <= limit else s[:limit] + '...'


# --------------------------------------------------------------------------
# Monomials: tuple of (atom id, exponent) sorted by id.  Exponents: Fraction/int
# --------------------------------------------------------------------------
def _mono_merge(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    out = []
    i = j = 0
    n1, n2 = len(m1), len(m2)
    while i < n1 and j < n2:
        a, e = m1[i]
        b, f = m2[j]
        if a == b:
            s = e + f
            if s != 0:
                out.append((a, s))
            i += 1
            j += 1
        elif a < b:
            out.append(m1[i])
            i += 1
        else:
            out.append(m2[j])
            j += 1
    out.extend(m1[i:])
    out.extend(m2[j:])
    return tuple(out)


def _mono_fix(m):
    """Normalise special atoms of a monomial.  Returns (mono, Rat or None)."""
    extra = None
    bad = False
    pows = None
    for a, e in m:
        at = ATOMS[a]
        if at.special:
            k = at.kind
            if k == 'polybase' or k == 'prime':
                if not (0 <= e < 1):
                    bad = True
            elif k == 'abs':
                if not (e == 1):
                    bad = True
            elif k == 'pow':
                if pows is None:
                    pows = []
                pows.append((a, e))
    if pows is not None:
        # one power per base, and no plain occurrence of a base next to it
        bases = {}
        for a, e in pows:
            bk = _argkey(ATOMS[a].args[0])
            bases.setdefault(bk, []).append((a, e))
            if e != 1:
                bad = True
        for bk, l in bases.items():
            if len(l) > 1:
                bad = True
            b = ATOMS[l[0][0]].args[0]
            ids = _base_ids(b)
            if any(x == ids for x, _ in m):
                bad = True
    if not bad:
        return m, None
    keep = []
    extra = ONE
    powacc = {}
    for a, e in m:
        at = ATOMS[a]
        k = at.kind
        if k == 'polybase' and not (0 <= e < 1):
            fl = e.numerator // e.denominator if isinstance(e, Fraction) else int(e)
            extra = extra * at.args[0].ipow(fl)
            r = e - fl
            if r != 0:
                keep.append((a, r))
        elif k == 'prime' and not (0 <= e < 1):
            fl = e.numerator // e.denominator if isinstance(e, Fraction) else int(e)
            extra = extra * Rat.const(Fraction(at.args[0]) ** fl)
            r = e - fl
            if r != 0:
                keep.append((a, r))
        elif k == 'abs' and e != 1:
            if isinstance(e, Fraction) and e.denominator != 1:
                keep.append((a, e))
                continue
            e = int(e)
            h, r = divmod(e, 2)
            if h:
                extra = extra * at.args[0].ipow(2 * h)
            if r:
                keep.append((a, 1))
        elif k == 'pow':
            b, ex = at.args
            bk = _base_ids(b)
            if bk in powacc:
                powacc[bk] = (b, powacc[bk][1] + ex * Rat.const(e))
            else:
                powacc[bk] = (b, ex * Rat.const(e))
        else:
            keep.append((a, e))
    if powacc:
        keep2 = []
        for a, e in keep:
            if a in powacc:
                b, ex = powacc[a]
                powacc[a] = (b, ex + Rat.const(e))
            else:
                keep2.append((a, e))
        keep = keep2
        for bk, (b, ex) in powacc.items():
            c = ex.as_const()
            if c is not None:
                extra = extra * power(b, c)
            else:
                extra = extra * Rat({((atom('pow', b, ex, pos=True).id, 1),): F1})
    return tuple(keep), extra


def _base_ids(b):
    # base of a symbolic power: a Rat made of a single atom
    (m, c), = b.num.items()
    (a, e), = m
    return a


# --------------------------------------------------------------------------
# Polynomials = dict mono -> Fraction
# --------------------------------------------------------------------------
def _has_special(m):
    for a, _ in m:
        if ATOMS[a].special:
            return True
    return False


def _poly_add(p, q):
    if len(p) < len(q):
        p, q = q, p
    r = dict(p)
    for m, c in q.items():
        s = r.get(m)
        if s is None:
            r[m] = c
        else:
            s = s + c
            if s:
                r[m] = s
            else:
                del r[m]
    return r


def _poly_scale(p, k):
    if not k:
        return {}
    return {m: c * k for m, c in p.items()}


MAXTERMS = 400000


def _poly_mul(p, q):
    """product; returns (poly, Rat or None): the Rat carries terms which left
    polynomial form when special atoms were normalised."""
    out = {}
    extra = None
    if len(p) * len(q) > MAXTERMS:
        raise AlgError('polynomial product too large')
    for m1, c1 in p.items():
        if DEADLINE[0] is not None and time.monotonic() > DEADLINE[0]:
            raise Undecided('the arithmetic took too long')
        s1 = _has_special(m1)
        for m2, c2 in q.items():
            m = _mono_merge(m1, m2)
            c = c1 * c2
            if m and (s1 or _has_special(m2)):
                m, ex = _mono_fix(m)
                if ex is not None:
                    t = ex * Rat({m: c})
                    extra = t if extra is None else extra + t
                    continue
            s = out.get(m)
            if s is None:
                out[m] = c
            else:
                s = s + c
                if s:
                    out[m] = s
                else:
                    del out[m]
    return out, extra


def _poly_key(p):
    return tuple(sorted(p.items()))


def _poly_divexact(p, d):
    """p / d if exact (Laurent), else None."""
    if not p:
        return {}
    if len(d) == 1:
        (m, c), = d.items()
        inv = tuple((a, -e) for a, e in m)
        return {_mono_merge(x, inv): k / c for x, k in p.items()}
    if len(p) * len(d) > 60000:
        return None
    # order monomials: dict exps -> compare as lex over sorted atom ids
    ids = sorted({a for m in d for a, _ in m} | {a for m in p for a, _ in m})

    def vec(m):
        dd = dict(m)
        return tuple(dd.get(i, 0) for i in ids)
    # every variable range must fit: degree bounds test
    dv = {vec(m): c for m, c in d.items()}
    pv = {vec(m): c for m, c in p.items()}
    n = len(ids)
    for k in range(n):
        dmin = min(v[k] for v in dv)
        dmax = max(v[k] for v in dv)
        if dmax == dmin:
            continue
        pmin = min(v[k] for v in pv)
        pmax = max(v[k] for v in pv)
        if pmax - pmin < dmax - dmin:
            return None
    pmins = tuple(min(v[k] for v in pv) for k in range(n))
    dmins = tuple(min(v[k] for v in dv) for k in range(n))
    if len(pv) > 12 and not _may_divide(pv, dv, pmins, dmins, n):
        return None
    lead = max(dv)
    lc = dv[lead]
    quo = {}
    rem = dict(pv)
    heap = [tuple(-x for x in v) for v in pv]
    heapq.heapify(heap)
    steps = 0
    lim = 4 * len(p) + 50
    while rem:
        steps += 1
        if steps > lim:
            return None
        if DEADLINE[0] is not None and not steps & 255 and time.monotonic() > DEADLINE[0]:
            raise Undecided('the arithmetic took too long')
        while True:
            top = tuple(-x for x in heapq.heappop(heap))
            if top in rem:
                break
        q = tuple(x - y for x, y in zip(top, lead))
        # quotient monomials must respect lower degree bound
        for k in range(n):
            if q[k] < pmins[k] - dmins[k]:
                return None
        c = rem[top] / lc
        quo[q] = c
        for v, dc in dv.items():
            t = tuple(x + y for x, y in zip(v, q))
            s = rem.get(t)
            if s is None:
                rem[t] = -c * dc
                heapq.heappush(heap, tuple(-x for x in t))
                continue
            s -= c * dc
            if s:
                rem[t] = s
            else:
                del rem[t]
    return {tuple((ids[k], v[k]) for k in range(n) if v[k] != 0): c for v, c in quo.items()}


_PRIME = (1 << 61) - 1


def _may_divide(pv, dv, pmins, dmins, n):
    """False only when the divisor certainly does not divide: the images in
    one variable, modulo a prime, leave a remainder"""
    sc = []
    for k in range(n):
        l = 1
        for v in list(pv) + list(dv):
            e = v[k]
            if not isinstance(e, int):
                l = l * e.denominator // gcd(l, e.denominator)
        sc.append(l)
    if any(l != 1 for l in sc):
        def whole(poly):
            return {tuple(int(e * l) for e, l in zip(v, sc)): c for v, c in poly.items()}
        pv, dv = whole(pv), whole(dv)
        pmins = tuple(int(e * l) for e, l in zip(pmins, sc))
        dmins = tuple(int(e * l) for e, l in zip(dmins, sc))
    for k in range(n):
        lo = dmins[k]
        hi = max(v[k] for v in dv)
        if hi == lo:
            continue
        at = [pow(7, 1000003 * (j + 1) + 17, _PRIME) for j in range(n)]
        tab = {}

        def image(poly, low):
            out = {}
            for v, c in poly.items():
                x = c.numerator % _PRIME
                if c.denominator != 1:
                    x = x * pow(c.denominator, -1, _PRIME) % _PRIME
                for j in range(n):
                    if j != k and v[j]:
                        key = (j, v[j])
                        y = tab.get(key)
                        if y is None:
                            y = tab[key] = pow(at[j], v[j], _PRIME)
                        x = x * y % _PRIME
                out[v[k] - low] = (out.get(v[k] - low, 0) + x) % _PRIME
            return out
        d = image(dv, lo)
        p = image(pv, pmins[k])
        deg = max((e for e, c in d.items() if c), default=None)
        if deg is None or deg == 0:
            continue
        inv = pow(d[deg], -1, _PRIME)
        for e in range(max(p), deg - 1, -1):
            c = p.get(e, 0)
            if not c:
                continue
            c = c * inv % _PRIME
            for f, x in d.items():
                t = e - deg + f
                p[t] = (p.get(t, 0) - c * x) % _PRIME
        if any(p.get(e, 0) for e in range(deg)):
            return False
        return True
    return True


def _poly_content(p):
    """(rational content>0, monomial content, primitive poly)."""
    from math import gcd
    items = list(p.items())
    g = 0
    l = 1
    for _, c in items:
        g = gcd(g, c.numerator)
        l = l * c.denominator // gcd(l, c.denominator)
    cont = Fraction(g, l)
    # monomial content = min exponent of each atom over all monomials
    common = dict(items[0][0])
    for m, _ in items[1:]:
        mm = dict(m)
        for a in list(common):
            e = mm.get(a, 0)
            if e < common[a]:
                common[a] = e
        for a, e in mm.items():
            if a not in common and e < 0:
                common[a] = e
        # atoms absent from m count as exponent 0
    if len(items) > 1:
        alln = {}
        for m, _ in items:
            for a, e in m:
                alln.setdefault(a, []).append(e)
        common = {}
        for a, es in alln.items():
            lo = min(es) if len(es) == len(items) else min(min(es), 0)
            if lo != 0:
                common[a] = lo
    mono = tuple(sorted((a, e) for a, e in common.items() if e != 0))
    inv = tuple((a, -e) for a, e in mono)
    prim = {_mono_merge(m, inv): c / cont for m, c in items}
    return cont, mono, prim


def _lead(p):
    return max(p)


# --------------------------------------------------------------------------
# Rational functions
# --------------------------------------------------------------------------
class Rat:
    __slots__ = ('num', 'den', '_key', '_hash')

    def __init__(self, num, den=()):
        self.num = num
        self.den = den
        self._key = None

    # -- construction
    @staticmethod
    def const(c):
        c = Fraction(c)
        if c == 0:
            return ZERO
        if c == 1:
            return ONE
        return Rat({(): c})

    @staticmethod
    def of(at, e=1):
        return Rat({((at.id, e),): F1})

    def key(self):
        if self._key is None:
            self._key = (_poly_key(self.num), self.den)
        return self._key

    def __hash__(self):
        return hash(self.key())

    def __eq__(self, other):
        return isinstance(other, Rat) and (self is other or self.key() == other.key())

    # -- queries
    def is_zero(self):
        return not self.num

    def eq(self, other):
        if self is other or self.key() == other.key():
            return True
        return (self - other).is_zero()

    def as_const(self):
        if self.den:
            return None
        if not self.num:
            return F0
        if len(self.num) == 1:
            (m, c), = self.num.items()
            if not m:
                return c
        return None

    def as_int(self):
        c = self.as_const()
        if c is not None and c.denominator == 1:
            return int(c)
        return None

    def single(self):
        """(coef, mono) when a single monomial without denominator"""
        if not self.den and len(self.num) == 1:
            (m, c), = self.num.items()
            return c, m
        return None

    def atoms(self):
        s = set()
        for m in self.num:
            for a, _ in m:
                s.add(a)
        for pk, _ in self.den:
            for m, _c in pk:
                for a, _e in m:
                    s.add(a)
        return s

    # -- arithmetic
    def __add__(self, o):
        if not self.num:
            return o
        if not o.num:
            return self
        if self.den == o.den:
            n = _poly_add(self.num, o.num)
            if not n:
                return ZERO
            if self.den:
                return _mk(n, self.den)
            return Rat(n)
        d1, d2 = dict(self.den), dict(o.den)
        allk = set(d1) | set(d2)
        den = {}
        f1 = []
        f2 = []
        for k in allk:
            e1, e2 = d1.get(k, 0), d2.get(k, 0)
            e = max(e1, e2)
            den[k] = e
            f1 += [k] * (e - e1)
            f2 += [k] * (e - e2)
        a = Rat(self.num)
        for k in f1:
            a = a * Rat(dict(k))
        b = Rat(o.num)
        for k in f2:
            b = b * Rat(dict(k))
        if a.den or b.den:
            # special atoms normalised into new denominators
            base = _mk({(): F1}, tuple(sorted(den.items())))
            return (a + b) * base
        n = _poly_add(a.num, b.num)
        if not n:
            return ZERO
        return _mk(n, tuple(sorted(den.items())))

    def __neg__(self):
        return Rat({m: -c for m, c in self.num.items()}, self.den)

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        if not self.num or not o.num:
            return ZERO
        if self is ONE:
            return o
        if o is ONE:
            return self
        n, extra = _poly_mul(self.num, o.num)
        if self.den or o.den:
            d = dict(self.den)
            for k, e in o.den:
                d[k] = d.get(k, 0) + e
            den = tuple(sorted(d.items()))
        else:
            den = ()
        r = ZERO if not n else (_mk(n, den) if den else Rat(n))
        if extra is not None:
            if den:
                extra = extra * Rat({(): F1}, den) if not extra.den else _mul_den(extra, den)
            r = r + extra
        return r

    def inv(self):
        if not self.num:
            raise ZeroDivisionError('division by zero value')
        num = {(): F1}
        r = ONE
        if len(self.num) == 1:
            (m, c), = self.num.items()
            inv = tuple((a, -e) for a, e in m)
            inv, ex = _mono_fix(inv)
            r = Rat({inv: 1 / c})
            if ex is not None:
                r = r * ex
        else:
            cont, mono, prim = _poly_content(self.num)
            lead = _lead(prim)
            sgn = 1 if prim[lead] > 0 else -1
            prim = prim if sgn > 0 else _poly_scale(prim, -1)
            inv = tuple((a, -e) for a, e in mono)
            inv, ex = _mono_fix(inv)
            r = Rat({inv: sgn / cont}, ((_poly_key(prim), 1),))
            if ex is not None:
                r = r * ex
        for k, e in self.den:
            p = Rat(dict(k))
            for _ in range(e):
                r = r * p
        return r

    def __truediv__(self, o):
        c = o.as_const()
        if c is not None:
            if c == 0:
                raise ZeroDivisionError('division by zero value')
            return self.scale(1 / c)
        return self * o.inv()

    def scale(self, k):
        if not k:
            return ZERO
        return Rat(_poly_scale(self.num, Fraction(k)), self.den)

    def ipow(self, n):
        if n == 0:
            return ONE
        if n < 0:
            return self.inv().ipow(-n)
        r = None
        b = self
        while n:
            if n & 1:
                r = b if r is None else r * b
            n >>= 1
            if n:
                b = b * b
        return r

    # -- text
    def show(self):
        if not self.num:
            return '0'
        parts = []
        for m, c in sorted(self.num.items()):
            fs = []
            for a, e in m:
                s = show_atom(ATOMS[a])
                fs.append(s if e == 1 else '%s^%s' % (s, e))
            if not fs:
                parts.append(str(c))
            elif c == 1:
                parts.append('*'.join(fs))
            elif c == -1:
                parts.append('-' + '*'.join(fs))
            else:
                parts.append(str(c) + '*' + '*'.join(fs))
        s = ' + '.join(parts).replace('+ -', '- ')
        if self.den:
            d = '*'.join('(%s)%s' % (Rat(dict(k)).show(), '' if e == 1 else '^%d' % e)
                         for k, e in self.den)
            s = '(%s)/[%s]' % (s, d)
        return s

    __str__ = show
    __repr__ = show


def _mul_den(r, den):
    d = dict(r.den)
    for k, e in den:
        d[k] = d.get(k, 0) + e
    return _mk(r.num, tuple(sorted(d.items())))


def _mk(num, den):
    """build num/den cancelling denominator factors which divide num"""
    if not num:
        return ZERO
    if DEADLINE[0] is not None and time.monotonic() > DEADLINE[0]:
        raise Undecided('the arithmetic took too long')
    d = []
    for k, e in den:
        p = dict(k)
        while e > 0:
            q = _poly_divexact(num, p)
            if q is None:
                break
            num = q
            e -= 1
        if e:
            d.append((k, e))
    return Rat(num, tuple(d))


ZERO = Rat({})
ONE = Rat({(): F1})
HALF = Rat.const(Fraction(1, 2))
TWO = Rat.const(2)


def C(c):
    return Rat.const(c)


def sym(name, pos=False, isint=False):
    return Rat.of(atom('sym', name, pos=pos, isint=isint))


def elem(name, idx, pos=False):
    return Rat.of(atom('elem', name, tuple(idx), pos=pos))


def fn(kind, *args, pos=False, isint=False):
    return Rat.of(atom(kind, *args, pos=pos, isint=isint))


# --------------------------------------------------------------------------
# Powers
# --------------------------------------------------------------------------
@lru_cache(None)
def _factorint(n):
    out = {}
    d = 2
    while d * d <= n:
        while n % d == 0:
            out[d] = out.get(d, 0) + 1
            n //= d
        d += 1
    if n > 1:
        out[n] = out.get(n, 0) + 1
    return out


def _constpow(c, e):
    """c>0 Fraction, e Fraction"""
    r = ONE
    for n, s in ((c.numerator, 1), (c.denominator, -1)):
        if n == 1:
            continue
        if n > 10 ** 12:
            r = r * Rat.of(atom('polybase', C(n), pos=True), e * s)
            continue
        for p, k in _factorint(n).items():
            ex = e * k * s
            fl = ex.numerator // ex.denominator
            r = r.scale(Fraction(p) ** fl)
            if ex - fl:
                r = r * Rat.of(atom('prime', p, pos=True), ex - fl)
    return r


def _poly_sqrt(p):
    """polynomial q with q*q == p, or None (no special atoms)"""
    if any(_has_special(m) for m in p):
        return None
    for m in p:
        for a, e in m:
            if Fraction(e).denominator != 1:
                return None
    lead = max(p, key=lambda m: _lexkey(m, p))
    c = p[lead]
    if c < 0:
        return None
    import math
    sn, sd = math.isqrt(c.numerator), math.isqrt(c.denominator)
    if sn * sn != c.numerator or sd * sd != c.denominator:
        return None
    if any(Fraction(e, 2).denominator != 1 for _, e in lead):
        return None
    half = tuple((a, Fraction(e, 2)) if Fraction(e, 2).denominator != 1 else (a, int(Fraction(e, 2)))
                 for a, e in lead)
    q = {half: Fraction(sn, sd)}
    lead_inv = tuple((a, -e) for a, e in half)
    for _ in range(60):
        sq, _x = _poly_mul(q, q)
        rem = _poly_add(p, _poly_scale(sq, -1))
        if not rem:
            return q
        top = max(rem, key=lambda m: _lexkey(m, p))
        t = _mono_merge(top, lead_inv)
        if any(e < 0 for _, e in t) or t in q:
            return None
        q[t] = rem[top] / (2 * q[half])
        if len(q) > 40:
            return None
    return None


def _lexkey(m, p):
    ids = sorted({a for mm in p for a, _ in mm})
    d = dict(m)
    return tuple(d.get(i, 0) for i in ids)


def power(b, e):
    """b ** e with e a python number/Fraction or Rat."""
    if isinstance(e, Rat):
        c = e.as_const()
        if c is None:
            return _sympow(b, e)
        e = c
    e = Fraction(e)
    if e.denominator == 1:
        return b.ipow(int(e))
    if b.is_zero():
        return ZERO
    r = _polypow(b.num, e)
    for k, n in b.den:
        r = r * _polypow(dict(k), e).ipow(n).inv()
    return r


def _polypow(p, e):
    cont, mono, prim = _poly_content(p)
    inner = {(): F1} if (len(prim) == 1 and () in prim) else prim
    if len(prim) == 1:
        (m0, c0), = prim.items()
        sgn = c0
    else:
        sgn = F1
    r = _constpow(cont, e)
    keep = []
    for a, k in mono:
        at = ATOMS[a]
        ex = k * e
        if at.pos:
            t = Rat({((a, ex if Fraction(ex).denominator != 1 else int(ex)),): F1}) if ex else ONE
            if at.special:
                mm, xx = _mono_fix(((a, ex),))
                t = Rat({mm: F1}) * (xx if xx is not None else ONE)
            r = r * t
        elif Fraction(k).denominator == 1 and int(k) % 2 == 0:
            r = r * power(rabs(Rat({((a, 1),): F1})), k * e)
        else:
            keep.append((a, k))
    rest = {_mono_merge(m, tuple(keep)): c for m, c in inner.items()}
    if len(inner) == 1 and sgn < 0:
        rest = _poly_scale(rest, -1)
    if rest == {(): F1}:
        return r
    if e.denominator == 2:
        q = _poly_sqrt(rest)
        if q is not None:
            return r * rabs(Rat(q)).ipow(e.numerator)
    base = atom('polybase', Rat(rest), pos=True)
    mm, xx = _mono_fix(((base.id, e),))
    t = Rat({mm: F1})
    if xx is not None:
        t = t * xx
    return r * t


def _sympow(b, e):
    """symbolic exponent, positive base"""
    if b.is_zero():
        return fn('pow0', e)
    c = b.as_const()
    if c is not None:
        if c == 1:
            return ONE
        return fn('cpow', b, e)
    if b.den:
        r = _sympow(Rat(b.num), e)
        for k, n in b.den:
            r = r * _sympow(Rat(dict(k)), e * C(-n))
        return r
    cont, mono, prim = _poly_content(b.num)
    r = ONE
    if cont != 1:
        r = r * fn('cpow', C(cont), e)
    keep = []
    for a, k in mono:
        at = ATOMS[a]
        if at.pos:
            if at.kind == 'pow':
                r = r * power(at.args[0], at.args[1] * e.scale(k))
            else:
                r = r * fn('pow', Rat({((a, 1),): F1}), e.scale(k), pos=True)
        else:
            keep.append((a, k))
    rest = {_mono_merge(m, tuple(keep)): cc for m, cc in prim.items()}
    if rest == {(): F1}:
        return r
    pb = Rat.of(atom('polybase', Rat(rest), pos=True), 1) if len(rest) > 1 else None
    if pb is None:
        return r * fn('spow', Rat(rest), e)
    base = atom('polybase', Rat(rest), pos=True)
    return r * fn('pow', Rat({((base.id, 1),): F1}), e, pos=True)


# --------------------------------------------------------------------------
# Facts about integer symbols (bounds), used to decide signs of affine forms
# --------------------------------------------------------------------------
class Facts:
    """bounds[symid] = (lo, hi): affine Rats or None (inclusive)."""

    def __init__(self):
        self.bounds = {}
        self.order = []

    def push(self, s, lo=None, hi=None):
        (m, c), = s.num.items()
        (a, e), = m
        self.bounds[a] = (lo, hi)
        if a in self.order:
            self.order.remove(a)
        self.order.append(a)

    def pop(self, s):
        (m, c), = s.num.items()
        (a, e), = m
        self.bounds.pop(a, None)
        if a in self.order:
            self.order.remove(a)


FACTS = Facts()
_known_signs = []   # stack of dict key->sign assumed during case splits


def affine(r):
    """{atomid: coef}, const  if r is affine in atoms with exponent one"""
    if r.den:
        return None
    co = {}
    k = F0
    for m, c in r.num.items():
        if not m:
            k = c
        elif len(m) == 1 and m[0][1] == 1:
            co[m[0][0]] = c
        else:
            return None
    return co, k


def _bound(r, which, depth=0):
    """constant lower (which=-1) / upper (+1) bound of an affine Rat or None"""
    if depth > 12:
        return None
    c = r.as_const()
    if c is not None:
        return c
    af = affine(r)
    if af is None:
        return None
    co, k = af
    # eliminate the most recently introduced symbol first
    cand = [a for a in reversed(FACTS.order) if a in co]
    others = [a for a in co if a not in FACTS.bounds]
    for a in others:
        at = ATOMS[a]
        if at.pos and ((co[a] > 0 and which < 0)):
            continue
        return None
    if not cand:
        # only positive atoms left: 0 is a strict lower bound
        if which < 0:
            return k
        return None
    a = cand[0]
    lo, hi = FACTS.bounds[a]
    use = (lo if co[a] > 0 else hi) if which < 0 else (hi if co[a] > 0 else lo)
    if use is None:
        return None
    rest = Rat({m: c for m, c in r.num.items() if not (len(m) == 1 and m[0][0] == a)})
    return _bound(rest + use.scale(co[a]), which, depth + 1)


def _numconst(i):
    at = ATOMS[i]
    if at.kind == 'prime' or (at.kind == 'sym' and at.args[0] == 'pi'):
        return True
    if at.kind in ('glx', 'glw'):
        return True
    if at.kind == 'polybase':
        return all(_numconst(j) for j in at.args[0].atoms())
    return False


PI100 = ('3.14159265358979323846264338327950288419716939937510'
         '5820974944592307816406286208998628034825342117067982')


def numeric(r):
    """value of a constant algebraic number (100 digits)"""
    with localcontext() as ctx:
        ctx.prec = 110

        def ev(p):
            t = Decimal(0)
            for m, c in p:
                x = Decimal(c.numerator) / Decimal(c.denominator)
                for a, e in m:
                    at = ATOMS[a]
                    if at.kind == 'prime':
                        b = Decimal(at.args[0])
                    elif at.kind == 'sym':
                        b = Decimal(PI100)
                    elif at.kind == 'glx' or at.kind == 'glw':
                        from .legendre import numeric_node
                        b = numeric_node(int(at.args[0]), int(at.args[1]))[0 if at.kind == 'glx' else 1]
                    else:
                        b = ev(at.args[0].num.items())
                    e = Fraction(e)
                    if e.denominator == 1:
                        x *= b ** int(e)
                    elif e.denominator == 2 and b >= 0:
                        x *= b.sqrt() ** int(e.numerator)
                    elif b > 0:
                        x *= (b.ln() * e.numerator / e.denominator).exp()
                    else:
                        raise AlgError('negative base')
                t += x
            return t
        try:
            v = ev(r.num.items())
            for k, e in r.den:
                v /= ev(k) ** e
        except (AlgError, ArithmeticError):
            return None
        return +v


def _split_const(r):
    """polynomial numerator grouped by its non-constant monomials"""
    groups = {}
    for m, c in r.num.items():
        key = tuple((a, e) for a, e in m if not _numconst(a))
        rest = tuple((a, e) for a, e in m if _numconst(a))
        groups.setdefault(key, {})[rest] = c
    return groups


def is_zero(r):
    """exact structural zero, or every coefficient (an algebraic number)
    vanishes to 75 digits"""
    if r.is_zero():
        return True
    if not any(_numconst(a) for m in r.num for a, e in m):
        return False
    for key, poly in _split_const(r).items():
        if len(poly) == 1:
            return False
        v = numeric(Rat(poly))
        if v is None or abs(v) > Decimal(10) ** -75:
            return False
    return True


def signs(r):
    """set of possible signs of r (subset of {-1,0,1})"""
    c = r.as_const()
    if c is not None:
        return frozenset([(c > 0) - (c < 0)])
    out = {-1, 0, 1}
    if all(_numconst(i) for i in r.atoms()):
        v = numeric(r)
        if v is not None and abs(v) > Decimal(10) ** -80:
            return frozenset([1 if v > 0 else -1])
    # all-positive atoms
    st = _posign(r)
    if st is not None:
        out &= {st}
    if len(out) > 1:
        lo = _bound(r, -1)
        if lo is not None:
            if lo > 0:
                out &= {1}
            elif lo == 0:
                out &= {0, 1}
        hi = _bound(r, 1)
        if hi is not None:
            if hi < 0:
                out &= {-1}
            elif hi == 0:
                out &= {-1, 0}
    if len(out) > 1 and _known_signs:
        canon, flip = canon_sign(r)
        k = canon.key()
        for d in _known_signs:
            s = d.get(k)
            if s is not None:
                out &= {x * flip for x in s}
    return frozenset(out)


def _posign(r):
    """+1/-1 when every monomial is positive/negative on positive atoms"""
    for k, e in r.den:
        if e % 2 and _posign(Rat(dict(k))) != 1:
            return None
    s = None
    for m, c in r.num.items():
        for a, e in m:
            at = ATOMS[a]
            if not at.pos:
                return None
        t = 1 if c > 0 else -1
        if s is None:
            s = t
        elif s != t:
            return None
    return s


def nonneg(r):
    return signs(r) <= {0, 1}


def positive(r):
    return signs(r) <= {1}


def decide_eq(a, b):
    """True / False / None for integer expressions a == b"""
    d = a - b
    if d.is_zero():
        return True
    s = signs(d)
    if 0 not in s:
        return False
    af = affine(d)
    if af is not None:
        # integrality: all symbol coefficients share a factor not dividing the constant
        co, k = af
        if co and all(ATOMS[x].isint for x in co):
            from math import gcd
            den = k.denominator
            for c in co.values():
                den = den * c.denominator // gcd(den, c.denominator)
            g = 0
            for c in co.values():
                g = gcd(g, int(c * den))
            if g and int(k * den) % g:
                return False
    return None


def div_int(r, k):
    """(quotient Rat, True) when the integer expression r is a multiple of k,
    (None, False) when it is not, (None, None) when unknown"""
    k = int(k)
    if k == 1:
        return r, True
    af = affine(r)
    if af is None:
        return None, None
    co, c = af
    if any(not ATOMS[a].isint for a in co):
        return None, None
    if all((v / k).denominator == 1 for v in co.values()):
        if (c / k).denominator == 1:
            return r.scale(Fraction(1, k)), True
        if c.denominator == 1:
            return None, False
    return None, None


# --------------------------------------------------------------------------
# abs / min / max
# --------------------------------------------------------------------------
def canon_sign(r):
    """(canonical r', flip) with sign(r) == flip*sign(r')."""
    num = r.num
    cont, mono, prim = _poly_content(num)
    keep = tuple((a, (e if Fraction(e).denominator != 1 else int(e) % 2)) for a, e in mono
                 if not ATOMS[a].pos)
    keep = tuple((a, e) for a, e in keep if e)
    p = {_mono_merge(m, keep): c for m, c in prim.items()}
    den = []
    for k, e in r.den:
        if e % 2 and _posign(Rat(dict(k))) != 1:
            den.append(k)
    q = Rat(p)
    for k in den:
        q = q * Rat(dict(k))
    if den:
        cont, mono, prim = _poly_content(q.num)
        q = Rat({_mono_merge(m, tuple((a, e) for a, e in mono if not ATOMS[a].pos)): c
                 for m, c in prim.items()})
    lead = max(q.num)
    if q.num[lead] < 0:
        return -q, -1
    return q, 1


def rabs(r):
    s = signs(r)
    if s <= {0, 1}:
        return r
    if s <= {-1, 0}:
        return -r
    # pull out positive content
    cont, mono, prim = _poly_content(r.num)
    out = C(cont)
    inner_mono = []
    for a, e in mono:
        at = ATOMS[a]
        if at.pos:
            out = out * Rat({((a, e),): F1})
        elif at.kind == 'abs':
            out = out * Rat({((a, e),): F1})
        else:
            ee = Fraction(e)
            if ee.denominator == 1 and int(ee) % 2 == 0:
                out = out * Rat({((a, e),): F1})
            else:
                base = Rat({((a, 1),): F1})
                out = out * Rat.of(atom('abs', base, pos=False), 1).ipow(int(ee)) \
                    if ee.denominator == 1 else out * fn('absx', base)
    den = []
    for k, e in r.den:
        p = Rat(dict(k))
        if e % 2 == 0 or _posign(p) == 1:
            out = out * p.ipow(e).inv()
        else:
            out = out * rabs(p).ipow(e).inv()
    if len(prim) == 1:
        return out
    p = Rat(prim)
    lead = max(p.num)
    if p.num[lead] < 0:
        p = -p
    return out * Rat.of(atom('abs', p))


def rmax(a, b):
    d = a - b
    s = signs(d)
    if s <= {0, 1}:
        return a
    if s <= {-1, 0}:
        return b
    x, y = red_of(a), red_of(b)
    if x is not None and y is not None and x.args[:3] == y.args[:3]:
        # two maxima over the same range
        return Rat.of(atom('red', 'max', x.args[1], x.args[2], rmax(x.args[3], y.args[3])))
    return (a + b + rabs(d)) * HALF


def red_of(r):
    """the maximum over a range that r is, or None"""
    if r.den or len(r.num) != 1:
        return None
    (m, c), = r.num.items()
    if c != 1 or len(m) != 1 or m[0][1] != 1:
        return None
    at = ATOMS[m[0][0]]
    return at if at.kind == 'red' and at.args[0] == 'max' else None


def rmin(a, b):
    d = a - b
    s = signs(d)
    if s <= {0, 1}:
        return b
    if s <= {-1, 0}:
        return a
    if red_of(-a) is not None and red_of(-b) is not None:
        return -rmax(-a, -b)
    return (a + b - rabs(d)) * HALF


# --------------------------------------------------------------------------
# Conditions.  A sign literal constrains the sign of a canonical value to a
# subset of {-1, 0, 1, 'n'}; 'n' stands for "is not a number", so that the
# negation of a comparison keeps the NaN case.
# --------------------------------------------------------------------------
NAN = 'n'
ALLS = frozenset([-1, 0, 1, NAN])
NUMS = frozenset([-1, 0, 1])
FINITE = set()        # atoms declared to be real numbers
_NONAN = {}
SAFE_KINDS = ('sin', 'cos', 'tanh', 'exp', 'abs', 'ite', 'red', 'int', 'floor', 'ceil', 'rint',
              'trunc', 'round', 'sign', 'rounded', 'arctan')


def finite(r):
    """declare the symbol r to be a real number (never NaN)"""
    for a in r.atoms():
        FINITE.add(a)
    return r


def nonan_atom(i):
    if i in FINITE:
        return True
    v = _NONAN.get(i)
    if v is None:
        at = ATOMS[i]
        if at.isint or at.pos or _numconst(i):
            v = True
        elif at.kind in SAFE_KINDS:
            v = all(nonan(a) if isinstance(a, Rat) else True for a in at.args)
        elif at.kind in ('polybase',):
            v = all(nonan(a) for a in at.args if isinstance(a, Rat))
        elif at.kind == 'pow':
            v = all(nonan(a) for a in at.args if isinstance(a, Rat)) and positive(at.args[0])
        else:
            v = False
        if v:
            _NONAN[i] = v
        else:
            return False
    return v


def nonan(r):
    return all(nonan_atom(i) for i in r.atoms())


def universe(r):
    return NUMS if nonan(r) else ALLS


class Cond:
    __slots__ = ('op', 'args', '_key')

    def __init__(self, op, args):
        self.op = op
        self.args = args
        self._key = None

    def key(self):
        if self._key is None:
            o = self.op
            if o == 'sign':
                self._key = ('s', self.args[0].key(), tuple(sorted(map(str, self.args[1]))))
            elif o in ('and', 'or'):
                self._key = (o,) + tuple(sorted((a.key() for a in self.args), key=repr))
            elif o == 'not':
                self._key = ('not', self.args[0].key())
            elif o == 'b':
                self._key = ('b', _argkey(self.args))
            else:
                self._key = (o,)
        return self._key

    def __hash__(self):
        return hash(self.key())

    def __eq__(self, o):
        return isinstance(o, Cond) and self.key() == o.key()

    def __repr__(self):
        t = _SHOWN.get(self)
        if t is None:
            t = _SHOWN[self] = _clip(self._text())
        return t

    def _text(self):
        o = self.op
        if o == 'sign':
            s = self.args[1]
            n = {frozenset([-1]): '<', frozenset([1]): '>', frozenset([0]): '==',
                 frozenset([-1, 0]): '<=', frozenset([0, 1]): '>=', frozenset([-1, 1]): '!=',
                 frozenset([0, 1, NAN]): 'not<', frozenset([-1, 0, NAN]): 'not>',
                 frozenset([-1, 1, NAN]): '!=', frozenset([1, NAN]): 'not<=',
                 frozenset([-1, NAN]): 'not>=', frozenset([NAN]): 'isnan',
                 frozenset([-1, 0, 1]): 'isnum'}.get(s, str(set(s)))
            return '%s %s 0' % (show(self.args[0], 120), n)
        if o == 'true' or o == 'false':
            return o
        if o == 'b':
            return ' '.join(show(a, 60) for a in self.args)
        if o == 'not':
            return 'not (%s)' % (self.args[0],)
        return '(' + (' %s ' % o).join(map(repr, self.args)) + ')'


TRUE = Cond('true', ())
FALSE = Cond('false', ())


def mkbool(b):
    return TRUE if b else FALSE


def _int_affine(r):
    """all atoms are integers, degree one, integer coefficients"""
    if r.den:
        return False
    for m, c in r.num.items():
        if c.denominator != 1:
            return False
        if m and (len(m) != 1 or m[0][1] != 1 or not ATOMS[m[0][0]].isint):
            return False
    return True


def _int_reduce(r):
    """g*L + k with g > 1 not dividing k: r < 0 iff L - t <= 0, r > 0 iff
    L - t > 0; returns L - t"""
    if not _int_affine(r):
        return None
    g = 0
    for m, c in r.num.items():
        if m:
            g = gcd(g, int(c))
    if g <= 1:
        return None
    k = int(r.num.get((), 0))
    if k % g == 0:
        return None
    t = (-k) // g
    d = {m: c / g for m, c in r.num.items() if m}
    if t:
        d[()] = Fraction(-t)
    return Rat(d)


def csign(r, allowed):
    """condition: sign(r) in allowed (subset of {-1,0,1})"""
    allowed = frozenset(allowed)
    if NANVAL in r.atoms():
        return mkbool(NAN in allowed)
    s = signs(r)
    if not (s & allowed) and NAN not in allowed:
        return FALSE
    if s <= allowed:
        return TRUE
    if r.as_const() is not None:
        return FALSE
    t = _int_reduce(r)
    if t is not None:
        al = set()
        if -1 in allowed:
            al |= {-1, 0}
        if 1 in allowed:
            al |= {1}
        return csign(t, al)
    q, flip = canon_sign(r)
    if flip < 0:
        allowed = frozenset((-x if x in (-1, 1) else x) for x in allowed)
    if q.as_const() is not None:
        c = q.as_const()
        return mkbool((c > 0) - (c < 0) in allowed)
    if NAN in allowed and nonan(q):
        allowed = allowed - {NAN}
        if not (s & allowed):
            return FALSE
    return Cond('sign', (q, allowed))


def _cmp(a, b, allowed):
    d = a - b
    if d.is_zero() and not nonan(a):
        return cnot(cisnan(a)) if 0 in allowed else FALSE
    if (NANVAL in a.atoms() or NANVAL in b.atoms()):
        return FALSE
    return csign(d, allowed)


def clt(a, b):
    return _cmp(a, b, (-1,))


def cle(a, b):
    return _cmp(a, b, (-1, 0))


def cgt(a, b):
    return _cmp(a, b, (1,))


def cge(a, b):
    return _cmp(a, b, (0, 1))


def ceq(a, b):
    if (a - b).is_zero() or NANVAL in a.atoms() or NANVAL in b.atoms():
        return _cmp(a, b, (0,))
    d = decide_eq(a, b)
    if d is False:
        return FALSE
    return csign(a - b, (0,))


NANVAL = next(iter(sym('nan').atoms()))      # the value not-a-number


def cisnan(a):
    if NANVAL in a.atoms():
        return TRUE
    if a.as_const() is not None:
        return FALSE
    q, flip = canon_sign(a)
    if nonan(q):
        return FALSE
    return Cond('sign', (q, frozenset([NAN])))


def cbool(*args):
    return Cond('b', args)


def cnot(c):
    o = c.op
    if o == 'true':
        return FALSE
    if o == 'false':
        return TRUE
    if o == 'not':
        return c.args[0]
    if o == 'sign':
        left = universe(c.args[0]) - c.args[1]
        return Cond('sign', (c.args[0], left)) if left else FALSE
    if o == 'and':
        return cor(*[cnot(a) for a in c.args])
    if o == 'or':
        return cand(*[cnot(a) for a in c.args])
    return Cond('not', (c,))


def _nary(op, cs):
    absorb, neutral = (FALSE, TRUE) if op == 'and' else (TRUE, FALSE)
    flat = []
    for c in cs:
        if c.op == op:
            flat.extend(c.args)
        else:
            flat.append(c)
    signs_ = {}
    rest = {}
    for c in flat:
        if c.op == absorb.op:
            return absorb
        if c.op == neutral.op:
            continue
        if c.op == 'sign':
            k = c.args[0].key()
            if k in signs_:
                s = signs_[k][1]
                s = (s & c.args[1]) if op == 'and' else (s | c.args[1])
                signs_[k] = (c.args[0], s)
            else:
                signs_[k] = c.args
        else:
            rest[c.key()] = c
    for k, c in rest.items():
        n = cnot(c) if c.op in ('b', 'not') else None
        if n is not None and n.key() in rest:
            return absorb
    out = []
    for k, (q, s) in signs_.items():
        if not s:
            if op == 'and':
                return FALSE
            continue
        if s == ALLS or len(s) == 3 and s == universe(q):
            if op == 'or':
                return TRUE
            continue
        out.append(Cond('sign', (q, s)))
    # absorption: a & (a | b) == a ;  a | (a & b) == a
    dual = 'or' if op == 'and' else 'and'
    base = {c.key() for c in out} | {k for k, c in rest.items() if c.op != dual}
    for k, c in rest.items():
        if c.op == dual:
            if any(a.key() in base for a in c.args):
                continue
            # a & (not a | b) == a & b
            red = [a for a in c.args if cnot(a).key() not in base]
            if len(red) != len(c.args):
                c2 = cor(*red) if dual == 'or' else cand(*red)
                if c2.op == absorb.op:
                    return absorb
                if c2.op == neutral.op:
                    continue
                if c2.op == op:
                    return _nary(op, out + [x for kk, x in rest.items() if kk != k] + list(c2.args))
                out.append(c2)
                continue
        out.append(c)
    if not out:
        return neutral
    if len(out) == 1:
        return out[0]
    return Cond(op, tuple(sorted(out, key=lambda c: repr(c.key()))))


def cand(*cs):
    return _nary('and', cs)


def cor(*cs):
    return _nary('or', cs)


def ite(c, a, b):
    """gated value"""
    if c.op == 'true':
        return a
    if c.op == 'false':
        return b
    if a.eq(b):
        return a
    if c.op == 'not':
        c, a, b = c.args[0], b, a
    # canonical polarity for sign literals: keep the literal whose set holds
    # the smaller sign first
    if c.op == 'sign' and NAN in c.args[1]:
        c, a, b = cnot(c), b, a
    a2 = _under(a, c)
    b2 = _under(b, cnot(c))
    if a2.eq(b2):
        return a2
    return fn('ite', c, a2, b2, pos=False)


def _under(r, c):
    """value r in the branch where c holds (drops nested gates on c)"""
    ids = [i for i in r.atoms() if ATOMS[i].kind == 'ite']
    if not ids:
        return r
    k = c.key()
    nk = cnot(c).key()
    rep = {}
    for i in ids:
        at = ATOMS[i]
        kk = at.args[0].key()
        if kk == k:
            rep[i] = at.args[1]
        elif kk == nk:
            rep[i] = at.args[2]
        elif c.op == 'sign' and at.args[0].op == 'sign' and at.args[0].args[0] == c.args[0]:
            if c.args[1] <= at.args[0].args[1]:
                rep[i] = at.args[1]
            elif not (c.args[1] & at.args[0].args[1]):
                rep[i] = at.args[2]
    if not rep:
        return r
    return replace_atoms(r, lambda i: rep.get(i))


# --------------------------------------------------------------------------
# Substitution
# --------------------------------------------------------------------------
def replace_atoms(r, f):
    """replace top-level atoms: f(atomid) -> Rat or None"""
    hit = {}
    for i in r.atoms():
        v = f(i)
        if v is not None:
            hit[i] = v
    if not hit:
        return r

    def poly(items):
        acc = ZERO
        plain = {}
        for m, c in items:
            if any(a in hit for a, _ in m):
                t = Rat({tuple((a, e) for a, e in m if a not in hit): c})
                for a, e in m:
                    if a in hit:
                        if e < 0 and not hit[a].num:
                            t = t * fn('divzero', ONE)
                        else:
                            t = t * power(hit[a], e)
                acc = acc + t
            else:
                plain[m] = c
        return acc + Rat(plain) if plain else acc
    out = poly(r.num.items())
    for k, e in r.den:
        d = poly(k)
        if not d.num:
            return fn('divzero', out)
        out = out / d.ipow(e)
    return out


class Rewriter:
    """deep rewriting of values: leaf(atom) may return a Rat for an atom, and
    cond(c) a replacement for a condition; everything else is rebuilt."""

    def __init__(self, leaf=None, sign=None):
        self.leaf = leaf
        self.sign = sign        # sign(Rat canonical) -> set of possible signs or None
        self.memo = {}
        self.amemo = {}
        self.cmemo = {}

    def rat(self, r):
        k = r.key()
        v = self.memo.get(k)
        if v is None:
            v = replace_atoms(r, self._atom)
            self.memo[k] = v
        return v

    def _atom(self, i):
        if i in self.amemo:
            return self.amemo[i]
        v = self.atom_(ATOMS[i])
        if v is not None and v.single() is not None:
            c, m = v.single()
            if c == 1 and m == ((i, 1),):
                v = None
        self.amemo[i] = v
        return v

    def any(self, x):
        if isinstance(x, Rat):
            return self.rat(x)
        if isinstance(x, Cond):
            return self.cond(x)
        if isinstance(x, tuple):
            return tuple(self.any(y) for y in x)
        return x

    def atom_(self, at):
        if self.leaf is not None:
            v = self.leaf(at)
            if v is not None:
                return v
        if at.kind in ('sym', 'prime'):
            return None
        if at.kind == 'ite':
            c = self.cond(at.args[0])
            if c.op == 'true':
                return self.rat(at.args[1])
            if c.op == 'false':
                return self.rat(at.args[2])
            return ite(c, self.rat(at.args[1]), self.rat(at.args[2]))
        new = tuple(self.any(a) for a in at.args)
        if at.kind == 'abs':
            if self.sign is not None and new[0].as_const() is None:
                q, flip = canon_sign(new[0])
                s = self.sign(q)
                if s is not None:
                    s = {x * flip for x in s}
                    if s <= {0, 1}:
                        return new[0]
                    if s <= {-1, 0}:
                        return -new[0]
            return rabs(new[0])
        if all(_same(x, y) for x, y in zip(new, at.args)):
            return None
        return rebuild(at.kind, new, at)

    def cond(self, c):
        k = c.key()
        v = self.cmemo.get(k)
        if v is None:
            v = self._cond(c)
            self.cmemo[k] = v
        return v

    def _cond(self, c):
        o = c.op
        if o == 'sign':
            q = self.rat(c.args[0])
            S = c.args[1]
            if self.sign is not None and q.as_const() is None:
                qq, flip = canon_sign(q)
                s = self.sign(qq)
                if s is not None:
                    s = {(x * flip if x in (-1, 1) else x) for x in s}
                    if s <= S:
                        return TRUE
                    if not (s & S):
                        return FALSE
            if q is c.args[0]:
                return c
            return csign(q, S)
        if o == 'and':
            return cand(*[self.cond(a) for a in c.args])
        if o == 'or':
            return cor(*[self.cond(a) for a in c.args])
        if o == 'not':
            return cnot(self.cond(c.args[0]))
        if o == 'b':
            if self.leaf is not None:
                v = self.leaf(c)
                if v is not None:
                    return v
            new = tuple(self.any(a) for a in c.args)
            return Cond('b', new)
        return c


def _same(x, y):
    if isinstance(x, (Rat, Cond)) and isinstance(y, (Rat, Cond)):
        return x is y or (type(x) is type(y) and x.key() == y.key())
    if isinstance(x, tuple) and isinstance(y, tuple):
        return len(x) == len(y) and all(_same(a, b) for a, b in zip(x, y))
    return x is y or x == y


REBUILD = {}


def rebuild(kind, args, at):
    if kind == 'polybase':
        return args[0]
    if kind == 'pow':
        return power(args[0], args[1])
    if kind == 'abs':
        return rabs(args[0])
    if kind in REBUILD:
        return REBUILD[kind](args, at)
    return Rat.of(atom(kind, *args, pos=at.pos, isint=at.isint))


def subst(x, mapping):
    """mapping: {Rat single symbol/elem: Rat}"""
    ids = {}
    for k, v in mapping.items():
        (m, c), = k.num.items()
        (a, e), = m
        ids[a] = v

    def leaf(at):
        if isinstance(at, Atom):
            return ids.get(at.id)
        return None
    return Rewriter(leaf).any(x)


def deep_atoms(x, seen=None):
    """every atom reachable in a value"""
    if seen is None:
        seen = {}

    def go(y):
        if isinstance(y, Rat):
            for i in y.atoms():
                if i not in seen:
                    seen[i] = ATOMS[i]
                    for a in ATOMS[i].args:
                        go(a)
        elif isinstance(y, Cond):
            for a in y.args:
                go(a)
        elif isinstance(y, (tuple, list)):
            for a in y:
                go(a)
    go(x)
    return seen


# --------------------------------------------------------------------------
# Case analysis on signs: the decision procedure for equality of gated values
# --------------------------------------------------------------------------
class Undecided(Exception):
    pass


def sign_literals(x):
    """canonical values whose sign decides a gate / absolute value, outermost
    gates first"""
    out = {}

    def goc(c):
        if c.op == 'sign':
            go(c.args[0])
            out.setdefault(c.args[0].key(), c.args[0])
        else:
            for a in c.args:
                if isinstance(a, Cond):
                    goc(a)
                elif isinstance(a, (Rat, tuple)):
                    go(a)
    seen = set()

    def go(y):
        if isinstance(y, Cond):
            goc(y)
        elif isinstance(y, tuple):
            for a in y:
                go(a)
        elif isinstance(y, Rat):
            for i in y.atoms():
                if i in seen:
                    continue
                seen.add(i)
                at = ATOMS[i]
                if at.kind == 'abs':
                    go(at.args[0])
                    q, f = canon_sign(at.args[0])
                    out.setdefault(q.key(), q)
                elif at.kind == 'ite':
                    goc(at.args[0])
                    go(at.args[1])
                    go(at.args[2])
                else:
                    for a in at.args:
                        go(a)
    go(x)
    return list(out.values())


def bool_literals(x):
    out = {}
    seen = set()

    def go(y):
        if isinstance(y, Cond):
            if y.op == 'b':
                out.setdefault(y.key(), y)
            for a in y.args:
                go(a)
        elif isinstance(y, tuple):
            for a in y:
                go(a)
        elif isinstance(y, Rat):
            for i in y.atoms():
                if i not in seen:
                    seen.add(i)
                    for a in ATOMS[i].args:
                        go(a)
    go(x)
    return list(out.values())


def feasible(assign):
    """cheap exact feasibility of a list of (Rat, sign) constraints: linear
    arithmetic over monomials by Fourier-Motzkin, no NaN"""
    cons = []   # (coefs dict, const, kind) meaning coefs.x + const  (>0 | ==0)
    for r, s in assign:
        if s == NAN:
            continue
        if r.den:
            continue
        if isinstance(s, frozenset):
            t = s - {NAN}
            if len(t) == 1:
                s = next(iter(t))
            elif t == {0, 1}:
                s = 'ge'
            elif t == {-1, 0}:
                s = 'le'
            else:
                continue
        co = {}
        k = F0
        for m, c in r.num.items():
            if not m:
                k = c
            else:
                co[m] = c
        if co and s != 0 and _int_affine(r):
            sg = 1 if s in (1, 'ge') else -1
            ci = {m: int(c) * sg for m, c in co.items()}
            ki = int(k) * sg - (1 if s in (1, -1) else 0)
            g = 0
            for c in ci.values():
                g = gcd(g, c)
            cons.append(({m: Fraction(c // g) for m, c in ci.items()}, Fraction(ki // g), '>='))
        elif s == 0:
            cons.append((co, k, '='))
        elif s == 1:
            cons.append((co, k, '>'))
        elif s == 'ge':
            cons.append((co, k, '>='))
        elif s == 'le':
            cons.append(({m: -c for m, c in co.items()}, -k, '>='))
        else:
            cons.append(({m: -c for m, c in co.items()}, -k, '>'))
    # bounds of integer symbols
    todo = [m[0][0] for co, _, _ in cons for m in co if len(m) == 1 and m[0][1] == 1]
    seen = set()
    while todo:
        a = todo.pop()
        if a in seen or a not in FACTS.bounds:
            continue
        seen.add(a)
        for bnd, sg in zip(FACTS.bounds[a], (1, -1)):
            if bnd is None:
                continue
            af = affine(bnd)
            if af is None:
                continue
            co = {((a, 1),): Fraction(sg)}
            for x, c in af[0].items():
                co[((x, 1),)] = co.get(((x, 1),), F0) - sg * c
                todo.append(x)
            cons.append((co, -sg * Fraction(af[1]), '>='))
    # positive monomials
    ms = set()
    for co, _, _ in cons:
        ms |= set(co)
    known = {}
    for r, s in assign:
        if s in (-1, 1) and not r.den and len(r.num) == 1:
            (m, c), = r.num.items()
            if len(m) == 1 and m[0][1] == 1:
                known[m[0][0]] = s if c > 0 else -s
    for m in ms:
        if all(ATOMS[a].pos or (ATOMS[a].kind == 'abs') or Fraction(e) % 2 == 0 for a, e in m):
            if all(ATOMS[a].pos for a, e in m):
                cons.append(({m: F1}, F0, '>'))
            else:
                cons.append(({m: F1}, F0, '>='))
        elif known and len(m) > 1 and all(a in known or ATOMS[a].pos for a, e in m) \
                and all(Fraction(e).denominator == 1 for a, e in m):
            sg = 1
            for a, e in m:
                if known.get(a, 1) < 0 and e % 2:
                    sg = -sg
            cons.append(({m: Fraction(sg)}, F0, '>'))
    # eliminate equalities
    for _ in range(len(cons)):
        e = next((c for c in cons if c[2] == '=' and c[0]), None)
        if e is None:
            break
        cons.remove(e)
        v = next(iter(e[0]))
        cv = e[0][v]
        new = []
        for co, k, t in cons:
            if v in co:
                f = co[v] / cv
                n = dict(co)
                for m, c in e[0].items():
                    n[m] = n.get(m, F0) - f * c
                    if not n[m]:
                        del n[m]
                new.append((n, k - f * e[1], t))
            else:
                new.append((co, k, t))
        cons = new
    for co, k, t in cons:
        if not co:
            if t == '=' and k != 0:
                return False
    cons = [c for c in cons if c[2] != '=']
    while True:
        allv = {}
        for co, k, t in cons:
            if not co:
                if t == '>' and k <= 0:
                    return False
                if t == '>=' and k < 0:
                    return False
            for m in co:
                allv[m] = allv.get(m, 0) + 1
        cons = [c for c in cons if c[0]]
        if not allv:
            return True
        v = min(allv, key=lambda m: sum(1 for c in cons if c[0].get(m, 0) > 0)
                * sum(1 for c in cons if c[0].get(m, 0) < 0))
        pos = [c for c in cons if c[0].get(v, 0) > 0]
        neg = [c for c in cons if c[0].get(v, 0) < 0]
        rest = [c for c in cons if v not in c[0]]
        if len(pos) * len(neg) > 3000:
            return True
        for p in pos:
            for n in neg:
                a, b = p[0][v], -n[0][v]
                co = {}
                for m, c in p[0].items():
                    co[m] = co.get(m, F0) + c * b
                for m, c in n[0].items():
                    co[m] = co.get(m, F0) + c * a
                co = {m: c for m, c in co.items() if c}
                co.pop(v, None)
                t = '>' if '>' in (p[2], n[2]) and not (p[2] == '>=' and n[2] == '>=') else '>='
                rest.append((co, p[1] * b + n[1] * a, t))
        cons = rest


def satisfiable(conds, limit=200):
    """False when the conjunction is refuted by linear arithmetic over its sign
    literals (case split over its disjunctions); True = not refuted"""
    lits, clauses = [], []
    for c in conds:
        for x in (c.args if c.op == 'and' else (c,)):
            if x.op == 'false':
                return False
            if x.op == 'sign':
                lits.append(x.args)
            elif x.op == 'or':
                clauses.append(x.args)
    if len(lits) > 40:
        return True
    count = [0]

    def lin(ls):
        return [(q, s) for q, s in ls if NAN not in s or nonan(q)]

    def rec(ls, cl):
        count[0] += 1
        if count[0] > limit:
            return True
        if not feasible(lin(ls)):
            return False
        if not cl:
            return True
        for x in cl[0]:
            parts_ = x.args if x.op == 'and' else (x,)
            new = [p.args for p in parts_ if p.op == 'sign']
            if rec(ls + new, [p.args for p in parts_ if p.op == 'or'] + cl[1:]):
                return True
        return False
    if not lits and len(clauses) < 2:
        return True
    return rec(lits, clauses)


def cases(values, assume=(), nan=False, limit=4096, extra=None):
    """Enumerate the sign cases deciding every gate in `values` (a tuple of
    Rat/Cond).  Yields (assignment list, resolved tuple).  `assume` is a list
    of (Rat, set of signs)."""
    count = [0]
    base = {}
    for r, s in assume:
        q, f = canon_sign(r)
        s = frozenset((x * f if x in (-1, 1) else x) for x in s)
        base[q.key()] = (q, base[q.key()][1] & s if q.key() in base else s)

    def rec(vals, asg, bools, base):
        if DEADLINE[0] is not None and time.monotonic() > DEADLINE[0]:
            raise Undecided('case analysis took too long')
        lits = sign_literals(vals)
        lits = [q for q in lits if q.as_const() is None]
        pick = None
        for q in lits:
            if q.key() not in asg:
                pick = q
                break
        if pick is None:
            bl = [b for b in bool_literals(vals) if b.key() not in bools]
            if not bl:
                count[0] += 1
                if count[0] > limit:
                    raise Undecided('too many sign cases')
                yield ([(q, s) for q, s in asg.values()] + [(b, v) for b, v in bools.values()]), vals
                return
            b = bl[0]
            for v in (True, False):
                nb = dict(bools)
                nb[b.key()] = (b, v)

                def leaf(x, k=b.key(), v=v):
                    if isinstance(x, Cond) and x.key() == k:
                        return mkbool(v)
                    return None
                yield from rec(Rewriter(leaf).any(vals), asg, nb, base)
            return
        poss = signs(pick)
        if nan:
            poss = poss | {NAN}
        b = base.get(pick.key())
        if b is not None:
            poss = poss & b[1]
        for s in sorted(poss, key=str):
            a2 = dict(asg)
            a2[pick.key()] = (pick, s)
            lst = [(q, x) for q, x in a2.values()]
            for q, ss in base.values():
                if q.key() not in a2 and len(ss) == 1:
                    lst.append((q, next(iter(ss))))
            if not feasible(lst):
                continue
            if extra is not None and not extra(lst):
                continue
            rw = Rewriter(None, lambda q, a=a2: {a[q.key()][1]} if q.key() in a else None)
            new, nbase = rw.any(vals), base
            v = _int_solve(pick) if s == 0 else None
            if v is not None:
                r = _eliminate(v, a2)
                if r is None:
                    continue
                a2 = r
                new = Rewriter(None, lambda q, r=r: {r[q.key()][1]} if q.key() in r else None) \
                    .any(subst(new, v))
                nbase = dict(base)
                for q, ss in base.values():
                    q2 = subst(q, v)
                    if q2.as_const() is None and not q2.eq(q):
                        q2, f = canon_sign(q2)
                        t = frozenset((x * f if x in (-1, 1) else x) for x in ss)
                        nbase[q2.key()] = (q2, nbase[q2.key()][1] & t if q2.key() in nbase else t)
            yield from rec(new, a2, bools, nbase)
    yield from rec(tuple(values), {}, {}, base)


def _int_solve(q):
    """{symbol: value} from the integer equation q = 0 when a symbol has unit coefficient"""
    if not _int_affine(q):
        return None
    best = None
    for m, c in q.num.items():
        if not m or abs(c) != 1 or ATOMS[m[0][0]].kind != 'sym':
            continue
        b = FACTS.bounds.get(m[0][0], (None, None))
        rank = (sum(1 for x in b if x is not None), m[0][0])
        if best is None or rank > best[0]:
            best = (rank, m, c)
    if best is None:
        return None
    _, m, c = best
    rest = Rat({mm: cc for mm, cc in q.num.items() if mm != m})
    return {Rat({m: F1}): rest.scale(-1 / c)}


def _eliminate(v, asg):
    """sign assignments together with their images under a substitution; None on
    a contradiction"""
    out = dict(asg)
    for q, s in asg.values():
        try:
            q2 = subst(q, v)
        except (AlgError, ZeroDivisionError):
            continue
        c = q2.as_const()
        if c is not None:
            if s != NAN and (c > 0) - (c < 0) != s:
                return None
            continue
        if q2.eq(q):
            continue
        q2, f = canon_sign(q2)
        s2 = s * f if s in (-1, 1) else s
        if q2.key() in out and out[q2.key()][1] != s2:
            return None
        out[q2.key()] = (q2, s2)
    return out




DEADLINE = [None]


def equal(a, b, assume=(), limit=4096, nan=False):
    """Decide a == b for gated values.  Returns (True, None) or
    (False, description of the case in which they differ)."""
    if a.eq(b):
        return True, None
    for asg, (x, y) in cases((a, b), assume, nan=nan, limit=limit):
        # zero-sign facts allow substitution of the value by zero
        if not x.eq(y):
            d = x - y
            if _zero_under(d, asg):
                continue
            return False, (asg, x, y)
    return True, None


def _zero_under(d, asg):
    """d == 0 given sign-zero facts (linear elimination of one atom)"""
    for q, s in asg:
        if isinstance(q, Rat) and s == 0 and not q.den:
            # pick an atom occurring linearly in exactly one monomial
            for m, c in sorted(q.num.items(), reverse=True):
                if len(m) == 1 and m[0][1] == 1:
                    a = m[0][0]
                    if any(x == a for mm in q.num if mm != m for x, _ in mm):
                        continue
                    rest = Rat({mm: cc for mm, cc in q.num.items() if mm != m})
                    val = rest.scale(-1 / c)
                    if a in val.atoms():
                        continue
                    try:
                        d2 = subst(d, {Rat({((a, 1),): F1}): val})
                    except ZeroDivisionError:
                        return True
                    if d2.is_zero():
                        return True
                    rest_asg = [(subst(qq, {Rat({((a, 1),): F1}): val}), ss) for qq, ss in asg
                                if isinstance(qq, Rat) and qq is not q]
                    return _zero_under(d2, [x for x in rest_asg if x[0].as_const() is None])
    return d.is_zero()


def show_case(asg):
    out = []
    for q, s in asg:
        if isinstance(q, Rat):
            out.append('%s %s 0' % (show(q, 100), {-1: '<', 0: '=', 1: '>', NAN: 'is nan'}[s]))
        else:
            out.append('%s is %s' % (q, s))
    return '; '.join(out)


# --------------------------------------------------------------------------
# Propositional comparison: branch conditions as opaque variables
# --------------------------------------------------------------------------
class _Branch(Exception):
    pass


def _whole_atom(r):
    s = r.single() if isinstance(r, Rat) else None
    if s is None or s[0] != 1 or len(s[1]) != 1 or s[1][0][1] != 1:
        return None
    return ATOMS[s[1][0][0]]


def skeleton_equal(a, b, limit=20000):
    """True when two decision trees choose equal leaves whatever the signs of the
    expressions they test are; None when that does not settle it"""
    count = [0]
    full = frozenset((-1, 0, 1, NAN))

    def cond(c, asg):
        o = c.op
        if o == 'true':
            return True
        if o == 'false':
            return False
        if o == 'not':
            return not cond(c.args[0], asg)
        if o in ('and', 'or'):
            stop = o == 'or'
            und = None
            for x in c.args:
                try:
                    if cond(x, asg) == stop:
                        return stop
                except _Branch as e:
                    und = und or e
            if und is not None:
                raise und
            return not stop
        if o == 'sign':
            k = c.args[0].key()
            s = asg.get(k, full)
            if s <= c.args[1]:
                return True
            if not (s & c.args[1]):
                return False
            raise _Branch(k, frozenset(c.args[1]))
        k = c.key()
        s = asg.get(k)
        if s is None:
            raise _Branch(k, None)
        return s

    def leaf(x, asg):
        while True:
            if isinstance(x, Cond):
                return cond(x, asg)
            at = _whole_atom(x)
            if at is None or at.kind != 'ite':
                return x
            x = at.args[1] if cond(at.args[0], asg) else at.args[2]

    def rec(asg):
        count[0] += 1
        if count[0] > limit:
            return False
        try:
            x, y = leaf(a, asg), leaf(b, asg)
        except _Branch as e:
            k, s = e.args
            if s is None:
                return all(rec({**asg, k: v}) for v in (True, False))
            old = asg.get(k, full)
            return rec({**asg, k: old & s}) and rec({**asg, k: old - s})
        if isinstance(x, bool) or isinstance(y, bool):
            return x is y
        return x is y or x.eq(y)
    return True if rec({}) else None
