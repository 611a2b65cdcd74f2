"""Regular expressions on abstract strings.

The pattern is matched against several concrete spellings of the unknown parts; where all of them
agree on how the match divides the string, that division holds for the abstract one."""
import re
from .alg import *
from .arr import Unsupported
from .strs import AStr, Tok, Fmt, mkstr, parts

WORDS = ('zq', 'Kvw', 'zerogradx')
INTS = ('7', '0', '1234567', '40')
FLOATS = ('1.234567890123456789e-05', '9.876543210987654321e+00', '0.000000000000000000e+00')


def spellings(p, k):
    if isinstance(p, Tok):
        w = WORDS[k % len(WORDS)]
        return w + ' ' + w if p.spaces and k % 2 else w
    v = p.val
    neg = isinstance(v, Rat) and FACTS_sign(v) is not True and k >= 4
    s = p.spec.rstrip()
    if s.endswith('d') or (isinstance(v, Rat) and v.as_int() is not None):
        q = -int(INTS[k % 4]) if neg else int(INTS[k % 4])
        return format(q, s if s.endswith('d') else '')
    q = float(FLOATS[k % 3])
    try:
        return format(-q if neg else q, s)
    except ValueError:
        raise Unsupported('regular expression on a formatted value')


def FACTS_sign(v):
    """True when the value cannot be negative"""
    try:
        return decide_sign(v)
    except Exception:
        return None


def decide_sign(v):
    from .alg import cge
    return cge(v, ZERO).op == 'true'


def spell(s, k):
    """(text, [(start, end, part)])"""
    out, at, n = '', [], 0
    for p in parts(s):
        t = p if isinstance(p, str) else spellings(p, k)
        at.append((n, n + len(t), p))
        out += t
        n += len(t)
    return out, at


def cut(at, a, b):
    """abstract positions of a span: ((part, offset), (part, offset)), offset None inside an unknown part"""
    def pos(x, left):
        for i, (s, e, p) in enumerate(at):
            if s <= x < e or (x == e and not left):
                if isinstance(p, str):
                    return (i, x - s) if x < e else (i + 1, 0)
                if x == s:
                    return (i, 0)
                if x == e:
                    return (i + 1, 0)
                return (i, None)
        return (len(at), 0)
    return pos(a, True), pos(b, False)


def text(s, span):
    """the abstract text of a span"""
    (i, a), (j, b) = span
    if a is None or b is None:
        return AStr([Tok('part of %r' % (s,))])
    ps = list(parts(s))
    out = []
    for k in range(i, min(j + 1, len(ps))):
        p = ps[k]
        if isinstance(p, str):
            lo = a if k == i else 0
            hi = b if k == j else len(p)
            out.append(p[lo:hi])
        elif k < j:
            out.append(p)
    return mkstr(out)


def spans(s, f):
    """f(concrete text) -> nested structure of spans; the structure all spellings agree on"""
    n = 1 if isinstance(s, str) else 8
    res = []
    for k in range(n):
        t, at = spell(s, k)

        def conv(x):
            if x is None or (isinstance(x, tuple) and len(x) == 2 and x[0] == 'name'):
                return x
            if isinstance(x, list):
                return tuple(conv(y) for y in x)
            a, b = x
            return None if a < 0 else ('span', cut(at, a, b))
        res.append(conv(f(t)))
    # spellings that divide an unknown part anywhere divide it
    if any(r != res[0] for r in res[1:]):
        alt = [r for r in res if inside(r)]
        if not alt:
            raise Unsupported('regular expression whose match depends on unknown text')
        return alt[0]
    return res[0]


def inside(r):
    if isinstance(r, tuple):
        if r and r[0] == 'span':
            return r[1][0][1] is None or r[1][1][1] is None
        return any(inside(x) for x in r)
    return False


class ReMatch:
    def __init__(self, groups, names):
        self.groups, self.names = groups, names

    def __repr__(self):
        return '<match %r>' % (self.groups,)


class RePat:
    def __init__(self, pat):
        self.pat = pat

    def __repr__(self):
        return 're.compile(%r)' % (self.pat,)


def compiled(pat):
    if isinstance(pat, RePat):
        pat = pat.pat
    if not isinstance(pat, str):
        raise Unsupported('computed pattern')
    try:
        return re.compile(pat)
    except re.error as e:
        raise Unsupported('regular expression: %s' % e)


def get(s, x):
    return None if x is None else text(s, x[1])


def one(name, pat, s):
    r = compiled(pat)

    def f(t):
        m = getattr(r, name)(t)
        return None if m is None else [m.span(i) for i in range(r.groups + 1)]
    g = spans(s, f)
    if g is None:
        return None
    return ReMatch(tuple(get(s, x) for x in g), dict(r.groupindex))


def every(pat, s):
    r = compiled(pat)
    g = spans(s, lambda t: [[m.span(i) for i in range(r.groups + 1)] for m in r.finditer(t)])
    return [ReMatch(tuple(get(s, x) for x in m), dict(r.groupindex)) for m in g]


def findall(pat, s):
    out = []
    for m in every(pat, s):
        g = m.groups
        none = tuple('' if x is None else x for x in g)
        out.append(none[0] if len(g) == 1 else none[1] if len(g) == 2 else none[1:])
    return out


def split(pat, s, n=0):
    r = compiled(pat)

    def f(t):
        out, at, k = [], 0, 0
        for m in r.finditer(t):
            if n and k >= n:
                break
            k += 1
            out.append((at, m.start()))
            out += [m.span(i) for i in range(1, r.groups + 1)]
            at = m.end()
        out.append((at, len(t)))
        return out
    return [get(s, x) for x in spans(s, f)]


def sub(pat, rep, s, n=0):
    if not isinstance(rep, (str, AStr)) or (isinstance(rep, str) and '\\' in rep) or \
            (isinstance(rep, AStr) and any(isinstance(p, str) and '\\' in p for p in rep.parts)):
        raise Unsupported('substitution')
    r = compiled(pat)

    def f(t):
        out, at, k = [], 0, 0
        for m in r.finditer(t):
            if n and k >= n:
                break
            k += 1
            out.append((at, m.start()))
            at = m.end()
        out.append((at, len(t)))
        return out
    pieces = [get(s, x) for x in spans(s, f)]
    out = []
    for i, x in enumerate(pieces):
        out += ([rep] if i else []) + [x]
    return mkstr(out)
