"""Abstract strings: sequences of literal text, formatted values and named
tokens (unknown, non-empty words)."""
from .alg import *


class Tok:
    """an unknown non-empty word (no white space, none of ',=#')"""
    __slots__ = ('name', 'spaces')

    def __init__(self, name, spaces=False):
        self.name = name
        self.spaces = spaces      # may hold inner single spaces (never at the ends)

    def __eq__(self, o):
        return isinstance(o, Tok) and o.name == self.name

    def __hash__(self):
        return hash(('tok', self.name))

    def __repr__(self):
        return '<%s>' % self.name


class Fmt:
    """text of a formatted number"""
    __slots__ = ('val', 'spec')

    def __init__(self, val, spec):
        self.val, self.spec = val, spec

    def __eq__(self, o):
        return isinstance(o, Fmt) and o.spec == self.spec and _eqv(self.val, o.val)

    def __hash__(self):
        return hash(('fmt', self.spec))

    def __repr__(self):
        return '{%s:%s}' % (show(self.val) if isinstance(self.val, Rat) else self.val, self.spec)

    def padded(self):
        s = self.spec.lstrip('<>^=+- ')
        return bool(s) and s[0].isdigit() and s[0] != '0'


def _eqv(a, b):
    if isinstance(a, Rat) and isinstance(b, Rat):
        return a.eq(b)
    return a is b or a == b


class AStr:
    __slots__ = ('parts',)

    def __init__(self, parts):
        self.parts = tuple(parts)

    def __eq__(self, o):
        return isinstance(o, AStr) and self.parts == o.parts

    def __hash__(self):
        return hash(self.parts)

    def __repr__(self):
        return ''.join(p if isinstance(p, str) else repr(p) for p in self.parts)

    def nonempty(self):
        return TRUE


def mkstr(parts):
    out = []
    for p in parts:
        if isinstance(p, AStr):
            q = p.parts
        else:
            q = (p,)
        for x in q:
            if isinstance(x, str):
                if not x:
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] = out[-1] + x
                    continue
            out.append(x)
    if not out:
        return ''
    if len(out) == 1 and isinstance(out[0], str):
        return out[0]
    return AStr(out)


def parts(s):
    return (s,) if isinstance(s, str) else s.parts


def strip(s, left, right, chars=None):
    ps = list(parts(s))
    if left:
        while ps and isinstance(ps[0], str):
            t = ps[0].lstrip(chars)
            if t:
                ps[0] = t
                break
            ps.pop(0)
    if right:
        while ps and isinstance(ps[-1], str):
            t = ps[-1].rstrip(chars)
            if t:
                ps[-1] = t
                break
            ps.pop()
    return mkstr(ps)


def split_any(s, seps, maxsplit=-1):
    """split on any of the single-character separators"""
    out = [[]]
    n = 0
    for p in parts(s):
        if isinstance(p, str):
            cur = ''
            for ch in p:
                if ch in seps and (maxsplit < 0 or n < maxsplit):
                    out[-1].append(cur)
                    out.append([])
                    cur = ''
                    n += 1
                else:
                    cur += ch
            out[-1].append(cur)
        else:
            out[-1].append(p)
    return [mkstr(x) for x in out]


def split_sep(s, sep, maxsplit=-1):
    if len(sep) == 1:
        return split_any(s, sep, maxsplit)
    out = [[]]
    n = 0
    for p in parts(s):
        if isinstance(p, str):
            i = 0
            while True:
                j = p.find(sep, i)
                if j < 0 or (0 <= maxsplit <= n):
                    out[-1].append(p[i:])
                    break
                out[-1].append(p[i:j])
                out.append([])
                n += 1
                i = j + len(sep)
        else:
            out[-1].append(p)
    return [mkstr(x) for x in out]


def split_ws(s, maxsplit=-1):
    out = []
    cur = []
    for p in parts(s):
        if isinstance(p, str):
            w = ''
            for ch in p:
                if ch.isspace() and (maxsplit < 0 or len(out) < maxsplit):
                    if w:
                        cur.append(w)
                        w = ''
                    if cur:
                        out.append(mkstr(cur))
                        cur = []
                else:
                    w += ch
            if w:
                cur.append(w)
        else:
            cur.append(p)
    if cur:
        out.append(mkstr(cur))
    return out


def contains(s, sub):
    """TRUE/FALSE Cond when decidable, else a boolean atom"""
    if isinstance(sub, str):
        if sub == '':
            return TRUE
        for p in parts(s):
            if isinstance(p, str) and sub in p:
                return TRUE
        if isinstance(s, str):
            return FALSE
        # unknown parts hold no white space, '#', ',' or '='
        if any(ch in ' \t\n#,=' for ch in sub) and not any(
                isinstance(p, Tok) and p.spaces for p in parts(s)):
            # would need to straddle literal text: check with a neutral filler
            t = ''.join(p if isinstance(p, str) else '\x00' for p in parts(s))
            pieces = [x for x in _splitkeep(sub)]
            if not any(x in t for x in pieces):
                return FALSE
    return cbool('contains', repr(s), repr(sub))


def _splitkeep(sub):
    return [c for c in sub if c in ' \t\n#,=']


def equal(a, b):
    if type(a) is type(b) and a == b:
        return TRUE
    if isinstance(a, str) and isinstance(b, str):
        return mkbool(a == b)
    pa, pb = parts(a), parts(b)
    # compare literal prefixes / suffixes
    fa = pa[0] if pa and isinstance(pa[0], str) else ''
    fb = pb[0] if pb and isinstance(pb[0], str) else ''
    n = min(len(fa), len(fb))
    if fa[:n] != fb[:n]:
        return FALSE
    la = pa[-1] if pa and isinstance(pa[-1], str) else ''
    lb = pb[-1] if pb and isinstance(pb[-1], str) else ''
    n = min(len(la), len(lb))
    if n and la[-n:] != lb[-n:]:
        return FALSE
    for x, y in ((a, b), (b, a)):
        if isinstance(x, str):
            if x == '':
                return FALSE
            # an unknown word cannot contain separators
            if isinstance(y, AStr) and all(isinstance(p, Tok) and not p.spaces for p in y.parts) \
                    and any(c in x for c in ' \t\n,=#'):
                return FALSE
            lit = ''.join(p for p in y.parts if isinstance(p, str))
            if any(c in lit and c not in x for c in lit):
                return FALSE
    return cbool('streq', *sorted((repr(a), repr(b))))
