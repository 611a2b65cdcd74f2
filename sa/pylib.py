"""Models of the Python built-ins, of the methods of modelled objects and of the
standard library."""
import ast
from fractions import Fraction
from .alg import *
from . import alg
from .arr import *
from . import arr as A
from . import interp as N
from . import strs
from .strs import AStr, Fmt, Tok, mkstr
from .loops import SeqData, PreList, Plan, mk_red
from .legendre import LegPoly
from .lib import (ext, EXT, CONSTS, canon, RangeV, SeqView, Masked, IdxSet, IdxUnion, IdxCol, Opaque, num, isnum,
                  trunc_int, sfun, sop, UFUNC1, UFUNC2, elementwise, operand, to_array, seq_of,
                  seq_len, seq_get, length, plan, items, list_append, mkset, binop, compare,
                  value_eq, contains, getitem, setitem, delitem, listy, write_view, dkey, is_arr,
                  dtype_of, arrkey, identical)
from . import nplib as NP
from .nplib import matmul, reduce_, as_view, const_rows, arg_, known

__all__ = ['call_ext', 'call_meth', 'call_value', 'obj_attr', 'attr', 'enter', 'exit_',
           'format_value', 'to_str', 'percent', 'last_saved', 'real', 'to_key', 'parts', 'sort_values',
           'file_lines', 'parse_num', 'special_class']

parts = strs.parts


def to_key(s):
    return s if isinstance(s, str) else repr(s)


# --------------------------------------------------------------------------
# strings
# --------------------------------------------------------------------------
def const_text(x):
    """text of a constant number"""
    c = x.as_const()
    if c is None:
        return None
    return c


def fmt_const(I, c, isint, spec):
    try:
        if isint and spec and spec[-1] in 'dxob':
            return format(int(c), spec)
        if isint and (not spec or spec[-1].isdigit()):
            return format(int(c), spec)
        return format(float(c), spec)
    except ValueError as e:
        I.raise_('ValueError', str(e))


def format_value(I, v, spec=''):
    if isinstance(v, Choice):
        v = I.resolve(v)
    if isinstance(v, Choice):
        return I.lift(lambda x: format_value(I, x, spec), v)
    if isinstance(spec, AStr):
        raise Unsupported('computed format specification')
    if isinstance(v, View) and v.ndim == 0:
        v = I.getter(v)(())
    if isinstance(v, Cond):
        if v.op in ('true', 'false'):
            if spec in ('', 's'):
                return 'True' if v.op == 'true' else 'False'
            return format(v.op == 'true', spec)
        return mkstr([Fmt(v, spec)])
    if isinstance(v, Rat):
        if spec.endswith('d') and not is_intlike(v):
            c = v.as_const()
            if c is None or c.denominator != 1 or True:
                I.raise_('ValueError', "Unknown format code 'd' for object of type 'float'")
        if spec.endswith('s'):
            I.raise_('ValueError', "Unknown format code 's' for a number")
        c = v.as_const()
        if c is not None and is_intlike(v):
            return fmt_const(I, c, True, spec)
        return mkstr([Fmt(v, spec)])
    if isinstance(v, (str, AStr)):
        if spec in ('', 's'):
            return v
        if isinstance(v, str):
            try:
                return format(v, spec)
            except ValueError as e:
                I.raise_('ValueError', str(e))
        if spec.endswith('s') or spec[-1].isdigit():
            return mkstr([Fmt(v, spec)])
        I.raise_('ValueError', 'format code for str')
    if spec not in ('',):
        I.raise_('TypeError', 'unsupported format string')
    return to_str(I, v)


def to_str(I, v):
    if isinstance(v, (str, AStr)):
        return v
    if isinstance(v, N.Ext) and v.name.startswith('builtins.'):
        return repr(v)
    if isinstance(v, (Rat, Cond)):
        return format_value(I, v, '')
    if isinstance(v, Choice):
        return I.lift(lambda x: to_str(I, x), v)
    if v is None:
        return 'None'
    if isinstance(v, tuple) and all(isinstance(x, (str, Rat)) for x in v):
        return mkstr(['('] + [y for x in v for y in (to_str(I, x), ', ')] + [')'])
    I.uid += 1
    return mkstr([Tok('str(%s)#%d' % (type(v).__name__, I.uid), True)])


import re as _re
_FLD = _re.compile(r'\{([^{}:!]*)(?:!([rsa]))?(?::((?:[^{}]|\{[^{}]*\})*))?\}')


def str_format(I, s, args, kw):
    if isinstance(s, AStr):
        out = []
        auto = [0]
        for p in s.parts:
            out.append(_fmt_lit(I, p, args, kw, auto) if isinstance(p, str) else p)
        return mkstr(out)
    return _fmt_lit(I, s, args, kw, [0])


def _fmt_lit(I, s, args, kw, auto):
    out = []
    i = 0
    while i < len(s):
        ch = s[i]
        if ch == '{':
            if s[i:i + 2] == '{{':
                out.append('{')
                i += 2
                continue
            m = _FLD.match(s, i)
            if not m:
                raise Unsupported('format string %r' % s)
            name, conv, spec = m.group(1), m.group(2), m.group(3) or ''
            if '{' in spec:
                spec = _fmt_lit(I, spec, args, kw, auto)
                if not isinstance(spec, str):
                    raise Unsupported('computed format specification')
            base = _re.split(r'[.\[]', name)[0]
            rest = name[len(base):]
            if base == '':
                k = auto[0]
                auto[0] += 1
                if k >= len(args):
                    I.raise_('IndexError', 'Replacement index out of range')
                v = args[k]
            elif base.isdigit():
                if int(base) >= len(args):
                    I.raise_('IndexError', 'Replacement index out of range')
                v = args[int(base)]
            else:
                if base not in kw:
                    I.raise_('KeyError', base)
                v = kw[base]
            while rest:
                if rest[0] == '.':
                    m2 = _re.match(r'\.(\w+)', rest)
                    v = I.getattr(v, m2.group(1))
                else:
                    m2 = _re.match(r'\[([^\]]*)\]', rest)
                    t = m2.group(1)
                    v = getitem(I, v, C(int(t)) if t.lstrip('-').isdigit() else t)
                rest = rest[m2.end():]
            if conv:
                v = to_str(I, v)
            out.append(format_value(I, v, spec))
            i = m.end()
        elif ch == '}':
            out.append('}')
            i += 2 if s[i:i + 2] == '}}' else 1
        else:
            out.append(ch)
            i += 1
    return mkstr(out)


_PCT = _re.compile(r'%(?:\((\w+)\))?([-+ #0]*)(\d*)(?:\.(\d+))?([a-zA-Z%])')


def percent(I, s, v):
    if isinstance(s, AStr):
        raise Unsupported('%-format of an unknown string')
    args = list(v) if isinstance(v, tuple) else [v]
    out = []
    pos = 0
    k = 0
    for m in _PCT.finditer(s):
        out.append(s[pos:m.start()])
        pos = m.end()
        key, flags, width, prec, conv = m.groups()
        if conv == '%':
            out.append('%')
            continue
        if key:
            x = getitem(I, v, key)
        else:
            if k >= len(args):
                I.raise_('TypeError', 'not enough arguments for format string')
            x = args[k]
            k += 1
        if isinstance(x, Choice):
            x = I.resolve(x)
        if conv in 'sr':
            out.append(to_str(I, x))
            continue
        if not isnum(x):
            I.raise_('TypeError', 'a number is required')
        x = num(x)
        if conv in 'di':
            x = trunc_int(x)
            conv = 'd'
        spec = flags.replace('-', '<') + width + ('.' + prec if prec and conv != 'd' else '') + conv
        if conv == 'd' and prec and x.as_const() is None:
            spec = flags + '0' + prec + 'd'
        out.append(format_value(I, x, spec))
    out.append(s[pos:])
    return mkstr(out)


def parse_num(I, s, kind):
    """int(text) / float(text)"""
    if isinstance(s, str):
        try:
            if kind == 'int':
                return C(int(s))
            t = s.strip().lower()
            if t in ('nan', '+nan', '-nan'):
                return sym('nan')
            if t.lstrip('+-') in ('inf', 'infinity'):
                return sym('inf', pos=True).scale(-1 if t[0] == '-' else 1)
            float(t)
            from decimal import Decimal
            return C(Fraction(Decimal(t.replace('_', ''))))
        except ValueError:
            I.raise_('ValueError', 'invalid literal for %s(): %r' % (kind, s))
    s = strs.strip(s, True, True)
    if isinstance(s, str):
        return parse_num(I, s, kind)
    ps = s.parts
    if len(ps) == 1:
        p = ps[0]
        if isinstance(p, Fmt):
            if isinstance(p.val, (str, AStr)):
                return parse_num(I, p.val, kind)
            if kind == 'int':
                if is_intlike(p.val) and (p.spec == '' or p.spec[-1] == 'd' or p.spec[-1].isdigit()):
                    return p.val
                I.raise_('ValueError', 'invalid literal for int(): formatted float')
            if is_intlike(p.val) and (p.spec == '' or p.spec[-1] == 'd' or p.spec[-1].isdigit()):
                return p.val
            return NP.rounded('%' + p.spec if p.spec else None, p.val)
        if isinstance(p, Tok):
            h = I.hooks.get('tokval')
            if h is not None:
                v = h(I, p.name, kind)
                if v is not None:
                    return v
            return fn('tok_' + kind, p.name, isint=kind == 'int')
    # text that cannot be a number (the ends are stripped: white space is inner)
    if any(isinstance(p, str) and any(ch.isspace() for ch in p) for p in ps) or any(isinstance(p, str) and any(ch not in '0123456789+-.eE_ \t\n' for ch in p) for p in ps):
        I.raise_('ValueError', 'invalid literal for %s(): %r' % (kind, s))
    if kind == 'int' and any(isinstance(p, Fmt) and not is_intlike(p.val) for p in ps
                             if isinstance(p, Fmt) and isinstance(p.val, Rat)):
        I.raise_('ValueError', 'invalid literal for int()')
    raise Unsupported('%s of %r' % (kind, s))


def str_meth(I, s, name, a, kw):
    if name == 'format':
        return str_format(I, s, a, kw)
    if name in ('strip', 'rstrip', 'lstrip'):
        ch = arg_(a, kw, 0, 'chars')
        if ch is not None and not isinstance(ch, str):
            raise Unsupported('strip of computed characters')
        return strs.strip(s, name != 'rstrip', name != 'lstrip', ch)
    if name in ('split', 'rsplit'):
        sep = arg_(a, kw, 0, 'sep')
        mx = arg_(a, kw, 1, 'maxsplit')
        mx = -1 if mx is None else mx.as_int()
        if isinstance(s, str):
            if sep is None or isinstance(sep, str):
                return I.list_(getattr(s, name)(sep, mx))
        if name == 'rsplit' and mx != -1:
            raise Unsupported('rsplit of an unknown string')
        if sep is None:
            return I.list_(_ws_toks(I, strs.split_ws(s, mx)))
        return I.list_(strs.split_sep(s, sep, mx))
    if name == 'splitlines':
        r = strs.split_any(s, '\n')
        if r and r[-1] == '':
            r = r[:-1]
        return I.list_(r)
    if name in ('startswith', 'endswith'):
        x = a[0]
        if isinstance(x, tuple):
            return cor(*[str_meth(I, s, name, (y,), kw) for y in x])
        if isinstance(s, str) and isinstance(x, str):
            return mkbool(getattr(s, name)(x))
        p = parts(s)
        e = p[0] if name == 'startswith' else p[-1]
        if isinstance(x, str):
            if x == '':
                return TRUE
            if isinstance(e, str):
                if len(e) >= len(x):
                    return mkbool(getattr(e, name)(x))
                o = x[:len(e)] if name == 'startswith' else x[-len(e):]
                if e != o:
                    return FALSE
            else:
                ch = x[0] if name == 'startswith' else x[-1]
                if ch in ' \t\n#,=':
                    return FALSE
        return cbool(name, repr(s), repr(x))
    if name == 'join':
        out = []
        for i, x in enumerate(items(I, a[0])):
            if i:
                out.append(s)
            if not isinstance(x, (str, AStr)):
                I.raise_('TypeError', 'sequence item: expected str instance')
            out.append(x)
        return mkstr(out)
    if name == 'encode' or name == 'decode':
        return s
    if isinstance(s, str):
        if all(isinstance(x, (str, Rat)) for x in a) and not kw:
            args = [x if isinstance(x, str) else x.as_int() for x in a]
            if None not in args and name in (
                    'lower', 'upper', 'title', 'capitalize', 'replace', 'find', 'rfind', 'index',
                    'count', 'isdigit', 'isalpha', 'isspace', 'zfill', 'ljust', 'rjust', 'center',
                    'partition', 'rpartition', 'swapcase', 'casefold', 'isnumeric', 'isalnum',
                    'expandtabs', 'removeprefix', 'removesuffix', 'isupper', 'islower'):
                try:
                    r = getattr(s, name)(*args)
                except ValueError as e:
                    I.raise_('ValueError', str(e))
                if isinstance(r, bool):
                    return mkbool(r)
                if isinstance(r, int):
                    return C(r)
                return r
    else:
        if name in ('lower', 'upper', 'casefold', 'title', 'capitalize'):
            return mkstr([p if not isinstance(p, str) and not isinstance(p, Tok) else
                          (getattr(p, name)() if isinstance(p, str) else Tok('%s(%s)' % (name, p.name), p.spaces))
                          for p in s.parts])
        if name == 'replace' and isinstance(a[0], str) and len(a[0]) == 1 and isinstance(a[1], (str, AStr)) \
                and (a[0] in ' \t\n,=#' or all(isinstance(p, (str,)) for p in s.parts)):
            out = []
            for i, x in enumerate(strs.split_any(s, a[0])):
                if i:
                    out.append(a[1])
                out.append(x)
            return mkstr(out)
        if name in ('partition', 'rpartition') and isinstance(a[0], str):
            r = strs.split_sep(s, a[0], 1 if name == 'partition' else -1)
            if len(r) == 1:
                return (s, '', '') if name == 'partition' else ('', '', s)
            if name == 'rpartition' and len(r) > 2:
                raise Unsupported('rpartition')
            return (r[0], a[0], r[1])
        if name == 'count' and isinstance(a[0], str) and a[0] in (',', '=', '#', '\n'):
            return C(sum(p.count(a[0]) for p in s.parts if isinstance(p, str)))
        if name in ('find', 'index') and isinstance(a[0], str):
            p0 = s.parts[0]
            if isinstance(p0, str) and a[0] in p0:
                return C(p0.find(a[0]))
        if name in ('isdigit', 'isspace', 'isalpha', 'isnumeric'):
            return cbool('str.' + name, repr(s))
        if name in ('zfill', 'ljust', 'rjust', 'center'):
            k = a[0].as_int()
            return mkstr([Fmt(s, '%s%s' % (name, k))])
    if name not in dir(str):
        I.raise_('AttributeError', 'str has no attribute ' + name)
    raise Unsupported('string method %s of %r' % (name, s))


def _ws_toks(I, r):
    return r


# --------------------------------------------------------------------------
# files
# --------------------------------------------------------------------------
def real(I, name):
    """absolute name of a file when the working directory is followed"""
    import posixpath
    cwd = I.hooks.get('cwd')
    if cwd is None or not isinstance(name, str):
        return name
    return posixpath.normpath(posixpath.join(cwd, name))


def file_events(I, fname):
    """the events that wrote the current content of a file, oldest first"""
    out = []
    for e in I.st.events:
        if e.kind in ('savetxt', 'fopen', 'fwrite'):
            c = strs.equal(e.data[0], fname) if isinstance(e.data[0], (str, AStr)) else FALSE
            if c.op == 'false':
                continue
            if c.op != 'true':
                continue
            if e.loops:
                raise Unsupported('file written in a summarised loop')
            if e.kind in ('savetxt',) or (e.kind == 'fopen' and e.data[1][0] == 'w'):
                out = [e]
            else:
                out.append(e)
    return out


def last_saved(I, fname):
    ev = file_events(I, fname)
    if not ev:
        return None
    if ev[0].kind != 'savetxt' or len(ev) > 1:
        return ev[0] if ev[0].kind == 'savetxt' else None
    return ev[0]


def file_lines(I, fname):
    """content of a file as a sequence of lines"""
    key = to_key(fname)
    ev = file_events(I, fname)
    if not ev:
        if key in I.vfs:
            return I.vfs[key]
        h = I.hooks.get('open')
        if h is not None:
            r = h(I, fname)
            if r is not None:
                return r
        return None
    if ev[0].kind == 'savetxt':
        if len(ev) > 1:
            raise Unsupported('file appended to')
        _, shape, g, fmt, delim, header, com, footer = ev[0].data[:8]
        head = []
        if header != '':
            hs = strs.split_any(header, '\n')
            head = [mkstr([com, h, '\n']) for h in hs]
        nc = shape[1].as_int()
        cols = fmts(fmt, nc, delim)

        def row(j):
            if cols is None or nc is None:
                raise Unsupported('text of a data row')
            out = []
            for i in range(nc):
                if i:
                    out.append(cols[1])
                out.append(format_value(I, g((j, C(i))), cols[0][i]))
            return mkstr(out + ['\n'])
        if footer != '':
            raise Unsupported('footer')
        nh = len(head)
        return SeqData(shape[0] + C(nh), lambda j: head[j.as_int()] if j.as_int() is not None and
                       j.as_int() < nh else row(j - C(nh)))
    text = []
    for e in ev:
        if e.kind == 'fwrite':
            text.append(e.data[1])
    t = mkstr(text)
    ls = strs.split_any(t, '\n')
    out = [mkstr([x, '\n']) for x in ls[:-1]]
    if ls[-1] != '':
        out.append(ls[-1])
    return tuple(out)


def fmts(fmt, nc, delim):
    """([spec per column], separator)"""
    if not isinstance(fmt, str) or nc is None:
        return None
    k = fmt.count('%')
    if k == 1:
        return [fmt.strip()[1:]] * nc, delim
    m = _re.split(r'%', fmt)
    if k == nc and m[0] == '':
        sp = [_re.match(r'([-+ #0]*\d*(?:\.\d+)?[a-zA-Z])(.*)$', x) for x in m[1:]]
        if all(sp) and len({x.group(2) for x in sp[:-1]}) <= 1:
            return [x.group(1) for x in sp], sp[0].group(2)
    return None


@ext('builtins.open', 'io.open')
def open_(I, a, kw):
    fname = arg_(a, kw, 0, 'file')
    mode = arg_(a, kw, 1, 'mode', 'r')
    if isinstance(fname, Choice):
        return I.lift(lambda x: open_(I, (x, mode), {}), fname)
    fname = real(I, fname)
    if not isinstance(mode, str):
        raise Unsupported('computed file mode')
    if mode[0] in 'wax' or '+' in mode:
        I.event('fopen', fname, mode)
        return N.Ref(I.new('wfile', mode, {'name': fname}))
    I.event('fread', fname)
    L = file_lines(I, fname)
    if L is None:
        I.maybe_raise(cbool('missing', to_key(fname)), 'FileNotFoundError', fname)
        raise Unsupported('reading an unknown file %r' % (fname,))
    return N.Ref(I.new('file', (L, ZERO), {'name': fname}))


def file_meth(I, r, name, a, kw):
    o = I.obj(r)
    if name in ('close', 'flush', '__exit__', 'fileno'):
        return None
    if name == '__enter__':
        return r
    if o.kind == 'wfile':
        if name == 'write':
            if not isinstance(a[0], (str, AStr)):
                I.raise_('TypeError', 'write() argument must be str')
            I.event('fwrite', o.meta['name'], a[0])
            return C(0)
        if name == 'writelines':
            for x in items(I, a[0]):
                I.event('fwrite', o.meta['name'], x)
            return None
        I.raise_('OSError', 'not readable')
    seq, pos = o.data
    n = seq_len(I, seq)
    if name in ('readline', '__next__'):
        c = I.decide(clt(pos, n))
        if c.op == 'false':
            if name == 'readline':
                return ''
            I.raise_('StopIteration')
        if c.op != 'true':
            raise Unsupported('read past an uncertain end of file')
        v = seq_get(I, seq, pos)
        I.put(r.oid, N.Obj(o.kind, (seq, pos + ONE), o.meta))
        return v
    if name in ('readlines', 'read'):
        I.put(r.oid, N.Obj(o.kind, (seq, n), o.meta))
        k = (n - pos).as_int()
        if k is not None:
            ls = [seq_get(I, seq, pos + C(i)) for i in range(k)]
            return I.list_(ls) if name == 'readlines' else mkstr(ls)
        if name == 'readlines':
            return N.Ref(I.new('list', SeqData(n - pos, lambda j: seq_get(I, seq, pos + j))))
    if name == 'seek' and isinstance(a[0], Rat) and a[0].is_zero():
        I.put(r.oid, N.Obj(o.kind, (seq, ZERO), o.meta))
        return C(0)
    raise Unsupported('file method ' + name)


def enter(I, cm):
    if isinstance(cm, Choice):
        return I.lift(lambda x: enter(I, x), cm)
    if isinstance(cm, N.Ref):
        o = I.obj(cm)
        if o.kind in ('file', 'wfile'):
            return cm
        if o.kind == 'inst':
            m = o.meta.lookup('__enter__')
            if m is None:
                I.raise_('TypeError', 'object does not support the context manager protocol')
            return I.call(N.Bound(m, cm), (), {})
    if isinstance(cm, (Opaque, N.Ext)) or cm is None:
        return cm
    raise Unsupported('with on %r' % (cm,))


def exit_(I, cm):
    if isinstance(cm, Choice):
        return I.lift(lambda x: exit_(I, x), cm)
    if isinstance(cm, N.Ref) and I.obj(cm).kind == 'inst':
        m = I.obj(cm).meta.lookup('__exit__')
        return I.call(N.Bound(m, cm), (None, None, None), {})


# --------------------------------------------------------------------------
# built-ins
# --------------------------------------------------------------------------
B = 'builtins.'


@ext(B + 'print')
def print_(I, a, kw):
    to = kw.get('file')
    if isinstance(to, N.Ref) and I.obj(to).kind == 'wfile':
        sep, end = kw.get('sep'), kw.get('end')
        sep, end = ' ' if sep is None else sep, '\n' if end is None else end
        out = []
        for i, x in enumerate(a):
            out += ([sep] if i else []) + [to_str(I, x)]
        out.append(end)
        if not all(isinstance(x, (str, AStr)) for x in out):
            raise Unsupported('printing to a file')
        I.event('fwrite', I.obj(to).meta['name'], mkstr(out))
        return None
    I.event('print', a)
    return None


@ext(B + 'range')
def range_(I, a, kw):
    a = [num(x) if isnum(x) else x for x in a]
    for x in a:
        if not isinstance(x, Rat):
            I.raise_('TypeError', 'range() arguments must be integers')
        if not is_intlike(x):
            I.raise_('TypeError', "'float' object cannot be interpreted as an integer")
    if len(a) == 1:
        return RangeV(ZERO, a[0], 1)
    st = 1
    if len(a) == 3:
        st = a[2].as_int()
        if st is None:
            raise Unsupported('range with a symbolic step')
        if st == 0:
            I.raise_('ValueError', 'range() arg 3 must not be zero')
    return RangeV(a[0], a[1], st)


@ext(B + 'len')
def len_(I, a, kw):
    return length(I, a[0])


def pseq(I, x):
    """(n, get) of an iterable, for lazy combinators"""
    p = plan(I, x)
    if p.guard is not None:
        raise Unsupported('lazy iteration over an index set')
    return p


@ext(B + 'enumerate')
def enumerate_(I, a, kw):
    st = num(arg_(a, kw, 1, 'start', ZERO))
    p = pseq(I, a[0])
    return SeqView(p.n, lambda j: (j + st, p.get(j)))


@ext(B + 'zip')
def zip_(I, a, kw):
    ps = [pseq(I, x) for x in a]
    if not ps:
        return ()
    n = ps[0].n
    for p in ps[1:]:
        c = I.decide(cle(n, p.n))
        if c.op == 'true':
            continue
        if c.op == 'false':
            n = p.n
            continue
        n = rmin(n, p.n)
    return SeqView(n, lambda j: tuple(p.get(j) for p in ps))


@ext(B + 'reversed')
def reversed_(I, a, kw):
    p = pseq(I, a[0])
    return SeqView(p.n, lambda j: p.get(p.n - ONE - j))


@ext(B + 'map')
def map_(I, a, kw):
    ps = [pseq(I, x) for x in a[1:]]
    n = ps[0].n
    for p in ps[1:]:
        n = rmin(n, p.n)
    k = n.as_int()
    if k is not None:
        out = [I.call(a[0], tuple(p.get(C(i)) for p in ps), {}) for i in range(k)]
        return N.Ref(I.new('iter', (tuple(out), ZERO)))
    from . import loops
    acc = N.Ref(I.new('list', ()))
    box = []

    def bind(v):
        box[:] = [v]
    loops.foreach(I, SeqView(n, lambda j: tuple(p.get(j) for p in ps)), bind,
                  lambda: list_append(I, acc, I.call(a[0], box[0], {})), I.loc)
    return N.Ref(I.new('iter', (I.obj(acc).data, ZERO)))


@ext(B + 'filter')
def filter_(I, a, kw):
    out = []
    for x in items(I, a[1]):
        c = I.decide(I.truth(x if a[0] is None else I.call(a[0], (x,), {})))
        if c.op == 'true':
            out.append(x)
        elif c.op != 'false':
            raise Unsupported('filter with an undecided predicate')
    return N.Ref(I.new('iter', (tuple(out), ZERO)))


@ext(B + 'iter')
def iter_(I, a, kw):
    x = a[0]
    if isinstance(x, N.Ref):
        o = I.obj(x)
        if o.kind in ('iter', 'file'):
            return x
        if o.kind == 'inst':
            m = o.meta.lookup('__iter__')
            if m is not None:
                return I.call(N.Bound(m, x), (), {})
    if x is None or isnum(x):
        I.raise_('TypeError', 'object is not iterable')
    s = seq_of(I, x)
    return N.Ref(I.new('iter', (s, ZERO)))


@ext(B + 'next')
def next_(I, a, kw):
    x = a[0]
    if isinstance(x, Choice):
        return I.lift(lambda y: next_(I, (y,) + tuple(a[1:]), kw), x)
    if not isinstance(x, N.Ref):
        I.raise_('TypeError', 'object is not an iterator')
    o = I.obj(x)
    if o.kind == 'inst':
        m = o.meta.lookup('__next__')
        if m is None:
            I.raise_('TypeError', 'object is not an iterator')
        return I.call(N.Bound(m, x), (), {})
    if o.kind not in ('iter', 'file'):
        I.raise_('TypeError', 'object is not an iterator')
    if isinstance(o.data, Choice):
        raise Unsupported('next() on an iterator of undetermined content')
    seq, pos = o.data
    n = seq_len(I, seq)
    c = I.decide(clt(pos, n))
    if c.op == 'true':
        v = seq_get(I, seq, pos)
        I.put(x.oid, N.Obj(o.kind, (seq, pos + ONE), o.meta))
        return v
    if len(a) > 1:
        if c.op == 'false':
            return a[1]

        def adv():
            v = seq_get(I, seq, pos)
            I.put(x.oid, N.Obj(o.kind, (seq, pos + ONE), o.meta))
            return v
        return I.branch(c, adv, lambda: a[1])
    I.maybe_raise(cnot(c), 'StopIteration')
    v = seq_get(I, seq, pos)
    I.put(x.oid, N.Obj(o.kind, (seq, pos + ONE), o.meta))
    return v


def sort_values(vals):
    """order statistics of up to four values as gated min/max expressions"""
    vals = [num(v) for v in vals]
    if all(v.as_const() is not None for v in vals):
        return sorted(vals, key=lambda v: v.as_const())
    if len(vals) > 4:
        raise Unsupported('symbolic sort of %d values' % len(vals))
    # sorting network (insertion)
    v = list(vals)
    for i in range(1, len(v)):
        for j in range(i, 0, -1):
            a, b = v[j - 1], v[j]
            v[j - 1], v[j] = rmin(a, b), rmax(a, b)
    return v


@ext(B + 'sorted')
def sorted_(I, a, kw):
    vals = items(I, a[0])
    key = kw.get('key')
    rev = kw.get('reverse')
    rev = rev is not None and I.decide(I.truth(rev)).op == 'true'
    ks = vals if key is None else [I.call(key, (v,), {}) for v in vals]
    if all(isinstance(k, str) for k in ks) or all(isinstance(k, Rat) and k.as_const() is not None for k in ks):
        order = sorted(range(len(ks)), key=lambda i: ks[i] if isinstance(ks[i], str) else ks[i].as_const(),
                       reverse=rev)
        return I.list_([vals[i] for i in order])
    def plain(k):
        if isinstance(k, str):
            return k
        if isinstance(k, Rat):
            return k.as_const()
        if isinstance(k, Cond) and k.op in ('true', 'false'):
            return k.op == 'true'
        if isinstance(k, tuple) or isinstance(k, N.Ref) and I.obj(k).kind == 'list':
            t = tuple(plain(x) for x in items(I, k))
            return None if any(x is None for x in t) else t
        return None
    pk = [plain(k) for k in ks]
    if pk and all(k is not None for k in pk):
        try:
            order = sorted(range(len(pk)), key=lambda i: pk[i], reverse=rev)
            return I.list_([vals[i] for i in order])
        except TypeError:
            I.raise_('TypeError', 'values which cannot be ordered')
    if pk and all(isinstance(k, tuple) and k and isinstance(k[0], (str, Rat)) for k in ks):
        first = [plain(k[0]) for k in ks]
        if all(x is not None for x in first) and len(set(map(repr, first))) == len(first):
            try:
                order = sorted(range(len(first)), key=lambda i: first[i], reverse=rev)
                return I.list_([vals[i] for i in order])
            except TypeError:
                I.raise_('TypeError', 'values which cannot be ordered')
    if key is None and all(isnum(v) for v in vals):
        r = sort_values(vals)
        return I.list_(r[::-1] if rev else r)
    if len(vals) <= 1:
        return I.list_(vals)
    if all(isnum(k) for k in ks) and len(vals) <= 4:
        # stable insertion network over (key, value)
        v = [(num(k), x) for k, x in zip(ks, vals)]
        for i in range(1, len(v)):
            for j in range(i, 0, -1):
                (ka, a), (kb, b) = v[j - 1], v[j]
                c = cgt(kb, ka) if rev else clt(kb, ka)
                v[j - 1] = (ite(c, kb, ka), merge_val(c, b, a))
                v[j] = (ite(c, ka, kb), merge_val(c, a, b))
        return I.list_([x for _, x in v])
    raise Unsupported('sort')


def agg(I, kind, vals_src, kw):
    x = vals_src
    if isinstance(x, View):
        if x.ndim == 1:
            return reduce_(I, kind, x)
        if x.ndim > 1 and kind == 'sum':
            return reduce_(I, kind, x, ZERO)
    if isinstance(x, Masked):
        return reduce_(I, kind, x)
    p = plan(I, x)
    n = p.n.as_int()
    if n is not None and p.guard is None:
        return [p.get(C(i)) for i in range(n)]
    k = sym(I.fresh('k'), isint=True)
    FACTS.push(k, ZERO, p.n - ONE)
    if p.guard is not None:
        raise Unsupported('aggregate over an index set')
    b = p.get(k)
    if isinstance(b, Cond) and kind not in ('any', 'all'):
        b = num(b)
    if not isnum(b):
        raise Unsupported('aggregate of %r' % (b,))
    return mk_red(kind, b, k, ZERO, p.n)


@ext(B + 'sum')
def sum_(I, a, kw):
    st = arg_(a, kw, 1, 'start', ZERO)
    r = agg(I, 'sum', a[0], kw)
    if isinstance(r, list):
        acc = st
        for v in r:
            acc = I.lift(lambda p, q: binop(I, 'Add', p, q), acc, v)
        return acc
    return binop(I, 'Add', st, r)


def _maxmin(kind):
    def f(I, a, kw):
        key = kw.get('key')
        if len(a) > 1:
            vals = list(a)
        else:
            x = a[0]
            if key is None:
                r = agg(I, kind, x, kw)
                if not isinstance(r, list):
                    return r
                vals = r
            else:
                vals = items(I, x)
        if not vals:
            if 'default' in kw:
                return kw['default']
            I.raise_('ValueError', '%s() arg is an empty sequence' % kind)
        if key is not None:
            ks = [num(I.call(key, (v,), {})) for v in vals]
            best, kb = vals[0], ks[0]
            for v, k in zip(vals[1:], ks[1:]):
                c = cgt(k, kb) if kind == 'max' else clt(k, kb)
                best = merge_val(c, v, best)
                kb = ite(c, k, kb)
            return best
        if all(isinstance(v, str) for v in vals):
            return max(vals) if kind == 'max' else min(vals)
        if any(isinstance(v, Choice) for v in vals):
            return I.lift(lambda *v: f(I, v, {}) if len(v) > 1 else v[0], *vals)
        vals = [I.getter(v)(()) if isinstance(v, View) and v.ndim == 0 else v for v in vals]
        if not all(isnum(v) for v in vals):
            if any(isinstance(v, View) for v in vals):
                I.raise_('ValueError', 'truth value of an array is ambiguous')
            if any(isinstance(v, (str, AStr)) or v is None for v in vals):
                I.raise_('TypeError', 'not comparable')
            raise Unsupported('%s of these values' % kind)
        # Python's max keeps the first argument unless a later one is strictly larger
        r = num(vals[0])
        for v in vals[1:]:
            v = num(v)
            if decide_eq(r, v) is True:
                continue
            r = rmax(r, v) if kind == 'max' else rmin(r, v)
        return r
    return f


EXT[B + 'max'] = _maxmin('max')
EXT[B + 'min'] = _maxmin('min')


@ext(B + 'abs')
def abs_(I, a, kw):
    x = a[0]
    if is_arr(x):
        return elementwise(I, 'abs', lambda v: sfun('abs', v), x)
    if not isnum(x):
        I.raise_('TypeError', 'bad operand type for abs()')
    return rabs(num(x))


@ext(B + 'int')
def int_(I, a, kw):
    if not a:
        return ZERO
    x = a[0]
    if isinstance(x, Choice):
        return I.lift(lambda y: int_(I, (y,), {}), x)
    if isinstance(x, (str, AStr)):
        return parse_num(I, x, 'int')
    if isinstance(x, View):
        if all(s.eq(ONE) for s in x.shape):
            x = I.getter(x)(tuple(ZERO for _ in x.shape))
        else:
            I.raise_('TypeError', 'only length-1 arrays can be converted to Python scalars')
    if not isnum(x):
        I.raise_('TypeError', 'int() argument must be a string or a number')
    return trunc_int(num(x))


@ext(B + 'float')
def float_(I, a, kw):
    if not a:
        return ZERO
    x = a[0]
    if isinstance(x, Choice):
        return I.lift(lambda y: float_(I, (y,), {}), x)
    if isinstance(x, (str, AStr)):
        return parse_num(I, x, 'float')
    if isinstance(x, View):
        if all(s.eq(ONE) for s in x.shape):
            x = I.getter(x)(tuple(ZERO for _ in x.shape))
        else:
            I.raise_('TypeError', 'only length-1 arrays can be converted to Python scalars')
    if not isnum(x):
        I.raise_('TypeError', 'float() argument must be a string or a number')
    return num(x)


@ext(B + 'str')
def str_(I, a, kw):
    return to_str(I, a[0]) if a else ''


@ext(B + 'repr')
def repr_(I, a, kw):
    return to_str(I, a[0])


@ext(B + 'format')
def format_(I, a, kw):
    return format_value(I, a[0], a[1] if len(a) > 1 else '')


@ext(B + 'bool')
def bool_(I, a, kw):
    return I.truth(a[0]) if a else FALSE


@ext(B + 'list')
def list_(I, a, kw):
    if not a:
        return I.list_(())
    s = seq_of(I, a[0]) if not isinstance(a[0], Choice) else None
    if isinstance(s, tuple):
        return I.list_(s)
    p = plan(I, a[0])
    if p.guard is not None:
        raise Unsupported('list of an index set')
    n = p.n.as_int()
    if n is not None:
        return I.list_([p.get(C(i)) for i in range(n)])
    return N.Ref(I.new('list', SeqData(p.n, p.get)))


@ext(B + 'tuple')
def tuple_(I, a, kw):
    if not a:
        return ()
    p = plan(I, a[0])
    n = p.n.as_int()
    if n is not None and p.guard is None:
        return tuple(p.get(C(i)) for i in range(n))
    return N.Ref(I.new('list', SeqData(p.n, p.get)))


@ext(B + 'dict', 'collections.OrderedDict')
def dict_(I, a, kw):
    r = N.Ref(I.new('dict', {}))
    if a:
        x = a[0]
        if isinstance(x, N.Ref) and I.obj(x).kind == 'dict':
            for k, v in I.obj(x).data.values():
                setitem(I, r, k, v)
        else:
            for p in items(I, x):
                k, v = items(I, p)
                setitem(I, r, k, v)
    for k, v in kw.items():
        setitem(I, r, k, v)
    return r


@ext('collections.defaultdict')
def defaultdict(I, a, kw):
    return N.Ref(I.new('dict', {}, ('default', a[0])))


@ext(B + 'set', B + 'frozenset')
def set_(I, a, kw):
    return mkset(I, items(I, a[0]) if a else ())


@ext('collections.namedtuple')
def namedtuple(I, a, kw):
    fields = a[1]
    if isinstance(fields, str):
        fs = fields.replace(',', ' ').split()
    else:
        fs = items(I, fields)
    c = N.ClassV(a[0], a[0], (), {}, '?')
    ds = items(I, kw['defaults']) if 'defaults' in kw else []
    env = {'_d_' + f: d for f, d in zip(fs[len(fs) - len(ds):], ds)}
    c.attrs['__init__'] = I.define('def __init__(%s):\n    %s\n' % (
        ', '.join(['self'] + [f + ('=_d_' + f if '_d_' + f in env else '') for f in fs]),
        '\n    '.join('self.%s = %s' % (f, f) for f in fs) or 'pass'), env)
    nt_methods(I, c, fs)
    return c


def type_name(I, x):
    if isinstance(x, Cond):
        return 'bool'
    if isinstance(x, Rat):
        return 'int' if is_intlike(x) else 'float'
    if isinstance(x, (str, AStr)):
        return 'str'
    if x is None:
        return 'NoneType'
    if isinstance(x, tuple):
        return 'tuple'
    if isinstance(x, View):
        return 'numpy.ndarray'
    if isinstance(x, N.Ref):
        return I.obj(x).kind
    return type(x).__name__


@ext(B + 'isinstance')
def isinstance_(I, a, kw):
    x, t = a
    if isinstance(x, Choice):
        return I.lift(lambda y: isinstance_(I, (y, t), {}), x)
    if isinstance(t, tuple):
        if isinstance(x, Rat) and {'builtins.int', 'builtins.float'} <= {y.name for y in t if isinstance(y, N.Ext)}:
            return TRUE
        return cor(*[isinstance_(I, (x, y), {}) for y in t])
    if isinstance(t, (N.Func, N.Native)):
        return FALSE
    if isinstance(t, N.ClassV):
        if isinstance(x, N.Ref) and I.obj(x).kind == 'inst':
            return mkbool(issub(I.obj(x).meta, t))
        return FALSE
    n = type_name(I, x)
    if isinstance(t, N.Ext):
        m = t.name.split('.')[-1]
        if t.name.startswith('numbers.') or m in ('Number', 'Real', 'number', 'generic'):
            return mkbool(isnum(x))
        if m == 'ndarray':
            return mkbool(isinstance(x, View))
        if m in ('floating', 'float64'):
            return mkbool(n == 'float')
        if m in ('integer', 'int64', 'Integral'):
            return mkbool(n == 'int')
        if m == 'int':
            return mkbool(n in ('int', 'bool'))
        if m in ('float', 'str', 'bool', 'list', 'dict', 'set', 'tuple'):
            if isinstance(x, Rat) and m == 'float' and n == 'int':
                raise Unsupported('isinstance(number, float)')
            return mkbool(n == m)
        if m == 'object':
            return TRUE
        if m in N.HIER:
            return mkbool(isinstance(x, N.ExcV) and N.exc_isa(x.type, m))
        if m in ('Iterable', 'Sequence', 'Sized'):
            return mkbool(n in ('list', 'tuple', 'str', 'dict', 'set', 'numpy.ndarray'))
        if m in ('Callable',):
            return mkbool(callable_v(I, x))
    raise Unsupported('isinstance(%r, %r)' % (x, t))


def issub(c, t):
    return c is t or any(isinstance(b, N.ClassV) and issub(b, t) for b in c.bases)


@ext(B + 'issubclass')
def issubclass_(I, a, kw):
    return mkbool(isinstance(a[0], N.ClassV) and isinstance(a[1], N.ClassV) and issub(a[0], a[1]))


def callable_v(I, x):
    return isinstance(x, (N.Func, N.Bound, N.ClassV, N.Ext, N.Native, N.ExtMeth, LegPoly))


@ext(B + 'callable')
def callable_(I, a, kw):
    return mkbool(callable_v(I, a[0]))


@ext(B + 'type')
def type_(I, a, kw):
    x = a[0]
    if isinstance(x, N.Ref) and I.obj(x).kind == 'inst':
        return I.obj(x).meta
    n = type_name(I, x)
    return N.Ext(n if '.' in n else B + n)


@ext(B + 'id')
def id_(I, a, kw):
    if isinstance(a[0], N.Ref):
        return C(64 * a[0].oid + 7)
    return fn('id', repr(a[0]), isint=True)


@ext(B + 'hasattr')
def hasattr_(I, a, kw):
    x, n = a
    if isinstance(x, Choice):
        return I.lift(lambda y: hasattr_(I, (y, n), {}), x)
    if isinstance(x, N.Ref):
        o = I.obj(x)
        if o.kind in ('inst', 'mod'):
            if n in o.data:
                v = o.data[n]
                if N.has_undef(v):
                    return cnot(N.undef_cond(v)[0])
                return TRUE
            return mkbool(o.kind == 'inst' and o.meta.lookup(n) is not None)
    try:
        I.getattr(x, n)
        return TRUE
    except N.PyExc as e:
        if e.exc.type == 'AttributeError':
            return FALSE
        raise


@ext(B + 'getattr')
def getattr_(I, a, kw):
    x, n = a[0], a[1]
    if isinstance(n, Choice):
        return I.lift(lambda m: getattr_(I, (x, m) + tuple(a[2:]), kw), n)
    if not isinstance(n, str):
        raise Unsupported('getattr with a computed name')
    if len(a) > 2:
        c = I.decide(hasattr_(I, (x, n), {}))
        return I.branch(c, lambda: I.getattr(x, n), lambda: a[2])
    return I.getattr(x, n)


@ext(B + 'setattr')
def setattr__(I, a, kw):
    if not isinstance(a[1], str):
        raise Unsupported('setattr with a computed name')
    I.lift(lambda o: I.store_attr(o, a[1], a[2]), a[0])


@ext(B + 'delattr')
def delattr_(I, a, kw):
    o = I.obj(a[0])
    d = dict(o.data)
    d.pop(a[1], None)
    I.put(a[0].oid, N.Obj(o.kind, d, o.meta))


@ext(B + 'vars')
def vars_(I, a, kw):
    return I.getattr(a[0], '__dict__')


@ext(B + 'any', B + 'all')
def any_(I, a, kw):
    raise AssertionError


def _anyall(kind):
    def f(I, a, kw):
        x = a[0]
        if isinstance(x, (View, Masked)):
            return reduce_(I, kind, x)
        r = agg(I, kind, x, kw)
        if isinstance(r, list):
            cs = [I.truth(v) for v in r]
            return cor(*cs) if kind == 'any' else cand(*cs)
        return r
    return f


EXT[B + 'any'] = _anyall('any')
EXT[B + 'all'] = _anyall('all')


@ext(B + 'round')
def round_(I, a, kw):
    return call_ext(I, 'numpy.round', a, kw)


@ext(B + 'pow')
def pow_(I, a, kw):
    return binop(I, 'Pow', a[0], a[1])


@ext(B + 'divmod')
def divmod_(I, a, kw):
    return (binop(I, 'FloorDiv', a[0], a[1]), binop(I, 'Mod', a[0], a[1]))


@ext(B + 'slice')
def slice_(I, a, kw):
    if len(a) == 1:
        return SliceV(None, a[0], None)
    return SliceV(a[0], a[1], a[2] if len(a) > 2 else None)


@ext(B + 'object')
def object_(I, a, kw):
    I.uid += 1
    return Opaque('object#%d' % I.uid)


@ext(B + 'exit', B + 'quit', 'sys.exit', 'os._exit')
def exit__(I, a, kw):
    I.event('exit', a[0] if a else None)
    raise N.PyExc(N.ExcV('SystemExit', tuple(a), I.loc))


@ext(B + 'ord')
def ord_(I, a, kw):
    return C(ord(a[0]))


@ext(B + 'chr')
def chr_(I, a, kw):
    return chr(a[0].as_int())


@ext(B + 'input')
def input_(I, a, kw):
    I.event('nondet', 'input')
    return mkstr([Tok(I.fresh('input'))])


# operator / functools / itertools
for _n, _o in {'add': 'Add', 'sub': 'Sub', 'mul': 'Mult', 'truediv': 'Div', 'pow': 'Pow',
               'matmul': 'MatMult', 'mod': 'Mod', 'floordiv': 'FloorDiv'}.items():
    EXT['operator.' + _n] = (lambda o: lambda I, a, kw: binop(I, o, a[0], a[1]))(_o)
for _n, _o in {'lt': 'Lt', 'le': 'LtE', 'gt': 'Gt', 'ge': 'GtE', 'eq': 'Eq', 'ne': 'NotEq'}.items():
    EXT['operator.' + _n] = (lambda o: lambda I, a, kw: compare(I, o, a[0], a[1]))(_o)


@ext('operator.itemgetter')
def itemgetter(I, a, kw):
    return N.Native(lambda I, b, k: getitem(I, b[0], a[0]))


@ext('operator.attrgetter')
def attrgetter(I, a, kw):
    return N.Native(lambda I, b, k: I.getattr(b[0], a[0]))


@ext('functools.partial')
def partial(I, a, kw):
    f, pre = a[0], tuple(a[1:])

    def run(I, b, k):
        kk = dict(kw)
        kk.update(k)
        return I.call(f, pre + tuple(b), kk)
    return N.Native(run, 'partial')


@ext('functools.reduce')
def reduce__(I, a, kw):
    its = items(I, a[1])
    acc = a[2] if len(a) > 2 else its.pop(0)
    for x in its:
        acc = I.call(a[0], (acc, x), {})
    return acc


@ext('functools.wraps')
def wraps(I, a, kw):
    return N.Native(lambda I, b, k: b[0])


@ext('functools.update_wrapper', 'typing.cast')
def update_wrapper(I, a, kw):
    return a[0] if len(a) < 2 or not isinstance(a[0], (N.ClassV, N.Ext)) else a[1]


@ext('contextlib.contextmanager')
def contextmanager(I, a, kw):
    f = a[0]
    if not isinstance(f, N.Func):
        raise Unsupported('contextmanager of %r' % (f,))
    return N.NativeMethod(lambda I, b, k: N.GenCM(f, tuple(b), k))


@ext('dataclasses.field')
def dc_field(I, a, kw):
    return N.Ref(I.new('inst', {'default': kw.get('default', N.Ext('dataclasses.MISSING')),
                                'factory': kw.get('default_factory', N.Ext('dataclasses.MISSING')),
                                'init': kw.get('init', TRUE)}, DCFIELD))


DCFIELD = N.ClassV('Field', 'dataclasses.Field', (), {}, 'dataclasses')


@ext('dataclasses.dataclass')
def dataclass(I, a, kw):
    if not a:
        return N.Native(lambda I, b, k: dataclass(I, b, kw))
    c = a[0]
    names, env = [], {}
    missing = N.Ext('dataclasses.MISSING')
    for b in reversed(c.bases):
        if isinstance(b, N.ClassV) and b.lookup('__dataclass_spec__'):
            for n, d in b.lookup('__dataclass_spec__'):
                names = [x for x in names if x[0] != n] + [(n, d)]
    for n in c.attrs.get('__annotated__', ()):
        d = c.attrs.get(n, missing)
        old = [i for i, x in enumerate(names) if x[0] == n]
        if old:
            names[old[0]] = (n, d)
        else:
            names.append((n, d))
    args, body = [], []
    for n, d in names:
        if isinstance(d, N.Ref) and I.obj(d).kind == 'inst' and I.obj(d).meta is DCFIELD:
            f = I.obj(d).data
            if n in c.attrs:
                del c.attrs[n]
            init = f['init'] in (TRUE, True) or getattr(f['init'], 'op', '') == 'true'
            if f['factory'] != missing:
                env['_f_' + n] = f['factory']
                env['_missing'] = missing
                if init:
                    args.append('%s=_missing' % n)
                    body.append('self.%s = _f_%s() if %s is _missing else %s' % (n, n, n, n))
                else:
                    body.append('self.%s = _f_%s()' % (n, n))
            elif f['default'] != missing:
                env['_d_' + n] = f['default']
                c.attrs[n] = f['default']
                args += ['%s=_d_%s' % (n, n)] if init else []
                body.append('self.%s = %s' % (n, n if init else '_d_' + n))
            elif init:
                args.append(n)
                body.append('self.%s = %s' % (n, n))
        elif d == missing:
            args.append(n)
            body.append('self.%s = %s' % (n, n))
        else:
            env['_d_' + n] = d
            args.append('%s=_d_%s' % (n, n))
            body.append('self.%s = %s' % (n, n))
    c.attrs['__dataclass_spec__'] = tuple(names)
    c.attrs['__dataclass_names__'] = tuple(n for n, _ in names)
    if c.lookup('__post_init__') is not None:
        body.append('self.__post_init__()')
    kwonly = kw.get('kw_only')
    star = ['*'] if kwonly is not None and getattr(kwonly, 'op', '') == 'true' and args else []
    if '__init__' not in c.attrs:
        c.attrs['__init__'] = I.define('def __init__(%s):\n    %s\n' % (
            ', '.join(['self'] + star + args), '\n    '.join(body) or 'pass'), env)
    if '__eq__' not in c.attrs:
        c.attrs['__eq__'] = I.define('def __eq__(self, o):\n    return %s\n' % (
            ' and '.join('self.%s == o.%s' % (n, n) for n, _ in names) or 'True'), {})
    return c


def special_class(I, c, node):
    """classes with library bases"""
    for b in c.bases:
        if not isinstance(b, N.Ext) or b.name in N.HARMLESS or N.exc_base(c) is not None:
            continue
        n = b.name
        if n in ('enum.Enum', 'enum.IntEnum', 'enum.StrEnum'):
            members = []
            base = {k: v for k, v in c.attrs.items()}
            for k in [x.targets[0].id for x in node.body if isinstance(x, ast.Assign)
                      and isinstance(x.targets[0], ast.Name)]:
                v = base[k]
                if isinstance(v, N.Ref) and I.obj(v).kind == 'inst' and I.obj(v).meta.name == 'auto':
                    v = C(len(members) + 1)
                if n != 'enum.Enum':
                    c.attrs[k] = v
                    members.append((k, v))
                    continue
                if any(same_value(v, I.obj(m).data['value']) for _, m in members):
                    raise Unsupported('enumeration with aliases')
                m = N.Ref(I.new('inst', {'name': k, 'value': v, '_value_': v, '_name_': k}, c))
                c.attrs[k] = m
                members.append((k, m))
            c.attrs['__members__'] = tuple(members)
            c.attrs['__enum__'] = n
            return c
        if n == 'typing.NamedTuple':
            fs = c.attrs.get('__annotated__', ())
            env = {'_d_' + f: c.attrs[f] for f in fs if f in c.attrs}
            c.attrs['__init__'] = I.define('def __init__(%s):\n    %s\n' % (
                ', '.join(['self'] + [f + ('=_d_' + f if '_d_' + f in env else '') for f in fs]),
                '\n    '.join('self.%s = %s' % (f, f) for f in fs) or 'pass'), env)
            nt_methods(I, c, fs)
            return c
        raise Unsupported('subclass of %s' % n)
    return c


def nt_methods(I, c, fs):
    def values(I, s):
        return tuple(I.getattr(s, f) for f in fs)
    c.attrs['_fields'] = tuple(fs)
    c.attrs['__iter__'] = N.NativeMethod(lambda I, args, k: values(I, args[0]))
    c.attrs['__getitem__'] = N.NativeMethod(lambda I, args, k: getitem(I, values(I, args[0]), args[1]))
    c.attrs['__len__'] = N.NativeMethod(lambda I, args, k: C(len(fs)))
    c.attrs['_asdict'] = N.NativeMethod(lambda I, args, k: N.Ref(I.new('dict', {
        to_key(f): (f, v) for f, v in zip(fs, values(I, args[0]))})))

    def replace(I, args, k):
        d = {f: I.getattr(args[0], f) for f in fs}
        d.update(k)
        return I.call(c, (), d)
    c.attrs['_replace'] = N.NativeMethod(replace)
    if '__eq__' not in c.attrs:
        c.attrs['__eq__'] = I.define('def __eq__(self, o):\n    return tuple(self) == tuple(o)\n', {})


@ext('enum.auto')
def enum_auto(I, a, kw):
    return N.Ref(I.new('inst', {}, N.ClassV('auto', 'enum.auto', (), {}, 'enum')))


@ext('enum.unique')
def enum_unique(I, a, kw):
    return a[0]


for _n in ('floor', 'ceil', 'trunc'):
    EXT['math.' + _n] = (lambda n: lambda I, a, kw: sfun(n, num(a[0])))(_n)


@ext('math.isqrt')
def isqrt(I, a, kw):
    return sfun('floor', sfun('sqrt', num(a[0])))


@ext('itertools.chain')
def chain(I, a, kw):
    out = []
    for x in a:
        out += items(I, x)
    return N.Ref(I.new('iter', (tuple(out), ZERO)))


@ext('itertools.product')
def product(I, a, kw):
    import itertools
    r = kw.get('repeat')
    its = [items(I, x) for x in a]
    if r is not None:
        its = its * r.as_int()
    return N.Ref(I.new('iter', (tuple(itertools.product(*its)), ZERO)))


@ext('itertools.islice')
def islice(I, a, kw):
    if isinstance(a[0], N.Ref) and I.obj(a[0]).kind == 'iter' and len(a) in (2, 3):
        # some of the elements of an iterator, which moves on
        o = I.obj(a[0])
        lo = 0 if len(a) == 2 or a[1] is None else a[1].as_int()
        hi = a[-1].as_int() if a[-1] is not None else None
        seq, pos = o.data
        n = (seq_len(I, seq) - pos)
        if n.as_int() is None and lo is not None and hi is not None and signs(n - C(hi)) <= {0, 1}:
            out = tuple(seq_get(I, seq, pos + C(j)) for j in range(lo, hi))
            I.put(a[0].oid, N.Obj('iter', (seq, pos + C(hi)), o.meta))
            return N.Ref(I.new('iter', (out, ZERO)))
    its = items(I, a[0])
    k = [None if x is None else x.as_int() for x in a[1:]]
    return N.Ref(I.new('iter', (tuple(its[slice(*k)]), ZERO)))


@ext('itertools.accumulate')
def accumulate(I, a, kw):
    out = []
    for x in items(I, a[0]):
        out.append(x if not out else binop(I, 'Add', out[-1], x))
    return N.Ref(I.new('iter', (tuple(out), ZERO)))


def endless(I):
    n = sym(I.fresh('countless'), isint=True, pos=True)
    FACTS.push(n, C(10 ** 6), None)
    return n


@ext('itertools.repeat')
def it_repeat(I, a, kw):
    k = arg_(a, kw, 1, 'times', None)
    n = endless(I) if k is None else num(k)
    x = a[0]
    if n.as_int() is not None:
        return N.Ref(I.new('iter', ((x,) * n.as_int(), ZERO)))
    return N.Ref(I.new('iter', (SeqData(n, lambda j: x), ZERO)))


@ext('itertools.cycle')
def it_cycle(I, a, kw):
    v = tuple(items(I, a[0]))

    def at(j):
        f = floordiv(j, len(v))
        if f is None:
            raise Unsupported('itertools.cycle')
        return v[int(f[1])]
    return N.Ref(I.new('iter', (SeqData(endless(I), at), ZERO)))


@ext('itertools.count')
def it_count(I, a, kw):
    st = num(a[0]) if a else ZERO
    sp = num(a[1]) if len(a) > 1 else ONE
    n = sym(I.fresh('countless'), isint=True, pos=True)
    FACTS.push(n, C(10 ** 6), None)
    return N.Ref(I.new('iter', (SeqData(n, lambda j: st + j * sp), ZERO)))


# copying
@ext('copy.deepcopy')
def deepcopy(I, a, kw):
    memo = {}
    given = {}
    if len(a) > 1 or 'memo' in kw:
        m = arg_(a, kw, 1, 'memo', None)
        if m is not None:
            # objects which are not to be copied, by identity
            for k, x in I.obj(m).data.values():
                given[to_key(k)] = x

    def cp(v):
        if isinstance(v, Choice):
            return Choice(v.c, cp(v.a), cp(v.b))
        if isinstance(v, tuple):
            return tuple(cp(x) for x in v)
        if given and isinstance(v, (N.Ref, View)):
            k = to_key(id_(I, (v,), {}))
            if k in given:
                return given[k]
        if isinstance(v, N.Ref):
            if v.oid in memo:
                return N.Ref(memo[v.oid])
            o = I.obj(v)
            if o.kind == 'inst':
                m = o.meta.lookup('__deepcopy__')
                if m is not None:
                    return I.call(N.Bound(m, v), (N.Ref(I.new('dict', {})),), {})
            if o.kind == 'mod':
                I.raise_('TypeError', 'cannot pickle module object')
            n = I.new(o.kind, None, o.meta)
            memo[v.oid] = n
            if o.kind in ('inst',):
                d = {k: cp(x) for k, x in o.data.items()}
            elif o.kind == 'dict':
                d = {k: (kv[0], cp(kv[1])) for k, kv in o.data.items()}
            elif o.kind in ('list', 'set'):
                if isinstance(o.data, tuple):
                    d = tuple(cp(x) for x in o.data)
                elif isinstance(o.data, SeqData) and isnum(o.data.at(alg.sym('probe', isint=True))):
                    d = o.data
                else:
                    raise Unsupported('deepcopy of this list')
            elif o.kind == 'iter':
                d = o.data
            else:
                raise Unsupported('deepcopy of a ' + o.kind)
            I.put(n, N.Obj(o.kind, d, o.meta))
            return N.Ref(n)
        if isinstance(v, View):
            # numpy arrays are copied element-wise (views become arrays)
            key = ('v', v.oid, v.sig)
            try:
                hash(key)
            except TypeError:
                key = ('v', id(v))
            if key in memo:
                return memo[key]
            r = to_array(I, v)
            memo[key] = r
            return r
        if isinstance(v, N.Bound):
            return N.Bound(v.func, cp(v.self))
        if isinstance(v, N.ExtMeth):
            return N.ExtMeth(cp(v.obj), v.name)
        return v
    return cp(a[0])


@ext('copy.copy')
def shallow(I, a, kw):
    v = a[0]
    if isinstance(v, N.Ref):
        o = I.obj(v)
        if o.kind == 'inst':
            m = o.meta.lookup('__copy__')
            if m is not None:
                return I.call(N.Bound(m, v), (), {})
        return N.Ref(I.new(o.kind, o.data if not isinstance(o.data, dict) else dict(o.data), o.meta))
    if isinstance(v, View):
        return to_array(I, v)
    return v


# os, time, subprocess, argparse ...
@ext('os.path.exists', 'os.path.isdir', 'os.path.isfile')
def exists(I, a, kw):
    I.event('stat', a[0])
    h = I.hooks.get('exists')
    if h is not None:
        return h(I, a[0])
    return cbool('exists', to_key(a[0]))


@ext('os.path.join')
def pjoin(I, a, kw):
    out = [a[0]]
    for x in a[1:]:
        if isinstance(x, str) and x.startswith('/'):
            out = [x]
            continue
        last = out[-1]
        if not (isinstance(last, str) and last.endswith('/')):
            out.append('/')
        out.append(x)
    return mkstr(out)


@ext('os.path.abspath', 'os.path.realpath', 'os.path.normpath', 'os.path.expanduser')
def abspath(I, a, kw):
    if isinstance(a[0], str) and I.hooks.get('cwd') is not None:
        return real(I, a[0])
    if isinstance(a[0], (str, AStr)):
        return mkstr([Tok('abspath(%s)' % to_key(a[0]))])
    I.raise_('TypeError', 'expected str')


@ext('os.path.dirname', 'os.path.basename', 'os.path.splitext')
def dirname(I, a, kw):
    raise AssertionError


def _pathpart(name):
    import posixpath

    def f(I, a, kw):
        if isinstance(a[0], str) and I.hooks.get('cwd') is not None:
            r = getattr(posixpath, name)(a[0])
            return I.tuple_(r) if isinstance(r, tuple) and hasattr(I, 'tuple_') else r
        return mkstr([Tok('%s(%s)' % (name, to_key(a[0])))])
    return f


for _n in ('dirname', 'basename', 'splitext', 'split'):
    EXT['os.path.' + _n] = _pathpart(_n)


@ext('os.path.isabs')
def isabs(I, a, kw):
    if isinstance(a[0], str):
        return a[0].startswith('/')
    raise Unsupported('isabs')


@ext('os.path.relpath')
def relpath(I, a, kw):
    import posixpath
    if all(isinstance(x, str) for x in a) and I.hooks.get('cwd') is not None:
        return posixpath.relpath(real(I, a[0]), real(I, arg_(a, kw, 1, 'start', '.')))
    raise Unsupported('relpath')


def _dirname_default(I, a, kw):
    return mkstr([Tok('dirname(%s)' % to_key(a[0]))])


@ext('os.getcwd')
def getcwd(I, a, kw):
    if I.hooks.get('cwd') is not None:
        return I.hooks['cwd']
    I.event('nondet', 'cwd')
    return mkstr([Tok('cwd')])


@ext('os.makedirs', 'os.mkdir', 'os.chdir', 'os.remove', 'os.unlink', 'os.rename', 'os.rmdir',
     'os.removedirs', 'os.symlink', 'os.replace', 'shutil.rmtree', 'shutil.copy', 'shutil.copyfile',
     'shutil.move', 'shutil.copy2', 'shutil.copytree', 'os.system', 'os.putenv', 'os.chmod',
     'os.kill', 'os.truncate')
def os_effect(I, a, kw):
    raise AssertionError


def _os_effect(name):
    def f(I, a, kw):
        cwd = I.hooks.get('cwd')
        if cwd is not None:
            if I.st.pc:
                raise Unsupported('conditional ' + name)
            h = I.hooks.get('makes')
            if h is not None and isinstance(a[0], str):
                h(I, name, real(I, a[0]), kw)
            if name == 'os.chdir':
                if not isinstance(a[0], str):
                    raise Unsupported('chdir to a computed directory')
                I.hooks['cwd'] = real(I, a[0])
            I.event('fs', name, tuple(real(I, x) for x in a), tuple(sorted(kw)), cwd)
            if name == 'os.system':
                return ZERO
            return None
        I.event('fs', name, a, tuple(sorted(kw)))
        return None
    return f


for _n in ('os.makedirs', 'os.mkdir', 'os.chdir', 'os.remove', 'os.unlink', 'os.rename', 'os.rmdir',
           'os.removedirs', 'os.symlink', 'os.replace', 'shutil.rmtree', 'shutil.copy',
           'shutil.copyfile', 'shutil.move', 'shutil.copy2', 'shutil.copytree', 'os.system',
           'os.putenv', 'os.chmod', 'os.kill', 'os.truncate'):
    EXT[_n] = _os_effect(_n)


@ext('os.listdir', 'glob.glob')
def listdir(I, a, kw):
    I.event('nondet', 'listdir')
    h = I.hooks.get('listdir')
    if h is not None and len(a) == 1 and not kw and isinstance(a[0], str) and '*' not in a[0]:
        return I.list_(h(I, real(I, a[0])))
    raise Unsupported('directory listing')


def _nondet(name, isint=False):
    def f(I, a, kw):
        I.event('nondet', name)
        return sym(I.fresh('nd:' + name), isint=isint)
    return f


for _n in ('time.time', 'time.perf_counter', 'time.monotonic', 'time.process_time', 'time.clock',
           'random.random', 'random.uniform', 'random.gauss', 'numpy.random.rand',
           'numpy.random.random', 'numpy.random.randn', 'numpy.random.uniform',
           'numpy.random.normal', 'numpy.random.random_sample'):
    EXT[_n] = _nondet(_n)
EXT['os.getpid'] = _nondet('os.getpid', True)
EXT['random.randint'] = _nondet('random.randint', True)


def _rand_arr(I, name, a):
    I.event('nondet', name)
    if not a:
        return sym(I.fresh('nd'))
    nm = I.fresh('nd')
    sh = tuple(num(x) for x in a) if isnum(a[0]) else tuple(num(x) for x in items(I, a[0]))
    return I.arr(sh, lambda idx: Rat.of(atom('elem', nm, tuple(idx))))


for _n in ('numpy.random.rand', 'numpy.random.randn', 'numpy.random.random', 'numpy.random.random_sample'):
    EXT[_n] = (lambda n: lambda I, a, kw: _rand_arr(I, n, a))(_n)
EXT['numpy.random.seed'] = lambda I, a, kw: None


@ext('subprocess.getoutput')
def getoutput(I, a, kw):
    I.event('subprocess', a, kw)
    return mkstr([Tok(I.fresh('output'), True)])


@ext('subprocess.check_output')
def check_output(I, a, kw):
    I.event('subprocess', a, kw)
    h = I.hooks.get('command')
    if h is not None:
        h(I, a)
    return mkstr([Tok(I.fresh('output'), True)])


@ext('subprocess.call', 'subprocess.check_call', 'subprocess.run', 'subprocess.Popen')
def sp_call(I, a, kw):
    raise AssertionError


def _sp_call(name):
    def f(I, a, kw):
        I.event('subprocess', a, kw)
        cwd = I.hooks.get('cwd')
        o = Opaque(I.fresh('proc'))
        if cwd is not None:
            I.event('process', name, a, dict(kw), cwd, o.name)
        if name in ('subprocess.call', 'subprocess.check_call'):
            return sym(I.fresh('rc'), isint=True)
        return o
    return f


for _n in ('call', 'check_call', 'run', 'Popen'):
    EXT['subprocess.' + _n] = _sp_call('subprocess.' + _n)


@ext('datetime.timedelta', 'datetime.datetime.now', 'datetime.date.today')
def timedelta(I, a, kw):
    return Opaque(I.fresh('time'))


@ext('argparse.ArgumentParser')
def ArgumentParser(I, a, kw):
    return N.Ref(I.new('inst', {'_opts': ()}, ARGP))


ARGP = N.ClassV('ArgumentParser', 'argparse.ArgumentParser', (), {}, 'argparse')


def _add_arg(I, args, kw):
    self = args[0]
    names = [x for x in args[1:]]
    dest = kw.get('dest')
    if dest is None:
        for n in names:
            if n.startswith('--'):
                dest = n[2:].replace('-', '_')
                break
        else:
            dest = names[0].lstrip('-').replace('-', '_')
    o = I.obj(self)
    I.setattr_(self, '_opts', o.data['_opts'] + ((dest, tuple(names), tuple(sorted(
        (k, v) for k, v in kw.items() if isinstance(v, (str, Rat, N.Ext)) or v is None))),))
    return None


ARGNS = N.ClassV('Namespace', 'argparse.Namespace', (), {}, 'argparse')


def _parse_args(I, args, kw):
    o = I.obj(args[0])
    d = {}
    for dest, names, k in o.data['_opts']:
        kk = dict(k)
        act = kk.get('action')
        if act in ('store_true', 'store_false'):
            d[dest] = cbool('arg', dest)
        else:
            h = I.hooks.get('arg')
            v = h(I, dest, kk) if h is not None else NotImplemented
            d[dest] = mkstr([Tok('arg:' + dest)]) if v is NotImplemented else v
    return N.Ref(I.new('inst', d, ARGNS))


ARGP.attrs['add_argument'] = N.NativeMethod(_add_arg)
ARGP.attrs['parse_args'] = N.NativeMethod(_parse_args)
ARGP.attrs['set_defaults'] = N.NativeMethod(lambda I, a, k: None)


def _parse_known(I, args, kw):
    return (_parse_args(I, args, kw), I.list_(()))


ARGP.attrs['parse_known_args'] = N.NativeMethod(_parse_known)


# regular expressions
from . import rex


def _re_call(I, name, pat, a, kw):
    known(kw, 'maxsplit', 'count', 'string', 'repl', 'flags')
    if kw.get('flags') is not None and num(kw['flags']).as_int() != 0:
        raise Unsupported('regular expression flags')
    if name == 'sub':
        rep, s = arg_(a, kw, 0, 'repl'), arg_(a, kw, 1, 'string')
        n = arg_(a, kw, 2, 'count', ZERO)
    else:
        s = arg_(a, kw, 0, 'string')
        n = arg_(a, kw, 1, 'maxsplit', ZERO)
    if not isinstance(s, (str, AStr)):
        I.raise_('TypeError', 'expected string or bytes-like object')
    if name in ('match', 'search', 'fullmatch'):
        return rex.one(name, pat, s)
    if name == 'findall':
        return I.list_(rex.findall(pat, s))
    if name == 'finditer':
        return I.list_(rex.every(pat, s))
    n = num(n).as_int()
    if n is None:
        raise Unsupported('regular expression count')
    if name == 'split':
        return I.list_(rex.split(pat, s, n))
    return rex.sub(pat, rep, s, n)


def _re_ext(name):
    def f(I, a, kw):
        if len(a) > (4 if name == 'sub' else 3) or (name in ('match', 'search', 'fullmatch', 'findall', 'finditer') and len(a) > 2):
            raise Unsupported('regular expression flags')
        return _re_call(I, name, a[0], tuple(a[1:]), kw)
    return f


RE_METHS = ('match', 'search', 'fullmatch', 'findall', 'finditer', 'split', 'sub')
for _n in RE_METHS:
    EXT['re.' + _n] = _re_ext(_n)


@ext('re.compile')
def re_compile(I, a, kw):
    if len(a) != 1 or kw:
        raise Unsupported('regular expression flags')
    return rex.RePat(rex.compiled(a[0]).pattern)


@ext('re.escape')
def re_escape(I, a, kw):
    if isinstance(a[0], str):
        return _re.escape(a[0])
    raise Unsupported('computed pattern')


def re_meth(I, o, name, a, kw):
    if isinstance(o, rex.RePat):
        if name in RE_METHS:
            return _re_call(I, name, o, a, kw)
    elif name == 'group':
        r = tuple(re_group(I, o, x) for x in (a or (ZERO,)))
        return r if len(r) > 1 else r[0]
    elif name == 'groups':
        d = a[0] if a else None
        return tuple(d if g is None else g for g in o.groups[1:])
    elif name == 'groupdict':
        return dict_(I, (), {k: o.groups[i] for k, i in o.names.items()})
    raise Unsupported('method %s of %r' % (name, o))


def re_group(I, m, k):
    if isinstance(k, str):
        k = m.names.get(k)
    else:
        k = num(k).as_int()
    if k is None or not 0 <= k < len(m.groups):
        I.raise_('IndexError', 'no such group')
    return m.groups[k]


# modules and packages without a modelled effect
for _n in ('sys.path.insert', 'sys.path.append', 'sys.stdout.flush', 'sys.stderr.flush',
           'logging.basicConfig', 'gc.collect', 'time.sleep', 'random.seed', 'atexit.register'):
    EXT[_n] = lambda I, a, kw: None


for _n in ('sys.stdout.write', 'sys.stderr.write'):
    EXT[_n] = lambda I, a, kw: (I.event('print', a), C(0))[1]


@ext('unittest.main')
def ut_main(I, a, kw):
    return None


# --------------------------------------------------------------------------
# dispatch
# --------------------------------------------------------------------------
OPAQUE_MODS = ('matplotlib', 'pandas', 'scipy', 'pylab', 'mpl_toolkits', 'logging', 'warnings',
               'datetime', 'inspect', 'unittest', 'seaborn', 'IPython', 'platform', 'getpass',
               'socket', 'sympy', 'textwrap', 'traceback')


def call_ext(I, name, a, kw):
    h = I.hooks.get('call_ext')
    if h is not None:
        r = h(I, name, a, kw)
        if r is not NotImplemented:
            return r
    if any(isinstance(x, Choice) for x in a) and name not in (
            'builtins.print', 'builtins.isinstance', 'builtins.hasattr'):
        for i, x in enumerate(a):
            if isinstance(x, Choice):
                return I.lift(lambda y: call_ext(I, name, a[:i] + (y,) + a[i + 1:], kw), x)
    f = EXT.get(name)
    if f is not None:
        return f(I, a, kw)
    if name.startswith('builtins.'):
        n = name[9:]
        if n in N.HIER or n in ('BaseException', 'Exception', 'EnvironmentError'):
            return N.ExcV(n, a, I.loc)
        if n in ('staticmethod', 'classmethod', 'property'):
            return a[0]
        if n.partition('.')[0] in ('str', 'list', 'dict', 'tuple', 'set') and '.' in n and a:
            return I.call(I.getattr(a[0], n.partition('.')[2]), a[1:], kw)
    if name in N.HIER:
        return N.ExcV(name, a, I.loc)
    if name.split('.')[0] in OPAQUE_MODS:
        I.uid += 1
        return Opaque('%s()#%d' % (name, I.uid))
    g = I.prelude(name)
    if g is not None:
        return I.call(g, a, kw)
    raise Unsupported('call of %s' % name)


def attr(I, o, name):
    """attribute of a value that is not a repository object"""
    if isinstance(o, N.Ext):
        full = canon(o.name + '.' + name)
        if full in CONSTS:
            return CONSTS[full]()
        if full in EXT or full in UFUNC1 or full in UFUNC2:
            return N.Ext(full)
        m = I.load_module(o.name + '.' + name) if '.' not in o.name and False else None
        if name == '__name__':
            return o.name.split('.')[-1]
        if full == 'sys.argv':
            I.event('nondet', 'argv')
            return I.list_([mkstr([Tok('argv0')])])
        if full == 'sys.maxsize':
            return C(2 ** 63 - 1)
        if full == 'sys.float_info.epsilon':
            return C(Fraction(1, 2 ** 52))
        if full == 'os.sep':
            return '/'
        if full == 'os.linesep':
            return '\n'
        return N.Ext(full)
    if isinstance(o, View):
        return arr_attr(I, o, name)
    if isinstance(o, (Masked, IdxSet)):
        if name == 'size' and isinstance(o, IdxSet):
            k = sym(I.fresh('k'), isint=True)
            FACTS.push(k, ZERO, o.n - ONE)
            return mk_red('sum', num(o.mask((k,))), k, ZERO, o.n)
        return N.ExtMeth(o, name)
    if isinstance(o, (str, AStr)):
        if name not in dir(str):
            I.raise_('AttributeError', "'str' object has no attribute " + name)
        return N.ExtMeth(o, name)
    if isinstance(o, LegPoly):
        return NP.leg_attr(I, o, name)
    if isinstance(o, (rex.RePat, rex.ReMatch)):
        if name == 'pattern' and isinstance(o, rex.RePat):
            return o.pat
        return N.ExtMeth(o, name)
    if isinstance(o, (Rat, Cond)):
        if name == 'real':
            return num(o)
        if name == 'imag':
            return ZERO
        if name == 'T':
            return o
        if name == 'shape':
            return ()
        if name == 'size':
            return ONE
        if name == 'ndim':
            return ZERO
        if name in ('sum', 'max', 'min', 'copy', 'item', 'is_integer', 'conjugate', 'any', 'all',
                    'mean', 'astype', 'dot', 'flatten', 'tolist'):
            return N.ExtMeth(o, name)
        I.raise_('AttributeError', "number has no attribute " + name)
    if isinstance(o, Opaque):
        return Opaque('%s.%s' % (o.name, name))
    if isinstance(o, N.ExcV):
        if name == 'args':
            return tuple(o.args)
        if name == 'code':
            return o.args[0] if o.args else None
        return N.ExtMeth(o, name)
    if isinstance(o, tuple):
        if name in ('index', 'count'):
            return N.ExtMeth(o, name)
        I.raise_('AttributeError', "'tuple' object has no attribute " + name)
    if o is None:
        I.raise_('AttributeError', "'NoneType' object has no attribute " + name)
    if isinstance(o, N.Bound):
        if name == '__self__':
            return o.self
        if name == '__func__':
            return o.func
        if name == '__name__':
            return o.func.name
    if isinstance(o, RangeV):
        return {'start': o.start, 'stop': o.stop}[name]
    if isinstance(o, N.Stale):
        raise Unsupported('use of %s' % o.what)
    raise Unsupported('attribute %s of %r' % (name, o))


LISTM = ('append', 'extend', 'insert', 'pop', 'remove', 'index', 'count', 'reverse', 'sort', 'copy',
         'clear')
DICTM = ('get', 'keys', 'values', 'items', 'update', 'pop', 'setdefault', 'copy', 'clear')
SETM = ('add', 'update', 'discard', 'remove', 'union', 'intersection', 'difference', 'issubset',
        'copy')


def obj_attr(I, ref, o, name):
    k = o.kind
    ok = {'list': LISTM, 'dict': DICTM, 'set': SETM}.get(k)
    if ok is not None and name not in ok:
        if name.startswith('__'):
            return N.ExtMeth(ref, name)
        I.raise_('AttributeError', "'%s' object has no attribute '%s'" % (k, name))
    if k in ('file', 'wfile') and name == 'name':
        return o.meta['name']
    if k in ('file', 'wfile', 'list', 'dict', 'set', 'iter'):
        return N.ExtMeth(ref, name)
    raise Unsupported('attribute %s of a %s' % (name, k))


ARRM = set('''fill copy reshape dot sum max min mean prod transpose ravel flatten any all astype tolist
item argmax argmin cumsum squeeze swapaxes nonzero repeat round clip take sort put diagonal trace
conj conjugate view std var ptp setflags'''.split())


NDARRAY = set("""T all any argmax argmin argpartition argsort astype base byteswap choose clip compress conj
conjugate copy ctypes cumprod cumsum data diagonal dot dtype dump dumps fill flags flat flatten getfield imag item
itemset itemsize max mean min nbytes ndim newbyteorder nonzero partition prod ptp put ravel real repeat reshape
resize round searchsorted setfield setflags shape size sort squeeze std strides sum swapaxes take tobytes tofile
tolist tostring trace transpose var view""".split())


def arr_attr(I, v, name):
    if name == 'shape':
        return tuple(v.shape)
    if name == 'T':
        return transpose_view(v)
    if name == 'size':
        n = ONE
        for s in v.shape:
            n = n * s
        return n
    if name == 'ndim':
        return C(v.ndim)
    if name == 'dtype':
        return Opaque({'f': 'float64', 'i': 'int64', 'b': 'bool', 'O': 'object'}[v.dtype])
    if name == 'real':
        return v
    if name == 'flat':
        return NP.ravel_(I, v)
    if name in ('base',):
        return Opaque('base')
    if name in ARRM:
        return N.ExtMeth(v, name)
    if I.prelude('numpy.' + name) is not None and name in NDARRAY:
        f = I.prelude('numpy.' + name)
        return N.Native(lambda I, a, k: I.call(f, (v,) + tuple(a), k))
    if name in NDARRAY:
        raise Unsupported('ndarray.' + name)
    I.raise_('AttributeError', "'numpy.ndarray' object has no attribute '%s'" % name)


def call_meth(I, o, name, a, kw):
    if any(isinstance(x, Choice) for x in a) and not (
            isinstance(o, N.Ref) and I.obj(o).kind in ('list', 'dict', 'set')):
        for i, x in enumerate(a):
            if isinstance(x, Choice):
                return I.lift(lambda y: call_meth(I, o, name, a[:i] + (y,) + a[i + 1:], kw), x)
    if isinstance(o, (str, AStr)):
        return str_meth(I, o, name, a, kw)
    if isinstance(o, N.Ref):
        ob = I.obj(o)
        if ob.kind == 'list':
            return list_meth(I, o, ob, name, a, kw)
        if ob.kind == 'dict':
            return dict_meth(I, o, ob, name, a, kw)
        if ob.kind == 'set':
            return set_meth(I, o, ob, name, a, kw)
        if ob.kind in ('file', 'wfile'):
            return file_meth(I, o, name, a, kw)
        if ob.kind == 'iter' and name == '__next__':
            return next_(I, (o,), {})
    if isinstance(o, View):
        return arr_meth(I, o, name, a, kw)
    if isinstance(o, Masked):
        if name in ('sum', 'max', 'min', 'any', 'all', 'prod'):
            return reduce_(I, name, o)
        if name == 'copy':
            return o
    if isinstance(o, IdxSet):
        if name in ('ravel', 'flatten', 'squeeze', 'copy'):
            return IdxSet(o.n, o.mask, o.off, 1, o.scale)
    if isinstance(o, IdxUnion) and name in ('ravel', 'flatten', 'copy'):
        return o
    if isinstance(o, IdxCol) and name in ('ravel', 'flatten'):
        return o.set
    if isinstance(o, LegPoly):
        return NP.leg_meth(I, o, name, a, kw)
    if isnum(o):
        if name in ('sum', 'max', 'min', 'copy', 'item', 'conjugate', 'mean', 'tolist'):
            return num(o)
        if name in ('any', 'all'):
            return I.truth(o)
        if name == 'astype':
            return conv_scalar(I, o, a[0])
        if name == 'dot':
            return binop(I, 'Mult', o, a[0])
        if name == 'is_integer':
            return mkbool(is_intlike(o))
    if isinstance(o, tuple):
        if name == 'index':
            return seq_index(I, o, a[0])
        if name == 'count':
            return C(sum(1 for x in o if value_eq(I, x, a[0]).op == 'true'))
    if isinstance(o, (rex.RePat, rex.ReMatch)):
        return re_meth(I, o, name, a, kw)
    if isinstance(o, Opaque):
        h = I.hooks.get('opaque')
        if h is not None:
            r = h(I, o, name, a, kw)
            if r is not NotImplemented:
                return r
        return Opaque('%s.%s()' % (o.name, name))
    if isinstance(o, N.ExcV):
        return mkstr([Tok('exception text', True)])
    raise Unsupported('method %s of %r' % (name, o))


def conv_scalar(I, o, t):
    d = dtype_of(I, t)
    return trunc_int(num(o)) if d == 'i' else num(o)


def seq_index(I, s, x):
    for i, y in enumerate(s):
        c = value_eq(I, x, y)
        if c.op == 'true':
            return C(i)
        if c.op != 'false':
            out = None
            for j in reversed(range(i, len(s))):
                cj = value_eq(I, x, s[j])
                out = C(j) if out is None else merge_val(cj, C(j), out)
            anyc = cor(*[value_eq(I, x, y) for y in s])
            I.maybe_raise(cnot(anyc), 'ValueError', 'not in list')
            return out
    I.raise_('ValueError', 'value is not in list')


def list_meth(I, r, ob, name, a, kw):
    d = ob.data
    if name == 'append':
        if isinstance(d, Choice):
            return I.branch(d.c, lambda: (I.put(r.oid, N.Obj('list', d.a, ob.meta)), list_append(I, r, a[0]))[1],
                            lambda: (I.put(r.oid, N.Obj('list', d.b, ob.meta)), list_append(I, r, a[0]))[1])
        return list_append(I, r, a[0])
    if name == 'extend':
        for x in items(I, a[0]):
            list_append(I, r, x)
        return None
    if name == 'copy':
        return N.Ref(I.new('list', d))
    if name == 'clear':
        I.put(r.oid, N.Obj('list', (), ob.meta))
        return None
    if isinstance(d, SeqData) and name == 'pop' and not a:
        I.put(r.oid, N.Obj('list', SeqData(d.n - ONE, d.at), ob.meta))
        return d.at(d.n - ONE)
    if not isinstance(d, tuple):
        raise Unsupported('list.%s of a list of symbolic content' % name)
    l = list(d)
    if name == 'insert':
        i = a[0].as_int()
        if i is None:
            raise Unsupported('list.insert at a symbolic position')
        l.insert(i, a[1])
    elif name == 'pop':
        i = a[0].as_int() if a else -1
        if i is None:
            raise Unsupported('list.pop at a symbolic position')
        if not l:
            I.raise_('IndexError', 'pop from empty list')
        v = l.pop(i)
        I.put(r.oid, N.Obj('list', tuple(l), ob.meta))
        return v
    elif name == 'remove':
        i = seq_index(I, l, a[0]).as_int()
        if i is None:
            raise Unsupported('list.remove')
        del l[i]
    elif name == 'index':
        return seq_index(I, l, a[0])
    elif name == 'count':
        return C(sum(1 for x in l if value_eq(I, x, a[0]).op == 'true'))
    elif name == 'reverse':
        l.reverse()
    elif name == 'sort':
        s = sorted_(I, (r,), kw)
        l = list(I.obj(s).data)
    else:
        raise Unsupported('list.' + name)
    I.put(r.oid, N.Obj('list', tuple(l), ob.meta))
    return None


def dict_meth(I, r, ob, name, a, kw):
    from .lib import dict_get
    d = ob.data
    if name == 'get':
        v = I.resolve(dict_get(I, r, a[0]))
        df = arg_(a, kw, 1, 'default')
        if v is UNDEF:
            return df
        if N.has_undef(v):
            c, val = N.undef_cond(v)
            return merge_val(c, df, val)
        return v
    if name in ('keys', 'values', 'items'):
        if any(N.has_undef(v) for k, v in d.values()):
            raise Unsupported('iteration over an undetermined dictionary')
        if name == 'keys':
            return tuple(k for k, v in d.values())
        if name == 'values':
            return tuple(v for k, v in d.values())
        return tuple((k, v) for k, v in d.values())
    if name == 'update':
        if a:
            x = a[0]
            if isinstance(x, N.Ref) and I.obj(x).kind == 'dict':
                for k, v in list(I.obj(x).data.values()):
                    setitem(I, r, k, v)
            else:
                for p in items(I, x):
                    k, v = items(I, p)
                    setitem(I, r, k, v)
        for k, v in kw.items():
            setitem(I, r, k, v)
        return None
    if name == 'pop':
        k = dkey(I, a[0])
        if k not in d:
            if len(a) > 1:
                return a[1]
            I.raise_('KeyError', a[0])
        nd = dict(d)
        v = nd.pop(k)[1]
        I.put(r.oid, N.Obj('dict', nd, ob.meta))
        return v
    if name == 'setdefault':
        v = I.resolve(dict_get(I, r, a[0]))
        if v is UNDEF:
            v = a[1] if len(a) > 1 else None
            setitem(I, r, a[0], v)
        elif N.has_undef(v):
            raise Unsupported('setdefault on an undetermined key')
        return v
    if name == 'copy':
        return N.Ref(I.new('dict', dict(d), ob.meta))
    if name == 'clear':
        I.put(r.oid, N.Obj('dict', {}, ob.meta))
        return None
    raise Unsupported('dict.' + name)


def set_meth(I, r, ob, name, a, kw):
    d = ob.data
    if name == 'add':
        if not any(value_eq(I, x, a[0]).op == 'true' for x in d):
            I.put(r.oid, N.Obj('set', d + (a[0],), ob.meta))
        return None
    if name == 'update':
        n = mkset(I, d + tuple(items(I, a[0])))
        I.put(r.oid, N.Obj('set', I.obj(n).data, ob.meta))
        return None
    if name in ('discard', 'remove'):
        I.put(r.oid, N.Obj('set', tuple(x for x in d if value_eq(I, x, a[0]).op != 'true'), ob.meta))
        return None
    if name == 'copy':
        return N.Ref(I.new('set', d))
    if name == 'union':
        return mkset(I, d + tuple(items(I, a[0])))
    raise Unsupported('set.' + name)


def arr_meth(I, v, name, a, kw):
    if name == 'fill':
        x = a[0]
        write_view(I, v, lambda idx: x)
        return None
    if name == 'copy':
        return to_array(I, v)
    if name == 'reshape':
        sh = a[0] if len(a) == 1 and not isnum(a[0]) else tuple(a)
        if isnum(sh):
            sh = (sh,)
        if kw.get('order', 'C') == 'F':
            return call_ext(I, 'numpy.reshape', (v, sh), kw)
        return call_ext(I, 'numpy.reshape', (v, sh), {})
    if name == 'dot':
        return matmul(I, v, a[0])
    if name == 'transpose':
        if not a:
            return transpose_view(v)
        ax = a[0] if len(a) == 1 and not isnum(a[0]) else tuple(a)
        return call_ext(I, 'numpy.transpose', (v, ax), {})
    if name in ('flatten',):
        return to_array(I, call_ext(I, 'numpy.ravel', (v,) + tuple(a), kw))
    if name == 'astype':
        return to_array(I, v, dtype_of(I, a[0]))
    if name == 'tolist':
        def conv(shape, pre):
            n = shape[0].as_int()
            if n is None:
                raise Unsupported('tolist of a symbolic array')
            if len(shape) == 1:
                return I.list_([g(tuple(pre + [C(i)])) for i in range(n)])
            return I.list_([conv(shape[1:], pre + [C(i)]) for i in range(n)])
        g = I.getter(v)
        if v.ndim == 1 and v.shape[0].as_int() is None:
            return N.Ref(I.new('list', SeqData(v.shape[0], lambda j: g((j,)))))
        return conv(v.shape, [])
    if name == 'item':
        if not a:
            return I.getter(v)(tuple(ZERO for _ in v.shape))
        return getitem(I, v, tuple(a) if len(a) > 1 else a[0])
    if name in ('conj', 'conjugate', 'view'):
        return v
    if name == 'setflags':
        return None
    if name == 'put':
        setitem(I, v, a[0], a[1])
        return None
    if name == 'sort':
        r = call_ext(I, 'numpy.sort', (v,) + tuple(a), kw)
        g = I.getter(r)
        write_view(I, v, g)
        return None
    full = 'numpy.' + name
    return call_ext(I, full, (v,) + tuple(a), kw)


def call_value(I, f, a, kw):
    if isinstance(f, LegPoly):
        return NP.leg_call(I, f, a[0])
    if isinstance(f, Opaque):
        m = _re.match(r'(proc#\d+)\.(wait|communicate|poll)$', f.name)
        if m:
            I.event('waited', m.group(1), m.group(2))
            if m.group(2) != 'communicate':
                return sym(I.fresh('rc'), isint=True)
        I.uid += 1
        return Opaque('%s()#%d' % (f.name, I.uid))
    if isinstance(f, N.Stale):
        raise Unsupported('use of %s' % f.what)
    if isinstance(f, N.ExcV):
        return f
    if f is None or isinstance(f, (str, bytes, bool, int, float, Fraction, Rat, Cond, tuple, AStr, View)):
        I.raise_('TypeError', 'object is not callable')
    if isinstance(f, N.Ref) and getattr(I.st.heap.get(f.oid), 'kind', None) in ('list', 'dict', 'set'):
        I.raise_('TypeError', 'object is not callable')
    raise Unsupported('call of %r' % (f,))
