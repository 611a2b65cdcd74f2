"""Models of the Python built-ins and of the part of numpy / the standard
library the repository (or a plausible rewriting of it) uses."""
import ast
from fractions import Fraction
from .alg import *
from . import alg
from .arr import *
from . import arr as A
from . import interp as N
from . import strs, rex
from .strs import AStr, Fmt, Tok, mkstr
from .loops import SeqData, PreList, Plan, mk_red
from .legendre import LegPoly, leg_poly_eval
from . import legendre as LG


class RangeV:
    __slots__ = ('start', 'stop', 'step')

    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step

    def __eq__(self, o):
        return isinstance(o, RangeV) and self.start.eq(o.start) and self.stop.eq(o.stop) \
            and self.step == o.step

    def n(self):
        d = self.stop - self.start
        st = self.step
        if st < 0:
            d, st = -d, -st
        if signs(d) <= {-1, 0}:
            return ZERO
        f = floordiv(d + C(st - 1), st)
        if f is None:
            raise Unsupported('length of range(%s, %s, %d)' % (show(self.start), show(self.stop), self.step))
        if signs(f[0]) <= {0, 1}:
            return f[0]
        return rmax(f[0], ZERO)

    def get(self, j):
        return self.start + j.scale(self.step)


class SeqView:
    """lazy enumerate / zip / reversed / map of sequences"""
    __slots__ = ('n', 'get')

    def __init__(self, n, get):
        self.n, self.get = n, get


class Masked:
    """elements of an array selected by a boolean mask (order preserved)"""
    __slots__ = ('shape', 'mask', 'get', 'dtype')

    def __init__(self, shape, mask, get, dtype='f'):
        self.shape, self.mask, self.get, self.dtype = shape, mask, get, dtype


class IdxSet:
    """the set of indices selected by a mask, plus a constant offset"""
    __slots__ = ('n', 'mask', 'off', 'dims', 'scale')

    def __init__(self, n, mask, off=ZERO, dims=1, scale=1):
        self.n, self.mask, self.off, self.dims, self.scale = n, mask, off, dims, scale


class IdxUnion:
    """several index sets, one after the other"""
    __slots__ = ('parts',)

    def __init__(self, parts):
        self.parts = tuple(q for x in parts for q in (x.parts if isinstance(x, IdxUnion) else (x,)))


class IdxCol:
    """an index set as a column, to be combined with a row of offsets"""
    __slots__ = ('set',)

    def __init__(self, s):
        self.set = s


class Filtered:
    """a list of the elements of a sequence that satisfy a condition (order preserved)"""
    __slots__ = ('n', 'get', 'mask')

    def __init__(self, n, get, mask):
        self.n, self.get, self.mask = n, get, mask

    def count(self, I):
        k = sym(I.fresh('k'), isint=True)
        FACTS.push(k, ZERO, self.n - ONE)
        return mk_red('sum', num(self.mask(k)), k, ZERO, self.n)


class Opaque:
    """an object of an unmodelled library"""

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, Opaque) and o.name == self.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return '<%s>' % self.name


CANON = {
    'numpy.polynomial.Legendre': 'numpy.polynomial.legendre.Legendre',
    'numpy.fabs': 'numpy.abs', 'numpy.absolute': 'numpy.abs', 'numpy.amax': 'numpy.max',
    'numpy.amin': 'numpy.min', 'numpy.math': 'math', 'numpy.asarray': 'numpy.array',
    'numpy.ascontiguousarray': 'numpy.array', 'numpy.power': 'numpy.power',
    'numpy.concat': 'numpy.concatenate', 'numpy.float': 'builtins.float',
    'numpy.core.numeric': 'numpy', 'scipy.zeros': 'numpy.zeros', 'math.fabs': 'numpy.abs',
    'math.sqrt': 'numpy.sqrt', 'math.sin': 'numpy.sin', 'math.cos': 'numpy.cos',
    'math.tanh': 'numpy.tanh', 'math.exp': 'numpy.exp', 'math.log': 'numpy.log',
    'math.pi': 'numpy.pi', 'math.isnan': 'numpy.isnan', 'math.pow': 'numpy.power',
    'math.inf': 'numpy.inf', 'math.nan': 'numpy.nan', 'numpy.float_power': 'numpy.power',
    'numpy.true_divide': 'numpy.divide', 'math.prod': 'numpy.prod', 'math.isinf': 'numpy.isinf',
    'math.isfinite': 'numpy.isfinite', 'scipy.special.factorial': 'math.factorial',
    'numpy.arcsin': 'numpy.arcsin', 'builtins.IOError': 'builtins.OSError',
    'numpy.row_stack': 'numpy.vstack', 'numpy.NaN': 'numpy.nan', 'numpy.fmax': 'numpy.maximum',
    'numpy.fmin': 'numpy.minimum', 'numpy.round_': 'numpy.round', 'numpy.product': 'numpy.prod',
    'numpy.alltrue': 'numpy.all', 'numpy.sometrue': 'numpy.any',
    'scipy.linalg.inv': 'numpy.linalg.inv', 'scipy.linalg.solve': 'numpy.linalg.solve',
}


def canon(name):
    if name in CANON:
        return CANON[name]
    for p in ('numpy.math',):
        if name.startswith(p + '.'):
            return canon('math' + name[len(p):])
    if name.startswith('numpy.polynomial.legendre.') or name.startswith('numpy.linalg.'):
        return name
    return name


CONSTS = {
    'numpy.pi': lambda: sym('pi', pos=True),
    'numpy.nan': lambda: sym('nan'),
    'numpy.inf': lambda: sym('inf', pos=True),
    'numpy.newaxis': lambda: None,
    'numpy.e': lambda: sym('e', pos=True),
}

EXT = {}


def ext(*names):
    def d(f):
        for n in names:
            EXT[n] = f
        return f
    return d


# --------------------------------------------------------------------------
# scalars
# --------------------------------------------------------------------------
def num(x):
    if isinstance(x, Cond):
        return ite(x, ONE, ZERO)
    return x


def isnum(x):
    return isinstance(x, (Rat, Cond))


def float_literal(I, e, env):
    src = I.src.get(env.path)
    if src is not None:
        line = src[0].split('\n')[e.lineno - 1].encode()
        if e.end_lineno == e.lineno:
            t = line[e.col_offset:e.end_col_offset].decode()
            try:
                return C(Fraction(t.replace('_', '').rstrip('.') if t.endswith('.') else t.replace('_', '')))
            except ValueError:
                try:
                    from decimal import Decimal
                    return C(Fraction(Decimal(t.replace('_', ''))))
                except Exception:
                    pass
    v = e.value
    if v != v or v in (float('inf'), float('-inf')):
        return sym('inf', pos=True) if v > 0 else -sym('inf', pos=True)
    return C(Fraction(repr(v)))


def trunc_int(x):
    if is_intlike(x):
        return x
    c = x.as_const()
    if c is not None:
        return C(int(c))
    return fn('int', x, isint=True)


def sfun(name, x):
    """elementary functions with parity"""
    x = num(x)
    c = x.as_const()
    if name == 'sqrt':
        return power(x, Fraction(1, 2))
    if name == 'abs':
        return rabs(x)
    if name == 'square':
        return x * x
    if name == 'negative':
        return -x
    if name == 'positive':
        return x
    if name == 'reciprocal':
        return ONE / x
    if name == 'cbrt':
        return power(x, Fraction(1, 3))
    if name == 'sign':
        return ite(cgt(x, ZERO), ONE, ite(clt(x, ZERO), C(-1), ZERO))
    if c == 0 and name in ('sin', 'tan', 'sinh', 'tanh', 'arctan', 'arcsin'):
        return ZERO
    if c == 0 and name in ('cos', 'exp', 'cosh'):
        return ONE
    if c == 1 and name == 'log':
        return ZERO
    if name in ('sin', 'tan', 'sinh', 'tanh', 'arctan', 'arcsin', 'cos', 'cosh'):
        neg = _negated(x)
        if neg:
            x = -x
        if name in ('sin', 'cos'):
            k = _pi_multiple(x)
            if k is not None and (2 * k).denominator == 1:
                t = int(2 * k) % 4
                if name == 'cos':
                    return C((1, 0, -1, 0)[t])
                return C((0, 1, 0, -1)[t] * (-1 if neg else 1))
        r = fn(name, x)
        return -r if neg and name not in ('cos', 'cosh') else r
    if name == 'exp':
        return fn('exp', x, pos=True)
    if name == 'isnan':
        return cisnan(x)
    if name == 'isfinite':
        return cnot(cisnan(x))
    if name == 'isinf':
        return FALSE
    if name in ('floor', 'ceil', 'rint', 'trunc', 'round'):
        if is_intlike(x):
            return x
        if c is not None:
            import math
            return C({'floor': math.floor, 'ceil': math.ceil, 'rint': round, 'round': round,
                      'trunc': math.trunc}[name](c))
        if name in ('floor', 'ceil') and not x.den:
            # the integer part moves out
            whole = Rat({m: k for m, k in x.num.items() if k.denominator == 1 and
                         is_intlike(Rat({m: k}))})
            k = x.num.get((), F0)
            if k.denominator != 1:
                whole = whole + C(k.numerator // k.denominator)
            if not whole.is_zero():
                return whole + sfun(name, x - whole)
        return fn(name, x, isint=True)
    return fn(name, x)


def _pi_multiple(x):
    s = x.single()
    if s is None:
        return Fraction(0) if x.is_zero() else None
    c, m = s
    if len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind == 'sym' \
            and ATOMS[m[0][0]].args[0] == 'pi':
        return c
    return None


def _negated(x):
    if not x.num:
        return False
    lead = max(x.num)
    return x.num[lead] < 0


UFUNC1 = {'numpy.' + n: n for n in (
    'sqrt', 'abs', 'square', 'negative', 'positive', 'reciprocal', 'cbrt', 'sign', 'sin', 'cos',
    'tan', 'sinh', 'cosh', 'tanh', 'arctan', 'arcsin', 'arccos', 'exp', 'log', 'log10', 'log2',
    'isnan', 'isfinite', 'isinf', 'floor', 'ceil', 'rint', 'trunc', 'expm1', 'log1p')}
UFUNC2 = {'numpy.add': 'Add', 'numpy.subtract': 'Sub', 'numpy.multiply': 'Mult',
          'numpy.divide': 'Div', 'numpy.power': 'Pow', 'numpy.maximum': 'max',
          'numpy.minimum': 'min', 'numpy.greater': 'Gt', 'numpy.less': 'Lt',
          'numpy.greater_equal': 'GtE', 'numpy.less_equal': 'LtE', 'numpy.equal': 'Eq',
          'numpy.not_equal': 'NotEq', 'numpy.logical_and': 'and', 'numpy.logical_or': 'or',
          'numpy.bitwise_and': 'BitAnd', 'numpy.bitwise_or': 'BitOr', 'numpy.mod': 'Mod',
          'numpy.remainder': 'Mod', 'numpy.floor_divide': 'FloorDiv', 'numpy.logical_xor': 'BitXor',
          'numpy.hypot': 'hypot', 'numpy.copysign': 'copysign', 'numpy.arctan2': 'arctan2'}
CMP = ('Lt', 'LtE', 'Gt', 'GtE', 'Eq', 'NotEq')


def sop(op, a, b):
    """scalar operation on numbers / conditions"""
    if op in ('BitAnd', 'BitOr', 'BitXor', 'and', 'or') and isinstance(a, Cond) and isinstance(b, Cond):
        if op in ('BitAnd', 'and'):
            return cand(a, b)
        if op in ('BitOr', 'or'):
            return cor(a, b)
        return cor(cand(a, cnot(b)), cand(cnot(a), b))
    if op in ('and', 'or'):
        ca = a if isinstance(a, Cond) else cnot(ceq(a, ZERO))
        cb = b if isinstance(b, Cond) else cnot(ceq(b, ZERO))
        return cand(ca, cb) if op == 'and' else cor(ca, cb)
    if op in ('Eq', 'NotEq') and isinstance(a, Cond) and isinstance(b, Cond):
        x = cor(cand(a, b), cand(cnot(a), cnot(b)))
        return x if op == 'Eq' else cnot(x)
    if not isnum(a) or not isnum(b):
        raise Unsupported('%s on %r and %r' % (op, a, b))
    a, b = num(a), num(b)
    if op == 'Add':
        return a + b
    if op == 'Sub':
        return a - b
    if op == 'Mult':
        return a * b
    if op == 'Div':
        return a / b
    if op == 'Pow':
        return spow(a, b)
    if op == 'max':
        return rmax(a, b)
    if op == 'min':
        return rmin(a, b)
    if op == 'Lt':
        return clt(a, b)
    if op == 'LtE':
        return cle(a, b)
    if op == 'Gt':
        return cgt(a, b)
    if op == 'GtE':
        return cge(a, b)
    if op == 'Eq':
        return ceq(a, b)
    if op == 'NotEq':
        return cnot(ceq(a, b))
    if op in ('FloorDiv', 'Mod'):
        ca, cb = a.as_const(), b.as_const()
        if cb is not None and cb == 0:
            raise ZeroDivisionError('integer division or modulo by zero')
        if ca is not None and cb is not None:
            q = ca // cb
            return C(q) if op == 'FloorDiv' else C(ca - q * cb)
        if cb is not None and cb > 0 and cb.denominator == 1 and is_intlike(a):
            f = floordiv(a, int(cb))
            if f is not None:
                return f[0] if op == 'FloorDiv' else C(f[1])
        if op == 'FloorDiv':
            return sfun('floor', a / b)
        return a - b * sfun('floor', a / b)
    if op in ('BitAnd', 'BitOr', 'BitXor', 'LShift', 'RShift'):
        x, y = a.as_int(), b.as_int()
        if x is not None and y is not None:
            return C({'BitAnd': x & y, 'BitOr': x | y, 'BitXor': x ^ y}[op] if op[0] == 'B'
                     else (x << y if op == 'LShift' else x >> y))
        if op == 'BitAnd' and y == 1:
            f = floordiv(a, 2)
            if f is not None:
                return C(f[1])
    if op == 'hypot':
        return power(a * a + b * b, Fraction(1, 2))
    raise Unsupported('scalar operation ' + op)


def spow(a, b):
    c = b.as_const()
    if c is not None:
        if c.denominator == 1:
            return a.ipow(int(c))
        return power(a, c)
    if is_intlike(b):
        ca = a.as_const()
        if ca == -1:
            f = floordiv(b, 2)
            if f is not None:
                return C(-1 if f[1] else 1)
            return fn('minusonepow', b)
    return power(a, b)


# --------------------------------------------------------------------------
# arrays
# --------------------------------------------------------------------------
def is_arr(x):
    return isinstance(x, (View, Masked))


def operand(I, x):
    """(shape, getter, dtype) of an elementwise operand"""
    if isinstance(x, View):
        return x.shape, I.getter(x), x.dtype
    if isnum(x):
        return (), (lambda idx: x), ('b' if isinstance(x, Cond) else ('i' if is_intlike(x) else 'f'))
    if isinstance(x, tuple) or (isinstance(x, N.Ref) and I.obj(x).kind == 'list'):
        return operand(I, to_array(I, x))
    if isinstance(x, (SeqView, RangeV)):
        return operand(I, to_array(I, x))
    raise Unsupported('array operand %r' % (x,))


def out_dtype(op, ds):
    if op in CMP or op in ('and', 'or', 'isnan', 'isfinite', 'isinf', 'not'):
        return 'b'
    if op in ('BitAnd', 'BitOr', 'BitXor', 'Invert') and all(d == 'b' for d in ds):
        return 'b'
    if op in ('Div', 'sqrt', 'sin', 'cos', 'tanh', 'exp', 'log'):
        return 'f'
    if all(d in 'ib' for d in ds):
        return 'i'
    return 'f'


def elementwise(I, op, f, *xs):
    if any(isinstance(x, Masked) for x in xs):
        return masked_op(I, op, f, xs)
    ops = [operand(I, x) for x in xs]
    try:
        shape = broadcast_shape([o[0] for o in ops])
    except ValueError as e:
        I.raise_('ValueError', str(e))
    dt = out_dtype(op, [o[2] for o in ops])
    if len(shape) == 0:
        return f(*[o[1](()) for o in ops])
    full = shape

    def at(idx):
        return f(*[o[1](bidx(o[0], full, idx)) for o in ops])
    return I.arr(shape, at, dt)


def masked_op(I, op, f, xs):
    ms = [x for x in xs if isinstance(x, Masked)]
    m0 = ms[0]
    for m in ms[1:]:
        if not same_mask(I, m0, m):
            raise Unsupported('arrays selected by different masks')
    gs = []
    for x in xs:
        if isinstance(x, Masked):
            gs.append(x.get)
        elif isnum(x):
            gs.append(lambda idx, x=x: x)
        else:
            raise Unsupported('masked array combined with an array')
    return Masked(m0.shape, m0.mask, lambda idx: f(*[g(idx) for g in gs]), m0.dtype)


def generic_idx(I, shape, tag='g'):
    out = []
    for d, s in enumerate(shape):
        n = s.as_int()
        g = sym('%s%d' % (tag, d), isint=True)
        FACTS.push(g, ZERO, s - ONE)
        out.append(g)
    return tuple(out)


def same_mask(I, a, b):
    if a.mask is b.mask:
        return True
    if len(a.shape) != len(b.shape) or not all(x.eq(y) for x, y in zip(a.shape, b.shape)):
        return False
    g = generic_idx(I, a.shape, 'mask')
    return a.mask(g).key() == b.mask(g).key()


def write_view(I, v, val, mask=None):
    """store val(idx) into the elements of the view"""
    ob = I.st.heap[v.oid]
    old = ob.data
    conv = (lambda x: x)
    if old.dtype == 'i':
        conv = lambda x: trunc_int(num(x)) if isnum(x) else x
    elif old.dtype == 'f':
        conv = lambda x: num(x) if isinstance(x, Cond) else x
    elif old.dtype == 'b':
        conv = lambda x: cnot(ceq(x, ZERO)) if isinstance(x, Rat) else x
    h = I.hooks.get('write')
    if h is not None:
        h(I, v, I.loc)
    dims = [s.as_int() for s in v.shape]
    if old.dense is not None and all(d is not None for d in dims):
        dense = list(old.dense)
        ok = True
        todo = []
        for idx in A._indices(dims):
            s = v.fwd(idx)
            k = old.flat(s)
            if k is None:
                ok = False
                break
            todo.append((k, idx))
        if ok:
            for k, idx in todo:
                x = conv(val(idx))
                if mask is not None:
                    x = merge_val(mask(idx), x, dense[k])
                dense[k] = x
            I.put(v.oid, N.Obj('sto', Sto(old.shape, None, old.dtype, dense), ob.meta))
            return
    inv = v.inv

    def at(s):
        c, idx = inv(s)
        if c.op == 'false':
            return old.get(s)
        if mask is not None:
            c = cand(c, mask(idx))
            if c.op == 'false':
                return old.get(s)
        x = conv(val(idx))
        if c.op == 'true':
            return x
        return merge_val(c, x, old.get(s))
    I.put(v.oid, N.Obj('sto', A.densify(Sto(old.shape, at, old.dtype)), ob.meta))


def dtype_of(I, d, default='f'):
    if d is None:
        return default
    n = d.name if isinstance(d, N.Ext) else (d if isinstance(d, str) else None)
    if isinstance(d, Opaque):
        n = d.name
    if n is None:
        raise Unsupported('dtype %r' % (d,))
    n = n.split('.')[-1]
    if n.startswith('int') or n.startswith('uint') or n in ('i', 'long', 'i4', 'i8'):
        return 'i'
    if n.startswith('bool') or n == '?':
        return 'b'
    if n.startswith('float') or n in ('double', 'd', 'f8'):
        return 'f'
    if n == 'object':
        return 'O'
    raise Unsupported('dtype ' + n)


def to_shape(I, s):
    if isinstance(s, Rat):
        return (s,)
    return tuple(num(x) for x in items(I, s))


def to_array(I, x, dtype=None):
    """np.array(x) (always a copy)"""
    if isinstance(x, View):
        g = I.getter(x)
        dt = dtype or x.dtype
        return I.arr(x.shape, conv_get(g, x.dtype, dt), dt)
    if isinstance(x, Masked):
        return x
    if isinstance(x, IdxSet):
        return x
    if isnum(x):
        return I.arr((), lambda idx: x, 'f')
    if isinstance(x, RangeV):
        return I.arr((x.n(),), lambda idx: x.get(idx[0]), dtype or 'i')
    if isinstance(x, SeqView):
        if x.n.as_int() is not None:
            return to_array(I, tuple(x.get(C(i)) for i in range(x.n.as_int())), dtype)
        seq = SeqData(x.n, x.get)
    else:
        seq = seq_of(I, x)
    if isinstance(seq, tuple) and len(seq) == 1 and isinstance(seq[0], IdxSet):
        return seq[0]
    n = seq_len(I, seq)
    k = n.as_int()
    if k == 0:
        return I.arr((ZERO,), lambda idx: ZERO, dtype or 'f')
    if k is not None:
        its = [seq_get(I, seq, C(i)) for i in range(k)]
        if any(isinstance(i, Choice) for i in its):
            its = [I.resolve(i) for i in its]
        if all(isnum(i) for i in its):
            dt = dtype or ('b' if all(isinstance(i, Cond) for i in its) else
                           ('i' if all(is_intlike(num(i)) for i in its) else 'f'))
            if dt != 'b':
                its = [num(i) for i in its]
            return I.new_array(Sto((n,), None, dt, its))
        if any(isinstance(i, (Masked, IdxSet)) for i in its):
            raise Unsupported('array of index sets')
        if all(isinstance(i, (str, AStr)) or i is None for i in its):
            return I.new_array(Sto((n,), None, 'O', its))
        subs = [operand(I, i) for i in its]
        sh = subs[0][0]
        for s in subs:
            if len(s[0]) != len(sh) or not all(a.eq(b) for a, b in zip(s[0], sh)):
                I.raise_('ValueError', 'inhomogeneous array')
        dt = dtype or ('f' if any(s[2] == 'f' for s in subs) else subs[0][2])

        def at(idx):
            j = idx[0].as_int()
            if j is not None:
                if not 0 <= j < k:
                    raise IndexError('index out of bounds')
                return subs[j][1](idx[1:])
            out = None
            for j in reversed(range(k)):
                v = subs[j][1](idx[1:])
                out = v if out is None else merge_val(ceq(idx[0], C(j)), v, out)
            return out
        return I.arr((n,) + tuple(sh), at, dt)
    # symbolic length
    probe = seq_get(I, seq, alg.sym(I.fresh('probe'), isint=True))
    if isnum(probe):
        return I.arr((n,), lambda idx: seq_get(I, seq, idx[0]),
                     dtype or ('i' if is_intlike(num(probe)) else 'f'))
    sh, _, dt = operand(I, probe)

    def at2(idx):
        return operand(I, seq_get(I, seq, idx[0]))[1](idx[1:])
    return I.arr((n,) + tuple(sh), at2, dtype or dt)


def conv_get(g, a, b):
    if a == b or b == 'O':
        return g
    if b == 'i':
        return lambda idx: trunc_int(num(g(idx)))
    if b == 'f':
        return lambda idx: num(g(idx))
    if b == 'b':
        return lambda idx: (lambda x: cnot(ceq(x, ZERO)) if isinstance(x, Rat) else x)(g(idx))
    return g


# -------------------------------------------------------------- sequences
def seq_of(I, x):
    if isinstance(x, tuple):
        return x
    if isinstance(x, N.Ref):
        o = I.obj(x)
        if o.kind in ('list', 'set'):
            d = o.data
            if isinstance(d, Choice):
                raise Unsupported('list of undetermined content')
            return d
        if o.kind == 'dict':
            return tuple(k for k, v in o.data.values())
        if o.kind in ('iter', 'file'):
            seq, pos = o.data
            n = seq_len(I, seq)
            I.put(x.oid, N.Obj(o.kind, (seq, n), o.meta))
            k = (n - pos).as_int()
            if k is not None:
                return tuple(seq_get(I, seq, pos + C(i)) for i in range(max(k, 0)))
            return SeqData(n - pos, lambda j: seq_get(I, seq, pos + j))
    if isinstance(x, (SeqData, PreList, View, RangeV, SeqView)):
        return x
    if isinstance(x, (str, AStr)):
        if isinstance(x, str):
            return tuple(x)
    if isinstance(x, IdxSet):
        return x
    if isinstance(x, N.Ref) and I.obj(x).kind == 'inst':
        m = I.obj(x).meta.lookup('__iter__')
        if m is not None:
            return seq_of(I, I.call(N.Bound(m, x), (), {}))
        m = I.obj(x).meta.lookup('__getitem__')
        n = I.obj(x).meta.lookup('__len__')
        if m is not None and n is not None:
            k = num(I.call(N.Bound(n, x), (), {}))
            if k.as_int() is not None:
                return tuple(I.call(N.Bound(m, x), (C(i),), {}) for i in range(k.as_int()))
    if isinstance(x, N.ClassV) and '__members__' in x.attrs:
        return tuple(m for _, m in x.attrs['__members__'])
    raise Unsupported('not a modelled sequence: %r' % (x,))


def seq_len(I, s):
    if isinstance(s, tuple):
        return C(len(s))
    if isinstance(s, SeqData):
        return s.n
    if isinstance(s, View):
        return s.shape[0]
    if isinstance(s, RangeV):
        return s.n()
    if isinstance(s, SeqView):
        return s.n
    if isinstance(s, PreList):
        raise Unsupported('length of a list under construction')
    raise Unsupported('length of %r' % (s,))


def seq_get(I, s, j):
    if isinstance(s, tuple):
        k = j.as_int()
        if k is not None:
            if k < 0:
                k += len(s)
            if not 0 <= k < len(s):
                raise IndexError('sequence index out of range')
            return s[k]
        out = None
        if len(s) > 64 or not s:
            raise Unsupported('symbolic index into a list')
        for i in reversed(range(len(s))):
            out = s[i] if out is None else merge_val(ceq(j, C(i)), s[i], out)
        return out
    if isinstance(s, SeqData):
        return s.at(wrap_index(j, s.n))
    if isinstance(s, View):
        return getitem(I, s, j)
    if isinstance(s, (RangeV, SeqView)):
        return s.get(j)
    raise Unsupported('element of %r' % (s,))


def length(I, x):
    if isinstance(x, (str,)):
        return C(len(x))
    if isinstance(x, AStr):
        return fn('strlen', repr(x), isint=True)
    if isinstance(x, N.Ref):
        o = I.obj(x)
        if o.kind == 'dict':
            if any(N.has_undef(v) for k, v in o.data.values()):
                raise Unsupported('length of an undetermined dictionary')
            return C(len(o.data))
        if o.kind == 'inst':
            m = o.meta.lookup('__len__')
            if m is not None:
                return I.call(N.Bound(m, x), (), {})
        if o.kind in ('iter', 'file'):
            I.raise_('TypeError', 'object has no len()')
    if isinstance(x, View):
        if not x.shape:
            I.raise_('TypeError', 'len() of unsized object')
        return x.shape[0]
    if isinstance(x, Choice):
        return I.lift(lambda y: length(I, y), x)
    if x is None or isnum(x):
        I.raise_('TypeError', 'object has no len()')
    if isinstance(x, Masked):
        raise Unsupported('length of a masked selection')
    if isinstance(x, Filtered):
        return x.count(I)
    return seq_len(I, seq_of(I, x))


def plan(I, it):
    if isinstance(it, Filtered):
        return Plan(it.n, it.get, it.mask)
    if isinstance(it, IdxSet):
        def get(j):
            v = (j.scale(it.scale) + it.off)
            return v if it.dims == 1 else (v,)
        return Plan(it.n, get, lambda j: it.mask((j,)))
    if isinstance(it, N.Ref) and I.obj(it).kind == 'inst':
        m = I.obj(it).meta.lookup('__iter__')
        if m is not None:
            return plan(I, I.call(N.Bound(m, it), (), {}))
    if it is None or isnum(it):
        I.raise_('TypeError', 'object is not iterable')
    s = seq_of(I, it)
    if isinstance(it, N.Ref) and I.obj(it).kind == 'list' and isinstance(s, tuple):
        pass
    return Plan(seq_len(I, s), lambda j: seq_get(I, s, j))


def items(I, v):
    if isinstance(v, tuple):
        return list(v)
    if isinstance(v, Choice):
        raise Unsupported('unpacking of an undetermined value')
    if v is None or isnum(v):
        I.raise_('TypeError', 'object is not iterable')
    p = plan(I, v)
    n = p.n.as_int()
    if n is None or p.guard is not None:
        raise Unsupported('constant-length sequence expected')
    return [p.get(C(i)) for i in range(n)]


def list_append(I, ref, v):
    o = I.obj(ref)
    d = o.data
    if isinstance(d, tuple):
        d = d + (v,)
    elif isinstance(d, PreList):
        d = PreList(d.cid, d.items + (v,))
    elif isinstance(d, SeqData):
        n0, at0 = d.n, d.at

        def at(j):
            c = decide_eq(j, n0)
            if c is True:
                return v
            if c is False:
                return at0(j)
            return merge_val(ceq(j, n0), v, at0(j))
        d = SeqData(n0 + ONE, at)
    else:
        raise Unsupported('append to a list of undetermined content')
    I.put(ref.oid, N.Obj(o.kind, d, o.meta))


def mkset(I, its):
    out = []
    for x in its:
        if not any(same_value(x, y) for y in out):
            out.append(x)
    return N.Ref(I.new('set', tuple(out)))


# -------------------------------------------------------------- operators
def binop(I, op, a, b):
    if op == 'MatMult':
        return matmul(I, a, b)
    if isinstance(a, (IdxSet, IdxUnion, IdxCol)) or isinstance(b, (IdxSet, IdxUnion, IdxCol)):
        return idx_op(I, op, a, b)
    if isinstance(a, (str, AStr)) or isinstance(b, (str, AStr)):
        if op == 'Add' and isinstance(a, (str, AStr)) and isinstance(b, (str, AStr)):
            return mkstr([a, b])
        if op == 'Mod' and isinstance(a, (str, AStr)):
            return percent(I, a, b)
        if op == 'Mult':
            s, n = (a, b) if isinstance(a, (str, AStr)) else (b, a)
            k = n.as_int()
            if k is not None:
                return mkstr([s] * k)
        I.raise_('TypeError', 'unsupported operand types for string %s' % op)
    if isinstance(a, LegPoly) or isinstance(b, LegPoly):
        return LG.poly_op(I, op, a, b)
    if is_arr(a) or is_arr(b):
        return elementwise(I, op, lambda x, y: arr_sop(op, x, y), a, b)
    if isnum(a) and isnum(b):
        return sop(op, a, b)
    la, lb = listy(I, a), listy(I, b)
    if op == 'Add' and la is not None and lb is not None:
        sa, sb = seq_of(I, a), seq_of(I, b)
        if isinstance(sa, tuple) and isinstance(sb, tuple):
            r = sa + sb
            return r if isinstance(a, tuple) else I.list_(r)
        na, nb = seq_len(I, sa), seq_len(I, sb)

        def at(j):
            c = clt(j, na)
            if c.op == 'true':
                return seq_get(I, sa, j)
            if c.op == 'false':
                return seq_get(I, sb, j - na)
            return merge_val(c, seq_get(I, sa, j), seq_get(I, sb, j - na))
        return N.Ref(I.new('list', SeqData(na + nb, at)))
    if op == 'Mult' and (la is not None and isnum(b) or lb is not None and isnum(a)):
        s, n = (a, b) if la is not None else (b, a)
        sq = seq_of(I, s)
        k = num(n).as_int()
        if isinstance(sq, tuple) and k is not None:
            r = sq * k
            return r if isinstance(s, tuple) else I.list_(r)
        if isinstance(sq, tuple) and len(sq) == 1:
            return N.Ref(I.new('list', SeqData(num(n), lambda j: sq[0])))
        raise Unsupported('list repetition')
    if isinstance(a, N.Ref) and I.obj(a).kind == 'inst' or isinstance(b, N.Ref) and I.obj(b).kind == 'inst':
        names = {'Add': 'add', 'Sub': 'sub', 'Mult': 'mul', 'Div': 'truediv', 'Pow': 'pow'}
        n = names.get(op)
        if n and isinstance(a, N.Ref) and I.obj(a).kind == 'inst':
            m = I.obj(a).meta.lookup('__%s__' % n)
            if m is not None:
                return I.call(N.Bound(m, a), (b,), {})
        if n and isinstance(b, N.Ref) and I.obj(b).kind == 'inst':
            m = I.obj(b).meta.lookup('__r%s__' % n)
            if m is not None:
                return I.call(N.Bound(m, b), (a,), {})
    if op in ('BitOr', 'BitAnd', 'Sub') and isinstance(a, N.Ref) and I.obj(a).kind == 'set':
        x, y = I.obj(a).data, I.obj(b).data
        if op == 'BitOr':
            return mkset(I, x + y)
        if op == 'BitAnd':
            return mkset(I, [v for v in x if any(same_value(v, w) for w in y)])
        return mkset(I, [v for v in x if not any(same_value(v, w) for w in y)])
    if op == 'BitOr' and all(isinstance(v, N.Ref) and I.obj(v).kind == 'dict' for v in (a, b)):
        r = N.Ref(I.new('dict', dict(I.obj(a).data)))
        for k, v in I.obj(b).data.values():
            setitem(I, r, k, v)
        return r
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        return Opaque('%s(%r,%r)' % (op, a, b))
    if a is None or b is None:
        I.raise_('TypeError', 'unsupported operand type None')
    if (la is not None and isinstance(b, (View,))) or (lb is not None and isinstance(a, View)):
        return elementwise(I, op, lambda x, y: arr_sop(op, x, y), a, b)
    if (la is not None or lb is not None) and op in ('Sub', 'Div', 'Add', 'Mult', 'Pow'):
        I.raise_('TypeError', 'unsupported operand type(s) for %s' % op)
    raise Unsupported('%s of %r and %r' % (op, a, b))


def arr_sop(op, x, y):
    try:
        return sop(op, x, y)
    except ZeroDivisionError:
        return fn('divzero', num(x))


def listy(I, x):
    if isinstance(x, tuple):
        return 'tuple'
    if isinstance(x, N.Ref) and I.obj(x).kind == 'list':
        return 'list'
    return None


def idx_op(I, op, a, b):
    for x, y in ((a, b), (b, a)):
        if isinstance(x, IdxUnion) and (x is a or op in ('Add', 'Mult')):
            return IdxUnion([idx_op(I, op, q, y) for q in x.parts])
        if isinstance(x, IdxCol) and (x is a or op == 'Add'):
            if isnum(y):
                return IdxCol(idx_op(I, op, x.set, y))
            from .nplib import ravel_
            v = ravel_(I, as_view(I, y))
            n = v.shape[0].as_int()
            if n is not None:
                return IdxUnion([idx_op(I, op, x.set, I.getter(v)((C(i),))) for i in range(n)])
    if isinstance(a, IdxSet) and isnum(b):
        if op == 'Add':
            return IdxSet(a.n, a.mask, a.off + num(b), a.dims, a.scale)
        if op == 'Sub':
            return IdxSet(a.n, a.mask, a.off - num(b), a.dims, a.scale)
        k = num(b).as_int()
        if op == 'Mult' and k is not None:
            return IdxSet(a.n, a.mask, a.off.scale(k), a.dims, a.scale * k)
    if isinstance(b, IdxSet) and isnum(a) and op in ('Add', 'Mult'):
        return idx_op(I, op, b, a)
    raise Unsupported('%s on an index set' % op)


def unary(I, op, v):
    if op == 'USub':
        if isnum(v):
            return -num(v)
        if isinstance(v, View) or isinstance(v, Masked):
            return elementwise(I, 'Sub', lambda x: -num(x), v)
        if isinstance(v, LegPoly):
            return LG.poly_op(I, 'Mult', v, C(-1))
    if op == 'UAdd':
        return v
    if op == 'Invert':
        if isinstance(v, (View, Masked)):
            return elementwise(I, 'Invert', lambda x: cnot(x) if isinstance(x, Cond) else -x - ONE, v)
        if isinstance(v, Cond):
            return cnot(v)
        return -v - ONE
    raise Unsupported('unary %s of %r' % (op, v))


def inplace(I, op, a, b):
    """a op= b: arrays in place, lists extended, the rest rebound"""
    if isinstance(a, View):
        bshape = operand(I, b)[0] if not isinstance(b, Masked) else b.shape
        try:
            sh = broadcast_shape([a.shape, bshape])
        except ValueError as e:
            I.raise_('ValueError', str(e))
        if len(sh) != len(a.shape) or not all(x.eq(y) for x, y in zip(sh, a.shape)):
            I.raise_('ValueError', 'non-broadcastable output operand')
        r = binop(I, op, a, b)
        if isinstance(r, View):
            g = I.getter(r)
            write_view(I, a, g)
        else:
            write_view(I, a, lambda idx: r)
        return a
    if isinstance(a, N.Ref) and I.obj(a).kind == 'list' and op == 'Add':
        for x in items(I, b):
            list_append(I, a, x)
        return a
    return binop(I, op, a, b)


def compare(I, op, a, b):
    if op in ('Is', 'IsNot'):
        r = identical(I, a, b)
        return r if op == 'Is' else cnot(r)
    if op in ('In', 'NotIn'):
        r = contains(I, a, b)
        return r if op == 'In' else cnot(r)
    if is_arr(a) or is_arr(b):
        if isinstance(a, (str, AStr)) or isinstance(b, (str, AStr)) or a is None or b is None:
            return mkbool(op == 'NotEq')
        return elementwise(I, op, lambda x, y: sop(op, x, y), a, b)
    if isnum(a) and isnum(b):
        return sop(op, a, b)
    if isinstance(a, IdxSet) or isinstance(b, IdxSet):
        raise Unsupported('comparison of index sets')
    if op in ('Eq', 'NotEq'):
        r = value_eq(I, a, b)
        return r if op == 'Eq' else cnot(r)
    if isinstance(a, (str, AStr)) and isinstance(b, (str, AStr)):
        if isinstance(a, str) and isinstance(b, str):
            return mkbool({'Lt': a < b, 'LtE': a <= b, 'Gt': a > b, 'GtE': a >= b}[op])
        return cbool('strcmp', op, repr(a), repr(b))
    if isinstance(a, tuple) and isinstance(b, tuple):
        if all(isinstance(x, Rat) and x.as_const() is not None for x in a + b):
            x = tuple(v.as_const() for v in a)
            y = tuple(v.as_const() for v in b)
            return mkbool({'Lt': x < y, 'LtE': x <= y, 'Gt': x > y, 'GtE': x >= y}[op])
    if a is None or b is None or isinstance(a, (str, AStr)) or isinstance(b, (str, AStr)):
        I.raise_('TypeError', '%s not supported between these operands' % op)
    raise Unsupported('comparison %s of %r and %r' % (op, a, b))


def value_eq(I, a, b):
    if isinstance(a, (str, AStr)) and isinstance(b, (str, AStr)):
        return strs.equal(a, b)
    if a is None or b is None:
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return cbool('opq', repr(a), repr(b))
        return mkbool(a is None and b is None)
    if isnum(a) and isnum(b):
        return sop('Eq', a, b)
    la, lb = listy(I, a), listy(I, b)
    if la and lb:
        if la != lb:
            return FALSE
        x, y = seq_of(I, a), seq_of(I, b)
        if isinstance(x, tuple) and isinstance(y, tuple):
            if len(x) != len(y):
                return FALSE
            return cand(*[value_eq(I, p, q) for p, q in zip(x, y)])
        na, nb = seq_len(I, x), seq_len(I, y)
        if decide_eq(na, nb) is False:
            return FALSE
        raise Unsupported('comparison of lists')
    if isinstance(a, Choice) or isinstance(b, Choice):
        return I.lift(lambda x, y: value_eq(I, x, y), a, b)
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        return cbool('opq', repr(a), repr(b))
    if type(a) is not type(b):
        return FALSE
    return mkbool(same_value(a, b))


def identical(I, a, b):
    if a is None or b is None:
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return cbool('opq', repr(a), repr(b))
        return mkbool(a is None and b is None)
    if isinstance(a, Cond) and isinstance(b, Cond):
        return sop('Eq', a, b)
    if isinstance(a, N.Ref) and isinstance(b, N.Ref):
        return mkbool(a == b)
    if isinstance(a, View) and isinstance(b, View):
        return mkbool(a.oid == b.oid and a.same_map(b))
    if isinstance(a, (N.Func, N.ClassV, N.Ext, N.Bound)) or isinstance(b, (N.Func, N.ClassV, N.Ext, N.Bound)):
        return mkbool(same_value(a, b))
    if isinstance(a, (str, AStr)) and isinstance(b, (str, AStr)):
        e = strs.equal(a, b)
        if e.op == 'false':
            return FALSE
        # identity of equal strings is an implementation detail
        return cand(e, cbool('same-object', repr(a), repr(b), '%s:%d' % I.loc))
    if isnum(a) and isnum(b):
        x, y = num(a).as_int(), num(b).as_int()
        if x is not None and y is not None and -5 <= x <= 256:
            return mkbool(x == y)
        return cand(sop('Eq', a, b), cbool('same-object', '%s:%d' % I.loc))
    if type(a) is not type(b):
        return FALSE
    return mkbool(same_value(a, b))


def contains(I, x, c):
    if isinstance(c, (str, AStr)):
        if not isinstance(x, (str, AStr)):
            I.raise_('TypeError', 'string expected')
        return strs.contains(c, x)
    if isinstance(c, N.Ref) and I.obj(c).kind == 'dict':
        k = dkey(I, x)
        d = I.obj(c).data
        if isinstance(k, tuple) and k and k[0] == '?':
            cs = []
            for kk, (key, v) in d.items():
                cs.append(value_eq(I, x, key))
            return cor(*cs)
        if k not in d:
            # symbolic keys inside?
            return FALSE
        if N.has_undef(d[k][1]):
            return cnot(N.undef_cond(d[k][1])[0])
        return TRUE
    if isinstance(c, View):
        g = I.getter(c)
        if c.ndim == 1 and c.shape[0].as_int() is not None:
            return cor(*[value_eq(I, x, g((C(i),))) for i in range(c.shape[0].as_int())])
        raise Unsupported('in array')
    if isinstance(c, RangeV):
        if isinstance(x, Rat) and is_intlike(x) and c.step == 1:
            return cand(cge(x, c.start), clt(x, c.stop))
    s = seq_of(I, c)
    if isinstance(s, tuple):
        return cor(*[value_eq(I, x, y) for y in s])
    n = seq_len(I, s).as_int()
    if n is not None:
        return cor(*[value_eq(I, x, seq_get(I, s, C(i))) for i in range(n)])
    raise Unsupported('membership in %r' % (c,))


# -------------------------------------------------------------- subscripts
def dkey(I, k):
    if isinstance(k, str) or k is None:
        return k
    if isinstance(k, Rat):
        c = k.as_const()
        return c if c is not None else ('?', k.key())
    if isinstance(k, Cond):
        if k.op in ('true', 'false'):
            return Fraction(1 if k.op == 'true' else 0)
        return ('?', k.key())
    if isinstance(k, tuple):
        return ('t',) + tuple(dkey(I, x) for x in k)
    if isinstance(k, AStr):
        return ('?', k)
    if isinstance(k, (N.Func, N.ClassV, N.Ext, N.Ref, N.Bound)):
        return ('o', k)
    raise Unsupported('dictionary key %r' % (k,))


def dict_get(I, ref, k):
    """value or UNDEF / Choice with UNDEF"""
    d = I.obj(ref).data
    kk = dkey(I, k)
    if isinstance(kk, tuple) and kk and kk[0] == '?':
        if kk in d:
            return d[kk][1]
        out = UNDEF
        for key, v in reversed(list(d.values())):
            c = value_eq(I, k, key)
            out = merge_val(c, v, out)
        return out
    if kk in d:
        return d[kk][1]
    return UNDEF


def getitem(I, o, k):
    if isinstance(k, Choice):
        return I.lift(lambda k: getitem(I, o, k), k)
    if isinstance(k, tuple) and any(isinstance(x, Choice) for x in k):
        for i, x in enumerate(k):
            if isinstance(x, Choice):
                return I.lift(lambda y: getitem(I, o, k[:i] + (y,) + k[i + 1:]), x)
    if isinstance(o, rex.ReMatch):
        from .pylib import re_group
        return re_group(I, o, k)
    if isinstance(o, N.Ref):
        ob = I.obj(o)
        if ob.kind == 'dict':
            v = dict_get(I, o, k)
            v = I.resolve(v)
            if v is UNDEF:
                df = ob.meta
                if isinstance(df, tuple) and df and df[0] == 'default':
                    v = I.call(df[1], (), {})
                    setitem(I, o, k, v)
                    return v
                I.raise_('KeyError', k)
            return v
        if ob.kind == 'list':
            d = ob.data
            if isinstance(d, Choice):
                return I.branch(d.c, lambda: _lget(I, d.a, k), lambda: _lget(I, d.b, k))
            return _lget(I, d, k, True)
        if ob.kind == 'inst':
            m = ob.meta.lookup('__getitem__')
            if m is not None:
                return I.call(N.Bound(m, o), (k,), {})
        if ob.kind == 'mgrid':
            return mgrid(I, ob, k)
    if isinstance(o, tuple):
        return _lget(I, o, k)
    if isinstance(o, (SeqData, RangeV, SeqView)):
        return _lget(I, o, k)
    if isinstance(o, (str, AStr)):
        if isinstance(o, str):
            if isinstance(k, SliceV):
                f = lambda v: None if v is None else v.as_int()
                return o[f(k.start):f(k.stop):f(k.step)]
            return o[k.as_int()]
        return str_slice(I, o, k)
    if isinstance(o, View):
        return arr_getitem(I, o, k)
    if isinstance(o, Masked):
        raise Unsupported('indexing a masked selection')
    if isinstance(o, IdxSet):
        if isinstance(k, Rat) and k.is_zero() and o.dims > 1:
            return IdxSet(o.n, o.mask, o.off, o.dims - 1, o.scale)
        kk = k if isinstance(k, tuple) else (k,)
        if o.dims > 1 and isinstance(kk[0], Rat) and kk[0].is_zero():
            return IdxSet(o.n, o.mask, o.off, 1, o.scale)
        if o.dims == 1 and len(kk) == 2 and kk[1] is None and isinstance(kk[0], SliceV) and \
                kk[0].start is kk[0].stop is kk[0].step is None:
            return IdxCol(o)
        raise Unsupported('indexing an index set')
    if isinstance(o, N.ClassV) and '__members__' in o.attrs:
        for n, m in o.attrs['__members__']:
            if n == k:
                return m
        I.raise_('KeyError', k)
    if isinstance(o, N.Ext):
        if o.name == 'numpy.mgrid' and isinstance(k, tuple):
            return I.call(I.prelude('numpy.mgrid_'), (tuple((x.start or ZERO, x.stop) for x in k),), {})
        if o.name == 'numpy.c_':
            return np_c(I, k if isinstance(k, tuple) else (k,))
        if o.name == 'numpy.r_':
            return np_r(I, k if isinstance(k, tuple) else (k,))
        if o.name in ('numpy.s_', 'numpy.index_exp'):
            return k
    if isinstance(o, Opaque):
        return Opaque('%r[...]' % (o,))
    if o is None or isnum(o):
        I.raise_('TypeError', 'object is not subscriptable')
    raise Unsupported('subscript of %r' % (o,))


def _lget(I, d, k, islist=False):
    if isinstance(k, SliceV):
        n = seq_len(I, d)
        if isinstance(d, tuple):
            f = lambda v: None if v is None else v.as_int()
            for v in (k.start, k.stop, k.step):
                if v is not None and v.as_int() is None:
                    raise Unsupported('symbolic slice of a list')
            r = d[f(k.start):f(k.stop):f(k.step)]
            return I.list_(r) if islist else r
        st, sp, ln = norm_slice(k, n)
        return N.Ref(I.new('list', SeqData(ln, lambda j: seq_get(I, d, st + j.scale(sp))))) if islist \
            else SeqView(ln, lambda j: seq_get(I, d, st + j.scale(sp)))
    if isinstance(k, Cond):
        k = num(k)
    if not isinstance(k, Rat):
        I.raise_('TypeError', 'list indices must be integers or slices')
    if isinstance(d, PreList):
        raise Unsupported('read of a list under construction')
    k = wrap_index(k, seq_len(I, d))
    return seq_get(I, d, k)


def str_slice(I, o, k):
    if isinstance(k, SliceV) and k.step is None:
        ps = list(o.parts)
        a = None if k.start is None else k.start.as_int()
        b = None if k.stop is None else k.stop.as_int()
        if (k.start is not None and a is None) or (k.stop is not None and b is None):
            raise Unsupported('string slice')
        if a:
            if a > 0 and isinstance(ps[0], str) and len(ps[0]) >= a:
                ps[0] = ps[0][a:]
            else:
                raise Unsupported('string slice')
        if b is not None:
            if b < 0 and isinstance(ps[-1], str) and len(ps[-1]) >= -b:
                ps[-1] = ps[-1][:b]
            else:
                raise Unsupported('string slice')
        return mkstr(ps)
    raise Unsupported('index into an unknown string')


def norm_keys(I, v, k):
    ks = list(k) if isinstance(k, tuple) else [k]
    for i, x in enumerate(ks):
        if isinstance(x, View) and x.ndim == 0:
            ks[i] = I.getter(x)(())
    n = sum(1 for x in ks if x is not None and x is not Ellipsis)
    if any(x is Ellipsis for x in ks):
        i = [j for j, x in enumerate(ks) if x is Ellipsis][0]
        ks[i:i + 1] = [SliceV(None, None, None)] * (len(v.shape) - n)
    return ks


def arr_getitem(I, v, k):
    if isinstance(k, tuple) and len(k) == 1 and isinstance(k[0], (View, IdxSet)):
        k = k[0]
    ks = norm_keys(I, v, k)
    if len([x for x in ks if x is not None]) > len(v.shape) and not any(
            isinstance(x, View) and x.dtype == 'b' for x in ks):
        I.raise_('IndexError', 'too many indices for array')
    adv = [i for i, x in enumerate(ks) if isinstance(x, (View, IdxSet, Masked)) or listy(I, x)]
    if not adv:
        ks = [num(x) if isinstance(x, Cond) else x for x in ks]
        for x in ks:
            if x is not None and not isinstance(x, (Rat, SliceV)):
                I.raise_('IndexError', 'only integers, slices and arrays are valid indices')
        for x in ks:
            if isinstance(x, Rat) and not is_intlike(x) and x.as_const() is not None:
                I.raise_('IndexError', 'only integers are valid indices')
        r = index_view(v, ks)
        if r.ndim == 0:
            return I.getter(r)(())
        return r
    return fancy_get(I, v, ks, adv)


def fancy_get(I, v, ks, adv):
    if len(adv) > 1:
        # pointwise indexing with several integer arrays
        arrs = [to_array(I, ks[i]) if not isinstance(ks[i], View) else ks[i] for i in adv]
        if all(isinstance(a, View) and a.dtype != 'b' for a in arrs) and len(adv) == len(v.shape) == len(ks):
            shape = broadcast_shape([a.shape for a in arrs])
            gs = [I.getter(a) for a in arrs]
            g = I.getter(v)
            return I.arr(shape, lambda idx: g(tuple(
                wrap_index(gs[j](bidx(arrs[j].shape, shape, idx)), v.shape[j])
                for j in range(len(arrs)))), v.dtype)
        raise Unsupported('fancy indexing on several axes')
    i = adv[0]
    x = ks[i]
    if listy(I, x):
        x = to_array(I, x)
    g = I.getter(v)
    if isinstance(x, IdxSet):
        if len(v.shape) == 1:
            return Masked((x.n,), lambda idx: x.mask(idx),
                          lambda idx: g((idx[0].scale(x.scale) + x.off,)), v.dtype)
        raise Unsupported('index set on a multi-dimensional array')
    if isinstance(x, View) and x.dtype == 'b':
        mg = I.getter(x)
        if x.ndim == len(v.shape) and len(ks) == 1:
            return Masked(v.shape, mg, g, v.dtype)
        # boolean mask on one axis of a larger array
        pre = ks[:i]
        post = ks[i + 1:]
        base = index_view(v, pre + [SliceV(None, None, None)] + post)
        ax = sum(1 for y in pre if not isinstance(y, Rat))
        bg = I.getter(base)
        if base.ndim == 1:
            return Masked(base.shape, mg, bg, v.dtype)
        return Masked(base.shape, lambda idx: mg((idx[ax],)), bg, v.dtype)
    # one integer array
    pre, post = ks[:i], ks[i + 1:]
    base = index_view(v, pre + [SliceV(None, None, None)] + post)
    ax = sum(1 for y in pre if not isinstance(y, Rat))
    bg = I.getter(base)
    xg = I.getter(x)
    n = base.shape[ax]
    shape = base.shape[:ax] + x.shape + base.shape[ax + 1:]
    nd = x.ndim
    return I.arr(shape, lambda idx: bg(idx[:ax] + (wrap_index(xg(idx[ax:ax + nd]), n),) + idx[ax + nd:]),
                 v.dtype)


def setitem(I, o, k, val):
    if isinstance(k, Choice):
        return I.lift(lambda k: setitem(I, o, k, val), k)
    if isinstance(k, tuple) and any(isinstance(x, Choice) for x in k):
        for i, x in enumerate(k):
            if isinstance(x, Choice):
                return I.lift(lambda y: setitem(I, o, k[:i] + (y,) + k[i + 1:], val), x)
    if isinstance(o, N.Ref):
        ob = I.obj(o)
        if ob.kind == 'dict':
            kk = dkey(I, k)
            d = dict(ob.data)
            if isinstance(kk, tuple) and kk and kk[0] == '?' and kk not in d and isinstance(k, Rat):
                # symbolic integer key over existing constant keys
                for q, (key, v) in list(d.items()):
                    d[q] = (key, merge_val(value_eq(I, k, key), val, v))
                I.put(o.oid, N.Obj('dict', d, ob.meta))
                return
            d[kk] = (k, val)
            I.put(o.oid, N.Obj('dict', d, ob.meta))
            return
        if ob.kind == 'list':
            d = ob.data
            if isinstance(k, SliceV):
                f = lambda v: None if v is None else v.as_int()
                l = list(d)
                l[f(k.start):f(k.stop):f(k.step)] = items(I, val)
                I.put(o.oid, N.Obj('list', tuple(l), ob.meta))
                return
            if isinstance(d, tuple):
                j = wrap_index(num(k), C(len(d)))
                i = j.as_int()
                if i is not None:
                    I.put(o.oid, N.Obj('list', d[:i] + (val,) + d[i + 1:], ob.meta))
                else:
                    I.put(o.oid, N.Obj('list', tuple(merge_val(ceq(j, C(q)), val, x)
                                                     for q, x in enumerate(d)), ob.meta))
                return
            if isinstance(d, SeqData) and isinstance(k, Rat):
                j = wrap_index(k, d.n)
                at0 = d.at
                I.put(o.oid, N.Obj('list', SeqData(d.n, lambda q: merge_val(ceq(q, j), val, at0(q))), ob.meta))
                return
            raise Unsupported('assignment into this list')
        if ob.kind == 'inst':
            m = ob.meta.lookup('__setitem__')
            if m is not None:
                return I.call(N.Bound(m, o), (k, val), {})
    if isinstance(o, View):
        return arr_setitem(I, o, k, val)
    if isinstance(o, Opaque):
        return
    if isinstance(o, N.Ext):
        I.event('extset', o, k)
        return
    if isinstance(o, tuple) or o is None or isnum(o):
        I.raise_('TypeError', 'object does not support item assignment')
    raise Unsupported('item assignment on %r' % (o,))


def arr_setitem(I, v, k, val):
    if isinstance(val, (str, AStr)) and v.dtype in ('f', 'i'):
        val = I.lib.parse_num(I, val, 'float' if v.dtype == 'f' else 'int')
    u = k[0] if isinstance(k, tuple) and len(k) == 1 else k
    if isinstance(u, IdxCol):
        u = u.set
        k = u
    if isinstance(u, IdxUnion):
        if not isnum(val):
            raise Unsupported('array value through index sets')
        for q in u.parts:
            arr_setitem(I, v, q, val)
        return
    if isinstance(k, tuple) and len(k) == 1 and isinstance(k[0], (View, IdxSet)):
        k = k[0]
    ks = norm_keys(I, v, k)
    adv = [i for i, x in enumerate(ks) if isinstance(x, (View, IdxSet, Masked)) or listy(I, x)]
    if not adv:
        for x in ks:
            if x is not None and not isinstance(x, (Rat, SliceV, Cond)):
                I.raise_('IndexError', 'only integers, slices and arrays are valid indices')
        if len([x for x in ks if x is not None]) > len(v.shape):
            I.raise_('IndexError', 'too many indices for array')
        t = index_view(v, ks)
        sh, g, dt = operand(I, val)
        try:
            full = broadcast_shape([t.shape, sh])
        except ValueError as e:
            I.raise_('ValueError', str(e))
        if len(full) > len(t.shape) and all(x.eq(ONE) for x in full[:len(full) - len(t.shape)]):
            off = len(full) - len(t.shape)
            sh2 = sh[off:]
            write_view(I, t, lambda idx: g((ZERO,) * off + bidx(sh2, t.shape, idx)))
            return
        if len(full) != len(t.shape) or not all(a.eq(b) for a, b in zip(full, t.shape)):
            I.raise_('ValueError', 'could not broadcast input array into shape (%s)'
                     % ', '.join(show(s) for s in t.shape))
        write_view(I, t, lambda idx: g(bidx(sh, t.shape, idx)))
        return
    if len(adv) > 1:
        raise Unsupported('fancy assignment on several axes')
    i = adv[0]
    x = ks[i]
    if listy(I, x):
        x = to_array(I, x)
    pre, post = ks[:i], ks[i + 1:]
    if isinstance(x, IdxSet):
        base = index_view(v, pre + [SliceV(None, None, None)] + post)
        ax = sum(1 for y in pre if not isinstance(y, Rat))
        n = base.shape[ax]

        def mask(idx):
            j = idx[ax] - x.off
            if x.scale != 1:
                f = floordiv(j, x.scale)
                if f is None:
                    raise Unsupported('index set scaling')
                if f[1]:
                    return FALSE
                j = f[0]
            c1, c2 = cge(j, ZERO), clt(j, x.n)
            c = cand(c1, c2)
            if c.op == 'false':
                return FALSE
            m = x.mask((j,))
            return cand(c, m)
        # negative targets count from the end
        if signs(x.off) <= {-1}:
            if x.scale != 1 or x.off.as_int() is None:
                raise Unsupported('index set with a negative offset')
            plain = mask

            def mask(idx):
                j = idx[ax] - n - x.off
                c = cand(cge(j, ZERO), clt(j, x.n), clt(j + x.off, ZERO))
                if c.op != 'false':
                    c = cand(c, x.mask((j,)))
                return cor(plain(idx), c)
        if isinstance(val, Masked):
            raise Unsupported('masked value through an index set')
        if isnum(val):
            write_view(I, base, lambda idx: val, mask)
            return
        raise Unsupported('array value through an index set')
    if isinstance(x, View) and x.dtype == 'b':
        mg = I.getter(x)
        if x.ndim == len(v.shape) and len(ks) == 1:
            base = v
            mask = mg
        else:
            base = index_view(v, pre + [SliceV(None, None, None)] + post)
            ax = sum(1 for y in pre if not isinstance(y, Rat))
            mask = lambda idx: mg((idx[ax],))
        if not x.shape[0].eq(base.shape[0]) and x.ndim == len(base.shape):
            if decide_eq(x.shape[0], base.shape[0]) is False or True:
                I.raise_('IndexError', 'boolean index did not match indexed array')
        if isinstance(val, Masked):
            if not same_mask(I, Masked(base.shape, mask, None), val):
                raise Unsupported('assignment between different masks')
            vg = val.get
            write_view(I, base, lambda idx: vg(idx), mask)
            return
        if isnum(val):
            write_view(I, base, lambda idx: val, mask)
            return
        raise Unsupported('array assigned through a mask')
    if isinstance(x, View):
        # integer index array
        base = index_view(v, pre + [SliceV(None, None, None)] + post)
        ax = sum(1 for y in pre if not isinstance(y, Rat))
        n = x.shape[0].as_int()
        xg = I.getter(x)
        if x.ndim == 1 and n is not None:
            sh, g, dt = operand(I, val)
            for q in range(n):
                t = index_view(base, [SliceV(None, None, None)] * ax + [xg((C(q),))])
                tsh = base.shape[:ax] + (C(n),) + base.shape[ax + 1:]
                write_view(I, t, lambda idx: g(bidx(sh, tsh, idx[:ax] + (C(q),) + idx[ax:])))
            return
        if x.ndim == 1:
            # affine index arrays (arange-like)
            q = sym(I.fresh('q'), isint=True)
            FACTS.push(q, ZERO, x.shape[0] - ONE)
            e = xg((q,))
            af = affine(e)
            (m, c), = q.num.items()
            ck = af[0].get(m[0][0]) if af else None
            if ck and Fraction(ck).denominator == 1 and ck > 0:
                st = subst(e, {q: ZERO})
                if (e - st - q.scale(ck)).is_zero():
                    t = index_view(base, [SliceV(None, None, None)] * ax +
                                   [SliceV(st, st + x.shape[0].scale(ck) - C(int(ck) - 1), C(int(ck)))])
                    sh, g, dt = operand(I, val)
                    write_view(I, t, lambda idx: g(bidx(sh, t.shape, idx)))
                    return
        raise Unsupported('assignment through an index array')
    raise Unsupported('assignment index')


def delitem(I, o, k):
    if isinstance(o, N.Ref):
        ob = I.obj(o)
        if ob.kind == 'dict':
            d = dict(ob.data)
            kk = dkey(I, k)
            if kk not in d:
                I.raise_('KeyError', k)
            del d[kk]
            I.put(o.oid, N.Obj('dict', d, ob.meta))
            return
        if ob.kind == 'list' and isinstance(ob.data, tuple):
            l = list(ob.data)
            if isinstance(k, SliceV):
                f = lambda v: None if v is None else v.as_int()
                del l[f(k.start):f(k.stop):f(k.step)]
            else:
                del l[k.as_int()]
            I.put(o.oid, N.Obj('list', tuple(l), ob.meta))
            return
    raise Unsupported('del item')


def arrkey(I, v, period=None):
    """canonical value of a whole array: its elements at generic positions"""
    g = I.getter(v)
    period = period or I.period
    axes = []
    for d, s in enumerate(v.shape):
        n = s.as_int()
        if n is not None:
            axes.append([C(i) for i in range(n)])
            continue
        f = floordiv(s, period)
        if f is not None and f[1] == 0:
            q = sym('\u03b9%d_%d' % (d, period), isint=True)
            FACTS.push(q, ZERO, f[0] - ONE)
            axes.append([q.scale(period) + C(r) for r in range(period)])
        else:
            q = sym('\u03b9%d' % d, isint=True)
            FACTS.push(q, ZERO, s - ONE)
            axes.append([q])
    out = []

    def go(i, idx):
        if i == len(axes):
            out.append(g(tuple(idx)))
            return
        for x in axes[i]:
            go(i + 1, idx + [x])
    go(0, [])
    return tuple(v.shape) + tuple(out)


from .nplib import *      # noqa: E402,F401  (registers the numpy models)
from .pylib import *      # noqa: E402,F401


for _n in ('sin', 'tan', 'sinh', 'tanh', 'arctan', 'arcsin', 'cos', 'cosh', 'exp', 'log', 'floor',
           'ceil', 'rint', 'trunc', 'round'):
    REBUILD[_n] = lambda args, at, _n=_n: sfun(_n, args[0])
