"""Models of the numpy functions."""
import math
from fractions import Fraction
from decimal import Decimal
from .alg import *
from . import alg
from .arr import *
from . import arr as A
from . import interp as N
from . import legendre as LG
from .legendre import LegPoly
from .strs import AStr, Fmt, mkstr
from .loops import SeqData, mk_red
from .lib import (ext, num, isnum, elementwise, operand, to_array, to_shape, dtype_of, sop, sfun,
                  UFUNC1, UFUNC2, CMP, Masked, IdxSet, IdxUnion, IdxCol, RangeV, SeqView, Opaque, EXT, items,
                  write_view, arr_sop, is_arr, listy, generic_idx, conv_get, masked_op, same_mask,
                  seq_of, seq_len, seq_get, trunc_int)

__all__ = ['matmul', 'mgrid', 'np_c', 'np_r', 'reduce_', 'as_view', 'const_rows', 'arg_']


def arg_(args, kw, i, name, default=None):
    if len(args) > i:
        return args[i]
    return kw.get(name, default)


def known(kw, *names):
    bad = [k for k in kw if k not in names]
    if bad:
        raise Unsupported('keyword argument %s' % bad[0])


def as_view(I, x):
    if isinstance(x, View):
        return x
    r = to_array(I, x)
    if not isinstance(r, View):
        raise Unsupported('array expected, not %r' % (r,))
    return r


def const_int(x, what='axis'):
    k = num(x).as_int() if isnum(x) else None
    if k is None:
        raise Unsupported('%s is not a constant' % what)
    return k


# ------------------------------------------------------------- constructors
def _filled(I, shape, v, dt):
    return I.new_array(A.full(shape, v, dt))


@ext('numpy.zeros')
def zeros(I, a, kw):
    known(kw, 'shape', 'dtype', 'order')
    dt = dtype_of(I, arg_(a, kw, 1, 'dtype'))
    return _filled(I, to_shape(I, arg_(a, kw, 0, 'shape')), FALSE if dt == 'b' else ZERO, dt)


@ext('numpy.ones')
def ones(I, a, kw):
    known(kw, 'shape', 'dtype', 'order')
    dt = dtype_of(I, arg_(a, kw, 1, 'dtype'))
    return _filled(I, to_shape(I, arg_(a, kw, 0, 'shape')), TRUE if dt == 'b' else ONE, dt)


@ext('numpy.empty')
def empty(I, a, kw):
    known(kw, 'shape', 'dtype', 'order')
    dt = dtype_of(I, arg_(a, kw, 1, 'dtype'))
    shape = to_shape(I, arg_(a, kw, 0, 'shape'))
    tag = I.fresh('uninit')
    if dt == 'b':
        return I.arr(shape, lambda idx: cbool('uninit', tag, tuple(idx)), dt)
    return I.arr(shape, lambda idx: fn('uninit', tag, tuple(idx)), dt)


@ext('numpy.full')
def full_(I, a, kw):
    known(kw, 'shape', 'fill_value', 'dtype', 'order')
    v = arg_(a, kw, 1, 'fill_value')
    d = 'b' if isinstance(v, Cond) else ('i' if isnum(v) and is_intlike(v) else 'f')
    dt = dtype_of(I, arg_(a, kw, 2, 'dtype'), d)
    if not isnum(v):
        vv = as_view(I, v)
        shape = to_shape(I, arg_(a, kw, 0, 'shape'))
        g = I.getter(vv)
        return I.arr(shape, lambda idx: g(bidx(vv.shape, shape, idx)), vv.dtype)
    if dt == 'i':
        v = trunc_int(num(v))
    return _filled(I, to_shape(I, arg_(a, kw, 0, 'shape')), v, dt)


def _like(name, base):
    def f(I, a, kw):
        v = as_view(I, a[0])
        k = {'dtype': kw['dtype']} if 'dtype' in kw else {'dtype': {'f': 'float', 'i': 'int', 'b': 'bool',
                                                                   'O': 'object'}[v.dtype]}
        sh = kw.get('shape')
        sh = v.shape if sh is None else to_shape(I, sh)
        if name == 'full_like':
            return base(I, (sh, arg_(a, kw, 1, 'fill_value')), k)
        return base(I, (sh,), k)
    EXT['numpy.' + name] = f


_like('zeros_like', zeros)
_like('ones_like', ones)
_like('empty_like', empty)
_like('full_like', full_)


@ext('numpy.array', 'numpy.asarray', 'numpy.asanyarray')
def array(I, a, kw):
    known(kw, 'dtype', 'copy', 'order', 'ndmin')
    dt = arg_(a, kw, 1, 'dtype')
    r = to_array(I, a[0], None if dt is None else dtype_of(I, dt))
    nd = kw.get('ndmin')
    if nd is not None and isinstance(r, View):
        while r.ndim < nd.as_int():
            r = index_view(r, [None] + [SliceV(None, None, None)] * r.ndim)
    return r


def asarray_(I, a, kw):
    if isinstance(a[0], View) and arg_(a, kw, 1, 'dtype') is None:
        return a[0]
    return array(I, a, kw)


EXT['numpy.asarray'] = asarray_


@ext('numpy.copy')
def copy_(I, a, kw):
    return to_array(I, a[0])


@ext('numpy.arange')
def arange(I, a, kw):
    known(kw, 'dtype', 'start', 'stop', 'step')
    v = [num(x) for x in a]
    step = kw.get('step', ONE)
    if len(v) == 0:
        lo, hi = kw.get('start', ZERO), kw['stop']
    elif len(v) == 1 and 'stop' not in kw:
        lo, hi = ZERO, v[0]
    else:
        lo, hi = v[0], v[1] if len(v) > 1 else kw['stop']
        if len(v) > 2:
            step = v[2]
    st = step.as_const()
    if st == 0:
        raise Unsupported('arange step')
    dt = 'f'
    if st is not None and is_intlike(lo) and is_intlike(hi) and st.denominator == 1:
        r = RangeV(lo, hi, int(st))
        n = r.n()
        dt = 'i'
    elif None not in (lo.as_const(), hi.as_const(), st):
        # the number of elements is the ceiling of the quotient in double precision
        n = C(max(0, math.ceil((float(hi.as_const()) - float(lo.as_const())) / float(st))))
    else:
        # a computed quotient: where it is a whole number, rounding decides between two lengths
        q = (hi - lo) / step
        for c in (ZERO, HALF, C(Fraction(1, 4)), C(Fraction(1, 3))):
            for s in (c, -c):
                if is_intlike(q - s):
                    break
            else:
                continue
            break
        else:
            raise Unsupported('arange length')
        n = q - s
        if s.as_const() > 0:
            n = n + ONE
        elif s.is_zero():
            extra = sym(I.fresh('rounding'), isint=True)
            FACTS.push(extra, ZERO, ONE)
            n = n + extra
    dt = dtype_of(I, kw.get('dtype'), dt)
    return I.arr((n,), lambda idx: lo + idx[0] * step, dt)


@ext('numpy.linspace')
def linspace(I, a, kw):
    known(kw, 'start', 'stop', 'num', 'endpoint', 'retstep', 'dtype', 'axis')
    lo, hi = num(arg_(a, kw, 0, 'start')), num(arg_(a, kw, 1, 'stop'))
    n = num(arg_(a, kw, 2, 'num', C(50)))
    ep = I.truth(arg_(a, kw, 3, 'endpoint', TRUE))
    rs = I.truth(arg_(a, kw, 4, 'retstep', FALSE))
    div = n - ONE if ep.op == 'true' else n
    I.maybe_raise(clt(n, ZERO), 'ValueError', 'Number of samples must be non-negative')
    step = None
    if decide_eq(div, ZERO) is not True:
        step = (hi - lo) / div

    def at(idx):
        if step is None:
            return lo
        return lo + idx[0] * step
    r = I.arr((n,), at, 'f')
    if rs.op == 'true':
        return (r, step if step is not None else sym('nan'))
    return r


@ext('numpy.eye', 'numpy.identity')
def eye(I, a, kw):
    known(kw, 'N', 'M', 'k', 'n', 'dtype')
    n = num(a[0])
    m = num(arg_(a, kw, 1, 'M')) if arg_(a, kw, 1, 'M') is not None else n
    k = num(arg_(a, kw, 2, 'k', ZERO))

    def at(idx):
        return merge_val(ceq(idx[1] - idx[0], k), ONE, ZERO)
    return I.arr((n, m), at)


@ext('numpy.diag')
def diag(I, a, kw):
    v = as_view(I, a[0])
    k = const_int(arg_(a, kw, 1, 'k', ZERO))
    g = I.getter(v)
    if v.ndim == 1:
        n = v.shape[0] + C(abs(k))
        off = (C(max(-k, 0)), C(max(k, 0)))

        def at(idx):
            c = ceq(idx[0] - off[0], idx[1] - off[1])
            if c.op == 'false':
                return ZERO
            d = idx[0] - off[0]
            if d.as_int() is not None and (d.as_int() < 0 or signs(v.shape[0] - ONE - d) <= {-1}):
                return ZERO
            return merge_val(c, g((d,)), ZERO)
        return I.arr((n, n), at, v.dtype)
    n, m = v.shape[0].as_int(), v.shape[1].as_int()
    if n is None or m is None:
        raise Unsupported('diag of a matrix of symbolic size')
    r = max(0, min(n - max(-k, 0), m - max(k, 0)))
    return I.new_array(Sto((C(r),), None, v.dtype,
                           [g((C(i + max(-k, 0)), C(i + max(k, 0)))) for i in range(r)]))


EXT['numpy.diagflat'] = diag


@ext('numpy.tri')
def tri(I, a, kw):
    n = num(a[0])
    m = num(arg_(a, kw, 1, 'M', n))
    k = num(arg_(a, kw, 2, 'k', ZERO))
    return I.arr((n, m), lambda idx: merge_val(cle(idx[1] - idx[0], k), ONE, ZERO))


@ext('numpy.tril')
def tril(I, a, kw):
    v = as_view(I, a[0])
    k = num(arg_(a, kw, 1, 'k', ZERO))
    g = I.getter(v)
    return I.arr(v.shape, lambda idx: merge_val(cle(idx[1] - idx[0], k), g(idx), ZERO), v.dtype)


@ext('numpy.triu')
def triu(I, a, kw):
    v = as_view(I, a[0])
    k = num(arg_(a, kw, 1, 'k', ZERO))
    g = I.getter(v)
    return I.arr(v.shape, lambda idx: merge_val(cge(idx[1] - idx[0], k), g(idx), ZERO), v.dtype)


@ext('numpy.vander')
def vander(I, a, kw):
    v = as_view(I, a[0])
    n = num(arg_(a, kw, 1, 'N', v.shape[0]))
    inc = I.truth(arg_(a, kw, 2, 'increasing', FALSE)).op == 'true'
    g = I.getter(v)
    return I.arr((v.shape[0], n), lambda idx: g((idx[0],)).ipow(
        const_int(idx[1] if inc else n - ONE - idx[1], 'power')))


# ------------------------------------------------------------- joining
def join(I, arrs, axis):
    if arrs and all(isinstance(x, (IdxSet, IdxUnion)) for x in arrs):
        return IdxUnion(list(arrs))
    vs = [as_view(I, x) for x in arrs]
    if not vs:
        I.raise_('ValueError', 'need at least one array to concatenate')
    nd = vs[0].ndim
    if axis < 0:
        axis += nd
    if any(v.ndim != nd for v in vs) or axis >= nd:
        I.raise_('ValueError', 'all the input array dimensions must match')
    for v in vs[1:]:
        for d in range(nd):
            if d != axis and not v.shape[d].eq(vs[0].shape[d]):
                I.raise_('ValueError', 'array dimensions must match exactly: %s and %s'
                         % (show(v.shape[d]), show(vs[0].shape[d])))
    gs = [I.getter(v) for v in vs]
    offs = [ZERO]
    for v in vs:
        offs.append(offs[-1] + v.shape[axis])
    shape = vs[0].shape[:axis] + (offs[-1],) + vs[0].shape[axis + 1:]
    dt = 'f' if any(v.dtype == 'f' for v in vs) else vs[0].dtype

    def at(idx):
        j = idx[axis]
        parts = []
        for q, v in enumerate(vs):
            if v.shape[axis].is_zero():
                continue
            lo, hi = cge(j, offs[q]), clt(j, offs[q + 1])
            if q == 0:
                lo = TRUE
            if lo.op == 'false' or hi.op == 'false':
                continue
            parts.append((q, hi))
            if hi.op == 'true':
                break
        if not parts:
            raise IndexError('index out of bounds')
        out = None
        for q, hi in reversed(parts):
            x = gs[q](idx[:axis] + (j - offs[q],) + idx[axis + 1:])
            out = x if out is None else merge_val(hi, x, out)
        return out
    return I.arr(shape, at, dt)


def _seq_arrays(I, x):
    if isinstance(x, View):
        n = x.shape[0].as_int()
        if n is None:
            raise Unsupported('joining a symbolic number of arrays')
        return [index_view(x, [C(i)]) for i in range(n)]
    s = seq_of(I, x)
    n = seq_len(I, s)
    if n.as_int() is None:
        return SeqData(n, lambda j: seq_get(I, s, j))
    return [seq_get(I, s, C(i)) for i in range(n.as_int())]


def atleast(I, x, k, front=True):
    v = as_view(I, x)
    while v.ndim < k:
        sl = [SliceV(None, None, None)] * v.ndim
        v = index_view(v, [None] + sl if front else sl + [None])
    return v


@ext('numpy.concatenate')
def concatenate(I, a, kw):
    known(kw, 'axis')
    ax = arg_(a, kw, 1, 'axis', ZERO)
    s = _seq_arrays(I, a[0])
    if isinstance(s, SeqData):
        return join_sym(I, s, const_int(ax))
    if ax is None:
        return join(I, [ravel_(I, as_view(I, x)) for x in s], 0)
    return join(I, s, const_int(ax))


def join_sym(I, s, axis):
    """concatenation of a symbolic number of arrays of equal constant size"""
    probe = as_view(I, s.at(sym(I.fresh('probe'), isint=True)))
    if axis < 0:
        axis += probe.ndim
    m = probe.shape[axis].as_int()
    if m is None:
        raise Unsupported('concatenation of a symbolic number of arrays')
    shape = probe.shape[:axis] + (s.n.scale(m),) + probe.shape[axis + 1:]

    def at(idx):
        f = floordiv(idx[axis], m)
        if f is None:
            raise Unsupported('concatenation index')
        v = as_view(I, s.at(f[0]))
        return I.getter(v)(idx[:axis] + (C(f[1]),) + idx[axis + 1:])
    return I.arr(shape, at, probe.dtype)


@ext('numpy.hstack')
def hstack(I, a, kw):
    s = _seq_arrays(I, a[0])
    if isinstance(s, SeqData):
        p = as_view(I, s.at(sym(I.fresh('probe'), isint=True)))
        return join_sym(I, s, 0 if p.ndim == 1 else 1)
    if s and all(isinstance(x, (IdxSet, IdxUnion)) for x in s):
        return IdxUnion(s)
    vs = [atleast(I, x, 1) for x in s]
    return join(I, vs, 0 if vs and vs[0].ndim == 1 else 1)


@ext('numpy.vstack')
def vstack(I, a, kw):
    s = _seq_arrays(I, a[0])
    if isinstance(s, SeqData):
        return to_array(I, N.Ref(I.new('list', s)))
    return join(I, [atleast(I, x, 2) for x in s], 0)


@ext('numpy.stack')
def stack(I, a, kw):
    ax = const_int(arg_(a, kw, 1, 'axis', ZERO))
    s = _seq_arrays(I, a[0])
    if isinstance(s, SeqData):
        r = to_array(I, N.Ref(I.new('list', s)))
        nd = r.ndim
        ax = ax % nd
        order = list(range(1, nd))
        order.insert(ax, 0)
        return to_array(I, transpose_view(r, tuple(order)))
    vs = [as_view(I, x) for x in s]
    nd = vs[0].ndim + 1
    ax = ax % nd
    sl = SliceV(None, None, None)
    return join(I, [index_view(v, [sl] * ax + [None] + [sl] * (v.ndim - ax)) for v in vs], ax)


@ext('numpy.column_stack')
def column_stack(I, a, kw):
    s = _seq_arrays(I, a[0])
    if isinstance(s, SeqData):
        p = as_view(I, s.at(sym(I.fresh('probe'), isint=True)))
        if p.ndim == 1:
            return to_array(I, transpose_view(to_array(I, N.Ref(I.new('list', s)))))
        return join_sym(I, s, 1)
    vs = [as_view(I, x) for x in s]
    vs = [index_view(v, [SliceV(None, None, None), None]) if v.ndim == 1 else v for v in vs]
    return join(I, vs, 1)


def np_c(I, ks):
    vs = []
    for x in ks:
        if isinstance(x, SliceV):
            raise Unsupported('np.c_ slice')
        if isinstance(x, str):
            raise Unsupported('np.c_ directive')
        v = as_view(I, x)
        if v.ndim == 0:
            v = index_view(v, [None, None])
        elif v.ndim == 1:
            v = index_view(v, [SliceV(None, None, None), None])
        vs.append(v)
    return join(I, vs, 1)


def np_r(I, ks):
    if ks and all(isinstance(x, (IdxSet, IdxUnion)) for x in ks):
        return IdxUnion(ks)
    vs = []
    for x in ks:
        if isinstance(x, SliceV):
            x = arange(I, (x.start or ZERO, x.stop) + ((x.step,) if x.step is not None else ()), {})
        v = as_view(I, x)
        if v.ndim == 0:
            v = index_view(v, [None])
        vs.append(v)
    return join(I, vs, 0)


def mgrid(I, ob, k):
    raise Unsupported('mgrid')


@ext('numpy.append')
def append_(I, a, kw):
    ax = arg_(a, kw, 2, 'axis')
    if all(isinstance(x, (IdxSet, IdxUnion)) for x in a[:2]):
        return IdxUnion(a[:2])
    if ax is None:
        return join(I, [ravel_(I, as_view(I, a[0])), ravel_(I, as_view(I, a[1]))], 0)
    return join(I, [a[0], a[1]], const_int(ax))


@ext('numpy.insert')
def insert_(I, a, kw):
    v = as_view(I, a[0])
    ax = arg_(a, kw, 3, 'axis')
    pos, val = a[1], arg_(a, kw, 2, 'values')
    if ax is None:
        v = ravel_(I, v)
        ax = 0
    else:
        ax = const_int(ax)
    if not isnum(pos):
        ps = [const_int(x) for x in items(I, pos)]
        if len(ps) != 1:
            vals = items(I, val) if not isnum(val) else [val] * len(ps)
            n = v.shape[ax].as_int()
            if v.ndim != 1 or n is None:
                raise Unsupported('np.insert at several positions')
            g = I.getter(v)
            out = []
            ps = [p + n if p < 0 else p for p in ps]
            order = sorted(range(len(ps)), key=lambda q: ps[q])
            for i in range(n + 1):
                for q in order:
                    if ps[q] == i:
                        out.append(num(vals[q]))
                if i < n:
                    out.append(g((C(i),)))
            return I.new_array(Sto((C(len(out)),), None, v.dtype, out))
        pos = C(ps[0])
    pos = num(pos)
    n = v.shape[ax]
    pos = wrap_index(pos, n, strict=False)
    I.maybe_raise(cgt(pos, n), 'IndexError', 'index out of bounds in insert')
    sl = SliceV(None, None, None)
    left = index_view(v, [sl] * ax + [SliceV(ZERO, pos, None)])
    right = index_view(v, [sl] * ax + [SliceV(pos, n, None)])
    if isnum(val):
        mid = _filled(I, v.shape[:ax] + (ONE,) + v.shape[ax + 1:], num(val), v.dtype)
    else:
        m = as_view(I, val)
        if m.ndim == v.ndim - 1:
            m = index_view(m, [sl] * ax + [None])
        elif m.ndim != v.ndim:
            raise Unsupported('np.insert value')
        mid = m
    r = join(I, [left, mid, right], ax)
    if v.dtype == 'i':
        return to_array(I, r, 'i')
    return r


@ext('numpy.delete')
def delete_(I, a, kw):
    v = as_view(I, a[0])
    ax = arg_(a, kw, 2, 'axis')
    if ax is None:
        v = ravel_(I, v)
        ax = ZERO
    ax = const_int(ax)
    ps = [num(a[1])] if isnum(a[1]) else [num(x) for x in items(I, a[1])]
    n = v.shape[ax]
    sl = SliceV(None, None, None)
    if len(ps) == 1:
        p = wrap_index(ps[0], n)
        return join(I, [index_view(v, [sl] * ax + [SliceV(ZERO, p, None)]),
                        index_view(v, [sl] * ax + [SliceV(p + ONE, n, None)])], ax)
    k = n.as_int()
    if k is None:
        raise Unsupported('np.delete')
    drop = {wrap_index(p, n).as_int() for p in ps}
    keep = [i for i in range(k) if i not in drop]
    if not keep:
        return _filled(I, v.shape[:ax] + (ZERO,) + v.shape[ax + 1:], ZERO, v.dtype)
    return join(I, [index_view(v, [sl] * ax + [SliceV(C(i), C(i + 1), None)]) for i in keep], ax)


# ------------------------------------------------------------- reshaping
def ravel_(I, v):
    return reshape_(I, v, (v.size(),), copy=False)


def reshape_(I, v, shape, copy=False):
    shape = list(shape)
    size = v.size()
    neg = [i for i, s in enumerate(shape) if s.eq(C(-1))]
    if neg:
        rest = ONE
        for i, s in enumerate(shape):
            if i != neg[0]:
                rest = rest * s
        q = size / rest
        if q.den:
            raise Unsupported('reshape to (-1)')
        shape[neg[0]] = q
    tot = ONE
    for s in shape:
        tot = tot * s
    if not tot.eq(size):
        if decide_eq(tot, size) is False:
            I.raise_('ValueError', 'cannot reshape array')
        I.raise_('ValueError', 'cannot reshape array of size %s into %s' % (show(size), show(tot)))
    contiguous = all(s[0] != 'tr' for s in v.sig)
    try:
        r = reshape_view(v, tuple(shape))
    except Unsupported:
        raise
    if contiguous and not v.sig:
        return r
    # numpy may copy: views of non-contiguous arrays are copied when the data
    # cannot be viewed; either way the result is only used for reading or is a
    # fresh array
    g = I.getter(v)
    f, _ = reshape_map(v.shape, tuple(shape))
    if v.sig and not all(s[0] in ('rs',) for s in v.sig):
        return I.arr(tuple(shape), lambda idx: g(f(idx)), v.dtype)
    return r


@ext('numpy.reshape')
def reshape(I, a, kw):
    known(kw, 'newshape', 'shape', 'order')
    if kw.get('order', 'C') != 'C':
        return reshape_f(I, as_view(I, a[0]), to_shape(I, arg_(a, kw, 1, 'newshape')))
    return reshape_(I, as_view(I, a[0]), to_shape(I, arg_(a, kw, 1, 'newshape', kw.get('shape'))))


def reshape_f(I, v, shape):
    t = to_array(I, transpose_view(v))
    r = reshape_(I, t, tuple(reversed(shape)))
    return to_array(I, transpose_view(r))


@ext('numpy.ravel')
def ravel(I, a, kw):
    v = as_view(I, a[0])
    if kw.get('order', 'C') == 'F':
        return ravel_(I, to_array(I, transpose_view(v)))
    return ravel_(I, v)


@ext('numpy.transpose')
def transpose(I, a, kw):
    v = as_view(I, a[0])
    ax = arg_(a, kw, 1, 'axes')
    return transpose_view(v, None if ax is None else tuple(const_int(x) % v.ndim for x in items(I, ax)))


@ext('numpy.swapaxes')
def swapaxes(I, a, kw):
    v = as_view(I, a[0])
    i, j = const_int(a[1]) % v.ndim, const_int(a[2]) % v.ndim
    o = list(range(v.ndim))
    o[i], o[j] = o[j], o[i]
    return transpose_view(v, tuple(o))


@ext('numpy.moveaxis')
def moveaxis(I, a, kw):
    v = as_view(I, a[0])
    i, j = const_int(a[1]) % v.ndim, const_int(a[2]) % v.ndim
    o = [x for x in range(v.ndim) if x != i]
    o.insert(j, i)
    return transpose_view(v, tuple(o))


@ext('numpy.atleast_1d')
def atleast_1d(I, a, kw):
    return atleast(I, a[0], 1)


@ext('numpy.atleast_2d')
def atleast_2d(I, a, kw):
    return atleast(I, a[0], 2)


@ext('numpy.expand_dims')
def expand_dims(I, a, kw):
    v = as_view(I, a[0])
    ax = const_int(arg_(a, kw, 1, 'axis')) % (v.ndim + 1)
    sl = SliceV(None, None, None)
    return index_view(v, [sl] * ax + [None] + [sl] * (v.ndim - ax))


@ext('numpy.squeeze')
def squeeze(I, a, kw):
    v = as_view(I, a[0])
    ks = []
    for s in v.shape:
        ks.append(ZERO if s.eq(ONE) else SliceV(None, None, None))
    r = index_view(v, ks)
    return r


@ext('numpy.broadcast_to')
def broadcast_to(I, a, kw):
    v = as_view(I, a[0])
    sh = to_shape(I, arg_(a, kw, 1, 'shape'))
    g = I.getter(v)
    return I.arr(sh, lambda idx: g(bidx(v.shape, sh, idx)), v.dtype)


@ext('numpy.shape')
def shape_(I, a, kw):
    if isnum(a[0]):
        return ()
    return tuple(as_view(I, a[0]).shape)


@ext('numpy.size')
def size_(I, a, kw):
    if isnum(a[0]):
        return ONE
    v = as_view(I, a[0])
    ax = arg_(a, kw, 1, 'axis')
    return v.size() if ax is None else v.shape[const_int(ax)]


@ext('numpy.ndim')
def ndim_(I, a, kw):
    return ZERO if isnum(a[0]) else C(as_view(I, a[0]).ndim)


@ext('numpy.flip')
def flip(I, a, kw):
    v = as_view(I, a[0])
    ax = arg_(a, kw, 1, 'axis')
    axes = range(v.ndim) if ax is None else [const_int(ax) % v.ndim]
    ks = [SliceV(None, None, C(-1)) if d in axes else SliceV(None, None, None) for d in range(v.ndim)]
    return index_view(v, ks)


EXT['numpy.fliplr'] = lambda I, a, kw: flip(I, (a[0], ONE), {})
EXT['numpy.flipud'] = lambda I, a, kw: flip(I, (a[0], ZERO), {})


@ext('numpy.roll')
def roll(I, a, kw):
    v = as_view(I, a[0])
    ax = arg_(a, kw, 2, 'axis')
    s = num(arg_(a, kw, 1, 'shift'))
    if ax is None:
        if v.ndim != 1:
            raise Unsupported('roll of a flattened array')
        ax = 0
    else:
        ax = const_int(ax) % v.ndim
    n = v.shape[ax]
    k = s.as_int()
    if k is None or (n.as_int() is None and abs(k) > 12):
        raise Unsupported('roll by %s' % show(s))
    sl = SliceV(None, None, None)
    if k >= 0:
        cut = n - C(k)
    else:
        cut = C(-k)
    if n.as_int() is not None:
        cut = C((n.as_int() - k) % n.as_int()) if n.as_int() else ZERO
    return join(I, [index_view(v, [sl] * ax + [SliceV(cut, None, None)]),
                    index_view(v, [sl] * ax + [SliceV(None, cut, None)])], ax)


@ext('numpy.diff')
def diff_(I, a, kw):
    v = as_view(I, a[0])
    n = const_int(arg_(a, kw, 1, 'n', ONE))
    ax = const_int(arg_(a, kw, 2, 'axis', C(-1))) % v.ndim
    sl = SliceV(None, None, None)
    for _ in range(n):
        hi = index_view(v, [sl] * ax + [SliceV(ONE, None, None)])
        lo = index_view(v, [sl] * ax + [SliceV(None, C(-1), None)])
        v = elementwise(I, 'Sub', lambda x, y: num(x) - num(y), hi, lo)
    return v


@ext('numpy.tile')
def tile(I, a, kw):
    v = as_view(I, a[0])
    r = arg_(a, kw, 1, 'reps')
    reps = [num(r)] if isnum(r) else [num(x) for x in items(I, r)]
    while len(reps) < v.ndim:
        reps.insert(0, ONE)
    v = atleast(I, v, len(reps))
    g = I.getter(v)
    for s, q in zip(v.shape, reps):
        if s.as_int() is None and not q.eq(ONE):
            raise Unsupported('tile of a symbolic axis')

    def at(idx):
        out = []
        for i, s, q in zip(idx, v.shape, reps):
            if q.eq(ONE):
                out.append(i)
            else:
                f = floordiv(i, s.as_int())
                if f is None:
                    raise Unsupported('tile index')
                out.append(C(f[1]))
        return g(tuple(out))
    return I.arr(tuple(s * q for s, q in zip(v.shape, reps)), at, v.dtype)


@ext('numpy.repeat')
def repeat(I, a, kw):
    v = as_view(I, a[0])
    r = const_int(arg_(a, kw, 1, 'repeats'), 'repeats')
    ax = arg_(a, kw, 2, 'axis')
    if ax is None:
        v = ravel_(I, v)
        ax = ZERO
    ax = const_int(ax) % v.ndim
    g = I.getter(v)

    def at(idx):
        f = floordiv(idx[ax], r)
        if f is None:
            raise Unsupported('repeat index')
        return g(idx[:ax] + (f[0],) + idx[ax + 1:])
    return I.arr(v.shape[:ax] + (v.shape[ax].scale(r),) + v.shape[ax + 1:], at, v.dtype)


# ------------------------------------------------------------- elementwise
def _ufunc1(name):
    def f(I, a, kw):
        known(kw, 'out', 'where', 'dtype')
        x = a[0]
        if isinstance(x, IdxSet):
            raise Unsupported('ufunc of an index set')
        if isinstance(x, (SeqView, RangeV)) or listy(I, x):
            x = to_array(I, x)
        r = elementwise(I, name, lambda v: sfun(name, v), x)
        out = kw.get('out', a[1] if len(a) > 1 else None)
        return put_out(I, r, out, kw.get('where'))
    return f


def put_out(I, r, out, where=None):
    if out is None:
        if where is not None:
            raise Unsupported('where without out')
        return r
    if isinstance(out, tuple):
        out = out[0]
    g = I.getter(r) if isinstance(r, View) else (lambda idx: r)
    m = None
    if where is not None:
        sh, mg, _ = operand(I, where)
        m = lambda idx: mg(bidx(sh, out.shape, idx))
    sh = r.shape if isinstance(r, View) else ()
    write_view(I, out, lambda idx: g(bidx(sh, out.shape, idx)), m)
    return out


def _ufunc2(op):
    def f(I, a, kw):
        known(kw, 'out', 'where', 'dtype', 'x1', 'x2')
        r = elementwise(I, op, lambda x, y: arr_sop(op, x, y), a[0], a[1])
        return put_out(I, r, kw.get('out', a[2] if len(a) > 2 else None), kw.get('where'))
    return f


for _n, _k in UFUNC1.items():
    EXT[_n] = _ufunc1(_k)
for _n, _k in UFUNC2.items():
    EXT[_n] = _ufunc2(_k)


@ext('numpy.logical_not')
def logical_not(I, a, kw):
    return elementwise(I, 'not', lambda x: cnot(x) if isinstance(x, Cond) else ceq(x, ZERO), a[0])


@ext('numpy.clip')
def clip(I, a, kw):
    lo, hi = arg_(a, kw, 1, 'a_min', kw.get('min')), arg_(a, kw, 2, 'a_max', kw.get('max'))
    x = a[0]
    if lo is not None:
        x = elementwise(I, 'max', lambda p, q: rmax(num(p), num(q)), x, lo)
    if hi is not None:
        x = elementwise(I, 'min', lambda p, q: rmin(num(p), num(q)), x, hi)
    return put_out(I, x, kw.get('out'))


@ext('numpy.round')
def round_(I, a, kw):
    d = const_int(arg_(a, kw, 1, 'decimals', ZERO))

    def f(x):
        x = num(x)
        c = x.as_const()
        if c is not None:
            return C(round(c, d))
        return fn('round', x, d)
    return elementwise(I, 'round', f, a[0])


@ext('numpy.where')
def where(I, a, kw):
    if len(a) == 1:
        return nonzero(I, a, kw)
    c, x, y = a
    if not is_arr(c) and not listy(I, c):
        cc = I.truth(c)
        if not is_arr(x) and not is_arr(y) and isnum(x) and isnum(y):
            return merge_val(cc, x, y) if isinstance(x, Cond) == isinstance(y, Cond) else \
                ite(cc, num(x), num(y))

    def f(p, q, r):
        p = p if isinstance(p, Cond) else cnot(ceq(p, ZERO))
        if isinstance(q, Cond) != isinstance(r, Cond):
            q, r = num(q), num(r)
        return merge_val(p, q, r)
    r = elementwise(I, 'where', f, c, x, y)
    if isinstance(r, View):
        d = [operand(I, v)[2] for v in (x, y)]
        if 'f' in d and r.dtype != 'f':
            r = to_array(I, r, 'f')
        elif d == ['b', 'b']:
            r = View(r.oid, r.shape, r.fwd, r.inv, 'b', r.sig)
            o = I.obj(r.oid)
            o.data.dtype = 'b'
    return r


def _mask_of(I, v):
    g = I.getter(v)
    if v.dtype == 'b':
        return g
    return lambda idx: (lambda x: x if isinstance(x, Cond) else cnot(ceq(x, ZERO)))(g(idx))


@ext('numpy.nonzero')
def nonzero(I, a, kw):
    v = as_view(I, a[0])
    if v.ndim != 1:
        raise Unsupported('np.where on a matrix')
    m = _mask_of(I, v)
    return (IdxSet(v.shape[0], m),)


@ext('numpy.flatnonzero')
def flatnonzero(I, a, kw):
    return nonzero(I, a, kw)[0]


@ext('numpy.argwhere')
def argwhere(I, a, kw):
    s = nonzero(I, a, kw)[0]
    return IdxSet(s.n, s.mask, s.off, 2, s.scale)


@ext('numpy.count_nonzero')
def count_nonzero(I, a, kw):
    known(kw, 'axis')
    v = as_view(I, a[0])
    m = _mask_of(I, v)
    b = I.arr(v.shape, lambda idx: ite(m(idx), ONE, ZERO), 'i')
    return reduce_(I, 'sum', b, arg_(a, kw, 1, 'axis'))


@ext('numpy.select')
def select(I, a, kw):
    conds, vals = items(I, a[0]), items(I, a[1])
    d = arg_(a, kw, 2, 'default', ZERO)
    r = d
    for c, v in zip(reversed(conds), reversed(vals)):
        r = where(I, (c, v, r), {})
    return r


@ext('numpy.piecewise')
def piecewise(I, a, kw):
    x = as_view(I, a[0])
    conds = items(I, a[1])
    fs = items(I, a[2])
    r = ZERO
    if len(fs) == len(conds) + 1:
        d = fs[-1]
        r = I.call(d, (x,), {}) if not isnum(d) else d
    for c, f in zip(conds, fs):
        v = f if isnum(f) else I.call(f, (x,), {})
        r = where(I, (c, v, r), {})
    return r


@ext('numpy.put')
def put_(I, a, kw):
    I.lib.setitem(I, a[0], a[1], a[2])


@ext('numpy.putmask')
def putmask(I, a, kw):
    v = a[0]
    sh, mg, _ = operand(I, a[1])
    sv, vg, _ = operand(I, a[2])
    write_view(I, v, lambda idx: vg(bidx(sv, v.shape, idx)), lambda idx: mg(bidx(sh, v.shape, idx)))


@ext('numpy.copyto')
def copyto(I, a, kw):
    v = a[0]
    sv, vg, _ = operand(I, a[1])
    m = None
    if kw.get('where') is not None:
        sh, mg, _ = operand(I, kw['where'])
        m = lambda idx: mg(bidx(sh, v.shape, idx))
    try:
        broadcast_shape([v.shape, sv])
    except ValueError as e:
        I.raise_('ValueError', str(e))
    write_view(I, v, lambda idx: vg(bidx(sv, v.shape, idx)), m)


@ext('numpy.take')
def take(I, a, kw):
    ax = arg_(a, kw, 2, 'axis')
    v = as_view(I, a[0])
    if ax is None:
        v = ravel_(I, v)
        ax = ZERO
    k = const_int(ax) % v.ndim
    return I.lib.getitem(I, v, tuple([SliceV(None, None, None)] * k + [a[1]]))


@ext('numpy.split', 'numpy.array_split')
def split(I, a, kw):
    v = as_view(I, a[0])
    ax = const_int(arg_(a, kw, 2, 'axis', ZERO)) % v.ndim
    sl = SliceV(None, None, None)
    if isnum(a[1]):
        k = const_int(a[1])
        f = floordiv(v.shape[ax], k)
        if f is None or f[1]:
            raise Unsupported('split')
        cuts = [f[0].scale(i) for i in range(1, k)]
    else:
        cuts = [num(x) for x in items(I, a[1])]
    pts = [ZERO] + cuts + [v.shape[ax]]
    return I.list_([index_view(v, [sl] * ax + [SliceV(p, q, None)]) for p, q in zip(pts, pts[1:])])


@ext('numpy.meshgrid')
def meshgrid(I, a, kw):
    vs = [as_view(I, x) for x in a]
    if len(vs) != 2 or kw.get('indexing', 'xy') not in ('xy', 'ij'):
        raise Unsupported('meshgrid')
    g0, g1 = I.getter(vs[0]), I.getter(vs[1])
    if kw.get('indexing', 'xy') == 'xy':
        sh = (vs[1].shape[0], vs[0].shape[0])
        return I.list_([I.arr(sh, lambda i: g0((i[1],))), I.arr(sh, lambda i: g1((i[0],)))])
    sh = (vs[0].shape[0], vs[1].shape[0])
    return I.list_([I.arr(sh, lambda i: g0((i[0],))), I.arr(sh, lambda i: g1((i[1],)))])


@ext('numpy.vectorize')
def vectorize(I, a, kw):
    f = a[0]
    return N.Native(lambda I2, args, k: elementwise_call(I2, f, args), 'vectorized')


def elementwise_call(I, f, args):
    ops = [operand(I, x) for x in args]
    shape = broadcast_shape([o[0] for o in ops])
    dims = [s.as_int() for s in shape]
    if any(d is None for d in dims):
        # one generic element
        q = generic_idx(I, shape, I.fresh('v'))
        n0 = len(I.raised)
        r = I.call(f, tuple(o[1](bidx(o[0], shape, q)) for o in ops), {})
        if not isnum(r):
            raise Unsupported('vectorized function')
        return I.arr(shape, lambda idx: subst(r, dict(zip(q, idx))), 'f')
    out = [I.call(f, tuple(o[1](bidx(o[0], shape, i)) for o in ops), {}) for i in A._indices(dims)]
    if not shape:
        return out[0]
    return I.new_array(Sto(shape, None, 'f', [num(x) for x in out]))


# ------------------------------------------------------------- reductions
RED = {'sum': 'sum', 'max': 'max', 'min': 'min', 'any': 'any', 'all': 'all', 'prod': 'prod',
       'mean': 'mean'}


def reduce_(I, kind, x, axis=None, keepdims=False):
    if isinstance(x, Masked):
        return reduce_masked(I, kind, x)
    if isnum(x):
        return x
    v = as_view(I, x)
    g = I.getter(v)
    nd = v.ndim
    if axis is None:
        axes = list(range(nd))
    elif isinstance(axis, tuple):
        axes = sorted(const_int(t) % nd for t in axis)
    else:
        k = const_int(axis)
        if k >= nd or k < -nd:
            I.raise_('ValueError', 'axis %d is out of bounds' % k)
        axes = [k % nd]
    if kind in ('max', 'min'):
        for d in axes:
            I.maybe_raise(ceq(v.shape[d], ZERO), 'ValueError', 'zero-size array to reduction operation')
    if kind in ('any', 'all'):
        g0 = g
        g = lambda idx: (lambda t: t if isinstance(t, Cond) else cnot(ceq(t, ZERO)))(g0(idx))
    elif kind in ('sum', 'mean', 'prod', 'max', 'min'):
        g1 = g
        g = lambda idx: num(g1(idx))
    keep = [d for d in range(nd) if d not in axes]
    shape = tuple(v.shape[d] for d in keep)

    def at(idx):
        def go(ds, cur):
            if not ds:
                return g(tuple(cur))
            d = ds[0]
            n = v.shape[d].as_int()
            if n is not None:
                vals = []
                for i in range(n):
                    cur[d] = C(i)
                    vals.append(go(ds[1:], cur))
                return fold(kind, vals)
            if kind == 'prod':
                raise Unsupported('product over a symbolic axis')
            k = sym(I.fresh('r'), isint=True)
            FACTS.push(k, ZERO, v.shape[d] - ONE)
            cur[d] = k
            body = go(ds[1:], cur)
            return mk_red('sum' if kind == 'mean' else kind, body, k, ZERO, v.shape[d])
        cur = [None] * nd
        for d, i in zip(keep, idx):
            cur[d] = i
        r = go(axes, cur)
        if kind == 'mean':
            n = ONE
            for d in axes:
                n = n * v.shape[d]
            r = r / n
        return r
    dt = 'b' if kind in ('any', 'all') else ('i' if v.dtype in 'ib' and kind != 'mean' else 'f')
    if keepdims:
        sh2 = tuple(ONE if d in axes else v.shape[d] for d in range(nd))
        return I.arr(sh2, lambda idx: at(tuple(idx[d] for d in keep)), dt)
    if not shape:
        return at(())
    return I.arr(shape, at, dt)


def fold(kind, vals):
    if kind == 'prod':
        r = ONE
        for v in vals:
            r = r * v
        return r
    if kind in ('any', 'all'):
        return cor(*vals) if kind == 'any' else cand(*vals)
    if not vals:
        return ZERO
    r = vals[0]
    for v in vals[1:]:
        r = r + v if kind in ('sum', 'mean') else (rmax(r, v) if kind == 'max' else rmin(r, v))
    return r


def reduce_masked(I, kind, m):
    if kind == 'sum':
        v = I.arr(m.shape, lambda idx: ite(m.mask(idx), num(m.get(idx)), ZERO))
        return reduce_(I, 'sum', v)
    if kind in ('any', 'all'):
        v = I.arr(m.shape, lambda idx: cand(m.mask(idx), m.get(idx)) if kind == 'any'
                  else cor(cnot(m.mask(idx)), m.get(idx)), 'b')
        return reduce_(I, kind, v)
    raise Unsupported('%s of a masked selection' % kind)


def _red(kind):
    def f(I, a, kw):
        known(kw, 'axis', 'keepdims', 'dtype', 'a', 'initial')
        kd = kw.get('keepdims')
        x = a[0]
        if isinstance(x, (SeqView, RangeV)) or listy(I, x):
            x = to_array(I, x)
        r = reduce_(I, kind, x, arg_(a, kw, 1, 'axis'), kd is not None and I.truth(kd).op == 'true')
        init = kw.get('initial')
        if init is not None:
            op = {'max': 'max', 'min': 'min', 'sum': 'Add', 'prod': 'Mult'}[kind]
            r = elementwise(I, op, lambda p, q: sop(op, p, q), r, init)
        return r
    return f


for _k in RED:
    EXT['numpy.' + _k] = _red(_k)


def _nan_ignoring(f):
    def g(I, a, kw):
        r = f(I, a, kw)
        if isinstance(r, Rat) and not nonan(r):
            return fn('skipnan', r)
        return r
    return g


EXT['numpy.nanmax'] = _nan_ignoring(EXT['numpy.max'])
EXT['numpy.nanmin'] = _nan_ignoring(EXT['numpy.min'])
EXT['numpy.average'] = EXT['numpy.mean']
EXT['numpy.maximum.reduce'] = lambda I, a, kw: reduce_(I, 'max', a[0], arg_(a, kw, 1, 'axis', ZERO))
EXT['numpy.minimum.reduce'] = lambda I, a, kw: reduce_(I, 'min', a[0], arg_(a, kw, 1, 'axis', ZERO))
EXT['numpy.add.reduce'] = lambda I, a, kw: reduce_(I, 'sum', a[0], arg_(a, kw, 1, 'axis', ZERO))
EXT['numpy.logical_and.reduce'] = lambda I, a, kw: reduce_(I, 'all', a[0], arg_(a, kw, 1, 'axis', ZERO))
EXT['numpy.logical_or.reduce'] = lambda I, a, kw: reduce_(I, 'any', a[0], arg_(a, kw, 1, 'axis', ZERO))


@ext('numpy.ptp')
def ptp(I, a, kw):
    v = as_view(I, a[0])
    return reduce_(I, 'max', v) - reduce_(I, 'min', v)


@ext('numpy.cumsum')
def cumsum(I, a, kw):
    v = as_view(I, a[0])
    if v.ndim != 1:
        raise Unsupported('cumsum')
    g = I.getter(v)

    def at(idx):
        k = sym(I.fresh('r'), isint=True)
        n = idx[0] + ONE
        FACTS.push(k, ZERO, v.shape[0] - ONE)
        return mk_red('sum', num(g((k,))), k, ZERO, n)
    return I.arr(v.shape, at, v.dtype)


@ext('numpy.sort')
def np_sort(I, a, kw):
    v = as_view(I, a[0])
    if v.ndim != 1 or v.shape[0].as_int() is None:
        if v.shape[-1].as_int() in (2, 3) and kw.get('axis') is None or \
                kw.get('axis') is not None and v.shape[const_int(kw['axis']) % v.ndim].as_int() in (1, 2, 3):
            ax = const_int(kw.get('axis', C(-1))) % v.ndim
            m = v.shape[ax].as_int()
            g = I.getter(v)

            def at(idx):
                vals = [num(g(idx[:ax] + (C(i),) + idx[ax + 1:])) for i in range(m)]
                return seq_get(I, tuple(I.lib.sort_values(vals)), idx[ax])
            return I.arr(v.shape, at, v.dtype)
        raise Unsupported('np.sort')
    g = I.getter(v)
    vals = I.lib.sort_values([num(g((C(i),))) for i in range(v.shape[0].as_int())])
    return I.new_array(Sto(v.shape, None, v.dtype, vals))


@ext('numpy.median')
def median(I, a, kw):
    v = as_view(I, a[0])
    ax = arg_(a, kw, 1, 'axis')
    if v.ndim == 1 and ax is None:
        ax = ZERO
    if ax is None:
        raise Unsupported('median')
    ax = const_int(ax) % v.ndim
    m = v.shape[ax].as_int()
    if m != 3:
        raise Unsupported('median')
    g = I.getter(v)
    shape = v.shape[:ax] + v.shape[ax + 1:]

    def at(idx):
        vals = [num(g(idx[:ax] + (C(i),) + idx[ax:])) for i in range(m)]
        return I.lib.sort_values(vals)[1]
    return at(()) if not shape else I.arr(shape, at)


@ext('numpy.union1d')
def union1d(I, a, kw):
    if all(isinstance(x, (IdxSet, IdxUnion)) for x in a[:2]):
        return IdxUnion(a[:2])
    raise Unsupported('np.union1d')


@ext('numpy.unique')
def unique(I, a, kw):
    if isinstance(a[0], (IdxSet, IdxUnion)) and not kw:
        return a[0]
    raise Unsupported('np.unique')


@ext('numpy.allclose', 'numpy.isclose')
def isclose(I, a, kw):
    return elementwise(I, 'Eq', lambda x, y: cbool('isclose', num(x), num(y)), a[0], a[1])


@ext('numpy.array_equal')
def array_equal(I, a, kw):
    return reduce_(I, 'all', elementwise(I, 'Eq', lambda x, y: sop('Eq', x, y), a[0], a[1]))


@ext('numpy.may_share_memory', 'numpy.shares_memory')
def shares(I, a, kw):
    return mkbool(isinstance(a[0], View) and isinstance(a[1], View) and a[0].oid == a[1].oid)


# ------------------------------------------------------------- linear algebra
def contract(I, n, f):
    """sum_{k<n} f(k)"""
    c = n.as_int()
    if c is not None:
        r = ZERO
        for i in range(c):
            r = r + f(C(i))
        return r
    k = sym(I.fresh('r'), isint=True)
    FACTS.push(k, ZERO, n - ONE)
    return mk_red('sum', f(k), k, ZERO, n)


def inv_tag(I, v):
    if isinstance(v, View) and v.sig == ():
        t = I.st.heap[v.oid].data.tag
        if isinstance(t, tuple) and t and t[0] == 'inv':
            return t[1]
    return None


def matmul(I, a, b):
    if isnum(a) or isnum(b):
        return I.lib.binop(I, 'Mult', a, b)
    a, b = as_view(I, a), as_view(I, b)
    if a.ndim == 0 or b.ndim == 0:
        return I.lib.binop(I, 'Mult', a, b)
    ka, kb = a.shape[-1], b.shape[0 if b.ndim == 1 else b.ndim - 2]
    if not ka.eq(kb):
        e = decide_eq(ka, kb)
        I.raise_('ValueError', 'shapes not aligned: %s and %s' % (show(ka), show(kb)))
    t = inv_tag(I, a)
    if t is not None and b.ndim == 2 and b.shape[1].as_int() is not None:
        B = const_rows(I, b)
        X = solve_exact(t, B)
        if X is not None:
            return from_rows(I, X)
    t = inv_tag(I, b)
    if t is not None and a.shape[0].as_int() is not None:
        R = const_rows(I, a) if a.ndim == 2 else [[I.getter(a)((C(i),)) for i in range(ka.as_int())]]
        X = solve_exact(trp(t), trp(R))
        if X is not None:
            X = trp(X)
            return from_rows(I, X) if a.ndim == 2 else I.new_array(
                Sto((C(len(X[0])),), None, 'f', X[0]))
    ga, gb = I.getter(a), I.getter(b)
    if a.ndim == 1 and b.ndim == 1:
        return contract(I, ka, lambda k: num(ga((k,))) * num(gb((k,))))
    if a.ndim > 2 or b.ndim > 2:
        raise Unsupported('matrix product of higher rank')
    if a.ndim == 2 and b.ndim == 1:
        return I.arr((a.shape[0],), lambda i: contract(
            I, ka, lambda k: num(ga((i[0], k))) * num(gb((k,)))))
    if a.ndim == 1:
        return I.arr((b.shape[1],), lambda i: contract(
            I, ka, lambda k: num(ga((k,))) * num(gb((k, i[0])))))
    return I.arr((a.shape[0], b.shape[1]), lambda i: contract(
        I, ka, lambda k: num(ga((i[0], k))) * num(gb((k, i[1])))))


EXT['numpy.dot'] = lambda I, a, kw: matmul(I, a[0], a[1])
EXT['numpy.matmul'] = EXT['numpy.dot']
EXT['numpy.inner'] = lambda I, a, kw: matmul(I, a[0], a[1]) if not isinstance(a[1], View) or a[1].ndim < 2 \
    else matmul(I, a[0], transpose_view(a[1]))
EXT['numpy.vdot'] = EXT['numpy.dot']


@ext('numpy.linalg.multi_dot')
def multi_dot(I, a, kw):
    ms = items(I, a[0])
    r = ms[0]
    for m in ms[1:]:
        r = matmul(I, r, m)
    return r


@ext('numpy.tensordot')
def tensordot(I, a, kw):
    x, y = as_view(I, a[0]), as_view(I, a[1])
    ax = arg_(a, kw, 2, 'axes', TWO)
    if isnum(ax):
        k = const_int(ax)
        p = list(range(x.ndim - k, x.ndim))
        q = list(range(k))
    else:
        pr = items(I, ax)
        p = [const_int(pr[0])] if isnum(pr[0]) else [const_int(v) for v in items(I, pr[0])]
        q = [const_int(pr[1])] if isnum(pr[1]) else [const_int(v) for v in items(I, pr[1])]
    p = [v % x.ndim for v in p]
    q = [v % y.ndim for v in q]
    letters = 'abcdefghijkl'
    lx = list(letters[:x.ndim])
    ly = list('mnopqrstuv'[:y.ndim])
    for i, j in zip(p, q):
        ly[j] = lx[i]
    out = [c for i, c in enumerate(lx) if i not in p] + [c for j, c in enumerate(ly) if j not in q]
    return einsum(I, (''.join(lx) + ',' + ''.join(ly) + '->' + ''.join(out), x, y), {})


@ext('numpy.outer', 'numpy.multiply.outer')
def outer(I, a, kw):
    x, y = ravel_(I, as_view(I, a[0])), ravel_(I, as_view(I, a[1]))
    gx, gy = I.getter(x), I.getter(y)
    return I.arr((x.shape[0], y.shape[0]), lambda i: num(gx((i[0],))) * num(gy((i[1],))))


@ext('numpy.subtract.outer')
def sub_outer(I, a, kw):
    x, y = ravel_(I, as_view(I, a[0])), ravel_(I, as_view(I, a[1]))
    gx, gy = I.getter(x), I.getter(y)
    return I.arr((x.shape[0], y.shape[0]), lambda i: num(gx((i[0],))) - num(gy((i[1],))))


@ext('numpy.einsum')
def einsum(I, a, kw):
    known(kw, 'optimize', 'out')
    if kw.get('out') is not None:
        return put_out(I, einsum(I, a, {k: v for k, v in kw.items() if k != 'out'}), kw['out'])
    spec = a[0]
    if not isinstance(spec, str):
        raise Unsupported('einsum operands')
    vs = [as_view(I, x) for x in a[1:]]
    spec = spec.replace(' ', '')
    if '->' in spec:
        ins, out = spec.split('->')
    else:
        ins = spec
        flat = ins.replace(',', '')
        out = ''.join(sorted(c for c in set(flat) if flat.count(c) == 1 and c != '.'))
    ins = ins.split(',')
    if '.' in spec:
        # ellipsis: expand with upper-case letters
        ins2 = []
        nmax = 0
        for s, v in zip(ins, vs):
            if '...' in s:
                n = v.ndim - len(s) + 3
                nmax = max(nmax, n)
        for s, v in zip(ins, vs):
            if '...' in s:
                n = v.ndim - len(s) + 3
                s = s.replace('...', 'ZYXWV'[5 - nmax:][nmax - n:nmax])
            ins2.append(s)
        e = 'ZYXWV'[5 - nmax:]
        out = out.replace('...', e) if '...' in out else (e + out if '->' not in spec else out)
        ins = ins2
    if len(ins) != len(vs) or any(len(s) != v.ndim for s, v in zip(ins, vs)):
        I.raise_('ValueError', 'einsum: operand has the wrong number of dimensions')
    dim = {}
    for s, v in zip(ins, vs):
        for c, n in zip(s, v.shape):
            if c in dim and not dim[c].eq(n):
                if dim[c].eq(ONE):
                    dim[c] = n
                elif not n.eq(ONE):
                    I.raise_('ValueError', 'einsum: dimensions of %s do not match' % c)
            else:
                dim[c] = n
    gs = [I.getter(v) for v in vs]
    bound = [c for c in dim if c not in out]

    def at(idx):
        env = dict(zip(out, idx))

        def go(cs):
            if not cs:
                r = ONE
                for s, g, v in zip(ins, gs, vs):
                    r = r * num(g(tuple(ZERO if v.shape[d].eq(ONE) else env[c] for d, c in enumerate(s))))
                return r

            def f(k):
                env[cs[0]] = k
                return go(cs[1:])
            return contract(I, dim[cs[0]], f)
        return go(bound)
    if not out:
        return at(())
    return I.arr(tuple(dim[c] for c in out), at)


@ext('numpy.trace')
def trace(I, a, kw):
    v = as_view(I, a[0])
    g = I.getter(v)
    return contract(I, v.shape[0], lambda k: g((k, k)))


def const_rows(I, v):
    n, m = v.shape[0].as_int(), v.shape[1].as_int()
    if n is None or m is None:
        raise Unsupported('matrix of symbolic size')
    g = I.getter(v)
    return [[num(g((C(i), C(j)))) for j in range(m)] for i in range(n)]


def from_rows(I, rows):
    n, m = len(rows), len(rows[0]) if rows else 0
    return I.new_array(Sto((C(n), C(m)), None, 'f', [x for r in rows for x in r]))


def trp(M):
    return [list(r) for r in zip(*M)]


def gauss(Arows, Brows):
    """exact solution of A X = B over the rationals; None when singular"""
    n = len(Arows)
    M = [[x.as_const() for x in r] for r in Arows]
    R = [[x for x in r] for r in Brows]
    for c in range(n):
        p = next((r for r in range(c, n) if M[r][c] != 0), None)
        if p is None:
            return None
        M[c], M[p] = M[p], M[c]
        R[c], R[p] = R[p], R[c]
        f = 1 / M[c][c]
        M[c] = [x * f for x in M[c]]
        R[c] = [x.scale(f) for x in R[c]]
        for r in range(n):
            if r != c and M[r][c] != 0:
                f = M[r][c]
                M[r] = [x - f * y for x, y in zip(M[r], M[c])]
                R[r] = [x - y.scale(f) for x, y in zip(R[r], R[c])]
    return R


def allconst(M):
    return all(x.as_const() is not None for r in M for x in r)


def alg_const(M):
    return all(all(alg._numconst(i) for i in x.atoms()) for r in M for x in r)


def solve_exact(Arows, Brows):
    """X with A X = B when X is rational (or A is); verified exactly"""
    if allconst(Arows):
        return gauss(Arows, Brows)
    if not (alg_const(Arows) and alg_const(Brows)):
        return None
    from decimal import localcontext
    n = len(Arows)
    with localcontext() as ctx:
        ctx.prec = 105
        M = [[alg.numeric(x) for x in r] for r in Arows]
        R = [[alg.numeric(x) for x in r] for r in Brows]
        for c in range(n):
            p = max(range(c, n), key=lambda r: abs(M[r][c]))
            if abs(M[p][c]) < Decimal(10) ** -40:
                return None
            M[c], M[p] = M[p], M[c]
            R[c], R[p] = R[p], R[c]
            f = 1 / M[c][c]
            M[c] = [x * f for x in M[c]]
            R[c] = [x * f for x in R[c]]
            for r in range(n):
                if r != c:
                    f = M[r][c]
                    M[r] = [x - f * y for x, y in zip(M[r], M[c])]
                    R[r] = [x - f * y for x, y in zip(R[r], R[c])]
        X = []
        for r in R:
            row = []
            for x in r:
                q = Fraction(x).limit_denominator(10 ** 22)
                if abs(Decimal(q.numerator) / Decimal(q.denominator) - x) > Decimal(10) ** -60:
                    return None
                row.append(C(q))
            X.append(row)
    for i in range(n):
        for j in range(len(X[0])):
            s = -Brows[i][j]
            for k in range(n):
                s = s + Arows[i][k] * X[k][j]
            if not alg.is_zero(s):
                return None
    return X


@ext('numpy.linalg.inv', 'numpy.linalg.pinv')
def inv(I, a, kw):
    v = as_view(I, a[0])
    if v.ndim != 2:
        I.raise_('numpy.linalg.LinAlgError', 'matrix expected')
    M = const_rows(I, v)
    n = len(M)
    if n and len(M[0]) != n:
        I.raise_('numpy.linalg.LinAlgError', 'Last 2 dimensions of the array must be square')
    if allconst(M):
        R = gauss(M, [[ONE if i == j else ZERO for j in range(n)] for i in range(n)])
        if R is None:
            I.raise_('numpy.linalg.LinAlgError', 'Singular matrix')
        return from_rows(I, R)
    t = inv_tag(I, v)
    if t is not None:
        return from_rows(I, t)
    if alg_const(M):
        R = solve_exact(M, [[ONE if i == j else ZERO for j in range(n)] for i in range(n)])
        if R is not None:
            return from_rows(I, R)
    key = tuple(x for r in M for x in r)
    r = from_rows(I, [[fn('invent', key, C(i), C(j)) for j in range(n)] for i in range(n)])
    I.st.heap[r.oid].data.tag = ('inv', M)
    return r


@ext('numpy.linalg.solve')
def solve(I, a, kw):
    A_, b = as_view(I, a[0]), as_view(I, a[1])
    M = const_rows(I, A_)
    t = inv_tag(I, A_)
    vec = b.ndim == 1
    if b.shape[0].as_int() is None:
        raise Unsupported('solve')
    B = [[I.getter(b)((C(i),))] for i in range(b.shape[0].as_int())] if vec else None
    if not vec:
        if b.shape[1].as_int() is None:
            return matmul(I, inv(I, (A_,), {}), b)
        B = const_rows(I, b)
    X = solve_exact(M, B)
    if X is None:
        return matmul(I, inv(I, (A_,), {}), b)
    return I.new_array(Sto((C(len(X)),), None, 'f', [r[0] for r in X])) if vec else from_rows(I, X)


@ext('numpy.linalg.det')
def det(I, a, kw):
    M = const_rows(I, as_view(I, a[0]))

    def go(M):
        if not M:
            return ONE
        r = ZERO
        for j, x in enumerate(M[0]):
            if x.is_zero():
                continue
            m = x * go([row[:j] + row[j + 1:] for row in M[1:]])
            r = r + m if j % 2 == 0 else r - m
        return r
    return go(M)


@ext('numpy.linalg.norm')
def norm(I, a, kw):
    v = as_view(I, a[0])
    if kw or len(a) > 1:
        raise Unsupported('norm')
    return power(reduce_(I, 'sum', elementwise(I, 'Mult', lambda x, y: x * y, v, v)), Fraction(1, 2))


# ------------------------------------------------------------- Legendre
P = 'numpy.polynomial.legendre.'


def vec(I, xs):
    return I.new_array(Sto((C(len(xs)),), None, 'f', list(xs)))


@ext(P + 'leggauss', 'scipy.special.roots_legendre', 'scipy.special.p_roots')
def leggauss(I, a, kw):
    n = num(arg_(a, kw, 0, 'deg')).as_int()
    if n is None:
        raise Unsupported('leggauss of symbolic order')
    if n <= 0:
        I.raise_('ValueError', 'deg must be a positive integer')
    return (vec(I, [LG.gauss_node(n, g) for g in range(n)]), vec(I, [LG.gauss_weight(n, g) for g in range(n)]))


def vals_of(I, c):
    v = as_view(I, c)
    n = v.shape[0].as_int()
    if n is None or v.ndim != 1:
        raise Unsupported('Legendre coefficients of symbolic length')
    g = I.getter(v)
    return [num(g((C(i),))) for i in range(n)]


@ext(P + 'legval')
def legval(I, a, kw):
    known(kw, 'tensor', 'x', 'c')
    c = arg_(a, kw, 1, 'c')
    x = arg_(a, kw, 0, 'x')
    cv = as_view(I, c)
    if cv.ndim == 1:
        co = vals_of(I, cv)
        return elementwise(I, 'Mult', lambda v: LG.leg_poly_eval(co, num(v)), x)
    if cv.ndim == 2:
        # coefficients along the first axis, one series per column; x appended
        g = I.getter(cv)
        n = cv.shape[0].as_int()
        if isnum(x):
            xs, xg = (), (lambda i: x)
        else:
            xs, xg, _ = operand(I, x)
        tensor = kw.get('tensor')
        if tensor is not None and I.truth(tensor).op == 'false':
            sh = broadcast_shape([cv.shape[1:], xs])
            return I.arr(sh, lambda i: LG.leg_poly_eval(
                [num(g((C(k),) + bidx(cv.shape[1:], sh, i))) for k in range(n)], num(xg(bidx(xs, sh, i)))))
        return I.arr((cv.shape[1],) + tuple(xs), lambda i: LG.leg_poly_eval(
            [num(g((C(k), i[0]))) for k in range(n)], num(xg(i[1:]))))
    raise Unsupported('legval')


@ext(P + 'legvander')
def legvander(I, a, kw):
    n = const_int(arg_(a, kw, 1, 'deg'), 'degree')
    x = as_view(I, a[0])
    g = I.getter(x)
    if x.ndim != 1:
        raise Unsupported('legvander')
    return I.arr((x.shape[0], C(n + 1)), lambda i: LG.leg_value(const_int(i[1]), num(g((i[0],)))))


@ext(P + 'legder')
def legder(I, a, kw):
    p = LegPoly(vals_of(I, a[0]))
    return vec(I, LG.deriv(p, const_int(arg_(a, kw, 1, 'm', ONE))).coefs)


@ext(P + 'legint')
def legint(I, a, kw):
    p = LegPoly(vals_of(I, a[0]))
    return vec(I, LG.integ(I, p, const_int(arg_(a, kw, 1, 'm', ONE))).coefs)


@ext(P + 'legmul')
def legmul(I, a, kw):
    p, q = LegPoly(vals_of(I, a[0])), LegPoly(vals_of(I, a[1]))
    return vec(I, LG.from_poly(LG.pmul(p.poly(), q.poly())))


@ext(P + 'legadd')
def legadd(I, a, kw):
    return vec(I, LG.trim(LG.padd(vals_of(I, a[0]), vals_of(I, a[1]))))


@ext(P + 'leg2poly')
def leg2poly(I, a, kw):
    return vec(I, LegPoly(vals_of(I, a[0])).poly())


@ext(P + 'poly2leg')
def poly2leg(I, a, kw):
    return vec(I, LG.from_poly(vals_of(I, a[0])))


@ext(P + 'legfit')
def legfit(I, a, kw):
    known(kw, 'x', 'y', 'deg')
    x, y = as_view(I, arg_(a, kw, 0, 'x')), as_view(I, arg_(a, kw, 1, 'y'))
    deg = const_int(arg_(a, kw, 2, 'deg'), 'degree')
    xs = vals_of(I, x)
    n = len(xs)
    if not x.shape[0].eq(y.shape[0]):
        I.raise_('TypeError', 'expected x and y to have same length')
    gauss_nodes = all(v.eq(LG.gauss_node(n, g)) for g, v in enumerate(xs))
    if not gauss_nodes or deg > n - 1:
        if deg == n - 1 and y.ndim == 1:
            V = [[LG.leg_value(k, xx) for k in range(n)] for xx in xs]
            if allconst(V):
                ys = vals_of(I, y)
                X = gauss(V, [[t] for t in ys])
                if X is not None:
                    return vec(I, [r[0] for r in X])
        raise Unsupported('legfit on other than Gauss-Legendre nodes')
    if deg < n - 1:
        # weighted discrete least squares is not the Gauss projection: only an
        # interpolant (deg = n - 1) is exactly the projection
        return I.arr((C(deg + 1),) + y.shape[1:], lambda i: fn(
            'legfit', n, deg, const_int(i[0]), tuple(I.getter(y)((C(g),) + tuple(i[1:])) for g in range(n))))
    g = I.getter(y)

    def at(i):
        k = i[0].as_int()
        if k is None:
            raise Unsupported('legfit coefficient')
        r = ZERO
        for q in range(n):
            r = r + num(g((C(q),) + tuple(i[1:]))) * LG.gauss_weight(n, q) * LG.leg_value(k, xs[q])
        return r.scale(Fraction(2 * k + 1, 2))
    return I.arr((C(n),) + y.shape[1:], at)


def dom(I, x):
    v = vals_of(I, x)
    return (v[0], v[1])


LC = P + 'Legendre'


@ext(LC)
def Legendre(I, a, kw):
    known(kw, 'coef', 'domain', 'window', 'symbol')
    c = vals_of(I, arg_(a, kw, 0, 'coef'))
    d = arg_(a, kw, 1, 'domain')
    w = arg_(a, kw, 2, 'window')
    return LegPoly(c, dom(I, d) if d is not None else None, dom(I, w) if w is not None else None)


@ext(LC + '.basis')
def Lbasis(I, a, kw):
    known(kw, 'deg', 'domain', 'window')
    n = num(arg_(a, kw, 0, 'deg')).as_int()
    if n is None:
        raise Unsupported('Legendre basis of symbolic degree')
    if n < 0:
        I.raise_('ValueError', 'deg must be non-negative')
    d = arg_(a, kw, 1, 'domain')
    w = arg_(a, kw, 2, 'window')
    return LegPoly([ZERO] * n + [ONE], dom(I, d) if d is not None else None,
                   dom(I, w) if w is not None else None)


@ext(LC + '.identity')
def Lidentity(I, a, kw):
    d = arg_(a, kw, 0, 'domain')
    w = arg_(a, kw, 1, 'window')
    domain = dom(I, d) if d is not None else (C(-1), ONE)
    window = dom(I, w) if w is not None else (C(-1), ONE)
    off, scl = LG.mapparms(window, domain)
    return LegPoly([off, scl], domain, window)


@ext(LC + '.cast')
def Lcast(I, a, kw):
    known(kw, 'series', 'domain', 'window')
    p = arg_(a, kw, 0, 'series')
    d = arg_(a, kw, 1, 'domain')
    w = arg_(a, kw, 2, 'window')
    d = p.domain if d is None else dom(I, d)
    w = p.window if w is None else dom(I, w)
    return LG.convert(p, d, w)


@ext(LC + '.fit')
def Lfit(I, a, kw):
    d = kw.get('domain')
    if d is None or not (dom(I, d)[0].eq(C(-1)) and dom(I, d)[1].eq(ONE)):
        raise Unsupported('Legendre.fit domain')
    r = legfit(I, a[:3], {})
    return LegPoly(vals_of(I, r))


@ext('numpy.polynomial.polynomial.polyval')
def polyval_(I, a, kw):
    c = vals_of(I, a[1])

    def f(x):
        r = ZERO
        for k in reversed(c):
            r = r * num(x) + k
        return r
    return elementwise(I, 'Mult', f, a[0])


@ext('numpy.polyval')
def polyval(I, a, kw):
    c = vals_of(I, a[0])

    def f(x):
        r = ZERO
        for k in c:
            r = r * num(x) + k
        return r
    return elementwise(I, 'Mult', f, a[1])


def leg_attr(I, p, name):
    if name == 'coef':
        return vec(I, p.coefs)
    if name == 'domain':
        return vec(I, p.domain)
    if name == 'window':
        return vec(I, p.window)
    if name in ('deriv', 'integ', 'convert', 'degree', 'mapparms', 'copy', 'trim', 'linspace', 'cutdeg'):
        return N.ExtMeth(p, name)
    I.raise_('AttributeError', name)


def leg_meth(I, p, name, a, kw):
    if name == 'deriv':
        return LG.deriv(p, const_int(arg_(a, kw, 0, 'm', ONE)))
    if name == 'integ':
        known(kw, 'm', 'k', 'lbnd')
        if 'k' in kw or len(a) > 1:
            raise Unsupported('integration constant')
        lb = arg_(a, kw, 2, 'lbnd')
        return LG.integ(I, p, const_int(arg_(a, kw, 0, 'm', ONE)), None if lb is None else num(lb))
    if name == 'degree':
        return C(len(p.coefs) - 1)
    if name == 'copy':
        return p
    if name == 'mapparms':
        return tuple(p.mapparms())
    if name == 'trim':
        return LegPoly(LG.trim(p.coefs), p.domain, p.window)
    if name == 'convert':
        known(kw, 'domain', 'window', 'kind')
        if kw.get('kind') is not None or len(a) > 1:
            k = kw.get('kind', a[1] if len(a) > 1 else None)
            if not (isinstance(k, N.Ext) and k.name.endswith('Legendre')):
                raise Unsupported('conversion of a Legendre series')
        d = arg_(a, kw, 0, 'domain')
        w = kw.get('window')
        return LG.convert(p, (C(-1), ONE) if d is None else dom(I, d), (C(-1), ONE) if w is None else dom(I, w))
    raise Unsupported('Legendre.' + name)


def leg_call(I, p, x):
    return elementwise(I, 'Mult', lambda v: p(num(v)), x)


# ------------------------------------------------------------- files
EXACT_FMT = ('%.18e', '%.17e', '%.16e', '%.17g', '%.18g', '%.19e', '%.20e', '%r')


@ext('numpy.savetxt')
def savetxt(I, a, kw):
    known(kw, 'fname', 'X', 'fmt', 'delimiter', 'newline', 'header', 'footer', 'comments', 'encoding')
    fname = arg_(a, kw, 0, 'fname')
    v = as_view(I, arg_(a, kw, 1, 'X'))
    if v.ndim == 1:
        v = index_view(v, [SliceV(None, None, None), None])
    snap = to_array(I, v)
    fmt = arg_(a, kw, 2, 'fmt', '%.18e')
    delim = arg_(a, kw, 3, 'delimiter', ' ')
    header = arg_(a, kw, 5, 'header', '')
    footer = arg_(a, kw, 6, 'footer', '')
    com = arg_(a, kw, 7, 'comments', '# ')
    if isinstance(fname, N.Ref):
        fname = I.obj(fname).meta['name']
    I.event('savetxt', fname, tuple(snap.shape), I.getter(snap), fmt, delim, header, com, footer, v.dtype)
    return None


def rounded(fmt, x):
    if fmt is None or fmt in EXACT_FMT:
        return x
    if isinstance(fmt, str) and fmt.endswith('d') and isinstance(x, Rat) and is_intlike(x):
        return x                # %d of a whole number
    return fn('rounded', fmt, x)


@ext('numpy.loadtxt', 'numpy.genfromtxt')
def loadtxt(I, a, kw):
    known(kw, 'fname', 'dtype', 'comments', 'delimiter', 'converters', 'skiprows', 'usecols', 'unpack',
          'ndmin', 'max_rows')
    fname = I.lib.real(I, arg_(a, kw, 0, 'fname'))
    ev = I.lib.last_saved(I, fname)
    delim = kw.get('delimiter', a[3] if len(a) > 3 else None)
    uc = kw.get('usecols')
    unpack = kw.get('unpack') is not None and I.truth(kw['unpack']).op == 'true'
    skip = kw.get('skiprows', kw.get('skip_header', ZERO))
    nd = kw.get('ndmin')
    nd = 0 if nd is None else nd.as_int()
    if ev is None:
        tag = I.lib.to_key(fname)
        n = I.hooks.get('loadtxt_rows')
        if n is None:
            raise Unsupported('loadtxt of an unknown file')
        shape, g = n(I, fname)
        fmt = '%.18e'
        dtype = 'f'
    else:
        _, shape, g, fmt, wdelim, header, com, footer, dtype = ev.data
        # the reader's delimiter must be the writer's
        if not same_value(delim, wdelim) and not (delim is None and wdelim in (' ', '\t')):
            I.raise_('ValueError', 'could not convert string to float (delimiter %r, file written with %r)'
                     % (delim, wdelim))
        hl = 0
        if header != '':
            if not (isinstance(com, str) and com.lstrip().startswith('#')):
                hl = sum(p.count('\n') for p in I.lib.parts(header) if isinstance(p, str)) + 1
                s = num(skip).as_int()
                if s is None or s < hl:
                    I.raise_('ValueError', 'could not convert header to float')
        s = num(skip).as_int()
        if s:
            nh = 0
            if header != '':
                nh = sum(p.count('\n') for p in I.lib.parts(header) if isinstance(p, str)) + 1
            if s > nh:
                g0 = g
                extra = s - nh
                g = lambda idx: g0((idx[0] + C(extra),) + tuple(idx[1:]))
                shape = (shape[0] - C(extra),) + tuple(shape[1:])
    mc = shape[1].as_int()
    if mc is None:
        raise Unsupported('loadtxt of a file with a symbolic number of columns')
    fmts = [fmt] * mc
    if isinstance(fmt, str) and fmt.count('%') > 1:
        fmts = ['%' + t.strip(' ,;\t') for t in fmt.split('%')[1:]]
        if len(fmts) != mc:
            I.raise_('ValueError', 'fmt has wrong number of % formats')
    elif not isinstance(fmt, str):
        fmts = items(I, fmt)
    cols = list(range(mc))
    if uc is not None:
        cols = [const_int(uc)] if isnum(uc) else [const_int(c) for c in items(I, uc)]
        cols = [c + mc if c < 0 else c for c in cols]
        for c in cols:
            if not 0 <= c < mc:
                I.raise_('ValueError', 'usecols: invalid column index %d' % c)

    def col(idx, c):
        return rounded(fmts[c].strip(), num(g((idx, C(c)))))
    n = shape[0]
    single_row = n.eq(ONE)
    single_col = len(cols) == 1
    if single_col and nd < 2:
        if single_row and nd == 0:
            return col(ZERO, cols[0])
        return I.arr((n,), lambda i: col(i[0], cols[0]))
    if single_row and nd < 2:
        return I.arr((C(len(cols)),), lambda i: pick(i[0], cols, lambda c: col(ZERO, c)))
    if unpack:
        return I.arr((C(len(cols)), n), lambda i: pick(i[0], cols, lambda c: col(i[1], c)))
    return I.arr((n, C(len(cols))), lambda i: pick(i[1], cols, lambda c: col(i[0], c)))


def pick(j, cols, f):
    k = j.as_int()
    if k is not None:
        return f(cols[k])
    out = None
    for q in reversed(range(len(cols))):
        v = f(cols[q])
        out = v if out is None else merge_val(ceq(j, C(q)), v, out)
    return out


# ------------------------------------------------------------- misc
@ext('numpy.errstate', 'numpy.printoptions')
def errstate(I, a, kw):
    return Opaque('errstate')


@ext('numpy.seterr', 'numpy.set_printoptions', 'warnings.filterwarnings', 'warnings.simplefilter',
     'warnings.warn')
def noeffect(I, a, kw):
    I.event('noeffect', '')
    return None


@ext('numpy.float64', 'numpy.float32', 'numpy.double', 'numpy.float_', 'numpy.longdouble')
def np_float(I, a, kw):
    return I.lib.call_ext(I, 'builtins.float', a, kw)


@ext('numpy.int64', 'numpy.int32', 'numpy.int_', 'numpy.intp')
def np_int(I, a, kw):
    return I.lib.call_ext(I, 'builtins.int', a, kw)


@ext('numpy.bool_')
def np_bool(I, a, kw):
    return I.truth(a[0])


@ext('numpy.real')
def real(I, a, kw):
    return a[0]


@ext('math.factorial')
def factorial(I, a, kw):
    k = num(a[0]).as_int()
    if k is None:
        return fn('factorial', num(a[0]), pos=True, isint=True)
    if k < 0:
        I.raise_('ValueError', 'factorial() not defined for negative values')
    r = 1
    for i in range(2, k + 1):
        r *= i
    return C(r)


@ext('math.comb', 'scipy.special.comb')
def comb(I, a, kw):
    import math
    return C(math.comb(const_int(a[0]), const_int(a[1])))


@ext('math.copysign')
def copysign(I, a, kw):
    x, y = num(a[0]), num(a[1])
    return ite(cge(y, ZERO), rabs(x), -rabs(x))


EXT['numpy.copysign'] = lambda I, a, kw: elementwise(
    I, 'Mult', lambda x, y: ite(cge(num(y), ZERO), rabs(num(x)), -rabs(num(x))), a[0], a[1])


@ext('math.hypot')
def hypot(I, a, kw):
    return power(num(a[0]) * num(a[0]) + num(a[1]) * num(a[1]), Fraction(1, 2))
