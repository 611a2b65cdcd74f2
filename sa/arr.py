"""Functional model of numpy arrays: a storage maps index tuples (possibly
symbolic) to values, a view is a storage identity plus an index map, so that
aliasing between views and in-place updates is represented exactly."""
from .alg import *
from . import alg


class Unsupported(Exception):
    """the analyser met a construct outside its abstraction"""


class UNDEF_T:
    def __repr__(self):
        return 'UNDEF'


UNDEF = UNDEF_T()


class Choice:
    """a non-scalar value that depends on a condition"""
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __repr__(self):
        return 'Choice(%s ? %r : %r)' % (self.c, self.a, self.b)


def same_value(a, b):
    if a is b:
        return True
    if isinstance(a, Rat) and isinstance(b, Rat):
        return a.eq(b)
    if isinstance(a, Cond) and isinstance(b, Cond):
        return a.key() == b.key()
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same_value(x, y) for x, y in zip(a, b))
    if isinstance(a, View) and isinstance(b, View):
        return a.oid == b.oid and a.same_map(b)
    if isinstance(a, Choice) and isinstance(b, Choice):
        return a.c.key() == b.c.key() and same_value(a.a, b.a) and same_value(a.b, b.b)
    if type(a) is not type(b):
        return False
    try:
        return bool(a == b)
    except Exception:
        return False


def merge_val(c, a, b):
    """value a when c holds, else b"""
    if same_value(a, b):
        return a
    if c.op == 'true':
        return a
    if c.op == 'false':
        return b
    if isinstance(a, Rat) and isinstance(b, Rat):
        return ite(c, a, b)
    if isinstance(a, Cond) and isinstance(b, Cond):
        return cor(cand(c, a), cand(cnot(c), b))
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(merge_val(c, x, y) for x, y in zip(a, b))
    # drop nested choices on the same condition
    if isinstance(a, Choice) and a.c.key() == c.key():
        a = a.a
    if isinstance(b, Choice) and b.c.key() == c.key():
        b = b.b
    if same_value(a, b):
        return a
    if isinstance(b, Choice) and same_value(a, b.a):
        return merge_choice(cor(c, b.c), a, b.b)
    if isinstance(a, Choice) and same_value(a.b, b):
        return merge_choice(cand(c, a.c), a.a, b)
    return Choice(c, a, b)


def merge_choice(c, a, b):
    if c.op == 'true':
        return a
    if c.op == 'false':
        return b
    return Choice(c, a, b)


# --------------------------------------------------------------------------
def is_intlike(r):
    if r.den:
        return False
    for m, c in r.num.items():
        if c.denominator != 1:
            return False
        for a, e in m:
            at = ATOMS[a]
            if Fraction(e).denominator != 1 or e < 0:
                return False
            if at.isint:
                continue
            if at.kind == 'ite' and is_intlike(at.args[1]) and is_intlike(at.args[2]):
                continue
            if at.kind == 'abs' and is_intlike(at.args[0]):
                continue
            return False
    return True


def floordiv(r, k):
    """floor(r / k) for an integer expression and a positive constant k, as
    (quotient, remainder constant); None when not decidable"""
    k = int(k)
    if k == 1:
        return r, 0
    c = r.as_const()
    if c is not None:
        if c.denominator != 1:
            return None
        q, m = divmod(int(c), k)
        return C(q), m
    if r.den:
        return None
    q = {}
    rem = 0
    for m, c in r.num.items():
        if c.denominator != 1:
            return None
        if not m:
            a, rem = divmod(int(c), k)
            if a:
                q[m] = Fraction(a)
        else:
            if int(c) % k:
                return None
            if not all(ATOMS[a].isint for a, e in m):
                return None
            q[m] = c / k
    return Rat(q), rem


class Sto:
    """content of a storage"""
    __slots__ = ('shape', 'fn', 'dense', 'dtype', 'memo', 'dims', 'tag')

    def __init__(self, shape, fn=None, dtype='f', dense=None):
        self.shape = shape
        self.fn = fn
        self.dtype = dtype
        self.dense = dense
        self.memo = {}
        self.tag = None
        d = [s.as_int() for s in shape]
        self.dims = d if all(x is not None for x in d) else None

    def flat(self, idx):
        k = 0
        for i, d in zip(idx, self.dims):
            v = i.as_int()
            if v is None:
                return None
            if v < 0 or v >= d:
                raise IndexError('index %d out of bounds for axis of size %d' % (v, d))
            k = k * d + v
        return k

    def get(self, idx):
        if self.dense is not None:
            k = self.flat(idx)
            if k is not None:
                return self.dense[k]
        key = tuple(i.key() for i in idx)
        v = self.memo.get(key)
        if v is None:
            if self.dense is not None:
                v = self._symget(idx)
            else:
                v = self.fn(idx)
            self.memo[key] = v
        return v

    def _symget(self, idx):
        """dense storage read at a symbolic position"""
        for ax, i in enumerate(idx):
            if i.as_int() is None:
                d = self.dims[ax]
                if d > 64:
                    raise Unsupported('symbolic index into a constant array of length %d' % d)
                out = None
                for j in reversed(range(d)):
                    v = self.get(idx[:ax] + (C(j),) + idx[ax + 1:])
                    out = v if out is None else merge_val(ceq(i, C(j)), v, out)
                if out is None:
                    raise IndexError('index into an empty array')
                return out
        raise AssertionError


DENSE_MAX = 3000


def densify(s):
    """evaluate every element of a constant-shape storage"""
    if s.dims is None or s.dense is not None:
        return s
    n = 1
    for d in s.dims:
        n *= d
    if n > DENSE_MAX:
        return s
    out = []
    for idx in _indices(s.dims):
        out.append(s.fn(idx))
    return Sto(s.shape, None, s.dtype, out)


_cint = [C(i) for i in range(2000)]


def cint(i):
    return _cint[i] if 0 <= i < 2000 else C(i)


def _indices(dims):
    if not dims:
        yield ()
        return
    for i in range(dims[0]):
        for r in _indices(dims[1:]):
            yield (cint(i),) + r


def full(shape, v, dtype='f'):
    d = [s.as_int() for s in shape]
    if all(x is not None for x in d):
        n = 1
        for x in d:
            n *= x
        if n <= DENSE_MAX:
            return Sto(shape, None, dtype, [v] * n)
    return Sto(shape, lambda idx: v, dtype)


class View:
    __slots__ = ('oid', 'shape', 'fwd', 'inv', 'dtype', 'sig')

    def __init__(self, oid, shape, fwd, inv, dtype, sig):
        self.oid = oid
        self.shape = shape
        self.fwd = fwd          # view idx -> storage idx
        self.inv = inv          # storage idx -> (Cond, view idx)
        self.dtype = dtype
        self.sig = sig          # structural signature of the map

    @staticmethod
    def whole(oid, sto):
        return View(oid, sto.shape, lambda i: i, lambda s: (TRUE, s), sto.dtype, ())

    def same_map(self, o):
        return (len(self.shape) == len(o.shape) and self.sig == o.sig
                and all(x.eq(y) for x, y in zip(self.shape, o.shape)))

    def __repr__(self):
        return 'View(#%s %s)' % (self.oid, 'x'.join(show(s) for s in self.shape))

    @property
    def ndim(self):
        return len(self.shape)

    def size(self):
        r = ONE
        for s in self.shape:
            r = r * s
        return r


class SliceV:
    __slots__ = ('start', 'stop', 'step')

    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step


def wrap_index(i, n, strict=True):
    """python/numpy index normalisation (negative indices)"""
    s = signs(i)
    if s <= {-1}:
        i = i + n
        if signs(i) <= {-1}:
            raise IndexError('index %s is out of bounds' % show(i - n))
        return i
    if strict and signs(n - ONE - i) <= {-1}:
        raise IndexError('index %s is out of bounds for axis of size %s' % (show(i), show(n)))
    if s <= {0, 1}:
        return i
    return ite(clt(i, ZERO), i + n, i)


def norm_slice(sl, n):
    """(start, step int, length)"""
    step = 1 if sl.step is None else sl.step.as_int()
    if step is None or step == 0:
        raise Unsupported('slice step is not a constant')

    def clamp(v, lo, hi):
        if signs(v - lo) <= {-1, 0}:
            return lo
        if signs(v - hi) <= {0, 1}:
            return hi
        if signs(v - lo) <= {0, 1} and signs(v - hi) <= {-1, 0}:
            return v
        # undecided: within range by assumption only if one end is decided
        raise Unsupported('cannot bound slice limit %s in [%s, %s]' % (show(v), show(lo), show(hi)))

    def norm(v):
        s = signs(v)
        if s <= {-1}:
            return v + n
        if s <= {0, 1}:
            return v
        raise Unsupported('slice limit %s of unknown sign' % show(v))
    if step > 0:
        start = ZERO if sl.start is None else clamp(norm(sl.start), ZERO, n)
        stop = n if sl.stop is None else clamp(norm(sl.stop), ZERO, n)
        d = stop - start
    else:
        top = n - ONE
        start = top if sl.start is None else clamp(norm(sl.start), C(-1), top)
        stop = C(-1) if sl.stop is None else clamp(norm(sl.stop), C(-1), top)
        d = start - stop
    k = abs(step)
    if signs(d) <= {-1, 0}:
        return start, step, ZERO
    f = floordiv(d + C(k - 1), k)
    if f is None:
        raise Unsupported('cannot compute the length of slice (%s)/%d' % (show(d), k))
    return start, step, f[0]


def index_view(v, keys):
    """basic indexing with a list of Rat | SliceV | None (newaxis); one key per
    axis, newaxes extra.  Returns a View (ndim 0 when fully indexed)."""
    new_shape = []
    plan = []       # per old axis: ('fix', i) | ('ax', newaxis, start, step) ; in order
    ax = 0
    nax = 0
    newaxes = []
    for k in keys:
        if k is None:
            newaxes.append(nax)
            new_shape.append(ONE)
            nax += 1
            continue
        n = v.shape[ax]
        if isinstance(k, SliceV):
            st, sp, ln = norm_slice(k, n)
            plan.append(('ax', nax, st, sp))
            new_shape.append(ln)
            nax += 1
        else:
            plan.append(('fix', wrap_index(k, n)))
        ax += 1
    while ax < len(v.shape):
        plan.append(('ax', nax, ZERO, 1))
        new_shape.append(v.shape[ax])
        nax += 1
        ax += 1
    if all(p[0] == 'ax' and p[1] == i and p[2].is_zero() and p[3] == 1 and
           new_shape[i].eq(v.shape[i]) for i, p in enumerate(plan)) and not newaxes:
        return v
    shape = tuple(new_shape)
    vf, vi = v.fwd, v.inv

    def fwd(idx):
        out = []
        for p in plan:
            if p[0] == 'fix':
                out.append(p[1])
            else:
                i = idx[p[1]]
                if p[3] != 1:
                    i = i.scale(p[3])
                out.append(i if p[2].is_zero() else p[2] + i)
        return vf(tuple(out))

    def inv(s):
        c, oi = vi(s)
        if c.op == 'false':
            return c, None
        cs = [c]
        res = [ZERO] * len(shape)
        for p, o in zip(plan, oi):
            if p[0] == 'fix':
                e = decide_eq(o, p[1])
                if e is False:
                    return FALSE, None
                if e is None:
                    cs.append(ceq(o, p[1]))
            else:
                d = o - p[2]
                if p[3] < 0:
                    d = -d
                st = abs(p[3])
                if st != 1:
                    f = floordiv(d, st)
                    if f is None:
                        raise Unsupported('cannot decide whether %s is a multiple of %d'
                                          % (show(d), st))
                    if f[1]:
                        return FALSE, None
                    d = f[0]
                lo = cge(d, ZERO)
                if lo.op == 'false':
                    return FALSE, None
                hi = clt(d, shape[p[1]])
                if hi.op == 'false':
                    return FALSE, None
                cs += [lo, hi]
                res[p[1]] = d
        return cand(*cs), tuple(res)
    sig = v.sig + (('ix',) + tuple(
        (p[0], p[1].key()) if p[0] == 'fix' else (p[0], p[1], p[2].key(), p[3]) for p in plan)
        + tuple(newaxes),)
    return View(v.oid, shape, fwd, inv, v.dtype, sig)


def transpose_view(v, axes=None):
    n = len(v.shape)
    if axes is None:
        axes = tuple(reversed(range(n)))
    if tuple(axes) == tuple(range(n)):
        return v
    shape = tuple(v.shape[a] for a in axes)
    vf, vi = v.fwd, v.inv

    def fwd(idx):
        o = [None] * n
        for i, a in enumerate(axes):
            o[a] = idx[i]
        return vf(tuple(o))

    def inv(s):
        c, o = vi(s)
        if o is None:
            return c, None
        return c, tuple(o[a] for a in axes)
    return View(v.oid, shape, fwd, inv, v.dtype, v.sig + (('tr',) + tuple(axes),))


def reshape_map(old, new):
    """(fwd: new idx -> old idx, inv: old idx -> new idx) in C order"""
    groups = []
    i = j = 0
    while i < len(old) or j < len(new):
        if i >= len(old):
            if new[j].eq(ONE):
                groups.append(([], [j]))
                j += 1
                continue
            raise Unsupported('reshape')
        if j >= len(new):
            if old[i].eq(ONE):
                groups.append(([i], []))
                i += 1
                continue
            raise Unsupported('reshape')
        gi, gj = [i], [j]
        po, pn = old[i], new[j]
        i += 1
        j += 1
        while not po.eq(pn):
            s = signs(po - pn)
            if s <= {-1} or (i < len(old) and j >= len(new)) or (i < len(old) and not s <= {1}):
                if i >= len(old):
                    raise Unsupported('reshape %s -> %s' % (show(tuple(old)), show(tuple(new))))
                po = po * old[i]
                gi.append(i)
                i += 1
            else:
                if j >= len(new):
                    raise Unsupported('reshape %s -> %s' % (show(tuple(old)), show(tuple(new))))
                pn = pn * new[j]
                gj.append(j)
                j += 1
        groups.append((gi, gj))

    def conv(src_axes, src_shape, dst_axes, dst_shape, idx, out):
        if not dst_axes:
            return
        if len(src_axes) == len(dst_axes) and all(
                src_shape[a].eq(dst_shape[b]) for a, b in zip(src_axes, dst_axes)):
            for a, b in zip(src_axes, dst_axes):
                out[b] = idx[a]
            return
        flat = ZERO
        for a in src_axes:
            flat = flat * src_shape[a] + idx[a]
        if len(dst_axes) == 1:
            out[dst_axes[0]] = flat
            return
        for b in reversed(dst_axes[1:]):
            k = dst_shape[b].as_int()
            if k is None:
                raise Unsupported('reshape needs constant trailing dimensions')
            f = floordiv(flat, k)
            if f is None:
                raise Unsupported('cannot split index %s by %d' % (show(flat), k))
            out[b] = C(f[1])
            flat = f[0]
        out[dst_axes[0]] = flat

    def fwd(idx):
        out = [ZERO] * len(old)
        for gi, gj in groups:
            conv(gj, new, gi, old, idx, out)
        return tuple(out)

    def inv(idx):
        out = [ZERO] * len(new)
        for gi, gj in groups:
            conv(gi, old, gj, new, idx, out)
        return tuple(out)
    return fwd, inv


def reshape_view(v, new):
    if len(new) == len(v.shape) and all(a.eq(b) for a, b in zip(new, v.shape)):
        return v
    f, g = reshape_map(v.shape, new)
    vf, vi = v.fwd, v.inv

    def inv(s):
        c, o = vi(s)
        if o is None:
            return c, None
        return c, g(o)
    return View(v.oid, tuple(new), lambda i: vf(f(i)), inv, v.dtype,
                v.sig + (('rs',) + tuple(s.key() for s in new),))


def broadcast_shape(shapes):
    """numpy broadcasting; raises ValueError when provably impossible"""
    n = max(len(s) for s in shapes)
    out = []
    for k in range(n):
        d = ONE
        for s in shapes:
            j = k - (n - len(s))
            if j < 0:
                continue
            x = s[j]
            if x.eq(ONE):
                continue
            if d.eq(ONE):
                d = x
            elif not d.eq(x):
                e = decide_eq(d, x)
                one = decide_eq(x, ONE) is not False or decide_eq(d, ONE) is not False
                if e is False and not one:
                    raise ValueError('operands could not be broadcast together (%s vs %s)'
                                     % (show(d), show(x)))
                if e is False or d.as_int() is not None or x.as_int() is not None:
                    # sizes that differ for all but degenerate meshes
                    raise ValueError('operands could not be broadcast together (%s vs %s)'
                                     % (show(d), show(x)))
                raise Unsupported('cannot compare array dimensions %s and %s'
                                  % (show(d), show(x)))
        out.append(d)
    return tuple(out)


def bidx(shape, full_shape, idx):
    """index into an operand of `shape` broadcast to full_shape"""
    off = len(full_shape) - len(shape)
    return tuple(ZERO if (shape[k].eq(ONE) and not full_shape[off + k].eq(ONE)) else idx[off + k]
                 for k in range(len(shape)))
