"""Library functions described in Python, for the interpreter to interpret.

A function `a__b__c` describes the library function a.b.c.  Nothing here is
executed: the descriptions are read, like the code of the repository, by
sa.interp.  Only the values matter, not how the library computes them.
"""
import math
import numpy as np


# ------------------------------------------------------------------- numpy
def numpy__fromiter(it, dtype=float, count=-1):
    vals = list(it)
    if count >= 0:
        vals = vals[:count]
    return np.array(vals, dtype=dtype)


def numpy__isin(a, test, assume_unique=False, invert=False):
    a = np.asarray(a)
    r = np.zeros(a.shape, dtype=bool)
    for t in test:
        r = np.logical_or(r, a == t)
    if invert:
        r = np.logical_not(r)
    return r


def numpy__in1d(a, test, assume_unique=False, invert=False):
    return np.isin(np.ravel(a), test, invert=invert)


def _pad_axis(a, ax, lo, hi, mode, value):
    n = a.shape[ax]
    b = np.moveaxis(a, ax, 0) if ax else a
    parts = []
    if lo:
        if mode == 'constant':
            parts.append(np.zeros((lo,) + b.shape[1:]) + value[0])
        elif mode == 'edge':
            parts += [b[:1]] * lo
        else:
            parts.append(b[n - lo:])
    parts.append(b)
    if hi:
        if mode == 'constant':
            parts.append(np.zeros((hi,) + b.shape[1:]) + value[1])
        elif mode == 'edge':
            parts += [b[n - 1:]] * hi
        else:
            parts.append(b[:hi])
    b = np.concatenate(parts, axis=0)
    return np.moveaxis(b, 0, ax) if ax else b


def _widths(w, nd):
    if not isinstance(w, (tuple, list)):
        return [(w, w)] * nd
    if not isinstance(w[0], (tuple, list)):
        if len(w) == 1:
            return [(w[0], w[0])] * nd
        return [tuple(w)] * nd
    if len(w) == 1:
        return [tuple(w[0])] * nd
    return [tuple(x) for x in w]


def numpy__pad(array, pad_width, mode='constant', constant_values=0):
    a = np.asarray(array)
    if mode not in ('constant', 'edge', 'wrap'):
        _unsupported('np.pad mode')
    vs = _widths(constant_values, a.ndim)
    for ax, w in enumerate(_widths(pad_width, a.ndim)):
        if w[0] or w[1]:
            a = _pad_axis(a, ax, w[0], w[1], mode, vs[ax])
    return a


def numpy__argmax(a, axis=None):
    if axis is not None:
        _unsupported('argmax along an axis')
    a = np.ravel(a)
    best = 0
    for i in range(1, len(a)):
        if a[i] > a[best]:
            best = i
    return best


def numpy__argmin(a, axis=None):
    if axis is not None:
        _unsupported('argmin along an axis')
    a = np.ravel(a)
    best = 0
    for i in range(1, len(a)):
        if a[i] < a[best]:
            best = i
    return best


def numpy__argsort(a, axis=-1, kind=None):
    a = np.asarray(a)
    if a.ndim != 1:
        _unsupported('argsort of a matrix')
    return np.array(sorted(range(len(a)), key=lambda i: a[i]), dtype=int)


class _Finfo:
    eps = 2.0 ** -52
    epsneg = 2.0 ** -53
    tiny = 2.0 ** -1022
    smallest_normal = 2.0 ** -1022
    max = (2.0 - 2.0 ** -52) * 2.0 ** 1023
    min = -(2.0 - 2.0 ** -52) * 2.0 ** 1023
    resolution = 1e-15
    bits = 64


def numpy__finfo(dtype=float):
    return _Finfo()


def numpy__dstack(tup):
    out = []
    for a in tup:
        a = np.asarray(a)
        out.append(a[None, :, None] if a.ndim == 1 else a[:, :, None] if a.ndim == 2 else a)
    return np.concatenate(out, axis=2)


def numpy__kron(a, b):
    a = np.asarray(a)
    b = np.asarray(b)
    if a.ndim == 1 and b.ndim == 1:
        return (a[:, None] * b[None, :]).reshape(a.shape[0] * b.shape[0])
    if a.ndim != 2 or b.ndim != 2:
        _unsupported('np.kron')
    t = a[:, None, :, None] * b[None, :, None, :]
    return t.reshape(a.shape[0] * b.shape[0], a.shape[1] * b.shape[1])


def numpy__ix_(*args):
    n = len(args)
    out = []
    for i, a in enumerate(args):
        a = np.asarray(a)
        out.append(a.reshape((1,) * i + (len(a),) + (1,) * (n - i - 1)))
    return tuple(out)


def numpy__ndindex(*shape):
    if len(shape) == 1 and isinstance(shape[0], tuple):
        shape = shape[0]
    out = [()]
    for n in shape:
        out = [t + (i,) for t in out for i in range(n)]
    return iter(out)


def numpy__ndenumerate(a):
    a = np.asarray(a)
    return iter([(t, a[t]) for t in np.ndindex(a.shape)])


def numpy__indices(dimensions, dtype=int, sparse=False):
    nd = len(dimensions)
    out = []
    for i, n in enumerate(dimensions):
        r = np.arange(n).reshape((1,) * i + (n,) + (1,) * (nd - i - 1))
        out.append(r if sparse else r + np.zeros(dimensions, dtype=int))
    return tuple(out) if sparse else np.stack(out)


def numpy__fromfunction(function, shape, dtype=float, **kw):
    nd = len(shape)
    out = []
    for i, n in enumerate(shape):
        r = np.arange(n, dtype=dtype).reshape((1,) * i + (n,) + (1,) * (nd - i - 1))
        out.append(r + np.zeros(shape, dtype=dtype))
    return function(*out, **kw)


def numpy__divmod(a, b):
    return np.floor_divide(a, b), np.mod(a, b)


def numpy__diagonal(a, offset=0):
    return np.diag(a, offset)


def numpy__multiply__reduce(a, axis=0):
    return np.prod(a, axis=axis)


def numpy__add__accumulate(a, axis=0):
    return np.cumsum(a, axis=axis)


def numpy__multiply__accumulate(a, axis=0):
    return np.cumprod(a)


def numpy__apply_along_axis(func1d, axis, arr, *args, **kw):
    a = np.asarray(arr)
    if a.ndim == 1:
        return func1d(a, *args, **kw)
    if a.ndim != 2:
        _unsupported('apply_along_axis')
    if axis in (0, -2):
        out = [func1d(a[:, j], *args, **kw) for j in range(a.shape[1])]
        return np.array(out).T
    out = [func1d(a[i, :], *args, **kw) for i in range(a.shape[0])]
    return np.array(out)


def numpy__choose(a, choices):
    a = np.asarray(a)
    r = choices[0]
    for k in range(1, len(choices)):
        r = np.where(a == k, choices[k], r)
    return r


def numpy__heaviside(x, h):
    return np.where(np.asarray(x) < 0, 0.0, np.where(np.asarray(x) == 0, h, 1.0))


def numpy__lib__stride_tricks__sliding_window_view(x, window_shape, axis=None):
    if isinstance(window_shape, (tuple, list)):
        window_shape = window_shape[0]
    x = np.asarray(x)
    if axis is None:
        axis = 0
        if x.ndim != 1:
            _unsupported('sliding_window_view')
    if axis < 0:
        axis += x.ndim
    n = x.shape[axis]
    pre = (slice(None),) * axis
    return np.stack([x[pre + (slice(k, n - window_shape + 1 + k),)] for k in range(window_shape)], axis=-1)


def numpy__hsplit(a, n):
    a = np.asarray(a)
    return np.split(a, n, axis=0 if a.ndim == 1 else 1)


def numpy__vsplit(a, n):
    return np.split(a, n, axis=0)


def numpy__nditer(a):
    return iter([v for v in np.ravel(a)])


def numpy__cumprod(a, axis=None):
    a = np.ravel(a)
    out = []
    p = 1
    for i in range(len(a)):
        p = p * a[i]
        out.append(p)
    return np.array(out)


def numpy__ediff1d(a):
    return np.diff(np.ravel(a))


def numpy__isscalar(x):
    return isinstance(x, (int, float, str, bool))


def numpy__searchsorted(a, v, side='left'):
    a = np.asarray(a)
    if side == 'left':
        return np.sum(a < v)
    return np.sum(a <= v)


def numpy__digitize(x, bins, right=False):
    bins = np.asarray(bins)
    if right:
        return np.sum(bins < x)
    return np.sum(bins <= x)


def numpy__broadcast_arrays(*args):
    arrs = [np.asarray(a) for a in args]
    z = np.zeros((1,))[0]
    t = sum([a * 0 for a in arrs], z)
    return [np.broadcast_to(a, np.shape(t)) for a in arrs]


def numpy__add__at(a, idx, b):
    if isinstance(idx, tuple) and len(idx) == 1:
        idx = idx[0]
    if isinstance(idx, int):
        a[idx] += b
        return
    idx = np.asarray(idx)
    b = b + np.zeros(idx.shape)
    for i in range(len(idx)):
        a[idx[i]] = a[idx[i]] + b[i]


def numpy__add__outer(a, b):
    return np.ravel(a)[:, None] + np.ravel(b)[None, :]


def numpy__subtract__outer(a, b):
    return np.ravel(a)[:, None] - np.ravel(b)[None, :]


def numpy__multiply__outer(a, b):
    return np.ravel(a)[:, None] * np.ravel(b)[None, :]


def numpy__power__outer(a, b):
    return np.ravel(a)[:, None] ** np.ravel(b)[None, :]


def numpy__array_equiv(a, b):
    return np.array_equal(a, b)


def numpy__around(a, decimals=0):
    return np.round(a, decimals)


def numpy__fix(x):
    return np.trunc(x)


def numpy__extract(condition, a):
    return np.ravel(a)[np.ravel(condition)]


def numpy__compress(condition, a, axis=None):
    if axis is None:
        return np.ravel(a)[np.asarray(condition)]
    if axis == 0:
        return np.asarray(a)[np.asarray(condition)]
    return np.asarray(a)[:, np.asarray(condition)]


def numpy__linalg__matrix_power(m, n):
    r = np.eye(len(m))
    if n < 0:
        m = np.linalg.inv(m)
        n = -n
    for _ in range(n):
        r = np.dot(r, m)
    return r


def numpy__exp2(x):
    return 2.0 ** np.asarray(x)


def numpy__var(a, axis=None, ddof=0):
    if axis is not None or ddof:
        _unsupported('np.var')
    a = np.asarray(a)
    return np.mean((a - np.mean(a)) ** 2)


def numpy__std(a, axis=None, ddof=0):
    if axis is not None or ddof:
        _unsupported('np.std')
    return np.sqrt(np.var(a))


def numpy__mgrid_(keys):
    out = np.indices(tuple([b - a for a, b in keys]))
    return np.stack([out[i] + keys[i][0] for i in range(len(keys))])


def numpy__polynomial__polynomial__polyvander(x, deg):
    x = np.asarray(x)
    return np.stack([x ** k for k in range(deg + 1)], axis=-1)


def numpy__polynomial__polynomial__polyder(c, m=1, scl=1, axis=0):
    c = list(c)
    for _ in range(m):
        c = [k * c[k] for k in range(1, len(c))] or [0.0]
    return np.array(c)


def numpy__polynomial__polynomial__polyint(c, m=1, k=0):
    if m != 1 or k != 0:
        _unsupported('polyint')
    c = list(c)
    return np.array([0.0] + [c[i] / (i + 1) for i in range(len(c))])


def numpy__polynomial__polynomial__polymul(a, b):
    a = list(a)
    b = list(b)
    out = [0.0] * (len(a) + len(b) - 1)
    for i in range(len(a)):
        for j in range(len(b)):
            out[i + j] = out[i + j] + a[i] * b[j]
    return np.array(out)


def _series_add(a, b, sign):
    a = list(a)
    b = list(b)
    n = max(len(a), len(b))
    return [(a[i] if i < len(a) else 0.0) + sign * (b[i] if i < len(b) else 0.0) for i in range(n)]


def numpy__polynomial__polynomial__polyadd(a, b):
    return np.array(_series_add(a, b, 1))


def numpy__polynomial__polynomial__polysub(a, b):
    return np.array(_series_add(a, b, -1))


def numpy__polynomial__legendre__legsub(a, b):
    return np.array(_series_add(a, b, -1))


def numpy__polynomial__legendre__legmulx(c):
    c = list(c)
    out = [0.0] * (len(c) + 1)
    for n in range(len(c)):
        out[n + 1] = out[n + 1] + c[n] * (n + 1) / (2 * n + 1)
        if n:
            out[n - 1] = out[n - 1] + c[n] * n / (2 * n + 1)
    return np.array(out)


class _Polynomial:
    def __init__(self, coef):
        self.coef = np.array(list(coef))

    def __call__(self, x):
        r = 0.0
        c = list(self.coef)
        for k in range(len(c) - 1, -1, -1):
            r = r * x + c[k]
        return r

    def deriv(self, m=1):
        return _Polynomial(np.polynomial.polynomial.polyder(self.coef, m))

    def integ(self, m=1):
        return _Polynomial(np.polynomial.polynomial.polyint(self.coef, m))

    def degree(self):
        return len(self.coef) - 1

    def __mul__(self, o):
        if isinstance(o, _Polynomial):
            return _Polynomial(np.polynomial.polynomial.polymul(self.coef, o.coef))
        return _Polynomial(self.coef * o)

    def __rmul__(self, o):
        return _Polynomial(self.coef * o)

    def __truediv__(self, o):
        return _Polynomial(self.coef / o)

    def __add__(self, o):
        c = o.coef if isinstance(o, _Polynomial) else [o]
        return _Polynomial(_series_add(self.coef, c, 1))

    def __radd__(self, o):
        return self + o

    def __sub__(self, o):
        c = o.coef if isinstance(o, _Polynomial) else [o]
        return _Polynomial(_series_add(self.coef, c, -1))

    def __neg__(self):
        return _Polynomial(-self.coef)


def numpy__polynomial__Polynomial(coef):
    return _Polynomial(coef)


def numpy__polynomial__polynomial__Polynomial(coef):
    return _Polynomial(coef)


class _Poly1d:
    def __init__(self, c):
        self.coeffs = np.array(list(c))
        self.c = self.coeffs
        self.order = len(self.coeffs) - 1

    def __call__(self, x):
        r = 0.0
        for c in list(self.coeffs):
            r = r * x + c
        return r

    def deriv(self, m=1):
        c = list(self.coeffs)[::-1]
        return _Poly1d(list(np.polynomial.polynomial.polyder(c, m))[::-1])


def numpy__poly1d(c):
    return _Poly1d(c)


def numpy__trapz(y, x=None, dx=1.0):
    y = np.asarray(y)
    if x is None:
        return np.sum((y[1:] + y[:-1]) * 0.5) * dx
    x = np.asarray(x)
    return np.sum((y[1:] + y[:-1]) * 0.5 * (x[1:] - x[:-1]))


def numpy__sinc(x):
    y = np.pi * np.asarray(x)
    return np.where(y == 0, 1.0, np.sin(y) / np.where(y == 0, 1.0, y))


def numpy__interp(x, xp, fp):
    xp = np.asarray(xp)
    fp = np.asarray(fp)
    n = len(xp)
    r = np.where(np.asarray(x) <= xp[0], fp[0], fp[n - 1])
    for i in range(n - 1):
        s = (fp[i + 1] - fp[i]) / (xp[i + 1] - xp[i])
        r = np.where(np.logical_and(x > xp[i], x <= xp[i + 1]), fp[i] + s * (x - xp[i]), r)
    return r


def numpy__cross(a, b):
    return np.array([a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]])


def numpy__take_along_axis(a, idx, axis):
    a = np.asarray(a)
    idx = np.asarray(idx)
    if a.ndim != 2 or axis not in (0, 1):
        _unsupported('take_along_axis')
    if axis == 0:
        return np.array([[a[idx[i, j], j] for j in range(idx.shape[1])] for i in range(idx.shape[0])])
    return np.array([[a[i, idx[i, j]] for j in range(idx.shape[1])] for i in range(idx.shape[0])])


# -------------------------------------------------------------------- math
def math__fsum(it):
    return sum(it)


def math__isclose(a, b, rel_tol=1e-09, abs_tol=0.0):
    return abs(a - b) <= max(rel_tol * max(abs(a), abs(b)), abs_tol)


def math__gcd(*args):
    r = 0
    for b in args:
        a = abs(r)
        b = abs(b)
        while b:
            a, b = b, a % b
        r = a
    return r


def math__perm(n, k=None):
    if k is None:
        k = n
    r = 1
    for i in range(k):
        r *= n - i
    return r


def math__dist(p, q):
    return math.sqrt(sum([(a - b) ** 2 for a, b in zip(p, q)]))


def math__copysign(a, b):
    return abs(a) if b >= 0 else -abs(a)


def statistics__mean(data):
    d = list(data)
    return sum(d) / len(d)


def statistics__fmean(data):
    d = list(data)
    return sum(d) / len(d)


# --------------------------------------------------------------- itertools
def itertools__zip_longest(*its, fillvalue=None):
    ls = [list(x) for x in its]
    n = max([len(x) for x in ls])
    return iter([tuple([x[i] if i < len(x) else fillvalue for x in ls]) for i in range(n)])


def itertools__starmap(f, it):
    return iter([f(*x) for x in it])


def itertools__takewhile(pred, it):
    out = []
    for x in it:
        if not pred(x):
            break
        out.append(x)
    return iter(out)


def itertools__dropwhile(pred, it):
    out = []
    on = False
    for x in it:
        if not on and pred(x):
            continue
        on = True
        out.append(x)
    return iter(out)


def itertools__pairwise(it):
    l = list(it)
    return zip(l[:-1], l[1:])


def itertools__chain__from_iterable(its):
    return iter([x for it in its for x in it])


def itertools__combinations(it, r):
    l = list(it)
    out = [()]
    for _ in range(r):
        out = [t + (i,) for t in out for i in range((t[-1] + 1) if t else 0, len(l))]
    return iter([tuple([l[i] for i in t]) for t in out])


def itertools__combinations_with_replacement(it, r):
    l = list(it)
    out = [()]
    for _ in range(r):
        out = [t + (i,) for t in out for i in range(t[-1] if t else 0, len(l))]
    return iter([tuple([l[i] for i in t]) for t in out])


def itertools__permutations(it, r=None):
    l = list(it)
    if r is None:
        r = len(l)
    out = [()]
    for _ in range(r):
        out = [t + (i,) for t in out for i in range(len(l)) if i not in t]
    return iter([tuple([l[i] for i in t]) for t in out])


def itertools__compress(data, selectors):
    return iter([d for d, s in zip(data, selectors) if s])


def itertools__filterfalse(pred, it):
    return iter([x for x in it if not (pred(x) if pred is not None else x)])


def itertools__groupby(it, key=None):
    out = []
    for x in it:
        k = x if key is None else key(x)
        if out and out[-1][0] == k:
            out[-1][1].append(x)
        else:
            out.append((k, [x]))
    return iter([(k, iter(g)) for k, g in out])


def itertools__tee(it, n=2):
    l = list(it)
    return tuple([iter(l) for _ in range(n)])


def itertools__batched(it, n):
    l = list(it)
    return iter([tuple(l[i:i + n]) for i in range(0, len(l), n)])


# ---------------------------------------------------------------- operator
def operator__neg(a):
    return -a


def operator__pos(a):
    return +a


def operator__abs(a):
    return abs(a)


def operator__getitem(a, b):
    return a[b]


def operator__setitem(a, b, c):
    a[b] = c


def operator__contains(a, b):
    return b in a


def operator__not_(a):
    return not a


def operator__truth(a):
    return bool(a)


def operator__and_(a, b):
    return a & b


def operator__or_(a, b):
    return a | b


def operator__is_(a, b):
    return a is b


def operator__iadd(a, b):
    a += b
    return a


def operator__isub(a, b):
    a -= b
    return a


def operator__imul(a, b):
    a *= b
    return a


def operator__concat(a, b):
    return a + b


def operator__methodcaller(name, *args, **kw):
    def call(obj):
        return getattr(obj, name)(*args, **kw)
    return call


# --------------------------------------------------------------- functools
def functools__cache(f):
    memo = {}

    def run(*args, **kw):
        key = (args, tuple(sorted(kw.items())))
        if key not in memo:
            memo[key] = f(*args, **kw)
        return memo[key]
    return run


def functools__lru_cache(maxsize=128, typed=False):
    if callable(maxsize):
        return functools__cache(maxsize)
    if maxsize == 0:
        return lambda f: f
    return functools__cache


def functools__cmp_to_key(f):
    class K:
        def __init__(self, v):
            self.v = v

        def __lt__(self, o):
            return f(self.v, o.v) < 0

        def __gt__(self, o):
            return f(self.v, o.v) > 0
    return K


# ------------------------------------------------------------- collections
class _Deque:
    def __init__(self, it=(), maxlen=None):
        self.l = []
        self.maxlen = maxlen
        for x in it:
            self.append(x)

    def append(self, x):
        self.l.append(x)
        if self.maxlen is not None and len(self.l) > self.maxlen:
            self.l.pop(0)

    def appendleft(self, x):
        self.l.insert(0, x)
        if self.maxlen is not None and len(self.l) > self.maxlen:
            self.l.pop()

    def extend(self, it):
        for x in it:
            self.append(x)

    def popleft(self):
        if not self.l:
            raise IndexError('pop from an empty deque')
        return self.l.pop(0)

    def pop(self):
        if not self.l:
            raise IndexError('pop from an empty deque')
        return self.l.pop()

    def clear(self):
        self.l = []

    def rotate(self, n=1):
        for _ in range(n):
            self.l.insert(0, self.l.pop())

    def __getitem__(self, i):
        return self.l[i]

    def __setitem__(self, i, v):
        self.l[i] = v

    def __len__(self):
        return len(self.l)

    def __iter__(self):
        return iter(self.l)

    def __contains__(self, x):
        return x in self.l

    def __bool__(self):
        return len(self.l) > 0


def collections__deque(it=(), maxlen=None):
    return _Deque(it, maxlen)


def collections__Counter(it=()):
    d = collections__defaultdict_int()
    for x in it:
        d[x] = d[x] + 1
    return d


def collections__defaultdict_int():
    import collections
    return collections.defaultdict(int)


def collections__ChainMap(*maps):
    d = {}
    for m in maps[::-1]:
        d.update(m)
    return d


class _Namespace:
    def __init__(self, **kw):
        for k, v in kw.items():
            setattr(self, k, v)


def types__SimpleNamespace(**kw):
    return _Namespace(**kw)


def types__MappingProxyType(d):
    return d


def copy__replace(obj, **kw):
    return dataclasses__replace(obj, **kw)


def dataclasses__replace(obj, **kw):
    d = {}
    for n in type(obj).__dataclass_names__:
        d[n] = getattr(obj, n)
    d.update(kw)
    return type(obj)(**d)


def dataclasses__asdict(obj):
    d = {}
    for n in type(obj).__dataclass_names__:
        d[n] = getattr(obj, n)
    return d


def dataclasses__astuple(obj):
    return tuple([getattr(obj, n) for n in type(obj).__dataclass_names__])


# ------------------------------------------------------------------ bisect
def bisect__bisect_left(a, x, lo=0, hi=None):
    n = 0
    for v in a:
        if not v < x:
            break
        n += 1
    return n


def bisect__bisect_right(a, x, lo=0, hi=None):
    n = 0
    for v in a:
        if x < v:
            break
        n += 1
    return n


def bisect__bisect(a, x, lo=0, hi=None):
    return bisect__bisect_right(a, x)


def bisect__insort(a, x):
    a.insert(bisect__bisect_right(a, x), x)


# ---------------------------------------------------------------- fractions
def fractions__Fraction(a=0, b=None):
    if b is None:
        return a
    return a / b


def shlex__split(s, comments=False, posix=True):
    if '"' in s or "'" in s or '\\' in s:
        _unsupported('shlex.split of a quoted string')
    return s.split()


def contextlib__nullcontext(v=None):
    return _Null(v)


class _Null:
    def __init__(self, v):
        self.v = v

    def __enter__(self):
        return self.v

    def __exit__(self, *a):
        return False


def contextlib__closing(v):
    return _Closing(v)


class _Closing:
    def __init__(self, v):
        self.v = v

    def __enter__(self):
        return self.v

    def __exit__(self, *a):
        self.v.close()


class functools__cached_property:
    def __init__(self, f):
        self.f = f
