"""Builders shared by the checks: symbolic inputs of the repository's public
classes and functions, and the reference operators they are compared with."""
from fractions import Fraction
from .alg import *
from .arr import *
from . import arr as A
from . import witness
from .interp import *
from .strs import AStr, mkstr, Fmt, Tok
from .harness import Failed, Vanished, Stop
from . import legendre as LG

NE = sym('N_E', isint=True, pos=True)
FACTS.push(NE, ONE, None)

ICS = {'sinewave': ('advection', 0), 'ictest': ('advection', 0), 'simplew': ('euler', 0),
       'entrpyw': ('euler', 0), 'acsticw': ('euler', 0), 'scktube': ('euler', 7),
       'shuoshe': ('euler', 0)}
TUBE = ('xd', 'rL', 'uL', 'pL', 'rR', 'uR', 'pR')


def tokval(I, name, kind):
    if kind == 'int' and name == 'NE':
        return NE
    return finite(sym(name))


def interp(ctx, **kw):
    I = ctx.interp(**kw)
    I.hooks['tokval'] = tokval
    return I


def module(I, name):
    m = I.load_module(name)
    if m is None:
        raise Vanished('module %s' % name)
    return m


def member(I, ref, name):
    try:
        v = I.attr(ref, name)
    except PyExc:
        raise Vanished('%r has no attribute %s' % (ref, name))
    return settled(I, v)


def settled(I, v):
    """an array that is one of several: the content it has in each case"""
    if not isinstance(v, Choice):
        return v
    v = I.resolve(v)
    if not isinstance(v, Choice):
        return v
    a, b = settled(I, v.a), settled(I, v.b)
    if not (isinstance(a, View) and isinstance(b, View) and len(a.shape) == len(b.shape) and
            all(x.eq(y) for x, y in zip(a.shape, b.shape))):
        return v
    ga, gb = I.getter(a), I.getter(b)
    return I.arr(a.shape, lambda ix: ite(v.c, ga(ix), gb(ix)))


def func(I, mod, name):
    return member(I, module(I, mod), name)


def line(ic, extra=()):
    toks = [ic, ' ', Tok('NE')]
    for q in (TUBE if ic == 'scktube' and not extra else extra):
        toks += [' ', Tok(q)]
    return mkstr(toks)


def invoke(ctx, I, what, f, args=(), kw=None, allow=(), conds=()):
    """call f; every exception it can raise on the domain is a violation unless
    its type is in allow"""
    n = len(I.raised)
    dead = None
    r = None
    ctx.subject = where(I, f) or ctx.subject
    try:
        r = I.call(f, tuple(args), kw or {})
    except PyExc as e:
        I.raised.append((I.st, e.exc))
        dead = True
    except Dead:
        dead = True
    for st, exc in I.raised[n:]:
        if exc.type in allow:
            continue
        unexpected(ctx, I, what, st, exc, conds)
    if dead:
        if not any(not o[1] == 'ok' for o in ctx.obs):
            ctx.ob(what + ' returns', False, 'never returns: %r' % (I.raised[n:],), I.loc)
        raise Stop()
    return r


def warm(I, f, args=(), kw=None):
    """an earlier use of the same function, with other data"""
    r, l = len(I.raised), len(I.loop_log)
    try:
        v = I.call(f, tuple(args), kw or {})
    except PyExc as e:
        raise Failed('an earlier use of %s' % getattr(f, 'name', 'it'), e.exc)
    except Dead as e:
        for st, exc in I.raised[r:]:
            if st is None or not st.pc or witness.point(tuple(st.pc)) is not None:
                raise Failed('an earlier use of %s' % getattr(f, 'name', 'it'), exc)
        raise Vanished('an earlier use does not return (%s)' % e)
    del I.raised[r:]
    del I.loop_log[l:]
    return v


def unexpected(ctx, I, what, st, exc, conds=()):
    pc = tuple(st.pc) if st is not None else ()
    if pc:
        w = witness.point(tuple(pc) + tuple(conds))
        if w is None:
            if not satisfiable(list(pc) + list(conds)):
                return
            ctx.skip(what + ' does not raise', 'possible %r under %s' % (exc, show(pc, 200)))
            return
        at = ', '.join('%s=%.6g' % x for x in sorted(w.named.items())[:10]
                       if not isinstance(x[1], bool))
        ctx.ob(what + ' does not raise', False, '%r when %s (for instance %s)'
               % (exc, show(pc, 300), at), exc.loc)
    else:
        ctx.ob(what + ' does not raise', False, '%r' % (exc,), exc.loc)


def solution(ctx, I, ic='entrpyw', p=1, rs='roe', enh='', th=(), system=None, extra=()):
    sysname = system or ICS[ic][0]
    cls = func(I, 'dg1d.solution', 'Solution')
    th_ = I.list_([x if isinstance(x, Rat) else C(Fraction(str(x))) for x in th])
    r = invoke(ctx, I, 'Solution(%s, p=%d)' % (ic, p), cls,
            (line(ic, extra), sysname, C(p), rs, enh, th_))
    for e in I.st.events:
        if e.kind == 'caught':
            w = witness.point(tuple(e.pc))
            if w is not None:
                ctx.ob('Solution(%s, p=%d) sets up its initial condition' % (ic, p), False,
                       'exception %r swallowed, the solution is empty' % (e.data[0],), e.loc)
                raise Stop()
    return r


def const_gamma(I, g):
    m = module(I, 'dg1d.constants')
    I.call(member(I, m, 'init'), (), {})
    member(I, m, 'gamma')
    I.setattr_(m, 'gamma', g)


def data(I, ref):
    return I.obj(ref).data


def shape(I, v):
    return tuple(v.shape)


def elem2(name, i, j, pos=False):
    return Rat.of(atom('elem', name, (i, j), pos=pos))


def generic(I, sol, name='U'):
    """replace the coefficients by arbitrary ones (ghost cells included)"""
    u = member(I, sol, 'u')
    I.setattr_(sol, 'u', I.arr(u.shape, lambda ix: Rat.of(atom('elem', name, tuple(ix)))))


PICK = [None]       # which cell is looked at when the number of cells is fixed


def cell(name='e', lo=ONE, hi=None):
    if PICK[0] is not None:
        lo, hi = lo.as_int(), (NE if hi is None else hi).as_int()
        return C(min(lo + PICK[0], hi))
    k = sym(name, isint=True)
    FACTS.push(k, lo, NE if hi is None else hi)
    return k


def positive_state(I, tag, gam, kind='sqrt'):
    """a conservative Euler state parametrised by positive density and sound
    speed and any velocity; returns dict"""
    r = sym('r' + tag, pos=True)
    a = sym('a' + tag, pos=True)
    v = finite(sym('v' + tag))
    rho = r * r
    p = rho * a * a / gam
    E = p / (gam - ONE) + rho * v * v * HALF
    return {'rho': rho, 'v': v, 'a': a, 'p': p, 'E': E, 'm': rho * v, 'H': (E + p) / rho,
            'u': (rho, rho * v, E), 'flux': (rho * v, rho * v * v + p, (E + p) * v)}


def gamma_sym():
    """gamma > 1"""
    return ONE + sym('gm1', pos=True)


def bcname(*k):
    return k


# ------------------------------------------------------------------ reference
def leg(n, x):
    return LG.leg_value(n, x)


def dleg(n, x):
    return LG.leg_deriv(n, x)


def nodes(p):
    n = p + 1
    return [LG.gauss_node(n, g) for g in range(n)], [LG.gauss_weight(n, g) for g in range(n)]


def ghosted(U, bc_l, bc_r, nf):
    """reader (mode, cell, field) of the coefficients with ghost cells filled;
    U(mode, cell, field) gives interior values"""
    def at(m, c, f):
        lo = U(m, NE if bc_l == 'periodic' else ONE, f)
        hi = U(m, ONE if bc_r == 'periodic' else NE, f)
        v = U(m, c, f)
        r = ite(ceq(c, NE + ONE), hi, v)
        return ite(ceq(c, ZERO), lo, r)
    return at


# ---------------------------------------------------------- opaque operators
def triples(I, v, axis=0):
    """reader of the three fields at interface/node i of an interleaved array"""
    g = I.getter(v)

    def at(i, c, g0=()):
        return g(tuple(g0) + (i * C(3) + C(c),))
    return at


def third(idx):
    d = floordiv(idx, 3)
    if d is None:
        raise Unsupported('position of an interface is not decided')
    return d


def opaque_riemann(tag='q'):
    """replaces an interface flux by three uninterpreted functions of the two states"""
    def f(I, func_, args, kw):
        ul, ur = bind2(func_, args, kw)
        a, b = triples(I, ul), triples(I, ur)

        def at(ix):
            i, c = third(ix[0])
            return fn('%s%d' % (tag, c), a(i, 0), a(i, 1), a(i, 2), b(i, 0), b(i, 1), b(i, 2))
        return I.arr(ul.shape, at)
    return f


def opaque_flux(tag='f'):
    def f(I, func_, args, kw):
        (u,) = bind2(func_, args, kw)
        a = triples(I, u)

        def at(ix):
            i, c = third(ix[1])
            g = (ix[0],)
            return fn('%s%d' % (tag, c), a(i, 0, g), a(i, 1, g), a(i, 2, g))
        return I.arr(u.shape, at)
    return f


def bind2(func_, args, kw):
    names = [x.arg for x in func_.node.args.args]
    vals = list(args) + [kw[n] for n in names[len(args):] if n in kw]
    return vals


EULER = 'dg1d.euler_physics.'


def opaque_euler(I, riemann=True, flux=True):
    if riemann:
        for n in ('rusanov', 'godunov', 'roe'):
            I.intercept[EULER + 'riemann_' + n] = opaque_riemann('q' + n)
    if flux:
        I.intercept[EULER + 'interior_flux'] = opaque_flux('f')


def set_bc(I, sol, l, r):
    for n, v in (('bc_l', l), ('bc_r', r)):
        member(I, sol, n)
        I.setattr_(sol, n, v)


def set_u(I, sol, name):
    generic(I, sol, name)


def refill(I, sol, name):
    """other coefficients in the same array, as an update in place makes them"""
    from .lib import write_view
    u = I.resolve(member(I, sol, 'u')) if isinstance(member(I, sol, 'u'), Choice) else member(I, sol, 'u')
    if not isinstance(u, View):
        return generic(I, sol, name)
    write_view(I, u, lambda ix: Rat.of(atom('elem', name, tuple(ix))))


def element(I, v, ix):
    """an element of an array that may be one of several"""
    if isinstance(v, Choice):
        return ite(v.c, element(I, v.a, ix), element(I, v.b, ix))
    if isinstance(v, View) and any(s.is_zero() for s in v.shape):
        return sym(I.fresh('nothing'))      # an empty array
    return I.getter(v)(ix)


def coef(I, sol, m, c, f):
    """coefficient m of field f in cell c (ghost cells included)"""
    nf = member(I, sol, 'N_F')
    return element(I, member(I, sol, 'u'), (C(m), c * nf + C(f)))


def residual_ref(p, system, rs, U, dx, e, faces=None):
    """the DG weak form: U(m, cell, field) with ghosts; returns {(mode, field): value}"""
    X, W = nodes(p)
    nf = 1 if system == 'advection' else 3

    def upoly(c, x, f):
        s = ZERO
        for m in range(p + 1):
            s = s + leg(m, x) * U(m, c, f)
        return s
    if faces is None:
        def faces(c, side, f):
            return upoly(c, ONE if side else C(-1), f)

    def q(cl, cr, f):
        if system == 'advection':
            return faces(cl, 1, 0)
        return fn('q%s%d' % (rs, f), *([faces(cl, 1, k) for k in range(3)]
                                       + [faces(cr, 0, k) for k in range(3)]))
    out = {}
    for f in range(nf):
        fl = [upoly(e, x, 0) if system == 'advection' else
              fn('f%d' % f, *[upoly(e, x, k) for k in range(3)]) for x in X]
        qr, ql = q(e, e + ONE, f), q(e - ONE, e, f)
        for m in range(p + 1):
            s = ZERO
            for x, w, v in zip(X, W, fl):
                s = s + w * dleg(m, x) * v
            out[m, f] = (s - qr + ql.scale((-1) ** m)) * C(2 * m + 1) / dx
    return out


# ----------------------------------------------------------- time integration
IOTA = sym('\u03b9', isint=True)
FACTS.push(IOTA, ONE, NE)


def content(I, sol):
    """interior content of a solution as a function of the bound position"""
    u = member(I, sol, 'u')
    g = I.getter(u)
    nf = member(I, sol, 'N_F').as_int()
    return tuple(g((C(m), IOTA * C(nf) + C(f)))
                 for m in range(u.shape[0].as_int()) for f in range(nf))


def opaque_residual(I):
    def f(I, func_, args, kw):
        self_, sol = bind2(func_, args, kw)
        body = content(I, sol)
        u = member(I, sol, 'u')
        I.event('residual', body)
        return I.arr(u.shape, lambda ix: fn('Res', ix[0], ix[1], body))
    I.intercept['dg1d.dg.DG.residual'] = f


def opaque_limiter(I):
    def f(I, func_, args, kw):
        self_, sol = bind2(func_, args, kw)
        body = content(I, sol)
        u = member(I, sol, 'u')
        I.event('limit', body)
        I.setattr_(sol, 'u', I.arr(u.shape, lambda ix: fn('Lim', ix[0], ix[1], body)))
        return None
    I.intercept['dg1d.limiting.Limiter.limit'] = f


def log_printer(I):
    def f(I, func_, args, kw):
        self_, n, dt = bind2(func_, args, kw)
        I.event('printer', n, dt, member(I, self_, 't'), content(I, self_))
        return None
    I.intercept['dg1d.solution.Solution.printer'] = f


T0 = finite(sym('t0'))
DT = sym('Dt', pos=True)        # distance between output times
NOUT = sym('nout', isint=True, pos=True)
FACTS.push(NOUT, TWO, None)
CFL = sym('cfl', pos=True)
VMAX = sym('vmax', pos=True)


def integration(ctx, I, rk, p=0, limiter=None, nout=NOUT, system='advection', prepare=None):
    """interpret integrate() from an arbitrary state; returns (sol, loop record)"""
    sol = solution(ctx, I, 'sinewave' if system == 'advection' else 'entrpyw', p, '')
    set_u(I, sol, 'U')
    I.setattr_(sol, 't', T0)
    D = invoke(ctx, I, 'DG', func(I, 'dg1d.dg', 'DG'), (sol,))
    L = invoke(ctx, I, 'Limiter', func(I, 'dg1d.limiting', 'Limiter'), ('', sol))
    opaque_residual(I)
    log_printer(I)
    if limiter:
        opaque_limiter(I)
    dk = invoke(ctx, I, 'Deck', func(I, 'dg1d.deck', 'Deck'), ())
    for n, v in (('rk', rk), ('finaltime', T0 + DT * (nout - ONE)), ('cfl', CFL), ('nout', nout)):
        member(I, dk, n)
        I.setattr_(dk, n, v)
    I.hooks['havoc_while'] = True
    I.intercept['dg1d.solution.Solution.max_wave_speed'] = lambda I, f, a, k: VMAX
    if prepare:
        prepare(I, sol, dk)
    n = len(I.loop_log)
    I.n_entry = len(I.st.events)
    ctx.subject = where(I, func(I, 'dg1d.rk', 'integrate'))
    r0 = len(I.raised)
    try:
        I.call(func(I, 'dg1d.rk', 'integrate'), (sol, dk, D, L), {})
    except PyExc as e:
        I.raised.append((I.st, e.exc))
    except Dead:
        pass
    I.rk_raised = I.raised[r0:]
    loops = I.loop_log[n:]
    return sol, loops, dk


class At:
    """look at an earlier or later state"""

    def __init__(self, I, st):
        self.I, self.st = I, st

    def __enter__(self):
        self.old = self.I.st
        self.I.st = self.st

    def __exit__(self, *a):
        self.I.st = self.old


def table(ctx, I, rk):
    """the coefficient table of an integrator: (c, alpha, beta), entries free of variables"""
    f = func(I, 'dg1d.rk_coeffs', 'get_%s_coefficients' % rk)
    r = invoke(ctx, I, 'coefficients of ' + rk, f, ())
    r = I.items(r)

    def vec(v):
        n = I.lib.length(I, v).as_int()
        return [const(I.lib.getitem(I, v, C(i))) for i in range(n)]
    c, a = vec(r[0]), vec(r[1])
    B = r[2]
    s = len(c)
    b = [[const(I.lib.getitem(I, B, (C(i), C(j)))) if isinstance(B, View) else
          const(I.lib.getitem(I, I.lib.getitem(I, B, C(i)), C(j)))
          for j in range(B.shape[1].as_int() if isinstance(B, View) else s)] for i in range(len(a))]
    return c, a, b


def const(x):
    x = x if isinstance(x, Rat) else C(x)
    if x.as_const() is None and numeric(x) is None:
        raise Unsupported('coefficient %s is not a constant' % show(x))
    return x


def number(x):
    """value of a variable-free Rat as a fraction (exact, or to 60 digits)"""
    c = x.as_const()
    return c if c is not None else Fraction(numeric(x))


_h, _t, _s = C(Fraction(1, 2)), C(Fraction(1, 3)), C(Fraction(1, 6))
RK4 = ([_s, _t, _t, _s], [ZERO, _h, _h, ONE],
       [[ZERO] * 4, [_h, ZERO, ZERO, ZERO], [ZERO, _h, ZERO, ZERO], [ZERO, ZERO, ONE, ZERO]])


def places(sol_u_rows, nf):
    """the position (row, column) of each component of content()"""
    return [(C(m), IOTA * C(nf) + C(f)) for m in range(sol_u_rows) for f in range(nf)]


def reference_step(tab, start, h, limited, pos):
    """start(m, position) -> one step of the scheme with table tab; returns a
    tuple like content() and the list of residual arguments"""
    c, a, b = tab
    ns = len(start)
    args = []

    def lim(body):
        if not limited:
            return body
        return tuple(fn('Lim', pos[m][0], pos[m][1], body) for m in range(ns))
    K = []
    for k in range(len(c)):
        st = list(start)
        for j in range(k):
            if abs(number(b[k][j])) > Fraction(1, 10 ** 15):
                st = [x + b[k][j] * h * K[j][m] for m, x in enumerate(st)]
        st = tuple(st)
        if k > 0:
            st = lim(st)
        args.append(st)
        K.append([fn('Res', pos[m][0], pos[m][1], st) for m in range(ns)])
    new = list(start)
    for k in range(len(c)):
        new = [x + c[k] * h * K[k][m] for m, x in enumerate(new)]
    return lim(tuple(new)), args


def where(I, f):
    """file:line of the definition a call goes to"""
    if isinstance(f, Bound):
        f = f.func
    if isinstance(f, ClassV):
        f = f.lookup('__init__')
    if isinstance(f, Func):
        path = f.mod[0] if isinstance(f.mod, tuple) else f.mod
        return '%s:%d in %s' % (path, f.node.lineno, f.qual)
    return None


# -------------------------------------------------------------- Euler states
def at_elem(name, i, pos=False):
    return Rat.of(atom('elem', name, (i,), pos=pos))


def prim(tag, i, gam, mirror=False):
    """positive density and sound speed, any velocity, at interface i"""
    r, a = at_elem('r' + tag, i, True), at_elem('a' + tag, i, True)
    v = at_elem('v' + tag, i)
    FINITE.add(next(iter(v.atoms())))
    if mirror:
        v = -v
    return state(r * r, v, a, gam)




def state(rho, v, a, gam):
    p = rho * a * a / gam
    E = p / (gam - ONE) + rho * v * v * HALF
    return {'rho': rho, 'v': v, 'a': a, 'p': p, 'E': E, 'm': rho * v, 'H': (E + p) / rho,
            'u': (rho, rho * v, E), 'flux': (rho * v, rho * v * v + p, (E + p) * v)}


def states(I, tag, gam, n, mirror=False):
    """an array of n interleaved states"""
    def at(ix):
        i, c = third(ix[0])
        return prim(tag, i, gam, mirror)['u'][c]
    return I.arr((n * C(3),), at)


NI = sym('N_I', isint=True, pos=True)
FACTS.push(NI, ONE, None)


def interface():
    if PICK[0] is not None:
        return C(max(0, min(PICK[0], NI.as_int() - 1)))
    i = sym('i', isint=True)
    FACTS.push(i, ZERO, NI - ONE)
    return i


def rusanov_ref(L, R):
    s = rmax(rabs(L['v']) + L['a'], rabs(R['v']) + R['a'])
    return tuple((L['flux'][c] + R['flux'][c] - s * (R['u'][c] - L['u'][c])) * HALF for c in range(3))


def roe_ref(L, R, gam):
    """Roe's flux with Harten's entropy fix of width 4 max(0, lambda_R - lambda_L)"""
    RT = power(R['rho'] / L['rho'], HALF)
    rho = RT * L['rho']
    v = (L['v'] + RT * R['v']) / (ONE + RT)
    H = (L['H'] + RT * R['H']) / (ONE + RT)
    a = power((gam - ONE) * (H - v * v * HALF), HALF)
    dp, dv, dr = R['p'] - L['p'], R['v'] - L['v'], R['rho'] - L['rho']

    def fix(w, s):
        w = rabs(w)
        Da = rmax(ZERO, C(4) * ((R['v'] + s * R['a']) - (L['v'] + s * L['a'])))
        return ite(clt(w, Da * HALF), w * w / Da + Da / C(4), w)
    l = (fix(v - a, C(-1)), rabs(v), fix(v + a, ONE))
    s = ((dp - rho * a * dv) / (C(2) * a * a), dr - dp / (a * a), (dp + rho * a * dv) / (C(2) * a * a))
    vec = ((ONE, v - a, H - v * a), (ONE, v, v * v * HALF), (ONE, v + a, H + v * a))
    return tuple((L['flux'][c] + R['flux'][c]) * HALF -
                 HALF * sum((l[k] * s[k] * vec[k][c] for k in range(3)), ZERO) for c in range(3))


# --------------------------------------------------------------------------
# what a program draws
# --------------------------------------------------------------------------
class Figures:
    """the curves drawn with matplotlib, by figure: [(abscissas, ordinates, place)]"""
    CURVES = ('plot', 'scatter', 'loglog', 'semilogx', 'semilogy', 'errorbar')

    def __init__(self, I, values, first=1):
        self.drawn, self.fig, self.values, self.last = {}, first, values, None
        I.hooks['call_ext'] = self.ext
        I.hooks['opaque'] = self.method

    def number(self, a, kw):
        x = a[0] if a else kw.get('num', C(max(self.drawn, default=-1) + 1))
        if not isinstance(x, Rat) or x.as_int() is None:
            raise Unsupported('figure %r' % (x,))
        return x.as_int()

    def select(self, n):
        self.fig = n
        self.drawn.setdefault(n, [])

    def draw(self, I, n, a):
        if I.st.pc:
            raise Unsupported('conditional plot')
        if len(a) < 2:
            raise Unsupported('plot of one array')
        self.drawn.setdefault(n, []).append((self.values(I, a[0]), self.values(I, a[1]), I.loc))
        return I.list_([])

    def ext(self, I, name, a, kw):
        from .lib import Opaque
        if not name.startswith('matplotlib.pyplot.'):
            return NotImplemented
        name = name[18:]
        if name in self.CURVES:
            return self.draw(I, self.fig, a)
        if name == 'figure':
            self.select(self.number(a, kw))
            return Opaque('figure:%d' % self.fig)
        if name in ('gca', 'axes', 'gcf'):
            return Opaque('figure:%d' % self.fig)
        if name == 'subplots' and not a and not {'nrows', 'ncols'} & set(kw):
            self.select(self.number((), kw))
            return (Opaque('figure:%d' % self.fig), Opaque('figure:%d' % self.fig))
        if name in ('subplots', 'subplot', 'sca', 'step', 'stem', 'bar', 'fill', 'fill_between', 'hlines', 'vlines', 'hist', 'imshow'):
            raise Unsupported('matplotlib.pyplot.' + name)
        return NotImplemented

    def method(self, I, o, name, a, kw):
        from .lib import Opaque
        if not o.name.startswith('figure:') or '.' in o.name:
            return NotImplemented
        if name in self.CURVES:
            return self.draw(I, int(o.name[7:]), a)
        if name in ('gca', 'add_subplot', 'subplots', 'get_figure') and not a:
            return Opaque(o.name)
        if name in ('step', 'stem', 'bar', 'fill', 'add_line', 'add_collection', 'add_axes', 'add_subplot'):
            raise Unsupported('method %s of a figure' % name)
        return NotImplemented
