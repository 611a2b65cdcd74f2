"""Solutions, their copies and their solvers do not interfere."""
from sa.model import *
from . import p17, p19
from .p21 import enhanced, name as icb

RULE = ('two solutions of different order, system, enhancement and boundary conditions, their solvers and limiters are '
        'built and used in several orders; a solution is copied and the original or the copy is overwritten in place and '
        'through its methods: in every history each one must hold, and compute, what it would alone.')
BOUNDED = True

KINDS = {
    # order, enhancement, boundaries, system
    'A': ('advection', 1, '', ('periodic', 'periodic')),
    'B': ('advection', 2, (0,), ('zerograd', 'zerograd')),
    'C': ('euler', 1, (0, 1), ('zerograd', 'periodic')),
    'D': ('advection', 1, (1,), ('zerograd', 'periodic')),
}


def run(ctx):
    ctx.rule(RULE)
    ctx.minimum = 60
    for a, b in (('A', 'B'), ('B', 'A'), ('C', 'B'), ('D', 'C'), ('A', 'D')) + \
            ((('C', 'A'), ('B', 'D'), ('B', 'C'), ('D', 'A')) if ctx.thorough else ()):
        together(ctx, a, b)
    for k in KINDS:
        copies(ctx, k)
    sensors(ctx)
    tables(ctx)
    family(ctx, 'built in this order: ', FAMILY)
    family(ctx, 'built in the opposite order: ', FAMILY[::-1])


class One:
    """a solution with its solver and limiter"""

    def __init__(self, ctx, I, kind, name):
        self.ctx, self.I, self.name = ctx, I, name
        self.system, self.p, modes, self.bc = KINDS[kind]
        self.modes = modes
        self.nf = 1 if self.system == 'advection' else 3
        self.sol = solution(ctx, I, 'sinewave' if self.system == 'advection' else 'entrpyw', self.p, 'roe',
                            icb(modes) if modes else '', (sym('th_' + name, pos=True), sym('ph_' + name, pos=True)))
        self.dx = member(I, self.sol, 'dx')
        self.reset()

    def reset(self):
        set_u(self.I, self.sol, self.name)
        set_bc(self.I, self.sol, *self.bc)

    def tools(self):
        I = self.I
        self.D = invoke(self.ctx, I, 'DG()', func(I, 'dg1d.dg', 'DG'), (self.sol,))
        self.L = invoke(self.ctx, I, 'Limiter()', func(I, 'dg1d.limiting', 'Limiter'), ('adaptive_hr', self.sol))
        self.reset()

    def U(self, m, c, f):
        return elem2(self.name, C(m), c * C(self.nf) + C(f))

    def residual(self, tag, check=True):
        ctx, I = self.ctx, self.I
        R = invoke(ctx, I, tag + 'residual', member(I, self.D, 'residual'), (self.sol,))
        if check:
            e = cell()
            faces = None
            if self.modes:
                ref = enhanced(self.p, tuple(sorted(self.modes)))
                G = ghosted(self.U, self.bc[0], self.bc[1], self.nf)

                def faces(c, s, f):
                    return ref(G, c, s, f)
            G = ghosted(self.U, self.bc[0], self.bc[1], self.nf)
            want = residual_ref(self.p, self.system, 'roe', G, self.dx, e, faces=faces)
            for (m, f), w in want.items():
                ctx.eq(tag + 'residual of mode %d field %d' % (m, f), I.getter(R)((C(m), e * C(self.nf) + C(f))), w)
        return R

    def limit(self, tag, check=True, seen=None):
        ctx, I = self.ctx, self.I
        invoke(ctx, I, tag + 'limit', member(I, self.L, 'limit'), (self.sol,))
        if check:
            e = cell('e', TWO, NE - ONE)
            for f in range(self.nf):
                cols = [[self.U(j, e + C(d), f) for j in range(self.p + 1)] for d in (0, -1, 1)]
                want = p19.hr_ref(self.p, *cols, p19.mm if seen else p19.minmod)
                for m in range(self.p + 1):
                    ctx.eq(tag + 'limited mode %d field %d' % (m, f), coef(I, self.sol, m, e, f), want[m])

    def holds(self, tag):
        ctx, I = self.ctx, self.I
        e = cell()
        for m in range(self.p + 1):
            for f in range(self.nf):
                ctx.eq(tag + 'holds its mode %d field %d' % (m, f), coef(I, self.sol, m, e, f), self.U(m, e, f))


def prepare(ctx):
    I = interp(ctx)
    opaque_euler(I)
    seen = []
    p19.flag_all(I)
    p19.opaque_minmod(I, seen)
    return I, seen


def together(ctx, a, b):
    # built first one after the other, then used alternately
    I, seen = prepare(ctx)
    A, B = One(ctx, I, a, 'P'), One(ctx, I, b, 'Q')
    A.tools()
    B.tools()
    tag = '%s with %s: ' % (a, b)
    A.residual(tag + 'before, ', False)
    B.residual(tag + 'second ')
    A.holds(tag + 'first ')
    A.residual(tag + 'first ')
    B.limit(tag + 'second ', True, seen)
    A.holds(tag + 'first after limiting the second ')
    A.limit(tag + 'first ', True, seen)
    A.reset()
    B.reset()
    ra = A.residual(tag + 'again ', False)
    A.holds(tag + 'first ')
    # the residual of one is not overwritten by computing another's with its own solver
    e = cell()
    before = I.getter(ra)((ZERO, e * C(A.nf)))
    B.residual(tag + 'again second ')
    ctx.eq(tag + 'the residual stays what it was', I.getter(ra)((ZERO, e * C(A.nf))), before)
    # a third one built afterwards
    th0 = sensed(I, A.sol)
    One(ctx, I, b, 'R').tools()
    A.holds(tag + 'first after a third is built ')
    A.residual(tag + 'first after a third is built, ')
    ctx.ob(tag + 'thresholds stay', same_value(th0, sensed(I, A.sol)), repr(sensed(I, A.sol)))


def sensed(I, sol):
    t = member(I, member(I, sol, 'sensors'), 'thresholds')
    return tuple(I.items(t))


ATTRS = ('t', 'n', 'dx', 'N_E', 'N_F', 'bc_l', 'bc_r')


def copies(ctx, kind):
    for edited in ('copy', 'original'):
        I, seen = prepare(ctx)
        A = One(ctx, I, kind, 'P')
        nf, p = A.nf, A.p
        for n, v in (('t', finite(sym('t'))), ('n', sym('n', isint=True))):
            member(I, A.sol, n)
            I.setattr_(A.sol, n, v)
        # flags set before the copy
        S = member(I, A.sol, 'sensors')
        v = member(I, S, 'sensors')
        I.setattr_(S, 'sensors', I.arr(v.shape, lambda ix: Rat.of(atom('elem', 'S', tuple(ix), isint=True))))
        old = {a: member(I, A.sol, a) for a in ATTRS}
        i, j = sym('i', isint=True), sym('j', isint=True)
        FACTS.push(i, ZERO, NE - ONE)
        FACTS.push(j, ZERO, NE)
        x0 = I.getter(member(I, A.sol, 'x'))((j,))
        xc0 = I.getter(member(I, A.sol, 'xc'))((i,))
        cp = invoke(ctx, I, 'copy', member(I, A.sol, 'copy'), ())
        tag = '%s, %s edited: ' % (kind, edited)
        e = cell('e', ZERO, NE + ONE)
        for m in range(p + 1):
            for f in range(nf):
                ctx.eq(tag + 'the copy holds mode %d field %d' % (m, f), coef(I, cp, m, e, f), A.U(m, e, f))
        mine, other = (cp, A.sol) if edited == 'copy' else (A.sol, cp)
        overwrite(ctx, I, mine, p, nf, tag)
        # the other one is what it was
        for a in ATTRS:
            w = member(I, other, a)
            ctx.ob(tag + '%s of the other stays' % a, same_value(w, old[a]) or
                   (isinstance(w, Rat) and isinstance(old[a], Rat) and w.eq(old[a])), repr(w))
        for m in range(p + 1):
            for f in range(nf):
                ctx.eq(tag + 'the other keeps mode %d field %d' % (m, f), coef(I, other, m, e, f), A.U(m, e, f))
        ctx.eq(tag + 'mesh of the other stays', I.getter(member(I, other, 'x'))((j,)), x0)
        ctx.eq(tag + 'cell centres of the other stay', I.getter(member(I, other, 'xc'))((i,)), xc0)
        s = I.getter(member(I, member(I, other, 'sensors'), 'sensors'))
        ctx.eq(tag + 'flags of the other stay', s((i + ONE,)), Rat.of(atom('elem', 'S', (i + ONE,), isint=True)))
        ctx.ob(tag + 'thresholds of the other stay', same_value(sensed(I, other), (sym('th_P', pos=True), sym('ph_P', pos=True))),
               repr(sensed(I, other)))
        B = One.__new__(One)
        B.__dict__.update(A.__dict__)
        B.sol = other
        B.tools()
        B.residual(tag + 'the other, ')


def overwrite(ctx, I, sol, p, nf, tag):
    """use a solution up: through its methods, then in place"""
    u = member(I, sol, 'u')
    k = I.arr(u.shape, lambda ix: Rat.of(atom('elem', 'K', tuple(ix))))
    invoke(ctx, I, tag + 'smart_axpy', member(I, sol, 'smart_axpy'), (sym('w', pos=True) + ONE, k))
    invoke(ctx, I, tag + 'apply_bc', member(I, sol, 'apply_bc'), ())
    invoke(ctx, I, tag + 'evaluate_faces', member(I, sol, 'evaluate_faces'), ())
    D = invoke(ctx, I, 'DG()', func(I, 'dg1d.dg', 'DG'), (sol,))
    L = invoke(ctx, I, 'Limiter()', func(I, 'dg1d.limiting', 'Limiter'), ('adaptive_hr', sol))
    invoke(ctx, I, tag + 'residual', member(I, D, 'residual'), (sol,))
    invoke(ctx, I, tag + 'limit', member(I, L, 'limit'), (sol,))
    for a, v in (('t', sym('t2')), ('n', sym('n2', isint=True)), ('bc_l', 'zerograd'), ('bc_r', 'zerograd')):
        I.setattr_(sol, a, v)
    full = slice_all(I)
    for ob, a, n in ((sol, 'u', 2), (member(I, sol, 'sensors'), 'sensors', 1)):
        v = member(I, ob, a)
        I.lib.setitem(I, v, full if n == 1 else (full, full), C(7))


def slice_all(I):
    from sa.lib import SliceV
    return SliceV(None, None, None)


def sensors(ctx):
    """the flags and wave speeds of one solution come from its own averages"""
    I = interp(ctx)
    A, B = One(ctx, I, 'A', 'P'), One(ctx, I, 'D', 'Q')
    e = cell()

    def flag(X):
        u = [X.U(0, e + C(k), 0) for k in (-1, 0, 1)]
        th = sym('th_' + X.name, pos=True)
        return ite(cor(p17.advection_flag(th, u[0], u[1]), p17.advection_flag(th, u[1], u[2])), ONE, ZERO)
    for X, what in ((A, 'first'), (B, 'second'), (A, 'first again')):
        sen = member(I, X.sol, 'sensors')
        invoke(ctx, I, 'sensing ' + what, member(I, sen, 'sensing'), (X.sol,))
        for Y in (A, B):
            if Y is X or what != 'first':
                ctx.eq('sensing the %s solution: flags of %s' % (what, Y.name),
                       I.getter(member(I, member(I, Y.sol, 'sensors'), 'sensors'))((e,)), flag(Y))
    # gas: the second solution of the same shape
    I = interp(ctx)
    A, B = One(ctx, I, 'C', 'P'), One(ctx, I, 'C', 'Q')
    g = gamma_sym()
    const_gamma(I, g)
    for X in (A, B):
        u = member(I, X.sol, 'u')
        I.setattr_(X.sol, 'u', I.arr(u.shape, lambda ix: prim(X.name, third(ix[1])[0], g)['u'][third(ix[1])[1]]))
        warm(I, member(I, member(I, X.sol, 'sensors'), 'sensing'), (X.sol,))
    s = I.getter(member(I, member(I, B.sol, 'sensors'), 'sensors'))
    q = [prim('Q', e + C(k), g) for k in (-1, 0, 1)]
    th = (sym('th_Q', pos=True), sym('ph_Q', pos=True))
    cl, sl = p17.euler_flags(th, q[0], q[1], g)
    cr, sr = p17.euler_flags(th, q[1], q[2], g)
    ctx.eq('flags of the second of two gas solutions', s((e,)), ite(cor(sl, sr), TWO, ite(cor(cl, cr), ONE, ZERO)))


def tables(ctx):
    """using up the coefficients of one integration leaves those of the next alone"""
    for rk in ('rk3', 'rk4', 'rk5', 'rk6', 'rk8', 'rk10', 'rk12', 'rk14'):
        I = interp(ctx)
        one = table(ctx, I, rk)
        r = I.items(invoke(ctx, I, 'coefficients of ' + rk, func(I, 'dg1d.rk_coeffs', 'get_%s_coefficients' % rk), ()))
        full = slice_all(I)
        for v in r:
            if isinstance(v, View):
                I.lib.setitem(I, v, full if len(v.shape) == 1 else (full, full), C(7))
        two = table(ctx, I, rk)
        ctx.ob('coefficients of %s are not shared' % rk, repr(one) == repr(two), 'a table changes when an earlier one is written to')


# differing in one setting at a time
FAMILY = (
    ('sinewave', 'advection', 2, 'roe', (0,)),
    ('sinewave', 'advection', 2, 'roe', (1,)),
    ('sinewave', 'advection', 2, 'roe', (0, 2)),
    ('sinewave', 'advection', 2, 'roe', (0, 1)),
    ('sinewave', 'advection', 1, 'roe', (0, 1)),
    ('sinewave', 'advection', 1, 'roe', ()),
    ('entrpyw', 'euler', 1, 'rusanov', ()),
    ('entrpyw', 'euler', 1, 'godunov', ()),
    ('entrpyw', 'euler', 1, 'roe', ()),
    ('simplew', 'euler', 1, 'roe', ()),
    ('shuoshe', 'euler', 1, 'roe', ()),
)
DX = {'simplew': C(8), 'shuoshe': C(10)}


def family(ctx, tag, kinds):
    """many solutions of one program, each like the one before but for one setting"""
    I = interp(ctx)
    opaque_euler(I)
    made = []
    for k, (ic, system, p, rs, modes) in enumerate(kinds):
        sol = solution(ctx, I, ic, p, rs, icb(modes) if modes else '')
        D = invoke(ctx, I, 'DG()', func(I, 'dg1d.dg', 'DG'), (sol,))
        set_u(I, sol, 'S%d' % k)
        set_bc(I, sol, 'periodic', 'zerograd')
        made.append((sol, D))
    e = cell()
    for k, (ic, system, p, rs, modes) in enumerate(kinds):
        sol, D = made[k]
        nf = 1 if system == 'advection' else 3
        t = '%s%s p=%d %s %s: ' % (tag, ic, p, rs if nf == 3 else '', modes)

        def U(m, c, f):
            return elem2('S%d' % k, C(m), c * C(nf) + C(f))
        G = ghosted(U, 'periodic', 'zerograd', nf)
        faces = None
        if modes:
            ref = enhanced(p, modes)

            def faces(c, s, f):
                return ref(G, c, s, f)
        dx = DX.get(ic, TWO) / NE
        ctx.eq(t + 'cell size', member(I, sol, 'dx'), dx)
        R = invoke(ctx, I, t + 'residual', member(I, D, 'residual'), (sol,))
        for (m, f), w in residual_ref(p, system, rs, G, dx, e, faces=faces).items():
            ctx.eq(t + 'residual of mode %d field %d' % (m, f), I.getter(R)((C(m), e * C(nf) + C(f))), w)
