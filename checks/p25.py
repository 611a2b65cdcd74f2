"""main runs what the deck says."""
from sa.model import *
from . import p19
from .p08 import opaque_sensing, opaque_hr, hr_model, limited_ref
from .p21 import enhanced
from .p24 import lines_, num, listing

RULE = ('main.py is interpreted as a program on abstract decks (symbolic cell count, final time, CFL number, number of '
        'outputs, thresholds; every system, flux, limiter and enhancement setting) up to the call of integrate(); the '
        'solution, scheme, residual operator and limiter handed to it are compared with those the deck names.')
BOUNDED = True
TF = finite(sym('tf'))

DECKS = (
    ('plain advection', dict(system='advection', rk='rk3', ic='sinewave', order=2)),
    ('advection, enhanced', dict(system='advection', rk='rk14', ic='ictest', order=2, enhance='icb 0 1')),
    ('advection, limited', dict(system='advection', rk='low_storage_rk4', ic='sinewave', order=1, limiting='adaptive_hr',
                                thresholds=1)),
    ('advection, limiting off', dict(system='advection', rk='rk12', ic='sinewave', order=1, limiting='0')),
    ('sensors without limiting', dict(system='advection', rk='rk4', ic='sinewave', order=1, thresholds=1)),
    ('rusanov', dict(system='euler', rk='rk4', riemann='rusanov', ic='scktube', order=1, limiting='adaptive_hr', thresholds=2)),
    ('godunov', dict(system='euler', rk='rk8', riemann='godunov', ic='entrpyw', order=0)),
    ('roe', dict(system='euler', rk='rk5', riemann='roe', ic='simplew', order=1)),
    ('no flux named', dict(system='euler', rk='rk6', ic='acsticw', order=1)),
    ('enhanced roe', dict(system='euler', rk='rk10', riemann='roe', ic='shuoshe', order=1, enhance='icb 0')),
)
GAMMA = {'simplew': 3}


def text(d):
    out = [('PDE system', d['system']), ('RK scheme', d['rk'])]
    if 'riemann' in d:
        out.append(('riemann solver', d['riemann']))
    out.append(('initial condition', line(d['ic'])))
    out += [('number of outputs', mkstr([Tok('nout')])), ('final time', mkstr([Tok('tf')])),
            ('Courant-Friedrichs-Lewy condition', mkstr([Tok('cfl')])), ('order', str(d['order']))]
    if 'limiting' in d:
        out.append(('limiting', d['limiting']))
    if 'enhance' in d:
        out.append(('enhancement', d['enhance']))
    if 'thresholds' in d:
        ps = []
        for k in range(d['thresholds']):
            ps += [' '] * bool(k) + [Tok('th%d' % k)]
        out.append(('sensor thresholds', mkstr(ps)))
    return lines_(out)


def tokval_(I, name, kind):
    return {'NE': NE, 'nout': NOUT, 'tf': TF, 'cfl': CFL}.get(name) or finite(sym(name))


def absent(I, fname):
    """there are no other files"""
    I.raise_('FileNotFoundError', 'no file %r' % (fname,))


def run(ctx):
    ctx.rule(RULE)
    ctx.minimum = 150
    for k, (tag, d) in enumerate(DECKS):
        one(ctx, tag, d, given=k % 2 == 1)
    for what in ('subprocess.CalledProcessError', 'FileNotFoundError'):
        # outside of a git repository, and without git
        one(ctx, 'git fails with %s' % what, DECKS[0][1], False, what)
    for k, (tag, d) in enumerate(DECKS):
        if k in (0, 5) or ctx.thorough:
            failing(ctx, tag, d)


class Started(Exception):
    pass


def one(ctx, tag, d, given, git=None):
    tag += ': '
    I = interp(ctx)
    if git:
        I.hooks['command'] = lambda I_, a: I_.raise_(git, 'git')
    I.hooks['tokval'] = tokval_
    name = mkstr([Tok('deckname')]) if given else 'deck.inp'

    def arg(I_, dest, kk):
        if dest != 'deck':
            return NotImplemented
        return name if given else kk.get('default')
    I.hooks['arg'] = arg
    I.hooks['open'] = absent
    I.vfs[to_key(name)] = text(d)
    seen, calls = [], []
    opaque_sensing(I)
    opaque_hr(I, seen)
    p19.opaque_minmod(I, [])
    opaque_euler(I)

    def start(I_, f, args, kw):
        calls.append(bind2(f, args, kw))
        look(ctx, I, tag, d, calls[-1], seen)
        return None
    I.intercept['dg1d.rk.integrate'] = start
    n = len(I.raised)
    try:
        I.load_module('dg1d.main', main=True)
    except PyExc as e:
        I.raised.append((I.st, e.exc))
    except Dead:
        pass
    for st, exc in I.raised[n:]:
        unexpected(ctx, I, tag + 'main', st, exc)
    ctx.ob(tag + 'main starts one run', len(calls) == 1, '%d runs; %r' % (len(calls), I.raised[n:]))


FAIL = ('FloatingPointError', 'ValueError', 'OSError')


def failing(ctx, tag, d):
    """a run that fails is not reported as a success"""
    ill = dict(d, ic='bogus')
    for what in FAIL + ('no deck', 'unknown initial condition'):
        I = interp(ctx)
        I.hooks['tokval'] = tokval_
        I.hooks['arg'] = lambda I_, dest, kk: 'my.inp' if dest == 'deck' else NotImplemented
        I.hooks['open'] = absent
        if what != 'no deck':
            I.vfs['my.inp'] = text(ill if what[0] == 'u' else d)
        opaque_sensing(I)
        opaque_hr(I, [])
        p19.opaque_minmod(I, [])
        opaque_euler(I)
        calls = []

        def start(I_, f, args, kw):
            calls.append(1)
            if what in FAIL:
                I_.raise_(what, 'the run failed')
            return None
        I.intercept['dg1d.rk.integrate'] = start
        n = len(I.raised)
        ended = None
        try:
            I.load_module('dg1d.main', main=True)
            ended = 'normally'
        except PyExc as e:
            I.raised.append((I.st, e.exc))
        except Dead:
            pass
        w = '%s, %s: ' % (tag, what)
        ok = [st_exc for st_exc in I.raised[n:] if st_exc[1].type == 'SystemExit' and quiet(st_exc[1])]
        ctx.ob(w + 'main does not end as if the run had succeeded', ended is None and not ok,
               'ends %s; %r' % (ended, I.raised[n:]))
        ctx.ob(w + ('the run is started once' if what in FAIL else 'nothing is integrated'), len(calls) == (what in FAIL),
               '%d calls of integrate' % len(calls))


def quiet(exc):
    """the exit status is that of a success"""
    a = tuple(exc.args or ())
    return not a or a[0] is None or (isinstance(a[0], Rat) and a[0].is_zero())


def to_key(s):
    return s if isinstance(s, str) else repr(s)


def look(ctx, I, tag, d, args, seen):
    if not ctx.ob(tag + 'integrate is given a solution, a deck, a residual operator and a limiter', len(args) == 4, repr(args)):
        raise Stop()
    sol, dk, D, L = args
    p, system = d['order'], d['system']
    nf = 1 if system == 'advection' else 3
    for a, v in (('finaltime', TF), ('cfl', CFL), ('nout', NOUT)):
        ctx.eq(tag + a, num(member(I, dk, a)), v)
    ctx.ob(tag + 'scheme', same_value(member(I, dk, 'rk'), d['rk']), repr(member(I, dk, 'rk')))
    ctx.eq(tag + 'time', num(member(I, sol, 't')), ZERO)
    ctx.eq(tag + 'step', num(member(I, sol, 'n')), ZERO)
    ctx.eq(tag + 'cells', num(member(I, sol, 'N_E')), NE)
    ctx.eq(tag + 'fields', num(member(I, sol, 'N_F')), C(nf))
    ctx.eq(tag + 'order', num(member(I, member(I, sol, 'basis'), 'p')), C(p))
    if system == 'euler':
        ctx.eq(tag + 'gamma', num(member(I, module(I, 'dg1d.constants'), 'gamma')),
               C(Fraction(str(GAMMA.get(d['ic'], 1.4)))))
    limited = d.get('limiting') == 'adaptive_hr'
    # the initial state
    J = interp(ctx)
    ref = solution(ctx, J, d['ic'], p, 'roe')
    bl, br = member(J, ref, 'bc_l'), member(J, ref, 'bc_r')
    for a, v in (('bc_l', bl), ('bc_r', br)):
        ctx.ob(tag + a, same_value(member(I, sol, a), v), repr(member(I, sol, a)))
    g0 = J.getter(member(J, ref, 'u'))
    e = cell()
    if not limited:
        for m in range(p + 1):
            for f in range(nf):
                ctx.eq(tag + 'initial state, mode %d field %d' % (m, f), coef(I, sol, m, e, f),
                       g0((C(m), e * C(nf) + C(f))))
    else:
        U = ghosted(lambda m, c, f: g0((C(m), c * C(nf) + C(f))), bl, br, nf)
        want = limited_ref(U, p, nf, hr_model(p, seen))
        e = cell('e', TWO, NE - ONE)
        for m in range(p + 1):
            for f in range(nf):
                ctx.eq(tag + 'limited initial state, mode %d field %d' % (m, f), coef(I, sol, m, e, f), want(m, e, f))
    k0 = len(I.st.events)
    invoke(ctx, I, tag + 'printer', member(I, sol, 'printer'), (ONE, C(1)))
    files = [ev.data[0] for ev in I.st.events[k0:] if ev.kind == 'savetxt']
    ctx.ob(tag + 'a sensor file is written if and only if the deck has sensor thresholds',
           ('sensor0000000001.dat' in files) == ('thresholds' in d), 'files written: %r' % (files,))
    if 'thresholds' in d and ctx.ob(tag + 'the solution has sensors', has(I, sol, 'sensors'), 'no sensors'):
        th = [num(x) for x in listing(I, member(I, member(I, sol, 'sensors'), 'thresholds'))]
        ctx.ob(tag + 'thresholds', len(th) == d['thresholds'], repr(th))
        for k, x in enumerate(th):
            ctx.eq(tag + 'threshold %d' % k, x, finite(sym('th%d' % k)))
    # the operators
    set_u(I, sol, 'V')
    V = ghosted(lambda m, c, f: elem2('V', C(m), c * C(nf) + C(f)), bl, br, nf)
    R = invoke(ctx, I, tag + 'residual', member(I, D, 'residual'), (sol,))
    faces = None
    if 'enhance' in d:
        ef = enhanced(p, tuple(int(x) for x in d['enhance'].split()[1:]))

        def faces(c, s, f):
            return ef(V, c, s, f)
    e = cell()
    for (m, f), w in residual_ref(p, system, d.get('riemann', 'roe'), V, member(I, sol, 'dx'), e, faces).items():
        ctx.eq(tag + 'residual, mode %d field %d' % (m, f), I.getter(R)((C(m), e * C(nf) + C(f))), w)
    set_u(I, sol, 'V')
    invoke(ctx, I, tag + 'limit', member(I, L, 'limit'), (sol,))
    want = limited_ref(V, p, nf, hr_model(p, seen)) if limited else V
    e = cell('e', TWO, NE - ONE)
    for m in range(p + 1):
        for f in range(nf):
            ctx.eq(tag + 'limiter, mode %d field %d' % (m, f), coef(I, sol, m, e, f), want(m, e, f))


def has(I, ref, name):
    try:
        I.attr(ref, name)
    except PyExc:
        return False
    return True
