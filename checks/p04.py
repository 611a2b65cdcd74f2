"""The output schedule: which states are written, at which times, and when the run ends."""
from sa.model import *
from sa.loops import get_cell

RULE = ('integrate() is interpreted with the time loop summarised by an inductive invariant found by '
        'elimination of templates (integer counters and output times as functions of the number P of the '
        'next output, t <= time of output P, flags constant); an iteration from any state satisfying it must '
        'either advance by the CFL step without passing output P, or land on it and write it once with '
        'number P, and the loop ends exactly after output nout-1.')
NAMES = ('rk3', 'rk4', 'low_storage_rk4', 'rk8', '', 'no_such_scheme')
HC = sym('hc', pos=True)        # the CFL step
D = sym('d', pos=True)          # distance to the next output time
P = sym('P', isint=True, pos=True)
R = sym('R', isint=True, pos=True)    # outputs left after output P


def L(q):
    return T0 + DT * q


def run(ctx):
    ctx.rule(RULE)
    ctx.minimum = 60
    FACTS.push(P, ONE, None)
    FACTS.push(R, ONE, None)
    for rk in NAMES + (('rk5', 'rk6', 'rk10', 'rk12', 'rk14') if ctx.thorough else ()):
        for case, tau in (('before the output time', L(P) - D), ('at the output time', L(P))):
            for left, nout in (('last output', P + ONE), ('more outputs to come', P + ONE + R)):
                schedule(ctx, '%s, %s, %s' % (rk or "''", case, left), rk, tau, nout)


class Templates:
    def __init__(self, tau):
        self.tau = tau
        self.black = set()
        self.used = {}
        self.sol = None

    def form(self, cell, init):
        """value at a loop head with P outputs written, or None; a function of P"""
        if cell in self.black:
            return None
        if self.sol is not None and cell == ('inst', self.sol.oid, 't'):
            return 'time'
        if isinstance(init, tuple) and cell[0] == 'iter' and len(init) == 2 \
                and isinstance(init[1], Rat) and init[1].as_int() is not None:
            c = init[1] - ONE
            return lambda p: (init[0], p + c)
        if isinstance(init, Cond) and init.op in ('true', 'false'):
            return lambda p: init
        if isinstance(init, Rat):
            if init.as_int() is not None and is_intlike(init):
                c = init - ONE
                return lambda p: p + c
            k = (init - T0) / DT
            if k.as_int() is not None:
                return lambda p: L(p + k - ONE)
        return None

    def hook(self, I, H, cell, name, init, end):
        f = self.form(cell, init)
        if f is None:
            return NotImplemented
        if f == 'time':
            return self.tau
        self.used[cell] = f
        return f(P)


def schedule(ctx, tag, rk, tau, nout):
    T = Templates(tau)

    def prepare(I, sol, dk):
        T.sol = sol
        T.used = {}
        I.hooks['havoc'] = T.hook
        I.intercept['dg1d.rk.cfl_time_step'] = lambda I, f, a, k: HC
        # the same step if the formula is evaluated in place
        dx = member(I, sol, 'dx')
        I.setattr_(dk, 'cfl', HC * VMAX / dx)
    for attempt in range(12):
        I = interp(ctx)
        sol, loops, dk = integration(ctx, I, rk, 0, False, nout, prepare=prepare)
        loops = [r for r in loops if any(e.kind == 'residual' for e in events(r, r.end))
                 or any(any(e.kind == 'residual' for e in events(r, b)) for b in r.brk)]
        if len(loops) != 1:
            ctx.ob(tag + ': one time loop', False, '%d loops evaluate the residual; raised %r'
                   % (len(loops), I.rk_raised))
            return
        rec = loops[0]
        if not preserved(I, T, rec):
            continue
        break
    else:
        ctx.skip(tag, 'no inductive invariant found')
        return
    judge(ctx, tag, I, T, rec, sol, nout)


def events(rec, st):
    if st is None:
        return []
    return st.events[len(rec.start.events):]


def outcomes(I, rec):
    """(state, condition under which the loop goes on)"""
    out = []
    if rec.end is not None:
        with At(I, rec.end.fork()):
            g = I.decide(I.truth(I.ev(rec.node.test, rec.env)))
        out.append((rec.end, g))
    for b in rec.brk:
        out.append((b, FALSE))
    return out


def printed(rec, st):
    return [(e, cand(*e.pc)) for e in events(rec, st) if e.kind == 'printer']


def preserved(I, T, rec):
    bad = set()
    for st, go in outcomes(I, rec):
        if go.op == 'false':
            continue
        pr = printed(rec, st)
        np_ = P + ite(cor(*[c for _, c in pr]), ONE, ZERO) if pr else P
        for cell, f in T.used.items():
            v, w = get_cell(st, cell), f(np_)
            if isinstance(w, tuple):
                v, w = v[1], w[1]
            if not same_under(v, w, tuple(st.pc) + (go,)):
                bad.add(cell)
    T.black |= bad
    return not bad


def same_under(v, w, conds):
    if isinstance(v, Cond) and isinstance(w, Cond):
        v, w = ite(v, ONE, ZERO), ite(w, ONE, ZERO)
    if not (isinstance(v, Rat) and isinstance(w, Rat)):
        return A.same_value(v, w)
    if v.eq(w):
        return True
    c = cand(*conds)
    try:
        return equal(ite(c, v, ZERO), ite(c, w, ZERO))[0]
    except (Undecided, AlgError):
        return False


def judge(ctx, tag, I, T, rec, sol, nout):
    LAST = ceq(P, nout - ONE)
    # the initial output
    pre = [e for e in rec.entry.events[I.n_entry:] if e.kind == 'printer']
    n0 = len(pre)
    if ctx.ob(tag + ': the initial state is written once', n0 == 1, '%d outputs before the first step' % n0,
              rec.loc):
        e = pre[0]
        n, dt, t, body = e.data
        ctx.eq(tag + ': initial output number', n, ZERO, loc=e.loc)
        ctx.eq(tag + ': initial output step', dt, ZERO, loc=e.loc)
        ctx.eq(tag + ': initial output time', t, T0, loc=e.loc)
        with At(I, rec.first[0]):
            ctx.eq(tag + ': initial output content', body, content(I, sol), loc=e.loc)
        ctx.ob(tag + ': initial output is unconditional', len(e.pc) == 0, show(e.pc), e.loc)
    d = L(P) - T.tau
    for i, (st, go) in enumerate(outcomes(I, rec)):
        nm = '%s: ' % tag
        with At(I, st):
            t1 = member(I, sol, 't')
            body1 = content(I, sol)
        pr = printed(rec, st)
        pc = tuple(st.pc)
        for a in range(len(pr)):
            for b in range(a):
                feas = witness.point(pc + (pr[a][1], pr[b][1]))
                ctx.ob(nm + 'one output per step', feas is None, 'two outputs in one step', pr[a][0].loc)
        some = cor(*[c for _, c in pr]) if pr else FALSE
        for e, c in pr:
            n, dt, t, body = e.data
            cc = pc + (c,)
            ctx.eq(nm + 'output number', n, P, conds=cc, loc=e.loc)
            ctx.eq(nm + 'output time', t, L(P), conds=cc, loc=e.loc)
            ctx.eq(nm + 'reported step', dt, t1 - T.tau, conds=cc, loc=e.loc)
            ctx.eq(nm + 'output content', body, body1, conds=cc, loc=e.loc)
            ctx.eq(nm + 'time after an output step', t1, L(P), conds=cc, loc=rec.loc)
            imp(ctx, nm + 'an output step is no longer than the CFL step', cc, cge(HC, d), rec.loc)
        no = pc + (cnot(some),)
        ctx.eq(nm + 'a step without output is the CFL step', t1, T.tau + HC, conds=no, loc=rec.loc)
        imp(ctx, nm + 'a step without output does not pass the output time', no, cle(T.tau + HC, L(P)), rec.loc)
        imp(ctx, nm + 'goes on unless the last output was written', pc + (cnot(go),),
            cand(some, LAST), rec.loc)
        imp(ctx, nm + 'ends after the last output', pc + (some, LAST), cnot(go), rec.loc)
        ctx.eq(nm + 'steps are counted', *[0 and 0 or x for x in steps(I, rec, st, sol)], conds=pc, loc=rec.loc)
    for st, exc in rec.raised + I.rk_raised:
        pc = tuple(st.pc)
        if exc.type == 'SystemExit':
            imp(ctx, '%s: aborts only on a vanishing step' % tag, pc,
                clt(HC, C(Fraction(1, 10 ** 14))), exc.loc)
            continue
        if witness.point(pc) is not None:
            ctx.ob('%s: no exception' % tag, False, '%r under %s' % (exc, show(pc, 300)), exc.loc)
        elif satisfiable(list(pc)):
            ctx.skip('%s: no exception' % tag, '%r may be reached under %s' % (exc, show(pc, 300)), loc=exc.loc)
        else:
            ctx.ob('%s: %s at line %s is unreachable' % (tag, exc.type, exc.loc[1]), True)
    post = [e for e in I.st.events if e.kind == 'printer'] if I.st is not None else []
    total = len(pre) + sum(len(printed(rec, st)) for st, _ in outcomes(I, rec))
    inside = {id(e) for st, _ in outcomes(I, rec) for e, _ in printed(rec, st)} | {id(e) for e in pre}
    extra = [e for e in post if id(e) not in inside]
    ctx.ob(tag + ': nothing is written after the loop', not extra, repr(extra[:2]), rec.loc)


def steps(I, rec, st, sol):
    with At(I, rec.start):
        a = member(I, sol, 'n')
    with At(I, st):
        b = member(I, sol, 'n')
    return b, a + ONE


def imp(ctx, name, conds, goal, loc):
    """under conds, goal holds"""
    ctx.eq(name, ite(goal, ONE, ZERO), ONE, conds=conds, loc=loc)
