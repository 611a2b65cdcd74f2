"""Loops: unrolling of constant trip counts, vectorised summaries of symbolic
trip counts, havoc summaries of loops whose exit is decided by data."""
import ast
from .alg import *
from .arr import *
from . import arr as A
from . import interp as N
from .strs import AStr, Fmt


class SeqData:
    """content of a list of symbolic length"""
    __slots__ = ('n', 'at')

    def __init__(self, n, at):
        self.n, self.at = n, at


class PreList:
    __slots__ = ('cid', 'items')

    def __init__(self, cid, items=()):
        self.cid, self.items = cid, items


class Plan:
    __slots__ = ('n', 'get', 'guard')

    def __init__(self, n, get, guard=None):
        self.n, self.get, self.guard = n, get, guard


def mark(I):
    return (len(I.raised), [len(f.rets) for f in I.funcs], len(I.loop_log),
            [(len(l.brk), len(l.cont)) for l in I.loops])


def reset(I, m):
    del I.raised[m[0]:]
    for f, n in zip(I.funcs, m[1]):
        del f.rets[n:]
    del I.loop_log[m[2]:]
    for l, (a, b) in zip(I.loops, m[3]):
        del l.brk[a:]
        del l.cont[b:]


def rets_since(I, m):
    return any(len(f.rets) > n for f, n in zip(I.funcs, m[1])) or \
        any(len(l.brk) > a or len(l.cont) > b for l, (a, b) in zip(I.loops, m[3]))


# --------------------------------------------------------------------------
def for_(I, s, env, it):
    if isinstance(it, N.Ref) and I.obj(it).kind in ('iter', 'file'):
        return for_iter(I, s, env, it)
    plan = I.lib.plan(I, it)
    n = plan.n.as_int()

    def bind(v):
        I.assign(s.target, v, env)

    if n is not None and plan.guard is None and n <= 4000:
        S0, m = I.st, mark(I)
        exits = []
        I.st = S0.fork()
        for j in range(n):
            if I.st is None:
                break
            bind(plan.get(C(j)))
            exits += I.loop_body(s.body, env)
            if n > I.bigloop and len(exits) >= 2 and I.st is not None:
                I.st = S0
                reset(I, m)
                return havoc_for(I, s.body, env, plan, bind, (env.path, s.lineno), s.orelse)
        if I.st is not None and s.orelse:
            I.exec_block(s.orelse, env)
        for e in reversed(exits):
            I.st, _ = I.merge(e, I.st)
        return
    S0, m = I.st, mark(I)
    ok = sym_for(I, plan, bind, lambda: I.loop_body(s.body, env), (env.path, s.lineno))
    if not ok:
        I.st = S0
        reset(I, m)
        return havoc_for(I, s.body, env, plan, bind, (env.path, s.lineno), s.orelse)
    if s.orelse:
        I.exec_block(s.orelse, env)


def for_iter(I, s, env, it):
    """iteration over a stateful iterator (file, iter())"""
    exits = []
    for count in range(5000):
        if I.st is None:
            break
        data = I.obj(it).data
        if isinstance(data, Choice):
            I.st_data_choice = True
            raise Unsupported('iterator with undetermined position')
        seq, pos = data
        n = I.lib.seq_len(I, seq)
        c = I.decide(clt(pos, n))
        if c.op == 'false':
            break
        if c.op != 'true':
            if count == 0:
                # a fresh iterator over a symbolic-length sequence
                if pos.is_zero() and I.obj(it).kind == 'iter':
                    plan = Plan(n, lambda j: I.lib.seq_get(I, seq, j))
                    if sym_for(I, plan, lambda v: I.assign(s.target, v, env),
                               lambda: I.loop_body(s.body, env), (env.path, s.lineno)):
                        if I.st is not None:
                            I.put(it.oid, N.Obj('iter', (seq, n), I.obj(it).meta))
                            if s.orelse:
                                I.exec_block(s.orelse, env)
                        return
            raise Unsupported('iteration over an iterator of symbolic length')
        v = I.lib.seq_get(I, seq, pos)
        I.put(it.oid, N.Obj(I.obj(it).kind, (seq, pos + ONE), I.obj(it).meta))
        I.assign(s.target, v, env)
        exits += I.loop_body(s.body, env)
    if I.st is not None and s.orelse:
        I.exec_block(s.orelse, env)
    for e in reversed(exits):
        I.st, _ = I.merge(e, I.st)


def foreach(I, it, bind, body, loc):
    """comprehension-style iteration (no break)"""
    if isinstance(it, Choice):
        raise Unsupported('iteration over an undetermined object')
    if isinstance(it, N.Ref) and I.obj(it).kind in ('iter', 'file'):
        seq, pos = I.obj(it).data
        n = I.lib.seq_len(I, seq)
        k = (n - pos).as_int()
        I.put(it.oid, N.Obj(I.obj(it).kind, (seq, n), I.obj(it).meta))
        if k is not None:
            for j in range(max(k, 0)):
                bind(I.lib.seq_get(I, seq, pos + C(j)))
                body()
            return
        plan = Plan(n - pos, lambda j: I.lib.seq_get(I, seq, pos + j))
    else:
        plan = I.lib.plan(I, it)
    n = plan.n.as_int()
    if n is not None and plan.guard is None:
        for j in range(n):
            bind(plan.get(C(j)))
            body()
        return

    def run():
        body()
        return []
    if not sym_for(I, plan, bind, run, loc):
        raise Unsupported('comprehension over a symbolic range')


# --------------------------------------------------------------------------
def counter_pattern(s):
    """while i < E: ...; i += 1   ->  (name, bound expr, inclusive, body)"""
    t = s.test
    if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.left, ast.Name)
            and isinstance(t.ops[0], (ast.Lt, ast.LtE, ast.NotEq))):
        return None
    i = t.left.id
    if not s.body:
        return None
    last = s.body[-1]
    if not (isinstance(last, ast.AugAssign) and isinstance(last.target, ast.Name)
            and last.target.id == i and isinstance(last.op, ast.Add)
            and isinstance(last.value, ast.Constant) and last.value.value == 1):
        if not (isinstance(last, ast.Assign) and len(last.targets) == 1
                and isinstance(last.targets[0], ast.Name) and last.targets[0].id == i
                and isinstance(last.value, ast.BinOp) and isinstance(last.value.op, ast.Add)
                and isinstance(last.value.left, ast.Name) and last.value.left.id == i
                and isinstance(last.value.right, ast.Constant) and last.value.right.value == 1):
            return None
    body = s.body[:-1]
    names = {n.id for n in ast.walk(t.comparators[0]) if isinstance(n, ast.Name)}
    for b in body:
        for n in ast.walk(b):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and (n.id == i or n.id in names):
                return None
            if isinstance(n, ast.Continue):
                return None
    return i, t.comparators[0], isinstance(t.ops[0], ast.LtE), body


def while_(I, s, env):
    loc = (env.path, s.lineno)
    if loc in I.havoc_loops:
        return havoc_while(I, s, env)
    if I.hooks.get('havoc_while'):
        if not counted(I, s, env):
            havoc_while(I, s, env)
        return
    cp = counter_pattern(s)
    if cp is not None:
        i, hi_e, incl, body = cp
        lo = I.resolve(env.load(i))
        hi = I.ev(hi_e, env)
        if isinstance(lo, Rat) and isinstance(hi, Rat) and is_intlike(lo) and is_intlike(hi):
            n = (hi - lo) + (ONE if incl else ZERO)
            if n.as_int() is None:
                plan = Plan(n, lambda j: lo + j)
                S0, m = I.st, mark(I)
                if sym_for(I, plan, lambda v: env.store(i, v), lambda: I.loop_body(body, env), loc):
                    env.store(i, ite(cge(n, ZERO), lo + n, lo))
                    if s.orelse:
                        I.exec_block(s.orelse, env)
                    return
                I.st = S0
                reset(I, m)
                # fall through to the general treatment
    exits = []
    S0, m = I.st, mark(I)
    I.st = S0.fork()
    undecided = 0
    for count in range(2000):
        if I.st is None:
            break
        c = I.decide(I.truth(I.ev(s.test, env)))
        if c.op == 'false':
            if s.orelse:
                I.exec_block(s.orelse, env)
            break
        if c.op != 'true':
            undecided += 1
            if undecided > 1 or count == 0:
                I.st = S0
                reset(I, m)
                return havoc_while(I, s, env)
            exits.append(I.st.fork(cnot(c)))
            I.st = I.st.fork(c)
        brk = I.loop_body(s.body, env)
        exits += brk
        if brk:
            undecided += 1
            if undecided > 2 and I.st is not None:
                I.st = S0
                reset(I, m)
                return havoc_while(I, s, env)
    else:
        raise Unsupported('loop does not end')
    for e in reversed(exits):
        I.st, _ = I.merge(e, I.st)


def counted(I, s, env):
    """run a loop whose every test is decided (a counter, a work list); False,
    with the state as before, when some test or exit depends on data"""
    S0, m = I.st, mark(I)
    I.st = S0.fork()
    try:
        for count in range(64):
            c = I.decide(I.truth(I.ev(s.test, env)))
            if c.op == 'false':
                if s.orelse:
                    I.exec_block(s.orelse, env)
                return True
            if c.op != 'true':
                break
            brk = I.loop_body(s.body, env)
            if I.st is None:
                if len(brk) == 1:
                    I.st = brk[0]
                    return True
                break
            if brk:
                break
    except Unsupported:
        pass
    I.st = S0
    reset(I, m)
    return False


# --------------------------------------------------------------------------
# Differences between heaps
# --------------------------------------------------------------------------
def diff(h0, h1):
    cells = []
    for o, x in h0.items():
        y = h1.get(o)
        if y is None or y is x:
            continue
        if x.kind in ('frame', 'inst', 'mod'):
            for n in list(y.data):
                a, b = x.data.get(n, UNDEF), y.data[n]
                if a is not b and not same_value(a, b):
                    cells.append((x.kind, o, n))
            for n in x.data:
                if n not in y.data:
                    cells.append((x.kind, o, n))
        elif x.kind == 'dict':
            for n in list(y.data) + [m for m in x.data if m not in y.data]:
                a, b = x.data.get(n), y.data.get(n)
                if a is None or b is None or not same_value(a[1], b[1]):
                    cells.append(('dict', o, n))
        else:
            if x.data is not y.data and not same_value(x.data, y.data):
                cells.append((x.kind, o, None))
    return cells


def get_cell(st, cell):
    k, o, n = cell
    ob = st.heap.get(o)
    if ob is None:
        return UNDEF
    if k in ('frame', 'inst', 'mod'):
        return ob.data.get(n, UNDEF)
    if k == 'dict':
        x = ob.data.get(n)
        return UNDEF if x is None else x[1]
    return ob.data


def set_cell(st, cell, v):
    k, o, n = cell
    ob = st.heap[o]
    if k in ('frame', 'inst', 'mod'):
        d = dict(ob.data)
        if v is UNDEF:
            d.pop(n, None)
        else:
            d[n] = v
        st.heap[o] = N.Obj(ob.kind, d, ob.meta)
    elif k == 'dict':
        d = dict(ob.data)
        key = d[n][0] if n in d else n
        d[n] = (key, v)
        st.heap[o] = N.Obj(ob.kind, d, ob.meta)
    else:
        st.heap[o] = N.Obj(ob.kind, v, ob.meta)


# --------------------------------------------------------------------------
# Vectorised summary
# --------------------------------------------------------------------------
def sym_for(I, plan, bind, run, loc):
    """summarise  for j in [0, n): bind(get(j)); run().  Returns False when the
    loop leaves early (break/return), True when summarised."""
    L = plan.n
    if signs(L) <= {-1, 0}:
        return True
    kname = I.fresh('k')
    ka = atom('sym', kname, isint=True)
    k = Rat.of(ka)
    FACTS.push(k, ZERO, L - ONE)
    S0 = I.st
    m = mark(I)
    mod = {}
    ind = {}            # counters: cell -> (first value, step), None when they turn out not to be
    E = None
    for rnd in range(9):
        reset(I, m)
        st = S0.fork()
        for cell, cid in mod.items():
            if ind.get(cell) is not None:
                set_cell(st, cell, ind[cell][0] + ind[cell][1] * k)
            else:
                set_cell(st, cell, prevalue(cid, k, cell, get_cell(S0, cell)))
        I.st = st
        start = st.fork()
        saved = I.symloops
        I.symloops = saved + ((k, L, loc),)
        brk = []
        try:
            def once():
                bind(plan.get(k))
                brk.extend(run())

            def guarded():
                if plan.guard is None:
                    once()
                else:
                    g = plan.guard(k)
                    I.branch(g, once_alive, lambda: None)

            def once_alive():
                once()
                if I.st is None:
                    raise N.Dead()
            try:
                guarded()
            except N.Dead:
                I.st = None
            except N.PyExc as e:
                I.raised.append((I.st, e.exc))
                I.st = None
        finally:
            I.symloops = saved
        if brk or rets_since(I, m):
            return False
        E = I.st
        if E is None:
            # every iteration leaves by an exception
            I.st = S0.fork(cle(L, ZERO))
            if I.decide(cle(L, ZERO)).op == 'false':
                I.st = None
            return True
        cells = diff(start.heap, E.heap)
        new = [c for c in cells if c not in mod]
        for c in new:
            mod[c] = '%s.%s%d.%s' % (kname, c[0], c[1], c[2])
        again = bool(new)
        for c in mod:
            if c in new:
                continue
            x0, x1 = get_cell(S0, c), get_cell(E, c)
            if ind.get(c) is not None:
                if not (isinstance(x1, Rat) and x1.eq(ind[c][0] + ind[c][1] * (k + ONE))):
                    ind[c] = None
                    again = True
            elif c not in ind and isinstance(x0, Rat) and is_intlike(x0) and isinstance(x1, Rat):
                g = (x1 - fn('pre', mod[c], k, isint=True)).as_int()
                if g is not None:
                    ind[c] = (x0, C(g))
                    again = True
        if not again:
            break
    else:
        raise Unsupported('loop does not stabilise')
    S = Summary(I, k, ka, L, S0, E, mod, loc)
    post = E.fork()
    post.pc = S0.pc
    for cell, cid in mod.items():
        if ind.get(cell) is not None:
            n = L if signs(L) <= {0, 1} else ite(cge(L, ONE), L, ZERO)
            set_cell(post, cell, ind[cell][0] + ind[cell][1] * n)
            continue
        set_cell(post, cell, S.final(cell))
    I.st = post
    return True


def prevalue(cid, k, cell, old):
    kind = cell[0]
    if kind == 'sto':
        sh = old.shape
        if old.dtype == 'O':
            raise Unsupported('loop over object arrays')
        if old.dtype == 'b':
            return Sto(sh, lambda idx: cbool('prearr', cid, k, tuple(idx)), 'b')
        isint = old.dtype == 'i'
        return Sto(sh, lambda idx: fn('prearr', cid, k, tuple(idx), isint=isint), old.dtype)
    if kind == 'list':
        return PreList(cid)
    if kind in ('frame', 'inst', 'mod', 'dict'):
        if isinstance(old, Rat):
            return fn('pre', cid, k, isint=is_intlike(old))
        if isinstance(old, Cond):
            return cbool('pre', cid, k)
        if old is UNDEF:
            return UNDEF
        return N.Stale(cid)
    raise Unsupported('%s modified in a loop of symbolic length' % kind)


REDDEPTH = {}


def _depth(x):
    d = 0
    for at in deep_atoms(x).values():
        if at.kind == 'sym' and isinstance(at.args[0], str) and at.args[0].startswith('\u03c3'):
            d = max(d, int(at.args[0][1:]))
    return d


def depends(x, ka):
    return ka.id in deep_atoms(x)


def selection(E, own):
    """E as max(own, g) or min(own, g) written with a comparison"""
    at = [ATOMS[a] for a in E.atoms()]
    if len(at) != 1 or at[0].kind != 'ite' or not E.eq(Rat.of(at[0])):
        return None
    c, x, y = at[0].args
    if y.eq(own):
        g, hit = x, 1
    elif x.eq(own):
        g, hit = y, -1
    else:
        return None
    k = c.key()
    if k in (cgt(g, own).key(), cge(g, own).key()):
        return ('max' if hit > 0 else 'min'), g
    if k in (clt(g, own).key(), cle(g, own).key()):
        return ('min' if hit > 0 else 'max'), g
    k = cnot(c).key()
    if k in (cgt(g, own).key(), cge(g, own).key()):
        return ('min' if hit > 0 else 'max'), g
    if k in (clt(g, own).key(), cle(g, own).key()):
        return ('max' if hit > 0 else 'min'), g
    return None


def mk_red(kind, body, k, lo, hi):
    """kind in sum/max/min/any/all of body for k in [lo, hi)"""
    (m, c), = k.num.items()
    ka = ATOMS[m[0][0]]
    n = (hi - lo).as_int()
    if n is not None and n <= 64:
        vals = [subst(body, {k: lo + C(i)}) for i in range(n)]
        return fold_red(kind, vals)
    if not depends(body, ka):
        if kind == 'sum':
            return body * (hi - lo)
        return body
    if kind == 'sum' and isinstance(body, Rat) and not body.den and len(body.num) >= 1:
        acc = ZERO
        for mono, c in body.num.items():
            inn = []
            out = []
            for a, e in mono:
                t = Rat({((a, 1),): F1})
                (inn if depends(t, ka) else out).append((a, e))
            f = Rat({tuple(out): c})
            acc = acc + f * (_red('sum', Rat({tuple(inn): F1}), k, lo, hi) if inn else (hi - lo))
        return acc
    if kind == 'min' and isinstance(body, Rat):
        return -_red('max', -body, k, lo, hi)
    return _red(kind, body, k, lo, hi)


def fold_red(kind, vals):
    if kind == 'sum':
        r = ZERO
        for v in vals:
            r = r + v
        return r
    if kind in ('max', 'min'):
        r = vals[0]
        for v in vals[1:]:
            r = rmax(r, v) if kind == 'max' else rmin(r, v)
        return r
    if kind == 'any':
        return cor(*vals)
    return cand(*vals)


def _red(kind, body, k, lo, hi):
    d = _depth((body, lo, hi)) + 1
    sg = sym('\u03c3%d' % d, isint=True)
    b = subst(body, {k: sg + lo})
    if kind in ('any', 'all'):
        return cbool(kind, b, hi - lo)
    if kind == 'max' and isinstance(b, Rat):
        # positive common factor free of the bound variable is left inside
        pass
    return fn('red', kind, sg, hi - lo, b, isint=is_intlike(b) if isinstance(b, Rat) else False)


def _rebuild_red(args, at):
    kind, sg, n, b = args
    nn = n.as_int()
    if nn is not None and nn <= 64:
        return fold_red(kind, [subst(b, {sg: C(i)}) for i in range(nn)]) if nn > 0 else ZERO
    return Rat.of(atom('red', kind, sg, n, b))


alg.REBUILD['red'] = _rebuild_red


class Summary:
    def __init__(self, I, k, ka, L, S0, E, mod, loc):
        self.I, self.k, self.ka, self.L = I, k, ka, L
        self.S0, self.E, self.mod, self.loc = S0, E, mod, loc
        self.bycid = {cid: cell for cell, cid in mod.items()}
        self.depth = 0
        self.memo = {}
        self.cands = {}

    def uns(self, msg):
        return Unsupported('loop at %s:%d: %s' % (self.loc[0], self.loc[1], msg))

    def deps(self, x):
        """loop-carried reads in x: set of (cid, idx or None)"""
        out = []
        for at in deep_atoms(x).values():
            if at.kind in ('pre', 'prearr') and at.args[0] in self.bycid:
                out.append(at)
        for b in bool_literals(x if isinstance(x, tuple) else (x,)):
            if b.args and b.args[0] in ('pre', 'prearr') and b.args[1] in self.bycid:
                out.append(b)
        return out

    # value x (of iteration k) rewritten for iteration kk with the loop-carried
    # reads resolved
    def resolve(self, x, kk, own=None, ownval=None):
        self.depth += 1
        if self.depth > 12:
            self.depth = 0
            raise self.uns('recurrence between iterations')
        try:
            def leaf(at):
                if isinstance(at, Cond):
                    if at.op == 'b' and at.args and at.args[0] in ('pre', 'prearr') \
                            and at.args[1] in self.bycid:
                        return self.pre(at.args[0], at.args[1],
                                        at.args[3] if at.args[0] == 'prearr' else None,
                                        kk, rw, own, ownval)
                    return None
                if at is self.ka:
                    return kk
                if at.kind in ('pre', 'prearr') and at.args[0] in self.bycid:
                    return self.pre(at.kind, at.args[0],
                                    at.args[2] if at.kind == 'prearr' else None, kk, rw,
                                    own, ownval)
                return None
            rw = Rewriter(leaf)
            return rw.any(x)
        finally:
            self.depth -= 1

    def pre(self, kind, cid, idx, kk, rw, own, ownval):
        cell = self.bycid[cid]
        if kind == 'pre':
            if own is not None and own == (cid, None):
                return ownval
            return self.scalar(cell, kk)
        idx = rw.any(idx)
        if own is not None and own[0] == cid and own[1] is not None \
                and all(a.eq(b) for a, b in zip(own[1], idx)):
            return ownval
        return self.array(cell, idx, kk)

    # -------------------------------------------------- scalar cells
    def scalar(self, cell, K):
        cid = self.mod[cell]
        key = (cid, K.key())
        if key in self.memo:
            return self.memo[key]
        init = get_cell(self.S0, cell)
        E = get_cell(self.E, cell)
        if not isinstance(E, (Rat, Cond)):
            raise self.uns('value of %s carried between iterations' % (cell[2],))
        if isinstance(E, Cond):
            own = cbool('pre', cid, self.k)
        else:
            own = fn('pre', cid, self.k, isint=is_intlike(init) if isinstance(init, Rat) else False)
        v = self.recur(E, own, (cid, None), init, K)
        self.memo[key] = v
        return v

    def recur(self, E, own, ownkey, init, K):
        """closed form after iterations 0..K-1 of  x <- E(x)"""
        selfdep = any(self.is_own(a, ownkey) for a in self.deps(E))
        if not selfdep:
            last = self.resolve(E, K - ONE)
            ran = cge(K, ONE)
            if ran.op == 'true':
                return last
            if isinstance(last, Rat) and isinstance(init, Rat):
                return ite(ran, last, init)
            return merge_val(ran, last, init)
        if isinstance(E, Cond):
            # any / all patterns:  x or g,  x and g
            if E.op in ('or', 'and'):
                rest = [a for a in E.args if a.key() != own.key()]
                if len(rest) == len(E.args) - 1:
                    g = cor(*rest) if E.op == 'or' else cand(*rest)
                    if not any(self.is_own(a, ownkey) for a in self.deps(g)):
                        r = mk_red('any' if E.op == 'or' else 'all', self.body(g), self.k, ZERO, K)
                        return cor(init, r) if E.op == 'or' else cand(init, r)
            raise self.uns('boolean recurrence')
        g = E - own
        if not any(self.is_own(a, ownkey) for a in self.deps(g)):
            return init + mk_red('sum', self.body(g), self.k, ZERO, K)
        sel = selection(E, own)
        if sel is not None and not any(self.is_own(a, ownkey) for a in self.deps(sel[1])):
            kind, g = sel
            f = rmax if kind == 'max' else rmin
            return f(init, mk_red(kind, self.body(g), self.k, ZERO, K))
        for kind, f in (('max', rmax), ('min', rmin)):
            for g in self.gates(E, own):
                if any(self.is_own(a, ownkey) for a in self.deps(g)):
                    continue
                t = f(own, g)
                ok = E.eq(t)
                if not ok:
                    try:
                        ok = equal(E, t)[0]
                    except Undecided:
                        ok = False
                if ok:
                    b = self.body(g)
                    return f(init, mk_red(kind, b, self.k, ZERO, K))
        raise self.uns('unrecognised recurrence')

    def body(self, g):
        """loop-carried reads of other cells inside a reduction body"""
        if self.deps(g):
            return self.resolve(g, self.k)
        return g

    def gates(self, E, own):
        out = []
        for at in deep_atoms(E).values():
            if at.kind == 'ite':
                out += [at.args[1], at.args[2]]
            elif at.kind == 'abs':
                d = at.args[0]
                out += [own - d, own + d] + self.root(d, own)
        for q in sign_literals((E,)):
            out += self.root(q, own)
        out.append(ZERO)
        r = []
        for g in out:
            if isinstance(g, Rat) and not any(g.eq(h) for h in r):
                r.append(g)
        return r

    def root(self, d, own):
        """the value of own at which the linear expression d vanishes"""
        o = [a for a in own.atoms()]
        if len(o) != 1 or o[0] not in d.atoms():
            return []
        try:
            c = subst(d, {own: own + ONE}) - d
            if o[0] in c.atoms() or c.is_zero():
                return []
            return [own - d / c]
        except AlgError:
            return []

    def is_own(self, at, ownkey):
        if isinstance(at, Cond):
            kind, cid = at.args[0], at.args[1]
            idx = at.args[3] if kind == 'prearr' else None
        else:
            kind, cid = at.kind, at.args[0]
            idx = at.args[2] if kind == 'prearr' else None
        if cid != ownkey[0]:
            return False
        if idx is None or ownkey[1] is None:
            return idx is None and ownkey[1] is None
        return all(a.eq(b) for a, b in zip(idx, ownkey[1]))

    # -------------------------------------------------- arrays
    def array(self, cell, s, K):
        cid = self.mod[cell]
        key = (cid, K.key()) + tuple(x.key() for x in s)
        if key in self.memo:
            return self.memo[key]
        self.depth += 1
        if self.depth > 12:
            self.depth = 0
            raise self.uns('recurrence between iterations')
        try:
            v = self._array(cell, cid, s, K)
        finally:
            self.depth -= 1
        self.memo[key] = v
        return v

    def _array(self, cell, cid, s, K):
        init = get_cell(self.S0, cell).get(s)
        Es = get_cell(self.E, cell).get(s)
        isb = isinstance(Es, Cond)
        own = cbool('prearr', cid, self.k, tuple(s)) if isb else None
        if own is None:
            old = get_cell(self.S0, cell)
            own = fn('prearr', cid, self.k, tuple(s), isint=old.dtype == 'i')
        if same_value(Es, own):
            return init
        cands = []
        for q in self.int_literals(Es):
            af = affine(q)
            if af is None:
                continue
            co, c0 = af
            ck = co.get(self.ka.id)
            if not ck:
                continue
            rest = Rat({mm: cc for mm, cc in q.num.items() if mm != ((self.ka.id, 1),)})
            num = rest.scale(-1 if ck > 0 else 1)
            f = floordiv(num, abs(int(ck))) if Fraction(ck).denominator == 1 else None
            if f is None:
                continue
            if not any(f[0].eq(x) for x in cands):
                cands.append(f[0])
        groups = []
        for x in cands:
            for g in groups:
                d = (x - g[0]).as_int()
                if d is not None:
                    g[1].append(d)
                    break
            else:
                groups.append((x, [0]))
        for base, offs in groups:
            lo, hi = min(offs), max(offs)
            if hi - lo > 12:
                if len(groups) == 1:
                    raise self.uns('too many iterations write one element')
                continue
            if self.outside(Es, cid, s, base + C(hi), 1, isb, K) and \
                    self.outside(Es, cid, s, base + C(lo), -1, isb, K):
                val = init
                for o in range(lo, hi + 1):
                    q = base + C(o)
                    inr = cand(cge(q, ZERO), clt(q, K))
                    if inr.op == 'false':
                        continue
                    v = self.resolve(Es, q, (cid, tuple(s)), val)
                    val = merge_val(inr, v, val)
                return val
        if len(groups) > 1:
            raise self.uns('cannot order the iterations that write an element')
        return self.recur(Es, own, (cid, tuple(s)), init, K)

    def int_literals(self, x):
        out = []
        for q in sign_literals((x,)):
            if self.ka.id in q.atoms() and all(ATOMS[a].isint for a in q.atoms()):
                out.append(q)
        return out

    def outside(self, Es, cid, s, edge, direction, isb, K):
        """no iteration beyond the edge writes the element"""
        if (cge(edge, ONE) if direction < 0 else clt(edge, K - ONE)).op == 'false':
            return True         # there is no iteration beyond it
        t = sym(self.I.fresh('t'), isint=True)
        FACTS.push(t, ONE, None)
        kk = edge + t if direction > 0 else edge - t

        # without assuming that kk lies in the iteration range
        def leaf(at):
            if at is self.ka:
                return kk
            return None
        v = Rewriter(leaf).any(Es)
        own = cbool('prearr', cid, kk, tuple(s)) if isb else \
            fn('prearr', cid, kk, tuple(s), isint=get_cell(self.S0, self.bycid[cid]).dtype == 'i')
        return same_value(v, own)

    # -------------------------------------------------- results
    def final(self, cell):
        kind = cell[0]
        if kind == 'sto':
            old = get_cell(self.S0, cell)
            L = self.L
            return A.densify(Sto(old.shape, lambda s: self.array(cell, s, L), old.dtype))
        if kind == 'list':
            return self.final_list(cell)
        E = get_cell(self.E, cell)
        if E is UNDEF:
            return E
        if isinstance(E, (Rat, Cond)):
            try:
                return self.scalar(cell, self.L)
            except Unsupported as e:
                return N.Stale('%s (%s)' % (cell[2], e.args[0] if e.args else ''))
        if isinstance(E, (N.Func, N.ClassV, N.Ext, str)) and not isinstance(E, N.Func):
            if same_value(E, get_cell(self.S0, cell)):
                return E
        return N.Stale(str(cell[2]))

    def final_list(self, cell):
        init = get_cell(self.S0, cell)
        E = get_cell(self.E, cell)
        if not isinstance(E, PreList) or not isinstance(init, tuple):
            raise self.uns('list modified irregularly')
        m = len(E.items)
        n0 = len(init)
        if m == 0:
            return init
        I = self.I

        def at(j):
            jj = j.as_int()
            if jj is not None and jj < n0:
                return init[jj]
            q = floordiv(j - C(n0), m)
            if q is None:
                raise self.uns('list position')
            return self.sub_value(E.items[q[1]], q[0])
        return SeqData(C(n0) + self.L * C(m), at)

    def sub_value(self, v, kk):
        if isinstance(v, (Rat, Cond)):
            return self.resolve(v, kk)
        if isinstance(v, tuple):
            return tuple(self.sub_value(x, kk) for x in v)
        if v is None or isinstance(v, (str, N.Func, N.ClassV, N.Ext)):
            return v
        if isinstance(v, AStr):
            return AStr(tuple(Fmt(self.sub_value(p.val, kk), p.spec) if isinstance(p, Fmt) else p
                              for p in v.parts))
        if isinstance(v, View):
            sto = self.E.heap[v.oid].data
            if v.oid in self.S0.heap:
                if ('sto', v.oid, None) not in self.mod:
                    return v
                raise self.uns('list of views of a modified array')
            fwd = v.fwd
            shape = tuple(self.sub_value(x, kk) for x in v.shape)
            return self.I.arr(shape, lambda idx: self.sub_value(sto.get(fwd(idx)), kk), v.dtype)
        if isinstance(v, N.Ref):
            o = self.E.heap[v.oid]
            if v.oid not in self.S0.heap and o.kind == 'list' and isinstance(o.data, tuple):
                return self.I.list_([self.sub_value(x, kk) for x in o.data])
        raise self.uns('list of %r' % (v,))


# --------------------------------------------------------------------------
# Havoc
# --------------------------------------------------------------------------
class Havoc:
    def __init__(self, I, loc, S0):
        self.I, self.loc, self.S0 = I, loc, S0
        self.id = I.fresh('H')
        self.vals = {}       # cell -> value at the loop head
        self.summ = {}       # (cell) -> summary oid

    def value(self, cell, end, alias):
        """havocked value of a cell, given its value at the end of the body"""
        I = self.I
        init = get_cell(self.S0, cell)
        name = '%s.%s' % (self.id, cell[2] if cell[2] is not None else cell[0] + str(cell[1]))
        h = I.hooks.get('havoc')
        if h is not None:
            v = h(I, self, cell, name, init, end)
            if v is not NotImplemented:
                return v
        return self.hv(name, init, end, alias, cell)

    def hv(self, name, init, end, alias, cell):
        I = self.I
        if init is UNDEF:
            return UNDEF
        if isinstance(init, Sto):
            isint = init.dtype == 'i'
            if init.dtype == 'b':
                return Sto(init.shape, lambda idx: cbool('hvarr', name, tuple(idx)), 'b')
            return Sto(init.shape, lambda idx: Rat.of(atom('elem', name, tuple(idx), isint=isint)),
                       init.dtype)
        if isinstance(init, Rat):
            return sym(name, isint=is_intlike(init) and isinstance(end, Rat) and is_intlike(end))
        if isinstance(init, Cond):
            return cbool('hv', name)
        if isinstance(init, View):
            if same_value(init, end):
                return init
            ends = alternatives(end)
            if all(isinstance(e, View) for e in ends):
                new = [e for e in ends if e.oid not in self.S0.heap]
                old = [e for e in ends if e.oid in self.S0.heap and not same_value(e, init)]
                if not old and new and all(len(e.shape) == len(init.shape) and
                                           all(p.eq(q) for p, q in zip(e.shape, init.shape))
                                           for e in new):
                    key = new[0].oid
                    so = alias.get(key)
                    if so is None:
                        so = self.summ.get(cell)
                        if so is None:
                            I.oid += 1
                            so = I.oid
                            self.summ[cell] = so
                        for e in new:
                            alias[e.oid] = so
                    nm = '%s@%d' % (name, so)
                    self.newsto = getattr(self, 'newsto', {})
                    self.newsto[so] = Sto(init.shape,
                                          lambda idx: Rat.of(atom('elem', nm, tuple(idx))), init.dtype)
                    return View.whole(so, self.newsto[so])
            return N.Stale(name)
        if isinstance(init, tuple) and isinstance(end, tuple) and len(init) == len(end):
            return tuple(x if same_value(x, y) else
                         self.hv('%s.%d' % (name, i), x, y, alias, (cell, i))
                         for i, (x, y) in enumerate(zip(init, end)))
        if isinstance(init, SeqData) or isinstance(end, SeqData):
            return N.Stale(name)
        return N.Stale(name)


def alternatives(v):
    if isinstance(v, Choice):
        return alternatives(v.a) + alternatives(v.b)
    return [v]


def apply_havoc(H, st):
    for so, sto in getattr(H, 'newsto', {}).items():
        st.heap[so] = N.Obj('sto', sto, H.loc)
    for cell, v in H.vals.items():
        set_cell(st, cell, v)


def havoc_while(I, s, env):
    loc = (env.path, s.lineno)

    def test():
        c = I.decide(I.truth(I.ev(s.test, env)))
        return c

    def body():
        return I.loop_body(s.body, env)
    rec = havoc(I, loc, test, body)
    rec.node = s
    rec.env = env
    left(I, rec)
    out = rec.exit
    if out is not None and s.orelse:
        I.st = out
        I.exec_block(s.orelse, env)
        out = I.st
    for e in reversed(rec.brk):
        out, _ = I.merge(e, out)
    I.st = out


def left(I, rec):
    """let a check generalise the states that leave the loop"""
    h = I.hooks.get('loop_exit')
    if h is not None:
        keep = I.st
        for st in rec.brk + ([rec.exit] if getattr(rec, 'exit', None) is not None else []):
            I.st = st
            h(I, rec, st)
        I.st = keep


def havoc(I, loc, test, body):
    S0 = I.st
    m = mark(I)
    H = Havoc(I, loc, S0)
    rec = None
    # the first iteration, exactly
    first = None
    for rnd in range(8):
        reset(I, m)
        st = S0.fork()
        apply_havoc(H, st)
        I.st = st
        start = st.fork()
        c = test()
        head = I.st
        ends, brk = None, []
        if c.op != 'false':
            I.st = head.fork(c)
            brk = body()
            ends = I.st
        if rnd == 0:
            first = (start, c, ends, brk)
        cells = diff(start.heap, ends.heap) if ends is not None else []
        grow = False
        alias = {}
        for cell in cells:
            e = get_cell(ends, cell)
            v = H.value(cell, e, alias)
            if cell not in H.vals:
                if v is UNDEF:
                    continue
                H.vals[cell] = v
                grow = True
            elif not same_value(H.vals[cell], v) and not isinstance(v, (Sto,)) \
                    and not isinstance(v, N.Stale):
                if isinstance(v, View) and isinstance(H.vals[cell], View) \
                        and v.oid == H.vals[cell].oid:
                    continue
                H.vals[cell] = v
                grow = True
        if not grow:
            break
    else:
        raise Unsupported('loop at %s:%d does not stabilise' % loc)
    rec = N.LoopRec()
    rec.loc = loc
    rec.entry = S0
    rec.start = start
    rec.head = head
    rec.guard = c
    rec.end = ends
    rec.brk = brk
    rec.first = first
    rec.havoc = H
    rec.cells = dict(H.vals)
    rec.func = I.funcs[-1].func if I.funcs else None
    rec.frame = I.funcs[-1].frame if I.funcs else None
    rec.raised = list(I.raised[m[0]:])
    ex = None
    if c.op != 'true':
        ex = head.fork(cnot(c))
        if ends is not None:
            for cell in diff(head.heap, ends.heap):
                if cell[0] in ('frame', 'inst') and get_cell(ex, cell) is UNDEF:
                    set_cell(ex, cell, N.Stale('%s after the loop' % cell[2]))
            # anything written in the loop is visible as an event
            ex.events = merge_events(ex.events, ends.events)
    rec.exit = ex
    I.loop_log.append(rec)
    return rec


def merge_events(a, b):
    n = 0
    while n < len(a) and n < len(b) and a[n] is b[n]:
        n += 1
    return a + b[n:]


def havoc_for(I, bodystmts, env, plan, bind, loc, orelse):
    n = plan.n
    if plan.guard is not None:
        raise Unsupported('data-dependent exit in a loop over an index set')
    jname = I.fresh('j')
    j = sym(jname, isint=True)
    FACTS.push(j, ZERO, n - ONE)

    def test():
        return TRUE

    def body():
        bind(plan.get(j))
        return I.loop_body(bodystmts, env)
    S0 = I.st
    rec = havoc(I, loc, test, body)
    rec.index = j
    rec.n = n
    left(I, rec)
    # exhaustion: the last iteration ended normally
    out = None
    if rec.end is not None:
        dead = False
        for c in rec.end.pc[len(S0.pc):]:
            v = subst(c, {j: n - ONE})
            if v.op == 'false':
                dead = True
        if not dead:
            I.st = rec.end
            if I.decide(ceq(j, n - ONE)).op == 'false':
                dead = True
        if not dead:
            out = rec.end.fork(ceq(j, n - ONE))
            I.st = out
            if orelse:
                I.exec_block(orelse, env)
            out = I.st
    if signs(n) - {1}:
        z = S0.fork(cle(n, ZERO))
        out, _ = I.merge(z, out) if out is not None else (z, None)
    for e in reversed(rec.brk):
        out, _ = I.merge(e, out)
    I.st = out
