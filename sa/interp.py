"""Abstract interpreter for the Python subset used by the repository.

The interpreter walks the syntax tree of the *current* source and computes, for
every program point, a gated value (see alg.py) for every variable, attribute
and array element.  Control-flow joins merge states cell by cell; loops with a
symbolic trip count are summarised (vectorised) and loops with a symbolic exit
condition are over-approximated by havocking what they modify.  No code of the
repository is ever executed.
"""
import ast
from .desugar import desugar
import os
import warnings
from .alg import *
from .arr import *
from . import arr as A
from .strs import AStr, mkstr, Fmt, Tok


class Obj:
    __slots__ = ('kind', 'data', 'meta')

    def __init__(self, kind, data, meta=None):
        self.kind = kind
        self.data = data
        self.meta = meta


class Ref:
    __slots__ = ('oid',)

    def __init__(self, oid):
        self.oid = oid

    def __eq__(self, o):
        return isinstance(o, Ref) and o.oid == self.oid

    def __hash__(self):
        return hash(('ref', self.oid))

    def __repr__(self):
        return 'Ref#%d' % self.oid


class Func:
    __slots__ = ('node', 'mod', 'closure', 'qual', 'defaults', 'kwdefaults', 'name', 'kind', 'cls')

    def __init__(self, node, mod, closure, qual, defaults, kwdefaults, name):
        self.node, self.mod, self.closure, self.qual = node, mod, closure, qual
        self.defaults, self.kwdefaults, self.name = defaults, kwdefaults, name
        self.kind = None
        self.cls = None

    def __eq__(self, o):
        return isinstance(o, Func) and o.node is self.node and o.closure == self.closure \
            and len(o.defaults) == len(self.defaults) \
            and all(A.same_value(x, y) for x, y in zip(self.defaults, o.defaults))

    def __hash__(self):
        return id(self.node)

    def __repr__(self):
        return '<function %s>' % self.qual


class Bound:
    __slots__ = ('func', 'self')

    def __init__(self, func, self_):
        self.func, self.self = func, self_

    def __eq__(self, o):
        return isinstance(o, Bound) and A.same_value(o.func, self.func) \
            and A.same_value(o.self, self.self)

    def __hash__(self):
        return hash(self.func)

    def __repr__(self):
        return '<bound %r of %r>' % (self.func, self.self)


# base classes which give their subclasses nothing
HARMLESS = ('builtins.object', 'abc.ABC', 'typing.Protocol', 'typing.Generic')
PRELUDE = None


class ClassV:
    __slots__ = ('name', 'qual', 'bases', 'attrs', 'mod')

    def __init__(self, name, qual, bases, attrs, mod):
        self.name, self.qual, self.bases, self.attrs, self.mod = name, qual, bases, attrs, mod

    def lookup(self, n):
        if n in self.attrs:
            return self.attrs[n]
        for b in self.bases:
            if isinstance(b, ClassV):
                v = b.lookup(n)
                if v is not None:
                    return v
        return None

    def __repr__(self):
        return '<class %s>' % self.qual


class Ext:
    """an external (library) module, class or function, by canonical name"""
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, Ext) and o.name == self.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return '<ext %s>' % self.name


class ExtMeth:
    """method of a modelled object"""
    __slots__ = ('obj', 'name')

    def __init__(self, obj, name):
        self.obj, self.name = obj, name

    def __eq__(self, o):
        return isinstance(o, ExtMeth) and o.name == self.name and A.same_value(o.obj, self.obj)

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return '<method %s of %r>' % (self.name, self.obj)


class Native:
    """model implemented by a python function f(interp, args, kwargs)"""
    __slots__ = ('f', 'name')

    def __init__(self, f, name='native'):
        self.f, self.name = f, name

    def __repr__(self):
        return '<native %s>' % self.name


class NativeMethod(Native):
    """a native that is bound to the instance it is looked up on"""
    __slots__ = ()


class ExcV:
    __slots__ = ('type', 'args', 'loc', 'msg')

    def __init__(self, type_, args=(), loc=None, msg=''):
        self.type, self.args, self.loc, self.msg = type_, args, loc, msg

    def __repr__(self):
        return '%s%r at %s' % (self.type, self.args, self.loc)


class Stale:
    def __init__(self, what):
        self.what = what

    def __repr__(self):
        return 'Stale(%s)' % self.what


HIER = {
    'SystemExit': 'BaseException', 'KeyboardInterrupt': 'BaseException',
    'GeneratorExit': 'BaseException', 'Exception': 'BaseException',
    'ArithmeticError': 'Exception', 'ZeroDivisionError': 'ArithmeticError',
    'FloatingPointError': 'ArithmeticError', 'OverflowError': 'ArithmeticError',
    'AssertionError': 'Exception', 'AttributeError': 'Exception', 'EOFError': 'Exception',
    'ImportError': 'Exception', 'ModuleNotFoundError': 'ImportError', 'LookupError': 'Exception',
    'IndexError': 'LookupError', 'KeyError': 'LookupError', 'NameError': 'Exception',
    'UnboundLocalError': 'NameError', 'OSError': 'Exception', 'IOError': 'OSError',
    'FileNotFoundError': 'OSError', 'FileExistsError': 'OSError', 'PermissionError': 'OSError',
    'RuntimeError': 'Exception', 'NotImplementedError': 'RuntimeError',
    'StopIteration': 'Exception', 'TypeError': 'Exception', 'ValueError': 'Exception',
    'UnicodeDecodeError': 'ValueError', 'numpy.linalg.LinAlgError': 'ValueError',
    'subprocess.CalledProcessError': 'Exception', 'Warning': 'Exception',
}


def exc_isa(t, base):
    if base == 'EnvironmentError':
        base = 'OSError'
    if base == 'IOError':
        base = 'OSError'
    while t is not None:
        if t == 'IOError':
            t = 'OSError'
        if t == base:
            return True
        t = HIER.get(t)
    return False


class PyExc(Exception):
    """unconditional exception of the analysed program"""

    def __init__(self, exc):
        self.exc = exc
        Exception.__init__(self, repr(exc))


class Dead(Exception):
    """the current abstract state is unreachable"""


class Event:
    __slots__ = ('kind', 'data', 'pc', 'loc', 'loops', 'stack')

    def __init__(self, kind, data, pc, loc, loops, stack):
        self.kind, self.data, self.pc, self.loc = kind, data, pc, loc
        self.loops, self.stack = loops, stack

    def __repr__(self):
        return 'Event(%s @%s %s)' % (self.kind, self.loc, self.data if self.kind != 'write' else '')


class State:
    __slots__ = ('heap', 'pc', 'events', '_know')

    def __init__(self, heap, pc=(), events=()):
        self.heap = heap
        self.pc = pc
        self.events = events
        self._know = None

    def fork(self, c=None):
        s = State(dict(self.heap), self.pc if c is None or c.op == 'true' else self.pc + (c,),
                  self.events)
        return s

    def know(self):
        if self._know is None or self._know[0] is not self.pc:
            sg = {}
            bl = {}

            def add(c):
                if c.op == 'sign':
                    k = c.args[0].key()
                    sg[k] = sg[k] & c.args[1] if k in sg else c.args[1]
                elif c.op == 'and':
                    for a in c.args:
                        add(a)
                else:
                    bl[c.key()] = True
            for c in self.pc:
                add(c)
            self._know = (self.pc, sg, bl)
        return self._know[1], self._know[2]


class FuncCtx:
    __slots__ = ('rets', 'func', 'frame', 'yields')

    def __init__(self, func, frame):
        self.rets = []
        self.func = func
        self.frame = frame
        self.yields = None


class LoopCtx:
    __slots__ = ('brk', 'cont')

    def __init__(self):
        self.brk = []
        self.cont = []


class LoopRec:
    """record of a havocked loop (for checks that look at its transfer)"""
    pass


class Interp:
    def __init__(self, repo, search=('',), intercept=None):
        self.repo = repo
        self.search = search
        self.oid = 0
        self.st = State({})
        self.funcs = []
        self.loops = []
        self.raised = []          # innermost catch scope
        self.mods = {}
        self.intercept = intercept or {}
        self.loc = ('?', 0)
        self.stack = []
        self.symloops = ()
        self.uid = 0
        self.loop_log = []
        self.hooks = {}
        self.stats = {'functions': set(), 'calls': set(), 'stmts': set(), 'loops': set()}
        self.period = 1
        self.files = {}
        self.havoc_loops = set()
        self.allsteps = 0
        self.src = {}
        self.prel = None
        self.oncm = []
        self.vfs = {}
        self.after_call = {}
        self.bigloop = 8
        from . import lib
        self.lib = lib

    # ------------------------------------------------------------------ heap
    def new(self, kind, data, meta=None):
        self.oid += 1
        self.st.heap[self.oid] = Obj(kind, data, meta)
        return self.oid

    def obj(self, ref):
        return self.st.heap[ref.oid if isinstance(ref, Ref) else ref]

    def put(self, oid, obj):
        self.st.heap[oid] = obj

    def setattr_(self, ref, name, v):
        o = self.obj(ref)
        d = dict(o.data)
        d[name] = v
        self.put(ref.oid, Obj(o.kind, d, o.meta))

    def new_array(self, sto):
        sto = A.densify(sto)
        oid = self.new('sto', sto, self.loc)
        return View.whole(oid, sto)

    def arr(self, shape, fn, dtype='f'):
        return self.new_array(Sto(tuple(shape), fn, dtype))

    def list_(self, items):
        return Ref(self.new('list', tuple(items)))

    def getter(self, v):
        """element reader of a view, bound to the current content"""
        sto = self.st.heap[v.oid].data
        fwd = v.fwd
        if v.sig == ():
            return sto.get
        return lambda idx: sto.get(fwd(idx))

    def fresh(self, p):
        self.uid += 1
        return '%s#%d' % (p, self.uid)

    def event(self, kind, *data):
        e = Event(kind, data, self.st.pc, self.loc, self.symloops, tuple(self.stack))
        self.st.events = self.st.events + (e,)
        h = self.hooks.get(kind)
        if h:
            h(self, e)
        return e

    # ------------------------------------------------------------- conditions
    def decide(self, c):
        """simplify a condition with what the path condition tells"""
        if c.op in ('true', 'false'):
            return c
        if not self.st.pc:
            if c.op == 'and' and not satisfiable((c,)):
                return FALSE
            if c.op == 'or' and not satisfiable((cnot(c),)):
                return TRUE
            return c
        sg, bl = self.st.know()

        def sign(q):
            s = sg.get(q.key())
            return s

        def leaf(x):
            if isinstance(x, Cond):
                k = x.key()
                if k in bl:
                    return TRUE
                if cnot(x).key() in bl:
                    return FALSE
            return None
        if bl and c.op not in ('sign',):
            k = c.key()
            if k in bl:
                return TRUE
            if cnot(c).key() in bl:
                return FALSE
        c2 = Rewriter(leaf if bl else None, sign if sg else None).cond(c)
        if c2.op in ('true', 'false'):
            return c2
        # absorption against disjunctive knowledge
        if any(p.op == 'or' for p in self.st.pc):
            if cand(*(self.st.pc + (c2,))).op == 'false':
                return FALSE
            if cand(*(self.st.pc + (cnot(c2),))).op == 'false':
                return TRUE
        if c2.op in ('sign', 'and', 'or') and self.st.pc:
            r = self._linear(c2)
            if r is not None:
                return r
        elif c2.op == 'and' and not satisfiable((c2,)):
            return FALSE
        return c2

    def _linear(self, c):
        """decide a condition from linear consequences of the path condition"""
        ids = set()
        for q in sign_literals((c,)):
            ids |= q.atoms()
        rel = []
        seen = set(ids)
        left = [p for p in self.st.pc if p.op in ('sign', 'and', 'or')]
        # conditions connected to c by common atoms
        atoms = {}
        grow = True
        while grow and len(rel) < 24:
            grow = False
            rest = []
            for p in left:
                pa = atoms.get(id(p))
                if pa is None:
                    pa = set()
                    for q in sign_literals((p,)):
                        pa |= q.atoms()
                    atoms[id(p)] = pa
                if pa & seen:
                    rel.append(p)
                    seen |= pa
                    grow = True
                else:
                    rest.append(p)
            left = rest
        if not rel and c.op == 'sign':
            return None
        if not satisfiable(rel + [c]):
            return FALSE
        n = cnot(c)
        if not satisfiable(rel + [n]):
            return TRUE
        return None

    def truth(self, v):
        if isinstance(v, Cond):
            return v
        if v is None:
            return FALSE
        if isinstance(v, Rat):
            return cnot(ceq(v, ZERO))
        if isinstance(v, str):
            return mkbool(v != '')
        if isinstance(v, AStr):
            return v.nonempty()
        if isinstance(v, tuple):
            return mkbool(len(v) > 0)
        if isinstance(v, Choice):
            return self.lift(self.truth, v)
        if isinstance(v, Ref):
            o = self.obj(v)
            if o.kind in ('list', 'dict', 'set'):
                n = self.lib.length(self, v)
                return cnot(ceq(n, ZERO))
            if o.kind == 'inst':
                m = o.meta.lookup('__bool__') or o.meta.lookup('__len__')
                if m is not None:
                    return self.truth(self.call(Bound(m, v), (), {}))
            return TRUE
        if isinstance(v, self.lib.Filtered):
            return cnot(ceq(v.count(self), ZERO))
        if isinstance(v, View):
            if all(s.eq(ONE) for s in v.shape):
                return self.truth(self.getter(v)(tuple(ZERO for _ in v.shape)))
            self.raise_('ValueError', 'truth value of an array is ambiguous')
        return TRUE

    # --------------------------------------------------------------- merging
    def merge(self, a, b, va=None, vb=None):
        """merge two disjoint states; returns (state, value)"""
        if a is None:
            return b, vb
        if b is None:
            return a, va
        n = 0
        pa, pb = a.pc, b.pc
        while n < len(pa) and n < len(pb) and (pa[n] is pb[n] or pa[n].key() == pb[n].key()):
            n += 1
        ra, rb = cand(*pa[n:]), cand(*pb[n:])
        if ra.op == 'true' and rb.op == 'true':
            if all(a.heap.get(o) is b.heap.get(o) for o in a.heap):
                return b, vb
            raise Unsupported('merge of indistinguishable states')
        d = ra
        if ra.op == 'true':
            d = cnot(rb)
        # a simpler discriminator when one exists
        if pa[n:] and pb[n:] and cnot(pa[n]).key() == pb[n].key():
            d = pa[n]
        tail = cor(ra, rb)
        tail = simplify_or(ra, rb, tail)
        s = State({}, pa[:n] + ((tail,) if tail.op != 'true' else ()))
        ev = 0
        ea, eb = a.events, b.events
        while ev < len(ea) and ev < len(eb) and ea[ev] is eb[ev]:
            ev += 1
        s.events = ea + eb[ev:]
        ha, hb = a.heap, b.heap
        h = s.heap
        for o, x in ha.items():
            y = hb.get(o)
            if y is None or x is y:
                h[o] = x
            else:
                h[o] = self.merge_obj(d, x, y)
        for o, y in hb.items():
            if o not in ha:
                h[o] = y
        v = va
        if va is not vb:
            v = self.mv(d, va, vb)
        return s, v

    def mv(self, d, a, b):
        return merge_val(d, a, b)

    def merge_obj(self, d, x, y):
        if x.kind != y.kind:
            raise Unsupported('merge of %s and %s' % (x.kind, y.kind))
        k = x.kind
        if k in ('frame', 'inst', 'mod'):
            out = {}
            for n in list(x.data) + [m for m in y.data if m not in x.data]:
                p, q = x.data.get(n, UNDEF), y.data.get(n, UNDEF)
                out[n] = p if p is q else self.mv(d, p, q)
            return Obj(k, out, x.meta)
        if k == 'sto':
            return Obj(k, merge_sto(d, x.data, y.data), x.meta)
        if k == 'list' or k == 'iter' or k == 'file' or k == 'set':
            if same_value(x.data, y.data):
                return x
            if isinstance(x.data, tuple) and isinstance(y.data, tuple) and len(x.data) == len(y.data):
                return Obj(k, tuple(self.mv(d, p, q) for p, q in zip(x.data, y.data)), x.meta)
            return Obj(k, Choice(d, x.data, y.data), x.meta)
        if k == 'dict':
            out = {}
            for n in list(x.data) + [m for m in y.data if m not in x.data]:
                p = x.data.get(n)
                q = y.data.get(n)
                if p is None:
                    out[n] = (q[0], self.mv(d, UNDEF, q[1]))
                elif q is None:
                    out[n] = (p[0], self.mv(d, p[1], UNDEF))
                else:
                    out[n] = (p[0], self.mv(d, p[1], q[1]))
            return Obj(k, out, x.meta)
        raise Unsupported('merge of ' + k)

    def branch(self, c, f, g):
        """run f under c and g under not c, merge states and results"""
        c = self.decide(c)
        if c.op == 'true':
            return f()
        if c.op == 'false':
            return g()
        s0 = self.st
        va = vb = None
        sa = sb = None
        self.st = s0.fork(c)
        try:
            va = f()
            sa = self.st
        except Dead:
            pass
        except (PyExc, IndexError, ZeroDivisionError) as e:
            self.raised.append((self.st, self.as_exc(e)))
        self.st = s0.fork(cnot(c))
        try:
            vb = g()
            sb = self.st
        except Dead:
            pass
        except (PyExc, IndexError, ZeroDivisionError) as e:
            self.raised.append((self.st, self.as_exc(e)))
        if sa is None and sb is None:
            raise Dead()
        self.st, v = self.merge(sa, sb, va, vb)
        return v

    def lift(self, f, *vals):
        """apply f to values, splitting on Choice operands"""
        for i, v in enumerate(vals):
            if isinstance(v, Choice):
                def fa(x):
                    return lambda: self.lift(f, *(vals[:i] + (x,) + vals[i + 1:]))
                return self.branch(v.c, fa(v.a), fa(v.b))
        return f(*vals)

    # ------------------------------------------------------------- exceptions
    def raise_(self, type_, *args):
        raise PyExc(ExcV(type_, args, self.loc))

    def as_exc(self, e):
        if isinstance(e, PyExc):
            return e.exc
        return ExcV(type(e).__name__, (str(e),), self.loc)

    def maybe_raise(self, c, type_, *args):
        """the program raises when c holds; continue when it does not"""
        c = self.decide(c)
        if c.op == 'false':
            return
        if c.op == 'true':
            self.raise_(type_, *args)
        s = self.st.fork(c)
        self.raised.append((s, ExcV(type_, args, self.loc)))
        self.st = self.st.fork(cnot(c))

    # ---------------------------------------------------------------- modules
    def source(self, path):
        full = os.path.join(self.repo, path)
        if path not in self.src:
            with open(full) as f:
                t = f.read()
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                self.src[path] = (t, desugar(ast.parse(t)))
        return self.src[path]

    def find_module(self, name):
        rel = name.replace('.', '/')
        for s in self.search:
            for cand_ in (os.path.join(s, rel + '.py'), os.path.join(s, rel, '__init__.py')):
                if os.path.isfile(os.path.join(self.repo, cand_)):
                    return os.path.normpath(cand_)
            if os.path.isdir(os.path.join(self.repo, s, rel)):
                return os.path.normpath(os.path.join(s, rel)) + '/'
        return None

    def load_module(self, name, main=False):
        if name in self.mods and not main:
            return self.mods[name]
        path = self.find_module(name)
        if path is None:
            return None
        oid = self.new('mod', {'__name__': '__main__' if main else name,
                               '__file__': '/R/' + path if self.hooks.get('cwd') else path,
                               '__doc__': None}, name)
        ref = Ref(oid)
        self.mods[name] = ref
        if path.endswith('/'):
            return ref
        text, tree = self.source(path)
        saved = (self.loc, self.stack, self.funcs, self.loops)
        self.stack = self.stack + ['<module %s>' % name]
        self.funcs, self.loops = [], []
        try:
            self.run_body(tree.body, Env(self, path, name, (oid,), None))
        finally:
            self.loc, self.stack, self.funcs, self.loops = saved
        if '.' in name:
            parent, leaf = name.rsplit('.', 1)
            p = self.load_module(parent)
            if p is not None:
                self.setattr_(p, leaf, ref)
        return ref

    def prelude(self, name):
        """the description of a library function in sa/prelude.py, if there is one"""
        global PRELUDE
        if PRELUDE is None:
            path = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'prelude.py')
            with open(path) as f:
                PRELUDE = desugar(ast.parse(f.read())).body
        key = name.replace('.', '__')
        if not any(isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x.name == key for x in PRELUDE):
            return None
        if self.prel is None or self.prel not in self.st.heap:
            def no(I, a, k):
                raise Unsupported(a[0])
            self.prel = self.new('mod', {'__name__': '<library>', '_unsupported': Native(no)}, '<library>')
            saved = (self.loc, self.stack, self.funcs, self.loops, self.stats)
            self.funcs, self.loops = [], []
            self.stats = {k: set() for k in self.stats}
            try:
                self.run_body(PRELUDE, Env(self, '<library>', '<library>', (self.prel,), None))
            finally:
                self.loc, self.stack, self.funcs, self.loops, self.stats = saved
        return self.st.heap[self.prel].data[key]

    def define(self, text, names):
        """a function given by its source, with the values of its free names"""
        node = ast.parse(text).body[0]
        oid = self.new('mod', dict(names), '<library>')
        env = Env(self, '<library>', '<library>', (oid,), None)
        return self.mkfunc(node, env, node.name)

    def run_body(self, body, env):
        self.exec_block(body, env)
        if self.st is None:
            raise Dead()

    def import_(self, name):
        """value of the module `name`"""
        m = self.load_module(name)
        if m is not None:
            return m
        return Ext(self.lib.canon(name))

    # -------------------------------------------------------------- execution
    def exec_block(self, body, env):
        for s in body:
            if self.st is None:
                return
            self.exec_stmt(s, env)

    def exec_stmt(self, s, env):
        tick()
        self.loc = (env.path, s.lineno)
        if env.path != '<library>':
            self.stats['stmts'].add((env.path, s.lineno, s.col_offset))
        self.allsteps += 1
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise Unsupported('statement %s at %s:%d' % (type(s).__name__, env.path, s.lineno))
        try:
            m(s, env)
        except PyExc as e:
            self.raised.append((self.st, e.exc))
            self.st = None
        except Dead:
            self.st = None
        except IndexError as e:
            self.raised.append((self.st, ExcV('IndexError', (str(e),), self.loc)))
            self.st = None
        except ZeroDivisionError as e:
            self.raised.append((self.st, ExcV('ZeroDivisionError', (str(e),), self.loc)))
            self.st = None
        except Unsupported as e:
            if not getattr(e, 'loc', None):
                e.loc = '%s:%d' % self.loc
                e.args = ('%s [%s:%d]' % (e.args[0] if e.args else '', self.loc[0], self.loc[1]),)
            raise

    def s_Expr(self, s, env):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, env)

    def s_Pass(self, s, env):
        pass

    def s_Global(self, s, env):
        env.globals_.update(s.names)

    def s_Nonlocal(self, s, env):
        env.nonlocals.update(s.names)

    def s_Import(self, s, env):
        for a in s.names:
            m = self.import_(a.name)
            if a.asname:
                env.store(a.asname, m)
            else:
                top = a.name.split('.')[0]
                env.store(top, self.import_(top))

    def s_ImportFrom(self, s, env):
        base = s.module or ''
        if s.level:
            pk = env.modname.split('.')
            pk = pk[:len(pk) - s.level]
            base = '.'.join(pk + ([base] if base else []))
        m = self.import_(base)
        for a in s.names:
            if a.name == '*':
                if isinstance(m, Ref):
                    for k, v in self.obj(m).data.items():
                        if not k.startswith('_'):
                            env.store(k, v)
                    continue
                raise Unsupported('import * from ' + base)
            if isinstance(m, Ref):
                d = self.obj(m).data
                if a.name in d:
                    v = d[a.name]
                else:
                    v = self.import_(base + '.' + a.name)
            else:
                v = Ext(self.lib.canon(m.name + '.' + a.name))
            env.store(a.asname or a.name, v)

    def s_FunctionDef(self, s, env):
        f = self.mkfunc(s, env, s.name)
        v = f
        for d in reversed(s.decorator_list):
            name = d.id if isinstance(d, ast.Name) else (d.attr if isinstance(d, ast.Attribute) else None)
            if name in ('staticmethod', 'classmethod', 'property'):
                f.kind = name
            elif name == 'setter':
                f.kind = 'setter'
                old = env.load(s.name)
                v = PropSet(old, f)
            else:
                v = self.call(self.ev(d, env), (v,), {})
        env.store(s.name, v)

    s_AsyncFunctionDef = None

    def mkfunc(self, s, env, name):
        a = s.args
        defaults = tuple(self.ev(d, env) for d in a.defaults)
        kwd = {k.arg: self.ev(d, env) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        qual = (env.qual + '.' if env.qual else '') + name
        if env.clsframe:
            clo = env.closure[:-1]
        else:
            clo = env.closure
        f = Func(s, (env.path, env.modname), clo, qual, defaults, kwd, name)
        if env.clsframe:
            f.cls = env.clsframe
        return f

    def s_ClassDef(self, s, env):
        bases = tuple(self.ev(b, env) for b in s.bases)
        oid = self.new('frame', {})
        qual = (env.qual + '.' if env.qual else '') + s.name
        e2 = Env(self, env.path, env.modname, env.closure + (oid,), qual)
        box = ['cls', None]
        e2.clsframe = box
        self.exec_block(s.body, e2)
        if self.st is None:
            return
        attrs = dict(self.st.heap[oid].data)
        ann = [x.target.id for x in s.body if isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name)
               and 'ClassVar' not in ast.dump(x.annotation)]
        if ann:
            attrs['__annotated__'] = tuple(ann)
        c = ClassV(s.name, env.modname + '.' + qual, bases, attrs, env.modname)
        box[1] = c
        v = self.lib.special_class(self, c, s) if any(isinstance(b, Ext) for b in bases) else c
        box[1] = v if isinstance(v, ClassV) else c
        for d in reversed(s.decorator_list):
            v = self.call(self.ev(d, env), (v,), {})
        env.store(s.name, v)

    def s_Return(self, s, env):
        v = self.ev(s.value, env) if s.value is not None else None
        self.funcs[-1].rets.append((self.st, v))
        self.st = None

    def s_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Name):
                env.delete(t.id)
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, env)
                ob = self.obj(o)
                d = dict(ob.data)
                if t.attr not in d:
                    self.raise_('AttributeError', t.attr)
                del d[t.attr]
                self.put(o.oid, Obj(ob.kind, d, ob.meta))
            elif isinstance(t, ast.Subscript):
                self.lib.delitem(self, self.ev(t.value, env), self.ev_index(t.slice, env))
            else:
                raise Unsupported('del')

    def s_Assign(self, s, env):
        v = self.ev(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def s_AnnAssign(self, s, env):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, env), env)

    def s_AugAssign(self, s, env):
        op = type(s.op).__name__
        t = s.target
        if isinstance(t, ast.Name):
            cur = env.load(t.id)
            v = self.ev(s.value, env)
            r = self.lift(lambda a, b: self.lib.inplace(self, op, a, b), cur, v)
            env.store(t.id, r)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            cur = self.getattr(o, t.attr)
            v = self.ev(s.value, env)
            r = self.lift(lambda a, b: self.lib.inplace(self, op, a, b), cur, v)
            self.lift(lambda o: self.store_attr(o, t.attr, r), o)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env)
            k = self.ev_index(t.slice, env)
            cur = self.lift(lambda o: self.lib.getitem(self, o, k), o)
            v = self.ev(s.value, env)
            r = self.lift(lambda a, b: self.lib.inplace(self, op, a, b), cur, v)
            self.lift(lambda o, r: self.lib.setitem(self, o, k, r), o, r)
        else:
            raise Unsupported('augmented assignment target')

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            env.store(t.id, v)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            self.lift(lambda o: self.store_attr(o, t.attr, v), o)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env)
            k = self.ev_index(t.slice, env)
            self.lift(lambda o, v: self.lib.setitem(self, o, k, v), o, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                items = self.items(v)
                i = star[0]
                after = len(t.elts) - i - 1
                if len(items) < len(t.elts) - 1:
                    self.raise_('ValueError', 'not enough values to unpack')
                for e, x in zip(t.elts[:i], items[:i]):
                    self.assign(e, x, env)
                self.assign(t.elts[i].value, self.list_(items[i:len(items) - after]), env)
                for e, x in zip(t.elts[i + 1:], items[len(items) - after:]):
                    self.assign(e, x, env)
                return
            items = self.unpack(v, len(t.elts))
            for e, x in zip(t.elts, items):
                self.assign(e, x, env)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, env)
        else:
            raise Unsupported('assignment target %s' % type(t).__name__)

    def unpack(self, v, n):
        if isinstance(v, Choice):
            r = self.lift(lambda x: tuple(self.unpack(x, n)), v)
            return r
        if isinstance(v, tuple) and len(v) == n:
            return v
        items = self.items(v)
        if len(items) != n:
            self.raise_('ValueError', 'unpack %d values into %d' % (len(items), n))
        return items

    def store_attr(self, o, name, v):
        if isinstance(o, Ref):
            ob = self.obj(o)
            if ob.kind == 'inst':
                p = ob.meta.lookup(name)
                if isinstance(p, PropSet):
                    self.call(Bound(p.setter, o), (v,), {})
                    return
                if 'setattr' in self.hooks:
                    self.hooks['setattr'](self, o, name, v)
                self.setattr_(o, name, v)
                return
            if ob.kind == 'mod':
                if 'setglobal' in self.hooks:
                    self.hooks['setglobal'](self, ob.meta, name, v)
                self.setattr_(o, name, v)
                return
        if isinstance(o, View) and name == 'shape':
            raise Unsupported('assignment to shape')
        if isinstance(o, ClassV):
            o.attrs[name] = v
            return
        if isinstance(o, (Ext, Func)):
            self.event('extset', o, name)
            return
        raise Unsupported('attribute store on %r' % (o,))

    def s_If(self, s, env):
        c = self.truth(self.ev(s.test, env))
        c = self.decide(c)
        if c.op == 'true':
            self.exec_block(s.body, env)
        elif c.op == 'false':
            self.exec_block(s.orelse, env)
        else:
            s0 = self.st
            self.st = s0.fork(c)
            self.exec_block(s.body, env)
            a = self.st
            self.st = s0.fork(cnot(c))
            self.exec_block(s.orelse, env)
            b = self.st
            if a is None and b is None:
                self.st = None
            else:
                self.st, _ = self.merge(a, b)

    def s_Assert(self, s, env):
        c = self.truth(self.ev(s.test, env))
        self.maybe_raise(cnot(c), 'AssertionError')

    def s_Raise(self, s, env):
        if s.exc is None:
            cur = getattr(env, 'curexc', None)
            if cur is None:
                self.raise_('RuntimeError', 'No active exception to reraise')
            raise PyExc(cur)
        v = self.ev(s.exc, env)
        if isinstance(v, Ext):
            v = self.call(v, (), {})
        if isinstance(v, ClassV):
            v = self.call(v, (), {})
        if isinstance(v, ExcV):
            if v.loc is None:
                v = ExcV(v.type, v.args, self.loc)
            raise PyExc(v)
        if isinstance(v, Ref) and self.obj(v).kind == 'inst':
            base = exc_base(self.obj(v).meta)
            raise PyExc(ExcV(base or self.obj(v).meta.name, (), self.loc))
        raise Unsupported('raise of %r' % (v,))

    def s_Try(self, s, env):
        saved = self.raised
        self.raised = []
        nret = len(self.funcs[-1].rets) if self.funcs else 0
        nloop = (len(self.loops[-1].brk), len(self.loops[-1].cont)) if self.loops else (0, 0)
        self.exec_block(s.body, env)
        raised = self.raised
        self.raised = []
        if self.st is not None and s.orelse:
            self.exec_block(s.orelse, env)
        out = self.st
        escaped = self.raised
        self.raised = []
        done = []
        for st, exc in reversed(raised):
            handled = False
            for h in s.handlers:
                if h.type is None or self.exc_match(exc, h.type, env, st):
                    self.st = st
                    if h.name:
                        env.store(h.name, exc)
                    old = getattr(env, 'curexc', None)
                    env.curexc = exc
                    self.event('caught', exc, h.lineno)
                    self.exec_block(h.body, env)
                    env.curexc = old
                    if self.st is not None:
                        done.append(self.st)
                    handled = True
                    break
            if not handled:
                escaped.append((st, exc))
        escaped += self.raised
        self.raised = []
        for st in done:
            if out is None:
                out = st
            else:
                out, _ = self.merge(st, out)
        self.st = out
        if s.finalbody:
            if self.st is not None:
                self.exec_block(s.finalbody, env)
            keep = self.st
            esc2 = []
            for st, exc in escaped:
                self.st = st
                self.exec_block(s.finalbody, env)
                if self.st is not None:
                    esc2.append((self.st, exc))
            # returns, breaks and continues leaving through finally
            if self.funcs:
                fc = self.funcs[-1]
                pend = fc.rets[nret:]
                del fc.rets[nret:]
                for st, v in pend:
                    self.st = st
                    self.exec_block(s.finalbody, env)
                    if self.st is not None:
                        fc.rets.append((self.st, v))
            if self.loops:
                for lst, k in ((self.loops[-1].brk, nloop[0]), (self.loops[-1].cont, nloop[1])):
                    pend = lst[k:]
                    del lst[k:]
                    for st in pend:
                        self.st = st
                        self.exec_block(s.finalbody, env)
                        if self.st is not None:
                            lst.append(self.st)
            escaped = esc2
            self.st = keep
        self.raised = saved
        self.raised.extend(escaped)

    def exc_match(self, exc, tnode, env, st):
        keep = self.st
        self.st = st
        try:
            t = self.ev(tnode, env)
        finally:
            self.st = keep
        for x in (t if isinstance(t, tuple) else (t,)):
            if isinstance(x, Ext):
                n = x.name
                n = n.split('builtins.')[-1]
                if exc_isa(exc.type, n):
                    return True
            elif isinstance(x, ClassV) and exc.type == x.name:
                return True
        return False

    def s_With(self, s, env):
        entered = []
        for i, it in enumerate(s.items):
            cm = self.ev(it.context_expr, env)
            if isinstance(cm, GenCM):
                # the body of the with statement runs where the function yields
                rest = s.items[i + 1:]
                body = [ast.copy_location(ast.With(rest, s.body), s)] if rest else s.body
                for x in body:
                    for y in ast.walk(x):
                        if isinstance(y, (ast.Return, ast.Break, ast.Continue, ast.Yield, ast.YieldFrom)):
                            raise Unsupported('leaving a with statement early')
                ctx_funcs, ctx_loops = self.funcs, self.loops
                done = []

                def run(v):
                    if done:
                        self.raise_('RuntimeError', "generator didn't stop")
                    done.append(1)
                    saved = (self.funcs, self.loops)
                    self.funcs, self.loops = list(ctx_funcs), ctx_loops
                    try:
                        if it.optional_vars is not None:
                            self.assign(it.optional_vars, v, env)
                        self.exec_block(body, env)
                    finally:
                        self.funcs, self.loops = saved
                    if self.st is None:
                        raise Dead()
                self.oncm.append((cm, run))
                try:
                    self.call_func(cm.func, cm.args, cm.kw)
                finally:
                    self.oncm.pop()
                if not done:
                    self.raise_('RuntimeError', "generator didn't yield")
                for c in reversed(entered):
                    self.lib.exit_(self, c)
                return
            v = self.lib.enter(self, cm)
            entered.append(cm)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, env)
        self.exec_block(s.body, env)
        if self.st is not None:
            for cm in reversed(entered):
                self.lib.exit_(self, cm)

    def s_Break(self, s, env):
        self.loops[-1].brk.append(self.st)
        self.st = None

    def s_Continue(self, s, env):
        self.loops[-1].cont.append(self.st)
        self.st = None

    # ------------------------------------------------------------------ loops
    def s_For(self, s, env):
        it = self.ev(s.iter, env)
        if isinstance(it, Choice):
            it = self.lift(lambda x: x, it)
            if isinstance(it, Choice):
                raise Unsupported('iteration over an undetermined object')
        if env.path != '<library>':
            self.stats['loops'].add((env.path, s.lineno))
        from . import loops
        loops.for_(self, s, env, it)

    def s_While(self, s, env):
        self.stats['loops'].add((env.path, s.lineno))
        from . import loops
        loops.while_(self, s, env)

    def loop_body(self, body, env):
        """run a loop body once; returns the list of break states.  self.st is
        the state at the end of the body (continue merged), or None."""
        lc = LoopCtx()
        self.loops.append(lc)
        try:
            self.exec_block(body, env)
        finally:
            self.loops.pop()
        for c in reversed(lc.cont):
            self.st, _ = self.merge(c, self.st)
        return lc.brk

    # ------------------------------------------------------------ expressions
    def ev(self, e, env):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression %s at %s:%d' % (type(e).__name__, env.path, e.lineno))
        return m(e, env)

    def e_Constant(self, e, env):
        v = e.value
        if isinstance(v, bool):
            return TRUE if v else FALSE
        if isinstance(v, int):
            return C(v)
        if isinstance(v, float):
            return self.lib.float_literal(self, e, env)
        if v is None or isinstance(v, str):
            return v
        if v is Ellipsis:
            return Ellipsis
        if isinstance(v, bytes):
            return v.decode('latin1')
        raise Unsupported('constant %r' % (v,))

    def e_Name(self, e, env):
        v = env.load(e.id)
        if isinstance(v, Choice):
            v = self.resolve(v)
            v = self.undef_check(v, e.id)
        return v

    def resolve(self, v):
        """drop alternatives excluded by the path condition"""
        while isinstance(v, Choice):
            c = self.decide(v.c)
            if c.op == 'true':
                v = v.a
            elif c.op == 'false':
                v = v.b
            else:
                a, b = v.a, v.b
                if isinstance(a, Choice):
                    s0 = self.st
                    self.st = s0.fork(c)
                    a = self.resolve(a)
                    self.st = s0
                if isinstance(b, Choice):
                    s0 = self.st
                    self.st = s0.fork(cnot(c))
                    b = self.resolve(b)
                    self.st = s0
                if a is v.a and b is v.b:
                    return v
                v2 = merge_val(v.c, a, b)
                return v2
        return v

    def undef_check(self, v, name, exc='UnboundLocalError'):
        """raise for the alternatives in which the variable is not bound"""
        if not has_undef(v):
            return v
        c, val = undef_cond(v)
        self.event('maybe-undefined', name, c)
        self.maybe_raise(c, exc, name)
        return val

    def e_Attribute(self, e, env):
        o = self.ev(e.value, env)
        return self.getattr(o, e.attr)

    def getattr(self, o, name):
        if isinstance(o, Choice):
            return self.lift(lambda x: self.getattr(x, name), o)
        if isinstance(o, Ref):
            ob = self.obj(o)
            k = ob.kind
            if k == 'inst':
                if name in ob.data:
                    v = ob.data[name]
                    if isinstance(v, Choice):
                        v = self.resolve(v)
                        v = self.undef_check(v, name, 'AttributeError')
                    if v is UNDEF:
                        self.raise_('AttributeError', name)
                    if isinstance(v, Stale):
                        raise Unsupported('use of loop-carried %s' % v.what)
                    if 'getattr' in self.hooks:
                        self.hooks['getattr'](self, o, name, v)
                    return v
                m = ob.meta.lookup(name)
                if m is None and name == '__class__':
                    return ob.meta
                if m is None and name == '__dict__':
                    return Ref(self.new('dict', {kk: (kk, vv) for kk, vv in ob.data.items()}))
                if m is None:
                    self.raise_('AttributeError', '%s has no attribute %s' % (ob.meta.name, name))
                if isinstance(m, PropSet):
                    return self.call(Bound(m.getter, o), (), {})
                if isinstance(m, Func):
                    if m.kind == 'staticmethod':
                        return m
                    if m.kind == 'property':
                        return self.call(Bound(m, o), (), {})
                    if m.kind == 'classmethod':
                        return Bound(m, ob.meta)
                    return Bound(m, o)
                if isinstance(m, NativeMethod):
                    return Bound(m, o)
                if isinstance(m, Ref) and self.obj(m).kind == 'inst' and \
                        self.obj(m).meta.name == 'functools__cached_property':
                    v = self.call(self.obj(m).data['f'], (o,), {})
                    self.setattr_(o, name, v)
                    return v
                return m
            if k == 'mod':
                if name in ob.data:
                    v = ob.data[name]
                    if isinstance(v, Choice):
                        v = self.resolve(v)
                        v = self.undef_check(v, name, 'AttributeError')
                    if 'getglobal' in self.hooks:
                        self.hooks['getglobal'](self, ob.meta, name, v)
                    return v
                sub = self.load_module(ob.meta + '.' + name)
                if sub is not None:
                    return sub
                self.raise_('AttributeError', 'module %s has no attribute %s' % (ob.meta, name))
            return self.lib.obj_attr(self, o, ob, name)
        if isinstance(o, ClassV):
            m = o.lookup(name)
            if m is None:
                if name in ('__name__', '__qualname__'):
                    return o.name
                if any(isinstance(b, Ext) and b.name not in HARMLESS for b in o.bases):
                    raise Unsupported('%s of the class %s' % (name, o.name))
                self.raise_('AttributeError', name)
            if isinstance(m, Func) and m.kind == 'classmethod':
                return Bound(m, o)
            return m
        if isinstance(o, SuperV):
            for b in o.cls.bases:
                if isinstance(b, ClassV):
                    m = b.lookup(name)
                    if m is not None:
                        return Bound(m, o.obj)
            if name == '__init__':
                return Native(lambda I, a, k: None)
            self.raise_('AttributeError', name)
        if isinstance(o, (Func, Native)) and name in ('__name__', '__qualname__'):
            return o.name
        return self.lib.attr(self, o, name)

    def e_Subscript(self, e, env):
        o = self.ev(e.value, env)
        k = self.ev_index(e.slice, env)
        r = self.lift(lambda o: self.lib.getitem(self, o, k), o)
        if isinstance(r, Choice):
            r = self.undef_check(self.resolve(r), 'item', 'KeyError')
        return r

    def ev_index(self, n, env):
        if isinstance(n, ast.Tuple):
            return tuple(self.ev_index(x, env) for x in n.elts)
        if isinstance(n, ast.Slice):
            return SliceV(*[None if x is None else self.ev(x, env)
                            for x in (n.lower, n.upper, n.step)])
        return self.ev(n, env)

    def e_Slice(self, n, env):
        return self.ev_index(n, env)

    def e_Tuple(self, e, env):
        return tuple(self.ev_seq(e.elts, env))

    def e_List(self, e, env):
        return self.list_(self.ev_seq(e.elts, env))

    def e_Set(self, e, env):
        return self.lib.mkset(self, self.ev_seq(e.elts, env))

    def ev_seq(self, elts, env):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.items(self.ev(x.value, env)))
            else:
                out.append(self.ev(x, env))
        return out

    def e_Dict(self, e, env):
        r = Ref(self.new('dict', {}))
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.ev(v, env)
                for kk, vv in self.obj(o).data.values():
                    self.lib.setitem(self, r, kk, vv)
            else:
                kv = self.ev(k, env)
                self.lib.setitem(self, r, kv, self.ev(v, env))
        return r

    def e_Lambda(self, e, env):
        return self.mkfunc(e, env, '<lambda>')

    def e_IfExp(self, e, env):
        c = self.truth(self.ev(e.test, env))
        return self.branch(c, lambda: self.ev(e.body, env), lambda: self.ev(e.orelse, env))

    def e_NamedExpr(self, e, env):
        v = self.ev(e.value, env)
        self.assign(e.target, v, env)
        return v

    def e_BoolOp(self, e, env):
        isand = isinstance(e.op, ast.And)

        def go(vals):
            v = self.ev(vals[0], env)
            if len(vals) == 1:
                return v
            if isinstance(v, Cond):
                # pure boolean: keep as a condition when the rest is boolean too
                c = self.decide(v)
                if c.op == ('false' if isand else 'true'):
                    return c
                if c.op == ('true' if isand else 'false'):
                    return go(vals[1:])
                if isand:
                    r = self.branch(c, lambda: go(vals[1:]), lambda: FALSE)
                else:
                    r = self.branch(c, lambda: TRUE, lambda: go(vals[1:]))
                return r
            c = self.truth(v)
            if isand:
                return self.branch(c, lambda: go(vals[1:]), lambda: v)
            return self.branch(c, lambda: v, lambda: go(vals[1:]))
        return go(e.values)

    def e_UnaryOp(self, e, env):
        v = self.ev(e.operand, env)
        if isinstance(e.op, ast.Not):
            return cnot(self.truth(v))
        return self.lift(lambda v: self.lib.unary(self, type(e.op).__name__, v), v)

    def e_BinOp(self, e, env):
        a = self.ev(e.left, env)
        b = self.ev(e.right, env)
        op = type(e.op).__name__
        return self.lift(lambda a, b: self.lib.binop(self, op, a, b), a, b)

    def e_Compare(self, e, env):
        left = self.ev(e.left, env)

        def go(left, ops, rest):
            right = self.ev(rest[0], env)
            op = type(ops[0]).__name__
            r = self.lift(lambda a, b: self.lib.compare(self, op, a, b), left, right)
            if len(ops) == 1:
                return r
            c = self.truth(r)
            return self.branch(c, lambda: go(right, ops[1:], rest[1:]), lambda: FALSE)
        return go(left, e.ops, e.comparators)

    def e_JoinedStr(self, e, env):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.ev(v.value, env)
                spec = ''
                if v.format_spec is not None:
                    spec = self.ev(v.format_spec, env)
                if v.conversion and v.conversion > 0:
                    ch = chr(v.conversion)
                    if ch == 's':
                        x = self.lib.to_str(self, x)
                parts.append(self.lib.format_value(self, x, spec))
        return mkstr(parts)

    def e_FormattedValue(self, e, env):
        x = self.ev(e.value, env)
        spec = self.ev(e.format_spec, env) if e.format_spec is not None else ''
        return self.lib.format_value(self, x, spec)

    def e_Starred(self, e, env):
        raise Unsupported('starred expression')

    # comprehensions
    def e_ListComp(self, e, env):
        return self.comp(e, env, 'list')

    def e_GeneratorExp(self, e, env):
        return self.comp(e, env, 'gen')

    def e_SetComp(self, e, env):
        r = self.comp(e, env, 'list')
        return self.lib.mkset(self, self.items(r))

    def e_DictComp(self, e, env):
        r = self.comp(e, env, 'dict')
        return r

    def comp(self, e, env, kind):
        oid = self.new('frame', {})
        e2 = Env(self, env.path, env.modname, env.closure + (oid,), env.qual)
        e2.comp = True
        if env.clsframe:
            e2.closure = env.closure + (oid,)
        acc = self.new('list', ())
        d = self.new('dict', {}) if kind == 'dict' else None
        from . import loops

        if kind in ('list', 'gen') and len(e.generators) == 1 and e.generators[0].ifs:
            r = self.filtered(e, env, e2)
            if r is not None:
                return r

        def gen(gs):
            if not gs:
                if kind == 'dict':
                    k = self.ev(e.key, e2)
                    self.lib.setitem(self, Ref(d), k, self.ev(e.value, e2))
                else:
                    self.lib.list_append(self, Ref(acc), self.ev(e.elt, e2))
                return
            g = gs[0]
            if getattr(self, 'spare', None) is not None and self.spare[0] is g.iter:
                it, self.spare = self.spare[1], None
            else:
                it = self.ev(g.iter, e2 if gs is not e.generators else env)

            def body():
                conds = []
                for t in g.ifs:
                    conds.append(self.truth(self.ev(t, e2)))
                c = cand(*conds)
                self.branch(c, lambda: gen(gs[1:]), lambda: None)
            loops.foreach(self, it, lambda v: self.assign(g.target, v, e2), body,
                          (env.path, e.lineno))
        gen(e.generators)
        if kind == 'dict':
            return Ref(d)
        if kind == 'gen':
            return Ref(self.new('iter', (self.obj(acc).data, ZERO)))
        return Ref(acc)

    def filtered(self, e, env, e2):
        """[f(x) for x in sequence if condition] over a sequence of unknown length"""
        g = e.generators[0]
        self.spare = None
        it = self.ev(g.iter, env)
        try:
            p = self.lib.plan(self, it)
        except Unsupported:
            p = None
        if p is None or p.guard is not None or p.n.as_int() is not None:
            self.spare = (g.iter, it)
            return None
        k = sym(self.fresh('k'), isint=True)
        FACTS.push(k, ZERO, p.n - ONE)
        n = len(self.st.events)
        self.assign(g.target, p.get(k), e2)
        c = cand(*[self.truth(self.ev(t, e2)) for t in g.ifs])
        v = self.ev(e.elt, e2)
        ok = isinstance(v, Rat) or (isinstance(v, tuple) and all(isinstance(x, Rat) for x in v))
        if not ok or len(self.st.events) != n:
            raise Unsupported('filtered list of %r' % (v,))

        def get(j):
            return tuple(subst(x, {k: j}) for x in v) if isinstance(v, tuple) else subst(v, {k: j})
        return self.lib.Filtered(p.n, get, lambda j: subst(c, {k: j}))

    def e_Yield(self, e, env):
        v = self.ev(e.value, env) if e.value is not None else None
        fc = self.funcs[-1]
        if self.oncm and self.oncm[-1][0].func is fc.func:
            h = self.oncm.pop()
            try:
                h[1](v)
            finally:
                self.oncm.append(h)
            return None
        self.lib.list_append(self, Ref(fc.yields), v)
        return None

    def e_YieldFrom(self, e, env):
        v = self.ev(e.value, env)
        for x in self.items(v):
            self.lib.list_append(self, Ref(self.funcs[-1].yields), x)
        return None

    # ------------------------------------------------------------------ calls
    def e_Call(self, e, env):
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
            frame = self.st.heap[env.frame].data
            first = self.funcs[-1].func.node.args.args[0].arg
            return SuperV(self.funcs[-1].func.cls[1], frame[first])
        if isinstance(e.func, ast.Name) and e.func.id in ('locals', 'globals', 'eval', 'exec'):
            raise Unsupported(e.func.id + '()')
        f = self.ev(e.func, env)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                args.extend(self.items(self.ev(a.value, env)))
            else:
                args.append(self.ev(a, env))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                o = self.ev(k.value, env)
                for kk, vv in self.obj(o).data.values():
                    kw[kk] = vv
            else:
                kw[k.arg] = self.ev(k.value, env)
        self.loc = (env.path, e.lineno)
        if env.path != '<library>':
            self.stats['calls'].add((env.path, e.lineno, e.col_offset))
        r = self.call(f, tuple(args), kw)
        self.loc = (env.path, e.lineno)
        return r

    def call(self, f, args, kw):
        if isinstance(f, Choice):
            return self.lift(lambda g: self.call(g, args, kw), f)
        if isinstance(f, Func):
            return self.call_func(f, args, kw)
        if isinstance(f, Bound):
            if isinstance(f.func, Func):
                return self.call_func(f.func, (f.self,) + args, kw)
            return self.call(f.func, (f.self,) + args, kw)
        if isinstance(f, ClassV):
            return self.instantiate(f, args, kw)
        if isinstance(f, Native):
            return f.f(self, args, kw)
        if isinstance(f, Ext):
            return self.lib.call_ext(self, f.name, args, kw)
        if isinstance(f, ExtMeth):
            return self.lib.call_meth(self, f.obj, f.name, args, kw)
        if isinstance(f, Ref):
            o = self.obj(f)
            if o.kind == 'inst':
                m = o.meta.lookup('__call__')
                if m is not None:
                    return self.call_func(m, (f,) + args, kw)
        if f is None or isinstance(f, (Rat, str, tuple)):
            self.raise_('TypeError', 'object is not callable')
        return self.lib.call_value(self, f, args, kw)

    def instantiate(self, c, args, kw):
        base = exc_base(c)
        if base is not None:
            return ExcV(c.name if c.name in HIER else base, args, self.loc)
        ref = Ref(self.new('inst', {}, c))
        init = c.lookup('__init__')
        if init is not None:
            self.call_func(init, (ref,) + args, kw)
        elif getattr(c, 'attrs', {}).get('__nt_fields__'):
            pass
        return ref

    def fullname(self, f):
        return f.mod[1] + '.' + f.qual

    def call_func(self, f, args, kw):
        name = self.fullname(f)
        if f.mod[0] != '<library>':
            self.stats['functions'].add(name)
        ic = self.intercept.get(name)
        if ic is not None:
            r = ic(self, f, args, kw)
            if r is not NotImplemented:
                return r
        if len(self.stack) > 70:
            raise Unsupported('call depth (recursion in %s)' % name)
        node = f.node
        frame = {}
        self.bind(f, args, kw, frame)
        oid = self.new('frame', frame)
        env = Env(self, f.mod[0], f.mod[1], f.closure + (oid,), f.qual)
        env.frame = oid
        env.scan(node)
        fc = FuncCtx(f, oid)
        saved = (self.loc, self.loops, self.stack)
        self.loops = []
        self.stack = self.stack + ['%s (%s:%d)' % (name, self.loc[0], self.loc[1])]
        self.funcs.append(fc)
        if env.isgen:
            fc.yields = self.new('list', ())
        raised = self.raised
        self.raised = []
        try:
            if isinstance(node, ast.Lambda):
                v = self.ev(node.body, env)
                fc.rets.append((self.st, v))
                self.st = None
            else:
                self.exec_block(node.body, env)
                if self.st is not None:
                    fc.rets.append((self.st, None))
        finally:
            self.funcs.pop()
            self.loc, self.loops, self.stack = saved
            raised.extend(self.raised)
            self.raised = raised
        if not fc.rets:
            self.st = None
            raise Dead()
        st, v = None, None
        for s, x in reversed(fc.rets):
            if st is None:
                st, v = s, x
            else:
                st, v = self.merge(s, st, x, v)
        self.st = st
        if env.isgen:
            v = Ref(self.new('iter', (self.obj(fc.yields).data, ZERO)))
        h = self.after_call.get(name)
        if h is not None:
            v = h(self, f, args, kw, v)
        return v

    def bind(self, f, args, kw, frame):
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        kw = dict(kw)
        if len(args) > len(pos):
            if a.vararg is None:
                self.raise_('TypeError', '%s takes %d positional arguments but %d were given'
                            % (f.name, len(pos), len(args)))
        for n, v in zip(pos, args):
            frame[n] = v
        if a.vararg is not None:
            frame[a.vararg.arg] = tuple(args[len(pos):])
        for n in list(kw):
            if n in pos or n in [x.arg for x in a.kwonlyargs]:
                if n in frame:
                    self.raise_('TypeError', 'multiple values for argument ' + n)
                frame[n] = kw.pop(n)
        nd = len(f.defaults)
        for n, d in zip(pos[len(pos) - nd:], f.defaults):
            if n not in frame:
                frame[n] = d
        for x in a.kwonlyargs:
            if x.arg not in frame and x.arg in f.kwdefaults:
                frame[x.arg] = f.kwdefaults[x.arg]
        if a.kwarg is not None:
            frame[a.kwarg.arg] = Ref(self.new('dict', {k: (k, v) for k, v in kw.items()}))
        elif kw:
            self.raise_('TypeError', 'unexpected keyword argument ' + sorted(kw)[0])
        for n in pos + [x.arg for x in a.kwonlyargs]:
            if n not in frame:
                self.raise_('TypeError', 'missing argument %s of %s' % (n, f.name))

    # ---------------------------------------------------------------- helpers
    def items(self, v):
        """list of the values of a constant-length iterable"""
        return self.lib.items(self, v)

    def at(self, view, *idx):
        return self.getter(view)(tuple(C(i) if isinstance(i, int) else i for i in idx))

    def attr(self, ref, name):
        return self.getattr(ref, name)


class PropSet:
    def __init__(self, getter, setter):
        self.getter = getter.getter if isinstance(getter, PropSet) else getter
        self.setter = setter


class GenCM:
    """a call of a function decorated with contextlib.contextmanager"""

    def __init__(self, func, args, kw):
        self.func, self.args, self.kw = func, args, kw


class SuperV:
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


def exc_base(c):
    for b in c.bases:
        if isinstance(b, Ext):
            n = b.name.split('builtins.')[-1]
            if n in HIER or n == 'BaseException':
                HIER.setdefault(c.name, n)
                return c.name
        if isinstance(b, ClassV):
            x = exc_base(b)
            if x is not None:
                HIER.setdefault(c.name, x)
                return c.name
    return None


def has_undef(v):
    if v is UNDEF:
        return True
    if isinstance(v, Choice):
        return has_undef(v.a) or has_undef(v.b)
    return False


def undef_cond(v):
    """(condition under which v is undefined, defined part)"""
    if v is UNDEF:
        return TRUE, UNDEF
    if isinstance(v, Choice):
        ca, va = undef_cond(v.a)
        cb, vb = undef_cond(v.b)
        c = cor(cand(v.c, ca), cand(cnot(v.c), cb))
        if va is UNDEF:
            return c, vb
        if vb is UNDEF:
            return c, va
        return c, merge_val(v.c, va, vb)
    return FALSE, v


def simplify_or(a, b, t):
    """or(a, b) with common conjuncts factored out"""
    if t.op != 'or' or a.op == 'or' and b.op == 'or':
        return t
    la = list(a.args) if a.op == 'and' else [a]
    lb = list(b.args) if b.op == 'and' else [b]
    ka = {x.key() for x in la}
    kb = {x.key() for x in lb}
    com = ka & kb
    if com:
        c = [x for x in la if x.key() in com]
        ra = cand(*[x for x in la if x.key() not in com])
        rb = cand(*[x for x in lb if x.key() not in com])
        return cand(*(c + [simplify_or(ra, rb, cor(ra, rb))]))
    # x or (not x and y) == x or y is left to the absorption in cor
    return t


def merge_sto(d, x, y):
    if x is y:
        return x
    if len(x.shape) != len(y.shape) or not all(p.eq(q) for p, q in zip(x.shape, y.shape)):
        raise Unsupported('merge of storages of different shapes')
    if x.dense is not None and y.dense is not None:
        return Sto(x.shape, None, x.dtype,
                   [p if p is q else merge_val(d, p, q) for p, q in zip(x.dense, y.dense)])
    return Sto(x.shape, lambda i: merge_val(d, x.get(i), y.get(i)), x.dtype)


BUILTINS = set(['print', 'range', 'len', 'enumerate', 'zip', 'iter', 'next', 'sorted', 'sum', 'max',
                'min', 'abs', 'int', 'float', 'str', 'bool', 'list', 'tuple', 'dict', 'set',
                'isinstance', 'open', 'map', 'filter', 'reversed', 'any', 'all', 'round', 'pow',
                'hasattr', 'getattr', 'setattr', 'callable', 'type', 'id', 'repr', 'object',
                'divmod', 'frozenset', 'format', 'exit', 'quit', 'input', 'vars', 'slice',
                'complex', 'ord', 'chr', 'hash', 'issubclass', 'delattr', 'bytes'])


class Env:
    __slots__ = ('I', 'path', 'modname', 'closure', 'qual', 'globals_', 'nonlocals', 'frame',
                 'locals_', 'clsframe', 'comp', 'curexc', 'isgen')

    def __init__(self, I, path, modname, closure, qual):
        self.I = I
        self.path, self.modname, self.closure, self.qual = path, modname, closure, qual
        self.globals_ = set()
        self.nonlocals = set()
        self.frame = closure[-1]
        self.locals_ = None
        self.clsframe = None
        self.comp = False
        self.curexc = None
        self.isgen = False

    _scan = {}

    def scan(self, node):
        r = Env._scan.get(id(node))
        if r is None:
            r = scan_locals(node)
            Env._scan[id(node)] = (r[0], r[1], r[2], r[3], node)
        self.locals_, g, n, self.isgen = r[:4]
        self.globals_ |= g
        self.nonlocals |= n

    def load(self, name):
        h = self.I.st.heap
        if name in self.globals_:
            chain = (self.closure[0],)
        else:
            chain = self.closure
        top = chain[-1]
        for oid in reversed(chain):
            d = h[oid].data
            if name in d:
                v = d[name]
                if v is UNDEF:
                    self.I.event('undefined', name, TRUE)
                    self.I.raise_('UnboundLocalError', name)
                if isinstance(v, Stale):
                    raise Unsupported('use of loop-carried %s' % v.what)
                if h[oid].kind == 'mod' and 'getglobal' in self.I.hooks:
                    self.I.hooks['getglobal'](self.I, h[oid].meta, name, v)
                return v
            if oid == top and self.locals_ is not None and name in self.locals_ \
                    and name not in self.nonlocals and name not in self.globals_:
                self.I.event('undefined', name, TRUE)
                self.I.raise_('UnboundLocalError', name)
        if name == '__name__':
            return self.modname
        if name in BUILTINS or name in HIER or name in ('BaseException', 'NotImplemented',
                                                        'EnvironmentError', 'staticmethod',
                                                        'classmethod', 'property'):
            return Ext('builtins.' + name)
        self.I.event('undefined', name, TRUE)
        self.I.raise_('NameError', name)

    def store(self, name, v):
        h = self.I.st.heap
        if name in self.globals_:
            oid = self.closure[0]
            if 'setglobal' in self.I.hooks:
                self.I.hooks['setglobal'](self.I, h[oid].meta, name, v)
        elif name in self.nonlocals:
            for oid in reversed(self.closure[:-1]):
                if name in h[oid].data:
                    break
            else:
                raise Unsupported('nonlocal ' + name)
        else:
            oid = self.closure[-1]
        o = h[oid]
        d = dict(o.data)
        d[name] = v
        h[oid] = Obj(o.kind, d, o.meta)

    def delete(self, name):
        h = self.I.st.heap
        oid = self.closure[-1]
        o = h[oid]
        d = dict(o.data)
        if name not in d:
            self.I.raise_('UnboundLocalError', name)
        del d[name]
        h[oid] = Obj(o.kind, d, o.meta)


def scan_locals(node):
    loc, glo, non = set(), set(), set()
    gen = [False]

    def walk(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                loc.add(c.name)
                for d in c.decorator_list:
                    walk(d)
                continue
            if isinstance(c, ast.Lambda):
                continue
            if isinstance(c, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                for w in ast.walk(c):
                    if isinstance(w, ast.NamedExpr):
                        loc.add(w.target.id)
                continue
            if isinstance(c, (ast.Yield, ast.YieldFrom)):
                gen[0] = True
            if isinstance(c, ast.Name) and isinstance(c.ctx, (ast.Store, ast.Del)):
                loc.add(c.id)
            elif isinstance(c, ast.Global):
                glo.update(c.names)
            elif isinstance(c, ast.Nonlocal):
                non.update(c.names)
            elif isinstance(c, ast.ExceptHandler) and c.name:
                loc.add(c.name)
            elif isinstance(c, (ast.Import, ast.ImportFrom)):
                for a in c.names:
                    loc.add((a.asname or a.name).split('.')[0])
            walk(c)
    if isinstance(node, ast.Lambda):
        a = node.args
    else:
        a = node.args
        for s in node.body:
            class W:
                pass
            m = ast.Module(body=[s], type_ignores=[])
            walk(m)
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        loc.add(x.arg)
    if a.vararg:
        loc.add(a.vararg.arg)
    if a.kwarg:
        loc.add(a.kwarg.arg)
    return loc - glo - non, glo, non, gen[0]
