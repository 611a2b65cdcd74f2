"""Obligations, verdicts, evidence."""
import ast
import json
import os
import re
import sys
import time
import traceback
import warnings
from .alg import *
from . import witness
from .arr import Unsupported, Choice, UNDEF, View, Sto
from .interp import Interp, PyExc, ExcV, Ref, Obj, Stale, Dead
from .strs import AStr

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Vanished(Exception):
    """something the property is anchored to is not there any more"""


class Failed(Exception):
    """valid use raises on every path"""


class Stop(Exception):
    """the check cannot continue (a violation has been recorded)"""


class Ctx:
    def __init__(self, pid, repo='/repo'):
        self.pid = pid
        self.repo = repo
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.thorough = self.tier == 'thorough'
        self.t0 = time.time()
        self.obs = []           # (name, verdict, detail, loc)
        self.violations = []
        self.undecided = []
        self.findings = []
        self.interps = []
        self.notes = []
        self.rules = []
        self.assumptions = []
        self.minimum = 1
        self.soft = False       # beyond the bound the check must settle
        self.subject = None     # path:line of the function under analysis

    # ---------------------------------------------------------------- running
    def interp(self, **kw):
        I = Interp(self.repo, **kw)
        self.interps.append(I)
        return I

    def around(self, default, cap=12):
        """polynomial orders to analyse: the default ones, and those around every small integer
        the current source compares something with (a boundary of a condition on the order)"""
        return sorted(set(default) | {p for c in thresholds(self.repo) for p in (c - 1, c, c + 1) if 0 <= p <= cap})

    def orders(self, default, cap=12, hard=2):
        """the same, one after the other; beyond 'hard' an obligation that cannot be decided is
        only recorded"""
        try:
            for p in self.around(default, cap):
                self.soft = p > hard
                yield p
        finally:
            self.soft = False

    def words(self, *known):
        return words(self.repo, *known)

    def part(self, f, *args):
        """one part of a check; beyond the bound, a part that cannot be analysed is only recorded"""
        if not self.soft:
            return f(self, *args)
        try:
            return f(self, *args)
        except (Unsupported, Undecided, AlgError) as e:
            self.skip('%s%r' % (f.__name__, args), str(e), True)

    def rule(self, text):
        self.rules.append(text)

    # ------------------------------------------------------------ obligations
    def ob(self, name, ok, detail='', loc=None, finding=None):
        """record a decided obligation"""
        loc = loc or self.subject
        if ok:
            self.obs.append((name, 'ok', '', loc))
            return True
        if finding is not None and self.known(finding):
            self.obs.append((name, 'known', detail, loc))
            self.findings.append('%s %s' % (finding, detail))
            return False
        self.obs.append((name, 'violated', detail, loc))
        self.violations.append((name, detail, loc))
        return False

    def skip(self, name, why, bound=False, loc=None):
        """an obligation the analysis could not decide"""
        self.obs.append((name, 'undecided', why, loc))
        self.undecided.append((name, why, bound or self.soft))

    def eq(self, name, got, want, assume=(), conds=(), nan=False, loc=None, limit=4096, bound=False):
        """obligation: two abstract values are equal everywhere on the domain"""
        tick()
        if self.violations and time.time() - self.t0 > 120:
            self.notes.append('stopped at %s: there is a violation' % (name,))
            raise Stop()
        if isinstance(got, tuple) and isinstance(want, tuple):
            if len(got) != len(want):
                return self.ob(name, False, 'length %d, required %d' % (len(got), len(want)), loc)
            r = True
            for i, (g, w) in enumerate(zip(got, want)):
                r = self.eq('%s[%d]' % (name, i), g, w, assume, conds, nan, loc, limit, bound) and r
            return r
        if not (isinstance(got, (Rat, Cond)) and isinstance(want, (Rat, Cond))):
            from .arr import same_value
            if isinstance(got, (Choice, Stale)) or got is UNDEF:
                return self.ob(name, False, 'value %r, required %s' % (got, show(want)), loc)
            if type(got) is type(want):
                return self.ob(name, same_value(got, want), 'value %r, required %r' % (got, want), loc)
            return self.ob(name, False, 'value %r, required %r' % (got, want), loc)
        if isinstance(got, Cond) != isinstance(want, Cond):
            if isinstance(got, Cond):
                got = ite(got, ONE, ZERO)
            else:
                want = ite(want, ONE, ZERO)
        if isinstance(got, Cond):
            got, want = ite(got, ONE, ZERO), ite(want, ONE, ZERO)
        try:
            DEADLINE[0] = time.monotonic() + 20
            if got.eq(want):
                return self.ob(name, True, loc=loc)
            if is_zero(got - want):
                return self.ob(name, True, loc=loc)
            if skeleton_equal(got, want):
                return self.ob(name, True, loc=loc)
        except (AlgError, Undecided):
            pass
        finally:
            DEADLINE[0] = None
        w = witness.find(got, want, assume, conds, seed=self.seed, tries=16, enough=3)
        if w is not None:
            return self.ob(name, False, witness.describe(w) + '; value is ' + show(got, 300), loc)
        if any(not all(ATOMS[i].isint for i in r.atoms()) for r in witness.signs_in((got, want))):
            w = witness.find(got, want, assume, conds, seed=self.seed + 7, tries=600, enough=150) or \
                witness.boundary(got, want, assume, conds, self.seed + 7, 4)
            if w is not None:
                return self.ob(name, False, witness.describe(w) + '; value is ' + show(got, 300), loc)
        left = self.t0 + 800 - time.time()
        if self.soft and left < 400:
            self.skip(name, 'no time left', True, loc)
            return None
        DEADLINE[0] = time.monotonic() + (15 if self.soft else max(5, min(60, left / 4)))
        try:
            if conds:
                try:
                    if equal(got, want, assume, limit=limit, nan=nan)[0]:
                        return self.ob(name, True, loc=loc)
                except (Undecided, AlgError):
                    pass
                c = cand(*conds)
                got, want = ite(c, got, ZERO), ite(c, want, ZERO)
            r, case = equal(got, want, assume, limit=limit, nan=nan)
        except (Undecided, AlgError) as e:
            DEADLINE[0] = None
            w = witness.find(got, want, assume, conds, seed=self.seed + 3, tries=80, enough=30)
            if w is not None:
                return self.ob(name, False, witness.describe(w) + '; value is ' + show(got, 300), loc)
            self.skip(name, 'equality not decided: %s' % e, bound, loc)
            return None
        finally:
            DEADLINE[0] = None
        if r:
            return self.ob(name, True, loc=loc)
        asg = [(q, {s}) for q, s in case[0] if isinstance(q, Rat) and s in (-1, 0, 1)]
        w = witness.find(got, want, tuple(assume) + tuple(asg), (), tries=3000, seed=self.seed, enough=400)
        if w is None:
            w = witness.find(got, want, assume, (), tries=3000, seed=self.seed + 1, enough=400)
        if w is None:
            w = witness.boundary(got, want, assume, (), self.seed)
        if w is not None:
            return self.ob(name, False, witness.describe(w) + '; case ' + show_case(case[0]), loc)
        self.skip(name, 'normal forms differ in the case %s but no separating point was found'
                  % show_case(case[0]), bound, loc)
        return None

    def holds(self, name, cond, assume=(), conds=(), loc=None, bound=False):
        """obligation: a condition is true everywhere on the domain"""
        return self.eq(name, cond, TRUE, assume, conds, loc=loc, bound=bound)

    def nonneg(self, name, r, assume=(), loc=None):
        return self.eq(name, cge(r, ZERO), TRUE, assume, loc=loc)

    # ---------------------------------------------------------------- findings
    def known(self, key):
        fn_ = os.path.join(HERE, 'known_findings.txt')
        if not os.path.exists(fn_):
            return False
        with open(fn_) as f:
            for l in f:
                l = l.strip()
                if l.startswith('finding:') and ('property=%s ' % self.pid) in l and \
                        ('key=%s ' % key) in l + ' ':
                    return True
        return False

    # ----------------------------------------------------------------- verdict
    def finish(self, error=None):
        st = {'functions': set(), 'calls': set(), 'stmts': set(), 'loops': set()}
        for I in self.interps:
            for k in st:
                st[k] |= I.stats[k]
        n_ok = sum(1 for o in self.obs if o[1] == 'ok')
        hard = [u for u in self.undecided if not u[2]]
        rc = 0
        if self.violations:
            rc = 1
        elif error is not None or hard:
            rc = 2
        elif n_ok < self.minimum:
            rc = 2
            error = 'only %d obligations were discharged, %d expected' % (n_ok, self.minimum)
        cov = {
            'explanation': 'Static analysis of the current source of /repo: ' + ' '.join(self.rules),
            'obligations': len(self.obs),
            'discharged': n_ok,
            'undecided': len(self.undecided),
            'functions_analysed': sorted(st['functions']),
            'statements_analysed': len(st['stmts']),
            'call_sites': len(st['calls']),
            'loops': len(st['loops']),
            'sample_obligations': [o[0] for o in self.obs[:: max(1, len(self.obs) // 25)]][:40],
        }
        if self.undecided:
            cov['undecided_list'] = ['%s: %s' % (a, b) for a, b, _ in self.undecided][:40]
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': 'other',
              'coverage': cov, 'assumptions': self.assumptions,
              'wall_s': round(time.time() - self.t0, 2), 'violations': len(self.violations)}
        d = os.path.join(HERE, 'evidence')
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        for n in self.notes:
            print('note: ' + n)
        for k in self.findings:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, k))
        for n, w, _ in self.undecided[:20]:
            print('undecided: %s: %s' % (n, w[:400]))
        if rc == 1:
            p = os.path.join(d, self.pid + '.violation.txt')
            with open(p, 'w') as f:
                f.write('property %s is violated by the current source of %s\n' % (self.pid, self.repo))
                for r in self.rules:
                    f.write('rule: %s\n' % r)
                for n, det, loc in self.violations:
                    f.write('\nobligation: %s\n  at: %s\n  %s\n' % (n, fmtloc(loc), det))
            for n, det, loc in self.violations[:8]:
                print('violated: %s (%s): %s' % (n, fmtloc(loc), det[:600]))
            print('VIOLATION property=%s replay=%s' % (self.pid, p))
        elif rc == 2:
            print('ANALYSIS-ERROR property=%s %s' % (self.pid, error or 'undecided obligations'))
        else:
            print('ok property=%s: %d obligations discharged, %d undecided beyond the bound, %.1f s'
                  % (self.pid, n_ok, len(self.undecided), time.time() - self.t0))
        return rc


THRESHOLDS = {}


def trees(repo, skip=()):
    d = os.path.join(repo, 'dg1d')
    for f in sorted(os.listdir(d)) if os.path.isdir(d) else ():
        if f.endswith('.py') and f not in skip:
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    with open(os.path.join(d, f), encoding='utf-8') as h:
                        yield f, ast.parse(h.read())
            except (SyntaxError, ValueError):
                continue


def thresholds(repo):
    """small integers the source compares quantities with"""
    if repo not in THRESHOLDS:
        out = set()
        for f, t in trees(repo):
            for n in ast.walk(t):
                out |= compared(n)
        THRESHOLDS[repo] = out
    return THRESHOLDS[repo]


WORDS = {}


def words(repo, *known):
    """names that mean nothing: near misses of the known ones, and every other single word the
    current source compares a text with"""
    near = set()
    for k in known:
        near |= {k + 'x', k[:-1], k[1:], k.upper(), k.capitalize(), k + '2', 'x' + k, k[:3], k + '_' + k}
    if repo not in WORDS:
        out = set()
        for f, t in trees(repo):
            for n in ast.walk(t):
                if isinstance(n, ast.Compare):
                    parts = [n.left] + n.comparators
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and \
                        n.func.attr in ('startswith', 'endswith', 'find', 'index', 'count', 'get'):
                    parts = list(n.args)
                elif isinstance(n, ast.MatchValue):
                    parts = [n.value]
                elif isinstance(n, ast.Dict):
                    parts = [k for k in n.keys if k is not None]
                else:
                    continue
                for q in parts:
                    for c in ast.walk(q):
                        if isinstance(c, ast.Constant) and isinstance(c.value, str) and c.value.isidentifier():
                            out.add(c.value)
        WORDS[repo] = out
    return sorted((near | WORDS[repo]) - set(known) - {''})


def compared(n):
    """the integers a node compares (or takes the minimum of) something with"""
    if isinstance(n, ast.Compare):
        parts = [n.left] + n.comparators
        if any(isinstance(q, ast.Call) and isinstance(q.func, ast.Name) and q.func.id == 'len' for q in parts):
            return set()
    elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('min', 'max', 'range'):
        parts = list(n.args)
    elif isinstance(n, ast.MatchValue):
        parts = [n.value]
    elif isinstance(n, ast.Dict):
        parts = [k for k in n.keys if k is not None]
    else:
        return set()
    out = set()
    for q in parts:
        for c in ast.walk(q):
            if isinstance(c, ast.Constant) and type(c.value) is int and 2 <= c.value <= 12:
                out.add(c.value)
    return out


def fmtloc(loc):
    if loc is None:
        return '-'
    if isinstance(loc, tuple) and len(loc) == 2:
        return '%s:%s' % loc
    return str(loc)


def main(argv):
    import resource
    pid = argv[1]
    repo = argv[2] if len(argv) > 2 else '/repo'
    try:
        resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    except (ValueError, OSError):
        pass
    sys.setrecursionlimit(20000)
    ctx = Ctx(pid, repo)
    err = attempt(ctx)
    hard = [u for u in ctx.undecided if not u[2]]
    if not ctx.violations and (hard or (err is not None and not err.startswith('Vanished'))):
        err = bounded(ctx, err)
    return ctx.finish(err)


def attempt(ctx):
    import importlib
    try:
        importlib.import_module('checks.' + ctx.pid.lower()).run(ctx)
    except Stop:
        pass
    except Failed as e:
        what, exc = e.args
        ctx.ob(what + ' returns', False, 'raises %r' % (exc,), getattr(exc, 'loc', None))
    except (Unsupported, Undecided, AlgError, Vanished, PyExc, Dead, TimeUp) as e:
        if os.environ.get('VERIF_DEBUG'):
            traceback.print_exc()
        return '%s: %s' % (type(e).__name__, e)
    except Exception as e:
        traceback.print_exc()
        return '%s: %s' % (type(e).__name__, e)
    return None


def bounded(ctx, err):
    """the analysis for any number of cells did not settle: repeat it for a fixed
    small number of cells, where loops over cells are unrolled"""
    mod = sys.modules.get('checks.' + ctx.pid.lower())
    if mod is None or not getattr(mod, 'BOUNDED', False):
        return err
    what = err or '%s: %s' % ctx.undecided[0][:2]
    n = 4
    for pick in (1, 0, n):
        e, c = fixed(ctx, n, pick)
        if c.violations:
            return None
        left = [u for u in c.undecided if not u[2]]
        if e is not None or left or sum(1 for o in c.obs if o[1] == 'ok') < c.minimum:
            return err or 'undecided obligations'
    ctx.notes.append('decided for a fixed number of cells only (%s)' % what[:300])
    ctx.undecided = [(a, b, True) for a, b, _ in ctx.undecided] + [('any number of cells', what, True)]
    # numbers of cells around the sizes the source names, while there is time
    for s in sizes(ctx.repo, what):
        for n in (s + 1, s - 1, s):
            for pick in sorted({n, s - 1}, reverse=True):
                left = ctx.t0 + 420 - time.time()
                if left < 20:
                    return None
                e, c = fixed(ctx, n, pick, min(left, 120))
                if c.violations:
                    return None
                if e is not None:
                    ctx.notes.append('%d cells: %s' % (n, e[:200]))
                    break
    return None


def fixed(ctx, n, pick, limit=None):
    """analyse for n cells and look at one of them"""
    from . import model
    fix_cells(n)
    model.PICK[0] = pick
    c = Ctx(ctx.pid, ctx.repo)
    c.t0 = ctx.t0
    LIMIT[0] = None if limit is None else time.monotonic() + limit
    c.soft = limit is not None
    e = attempt(c)
    LIMIT[0] = None
    ctx.interps += c.interps
    ctx.violations += [('%s [%d cells]' % (a, n), d, l) for a, d, l in c.violations]
    ctx.obs += [('%s [%d cells]' % (o[0], n),) + tuple(o[1:]) for o in c.obs]
    return e, c


def sizes(repo, what):
    """lengths the source names: integer constants between 5 and 130 outside the coefficient
    tables, those of the function the analysis stopped in first"""
    m = re.search(r'\[(?:dg1d/)?([\w/]+\.py):(\d+)\]', what)
    near, far = set(), set()
    for f, t in trees(repo, skip=('rk_coeffs.py', 'plot.py')):
        for fn_ in [t] + [n for n in ast.walk(t) if isinstance(n, ast.FunctionDef)]:
            here = m and fn_ is not t and m.group(1) == f and fn_.lineno <= int(m.group(2)) <= fn_.end_lineno
            for n in ast.walk(fn_):
                if isinstance(n, ast.Constant) and type(n.value) is int and 5 <= n.value <= 130:
                    (near if here else far).add(n.value)
    return sorted(near) + sorted(far - near, reverse=True)


def fix_cells(n):
    from . import model
    for m in list(sys.modules.values()):
        nm = getattr(m, '__name__', '')
        if (nm.startswith('checks.') or nm == 'sa.model') and hasattr(m, 'NE'):
            m.NE = C(n)
            if hasattr(m, 'NI'):
                m.NI = C(n)
            for k, v in getattr(m, 'FIXED', {}).items():
                setattr(m, k, C(v))
    FACTS.push(model.IOTA, ONE, C(n))
