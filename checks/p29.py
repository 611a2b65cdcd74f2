"""The convergence study runs the solver it says it runs."""
import posixpath
import shlex
from sa.model import *

RULE = ('advection_convergence/run.py is interpreted as a program started in its directory, following the working directory, '
        'the files it writes and the processes it launches; every launch must start the solver of this repository on a deck '
        'which, parsed by Deck.parser, is the problem its directory is named after, and only the directories of the study are removed.')
BASE = '/R/advection_convergence'
SOLVER = '/R/dg1d/main.py'


def run(ctx):
    ctx.rule(RULE)
    ctx.minimum = 30
    for old in ('', 'after a complete study: ', 'after an interrupted study: '):
        ctx.part(study, old)


def holds(path, old):
    """the directories there are before the study"""
    r = posixpath.relpath(path, BASE)
    if r.startswith('..') or r == '.':
        return True
    w = r.split('/')
    if not old or not w[0].isdigit():
        return w == ['run.py'] or w == ['plot.py']
    if len(w) == 1:
        return True
    # an interrupted study has some of the resolutions
    return w[1].isdigit() and (old.startswith('after a complete') or int(w[1]) % 5 < 3)


def there(I, path, old):
    """whether a path exists now"""
    found = holds(path, old)
    for e in I.st.events:
        if e.kind == 'fs' and isinstance(e.data[1][0], str):
            t = e.data[1][0]
            if e.data[0] in ('os.makedirs', 'os.mkdir'):
                if t == path or t.startswith(path + '/'):
                    found = True
            elif e.data[0] in ('shutil.rmtree', 'os.rmdir', 'os.remove', 'os.unlink', 'shutil.move', 'os.rename'):
                if path == t or path.startswith(t + '/'):
                    found = False
        elif e.kind == 'fopen' and e.data[0] == path:
            found = True
    return found


def study(ctx, old):
    I = ctx.interp(search=('advection_convergence', '', 'dg1d'))
    I.hooks['cwd'] = BASE

    def exists(I_, path):
        if not isinstance(path, str):
            raise Unsupported('existence of a computed path')
        return TRUE if there(I_, posixpath.normpath(posixpath.join(I_.hooks['cwd'], path)), old) else FALSE
    I.hooks['exists'] = exists

    def made(I_, name, path, kw):
        if there(I_, path, old) and name in ('os.makedirs', 'os.mkdir') and 'exist_ok' not in kw:
            I_.raise_('FileExistsError', path)
        if not there(I_, path, old) and (name in ('os.chdir', 'os.rmdir', 'os.remove', 'os.unlink') or
                                         name == 'shutil.rmtree' and not kw):
            I_.raise_('FileNotFoundError', path)
    I.hooks['makes'] = made
    n = len(I.raised)
    ctx.subject = ('advection_convergence/run.py', 1)
    try:
        I.load_module('run', main=True)
    except PyExc as e:
        I.raised.append((I.st, e.exc))
    except Dead:
        pass
    for st, exc in I.raised[n:]:
        if exc.type == 'SystemExit' and (not exc.args or exc.args[0] is None):
            continue
        unexpected(ctx, I, old + 'run.py', st, exc)
    if I.st is None:
        ctx.ob(old + 'run.py ends', False, repr(I.raised[n:]))
        return
    ev = list(I.st.events)
    launches(ctx, I, ev, old)
    removals(ctx, ev, old)


def launches(ctx, I, ev, old):
    seen = []
    for k, e in enumerate(ev):
        if e.kind != 'process':
            continue
        name, args, kw, cwd, proc = e.data
        if 'cwd' in kw:
            if not isinstance(kw['cwd'], str):
                raise Unsupported('working directory of a process')
            cwd = posixpath.normpath(posixpath.join(cwd, kw['cwd']))
        cmd = args[0] if args else kw.get('args')
        w = shlex.split(cmd) if isinstance(cmd, str) else list(I.items(cmd))
        if not all(isinstance(x, str) for x in w):
            raise Unsupported('computed command line %r' % (w,))
        if not cwd.startswith(BASE):
            ctx.ob('processes run inside the study', False, cwd, e.loc)
            continue
        d = posixpath.relpath(cwd, BASE)
        tag = old + '%s: ' % d
        while w and (posixpath.basename(w[0]).startswith('python') or w[0] in ('env', '/usr/bin/env', '-u', 'nice')):
            w = w[1:]
        if not w:
            raise Unsupported('command line %r' % (cmd,))
        prog = posixpath.normpath(posixpath.join(cwd, w[0]))
        ctx.ob(tag + 'the solver is started', prog == SOLVER,
               'the command is %r in %s, that is %s' % (' '.join(w), cwd, prog), e.loc)
        if prog != SOLVER:
            continue
        deck = 'deck.inp'
        rest = w[1:]
        while rest:
            if rest[0] in ('-d', '--deck') and len(rest) > 1:
                deck, rest = rest[1], rest[2:]
            elif rest[0].startswith('--deck='):
                deck, rest = rest[0][7:], rest[1:]
            elif rest[0] in ('>', '2>', '>>', '2>&1', '&'):
                break
            else:
                ctx.ob(tag + 'the solver takes its arguments', False, repr(w), e.loc)
                break
        deck = posixpath.normpath(posixpath.join(cwd, deck))
        problem(ctx, I, tag, d, deck, k)
        waited = name in ('subprocess.call', 'subprocess.check_call', 'subprocess.run') or \
            any(x.kind == 'waited' and x.data[0] == proc and x.data[1] in ('wait', 'communicate') for x in ev[k + 1:])
        ctx.ob(tag + 'the run is waited for', waited, 'started in the background', e.loc)
        made = [j for j in range(k) if ev[j].kind == 'fs' and ev[j].data[0] in ('os.makedirs', 'os.mkdir')
                and ev[j].data[1][0] == cwd]
        ctx.ob(tag + 'its directory is made before', bool(made), 'no such directory', e.loc)
        out = kw.get('stdout')
        log = I.obj(out).meta['name'] if isinstance(out, Ref) and I.obj(out).kind == 'wfile' else None
        ctx.ob(tag + 'the output goes to its logfile', log == cwd + '/logfile', repr(log), e.loc)
        ctx.ob(tag + 'each resolution has its own directory', d not in seen, repr(seen), e.loc)
        seen.append(d)
    ctx.ob('at least two resolutions are run', len(seen) >= 2, repr(seen))


def problem(ctx, I, tag, d, deck, k):
    """the deck as it was when the process was started"""
    old = I.st.events
    I.st.events = old[:k]
    try:
        from sa.pylib import file_lines
        L = file_lines(I, deck)
        if not ctx.ob(tag + 'the deck it is given exists', L is not None, deck):
            return
        D = invoke(ctx, I, 'Deck', func(I, 'dg1d.deck', 'Deck'), ())
        invoke(ctx, I, tag + 'parser', member(I, D, 'parser'), (deck,))
    finally:
        I.st.events = old
    try:
        order, res = [int(x) for x in d.split('/')[-2:]]
    except ValueError:
        ctx.ob(tag + 'the directory is named <order>/<resolution>', False, d)
        return

    def get(a):
        return member(I, D, a)
    ctx.eq(tag + 'order', num_(get('order')), C(order))
    ctx.ob(tag + 'initial condition', same_value(get('ic'), 'sinewave %d' % res), repr(get('ic')))
    ctx.ob(tag + 'system', same_value(get('system'), 'advection'), repr(get('system')))
    ctx.ob(tag + 'no limiter', not same_value(get('limiting'), 'adaptive_hr'), repr(get('limiting')))
    rk = get('rk')
    ctx.ob(tag + 'the scheme is one of the integrators', rk in ('rk3', 'rk4', 'rk5', 'rk6', 'rk8', 'rk10', 'rk12', 'rk14',
                                                                 'low_storage_rk4'), repr(rk))
    tf = num_(get('finaltime')).as_const()
    ctx.ob(tag + 'the final time is a whole number of periods', tf is not None and tf > 0 and (tf / 2).denominator == 1, repr(tf))
    ctx.ob(tag + 'the output compared (number 10) is the last', same_value(num_(get('nout')), C(11)), repr(get('nout')))


def num_(x):
    return x if isinstance(x, Rat) else C(x)


def removals(ctx, ev, old):
    """only directories of orders under study are removed, and before anything is put there"""
    runs = [e for e in ev if e.kind == 'process']
    orders = {posixpath.relpath(e.data[3], BASE).split('/')[0] for e in runs}
    for k, e in enumerate(ev):
        if e.kind == 'fs' and e.data[0] in ('shutil.rmtree', 'os.remove', 'os.unlink', 'os.rmdir', 'os.removedirs', 'shutil.move',
                                            'os.rename', 'os.replace'):
            t = e.data[1][0]
            r = posixpath.relpath(t, BASE) if isinstance(t, str) else None
            ctx.ob(old + '%s(%s) stays inside the results of the study' % (e.data[0], t),
                   r is not None and r.split('/')[0] in orders, repr(t), e.loc)
            later = [x for x in ev[:k] if x.kind == 'process' and (x.data[3] == t or x.data[3].startswith(str(t) + '/'))]
            ctx.ob(old + '%s(%s) removes no result of this study' % (e.data[0], t), not later, repr(t), e.loc)
