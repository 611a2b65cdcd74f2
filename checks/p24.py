"""A deck file sets what it names."""
from sa.model import *

RULE = ('Deck().parser is interpreted on abstract files whose values are unknown words and numbers: every entry '
        'alone, all entries in several orders, with and without a final newline; each attribute is compared with the '
        'value on the line after its keyword, all others with their defaults. write_deck is interpreted and its file '
        'read back.')

# keyword, attribute, kind, default
ENTRIES = (
    ('PDE system', 'system', 'str', 'advection'),
    ('RK scheme', 'rk', 'str', ''),
    ('riemann solver', 'riemann', 'str', 'roe'),
    ('initial condition', 'ic', 'words', 'sinewave'),
    ('number of outputs', 'nout', 'int', 10),
    ('final time', 'finaltime', 'num', 1),
    ('Courant-Friedrichs-Lewy condition', 'cfl', 'num', Fraction(1, 2)),
    ('order', 'order', 'int', 1),
    ('limiting', 'limiting', 'str', ''),
    ('enhancement', 'enhance', 'words', ''),
    ('sensor thresholds', 'sensor_thresholds', 'list', ()))


def tok(name, kind):
    return finite(sym(name, isint=kind == 'int'))


def interp_(ctx):
    I = interp(ctx)
    I.hooks['tokval'] = lambda I, name, kind: tok(name, 'int' if name.startswith('i_') else kind)
    I.hooks['open'] = lambda I, fname: I.raise_('FileNotFoundError', 'no file %r' % (fname,))
    return I


def value(attr, kind, n=2, tag=''):
    """(text of the line, value expected)"""
    if kind == 'str':
        t = mkstr([Tok('w_' + attr + tag)])
        return t, t
    if kind == 'words':
        t = mkstr([Tok('w_' + attr + tag)] + [s for k in range(2, n + 1) for s in (' ', Tok('w%d_%s%s' % (k, attr, tag)))])
        return t, t
    if kind == 'int':
        return mkstr([Tok('i_' + attr + tag)]), tok('i_' + attr + tag, 'int')
    if kind == 'num':
        return mkstr([Tok('x_' + attr + tag)]), tok('x_' + attr + tag, 'num')
    ps, vs = [], []
    for k in range(n):
        ps += [' '] * bool(k) + [Tok('x%d_%s%s' % (k, attr, tag))]
        vs.append(tok('x%d_%s%s' % (k, attr, tag), 'num'))
    return mkstr(ps), tuple(vs)


def lines_(entries, last_newline=True, pad=''):
    out = []
    for key, t in entries:
        out += [mkstr(['#', key, '\n']), mkstr([t, pad, '\n'])]
    if out and not last_newline:
        out[-1] = strs_strip(out[-1])
    return tuple(out)


def strs_strip(s):
    from sa.strs import strip
    return strip(s, False, True, '\n')


def run(ctx):
    ctx.rule(RULE)
    ctx.minimum = 150
    parse(ctx, 'empty deck', ())
    for e in ENTRIES:
        for nl in (True, False):
            parse(ctx, 'only %r%s' % (e[0], '' if nl else ', no final newline'), (e,), nl)
    for n in (0, 1, 3, 4, 6, 9):
        parse(ctx, '%d sensor thresholds' % n, ENTRIES[-1:], n=n)
    for n in (1, 3, 4, 5, 6, 8, 12):
        parse(ctx, 'values of %d words' % n, [e for e in ENTRIES if e[2] == 'words'], n=n)
    parse(ctx, 'all entries', ENTRIES)
    parse(ctx, 'all entries, reversed', ENTRIES[::-1], False)
    parse(ctx, 'entries rotated', ENTRIES[6:] + ENTRIES[:6], pad=' ')
    parse(ctx, 'some entries', ENTRIES[1::2])
    if ctx.thorough:
        for k in range(1, 11):
            parse(ctx, 'entries rotated by %d' % k, ENTRIES[k:] + ENTRIES[:k], pad='\t')
        for a in ENTRIES:
            for b in ENTRIES:
                if a is not b:
                    parse(ctx, '%r then %r' % (a[0], b[0]), (a, b))
    concrete(ctx)
    separate(ctx)
    writer(ctx)


NUMBERS = (('0', 0), ('1', 1), ('12.5', Fraction(25, 2)), ('.5', Fraction(1, 2)), ('2.', 2), ('25e-2', Fraction(1, 4)),
           ('1.5E+3', 1500), ('5e-1', Fraction(1, 2)), ('1e2', 100), ('-0.25', Fraction(-1, 4)), ('+4', 4),
           ('1024.0625', Fraction(16385, 16)), ('1e-3', Fraction('1e-3')), ('3.0e-05', Fraction('3.0e-05')))
INTEGERS = (('0', 0), ('1', 1), ('7', 7), ('10', 10), ('250', 250), ('007', 7))


def concrete(ctx):
    """written numbers: exponents, signs, leading and trailing points"""
    for key, attr, kind, dflt in ENTRIES:
        for t, v in NUMBERS if kind in ('num', 'list') else INTEGERS if kind == 'int' else ():
            I = interp_(ctx)
            if kind == 'list':
                t, v = t + ' 8 ' + t, (C(v), C(8), C(v))
            I.vfs['some.deck'] = lines_([(key, t)])
            tag = '%s written %s: ' % (attr, t)
            d = invoke(ctx, I, 'Deck()', func(I, 'dg1d.deck', 'Deck'), ())
            invoke(ctx, I, tag + 'parser', member(I, d, 'parser'), ('some.deck',))
            same(ctx, I, tag + attr, member(I, d, attr), v)


def defaults(ctx, I, tag, d, skip=()):
    for key, attr, kind, dflt in ENTRIES:
        if attr in skip:
            continue
        try:
            v = member(I, d, attr)
        except Vanished:
            ctx.ob('%sdefault of %s' % (tag, attr), False, 'a parsed deck has no %s' % attr)
            continue
        same(ctx, I, '%sdefault of %s' % (tag, attr), v, dflt)


def same(ctx, I, what, got, want):
    if isinstance(want, tuple):
        try:
            it = [num(x) for x in listing(I, got)]
        except Exception:
            ctx.ob(what, False, 'is %r, should be a list of %d numbers' % (got, len(want)))
            return
        if ctx.ob(what + ': how many', len(it) == len(want), 'has %d entries, should have %d' % (len(it), len(want))):
            for k, (a, b) in enumerate(zip(it, want)):
                ctx.eq('%s [%d]' % (what, k), a, b)
    elif isinstance(want, (Rat, int, Fraction)):
        ctx.eq(what, num(got), num(want))
    else:
        ctx.ob(what, same_value(got, want), 'is %r, should be %r' % (got, want))


def listing(I, v):
    from sa.pylib import items
    return list(items(I, v))


def num(v):
    return v if isinstance(v, Rat) else C(v) if isinstance(v, (int, Fraction)) else v


def parse(ctx, tag, entries, nl=True, n=2, pad=''):
    I = interp_(ctx)
    vals = {e[1]: value(e[1], e[2], n) for e in entries}
    I.vfs['some.deck'] = lines_([(e[0], vals[e[1]][0]) for e in entries], nl, pad)
    d = invoke(ctx, I, 'Deck()', func(I, 'dg1d.deck', 'Deck'), ())
    tag += ': '
    invoke(ctx, I, tag + 'parser', member(I, d, 'parser'), ('some.deck',))
    for key, attr, kind, dflt in entries:
        same(ctx, I, '%s%s' % (tag, attr), member(I, d, attr), vals[attr][1])
    defaults(ctx, I, tag, d, vals)


def separate(ctx):
    """decks do not share what they read"""
    I = interp_(ctx)
    cls = func(I, 'dg1d.deck', 'Deck')
    a, b = (invoke(ctx, I, 'Deck()', cls, ()) for _ in range(2))
    va = {e[1]: value(e[1], e[2], 2, 'A') for e in ENTRIES}
    I.vfs['a.deck'] = lines_([(e[0], va[e[1]][0]) for e in ENTRIES])
    invoke(ctx, I, 'parser', member(I, a, 'parser'), ('a.deck',))
    defaults(ctx, I, 'a deck after another was read: ', b)
    c = invoke(ctx, I, 'Deck()', cls, ())
    defaults(ctx, I, 'a new deck after another was read: ', c)
    vb = {e[1]: value(e[1], e[2], 1, 'B') for e in ENTRIES}
    I.vfs['b.deck'] = lines_([(e[0], vb[e[1]][0]) for e in ENTRIES])
    invoke(ctx, I, 'parser', member(I, b, 'parser'), ('b.deck',))
    for key, attr, kind, dflt in ENTRIES:
        same(ctx, I, 'first deck keeps ' + attr, member(I, a, attr), va[attr][1])
        same(ctx, I, 'second deck has ' + attr, member(I, b, attr), vb[attr][1])
    # and a deck read twice holds what was read last
    invoke(ctx, I, 'parser', member(I, a, 'parser'), ('b.deck',))
    for key, attr, kind, dflt in ENTRIES:
        same(ctx, I, 'deck read again has ' + attr, member(I, a, attr), vb[attr][1])


def writer(ctx):
    """write_deck writes what the parser reads"""
    for tag, es in (('all', ENTRIES), ('some', ENTRIES[2::3]), ('none', ())):
        I = interp_(ctx)
        vals = {e[1]: value(e[1], e[2]) for e in es}
        defs = I.list_([I.list_([e[0], vals[e[1]][0]]) for e in es])
        wd = mkstr([Tok('dir')])
        r = invoke(ctx, I, 'write_deck', func(I, 'dg1d.deck', 'write_deck'), (wd, defs))
        ctx.ob(tag + ': name of the written deck', same_value(r, mkstr([wd, '/deck.inp'])), repr(r))
        d = invoke(ctx, I, 'Deck()', func(I, 'dg1d.deck', 'Deck'), ())
        invoke(ctx, I, tag + ': parser', member(I, d, 'parser'), (r,))
        for key, attr, kind, dflt in es:
            same(ctx, I, '%s: written and read %s' % (tag, attr), member(I, d, attr), vals[attr][1])
        defaults(ctx, I, tag + ' written: ', d, vals)
