"""Enhanced face values."""
from sa.model import *
from .p19 import legcoef

RULE = ('A Solution with an enhancement is constructed for each order and list of modes; the face values it hands to '
        'the interface flux are interpreted for arbitrary coefficients and a symbolic number of cells and compared with '
        'the ends of the enhanced polynomial obtained by exact rational elimination.')
BOUNDED = True


def run(ctx):
    ctx.rule(RULE)
    ctx.minimum = 60
    more = [(p, m) for p in ctx.around((), 8) for m in ((0,), (0, 1)) if p]
    for p, modes in sorted(set(combos(ctx.thorough) + more)):
        faces(ctx, 'advection', p, modes)
        matrices(ctx, p, modes)
    for p, modes in ((1, (0,)), (2, (0, 2))):
        faces(ctx, 'euler', p, modes)
    for p, modes in ((1, (0, 1)), (2, (0,))):
        residual(ctx, p, modes)
    same_as_sorted(ctx)
    plain(ctx)
    fresh_storage(ctx)


def combos(thorough):
    out = [(0, (0,)), (1, (0,)), (1, (1,)), (1, (0, 1)), (2, (0,)), (2, (1,)), (2, (0, 1)), (2, (0, 2)), (2, (1, 2)),
           (2, (0, 1, 2)), (3, (0,)), (3, (0, 1)), (3, (0, 2, 3)), (3, (0, 1, 2, 3))]
    # two-digit modes
    out += [(10, (10,)), (11, (0, 11))]
    if thorough:
        out += [(3, (1,)), (3, (1, 3)), (4, (0,)), (4, (0, 1, 2)), (4, (0, 1, 2, 3, 4)), (5, (0, 1))]
    return out


# ---------------------------------------------------------------- reference
def shifted(j, s):
    """monomial coefficients of P_j(x + s)"""
    c = legcoef(j)
    out = [Fraction(0)] * len(c)
    for n, v in enumerate(c):
        b = Fraction(1)
        for k in range(n + 1):
            # C(n, k) x^k s^(n-k)
            out[k] += v * b * Fraction(s) ** (n - k)
            b = b * (n - k) / (k + 1)
    return out


def inner(a, b):
    s = Fraction(0)
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            if (i + j) % 2 == 0:
                s += x * y * Fraction(2, i + j + 1)
    return s


def conditions(p, modes, side):
    """square matrix acting on the coefficients of the enhanced polynomial: own
    modes, then the listed modes seen in the neighbour (side +1 right, -1 left)"""
    n = p + 1 + len(modes)
    M = [[Fraction(int(i == j)) for j in range(n)] for i in range(p + 1)]
    for m in modes:
        l = legcoef(m)
        M.append([inner(l, shifted(j, 2 * side)) / inner(l, l) for j in range(n)])
    return M


def inverse(M):
    n = len(M)
    A = [list(r) + [Fraction(int(i == j)) for j in range(n)] for i, r in enumerate(M)]
    for c in range(n):
        q = next(r for r in range(c, n) if A[r][c])
        A[c], A[q] = A[q], A[c]
        v = A[c][c]
        A[c] = [x / v for x in A[c]]
        for r in range(n):
            if r != c and A[r][c]:
                f = A[r][c]
                A[r] = [x - f * y for x, y in zip(A[r], A[c])]
    return [r[n:] for r in A]


def vector(p, modes, side):
    """weights of (own modes, listed neighbour modes) in the face value"""
    inv = inverse(conditions(p, modes, side))
    end = [Fraction(side) ** j for j in range(len(inv))]
    return [sum(end[i] * inv[i][j] for i in range(len(inv))) for j in range(len(inv))]


def enhanced(p, modes):
    """faces(cell reader, cell, side, field) of the enhanced solution"""
    W = {s: vector(p, modes, s) for s in (1, -1)}

    def at(U, c, side, f):
        s = 1 if side else -1
        w = W[s]
        v = ZERO
        for j in range(p + 1):
            v = v + C(w[j]) * U(j, c, f)
        for k, m in enumerate(modes):
            v = v + C(w[p + 1 + k]) * U(m, c + C(s), f)
        return v
    return at


def name(modes):
    return 'icb ' + ' '.join(str(m) for m in modes)


# ------------------------------------------------------------------ analysis
def make(ctx, I, system, p, enh):
    return solution(ctx, I, 'sinewave' if system == 'advection' else 'entrpyw', p, 'roe', enh), \
        1 if system == 'advection' else 3


def read_faces(ctx, I, sol, tag):
    return I.getter(invoke(ctx, I, tag, member(I, sol, 'evaluate_faces'), ()))


def faces(ctx, system, p, modes):
    I = interp(ctx)
    tag = '%s p=%d modes %s: ' % (system, p, modes)
    sol, nf = make(ctx, I, system, p, name(modes))
    set_u(I, sol, 'U')
    g = read_faces(ctx, I, sol, tag + 'faces')
    ref = enhanced(p, tuple(sorted(modes)))
    e = cell('e', ZERO)

    def U(m, c, f):
        return elem2('U', C(m), c * C(nf) + C(f))
    for f in range(nf):
        # the interface between cells e and e+1
        ctx.eq(tag + 'value left of an interface, field %d' % f, g((ONE, e * C(nf) + C(f))), ref(U, e, 1, f))
        ctx.eq(tag + 'value right of an interface, field %d' % f, g((ZERO, (e + ONE) * C(nf) + C(f))),
               ref(U, e + ONE, 0, f))


def matrices(ctx, p, modes):
    I = interp(ctx)
    try:
        f = func(I, 'dg1d.enhance', 'enhancement_matrices')
    except Vanished:
        return
    r = invoke(ctx, I, 'enhancement_matrices', f, (C(p), I.list_([C(m) for m in modes])))
    A, Ai, B, Bi = [I.getter(x) for x in I.items(r)]
    n = p + 1 + len(modes)
    for nm, M, side, inv in (('A', A, 1, False), ('inv(A)', Ai, 1, True), ('B', B, -1, False), ('inv(B)', Bi, -1, True)):
        W = conditions(p, modes, side)
        if inv:
            W = inverse(W)
        bad = [(i, j) for i in range(n) for j in range(n) if not M((C(i), C(j))).eq(C(W[i][j]))]
        for i, j in bad[:2]:
            ctx.eq('p=%d modes %s: %s[%d, %d]' % (p, modes, nm, i, j), M((C(i), C(j))), C(W[i][j]))
        if not bad:
            ctx.ob('p=%d modes %s: %s' % (p, modes, nm), True)


def residual(ctx, p, modes):
    for system in ('advection', 'euler'):
        for bc in ('periodic', 'zerograd'):
            I = interp(ctx)
            tag = '%s p=%d modes %s %s residual: ' % (system, p, modes, bc)
            sol, nf = make(ctx, I, system, p, name(modes))
            opaque_euler(I)
            set_u(I, sol, 'U')
            set_bc(I, sol, bc, bc)
            D = invoke(ctx, I, 'DG()', func(I, 'dg1d.dg', 'DG'), (sol,))
            R = invoke(ctx, I, tag, member(I, D, 'residual'), (sol,))
            U = ghosted(lambda m, c, f: elem2('U', C(m), c * C(nf) + C(f)), bc, bc, nf)
            ref = enhanced(p, tuple(sorted(modes)))
            e = cell()
            want = residual_ref(p, system, 'roe', U, member(I, sol, 'dx'), e, faces=lambda c, s, f: ref(U, c, s, f))
            for (m, f), w in want.items():
                ctx.eq(tag + 'mode %d field %d' % (m, f), I.getter(R)((C(m), e * C(nf) + C(f))), w)


def same_as_sorted(ctx):
    for p, modes in ((1, (1, 0)), (2, (2, 0)), (3, (3, 0, 2))):
        faces(ctx, 'advection', p, modes)


def plain(ctx):
    """without enhancement the faces are the ends of the cell's own polynomial"""
    for p in ctx.orders((0, 1, 2, 3), hard=12):
        I = interp(ctx)
        sol, nf = make(ctx, I, 'advection', p, '')
        set_u(I, sol, 'U')
        g = read_faces(ctx, I, sol, 'faces')
        e = cell()
        for side in (0, 1):
            s = ZERO
            for m in range(p + 1):
                s = s + C((1 if side else -1) ** m) * elem2('U', C(m), e)
            ctx.eq('p=%d no enhancement, side %d' % (p, side), g((C(side), e)), s)


def fresh_storage(ctx):
    """a copy evaluates its own faces, and does not depend on what was evaluated before"""
    I = interp(ctx)
    sol, nf = make(ctx, I, 'advection', 1, name((0,)))
    set_u(I, sol, 'U')
    cp = invoke(ctx, I, 'copy', member(I, sol, 'copy'), ())
    set_u(I, cp, 'V')
    read_faces(ctx, I, sol, 'faces')
    g = read_faces(ctx, I, cp, 'faces of a copy')
    ref = enhanced(1, (0,))
    e = cell('e', ZERO)
    for what, h, nm in (('a copy', g, 'V'), ('the original', None, 'U')):
        h = h or read_faces(ctx, I, sol, 'faces')

        def U(m, c, f):
            return elem2(nm, C(m), c)
        ctx.eq('faces of %s, left' % what, h((ONE, e)), ref(U, e, 1, 0))
        ctx.eq('faces of %s, right' % what, h((ZERO, e + ONE)), ref(U, e + ONE, 0, 0))
