"""Composition, inverse, identity, powers."""
from se.runner import Registry
from .common import *

H = Registry()
ASSUMPTIONS = ['closeness tests (np.allclose / np.isclose) are taken as exact equality in symbolic runs']
OUTSIDE = 'Hilbert spaces larger than 2, powers beyond |n| = 16, more than 3 dimensions'


PAIRS = [(0, 0, 0, 0), (0, 1, 1, 0), (1, 0, 1, 1), (1, 1, 0, 1)]


def elem(ctx, Q, tag, dim, kind, n=2, U=True):
    mats = INT[dim][:3] if kind == 'int' and tag else None
    R = rot(ctx, dim, kind, 'R' + tag, mats)
    u = ctx.unitary('U' + tag, n) if U else None
    if tag:
        f = PAIRS[ctx.choose('flags', 4)]
        c, a = (bool(x) for x in (f[:2] if tag == '1' else f[2:]))
    else:
        c, a = ctx.pybool('c'), ctx.pybool('a')
    return Q.PointGroupElement(R, c, a, u), plain(ctx, R), c, a, u


def opU(ctx, c1, U1, U2):
    if U1 is None or U2 is None:
        return None
    return U1 @ (U2.conj() if c1 else U2)


def same(ctx, g, R, c, a, U, label):
    ctx.check_eq(plain(ctx, g.R), R, label + ': R')
    ctx.check(bool(g.conjugate) == bool(c), label + ': conjugate')
    ctx.check(bool(g.antisymmetry) == bool(a), label + ': antisymmetry')
    if U is None:
        ctx.check(g.U is None, label + ': U is None')
    else:
        ctx.check(g.U is not None, label + ': U given')
        ctx.check_eq(g.U, U, label + ': U')


KINDS = [(1, 'orth', 'orth'), (2, 'orth', 'orth'), (2, 'int', 'orth'), (2, 'int', 'sympy'), (2, 'sympy', 'int'),
         (2, 'sympy', 'sympy'), (2, 'int', 'int'), (3, 'int', 'int')]


@H(cases={f'd{d}-{k}-{l}-{"U" if u else "none"}': dict(dim=d, k1=k, k2=l, u=u) for d, k, l in KINDS for u in
          ((True, False) if k == l == 'int' else (True,))},
   bounds='two group elements, R any orthogonal matrix of the kind (float, integer, exact), arbitrary 2x2 unitary U '
          '(3D: 1x1) or None, every combination of conjugations')
def compose(ctx, dim, k1, k2, u):
    Q = ctx.Q
    n = 1 if dim == 3 else 2
    U1 = u or ctx.pybool('u1')
    g1, R1, c1, a1, u1 = elem(ctx, Q, '1', dim, k1, n, U1)
    g2, R2, c2, a2, u2 = elem(ctx, Q, '2', dim, k2, n, u)
    g = g1 * g2
    same(ctx, g, R1 @ R2, c1 ^ c2, a1 ^ a2, opU(ctx, c1, u1, u2), 'product')
    same(ctx, g1, R1, c1, a1, u1, 'first factor unchanged')
    same(ctx, g2, R2, c2, a2, u2, 'second factor unchanged')


@H(cases={f'd{d}-{k}-{"U" if u else "none"}': dict(dim=d, k=k, u=u)
          for d, k in [(1, 'orth'), (2, 'orth'), (2, 'int'), (2, 'sympy'), (3, 'int'), (3, 'orth')] for u in (True, False)},
   bounds='one element, R orthogonal (float, exact) or unimodular integer, arbitrary 2x2 unitary U or None')
def inverse(ctx, dim, k, u):
    Q = ctx.Q
    g, R, c, a, U = elem(ctx, Q, '', dim, k, 2, u)
    i = g.inv()
    for p, nm in ((g * i, 'g g^-1'), (i * g, 'g^-1 g')):
        same(ctx, p, eye(ctx, dim), False, False, None if not u else eye(ctx, 2), nm)
    ctx.check(bool(i.conjugate) == c and bool(i.antisymmetry) == a, 'flags of the inverse')
    e = g.identity()
    same(ctx, e, eye(ctx, dim), False, False, None if not u else eye(ctx, 2), 'identity()')
    same(ctx, e * g, R, c, a, U, '1 g')
    same(ctx, g * e, R, c, a, U, 'g 1')


@H(cases={f'{k}{n}': dict(k=k, n=n) for k in ('orth', 'int', 'sympy') for n in range(-3, 4)},
   bounds='powers -3..3 of one 2D element, arbitrary unitary U, all flags')
def power(ctx, k, n):
    Q = ctx.Q
    g, R, c, a, U = elem(ctx, Q, '', 2, k, 2, True)
    p = g ** n
    Rn, cn, an, Un = eye(ctx, 2), False, False, eye(ctx, 2)
    if n < 0:
        # g^-1 has U^T (antiunitary) or U^dagger
        Ri, Ui = inv(ctx, R), (U.T if c else dag(ctx, U))
    else:
        Ri, Ui = R, U
    for _ in range(abs(n)):
        Rn, Un = Rn @ Ri, opU(ctx, cn, Un, Ui)
        cn, an = cn ^ c, an ^ a
    same(ctx, p, Rn, cn, an, Un, f'power {n}')


@H(cases={f'{k}{n}': dict(k=k, n=n) for k in ('int', 'sympy') for n in (-16, -9, -7, -4, 4, 5, 6, 7, 8, 9, 12, 16)}, time_limit=60,
   bounds='larger powers up to 16 of 2D elements from the lists, arbitrary phase or diagonal unitary U, all flags')
def power_large(ctx, k, n):
    """the phase and flags of g^n follow from those of g^2"""
    Q = ctx.Q
    R = rot(ctx, 2, k, 'R')
    c, a = ctx.pybool('c'), ctx.pybool('a')
    u, v = ctx.unitary('u', 1)[0, 0], ctx.unitary('v', 1)[0, 0]
    U = ctx.arr(np.array([[0, u], [v, 0]], dtype=object)) if ctx.sym else np.array([[0, u], [v, 0]])
    p = Q.PointGroupElement(R, c, a, U) ** n
    m = abs(n)
    # g^2 = u v for a unitary g and diag(u v*, u* v) for an antiunitary one
    z = u * v if not c else u * v.conjugate()
    w = u * v if not c else u.conjugate() * v
    if n < 0:
        z, w = z.conjugate(), w.conjugate()
    zn, wn = 1, 1
    for _ in range(m // 2):
        zn, wn = zn * z, wn * w
    D = ctx.arr(np.array([[zn, 0], [0, wn]], dtype=object)) if ctx.sym else np.array([[zn, 0], [0, wn]])
    if m % 2:
        D = D @ (U if n > 0 else U.T if c else dag(ctx, U))
    Rn, Ri = eye(ctx, 2), plain(ctx, R) if n > 0 else inv(ctx, plain(ctx, R))
    for _ in range(m):
        Rn = Rn @ Ri
    same(ctx, p, Rn, c and m % 2, a and m % 2, D, f'power {n}')


HIST = {'inv': lambda g, h: g.inv(), 'pow': lambda g, h: g ** 3, 'pow-': lambda g, h: g ** -2, 'g*h': lambda g, h: g * h, 'h*g': lambda g, h: h * g, 'g*g': lambda g, h: g * g,
        'id': lambda g, h: g.identity() * g}


@H(cases={f'{k}-{o}': dict(k=k, o=o) for k in ('int', 'sympy', 'orth') for o in HIST if k != 'orth' or o in ('inv', 'id')}, time_limit=60,
   bounds='the same operation on three elements in turn that have the same R and flags but any different 2x2 unitaries, or None')
def history(ctx, k, o):
    """an operation does not depend on operations on other elements before it, even if they count as equal"""
    Q = ctx.Q
    R = rot(ctx, 2, k, 'R', INT[2][:3] if k == 'int' else None)
    c, a = ctx.pybool('c'), ctx.pybool('a')
    Us = [ctx.unitary('U0', 2), None, ctx.unitary('U1', 2)]
    h = Q.PointGroupElement(R, False, True, np.array([[0, 1], [1j, 0]]))
    Rp = plain(ctx, R)
    Ri = inv(ctx, Rp)
    Uh = np.array([[0, 1], [1j, 0]])
    Uh = ctx.arr(Uh.astype(object)) if ctx.sym else Uh
    for i, U in enumerate(Us):
        g = Q.PointGroupElement(R, c, a, U)
        p = HIST[o](g, h)
        if o == 'inv':
            e = (Ri, c, a, None if U is None else U.T if c else dag(ctx, U))
        elif o == 'pow':
            e = (Rp @ Rp @ Rp, c, a, opU(ctx, c, U, opU(ctx, c, U, U)))
        elif o == 'pow-':
            Ui = None if U is None else U.T if c else dag(ctx, U)
            e = (Ri @ Ri, False, False, opU(ctx, c, Ui, Ui))
        elif o == 'g*g':
            e = (Rp @ Rp, False, False, opU(ctx, c, U, U))
        elif o == 'g*h':
            e = (Rp @ Rp, c, not a, opU(ctx, c, U, Uh))
        elif o == 'h*g':
            e = (Rp @ Rp, c, not a, opU(ctx, False, Uh, U))
        else:
            e = (Rp, c, a, U)
        same(ctx, p, *e, f'{o} of element {i}')
        same(ctx, g, Rp, c, a, U, f'element {i} unchanged')


@H(cases={f'd{d}-{k}-{l}': dict(dim=d, k1=k, k2=l) for d, k, l in
          [(1, 'orth', 'orth'), (2, 'int', 'int'), (2, 'int', 'sympy'), (2, 'orth', 'int')]},
   time_limit=60, bounds='(g1 g2) H and g1 (g2 H) for linear 1x1 Model with arbitrary coefficients, unitary U, all flags')
def action(ctx, dim, k1, k2):
    Q = ctx.Q
    n = 1
    g1, R1, c1, a1, u1 = elem(ctx, Q, '1', dim, k1, n, True)
    g2, R2, c2, a2, u2 = elem(ctx, Q, '2', dim, k2, n, True)
    keys = ['1', 'k_x'] if dim == 1 else ['k_x']
    vals = [(key, ctx.matrix(f'h{i}', n)) for i, key in enumerate(keys)]
    for _, v in vals:
        ctx.assume(Not_zero(ctx, v[0, 0]))
    model = Q.Model(dict(vals), momenta=NAMES[:dim])
    ks, env = kvals(ctx, dim)
    ctx.check_eq(meval(ctx, (g1 * g2).apply(model), env), meval(ctx, g1.apply(g2.apply(model)), env),
                 'action of a product')


@H(bounds='product of three elements, 2D integer rotations, 1x1 phases, all flags')
def associative(ctx):
    Q = ctx.Q
    gs = []
    for i in range(3):
        R = rot(ctx, 2, 'int', f'R{i}', INT[2][:2])
        gs.append(Q.PointGroupElement(R, ctx.pybool(f'c{i}'), bool(i % 2), ctx.unitary(f'U{i}', 1)))
    a, b, c = gs
    l, r = (a * b) * c, a * (b * c)
    same(ctx, l, plain(ctx, r.R), r.conjugate, r.antisymmetry, r.U, '(ab)c = a(bc)')
