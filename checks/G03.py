"""Equality, hash and order of group elements."""
from se.runner import Registry
from .common import *

H = Registry()
ASSUMPTIONS = ['closeness tests (np.allclose / np.isclose) are taken as exact equality in symbolic runs']
OUTSIDE = 'hash collisions of unequal elements, U larger than 2x2'

MIX = [('int', 'int'), ('int', 'orth'), ('orth', 'orth'), ('sympy', 'sympy'), ('sympy', 'float'), ('float', 'sympy'),
       ('int', 'sympy'), ('float', 'float'), ('int', 'floatint')]


def mkR(ctx, kind, name, dim=2):
    if kind == 'float':      # same matrices as the exact list
        m = SYMPY[dim][ctx.choose(name, len(SYMPY[dim]))]
        return const(ctx, np.array([[float(x) for x in r] for r in m]))
    if kind == 'floatint':
        m = INT[dim][ctx.choose(name, 3)]
        return const(ctx, np.array(m, dtype=float))
    return rot(ctx, dim, kind, name, INT[dim][:3] if kind == 'int' else None)


def pge(ctx, Q, tag, kind, U=None, strict=False, dim=2, orth=False):
    R = mkR(ctx, kind, 'R' + tag, dim)
    if orth:
        c, a = True, tag == '2' and ctx.pybool('a' + tag)
    else:
        c, a = ctx.pybool('c' + tag), ctx.pybool('a' + tag)
    return Q.PointGroupElement(R, c, a, U, _strict_eq=strict), plain(ctx, R), c, a


@H(cases={f'{k}-{l}': dict(k=k, l=l) for k, l in MIX},
   bounds='two elements with 2D R: integer / exact lists or any orthogonal float matrix; all flags; U ignored')
def equality(ctx, k, l):
    Q = ctx.Q
    U1, U2 = (ctx.unitary('U1', 1), ctx.unitary('U2', 1)) if k == 'int' else (None, None)
    g1, R1, c1, a1 = pge(ctx, Q, '1', k, U1, orth='orth' in (k, l))
    g2, R2, c2, a2 = pge(ctx, Q, '2', l, U2, orth='orth' in (k, l))
    e = truth(g1 == g2)
    want = f_and([close(ctx, R1, R2), c1 == c2, a1 == a2])
    ctx.check(iff(e, want), 'equal iff same R and flags')
    ctx.check(truth(g2 == g1) == e, 'symmetric')
    ctx.check(truth(g1 == g1), 'reflexive')
    ctx.check(truth(g1 != g2) != e, '!= is the negation')
    if e:
        ctx.check(hash(g1) == hash(g2), 'equal elements hash alike')


@H(cases={f'{k}-{l}': dict(k=k, l=l) for k, l in MIX if k != 'orth' or l != 'orth'},
   bounds='strict order between two elements, 2D')
def order(ctx, k, l):
    Q = ctx.Q
    g1, R1, c1, a1 = pge(ctx, Q, '1', k, orth='orth' in (k, l))
    g2, R2, c2, a2 = pge(ctx, Q, '2', l, orth='orth' in (k, l))
    lt, gt = truth(g1 < g2), truth(g2 < g1)
    if truth(g1 == g2):
        ctx.check(not (lt or gt) if (k, l) not in (('sympy', 'float'), ('float', 'sympy')) else not (lt and gt),
                  'no strict order between equal elements')
    else:
        ctx.check(lt != gt, 'exactly one of a < b, b < a')
    if (c1, a1) != (c2, a2):
        ctx.check(lt == ((c1, a1) < (c2, a2)), 'ordered by flags first')
    else:
        i1, i2 = (truth(close(ctx, R, eye(ctx, 2))) for R in (R1, R2))
        if i1 and not i2:
            ctx.check(lt, 'identity first')


@H(bounds='transitivity for three integer 2D elements', max_paths=900)
def transitive(ctx):
    Q = ctx.Q
    gs = []
    mats = [INT[2][0], INT[2][5], INT[2][2], INT[2][3]]
    fl = [(False, False), (True, False)]
    for i in range(3):
        R = rot(ctx, 2, 'int', f'R{i}', mats)
        gs.append(Q.PointGroupElement(R, *fl[ctx.choose(f'f{i}', 2)]))
    a, b, c = gs
    if truth(a < b) and truth(b < c):
        ctx.check(truth(a < c), 'transitive')


@H(cases={f'n{n}-{"uu" if s else "u"}-{int(c)}': dict(n=n, s=s, conj=c) for n in (1, 2) for s in (True, False)
          for c in (False, True)},
   bounds='strict comparison, arbitrary 1x1 and 2x2 unitaries')
def strict(ctx, n, s, conj):
    Q = ctx.Q
    U1, W = ctx.unitary('U', n), ctx.unitary('W', n)
    U2 = U1 @ W
    g1 = Q.PointGroupElement(imat(ctx, INT[2][0]), conj, False, U1, _strict_eq=True)
    g2 = Q.PointGroupElement(imat(ctx, INT[2][0]), conj, False, U2, _strict_eq=s)
    goals = []
    for i in range(n):
        for j in range(n):
            goals.append(close(ctx, W[i, j], 0) if i != j else close(ctx, W[i, i], W[0, 0]))
    prop = f_and(goals)
    if n == 1:
        ctx.check(truth(g1 == g2), 'phases do not matter')
        return
    e = truth(g1 == g2)
    ctx.check(iff(e, prop), 'strict equality iff U equal up to a phase')


@H(bounds='strict comparison with U or V missing; equality up to an arbitrary phase', cases={str(int(c)): dict(conj=c) for c in (False, True)})
def strict2(ctx, conj):
    Q = ctx.Q
    R = imat(ctx, INT[2][0])
    U = ctx.unitary('U', 2)
    ph = ctx.phase('p')
    g = [Q.PointGroupElement(R, conj, False, u, _strict_eq=st) for u, st in
         ((U, True), (U * ph, False), (None, True), (None, True))]
    ctx.check(truth(g[0] == g[1]) and truth(g[1] == g[0]), 'equal up to a phase')
    ctx.check(not truth(g[0] == g[2]) and not truth(g[2] == g[1]), 'U and no U differ')
    ctx.check(truth(g[2] == g[3]), 'no U equals no U')
    ctx.check(hash(g[0]) == hash(g[1]), 'hash')
    other = Q.PointGroupElement(imat(ctx, INT[2][1]), conj, False, U, _strict_eq=True)
    ctx.check(not truth(g[0] == other), 'R is compared')


@H(bounds='sets of group elements: one representative per class, integer / exact / float spellings of one rotation')
def as_set(ctx):
    Q = ctx.Q
    i = ctx.choose('i', 2)
    m = SYMPY[2][i]
    fl = ctx.pybool('c'), ctx.pybool('a')
    a = Q.PointGroupElement(sympy.ImmutableMatrix(m), *fl)
    b = Q.PointGroupElement(const(ctx, np.array([[float(x) for x in r] for r in m])), *fl)
    c = Q.PointGroupElement(sympy.Matrix(m), *fl)
    ctx.check(len({a, b, c}) == 1, 'spellings of one element collapse in a set')
    z = [Q.PointGroupElement(r, *fl) for r in (imat(ctx, INT[2][0]), const(ctx, np.array(INT[2][0], dtype=float)),
                                               sympy.ImmutableMatrix(INT[2][0]))]
    ctx.check(len(set(z)) == 1, 'integer spellings collapse')
    ctx.check(len({a, z[0]}) == 2, 'different elements stay')


@H(cases={k: dict(k=k) for k in ('int', 'orth', 'sympy')}, bounds='the identity in every representation and any other 2D rotation with the same flags')
def identity_first(ctx, k):
    Q = ctx.Q
    fl = ctx.pybool('c'), ctx.pybool('a')
    kind = ctx.choose('kind', 3)
    one = [imat(ctx, INT[2][5]), const(ctx, np.eye(2)), sympy.eye(2)][kind]
    e = Q.PointGroupElement(one, *fl)
    g = Q.PointGroupElement(rot(ctx, 2, k, 'R', INT[2][:5] if k == 'int' else None), *fl)
    ctx.check(truth(e < g) and not truth(g < e), 'identity first')
    ctx.check(not truth(e < Q.PointGroupElement(imat(ctx, INT[2][5]), *fl)), 'not before itself')
    h = Q.PointGroupElement(g.R, True, fl[1])
    f = Q.PointGroupElement(one, False, fl[1])
    ctx.check(truth(f < h) and not truth(h < f), 'flags before rotation')
    h, f = Q.PointGroupElement(g.R, False, fl[1]), Q.PointGroupElement(one, True, fl[1])
    ctx.check(truth(h < f) and not truth(f < h), 'flags before identity')


@H(bounds='products, inverses and powers of elements of which at least one is strict; arbitrary 2x2 unitaries',
   cases={f'{int(c)}{int(s)}{int(t)}': dict(conj=c, s=s, t=t) for c in (False, True) for s, t in ((True, False), (False, True), (True, True))})
def strict_products(ctx, conj, s, t):
    Q = ctx.Q
    R1, R2 = imat(ctx, INT[2][0]), imat(ctx, INT[2][1])
    U1, U2, Z = ctx.unitary('U1', 2), ctx.unitary('U2', 2), const(ctx, np.diag([1., -1.]))
    g1 = Q.PointGroupElement(R1, conj, False, U1, _strict_eq=s)
    g2 = Q.PointGroupElement(R2, False, True, U2, _strict_eq=t)
    U12 = U1 @ (U2.conj() if conj else U2)
    R12 = np.array(INT[2][0]) @ np.array(INT[2][1])
    p = g1 * g2
    ctx.check(truth(p == Q.PointGroupElement(imat(ctx, R12), conj, True, U12)), 'equal')
    ctx.check(not truth(p == Q.PointGroupElement(imat(ctx, R12), conj, True, U12 @ Z)), 'products compare U')
    g = g1 if s else g2
    for q, nm in ((g.inv(), 'inverse'), (g ** 1, 'power'), (g ** -1, 'negative power')):
        ctx.check(not truth(q == Q.PointGroupElement(q.R, q.conjugate, q.antisymmetry, q.U @ Z)), nm + ' compares U')


@H(bounds='constructor defaults', cases={k: dict(k=k) for k in ('int', 'orth', 'sympy')})
def defaults(ctx, k):
    Q = ctx.Q
    R = rot(ctx, 2, k, 'R')
    g = Q.PointGroupElement(R)
    ctx.check(g.conjugate is False and g.antisymmetry is False and g.U is None, 'no conjugation, no antisymmetry, no U')
    ctx.check_eq(plain(ctx, g.R), plain(ctx, R), 'R')
    U, W = ctx.unitary('U', 2), ctx.unitary('W', 2)
    ctx.check(truth(Q.PointGroupElement(R, U=U) == Q.PointGroupElement(R, U=W)), 'U is not compared by default')
