"""Group generation and subgroups."""
import functools
import itertools
import math
import sympy
from se.runner import Registry
from .common import *

H = Registry()
ASSUMPTIONS = ['closeness tests (np.allclose / np.isclose) are taken as exact equality in symbolic runs']
OUTSIDE = 'groups of more than 24 elements, subgroup lattices of groups other than those listed'


def key(g):
    return (tuple(tuple(int(x) for x in r) for r in np.array(g.R).tolist()), bool(g.conjugate), bool(g.antisymmetry))


@functools.lru_cache(maxsize=None)
def kmul(a, b):
    n = range(len(a[0]))
    return (tuple(tuple(sum(a[0][i][k] * b[0][k][j] for k in n) for j in n) for i in n), a[1] ^ b[1], a[2] ^ b[2])


def closure(gens):
    """independent closure over exact tuples"""
    gens = list(gens)
    out, todo = set(), list(gens)
    while todo:
        x = todo.pop()
        if x not in out:
            out.add(x)
            todo += [kmul(x, y) for y in gens]
    return out


INTG = {2: [INT[2][0], INT[2][1], INT[2][2], INT[2][5]], 'hex': [INT[2][4], INT[2][1], INT[2][5], [[-1, -1], [1, 0]]],
        3: [INT[3][0], INT[3][3], [[-1, 0, 0], [0, -1, 0], [0, 0, -1]], [[1, 0, 0], [0, -1, 0], [0, 0, -1]]]}


@H(cases={f'd{d}-n{n}': dict(dim=d, n=n) for d in (2, 'hex', 3) for n in (1, 2)}, max_paths=900,
   bounds='1 or 2 generators chosen from integer matrices, all flag combinations, given as set or list')
def integer(ctx, dim, n):
    Q = ctx.Q
    gens = []
    for i in range(n):
        R = imat(ctx, INTG[dim][ctx.choose(f'R{i}', len(INTG[dim]))])
        c = ctx.pybool(f'c{i}')
        gens.append(Q.PointGroupElement(R, c, ctx.pybool(f'a{i}') if i == 0 else c))
    ks = [key(g) for g in gens]
    want = closure(ks)
    if len(want) > 24:
        return
    arg = gens if n == 1 else set(gens)
    before = len(arg)
    G = Q.groups.generate_group(arg)
    ctx.check(isinstance(G, (set, frozenset)), 'a set')
    ctx.check(len(G) == len(want) and {key(g) for g in G} == want, 'the group generated')
    ctx.check(len(arg) == before, 'argument unchanged')
    ctx.check([key(g) for g in gens] == ks, 'generators unchanged')


def refl(ctx, m, name='M'):
    """reflection with any axis such that no image under C_m is an integer matrix, or an axis at a multiple of 15 degrees"""
    M = ctx.orthogonal(name, 2, det=-1)
    for p in range(m):
        R = cn(ctx, m, p) @ M
        ctx.nonint(R[0, 0])
    return M


def refl_special(ctx, name='M'):
    t = math.pi / 6 * ctx.choose(name, 6)
    return const(ctx, np.array([[math.cos(t), math.sin(t)], [math.sin(t), -math.cos(t)]]))


def cn(ctx, m, p=1):
    t = 2 * math.pi * p / m
    return const(ctx, np.array([[math.cos(t), -math.sin(t)], [math.sin(t), math.cos(t)]]))


def elements(ctx, G):
    return [(plain(ctx, g.R), bool(g.conjugate), bool(g.antisymmetry)) for g in G]


def has(ctx, els, R, c, a):
    """one of the elements is (R, c, a)"""
    return f_or([close(ctx, e[0], R) for e in els if e[1:] == (c, a)] + [False])


@H(cases={f'{m}{"r" if r else "m"}{"s" if sp else ""}': dict(m=m, r=r, special=sp) for m in (2, 3, 4, 6) for r in (False, True) for sp in (False, True) if sp or m in (2, 4)}, time_limit=60,
   bounds='dihedral groups of order 4 to 12 with any orientation (3-fold axes: multiples of 15 degrees; float R), generated by rotation + reflection or by two '
          'reflections; the reflection carries any flags')
def dihedral(ctx, m, r, special):
    Q = ctx.Q
    M = refl_special(ctx) if special else refl(ctx, m)
    C = cn(ctx, m)
    c, a = ctx.pybool('c'), ctx.pybool('a')
    g2 = Q.PointGroupElement(M, c, a)
    g1 = Q.PointGroupElement(C @ M, c, a) if r else Q.PointGroupElement(C)
    G = Q.groups.generate_group({g1, g2})
    ctx.check(len(G) == 2 * m, 'order')
    els = elements(ctx, G)
    for p in range(m):
        R = cn(ctx, m, p)
        ctx.check(has(ctx, els, R, False, False), f'rotation {p}')
        ctx.check(has(ctx, els, R @ M, c, a), f'reflection {p}')


@H(cases={f'{m}{"r" if r else "m"}': dict(m=m, r=r, special=False) for m in (3, 6) for r in (False, True)}, time_limit=300,
   tiers=('thorough',), bounds='dihedral groups with 3-fold axes and any orientation')
def dihedral3(ctx, m, r, special):
    dihedral(ctx, m, r, special)


@H(cases={str(m): dict(m=m) for m in (1, 2, 3, 4, 6)}, time_limit=60,
   bounds='cyclic group of a rotation by 2 pi / m with any unitary diag U (m-th power not necessarily 1) and any flags: '
          'members carry products of the generator')
def with_u(ctx, m):
    Q = ctx.Q
    U = ctx.arr(np.diag([ctx.phase('p'), ctx.phase('q')]))
    c, a = ctx.pybool('c'), ctx.pybool('a')
    g = Q.PointGroupElement(cn(ctx, m), c, a, U)
    G = Q.groups.generate_group({g})
    n = m if not (c or a) or m % 2 == 0 else 2 * m
    ctx.check(len(G) == n, 'order')
    els = list(G)
    for e in els:
        goals = []
        W, R = U, cn(ctx, m)
        for p in range(1, 2 * n + 1):
            if p > 1:
                W = W @ (U.conj() if c and p % 2 == 0 else U)
                R = cn(ctx, m, p)
            if (bool(c and p % 2), bool(a and p % 2)) == (bool(e.conjugate), bool(e.antisymmetry)):
                goals.append(f_and([close(ctx, plain(ctx, e.R), R), close(ctx, e.U, W)]))
        ctx.check(f_or(goals + [False]), 'element is a power of the generator')


GROUPS = {
    'C1': [([[1, 0], [0, 1]], 0, 0)],
    'C2v': [([[-1, 0], [0, 1]], 0, 0), ([[1, 0], [0, -1]], 0, 0)],
    'C4': [([[0, -1], [1, 0]], 0, 0)],
    'D4': [([[0, -1], [1, 0]], 0, 0), ([[1, 0], [0, -1]], 0, 0)],
    'C4T': [([[0, -1], [1, 0]], 1, 0)],
    'TPC': [([[1, 0], [0, 1]], 1, 0), ([[1, 0], [0, 1]], 1, 1)],
    'C2vTP': [([[-1, 0], [0, 1]], 1, 0), ([[1, 0], [0, -1]], 1, 1), ([[-1, 0], [0, -1]], 0, 0)],
    'D3': [([[0, -1], [1, -1]], 0, 0), ([[0, 1], [1, 0]], 0, 0)],
    'D3T': [([[0, -1], [1, -1]], 0, 0), ([[0, 1], [1, 0]], 1, 0)],
    'C6': [([[1, -1], [1, 0]], 0, 0)],
    'C6P': [([[1, -1], [1, 0]], 1, 1)],
    'D6': [([[1, -1], [1, 0]], 0, 0), ([[0, 1], [1, 0]], 0, 0)],
    'Th': [([[0, 0, -1], [-1, 0, 0], [0, -1, 0]], 0, 0), ([[-1, 0, 0], [0, -1, 0], [0, 0, 1]], 0, 0)],
    'ThT': [([[0, 0, 1], [1, 0, 0], [0, 1, 0]], 1, 0), ([[-1, 0, 0], [0, -1, 0], [0, 0, 1]], 0, 0)],
    'C4I': [([[0, -1, 0], [1, 0, 0], [0, 0, 1]], 0, 0), ([[-1, 0, 0], [0, -1, 0], [0, 0, -1]], 0, 0)],
}


def all_subgroups(el):
    """closures of all sets of at most 3 elements (enough up to order 15)"""
    out = {frozenset(closure([x])) for x in el}
    for _ in range(3):
        out |= {frozenset(closure(set(s) | {x})) for s in out for x in el if x not in s}
    return out


def tabulated(ctx, el):
    """point group elements that look up their products, which are those of the exact tuples"""
    P = ctx.Q.PointGroupElement
    table = {}

    class Tabulated(P):
        __slots__ = ('key', 'h')

        def __mul__(self, other):
            if isinstance(other, Tabulated):
                return table[kmul(self.key, other.key)]
            return P.__mul__(self, other)

        def __eq__(self, other):
            if isinstance(other, Tabulated):
                return self.key == other.key
            return P.__eq__(self, other)

        def __hash__(self):
            return self.h

    for k in el:
        g = Tabulated(imat(ctx, k[0]), k[1], k[2])
        g.key, g.h = k, P.__hash__(g)
        table[k] = g
    return set(table.values())


@H(cases={k: dict(k=k) for k in GROUPS}, time_limit=60,
   bounds='groups of order 1 to 24 with integer rotations, among them ones of two generators with subgroups that need three')
def subgroups(ctx, k):
    Q = ctx.Q
    ks = [(tuple(tuple(r) for r in R), bool(c), bool(a)) for R, c, a in GROUPS[k]]
    el = closure(ks)
    G = tabulated(ctx, el) if len(el) > 12 else {Q.PointGroupElement(imat(ctx, R), c, a) for R, c, a in el}
    subs = Q.groups.generate_subgroups(G)
    want = all_subgroups(el)
    got = {frozenset(key(g) for g in s): [key(g) for g in gens] for s, gens in subs.items()}
    ctx.check(len(got) == len(subs) and set(got) == want, 'all subgroups, each once')
    for s, gens in got.items():
        ctx.check(frozenset(closure(gens)) == s, 'generators generate the subgroup')
    ctx.check({key(g) for g in G} == el, 'argument unchanged')


@H(cases={f'{m}{"s" if sp else ""}': dict(m=m, special=sp) for m in (2, 3, 4) for sp in (False, True) if sp or m != 3}, time_limit=90,
   bounds='dihedral groups of any orientation (float R), reflections with any flags')
def subgroups_oriented(ctx, m, special):
    Q = ctx.Q
    M = refl_special(ctx) if special else refl(ctx, m)
    c, a = (ctx.pybool('c'), ctx.pybool('a')) if m == 2 else (False, ctx.pybool('a'))
    G = {Q.PointGroupElement(cn(ctx, m, p)) for p in range(m)} | {Q.PointGroupElement(cn(ctx, m, p) @ M, c, a) for p in range(m)}
    subs = Q.groups.generate_subgroups(G)
    # abstract dihedral group: (p, s) = C^p M^s
    mul = lambda x, y: ((x[0] + (-1) ** x[1] * y[0]) % m, x[1] ^ y[1])
    def clo(g):
        o, t = set(), list(g)
        while t:
            x = t.pop()
            if x not in o:
                o.add(x)
                t += [mul(x, y) for y in o] + [mul(y, x) for y in o]
        return frozenset(o)
    allel = [(p, s) for p in range(m) for s in (0, 1)]
    want = {clo([x, y]) for x in allel for y in allel}
    mats = {(p, s): (cn(ctx, m, p) @ M if s else cn(ctx, m, p), bool(s and c), bool(s and a)) for p, s in allel}

    def name(g):
        for e, (R, cc, aa) in mats.items():
            if (bool(g.conjugate), bool(g.antisymmetry)) == (cc, aa) and truth(close(ctx, plain(ctx, g.R), R)):
                return e
    got = [(frozenset(name(g) for g in s), [name(g) for g in gens]) for s, gens in subs.items()]
    ctx.check({s for s, _ in got} == want and len(got) == len(want), 'all subgroups, each once')
    for s, gens in got:
        ctx.check(clo(gens) == s, 'generators generate the subgroup')


@H(cases={f'{m}{"s" if sp else ""}': dict(m=m, special=sp) for m in (2, 3) for sp in (False, True) if sp or m == 2}, bounds='product of a cyclic group with reflections of any orientation and flags')
def set_product(ctx, m, special):
    Q = ctx.Q
    M = refl_special(ctx) if special else refl(ctx, m)
    c, a = ctx.pybool('c'), ctx.pybool('a')
    A = {Q.PointGroupElement(cn(ctx, m, p)) for p in range(m)}
    B = {Q.PointGroupElement(M, c, a), Q.groups.identity(2)}
    P = Q.groups.set_multiply(A, B)
    ctx.check(len(P) == 2 * m, 'number of products')
    els = elements(ctx, P)
    for p in range(m):
        ctx.check(has(ctx, els, cn(ctx, m, p) @ M, c, a), 'product')
        ctx.check(has(ctx, els, cn(ctx, m, p), False, False), 'product with identity')
    # order of the factors
    W = const(ctx, np.array([[0., 1.], [1., 0.]]))
    P = Q.groups.set_multiply({Q.PointGroupElement(M)}, {Q.PointGroupElement(W)})
    ctx.check_eq(plain(ctx, next(iter(P)).R), M @ W, 'order of factors')
    ctx.check(Q.groups.set_multiply(set(), A) == set() and Q.groups.generate_group(set()) == set(), 'empty sets')
