"""Symmetry operators from site permutations."""
import itertools
from collections import OrderedDict
from se.runner import Registry
from .common import *

H = Registry()
ASSUMPTIONS = ['closeness tests (np.allclose / np.isclose) are taken as exact equality in symbolic runs']
OUTSIDE = 'more than 4 sites, more than 2 orbitals per site'

CELLS = {
    'one': [('A', 2)], 'two': [('A', 1), ('B', 1)], 'two2': [('b', 2), ('a', 2)], 'mixed': [('A', 1), ('B', 2)],
    'three': [(0, 1), (1, 1), (2, 1)], 'three2': [('B', 2), ('A', 1), ('C', 2)], 'four': [(3, 1), ('x', 2), (1, 1), ((0, 0), 2)],
}
RS = [[[0, -1], [1, 0]], [[1, 0], [0, -1]]]


def perms(sites, norbs):
    for p in itertools.permutations(sites):
        if all(norbs[a] == norbs[b] for a, b in zip(sites, p)):
            yield dict(zip(sites, p))


def build(ctx, cell, perm, acts, form):
    """-> expected U, arguments"""
    n = sum(k for _, k in cell)
    off, o = {}, 0
    for s, k in cell:
        off[s], o = o, o + k
    nb = dict(cell)
    rows = [[0.0 for _ in range(n)] for _ in range(n)]
    for a, b in perm.items():
        for i in range(nb[a]):
            for j in range(nb[a]):
                rows[off[b] + i][off[a] + j] = acts[a][i, j]
    return rows


def mat_(ctx, rows):
    return ctx.arr(np.array(rows, dtype=object)) if ctx.sym else np.array(rows, dtype=complex)


@H(cases={f'{c}-{o}': dict(cell=c, onsite=o) for c in CELLS for o in ('none', 'dict', 'array')
          if o != 'array' or c not in ('mixed', 'three2', 'four')}, max_paths=300,
   bounds='1 to 4 sites with 1-2 orbitals each, every admissible permutation, any onsite matrices, both flags, dict, OrderedDict and tuple input')
def permutation(ctx, cell, onsite):
    Q = ctx.Q
    spec = CELLS[cell]
    sites = [s for s, _ in spec]
    nb = dict(spec)
    ps = list(perms(sites, nb))
    perm = ps[ctx.choose('perm', len(ps))]
    # order of the entries of perm does not matter
    if ctx.pybool('reversed'):
        perm = dict(reversed(list(perm.items())))
    c, a = (ctx.pybool('c'), ctx.pybool('a')) if len(ps) < 4 else (True, False)
    if onsite == 'none':
        arg = None
        acts = {s: eye(ctx, nb[s]) for s in sites}
    elif onsite == 'array':
        arg = ctx.matrix('u', spec[0][1])
        acts = {s: arg for s in sites}
    else:
        acts = {s: ctx.matrix(f'u{i}', nb[s]) for i, s in enumerate(sites)}
        arg = dict(acts)
    norbs = OrderedDict(spec) if ctx.pybool('od') else tuple(spec)
    R = imat(ctx, RS[ctx.choose('R', 2)])
    p0 = dict(perm)
    kw = {} if arg is None and ctx.pybool('omit') else dict(onsite_action=arg)
    g = Q.groups.symmetry_from_permutation(R, perm, norbs, antiunitary=c, antisymmetry=a, **kw)
    ctx.check_eq(plain(ctx, g.R), plain(ctx, R), 'R')
    ctx.check(bool(g.conjugate) == c and bool(g.antisymmetry) == a, 'flags')
    want = build(ctx, spec, perm, acts, None)
    ctx.check(tuple(g.U.shape) == (len(want), len(want)), 'shape of U')
    ctx.check_eq(g.U, mat_(ctx, want), 'U takes the orbitals of each site to its image')
    ctx.check(perm == p0 and (onsite != 'dict' or set(arg) == set(sites)), 'arguments unchanged')


@H(cases={c: dict(cell=c) for c in ('two', 'three', 'two2')}, max_paths=400, time_limit=60,
   bounds='product of two permutation symmetries with any unitary onsite actions acting on an orbital')
def homomorphism(ctx, cell):
    """U(g1 g2): orbitals go to the image of the image"""
    Q = ctx.Q
    spec = CELLS[cell]
    sites = [s for s, _ in spec]
    nb = dict(spec)
    ps = list(perms(sites, nb))
    p1, p2 = ps[ctx.choose('p1', len(ps))], ps[ctx.choose('p2', len(ps))]
    c1 = ctx.pybool('c1')
    mk = lambda t: {s: (ctx.arr(np.diag([ctx.phase(f'{t}{i}{j}') for j in range(nb[s])]))) for i, s in enumerate(sites)}
    u1, u2 = mk('p'), mk('q')
    f = Q.groups.symmetry_from_permutation
    g1 = f(imat(ctx, RS[0]), p1, spec, u1, antiunitary=c1)
    g2 = f(imat(ctx, RS[1]), p2, spec, u2)
    g = g1 * g2
    acts = {s: u1[p2[s]] @ (u2[s].conj() if c1 else u2[s]) for s in sites}
    want = build(ctx, spec, {s: p1[p2[s]] for s in sites}, acts, None)
    ctx.check_eq(g.U, mat_(ctx, want), 'product permutes with the composed permutation')


@H(bounds='inconsistent arguments')
def errors(ctx):
    Q = ctx.Q
    f = Q.groups.symmetry_from_permutation
    R = imat(ctx, RS[0])
    u = ctx.matrix('u', 1)
    bad = [({'A': 'B', 'B': 'A'}, (('A', 1), ('B', 2))), ({'A': 'A'}, (('A', 1), ('B', 1))), ({'A': 'B', 'B': 'B'}, (('A', 1), ('B', 1))),
           ({'A': 'C', 'B': 'A'}, (('A', 1), ('B', 1))), ({'A': 'B', 'B': 'A'}, (('A', 1),))]
    for p, n in bad:
        for o in (None, {'A': u, 'B': u}):
            ctx.check(raises(lambda: f(R, p, n, o), ValueError), f'rejected: {p} {n}')
