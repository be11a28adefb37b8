"""rref and sparse_basis: the reduced row echelon form."""
import warnings
from se.runner import Registry
from .common import *

H = Registry()
STUBS = ['np.round to one or more digits is the identity on symbolic values']
ASSUMPTIONS = ['every pivot candidate of the elimination is exactly zero or not within the rounding tolerance']
OUTSIDE = 'matrices larger than 2x3 / 3x2 (3x3 with zero patterns); numbers that are small but not zero'


def oracle(ctx, M):
    """independent Gauss-Jordan elimination -> (nonzero rows, pivot columns); forks on zero tests"""
    rows = [[M[i, j] for j in range(M.shape[1])] for i in range(M.shape[0])]
    out, piv = [], []
    todo = rows
    for j in range(M.shape[1]):
        p = None
        for i, r in enumerate(todo):
            x = r[j]
            # candidates are zero or well above the tolerance
            if ctx.sym:
                x = to_sym(x)
                if not x.is_const():
                    ctx.assume(f_or([x._eq(Sym(0)), Sym(1 / 64)._lt(x.abs2())]))
                if not truth(to_sym(x)._eq(Sym(0))):
                    p = i
                    break
            else:
                ctx.assume(abs(x) < 1e-9 or abs(x) > 0.1)
                if abs(x) > 1e-6:
                    p = i
                    break
        if p is None:
            continue
        r = todo.pop(p)
        r = [y / r[j] for y in r]
        todo = [[y - t[j] * z for y, z in zip(t, r)] for t in todo]
        out = [[y - t[j] * z for y, z in zip(t, r)] for t in out]
        out.append(r)
        piv.append(j)
    # pivots come out in increasing column order
    return out, piv


def arrm(ctx, rows, n):
    if not rows:
        return zeros(ctx, (0, n))
    return ctx.arr(np.array(rows, dtype=object)) if ctx.sym else np.array(rows, dtype=complex)


BIG = {'2x3f': (2, 3, 'r', None), '3x2f': (3, 2, 'r', None), '3x3f': (3, 3, 'r', 'xy0/zw1/0uv'.replace('1', '0'))}
PAT = {'2x2r': (2, 2, 'r', None), '1x3r': (1, 3, 'r', None), '3x1r': (3, 1, 'r', None), '2x3z': (2, 3, 'r', 'x0y/zwv'), '3x2z': (3, 2, 'r', 'x0/0y/zw'), '2x2c': (2, 2, 'c', 'xy/0z'),
       '1x2c': (1, 2, 'c', None), '2x3r': (2, 3, 'r', 'xyz/w0v'), '3x3z': (3, 3, 'r', 'x00/0yz/00w'), 'dep': (2, 3, 'r', 'dep'), 'dep3': (3, 2, 'r', 'dep')}


def inp(ctx, pat):
    m, n, kind, spec = PAT[pat]
    if spec == 'dep':
        a = [ctx.real(f'a{j}') for j in range(n)]
        f = [1] + [ctx.real(f'f{i}') for i in range(m - 1)]
        return arrm(ctx, [[x * g for x in a] for g in f], n)
    M = [[None] * n for _ in range(m)]
    sp = spec.split('/') if spec else None
    for i in range(m):
        for j in range(n):
            if sp and sp[i][j] == '0':
                M[i][j] = Sym(0) if ctx.sym else 0.0
            else:
                M[i][j] = ctx.real(f'm{i}{j}') if kind == 'r' else ctx.cplx(f'm{i}{j}')
    return arrm(ctx, M, n)


def separated(ctx, M):
    """entries are zero or comparable to one: |x| = 0 or 1/4 < |x| < 4"""
    fs = []
    for x in np.asarray(M).reshape(-1):
        if ctx.sym:
            x = to_sym(x)
            if x.is_const():
                continue
            fs.append(f_or([x._eq(Sym(0)), f_and([Sym(0.0625)._lt(x.abs2()), x.abs2()._lt(Sym(16))])]))
        else:
            fs.append(abs(x) == 0 or 0.25 < abs(x) < 4)
    ctx.assume(ctx.And(*fs))


def eqrows(ctx, got, want, label):
    ctx.check(np.shape(got)[0] == len(want), label + ': number of nonzero rows')
    if len(want) == np.shape(got)[0] and len(want):
        ctx.check_eq(got, want, label)


@H(cases={k: dict(pat=k) for k in PAT}, time_limit=60, max_paths=200, bounds='every real 1x3, 3x1, 2x2 matrix, every complex 1x2 and triangular 2x2 matrix, real 2x3, 3x2, 3x3 with some zeros, linearly dependent rows')
def reduced(ctx, pat):
    Q = ctx.Q
    M = inp(ctx, pat)
    separated(ctx, M)
    m, n = M.shape
    M0 = M.copy()
    red, S = Q.linalg.rref(M, return_S=True)
    red2 = Q.linalg.rref(M)
    ctx.check_eq(M, M0, 'argument unchanged')
    ctx.check_eq(red2, red, 'with and without S')
    ctx.check_eq(const_(ctx, S) @ M, red, 'red = S m')
    ctx.check(np.shape(S) == (m, m) and np.shape(red) == (m, n), 'shapes')
    d = det(ctx, const_(ctx, S))
    ctx.check(ctx.Not(to_sym(d)._eq(Sym(0))) if ctx.sym else abs(d) > 1e-9, 'S is invertible')
    want, piv = oracle(ctx, M)
    got = const_(ctx, red)
    ctx.check_eq(got, arrm(ctx, want + [[0 * M[0, 0]] * n] * (m - len(want)), n), 'reduced row echelon form')


def const_(ctx, a):
    return AR.wrap(AR.as_objarr(a)) if ctx.sym else np.asarray(a)


PAT_Q = list(PAT)
PAT.update(BIG)


@H(cases={k: dict(pat=k) for k in BIG}, tiers=('thorough',), max_paths=200, bounds='every real 2x3, 3x2 matrix, tridiagonal 3x3')
def reduced_more(ctx, pat):
    reduced(ctx, pat)


@H(cases={f'{k}-{"reals" if r else "plain"}': dict(pat=k, reals=r) for k in ('2x2r', '1x3r', '3x1r', '1x2c', 'dep', 'dep3', '3x2z') for r in (False, True)}, time_limit=60, max_paths=200,
   bounds='as above; reals=True treats real and imaginary parts as separate columns')
def sparse(ctx, pat, reals):
    Q = ctx.Q
    M = inp(ctx, pat)
    separated(ctx, M)
    m, n = M.shape
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        got = Q.linalg.sparse_basis(M, reals=reals)
    A = M
    if reals:
        re = AR.np_real(M) if ctx.sym else np.real(M)
        im = AR.np_imag(M) if ctx.sym else np.imag(M)
        A = AR.np_concatenate((re, im), 1) if ctx.sym else np.hstack((re, im))
    want, piv = oracle(ctx, A)
    if reals:
        want = [[r[j] + r[j + n] * 1j for j in range(n)] for r in want]
    if ctx.sym:
        eqrows(ctx, const_(ctx, got), arrm(ctx, want, n), 'rows of the reduced row echelon form')
    else:
        ctx.check(len(got) == len(want), 'number of rows')
        if len(want):
            ctx.check(bool(np.all(np.abs(got - np.array(want)) < 2e-3)), 'rows of the reduced row echelon form')
    ctx.check(bool(w) == (len(want) < m) or not ctx.sym, 'warns if rows were dropped')


@H(bounds='no rows')
def empty(ctx):
    e = []
    ctx.check(ctx.Q.linalg.sparse_basis(e) is e, 'empty list')
    r = ctx.Q.linalg.rref(const(ctx, np.zeros((2, 2))))
    ctx.check_eq(r, const(ctx, np.zeros((2, 2))), 'zero matrix')
