"""Shared generators for harnesses."""
import sympy
from se.util import *

NAMES = ['k_x', 'k_y', 'k_z']
h = sympy.Rational(1, 2)
s3 = sympy.sqrt(3)
INT = {1: [[[1]], [[-1]]],
       2: [[[0, -1], [1, 0]], [[0, 1], [1, 0]], [[-1, 0], [0, 1]], [[1, 1], [0, 1]], [[0, -1], [1, 1]], [[1, 0], [0, 1]]],
       3: [[[0, 0, 1], [1, 0, 0], [0, 1, 0]], [[0, -1, 0], [1, 0, 0], [0, 0, -1]], [[1, 0, 0], [0, 0, -1], [0, 1, 1]],
           [[1, 0, 0], [0, 1, 0], [0, 0, 1]]]}
SYMPY = {2: [[[h, -s3 / 2], [s3 / 2, h]], [[-h, s3 / 2], [s3 / 2, h]]],
         3: [[[-h, -s3 / 2, 0], [s3 / 2, -h, 0], [0, 0, 1]]]}


def Not_zero(ctx, x):
    if ctx.sym:
        return ctx.Not(to_sym(x)._eq(Sym(0)))
    return abs(x) > 1e-4


def imat(ctx, m):
    return np.array(m, dtype=int)


def rot(ctx, dim, kind, name='R', mats=None):
    """a rotation matrix: 'orth' any element of O(dim) that is not a signed permutation, 'int' / 'sympy' from lists"""
    if kind == 'orth':
        R = ctx.orthogonal(name, dim)
        if dim > 1:
            ctx.nonint(R[0, 0])
        return R
    if kind == 'int':
        m = mats or INT[dim]
        return imat(ctx, m[ctx.choose(name, len(m))])
    m = mats or SYMPY[dim]
    return sympy.ImmutableMatrix(m[ctx.choose(name, len(m))])


def kvals(ctx, dim, extra=('a',)):
    ks = [ctx.real(n) for n in NAMES[:dim]]
    env = dict(zip(NAMES, ks))
    for x in extra:
        env[x] = ctx.real(x)
    return ks, env


def eval_terms(ctx, terms, env, momenta=()):
    """sum of value * key over a list of (key, matrix)"""
    out = None
    for k, v in terms:
        k = sympy.sympify(k, locals={'e': sympy.Symbol('e', commutative=True)}) if isinstance(k, str) else k
        t = v * keyval(ctx, k, momenta, env)
        out = t if out is None else out + t
    return out


def req(ctx, R):
    return plain(ctx, R)


from functools import lru_cache


@lru_cache(None)
def SY(s):
    return sympy.sympify(s, locals={'e': sympy.Symbol('e', positive=True)})


def herm(ctx, name, n=2):
    """arbitrary Hermitian n x n matrix"""
    rows = [[None] * n for _ in range(n)]
    for i in range(n):
        rows[i][i] = ctx.real(f'{name}{i}{i}')
        for j in range(i + 1, n):
            z = ctx.cplx(f'{name}{i}{j}')
            rows[i][j], rows[j][i] = z, z.conjugate()
    return ctx.arr(np.array(rows, dtype=object)) if ctx.sym else np.array(rows, dtype=complex)


def rmat(ctx, name, n, m=None):
    """arbitrary real matrix"""
    rows = [[ctx.real(f'{name}{i}{j}') for j in range(m or n)] for i in range(n)]
    return ctx.arr(np.array(rows, dtype=object)) if ctx.sym else np.array(rows, dtype=float)
