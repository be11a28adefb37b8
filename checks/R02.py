"""kwant_rmt.circular: random scattering matrices of the ten symmetry classes."""
from se.runner import Registry
from .common import *
from .R01 import Rng, SYMS, big, conj, sx, sy, sz, s0

H = Registry()


class K:
    @staticmethod
    def p(sym):
        return 0 if sym not in P else -1 if sym in ('C', 'CI', 'CII') else 1

STUBS = ['random number generator: an object whose normal draws are symbolic real numbers and whose integer draws are case splits',
         'numpy.linalg.qr: any pair Q, R with A = Q R, Q unitary, R upper triangular']
ASSUMPTIONS = ['the matrix of draws is not singular']
OUTSIDE = 'n > 4; with n = 3, 4 the unitary factor is a product of rotations of pairs of channels'

T = {'AI': (1, None), 'BDI': (1, None), 'CI': (-1, sy), 'AII': (-1, None), 'DIII': (-1, None), 'CII': (1, sy)}
P = {'CI': (-1, sy), 'C': (1, sy), 'CII': (1, sy), 'D': (1, None), 'BDI': (1, None), 'DIII': (-1, None)}
CH = ('AIII', 'BDI', 'CII')


def relations(ctx, s, sym, n, charge=None):
    ctx.check(np.ndim(s) == 2 and s.shape == (n, n), 'shape')
    ctx.check_eq(dag(ctx, s) @ s, eye(ctx, n), 'unitary')
    for name, tab, f in (('time reversal', T, lambda x: x.T), ('particle-hole', P, lambda x: conj(ctx, x))):
        if sym in tab:
            sg, U = tab[sym]
            U = eye(ctx, n) if U is None else const(ctx, big(U, n))
            ctx.check_eq(U @ f(s) @ U * sg, s, name)
    if sym in CH:
        ctx.check_eq(dag(ctx, s), s, 'chiral')
    if charge is not None:
        if sym == 'D':
            ctx.check_eq(det(ctx, s), charge, 'determinant')
        elif sym == 'DIII':
            x = s * 1j
            pf = x[0, 1] if n == 2 else x[0, 1] * x[2, 3] - x[0, 2] * x[1, 3] + x[0, 3] * x[1, 2]
            ctx.check_eq(pf, charge, 'Pfaffian')
        else:
            c = charge * (2 if sym == 'CII' else 1)
            ctx.check_eq(sum(s[i, i] for i in range(n)), n - 2 * c, 'number of negative eigenvalues')


def sizes(sym, top):
    step = 2 if sym in ('CI', 'CII', 'C', 'AII', 'DIII') else 1
    return [n for n in range(1, top + 1) if n % step == 0]


def charges(sym, n):
    return {'D': (-1, 1), 'DIII': (-1, 1), 'AIII': range(n + 1), 'BDI': range(n + 1), 'CII': range(n // 2 + 1)}.get(sym, ())


def symplectic(ctx, g, n):
    U = const(ctx, big(sy, n))
    return (g + U @ conj(ctx, g) @ U) * 0.5


def draws2(ctx, sym, n):
    if K.p(sym) == -1:
        return draws(ctx, sym, su2(ctx, 'A'), *triangle(ctx, n, -1))
    if n > 2:
        return draws(ctx, sym, factor(ctx, sym, n), *triangle(ctx, n, K.p(sym), plain=True))
    rng = Rng(ctx)
    g = rng.randn(n, n)
    if K.p(sym) != 1:
        g = g + rng.randn(n, n) * 1j
    d = det(ctx, g)
    ctx.assume(f_not(to_sym(d)._eq(Sym(0))) if ctx.sym else abs(d) > 1e-9)
    rng.n = 0
    return rng


@H(cases={f'{s}-{n}-{q}': dict(sym=s, n=n, q=q) for s in SYMS for n in sizes(s, 2) for q in (None, *charges(s, n))},
   bounds='every draw; n = 1, 2')
def small(ctx, sym, n, q):
    ctx.exact_tol()
    rng = draws2(ctx, sym, n)
    s = ctx.Q.circular(n, sym, charge=q, rng=rng)
    relations(ctx, s, sym, n, q)


def fill(ctx, rows):
    return ctx.arr(np.array(rows, dtype=object if ctx.sym else complex))


def blocks(ctx, *bs):
    n = sum(b.shape[0] for b in bs)
    out = np.zeros((n, n), dtype=object if ctx.sym else complex)
    if ctx.sym:
        out[:] = Sym(0)
    o = 0
    for b in bs:
        k = b.shape[0]
        out[o:o + k, o:o + k] = b
        o += k
    return ctx.arr(out)


def kronr(ctx, R, n):
    """R x 1_n"""
    return fill(ctx, [[R[i // n, j // n] * (1 if i % n == j % n else 0) for j in range(R.shape[0] * n)] for i in range(R.shape[0] * n)])


def su2(ctx, name):
    return ctx.unitary(name, special=True)


def u1(ctx, name):
    return fill(ctx, [[ctx.phase(name)]])


def factor(ctx, sym, n):
    """element of O(n), U(n), USp(n)"""
    kind = K.p(sym)
    if kind == 1:
        one = fill(ctx, [[ctx.choose('sign', 2) * 2 - 1]])
        A = ctx.orthogonal('A', 2, det=1)
        if n == 3:
            return blocks(ctx, A, one) @ blocks(ctx, eye(ctx, 1), ctx.orthogonal('B', 2, det=1)) @ blocks(ctx, ctx.orthogonal('C', 2, det=1), eye(ctx, 1))
        p = [0, 2, 1, 3]
        M = np.asarray(blocks(ctx, ctx.orthogonal('B', 2, det=1), ctx.orthogonal('D', 2, det=1)))[p][:, p]
        return blocks(ctx, A, one, eye(ctx, 1)) @ ctx.arr(M)
    if kind == 0:
        if n == 3:
            return blocks(ctx, ctx.unitary('A'), u1(ctx, 'p')) @ blocks(ctx, eye(ctx, 1), ctx.orthogonal('B', 2, det=1)) @ blocks(ctx, su2(ctx, 'C'), eye(ctx, 1))
        p = [0, 2, 1, 3]
        M = np.asarray(blocks(ctx, ctx.orthogonal('B', 2, det=1), ctx.unitary('C')))[p][:, p]
        return blocks(ctx, ctx.unitary('A'), eye(ctx, 2)) @ ctx.arr(M)
    return blocks(ctx, su2(ctx, 'A'), su2(ctx, 'B')) @ kronr(ctx, ctx.orthogonal('C', 2, det=1), 2) @ blocks(ctx, su2(ctx, 'D'), eye(ctx, 2))


class Draws(Rng):
    """the normal draws make up the matrix U R"""

    def __init__(self, ctx, M, real):
        super().__init__(ctx)
        self.M = [M] if real else [re(ctx, M), im(ctx, M)]

    def randn(self, *shape):
        if not self.M or shape != self.M[0].shape:
            return super().randn(*shape)
        return self.M.pop(0)


def re(ctx, M):
    return M.real


def im(ctx, M):
    return M.imag


def triangle(ctx, n, kind, plain=False):
    """positive diagonal, and phases of the factorisation that is returned"""
    R = [[Sym(0) if ctx.sym else 0] * n for _ in range(n)]
    for i in range(n):
        if kind == -1 and i % 2:
            R[i][i] = R[i - 1][i - 1]
        else:
            R[i][i] = ctx.real(f'r{i}', lo=0.01)
    if kind != -1:
        R[0][n - 1] = ctx.real('t')
    elif n == 4:
        for i in range(2):
            R[i][i + 2] = R[0][2] if i else ctx.real('t')
    if plain:
        return fill(ctx, R), [1] * n
    ph = [(1 if ctx.choose(f'd{i}', 2) else -1) if kind == 1 or i else ctx.phase(f'd{i}') for i in range(n)]
    return fill(ctx, R), ph


def diag(ctx, d):
    n = len(d)
    return fill(ctx, [[d[i] if i == j else 0 for j in range(n)] for i in range(n)])


def draws(ctx, sym, U, R, ph):
    kind = K.p(sym)
    A = U @ R
    if kind == 1 and not ctx.sym:
        A = A.real
    D = diag(ctx, ph)
    ctx.hint('qr', A, (U @ D, dag(ctx, D) @ R))
    if kind == -1:
        # the symplectic part of the draws, and the rest
        n = len(ph)
        Z = fill(ctx, [[ctx.cplx('z') if (i, j) == (0, 1) else 0 for j in range(n)] for i in range(n)])
        A = A * (-0.5j) + (Z - symplectic(ctx, Z * 1j, n) * (-1j))
    return Draws(ctx, A, kind == 1)


@H(cases={f'{s}-{n}-{q}': dict(sym=s, n=n, q=q) for s in SYMS for n in sizes(s, 4) if n > 2 for q in (None, *charges(s, n))}, max_paths=100,
   bounds='n = 3, 4: unitary factors U(2)xU(1) O(2) SU(2) (n = 3), products of rotations of pairs (n = 4), every element of USp(4)')
def large(ctx, sym, n, q):
    ctx.exact_tol()
    U = factor(ctx, sym, n)
    R, ph = triangle(ctx, n, K.p(sym), plain=q is None and sym in CH)
    s = ctx.Q.circular(n, sym, charge=q, rng=draws(ctx, sym, U, R, ph))
    relations(ctx, s, sym, n, q)
    if sym in ('A', 'C') or sym == 'D' and q is None:
        ctx.check_eq(s, U, 'unitary factor with positive diagonal')


@H(cases={s: dict(sym=s) for s in SYMS}, bounds='charges -2 to n + 2, n up to 3')
def errors(ctx, sym):
    for n in (1, 2, 3):
        if n not in sizes(sym, 3):
            ctx.check(raises(lambda: ctx.Q.circular(n, sym, rng=Rng(ctx)), ValueError), f'{n}')
            continue
        if not charges(sym, n):
            continue
        for q in (-2, -1, 0, 0.5, 1, n // 2 + 1, n + 1, n + 2):
            if q not in charges(sym, n):
                rng = draws2(ctx, sym, n)
                ctx.check(raises(lambda: ctx.Q.circular(n, sym, charge=q, rng=rng), ValueError), f'{n} {q}')
    ctx.check(raises(lambda: ctx.Q.circular(2, 'E', rng=Rng(ctx)), ValueError), 'unknown class')
    ctx.check(raises(lambda: ctx.Q.circular(2, 'A', rng=[1]), ValueError), 'not a generator')


@H(cases={f'{s}-{n}-{q}': dict(sym=s, n=n, q=q) for s in SYMS for n in sizes(s, 2) for q in charges(s, n) or (None,)}, bounds='n = 1, 2')
def numpy_integers(ctx, sym, n, q):
    """size and charge may be numpy integers"""
    ctx.exact_tol()
    rng = draws2(ctx, sym, n)
    I = np.int64
    relations(ctx, ctx.Q.circular(I(n), sym, charge=None if q is None else I(q), rng=rng), sym, n, q)


@H(cases={f'{s}-{q}': dict(sym=s, q=q) for s in ('AII', 'CI', 'CII', 'DIII') for q in charges(s, 4) or (None,)}, bounds='n = 4')
def numpy_integers_large(ctx, sym, q):
    ctx.exact_tol()
    U = factor(ctx, sym, 4)
    R, ph = triangle(ctx, 4, K.p(sym), plain=True)
    I = np.int64
    s = ctx.Q.circular(I(4), sym, charge=None if q is None else I(q), rng=draws(ctx, sym, U, R, ph))
    relations(ctx, s, sym, 4, q)
