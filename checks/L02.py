"""matrix_basis: spans the documented space, linearly independent."""
from se.runner import Registry
from .common import *

H = Registry()
ASSUMPTIONS = []
OUTSIDE = 'matrices larger than 4x4 (5x5 in the thorough tier)'


def member(ctx, dim, traceless, anti, real):
    """arbitrary element of the documented space"""
    M = [[None] * dim for _ in range(dim)]
    for i in range(dim):
        d = ctx.real(f'd{i}')
        M[i][i] = d * 1j if anti else d * (1 + 0j)
        if real and anti:
            M[i][i] = d * 0j
        for j in range(i + 1, dim):
            re, im = ctx.real(f'r{i}{j}'), ctx.real(f'i{i}{j}')
            z = re + im * 1j
            if real:
                z = re * (1 + 0j)
                M[i][j], M[j][i] = z, (-z if anti else z)
            else:
                M[i][j], M[j][i] = z, (-1 if anti else 1) * z.conjugate()
    if traceless:
        M[-1][-1] = -sum((M[i][i] for i in range(dim - 1)), 0 * M[0][0])
    return ctx.arr(np.array(M, dtype=object)) if ctx.sym else np.array(M, dtype=complex)


def tovec(B):
    return np.concatenate([np.real(B).ravel(), np.imag(B).ravel()])


FL = [(t, a, r) for t in (False, True) for a in (False, True) for r in (False, True)]
NM = lambda d, t, a, r: f'{d}' + ('t' if t else '') + ('a' if a else '') + ('r' if r else '')


def gen(ctx, dim, t, a, r):
    Q = ctx.Q
    sp = ctx.pybool('sparse')
    bas = list(Q.linalg.matrix_basis(dim, traceless=t, antihermitian=a, real=r, sparse=sp))
    if sp:
        ctx.check(all(hasattr(b, 'tocsr') for b in bas), 'sparse matrices are returned')
        bas = [b.toarray() for b in bas]
    ctx.check(all(np.shape(b) == (dim, dim) for b in bas), 'shape')
    bas = [dense(ctx, b) for b in bas]
    num = [np.array([[complex(x.cval() if ctx.sym else x) for x in row] for row in b]) for b in bas]
    M = member(ctx, dim, t, a, r)
    # coefficients of M: linear forms obtained from the pseudoinverse of the basis
    c = []
    if num:
        G = np.linalg.pinv(np.array([tovec(b) for b in num]).T)
        v = [M[i, j].real for i in range(dim) for j in range(dim)] + [M[i, j].imag for i in range(dim) for j in range(dim)]
        c = [sum((v[k] * float(np.round(G[i, k], 12)) for k in range(len(v))), 0 * v[0]) for i in range(len(num))]
    S = sum((b * x for b, x in zip(bas, c)), zeros(ctx, (dim, dim)))
    ctx.check_eq(S, M, 'every matrix of the space is a real combination of the basis')
    # combinations stay in the space
    q = [ctx.real(f'q{i}') for i in range(len(bas))]
    C = sum((b * x for b, x in zip(bas, q)), zeros(ctx, (dim, dim)))
    ctx.check_eq(dag(ctx, C), C * (-1 if a else 1), 'real combinations are (anti)Hermitian')
    if t:
        ctx.check_eq(np.trace(C) if not ctx.sym else AR.np_trace(C), 0, 'real combinations are traceless')
    if r:
        ctx.check_eq(np.imag(C) if not ctx.sym else AR.np_imag(C), zeros(ctx, (dim, dim)), 'real combinations are real')
    # independence over the complex numbers
    z = [ctx.cplx(f'z{i}') for i in range(len(bas))]
    Z = sum((b * x for b, x in zip(bas, z)), zeros(ctx, (dim, dim)))
    if ctx.sym:
        ctx.check(ctx.implies(close(ctx, Z, zeros(ctx, (dim, dim))), ctx.And(*[to_sym(x)._eq(Sym(0)) for x in z]) if z else True),
                  'basis is linearly independent')
    elif num:
        ctx.check(np.linalg.matrix_rank(np.array([b.ravel() for b in num])) == len(num), 'basis is linearly independent')


@H(cases={NM(d, *f): dict(dim=d, t=f[0], a=f[1], r=f[2]) for d in (1, 2, 3, 4) for f in FL}, time_limit=30,
   bounds='dimensions 1 to 4, every flag combination, dense and sparse; every matrix of the space and every coefficient')
def basis(ctx, dim, t, a, r):
    gen(ctx, dim, t, a, r)


@H(cases={NM(5, *f): dict(t=f[0], a=f[1], r=f[2]) for f in FL}, tiers=('thorough',), bounds='dimension 5')
def basis5(ctx, t, a, r):
    gen(ctx, 5, t, a, r)
