"""solve_mat_eqn: all solutions of X HL = HR X (or X^*)."""
from se.runner import Registry
from se import contracts
from .common import *
from se.sym import p_vars
from .L02 import member, tovec

H = Registry()
STUBS = ['scipy.linalg.svd / qr / scipy.sparse.linalg.eigsh of a symbolic matrix: fresh factors with the facts of the factorisation theorem (se/contracts.py), forked over the rank']
ASSUMPTIONS = ['singular values are exactly zero or larger than the tolerance', 'every rank is explored; ranks the solver cannot exclude are kept']
OUTSIDE = 'matrices larger than 2x2 (3x3 diagonal), more than 2 equations'


def cplx_member(ctx, dim, traceless):
    X = ctx.matrix('X', dim)
    if traceless:
        X[dim - 1, dim - 1] = -sum((X[i, i] for i in range(dim - 1)), 0 * X[0, 0])
    return X


def run(ctx, HL, HR, herm, tr, cj, sparse=False, default=False):
    Q = ctx.Q
    dim = HL[0].shape[0]
    m = len(HL)
    cjl = [cj] * m if isinstance(cj, bool) else cj
    real = herm or any(cjl)
    n0 = len(contracts.calls(ctx)) if ctx.sym else 0
    HR_ = HL if HR is None else HR
    L0, R0 = [h.copy() for h in HL], [h.copy() for h in HR_]
    csr = Q.scipy.sparse.csr_matrix
    if sparse:
        ctx.gap = 1e-4
        aL, aR = [csr(h) for h in HL], None if HR is None else [csr(h) for h in HR]
    else:
        aL, aR = HL, HR
    kw = {} if default else dict(hermitian=herm, traceless=tr, conjugate=cj)
    try:
        sols = Q.linalg.solve_mat_eqn(aL, aR, **kw)
    except ValueError:
        ctx.check(sparse, 'valid input rejected')
        return
    ctx.check(tuple(np.shape(sols)[1:]) == (dim, dim), 'shape of the solutions')
    for X in sols:
        X = wrap(ctx, X)
        for hl, hr, c in zip(HL, HR_, cjl):
            Xr = X.conj() if c else X
            d = X @ hl - hr @ Xr
            if sparse and ctx.sym:
                continue
            ctx.check_eq(d, zeros(ctx, (dim, dim)), 'solves X HL = HR X', tol=1e-4 if sparse else 1e-6)
        if herm:
            ctx.check_eq(dag(ctx, X), X, 'Hermitian solution')
        if tr:
            ctx.check_eq(AR.np_trace(X) if ctx.sym else np.trace(X), 0, 'traceless solution')
    # every solution is found
    X = member(ctx, dim, tr, False, False) if herm else cplx_member(ctx, dim, tr)
    n = dim * dim
    if ctx.sym:
        vs = sorted({v for x in np.asarray(X).reshape(-1) for v in p_vars(to_sym(x).n)})
        ctx.project([Sym.var(v) for v in vs], [e for hl, hr, c in zip(HL, HR_, cjl) for e in np.asarray(X @ hl - hr @ (X.conj() if c else X)).reshape(-1)])
        eq = ctx.And(*[close(ctx, X @ hl - hr @ (X.conj() if c else X), zeros(ctx, (dim, dim))) for hl, hr, c in zip(HL, HR_, cjl)])
        ctx.assume(eq)
        rec = [r for r in contracts.calls(ctx)[n0:] if isinstance(r, (contracts.SVD, contracts.EIGH))]
        nX = dim * dim - (1 if tr else 0)
        nr = nX * (1 if herm or not real else 2)         # unknowns of the linear system
        if nX == 0:
            ctx.check(len(sols) == 0, 'no traceless 1x1 matrix')
            return
        if not rec:
            # everything is a solution
            ctx.check(len(sols) == nr, 'all solutions are found')
            return
        r = rec[-1]
        if isinstance(r, contracts.SVD):
            ctx.assume(r.orth())
            ctx.check(len(sols) == r.A.shape[1] - r.r and r.A.shape[1] == nr, 'as many solutions as the nullity')
            # coordinates of X in the basis used for the linear system
            co = coords(ctx, X, tr, real and not herm, not real)
            f, lam = r.complete(co, 'c')
            ctx.assume(f)
            S = sum((wrap(ctx, s) * l for s, l in zip(sols, lam)), zeros(ctx, (dim, dim)))
            ctx.check_eq(S, X, 'every solution is a combination of the returned ones')
        else:
            k = len(sols)
            ctx.check(r.A.shape[0] == nr and k < len(r.lam), 'all solutions are found')
            ctx.check(ctx.And(*[to_sym(r.lam[i])._eq(Sym(0)) if i < k else ctx.Not(to_sym(r.lam[i])._eq(Sym(0))) for i in range(len(r.lam))]),
                      'as many solutions as zero eigenvalues')
        for a, b in zip(L0 + R0, list(HL) + list(HR_)):
            ctx.check_eq(b, a, 'arguments unchanged')
    else:
        import itertools
        # numerical solution space
        bas = [np.array(b, dtype=complex) for b in Q.linalg.matrix_basis(dim, traceless=tr)]
        bas = bas if herm else bas + [1j * b for b in bas]
        if not bas:
            ctx.check(len(sols) == 0, 'no traceless 1x1 matrix')
            return
        M = np.array([np.concatenate([tovec(b @ hl - hr @ (b.conj() if c else b)) for hl, hr, c in zip(HL, HR_, cjl)]) for b in bas]).T
        _, s, vh = np.linalg.svd(M)
        rk = int(np.sum(s > 1e-6))
        if np.any((s > 1e-9) & (s < 1e-2)):
            return
        null = [sum(v[i] * bas[i] for i in range(len(bas))) for v in vh[rk:]]
        S = list(sols) if real else list(sols) + [1j * s for s in sols]
        ctx.check(independent(S, 1e-4), 'solutions are independent')
        ctx.check(len(S) == len(null), 'all solutions are found')
        for X in null:
            ctx.check(in_span(X, S, 1e-4), 'every solution is a combination of the returned ones')


def coords(ctx, X, tr, both, cplx):
    """coordinates of X in the Hermitian basis (complex), or in Hermitian + antihermitian basis (real)"""
    dim = X.shape[0]
    Q = ctx.Q
    bas = [np.array([[complex(to_sym(x).cval()) for x in r] for r in dense(ctx, b)]) for b in Q.linalg.matrix_basis(dim, traceless=tr)]
    if both:
        bas = bas + [1j * b for b in bas]
    fl = list(np.asarray(X).reshape(-1))
    if cplx:
        G = np.linalg.pinv(np.array([b.ravel() for b in bas]).T)
        v = fl
    else:
        G = np.linalg.pinv(np.array([tovec(b) for b in bas]).T)
        v = [to_sym(x).real for x in fl] + [to_sym(x).imag for x in fl]
    z = lambda g: complex(round(g.real, 12), round(g.imag, 12)) if isinstance(g, (complex, np.complexfloating)) else float(round(g, 12))
    return [sum((to_sym(v[k]) * Sym(z(G[i, k])) for k in range(len(v))), Sym(0)) for i in range(len(bas))]


FLAGS = [(h, t, c) for h in (False, True) for t in (False, True) for c in (False, True)]
NM = lambda h, t, c: ('h' if h else '') + ('t' if t else '') + ('c' if c else '') or 'plain'


@H(cases={f'd{d}-{NM(*f)}': dict(dim=d, f=f) for d in (1, 2) for f in FLAGS}, time_limit=60, max_paths=60,
   bounds='one equation, every pair of complex 1x1 or 2x2 matrices, all flags')
def one(ctx, dim, f):
    HL, HR = [ctx.matrix('L', dim)], [ctx.matrix('R', dim)]
    run(ctx, HL, HR, *f)


@H(cases={f'{NM(*f)}': dict(f=f) for f in FLAGS if not f[2]}, time_limit=60, max_paths=60,
   bounds='HR = None: matrices commuting with every complex 2x2 matrix')
def commutant(ctx, f):
    run(ctx, [ctx.matrix('L', 2)], None, *f)


@H(cases={f'd{d}-{NM(*f)}-{"".join("ct"[not x] for x in cj)}': dict(dim=d, f=f, cj=cj) for d in (1,) for f in FLAGS[:4] if not f[2]
          for cj in ([False, True], [True, False], [True, True])}, time_limit=60, max_paths=60,
   bounds='two equations with individual conjugation flags; complex 1x1')
def two(ctx, dim, f, cj):
    HL, HR = [ctx.matrix(f'L{i}', dim) for i in range(2)], [ctx.matrix(f'R{i}', dim) for i in range(2)]
    if dim == 2:
        HL = [ctx.arr(np.array([[ctx.cplx(f'a{i}'), ctx.cplx(f'b{i}')], [0, ctx.cplx(f'c{i}')]], dtype=object if ctx.sym else complex)) for i in range(2)]
        HR = [ctx.arr(np.array([[ctx.cplx(f'd{i}'), 0], [ctx.cplx(f'e{i}'), ctx.cplx(f'f{i}')]], dtype=object if ctx.sym else complex)) for i in range(2)]
    run(ctx, HL, HR, f[0], f[1], cj)


@H(tiers=('thorough',), cases={f'd{d}-{NM(*f)}-{"".join("ct"[not x] for x in cj)}': dict(dim=d, f=f, cj=cj) for d in (2,) for f in FLAGS[:4] if not f[2]
          for cj in ([False, True], [True, False], [True, True])}, time_limit=60, max_paths=60,
   bounds='two equations with individual conjugation flags; complex triangular 2x2')
def two_general(ctx, dim, f, cj):
    HL, HR = [ctx.matrix(f'L{i}', dim) for i in range(2)], [ctx.matrix(f'R{i}', dim) for i in range(2)]
    if dim == 2:
        HL = [ctx.arr(np.array([[ctx.cplx(f'a{i}'), ctx.cplx(f'b{i}')], [0, ctx.cplx(f'c{i}')]], dtype=object if ctx.sym else complex)) for i in range(2)]
        HR = [ctx.arr(np.array([[ctx.cplx(f'd{i}'), 0], [ctx.cplx(f'e{i}'), ctx.cplx(f'f{i}')]], dtype=object if ctx.sym else complex)) for i in range(2)]
    run(ctx, HL, HR, f[0], f[1], cj)


def kind_ok(k, f, cj):
    return k == 'phases' or f[1] or cj == [False]


def diagsym(ctx, name, kind):
    if kind == 'phases':
        return ctx.arr(np.diag([ctx.phase(name + '0'), ctx.phase(name + '1')]))
    if kind == 'off':
        z = ctx.phase(name + '0') * 0
        return ctx.arr(np.array([[z, ctx.phase(name + '0')], [ctx.phase(name + '1'), z]]))
    return ctx.unitary(name, special=True)


@H(cases={f'{k}-{NM(*f)}-{"".join("tc"[x] for x in cj)}': dict(kind=k, f=f, cj=cj) for k in ('phases', 'off') for f in FLAGS[:4] if not f[2]
          for cj in ([False], [True], [False, True]) if kind_ok(k, f, cj)}, time_limit=60, max_paths=60,
   bounds='equations with at least one solution: HR = U HL U^-1 (U^*^-1) with any diagonal or off-diagonal unitary U and any complex 2x2 HL; 1 or 2 equations with individual conjugation')
def similar(ctx, kind, f, cj):
    U = diagsym(ctx, 'U', kind)
    HL = [ctx.matrix(f'L{i}', 2) for i in range(len(cj))]
    HR = [U @ h @ (U.T if c else dag(ctx, U)) for h, c in zip(HL, cj)]
    run(ctx, HL, HR, f[0], f[1], cj)


@H(cases={f'{NM(*f)}': dict(f=f) for f in FLAGS}, time_limit=60, max_paths=60,
   bounds='sparse algorithm, every pair of complex diagonal (+ one off-diagonal element) 2x2 matrices; raises for null spaces that are too large')
def sparse(ctx, f):
    a = [ctx.cplx(f'a{i}') for i in range(6)]
    L = ctx.arr(np.array([[a[0], 0], [0, a[1]]], dtype=object if ctx.sym else complex))
    R = ctx.arr(np.array([[a[2], a[3]], [0, a[4]]], dtype=object if ctx.sym else complex))
    run(ctx, [L], [R], *f, sparse=True)


@H(bounds='invalid input: lengths and shapes that do not match, non-square matrices')
def invalid(ctx):
    Q = ctx.Q
    s = Q.linalg.solve_mat_eqn
    A, B = ctx.matrix('A', 2), ctx.matrix('B', 3)
    C = ctx.matrix('C', (2, 3))
    ctx.check(raises(lambda: s([A], [A, A]), ValueError), 'different lengths')
    ctx.check(raises(lambda: s([A], [B]), ValueError), 'different shapes')
    ctx.check(raises(lambda: s([C], [C]), ValueError), 'not square')
    ctx.check(raises(lambda: s([A, A], [A, A], conjugate=[True]), ValueError), 'length of conjugate')
