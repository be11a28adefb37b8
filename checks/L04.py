"""nullspace: an orthonormal basis of the null space."""
from se.runner import Registry
from se import contracts
from .common import *

H = Registry()
STUBS = ['scipy.linalg.svd / scipy.linalg.qr / scipy.sparse.linalg.eigsh of a symbolic matrix: fresh factors with the facts of the factorisation theorem (se/contracts.py), forked over the rank']
ASSUMPTIONS = ['singular values are exactly zero or larger than the tolerance', 'every rank is explored; ranks the solver cannot exclude are kept']
OUTSIDE = 'matrices larger than 4x4 (dense) and 4 columns (sparse, 5 with k_max < 0); 12x12 for the growth of k_max (constant matrices)'


def mat(ctx, name, m, n, kind):
    if kind == 'real':
        return rmat(ctx, name, m, n)
    return ctx.matrix(name, (m, n))


def spec(ctx, A, ns, n0, label='', maxk=None, normal=False):
    """rows of ns are an orthonormal basis of {v: A v = 0}"""
    n = A.shape[1]
    k = len(ns)
    ctx.check(np.shape(ns) == (k, n), f'shape of the result {label}')
    ns = dense(ctx, ns) if not ctx.sym else AR.wrap(AR.as_objarr(ns))
    if k:
        if ctx.sym and normal:
            # equivalent to A v = 0 (norm of A v), and the form in which eigenvectors satisfy it
            ctx.check_eq((dag(ctx, A) @ A) @ ns.T, zeros(ctx, (n, k)), f'rows are null vectors {label}')
        else:
            ctx.check_eq(A @ ns.T, zeros(ctx, (A.shape[0], k)), f'rows are null vectors {label}', tol=1e-5)
    rec = contracts.calls(ctx)[n0:] if ctx.sym else []
    if ctx.sym:
        for r in rec:
            if isinstance(r, contracts.SVD):
                ctx.assume(r.orth())
    if k:
        ctx.check_eq(ns @ dag(ctx, ns), eye(ctx, k), f'rows are orthonormal {label}', tol=1e-6)
    if maxk is not None:
        ctx.check(k <= maxk, 'at most k_max vectors')
        if k == maxk:
            return
    # completeness: as many independent null vectors as the nullity
    if ctx.sym:
        rec = [r for r in rec if isinstance(r, (contracts.SVD, contracts.EIGH))]
        if not rec:
            ctx.check(ctx.implies(close(ctx, A, zeros(ctx, A.shape)), k == n), f'every null vector is a combination of the rows {label}')
            ctx.check(f_or([close(ctx, A, zeros(ctx, A.shape)), k < n]), f'a nonzero matrix does not annihilate everything {label}')
            return
        r = rec[-1]
        if isinstance(r, contracts.SVD):
            ctx.check(k == n - r.r, f'every null vector is a combination of the rows {label}')
        else:
            m = len(r.lam)
            ctx.check(ctx.And(*[to_sym(r.lam[i])._eq(Sym(0)) if i < k else ctx.Not(to_sym(r.lam[i])._eq(Sym(0))) for i in range(m)]) if k < m else False,
                      f'every null vector is a combination of the rows {label}')
    else:
        s = np.linalg.svd(np.asarray(A), compute_uv=False)
        rk = int(np.sum(s > 1e-5))
        if np.any((s > 1e-9) & (s < 1e-2)):
            return
        ctx.check(k == n - rk, f'every null vector is a combination of the rows {label}')


SH = [(1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (2, 3), (3, 2)]


@H(cases={f'{m}x{n}-{k}-{"c" if c else "n"}': dict(m=m, n=n, kind=k, comp=c) for m, n in SH for k in ('real', 'complex') for c in (False, True)
          if not (m * n > 4 and k == 'complex')}, time_limit=60,
   bounds='every real matrix up to 2x3 and 3x2 and every complex matrix up to 2x2 and 1x3, with and without return_complement, sparse=False or None')
def dense_ns(ctx, m, n, kind, comp):
    Q = ctx.Q
    A = mat(ctx, 'A', m, n, kind)
    n0 = len(contracts.calls(ctx)) if ctx.sym else 0
    r = Q.linalg.nullspace(A.copy(), return_complement=comp, **({'sparse': False} if ctx.pybool('explicit') else {}))
    if comp:
        ctx.check(isinstance(r, tuple) and len(r) == 2, 'null space and complement')
        ns, nsc = r
    else:
        ns = r
    spec(ctx, A, ns, n0)
    if comp:
        k = len(nsc)
        ctx.check(k + len(ns) == n and np.shape(nsc) == (k, n), 'dimensions add up')
        B = AR.wrap(AR.as_objarr(nsc)) if ctx.sym else np.asarray(nsc)
        N = AR.wrap(AR.as_objarr(ns)) if ctx.sym else np.asarray(ns)
        if k:
            ctx.check_eq(B @ dag(ctx, B), eye(ctx, k), 'complement is orthonormal', tol=1e-6)
        if k and len(ns):
            ctx.check_eq(B @ dag(ctx, N), zeros(ctx, (k, len(ns))), 'complement is orthogonal to the null space', tol=1e-6)
        if not k:
            ctx.check_eq(A, zeros(ctx, A.shape), 'only the zero matrix has no complement', tol=1e-6)


@H(cases={f'{m}x{n}-{k}-{c}': dict(m=m, n=n, kind=k, conv=c) for m, n in [(1, 3), (2, 3), (3, 3), (1, 4), (2, 4)] for k in ('real', 'complex') for c in ('csr', 'ndarray')
          if not (m * n > 3 and k == 'complex')}, time_limit=60,
   bounds='sparse algorithm on every real matrix up to 3x3 and 2x4 and complex 1x3, given as csr matrix or as array with sparse=True')
def sparse_ns(ctx, m, n, kind, conv):
    Q = ctx.Q
    A = mat(ctx, 'A', m, n, kind)
    B = Q.scipy.sparse.csr_matrix(A) if conv == 'csr' else A.copy()
    ctx.gap = 1e-3
    n0 = len(contracts.calls(ctx)) if ctx.sym else 0
    try:
        ns = Q.linalg.nullspace(B, **({} if conv == 'csr' else {'sparse': True}))
    except ValueError:
        # documented: only for null spaces of dimension larger than n - 3
        return too_large(ctx, A, n0)
    spec(ctx, A, ns, n0, normal=True)


def too_large(ctx, A, n0):
    n = A.shape[1]
    if ctx.sym:
        rec = [r for r in contracts.calls(ctx)[n0:]]
        ctx.check(bool(rec) and len(rec[-1].lam) == n - 2 and ctx.And(*[to_sym(x)._eq(Sym(0)) for x in rec[-1].lam]),
                  'only raises if the null space is larger than n - 3')
    else:
        s = np.linalg.svd(np.asarray(A), compute_uv=False)
        if np.any((s > 1e-9) & (s < 1e-2)):
            return
        ctx.check(n - int(np.sum(s > 1e-5)) > n - 3, 'only raises if the null space is larger than n - 3')


@H(cases={f'{k}': dict(k=k) for k in (1, 2)}, time_limit=60, bounds='k_max = 1, 2 for every real 2x4 matrix')
def sparse_kmax(ctx, k):
    Q = ctx.Q
    A = mat(ctx, 'A', 2, 4, 'real')
    B = Q.scipy.sparse.csr_matrix(A)
    ctx.gap = 1e-3
    n0 = len(contracts.calls(ctx)) if ctx.sym else 0
    ns = Q.linalg.nullspace(B, k_max=k)
    nonzero = f_not(close(ctx, A, zeros(ctx, A.shape)))
    if truth(nonzero):
        spec(ctx, A, ns, n0, maxk=k, normal=True)


@H(cases={f'{m}x{n}-{k}': dict(m=m, n=n, k=k) for m, n, k in [(2, 5, 1), (3, 5, 1), (3, 5, 2), (4, 5, 2)]}, time_limit=60,
   bounds='k_max = -1, -2: the number of requested eigenvectors grows; every real 2x5, 3x5 and 4x5 matrix')
def sparse_grow(ctx, m, n, k):
    Q = ctx.Q
    A = mat(ctx, 'A', m, n, 'real')
    B = Q.scipy.sparse.csr_matrix(A)
    ctx.gap = 1e-3
    n0 = len(contracts.calls(ctx)) if ctx.sym else 0
    try:
        ns = Q.linalg.nullspace(B, k_max=-k)
    except ValueError:
        return too_large(ctx, A, n0)
    spec(ctx, A, ns, n0, normal=True)


@H(cases={f'{m}x{n}-{k}-{q}-{c}': dict(m=m, n=n, kind=k, kmax=q, conv=c) for m, n, k, c in
          [(1, 1, 'real', 'csr'), (1, 1, 'complex', 'ndarray'), (2, 1, 'complex', 'csr'), (1, 2, 'real', 'ndarray'), (1, 2, 'complex', 'csr'), (2, 2, 'real', 'csr')] for q in (None, 1, 2, 3)}, time_limit=60,
   bounds='sparse=True with every real or complex matrix of up to 2x2 and every real 1x3, default k_max and k_max = 1, 2, 3')
def sparse_small(ctx, m, n, kind, kmax, conv):
    Q = ctx.Q
    A = mat(ctx, 'A', m, n, kind)
    B = Q.scipy.sparse.csr_matrix(A) if conv == 'csr' else A.copy()
    ctx.gap = 1e-3
    n0 = len(contracts.calls(ctx)) if ctx.sym else 0
    ns = Q.linalg.nullspace(B, **dict({} if kmax is None else {'k_max': kmax}, **({} if conv == 'csr' else {'sparse': True})))
    nonzero = f_not(close(ctx, A, zeros(ctx, A.shape)))
    if truth(nonzero):
        norm = ctx.sym and not any(isinstance(r, contracts.SVD) for r in contracts.calls(ctx)[n0:])
        spec(ctx, A, ns, n0, maxk=kmax, normal=norm)
    else:
        # (the whole space, also if k_max is smaller)
        spec(ctx, A, ns, n0)
