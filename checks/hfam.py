"""Shared oracle for functions that return the symmetric subspace of a family."""
import contextlib
from se import contracts
from .common import *

PAULI = [[[1, 0], [0, 1]], [[0, 1], [1, 0]], [[0, -1j], [1j, 0]], [[1, 0], [0, -1]]]


def cst(ctx, m):
    return const(ctx, np.array(m, dtype=complex))


@contextlib.contextmanager
def spy(ctx, mod, name):
    """records (family passed to the function, contract record of its last factorisation, result)"""
    out = []
    orig = getattr(mod, name)

    def f(symmetries, family, *a, **k):
        family = list(family)
        n0 = len(contracts.calls(ctx)) if ctx.sym else 0
        r = orig(symmetries, family, *a, **k)
        cl = contracts.calls(ctx)[n0:] if ctx.sym else []
        out.append((family, cl[-1] if cl else None, r))
        return r
    setattr(mod, name, f)
    try:
        yield out
    finally:
        setattr(mod, name, orig)


def points(dim, extra=0.83):
    return [dict({NAMES[q]: 0.37 * (j + 1) * (-1) ** (j * (q + 1)) + 0.11 * q for q in range(dim)}, a=extra) for j in range(6 if dim else 1)]


def num(ctx, x):
    if not ctx.sym:
        return np.asarray(x, dtype=complex)
    return np.array([to_sym(t).cval() for t in np.asarray(x, dtype=object).reshape(-1)], dtype=complex).reshape(np.shape(x))


def ri(v):
    return np.concatenate([np.real(v), np.imag(v)])


def symmetric_span(ctx, call, mod, oracle, images, dim, ks, env, shape, inner=None, label='', fn='constrain_family'):
    """call() returns a list of Models: a basis of the combinations of `oracle` for which the images vanish.
    oracle: list of functions env -> constant matrix function; images(Hf): list of matrices, Hf(kp) the function at momenta kp;
    inner(matrix): part of the matrices of the inner family that corresponds to the result"""
    n = len(oracle)
    inner = inner or (lambda m: m)

    def val(m, kp):
        return meval(ctx, m, dict(zip(NAMES, kp), a=env['a']))

    def at(kp):
        return dict(zip(NAMES, kp), a=env['a'])
    if ctx.sym:
        with spy(ctx, mod, fn) as recs:
            res = call()
    else:
        res = call()
    for i, m in enumerate(res):
        for d in images(lambda kp: val(m, kp)):
            ctx.check(kzero(ctx, d, list(ks) + [env['a']]), f'{label}member {i} has the symmetries')
    if ctx.sym:
        c = [ctx.real(f'{label}c{i}') for i in range(n)]
        Hc = lambda kp: sum((oracle[i](at(kp)) * c[i] for i in range(n)), zeros(ctx, shape))
        pts = points(dim)
        vec = lambda f: ri(np.concatenate([num(ctx, f({k: Sym(v) for k, v in p.items()})).ravel() for p in pts]))
        O = np.array([vec(o) for o in oracle]).T
        F = [[vec(lambda e, m=m: inner(meval(ctx, m, e))) for m in fam] for fam, _, _ in recs]
        FM = np.array([v for f in F for v in f]).T
        ctx.check(FM.shape[1] == n and np.linalg.matrix_rank(FM, tol=1e-8) == n, f'{label}the unconstrained family is independent')
        T = np.linalg.lstsq(FM, O, rcond=None)[0]
        ctx.check(bool(np.allclose(FM @ T, O)), f'{label}the unconstrained family is complete')
        T[abs(T) < 1e-12] = 0
        T = np.round(T, 10)
        ctx.assume(ctx.And(*[kzero(ctx, d, list(ks) + [env['a']]) for d in images(Hc)]))
        j, coef = 0, []
        for t, (fam, rec, r) in enumerate(recs):
            cp = [sum((c[l] * float(T[j + q, l]) for l in range(n) if T[j + q, l]), Sym(0)) for q in range(len(fam))]
            j += len(fam)
            if rec is None and len(r) == len(fam):
                coef += cp
            elif rec is None:
                # constant constraints were solved numerically
                V = np.array([vec(lambda e, m=m: inner(meval(ctx, m, e))) for m in r]).reshape(len(r), O.shape[0]).T
                ctx.check(not len(r) or np.linalg.matrix_rank(V, tol=1e-8) == len(r), f'{label}members are independent')
                W = np.round(np.linalg.pinv(V) @ np.array(F[t]).T, 10)
                coef += [sum((cp[q] * float(w[q]) for q in range(len(fam)) if w[q]), Sym(0)) for w in W]
            else:
                f, lam = rec.complete(cp, 'c')
                ctx.assume(f)
                coef += list(lam)
        ctx.check(len(res) == len(coef), f'{label}number of members')
        S = sum((val(m, ks) * l for m, l in zip(res, coef)), zeros(ctx, shape))
        ctx.check(kzero(ctx, S - Hc(ks), list(ks) + [env['a']]), f'{label}every symmetric combination is in the span')
    else:
        env = dict(env, a=0.83)
        pts = points(dim)
        kps = [[p[q] for q in NAMES[:dim]] for p in pts]
        at = lambda kp: dict(zip(NAMES, kp), a=0.83)
        cols = []
        for o in oracle:
            cols.append(np.concatenate([np.asarray(d).ravel() for kp in kps for d in images(lambda k: o(at(k)), kp)] or [np.zeros(1)]))
        M = np.array(cols).T
        M = np.vstack([M.real, M.imag])
        _, s, vh = np.linalg.svd(M)
        rk = int(np.sum(s > 1e-6))
        if np.any((s > 1e-9) & (s < 1e-4)):
            return res
        ctx.check(len(res) == n - rk, f'{label}number of members')
        ctx.check(len(res) == n - rk, f'{label}every symmetric combination is in the span')
        vecs = [np.concatenate([val(m, kp).ravel() for kp in kps]) for m in res]
        ctx.check(independent(vecs), f'{label}members are independent')
        for v in vh[rk:]:
            w = np.concatenate([sum(v[i] * oracle[i](at(kp)) for i in range(n)).ravel() for kp in kps])
            ctx.check(in_span(w, vecs), f'{label}every symmetric combination is in the span')
    return res
