"""Contracts of LAPACK factorisations for symbolic matrices.

A factorisation of a symbolic matrix returns fresh symbolic arrays together with
facts that hold for every result LAPACK may return (exact arithmetic).  The
numerical value of the fresh variables at a witness is computed with the real
library, so witnesses follow the same path in the real code.  Each call is
recorded in ``ctx.calls``; harnesses may use further consequences of the theorem
(completeness of a null space, orthonormality) through the record.
"""
import numpy as np
import scipy.linalg

from . import arr as AR
from .sym import Sym, SymBool, Unsupported, f_and, f_not, f_or, p_eval, to_sym


def _ev(x, env):
    n = p_eval(x.n, env)
    return n if x.d is None else n / p_eval(x.d, env)


def _numeric(ctx, a, fn):
    """cached numeric evaluation of fn(A(env))"""
    from .sym import p_vars
    flat = [to_sym(x) for x in np.asarray(a).reshape(-1)]
    shape = a.shape
    vs = set()
    for x in flat:
        vs |= p_vars(x.n)
        if x.d is not None:
            vs |= p_vars(x.d)
    vs = sorted(vs)
    memo = {}

    def get(env):
        k = tuple([env[v] for v in vs])
        r = memo.get(k)
        if r is None:
            if len(memo) > 50:
                memo.clear()
            r = memo[k] = fn(np.array([_ev(x, env) for x in flat], dtype=complex).reshape(shape))
        return r
    return get


class Fresh:
    def __init__(self, ctx, base):
        self.ctx, self.base, self.k = ctx, ctx._fresh(base), 0
        ctx.atoms[self.base] = self.base

    def real(self, get, facts=()):
        ctx = self.ctx
        v = f'{self.base}_{self.k}'
        self.k += 1
        ctx.kinds[v] = 'real'
        ctx.order.append(v)
        ctx.defs[v] = get
        try:
            ctx.env[v] = float(get(ctx.env))
        except Exception:
            ctx.env[v] = 0.0
            ctx.env_ok = False
        ctx.atom_facts[v] = []
        return Sym.var(v)

    def matrix(self, shape, get, real):
        out = np.empty(shape, dtype=object)
        names = []
        for idx in np.ndindex(*shape):
            re = self.real(lambda env, idx=idx: float(np.real(get(env)[idx])))
            if real:
                out[idx] = re
            else:
                im = self.real(lambda env, idx=idx: float(np.imag(get(env)[idx])))
                out[idx] = re + im * Sym(1j)
        return AR.wrap(out)


def attach(ctx, xs, fs):
    """facts that come with the variables occurring in xs"""
    from .sym import p_vars
    vs = set()
    for x in np.asarray(xs).reshape(-1):
        vs |= p_vars(to_sym(x).n)
    fs = [f for f in fs if isinstance(f, SymBool)]
    for v in vs:
        ctx.atom_facts.setdefault(v, []).extend(fs)


def eqs(a, b):
    a, b = np.broadcast_arrays(np.asarray(a, dtype=object), np.asarray(b, dtype=object))
    return [to_sym(x)._eq(to_sym(y)) for x, y in zip(a.reshape(-1), b.reshape(-1))]


class SVD:
    """A = U diag(s) Vh;  ns: null vectors (rows), nsc: the other right singular vectors"""

    def __init__(self, ctx, A, vh, s, r):
        self.ctx, self.A, self.vh, self.s, self.r = ctx, A, vh, s, r

    @property
    def ns(self):
        return AR.np_conj(self.vh)[self.r:]

    @property
    def nsc(self):
        return AR.np_conj(self.vh)[:self.r]

    def orth(self):
        """right singular vectors are orthonormal"""
        n = self.vh.shape[0]
        g = AR.np_dot(self.vh, AR.np_conj(self.vh).T)
        h = AR.np_dot(AR.np_conj(self.vh).T, self.vh)
        return f_and(eqs(g, AR.np_eye(n)) + eqs(h, AR.np_eye(n)))

    def rows(self):
        """A = (A nsc^T) conj(nsc): the rows of A are in the span of the singular vectors"""
        return f_and(eqs(AR.np_dot(AR.np_dot(self.A, self.nsc.T), AR.np_conj(self.nsc)), self.A))

    def complete(self, c, name):
        """A c = 0  =>  c is a combination of the null vectors; -> (formula, coefficients)"""
        ctx = self.ctx
        ns = self.ns
        k = len(ns)
        get = _numeric(ctx, AR.wrap(np.array(list(np.asarray(ns).reshape(-1)) + list(c), dtype=object)),
                       lambda v: v[:-len(c)].reshape(k, -1).conj() @ v[-len(c):] if k else np.zeros(0))
        lam = Fresh(ctx, 'lam').matrix((k,), get, _isreal(self.A) and all(to_sym(x).is_real() for x in c))
        comb = [sum((lam[i] * ns[i, j] for i in range(k)), Sym(0)) for j in range(len(c))]
        Ac = AR.np_dot(self.A, AR.wrap(np.array(list(c), dtype=object)))
        f = f_or([f_not(f_and(eqs(Ac, 0))), f_and(eqs(AR.wrap(np.array(comb, dtype=object)), AR.wrap(np.array(list(c), dtype=object))))])
        return f, lam


def _isreal(A):
    return all(to_sym(x).is_real() for x in np.asarray(A).reshape(-1))


def calls(ctx):
    return ctx.__dict__.setdefault('calls', [])


def hinted(ctx, kind, A):
    """result that the harness chose for this matrix (the harness parametrises all results of the factorisation)"""
    for k, M, r in getattr(ctx, 'hints', ()):
        if k == kind and M.shape == A.shape and all(to_sym(x)._eq(to_sym(y)) is True for x, y in zip(np.asarray(M).reshape(-1), np.asarray(A).reshape(-1))):
            return r
    return None


class Unused:
    """left singular vectors of a large matrix: not encoded"""
    def __init__(self, shape):
        self.shape, self.ndim = shape, 2

    def _no(self, *a, **k):
        raise Unsupported('left singular vectors of a large matrix')
    __getitem__ = __array__ = __matmul__ = __rmatmul__ = __mul__ = __rmul__ = __iter__ = __len__ = _no

    def __getattr__(self, name):
        self._no()


def svd(ctx, A, full_matrices=True, compute_uv=True, **k):
    m, n = A.shape
    h = hinted(ctx, 'svd', A)
    if h is not None:
        u, s, vh = h
        s = AR.wrap(np.array(list(s), dtype=object))
        return (u, s, vh) if compute_uv else s
    real = _isreal(A)

    def f(v):
        if real:
            v = v.real
        return scipy.linalg.svd(v, full_matrices=True)
    num = _numeric(ctx, A, f)
    fr = Fresh(ctx, 'svd')
    q = min(m, n)
    s = [fr.real(lambda env, i=i: float(num(env)[1][i])) for i in range(q)]
    for i in range(q):
        ctx.atom_facts[_v(s[i])] += [f for f in [Sym(0)._le(s[i])] + ([s[i]._le(s[i - 1])] if i else []) if isinstance(f, SymBool)]
    # rank: fork on the singular values
    zero = [to_sym(x)._eq(Sym(0)) for x in A.reshape(-1)]
    if q:
        allz = f_and(zero)
        if allz is False or (isinstance(allz, SymBool) and ctx.facts_known.get(allz.key()) is False):
            ctx.assume(Sym(0)._lt(s[0]))
    k = exact_null(ctx, A, num)
    basis = row_hint(ctx, A, num) if k is None else None
    if basis is not None:
        k = n - len(basis)
    if k is None and q == 1:
        # a single row or column: the rank is 0 iff it vanishes
        k = n if truth_of(allz) else n - 1
    if k is not None:
        r = n - k
        for i in range(r):
            ctx.assume(Sym(0)._lt(s[i]))
        for i in range(r, q):
            ctx.assume(s[i]._eq(Sym(0)))
    else:
        r = 0
        while r < q and not bool(s[r]._eq(Sym(0))):
            r += 1
    if r == 0:
        for z in zero:
            ctx.assume(z)
    s = s[:r] + [Sym(0)] * (q - r)
    s = AR.wrap(np.array(s, dtype=object))
    if not compute_uv:
        return s
    # singular vectors of nonzero singular values are in the row space of A: zero columns of A give zero
    # components, equal or opposite columns give equal or opposite components
    cols = [[_key(A[i, j]) for i in range(m)] for j in range(n)]
    neg = [[_key(-to_sym(A[i, j])) for i in range(m)] for j in range(n)]
    zero_col = [all(to_sym(A[i, j])._eq(Sym(0)) is True for i in range(m)) for j in range(n)]
    rep = {}
    for j in range(n):
        for j2 in range(j):
            if j2 not in rep and not zero_col[j]:
                if cols[j] == cols[j2]:
                    rep[j] = (j2, 1)
                    break
                if cols[j] == neg[j2]:
                    rep[j] = (j2, -1)
                    break
    vh = np.empty((n, n), dtype=object)
    nh = null_hint(ctx, A, n - r, num, real) if r < n else None
    if nh is None and r == 0 and n == 1:
        # every vector is a null vector
        nh = unitary_atoms(ctx, lambda env: num(env)[2], 1, real)
    for i in range(r, n):
        vh[i] = nh[i - r] if nh is not None else fr.matrix((n,), lambda env, i=i: num(env)[2][i], real)
    if basis is not None:
        # all orthonormal bases of the row space, from a known one
        def get(env):
            Bv = np.array([[_ev(to_sym(x), env) for x in row] for row in basis], dtype=complex).reshape(r, n)
            return np.conj(num(env)[2][:r]) @ Bv.conj().T
        rs = AR.np_conj(AR.np_dot(unitary_atoms(ctx, get, r, real and _isreal(basis)), basis)) if r else []
        for i in range(r):
            vh[i] = rs[i]
    for i in range(r if basis is None else 0):
        for j in range(n):
            if zero_col[j]:
                vh[i, j] = Sym(0)
            elif j in rep:
                vh[i, j] = vh[i, rep[j][0]] * Sym(rep[j][1])
            else:
                vh[i, j] = fr.matrix((1,), lambda env, i=i, j=j: num(env)[2][i, j:j + 1], real)[0]
    vh = AR.wrap(vh)
    rec = SVD(ctx, A, vh, s, r)
    for i in range(r, n):
        attach(ctx, vh[i], eqs(AR.np_dot(A, AR.np_conj(vh[i])), 0))
    calls(ctx).append(rec)
    if m > 12:
        # only the right singular vectors of large systems of equations matter
        return Unused((m, m if full_matrices else q)), s, vh if full_matrices else vh[:q]
    u = fr.matrix((m, m), lambda env: num(env)[0], real)
    rec.u = u
    # A Vh^+ = U S
    for i in range(r):
        attach(ctx, u[:, i], eqs(AR.np_dot(A, AR.np_conj(vh[i])), u[:, i] * s[i]))
    if not full_matrices:
        u, vh = u[:, :q], vh[:q]
    return u, s, vh


def truth_of(f):
    return bool(f) if isinstance(f, SymBool) else bool(f)


def _annihilates(A, B):
    return B.shape[1] == A.shape[1] and all(to_sym(x)._eq(Sym(0)) is True for x in np.asarray(AR.np_dot(A, B.T)).reshape(-1))


def exact_null(ctx, A, num):
    """dimension of the null space if the harness knows it (hint 'null!'); the rank at the witness has to agree"""
    for kind, B, _ in getattr(ctx, 'hints', ()):
        if kind == 'null!' and _annihilates(A, B):
            try:
                if not ctx.env_ok:
                    env = ctx.find_env(list(ctx.path))
                    if env is not None:
                        ctx.env, ctx.env_ok = env, True
                env = ctx.env if ctx.env_ok else None
                if env is None:
                    # a sign or phase that LAPACK does not return here: a point that satisfies the conditions on the inputs
                    env = ctx.find_env([f for f in ctx.path if '@' not in str(f)])
                ok = env is not None and int(np.sum(num(env)[1] > 1e-9)) == A.shape[1] - len(B)
            except Exception:
                ok = False
            if ok:
                return len(B)
    return None


def row_hint(ctx, A, num):
    """orthonormal basis of the row space if the harness knows it (hint 'rows'); the rank at the witness has to agree"""
    for kind, B, _ in getattr(ctx, 'hints', ()):
        if kind != 'rows' or B.shape[1] != A.shape[1]:
            continue
        P = AR.np_dot(AR.np_dot(A, AR.np_conj(B).T), B) if len(B) else AR.wrap(np.full(A.shape, Sym(0), dtype=object))
        if not all((to_sym(x) - to_sym(y))._eq(Sym(0)) is True for x, y in zip(np.asarray(P).reshape(-1), np.asarray(A).reshape(-1))):
            continue
        try:
            if not ctx.env_ok:
                env = ctx.find_env(list(ctx.path))
                if env is not None:
                    ctx.env, ctx.env_ok = env, True
            env = ctx.env if ctx.env_ok else ctx.find_env([f for f in ctx.path if '@' not in str(f)])
            if env is not None and int(np.sum(num(env)[1] > 1e-9)) == len(B):
                return B
        except Exception:
            pass
    return None


def null_hint(ctx, A, k, num, real):
    """all orthonormal bases of the null space, from a known one"""
    for kind, B, fixed in getattr(ctx, 'hints', ()):
        if kind == 'null!' and fixed and len(B) == k and _annihilates(A, B):
            return AR.np_conj(B)
        if kind in ('null', 'null!') and len(B) == k and _annihilates(A, B):
            n = A.shape[1]
            rl = real and _isreal(B)

            def get(env):
                V = np.conj(num(env)[2][n - k:])
                Bv = np.array([[_ev(to_sym(x), env) for x in row] for row in B], dtype=complex)
                return V @ Bv.conj().T
            if k == 1 and rl:
                f = Fresh(ctx, 'sg').real(lambda e: 1.0 if np.real(get(e)[0, 0]) >= 0 else -1.0)
                W = AR.wrap(np.array([[Sym(1) if bool(Sym(0)._lt(f)) else Sym(-1)]], dtype=object))
            else:
                W = unitary_atoms(ctx, get, k, rl)
            return AR.np_conj(AR.np_dot(W, B))
    return None


def _v(x):
    return next(iter(x.n))[0][0][0]


# ------------------------------------------------------------ unitary matrices
def unitary_atoms(ctx, get, n, real, base='W'):
    """Fresh arbitrary element of U(n) / O(n) whose value at a witness is get(env)."""
    fr = Fresh(ctx, base)
    if n == 0:
        return AR.wrap(np.empty((0, 0), dtype=object))
    if n == 1 or (n == 2 and real) or (n == 3 and real):
        pass
    if real:
        def sgn(env):
            return 1.0 if np.linalg.det(np.real(get(env))) >= 0 else -1.0
        s = fr.real(sgn)
        S_REDUCE(ctx, s, {(((), ())): 1 + 0j})
        if n == 1:
            return AR.wrap(np.array([[s]], dtype=object))
        if n == 2:
            c, d = fr.real(lambda e: float(np.real(get(e)[0, 0]))), fr.real(lambda e: float(np.real(get(e)[1, 0])))
            _sphere(ctx, [c, d])
            return AR.wrap(np.array([[c, -d * s], [d, c * s]], dtype=object))
        if n == 3:
            def quat(e):
                from scipy.spatial.transform import Rotation
                M = np.real(get(e)) * sgn(e)
                x, y, z, w = Rotation.from_matrix(M).as_quat()
                return w, x, y, z
            w, x, y, z = [fr.real(lambda e, i=i: float(quat(e)[i])) for i in range(4)]
            _sphere(ctx, [w, x, y, z])
            m = np.array([[1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)],
                          [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
                          [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]], dtype=object)
            return AR.wrap(np.array([[s * v for v in r] for r in m], dtype=object))
    elif n == 1:
        t = fr.real(lambda e: float(np.angle(get(e)[0, 0])))
        return AR.wrap(np.array([[(t * Sym(1j)).exp()]], dtype=object))
    elif n == 2:
        ar, ai = fr.real(lambda e: float(np.real(get(e)[0, 0]))), fr.real(lambda e: float(np.imag(get(e)[0, 0])))
        br, bi = fr.real(lambda e: float(np.real(get(e)[0, 1]))), fr.real(lambda e: float(np.imag(get(e)[0, 1])))
        _sphere(ctx, [ar, ai, br, bi])
        t = fr.real(lambda e: float(np.angle(np.linalg.det(get(e)))))
        p = (t * Sym(1j)).exp()
        a, b = ar + ai * Sym(1j), br + bi * Sym(1j)
        return AR.wrap(np.array([[a, b], [-b.conjugate() * p, a.conjugate() * p]], dtype=object))
    # general: fresh entries with orthonormality facts
    W = fr.matrix((n, n), get, real)
    fs = eqs(AR.np_dot(W, AR.np_conj(W).T), AR.np_eye(n)) + eqs(AR.np_dot(AR.np_conj(W).T, W), AR.np_eye(n))
    attach(ctx, W, fs)
    return W


def S_REDUCE(ctx, x, p):
    from . import sym as S
    from .sym import p_add
    v = _v(x)
    S.REDUCE[v] = p
    ctx.atom_facts.setdefault(v, []).append(SymBool('eq0', (p_add({(((v, 2),), ()): 1 + 0j}, p, -1),)))


def _sphere(ctx, xs):
    from . import sym as S
    from .sym import p_add, p_const
    vs = [_v(x) for x in xs]
    p = p_const(1)
    for o in vs[1:]:
        p = p_add(p, {(((o, 2),), ()): 1 + 0j}, -1)
    S.REDUCE[vs[0]] = p
    f = SymBool('eq0', (p_add({(((vs[0], 2),), ()): 1 + 0j}, p, -1),))
    for o in vs:
        ctx.atom_facts.setdefault(o, []).append(f)


def charpoly(A):
    """coefficients c[0]=1, c[1], ... of det(x - A) (Faddeev-LeVerrier)"""
    n = A.shape[0]
    if n > 4:
        return None
    M = AR.np_zeros((n, n))
    c = [Sym(1)]
    for k in range(1, n + 1):
        M = AR.np_dot(A, M) + AR.np_eye(n) * c[-1]
        c.append(to_sym(AR.np_trace(AR.np_dot(A, M))) * Sym(-1.0 / k))
    return c


def _herm(A):
    """the matrix LAPACK uses: lower triangle"""
    n = A.shape[0]
    out = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            x = to_sym(A[i, j] if i >= j else A[j, i])
            out[i, j] = x.real if i == j else (x if i > j else x.conjugate())
    return AR.wrap(out)


def hermitian_spectrum(ctx, A, fr, num):
    """ascending eigenvalues of a Hermitian matrix"""
    n = A.shape[0]
    c = charpoly(A)
    if c is not None and all(to_sym(x).is_const() for x in c):
        r = np.sort(np.real(np.roots([to_sym(x).cval() for x in c])))
        # repeated roots are inexact
        ev = num(ctx.env) if ctx.env_ok else None
        if ev is not None and np.allclose(ev, r, atol=1e-4):
            r = ev
        return [Sym(float(np.round(x, 12))) for x in r]
    if n == 1:
        return [to_sym(A[0, 0])]
    lam = [fr.real(lambda e, i=i: float(num(e)[i])) for i in range(n)]
    fs = [lam[i]._le(lam[i + 1]) for i in range(n - 1)]
    fs = [f for f in fs if isinstance(f, SymBool)]
    if c is not None:
        for k in range(1, n + 1):
            e = Sym(0)
            import itertools
            for comb in itertools.combinations(lam, k):
                t = Sym(1)
                for x in comb:
                    t = t * x
                e = e + t
            f = e._eq(to_sym(c[k]) * (1 if k % 2 == 0 else -1))
            if isinstance(f, SymBool):
                fs.append(f)
    # a Hermitian matrix with a single eigenvalue is a multiple of the identity
    same = lam[0]._eq(lam[-1])
    fs.append(f_or([f_not(same), f_and(eqs(A, AR.np_eye(n) * lam[0]))]))
    fs = [f for f in fs if isinstance(f, SymBool)]
    for x in lam:
        ctx.atom_facts[_v(x)] += fs
    return lam


class EIGH:
    def __init__(self, A, lam, W):
        self.A, self.lam, self.W = A, lam, W


def eigh(ctx, A, b=None, eigvals_only=False, **k):
    A = _herm(A)
    n = A.shape[0]
    h = hinted(ctx, 'eigh', A)
    if h is not None:
        lam, W = h
        for i in range(n - 1):
            ctx.assume(to_sym(lam[i])._le(to_sym(lam[i + 1])))
        calls(ctx).append(EIGH(A, lam, W))
        lam = AR.wrap(np.array(list(lam), dtype=object))
        return lam if eigvals_only else (lam, W)
    real = _isreal(A)
    if n > 1 and all(to_sym(A[i, j])._eq(Sym(0)) is True for i in range(n) for j in range(n) if i != j):
        # eigenvectors of a diagonal matrix: a permutation
        o = [int(i) for i in AR.np_argsort(AR.wrap(np.array([A[i, i] for i in range(n)], dtype=object)))]
        W = AR.wrap(AR.as_objarr(np.eye(n)[:, o]))
        lam = [to_sym(A[i, i]) for i in o]
        calls(ctx).append(EIGH(A, lam, W))
        lam = AR.wrap(np.array(lam, dtype=object))
        return lam if eigvals_only else (lam, W)
    if n == 2 and eigvals_only:
        # closed form: matrices with the same characteristic polynomial have the same expressions
        a, d, b2 = to_sym(A[0, 0]), to_sym(A[1, 1]), to_sym(A[1, 0]).abs2()
        r = ((a - d) * (a - d) + b2 * 4).sqrt()
        return AR.wrap(np.array([(a + d - r) * 0.5, (a + d + r) * 0.5], dtype=object))
    num = _numeric(ctx, A, lambda v: scipy.linalg.eigh(v.real if real else v))
    fr = Fresh(ctx, 'ev')
    lam = hermitian_spectrum(ctx, A, fr, lambda e: num(e)[0])
    if eigvals_only:
        return AR.wrap(np.array(lam, dtype=object))
    if n == 1:
        return AR.wrap(np.array(lam, dtype=object)), AR.np_eye(1)
    W = unitary_atoms(ctx, lambda e: num(e)[1], n, real)
    L = AR.np_diag(AR.wrap(np.array(lam, dtype=object)))
    fs = eqs(AR.np_dot(AR.np_dot(W, L), AR.np_conj(W).T), A)
    attach(ctx, W, fs)
    for x in lam:
        if not x.is_const():
            ctx.atom_facts[_v(x)] += [f for f in fs if isinstance(f, SymBool)]
    calls(ctx).append(EIGH(A, lam, W))
    return AR.wrap(np.array(lam, dtype=object)), W


def eigvalsh(ctx, A, **k):
    return eigh(ctx, A, eigvals_only=True)


def _key(x):
    from .sym import p_key
    x = to_sym(x)
    return p_key(x.n), None if x.d is None else p_key(x.d)


def _orthonormal_columns(ctx, A):
    """the columns of A are among the eigenvectors of an earlier Hermitian eigenproblem"""
    cols = [tuple(_key(x) for x in A[:, j]) for j in range(A.shape[1])]
    for r in calls(ctx):
        if isinstance(r, EIGH) and r.W.shape[0] == A.shape[0]:
            have = [tuple(_key(x) for x in r.W[:, j]) for j in range(r.W.shape[1])]
            if len(set(cols)) == len(cols) and all(c in have for c in cols):
                return True
    return False


class QR:
    def __init__(self, A, Qm, Rm):
        self.A, self.Q, self.R = A, Qm, Rm


def qr(ctx, A, overwrite_a=False, lwork=None, mode='full', **k):
    m, n = A.shape
    q = min(m, n)
    if mode == 'reduced':
        mode = 'economic'
    if not (mode in ('economic', 'full', 'complete') and (mode == 'economic' or m == n)):
        raise Unsupported(f'qr of a {m}x{n} matrix, mode {mode}')
    real = _isreal(A)
    h = hinted(ctx, 'qr', A)
    if h is not None:
        return h
    num = _numeric(ctx, A, lambda v: scipy.linalg.qr(v.real if real else v, mode='economic'))
    if m >= n and _orthonormal_columns(ctx, A):
        # R^+ R = 1 and R upper triangular: R is a diagonal matrix of phases
        ph = [unitary_atoms(ctx, lambda e, i=i: num(e)[1][i:i + 1, i:i + 1], 1, real)[0, 0] for i in range(n)]
        R = AR.np_diag(AR.wrap(np.array(ph, dtype=object)))
        Qm = AR.np_dot(A, AR.np_conj(R))
        calls(ctx).append(QR(A, Qm, R))
        return Qm, R
    fr = Fresh(ctx, 'qr')
    R = np.empty((q, n), dtype=object)
    for i in range(q):
        for j in range(n):
            if j < i:
                R[i, j] = Sym(0)
            elif real or i == j and False:
                R[i, j] = fr.real(lambda e, i=i, j=j: float(np.real(num(e)[1][i, j])))
            else:
                R[i, j] = fr.real(lambda e, i=i, j=j: float(np.real(num(e)[1][i, j]))) + \
                    fr.real(lambda e, i=i, j=j: float(np.imag(num(e)[1][i, j]))) * Sym(1j)
    R = AR.wrap(R)
    if m == q == n and n <= 2:
        Qm = unitary_atoms(ctx, lambda e: num(e)[0], n, real)
    else:
        Qm = fr.matrix((m, q), lambda e: num(e)[0], real)
        attach(ctx, Qm, eqs(AR.np_dot(AR.np_conj(Qm).T, Qm), AR.np_eye(q)))
    fs = eqs(AR.np_dot(Qm, R), A)
    attach(ctx, Qm, fs)
    attach(ctx, R, fs)
    calls(ctx).append(QR(A, Qm, R))
    return Qm, R


def eig(ctx, A, **k):
    """eigenvalues and unit eigenvectors; the eigenvectors of a normal matrix with distinct eigenvalues are orthogonal"""
    n = A.shape[0]
    h = hinted(ctx, 'eig', A)
    if h is not None:
        return AR.wrap(np.array(list(h[0]), dtype=object)), h[1]
    num = _numeric(ctx, A, lambda v: scipy.linalg.eig(v))
    fr = Fresh(ctx, 'eg')
    lam = []
    for i in range(n):
        lam.append(fr.real(lambda e, i=i: float(np.real(num(e)[0][i]))) + fr.real(lambda e, i=i: float(np.imag(num(e)[0][i]))) * Sym(1j))
    V = fr.matrix((n, n), lambda e: num(e)[1], False)
    fs = []
    for i in range(n):
        fs += eqs(AR.np_dot(A, V[:, i]), V[:, i] * lam[i])
        fs += eqs([sum((to_sym(x).abs2() for x in V[:, i]), Sym(0))], [1])
    AAd = f_and(eqs(AR.np_dot(A, AR.np_conj(A).T), AR.np_dot(AR.np_conj(A).T, A)))
    for i in range(n):
        for j in range(i):
            dot = sum((to_sym(x).conjugate() * y for x, y in zip(V[:, i], V[:, j])), Sym(0))
            fs.append(f_or([f_not(AAd), lam[i]._eq(lam[j]), dot._eq(Sym(0))]))
    fs = [f for f in fs if isinstance(f, SymBool)]
    attach(ctx, V, fs)
    attach(ctx, AR.wrap(np.array(lam, dtype=object)), fs)
    return AR.wrap(np.array(lam, dtype=object)), V


def eigvals(ctx, A, **k):
    n = A.shape[0]
    c = charpoly(A)
    if c is None:
        raise Unsupported('eigenvalues of a large symbolic matrix')
    if n == 1:
        return AR.wrap(np.array([A[0, 0]], dtype=object))
    num = _numeric(ctx, A, lambda v: scipy.linalg.eigvals(v))
    fr = Fresh(ctx, 'eg')
    lam = []
    for i in range(n):
        lam.append(fr.real(lambda e, i=i: float(np.real(num(e)[i]))) + fr.real(lambda e, i=i: float(np.imag(num(e)[i]))) * Sym(1j))
    import itertools
    fs = []
    for k_ in range(1, n + 1):
        e = Sym(0)
        for comb in itertools.combinations(lam, k_):
            t = Sym(1)
            for x in comb:
                t = t * x
            e = e + t
        fs += eqs([e], [to_sym(c[k_]) * (1 if k_ % 2 == 0 else -1)])
    attach(ctx, AR.wrap(np.array(lam, dtype=object)), fs)
    return AR.wrap(np.array(lam, dtype=object))


def lstsq(ctx, A, b, **k):
    """least squares solution; only its defining properties for zero or consistent right-hand sides"""
    b1 = np.asarray(b).reshape(-1)
    if all(to_sym(x)._eq(Sym(0)) is True for x in b1):
        n = A.shape[1]
        return AR.np_zeros((n,)), AR.np_zeros((1,)), None, None
    m, n = A.shape
    G = AR.np_dot(AR.np_conj(A).T, A)
    if all(to_sym(x)._eq(to_sym(y)) is True for x, y in zip(np.asarray(G).reshape(-1), np.eye(n).reshape(-1))):
        x = AR.np_dot(AR.np_conj(A).T, AR.wrap(np.array(b1, dtype=object)))
        r = AR.np_dot(A, x) - AR.wrap(np.array(b1, dtype=object))
        res = sum((to_sym(t).abs2() for t in r), Sym(0))
        return x, AR.wrap(np.array([res], dtype=object)) if m > n else AR.wrap(np.empty((0,), dtype=object)), None, None
    if n <= 4:
        dt = to_sym(AR.la_det(G))
        if dt.is_const() and abs(dt.cval()) > 1e-9:
            x = AR.np_dot(AR.la_inv(G), AR.np_dot(AR.np_conj(A).T, AR.wrap(np.array(b1, dtype=object))))
            r = AR.np_dot(A, x) - AR.wrap(np.array(b1, dtype=object))
            res = sum((to_sym(t).abs2() for t in r), Sym(0))
            return x, AR.wrap(np.array([res], dtype=object)) if m > n else AR.wrap(np.empty((0,), dtype=object)), None, None
    # normal equations; residual
    num = _numeric(ctx, AR.wrap(np.array(list(np.asarray(A).reshape(-1)) + list(b1), dtype=object)),
                   lambda v: scipy.linalg.lstsq(v[:m * n].reshape(m, n), v[m * n:])[0])
    fr = Fresh(ctx, 'ls')
    x = fr.matrix((n,), num, _isreal(A) and all(to_sym(t).is_real() for t in b1))
    r = AR.np_dot(A, x) - AR.wrap(np.array(b1, dtype=object))
    fs = eqs(AR.np_dot(AR.np_conj(A).T, r), 0)
    attach(ctx, x, fs)
    res = sum((to_sym(t).abs2() for t in r), Sym(0))
    return x, AR.wrap(np.array([res], dtype=object)) if m > n else AR.wrap(np.empty((0,), dtype=object)), None, None


def null_space(ctx, A, rcond=None, **k):
    svd(ctx, A)
    return calls(ctx)[-1].ns.T


def matrix_rank(ctx, A, *a, **k):
    svd(ctx, A)
    return calls(ctx)[-1].r


def eigsh(ctx, A, k=6, sigma=None, which='LM', return_eigenvectors=True, **kw):
    """k eigenpairs of a Hermitian matrix closest to sigma; here: the k smallest of a positive semidefinite matrix"""
    if isinstance(A, AR.SymSp):
        A = A.toarray()
    A = _herm(A)
    n = A.shape[0]
    if not (isinstance(sigma, (int, float)) and sigma < 0 and which == 'LM'):
        raise Unsupported('eigsh other than the smallest eigenvalues of a positive semidefinite matrix')
    if not 0 < k < n:
        raise Unsupported('eigsh with k >= n')
    real = _isreal(A)
    num = _numeric(ctx, A, lambda v: scipy.linalg.eigh(v.real if real else v))
    fr = Fresh(ctx, 'es')
    lam = [fr.real(lambda e, i=i: float(num(e)[0][i])) for i in range(k)]
    V = fr.matrix((n, k), lambda e: num(e)[1][:, :k], real)
    fs = []
    for i in range(k):
        fs += eqs(AR.np_dot(A, V[:, i]), V[:, i] * lam[i])
    fs += eqs(AR.np_dot(AR.np_conj(V).T, V), AR.np_eye(k))
    fs += [Sym(0)._le(x) for x in lam] + [lam[i]._le(lam[i + 1]) for i in range(k - 1)]
    gap = getattr(ctx, 'gap', None)
    if gap:
        fs += [f_or([x._eq(Sym(0)), Sym(gap)._le(x)]) for x in lam]
    fs = [f for f in fs if isinstance(f, SymBool)]
    attach(ctx, V, fs)
    attach(ctx, AR.wrap(np.array(lam, dtype=object)), fs)
    calls(ctx).append(EIGH(A, lam, V))
    if not return_eigenvectors:
        return AR.wrap(np.array(lam, dtype=object))
    return AR.wrap(np.array(lam, dtype=object)), V


def polar(ctx, A, side='right', **k):
    """A = U P with P positive semidefinite"""
    n = A.shape[0]
    real = _isreal(A)
    num = _numeric(ctx, A, lambda v: scipy.linalg.polar(v.real if real else v, side=side))
    U = unitary_atoms(ctx, lambda e: num(e)[0], n, real)
    fr = Fresh(ctx, 'pl')
    P = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(i + 1):
            if i == j:
                P[i, i] = fr.real(lambda e, i=i: float(np.real(num(e)[1][i, i])))
                ctx.atom_facts[_v(P[i, i])] += [Sym(0)._le(P[i, i])]
            else:
                x = fr.real(lambda e, i=i, j=j: float(np.real(num(e)[1][i, j])))
                if not real:
                    x = x + fr.real(lambda e, i=i, j=j: float(np.imag(num(e)[1][i, j]))) * Sym(1j)
                P[i, j], P[j, i] = x, x.conjugate()
    P = AR.wrap(P)
    fs = eqs(AR.np_dot(U, P) if side == 'right' else AR.np_dot(P, U), A)
    attach(ctx, U, fs)
    attach(ctx, P, fs)
    return U, P
