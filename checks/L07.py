"""simult_diag: common eigenspaces of commuting normal matrices; prop_to_id, split_list, mtm, commutator, _inv_int."""
from se import contracts
from se.runner import Registry
from .common import *

H = Registry()
STUBS = ['scipy.linalg.eigh / eig / qr: the harness parametrises every pair (matrix, result) and the stub returns that result']
ASSUMPTIONS = ['comparisons with tolerances up to 1e-6 are exact (eigenvalues are equal or well separated)']
OUTSIDE = 'matrices larger than 3x3 (3x3 with one distinguished basis vector), more than 3 matrices'


def outer(ctx, W, lam):
    """W diag(lam) W^+"""
    n = len(lam)
    return sum((lam[i] * (W[:, i:i + 1] @ dag(ctx, W[:, i:i + 1])) for i in range(1, n)), lam[0] * (W[:, :1] @ dag(ctx, W[:, :1])))


def dsum(ctx, blocks):
    n = sum(b.shape[0] for b in blocks)
    out = np.zeros((n, n), dtype=object if ctx.sym else complex)
    if ctx.sym:
        out[:] = Sym(0)
    o = 0
    for b in blocks:
        k = b.shape[0]
        out[o:o + k, o:o + k] = b
        o += k
    return ctx.arr(out)


def same(ctx, a, b):
    if ctx.sym:
        return bool(to_sym(a)._eq(to_sym(b)))
    return abs(a - b) < 1e-6


def order(ctx, a, b):
    ctx.assume(to_sym(a)._le(to_sym(b)) if ctx.sym else a <= b + 1e-12)


def apart(ctx, a, b):
    ctx.assume(f_not(to_sym(a)._eq(to_sym(b))) if ctx.sym else abs(a - b) > 1e-3)


def spec(ctx, mats, Ps):
    N = mats[0].shape[0]
    ctx.check(all(np.ndim(P) == 2 and P.shape[0] == N for P in Ps) and sum(P.shape[1] for P in Ps) == N, 'shapes of the eigenspaces')
    U = ctx.arr(np.hstack([np.asarray(P) for P in Ps]))
    ctx.check_eq(dag(ctx, U) @ U, eye(ctx, N), 'stacked eigenvectors are unitary')
    lam = []
    for M in mats:
        D = dag(ctx, U) @ ctx.arr(M) @ U
        o, l = 0, []
        want = zeros(ctx, (N, N))
        for P in Ps:
            n = P.shape[1]
            for i in range(n):
                want[o + i, o + i] = D[o, o]
            l.append(D[o, o])
            o += n
        ctx.check_eq(D, want, 'every matrix is a multiple of the identity on every eigenspace and diagonal')
        lam.append(l)
    for i in range(len(Ps)):
        for j in range(i):
            if ctx.sym:
                ctx.check(f_not(f_and([to_sym(l[i])._eq(to_sym(l[j])) for l in lam])), 'eigenspaces are maximal')
            else:
                ctx.check(max(abs(l[i] - l[j]) for l in lam) > 1e-8, 'eigenspaces are maximal')


def run(ctx, mats, checks=0):
    ctx.exact_tol()
    m0 = [m + 0 * m for m in mats]
    Ps = ctx.Q.simult_diag(ctx.Q.np.array(mats), checks=checks)
    spec(ctx, mats, Ps)
    for a, b in zip(mats, m0):
        ctx.check_eq(a, b, 'argument unchanged')


def reals(ctx, name, n):
    return [ctx.real(f'{name}{i}') for i in range(n)]


@H(cases={f'{n}-{c}': dict(n=n, checks=c) for n in (1, 2, 3) for c in (0, 1, 2)},
   bounds='1 to 3 commuting Hermitian 2x2 matrices with nondegenerate first matrix: every unitary, every eigenvalue')
def herm2(ctx, n, checks):
    W = ctx.unitary('W')
    l = reals(ctx, 'l', 2)
    order(ctx, l[0], l[1])
    apart(ctx, l[0], l[1])
    M = [outer(ctx, W, l)]
    ctx.hint('eigh', M[0], (l, W))
    for q in range(1, n):
        M.append(outer(ctx, W, reals(ctx, f'm{q}', 2)))
    run(ctx, M, checks)


@H(cases={f'{n}-{c}': dict(n=n, checks=c) for n in (1, 2) for c in (0, 2)},
   bounds='first 2x2 matrix a multiple of the identity, the second any Hermitian matrix')
def herm2_degenerate(ctx, n, checks):
    W, V = ctx.unitary('W'), ctx.unitary('V')
    a = ctx.real('a')
    m = reals(ctx, 'm', 2)
    order(ctx, m[0], m[1])
    M = [eye(ctx, 2) * a]
    ctx.hint('eigh', M[0], ([a, a], W))
    if n > 1:
        in_ = outer(ctx, V, m)
        M.append(W @ in_ @ dag(ctx, W))
        ctx.hint('eigh', in_, (m, V))
    run(ctx, M, checks)


def basis3(ctx, name='W'):
    """unitary 3x3 matrices that are a permutation times U(2) x U(1)"""
    W = dsum(ctx, [ctx.unitary(name), ctx.arr(np.array([[ctx.phase(name + 'q')]], dtype=object if ctx.sym else complex))])
    p = [[0, 1, 2], [0, 2, 1], [2, 1, 0]][ctx.choose(name + 'perm', 3)]
    return ctx.arr(np.asarray(W)[p])


@H(cases={f'{"low" if lo else "high"}-{c}': dict(lo=lo, checks=c) for lo in (0, 1) for c in (0, 1, 2)}, time_limit=60, max_paths=100,
   bounds='two commuting Hermitian 3x3 matrices, the first with a double eigenvalue below or above the simple one, the second any matrix that commutes with it; basis: permutation of U(2) x U(1)')
def herm3(ctx, lo, checks):
    W, V = basis3(ctx), ctx.unitary('V')
    a, b = reals(ctx, 'a', 2)
    order(ctx, a, b)
    apart(ctx, a, b)
    l = [a, a, b] if lo else [a, b, b]
    m = reals(ctx, 'm', 3)
    in_ = outer(ctx, V, m[:2])
    order(ctx, m[0], m[1])
    one = ctx.arr(np.array([[m[2]]], dtype=object if ctx.sym else complex))
    M = [outer(ctx, W, l), W @ dsum(ctx, [in_, one] if lo else [one, in_]) @ dag(ctx, W)]
    ctx.hint('eigh', M[0], (l, W))
    ctx.hint('eigh', in_, (m[:2], V))
    run(ctx, M, checks)


def czs(ctx, name, n):
    return [ctx.cplx(f'{name}{i}') for i in range(n)]


@H(cases={f'{n}-{c}': dict(n=n, checks=c) for n in (1, 2) for c in (0, 1, 2)},
   bounds='1 or 2 commuting normal 2x2 matrices, the first not Hermitian and with different eigenvalues')
def normal2(ctx, n, checks):
    W = ctx.unitary('W')
    l = czs(ctx, 'l', 2)
    apart(ctx, l[0], l[1])
    apart(ctx, np.imag(l[0]) if not ctx.sym else to_sym(l[0]).imag, 0)
    M = [outer(ctx, W, l)]
    ctx.hint('eig', M[0], (l, W))
    # QR of a unitary matrix: R is a diagonal of phases
    ph = ctx.arr(np.diag([ctx.phase('r0'), ctx.phase('r1')]))
    ctx.hint('qr', W, (W @ ph.conj(), ph))
    if n > 1:
        M.append(outer(ctx, W, czs(ctx, 'm', 2)))
    run(ctx, M, checks)


@H(cases={f'{p}-{n}-{c}': dict(p=p, n=n, checks=c) for p in (0, 1, 2) for n in (1, 2) for c in (0, 2)}, time_limit=60,
   bounds='normal, not Hermitian 3x3 matrix with a double eigenvalue, eigenvectors in every order and not orthogonal within the eigenspace; optionally a second, Hermitian matrix that commutes with it')
def normal3(ctx, p, n, checks):
    W = basis3(ctx)
    a, b = czs(ctx, 'l', 2)
    apart(ctx, a, b)
    apart(ctx, np.imag(a) if not ctx.sym else to_sym(a).imag, 0)
    # eigenvectors of the double eigenvalue: x0, z x0 + y x1
    y, z = ctx.real('y', 0.1), ctx.cplx('z')
    if ctx.sym:
        ctx.assume((to_sym(y) * y + to_sym(z).abs2())._eq(Sym(1)))
        ctx.assume(f_not(to_sym(y)._eq(Sym(0))))
    else:
        r = np.sqrt(y * y + abs(z)**2)
        y, z = y / r, z / r
    R = eye(ctx, 3) + zeros(ctx, (3, 3))
    # position p of the simple eigenvalue
    dbl = [i for i in range(3) if i != p]
    lam = [b if i == p else a for i in range(3)]
    M = [outer(ctx, W, lam)]
    Vm = np.array(np.asarray(W), dtype=object if ctx.sym else complex)
    Vm[:, dbl[1]] = W[:, dbl[0]] * z + W[:, dbl[1]] * y
    V = ctx.arr(Vm)
    ctx.hint('eig', M[0], (lam, V))
    # the groups of equal eigenvalues are numbered by first appearance
    order_ = [0] + [i for i in range(1, 3) if same(ctx, lam[i], lam[0])] + [i for i in range(1, 3) if not same(ctx, lam[i], lam[0])]
    for o in (order_, [0, 1, 2]):
        Wo, Vo = ctx.arr(np.asarray(W)[:, o]), ctx.arr(np.asarray(V)[:, o])
        R = dag(ctx, Wo) @ Vo
        ctx.hint('qr', Vo, (Wo, R))
    if n > 1:
        m = reals(ctx, 'm', 3)
        X = ctx.unitary('X')
        order(ctx, m[0], m[1])
        in_ = outer(ctx, X, m[:2])
        Wd, Ws = ctx.arr(np.asarray(W)[:, dbl]), ctx.arr(np.asarray(W)[:, [p]])
        M.append(Wd @ in_ @ dag(ctx, Wd) + m[2] * (Ws @ dag(ctx, Ws)))
        ctx.hint('eigh', in_, (m[:2], X))
    run(ctx, M, checks)


@H(bounds='every pair of a Hermitian and an arbitrary 2x2 matrix')
def not_commuting(ctx):
    ctx.exact_tol()
    W = ctx.unitary('W')
    l = reals(ctx, 'l', 2)
    order(ctx, l[0], l[1])
    A = outer(ctx, W, l)
    ctx.hint('eigh', A, (l, W))
    B = ctx.matrix('B', 2)
    c = A @ B - B @ A
    if ctx.sym:
        bad = f_not(close(ctx, c, zeros(ctx, (2, 2))))
        ctx.assume(bad)
    elif np.max(np.abs(c)) < 1e-3:
        return
    ctx.check(raises(lambda: ctx.Q.simult_diag(ctx.Q.np.array([A, B])), ValueError), 'matrices that do not commute are refused')


@H(bounds='every 2x2 matrix')
def not_normal(ctx):
    ctx.exact_tol()
    A = ctx.matrix('A', 2)
    c = A @ dag(ctx, A) - dag(ctx, A) @ A
    if ctx.sym:
        ctx.assume(f_not(close(ctx, c, zeros(ctx, (2, 2)))))
    elif np.max(np.abs(c)) < 1e-3:
        return
    ctx.check(raises(lambda: ctx.Q.simult_diag(ctx.Q.np.array([A])), ValueError), 'matrices that are not normal are refused')


@H(bounds='any number')
def one(ctx):
    z = ctx.cplx('z')
    A = ctx.arr(np.array([[z]], dtype=object if ctx.sym else complex))
    Ps = ctx.Q.simult_diag(ctx.Q.np.array([A, A * 2]))
    ctx.check(len(Ps) == 1, 'one eigenspace')
    ctx.check_eq(Ps[0], eye(ctx, 1), 'eigenvector')


@H(cases={f'{n}-{k}': dict(n=n, kind=k) for n in (1, 2, 3) for k in ('real', 'complex')}, bounds='every square matrix up to 3x3')
def prop(ctx, n, kind):
    A = rmat(ctx, 'A', n) if kind == 'real' else ctx.matrix('A', n)
    want = close(ctx, A, eye(ctx, n) * A[0, 0]) if ctx.sym else np.allclose(A, np.eye(n) * A[0, 0], rtol=0, atol=1e-9)
    if not ctx.sym and not want and np.max(np.abs(A - np.eye(n) * A[0, 0])) < 1e-2 * (1 + np.max(np.abs(A))):
        return
    if not ctx.sym and abs(A[0, 0]) < 1e-3 and A[0, 0] != 0:
        return
    ok, f = ctx.Q.linalg.prop_to_id(A)
    ctx.check(want if bool(ok) else f_not(want) if ctx.sym else not want, 'proportional to the identity')
    if bool(ok):
        ctx.check_eq(ctx.arr(np.array([f])), ctx.arr(np.array([A[0, 0]])), 'factor')


@H(cases={f'{n}-{k}': dict(n=n, kind=k) for n in (1, 2, 3, 4) for k in ('real', 'complex')}, bounds='lists of up to 4 real or complex numbers, equal or well separated')
def splitting(ctx, n, kind):
    ctx.exact_tol()
    v = reals(ctx, 'v', n) if kind == 'real' else czs(ctx, 'v', n)
    if not ctx.sym and any(0 < abs(v[i + 1] - v[i]) < 1e-3 for i in range(n - 1)):
        return
    r = [tuple(int(x) for x in p) for p in ctx.Q.linalg.split_list(ctx.Q.np.array(v))]
    ctx.check(r[0][0] == 0 and r[-1][1] == n and all(b < e for b, e in r) and all(r[i][1] == r[i + 1][0] for i in range(len(r) - 1)), 'blocks partition the list')
    for i in range(n - 1):
        inside = any(b <= i and i + 1 < e for b, e in r)
        eq = to_sym(v[i])._eq(to_sym(v[i + 1])) if ctx.sym else v[i] == v[i + 1]
        ctx.check(eq if inside else (f_not(eq) if ctx.sym else not eq), 'blocks end where values differ')


@H(cases={'4': dict(n=4)}, bounds='every 2x2 and 2x3 matrix')
def products(ctx, n):
    L = ctx.Q.linalg
    a, b, c = ctx.matrix('a', (2, 2)), ctx.matrix('b', (2, 3)), ctx.matrix('c', (3, 2))
    b2 = ctx.matrix('d', (2, 3))
    r = L.mtm(a, ctx.Q.np.array([b, b2]), c)
    ctx.check(np.shape(r) == (2, 2, 2), 'shape')
    ctx.check_eq(r[0], a @ b @ c, 'a B c')
    ctx.check_eq(r[1], a @ b2 @ c, 'a B c')
    x, y = ctx.matrix('x', 2), ctx.matrix('y', 2)
    ctx.check_eq(L.commutator(x, y), x @ y - y @ x, 'commutator')


@H(cases={f'{n}': dict(n=n) for n in (1, 2, 3)}, max_paths=200, bounds='integer matrices with determinant 1 or -1: entries from -2 to 2 (2x2), products of elementary matrices with any multiplier from -3 to 3 and permutations (3x3)')
def inv_int(ctx, n):
    if n == 1:
        m = np.array([[1 - 2 * ctx.choose('s', 2)]])
    elif n == 2:
        a, b = ctx.choose('a', 5) - 2, ctx.choose('b', 5) - 2
        m = np.array([[1, a], [0, 1]]) @ np.array([[1, 0], [b, 1]]) @ np.array([[[1, 0], [0, 1]], [[0, 1], [1, 0]], [[-1, 0], [0, 1]]][ctx.choose('p', 3)])
    else:
        a, b = ctx.choose('a', 7) - 3, ctx.choose('b', 3) - 1
        E = [np.eye(3, dtype=int) for _ in range(3)]
        E[0][0, 1], E[1][2, 0], E[2][1, 2] = a, b, a - b
        m = E[0] @ E[1] @ E[2] @ np.array([[[1, 0, 0], [0, 1, 0], [0, 0, 1]], [[0, 1, 0], [0, 0, 1], [1, 0, 0]], [[0, 1, 0], [-1, 0, 0], [0, 0, 1]]][ctx.choose('p', 3)])
    r = ctx.Q.linalg._inv_int(ctx.Q.ta.array(m.tolist(), int))
    got = np.array([[int(x) for x in row] for row in np.asarray(r)])
    ctx.check(bool(np.all(got @ m == np.eye(n)) and np.all(m @ got == np.eye(n))), 'inverse')
    bad = m.copy()
    bad[0] = bad[0] * [0, 2, -3][ctx.choose('bad', 3)]
    ctx.check(raises(lambda: ctx.Q.linalg._inv_int(ctx.Q.ta.array(bad.tolist(), int)), ValueError, np.linalg.LinAlgError), 'matrices without integer inverse are refused')
