"""_reduce_hamiltonian, conserved_quantities: on-site unitary symmetries of a Hamiltonian family."""
from se.runner import Registry
from .common import *
from .L07 import outer, dsum, order, apart, reals, basis3

H = Registry()
STUBS = ['scipy.linalg.eigh / svd: the harness parametrises every pair (matrix, result) where the result is unique up to the parametrised freedom; otherwise the contract of the factorisation']
ASSUMPTIONS = ['comparisons with tolerances up to 1e-6 are exact']
OUTSIDE = 'more than 3 orbitals except where stated'


def tbasis(n):
    """basis of traceless Hermitian matrices used by the code"""
    import qsymm.linalg
    return [np.asarray(b, dtype=complex) for b in qsymm.linalg.matrix_basis(n, traceless=True)]


def coeffs(ctx, L):
    """expansion coefficients of a traceless Hermitian matrix in the (orthogonal) basis"""
    out = []
    n = L.shape[0]
    for b in tbasis(n):
        x = sum((L[i, j] * complex(b[j, i]) for i in range(n) for j in range(n) if b[j, i]), 0 * L[0, 0])
        x = x * (1 / np.trace(b @ b).real)
        out.append(to_sym(x).real if ctx.sym else np.real(x))
    return ctx.arr(np.array(out, dtype=object if ctx.sym else float))


def commutant(ctx, Ps):
    """orthonormal-up-to-scale matrix units E_ab in every block: the full commutant given by the projectors"""
    out = []
    for P in Ps:
        for a in range(P.shape[0]):
            for b in range(P.shape[0]):
                out.append(ctx.arr(P[a]) @ dag(ctx, ctx.arr(P[b])))
    return out


def spec(ctx, Hs, Ps, blocks):
    """blocks: expected multiset of (multiplicity, dimension)"""
    N = Hs[0].shape[0]
    Ps = [ctx.arr(np.asarray(P)) for P in Ps]
    ctx.check(all(np.ndim(P) == 3 and P.shape[1] == N for P in Ps) and sorted((P.shape[0], P.shape[2]) for P in Ps) == sorted(blocks), 'multiplicities and dimensions of the blocks')
    U = ctx.arr(np.hstack([np.asarray(P[a]) for P in Ps for a in range(P.shape[0])]))
    ctx.check_eq(dag(ctx, U) @ U, eye(ctx, N), 'symmetry adapted basis is unitary')
    for h in Hs:
        D = dag(ctx, U) @ ctx.arr(h) @ U
        want = zeros(ctx, (N, N))
        o = 0
        for P in Ps:
            d, _, n = P.shape
            for a in range(d):
                want[o + a * n:o + a * n + n, o + a * n:o + a * n + n] = D[o:o + n, o:o + n]
            o += d * n
        ctx.check_eq(D, want, 'Hamiltonian is block diagonal and identical in equivalent blocks')


def conserved(ctx, Hs, Ps, dimc):
    """conserved_quantities: a basis of the traceless Hermitian commutant of dimension dimc"""
    N = Hs[0].shape[0]
    Ls = ctx.Q.symmetry_finder.conserved_quantities(Ps)
    ctx.check(len(Ls) == dimc, 'number of conserved quantities')
    G = []
    for g in Ls:
        ctx.check(g.R is None, 'conserved quantities are on-site')
        L = ctx.arr(g.U)
        G.append(L)
        ctx.check_eq(L, dag(ctx, L), 'conserved quantities are Hermitian')
        ctx.check_eq(np.trace(np.asarray(L)) * eye(ctx, 1), zeros(ctx, (1, 1)), 'conserved quantities are traceless')
        for h in Hs:
            ctx.check_eq(L @ ctx.arr(h) - ctx.arr(h) @ L, zeros(ctx, (N, N)), 'conserved quantities commute with the Hamiltonian')
    if G:
        # linear independence: Gram matrix (basis independent)
        n = len(G)
        M = ctx.arr(np.array([[np.trace(np.asarray(a @ b)) for b in G] for a in G], dtype=object if ctx.sym else complex))
        d = ctx.Q.la.det(M) if ctx.sym else np.linalg.det(M)
        ctx.check(f_not(to_sym(d)._eq(Sym(0))) if ctx.sym else abs(d) > 1e-9, 'conserved quantities are independent')
    return G


def reduce(ctx, Hs, blocks, dimc, form='array'):
    ctx.exact_tol()
    h0 = [h + 0 * h for h in Hs]
    arg = ctx.Q.np.array(Hs) if form == 'array' else list(Hs)
    Ps = ctx.Q.symmetry_finder._reduce_hamiltonian(arg)
    spec(ctx, Hs, Ps, blocks)
    conserved(ctx, Hs, Ps, dimc)
    for a, b in zip(Hs, h0):
        ctx.check_eq(a, b, 'argument unchanged')


@H(cases={f'{n}-{f}': dict(n=n, form=f) for n in (1, 2) for f in ('array', 'list')}, bounds='1 or 2 commuting Hermitian 2x2 matrices that are not all multiples of the identity')
def two_lines(ctx, n, form):
    W = ctx.unitary('W')
    a, b = reals(ctx, 'a', n), reals(ctx, 'b', n)
    q = ctx.choose('which', n)
    apart(ctx, a[q], b[q])
    Hs = [outer(ctx, W, [a[i], b[i]]) for i in range(n)]
    L = outer(ctx, W, [1, -1])
    c = coeffs(ctx, L)
    ctx.hint('null!', ctx.arr(np.asarray(c).reshape(1, 3)))
    X = ctx.arr(np.array([[0, 1], [1, 0]]))
    ctx.hint('eigh', L, ([-1, 1], W @ X))
    ctx.hint('eigh', L * -1, ([-1, 1], W))
    reduce(ctx, Hs, [(1, 1), (1, 1)], 1, form)


@H(cases={f'{n}': dict(n=n) for n in (1, 2)}, bounds='multiples of the identity, 2x2 and 1x1')
def scalar(ctx, n):
    Hs = [eye(ctx, 2) * x for x in reals(ctx, 'a', n)]
    reduce(ctx, Hs, [(2, 1)], 3)
    Hs = [eye(ctx, 1) * x for x in reals(ctx, 'b', n)]
    reduce(ctx, Hs, [(1, 1)], 0)


@H(cases={f'{n}': dict(n=n) for n in (2, 3)}, time_limit=60, bounds='2 or 3 Hermitian 2x2 matrices, not all commuting')
def irreducible(ctx, n):
    W = ctx.unitary('W')
    l = reals(ctx, 'l', 2)
    apart(ctx, l[0], l[1])
    z = ctx.cplx('z')
    apart(ctx, z, 0)
    d = reals(ctx, 'd', 2)
    Hs = [outer(ctx, W, l), W @ ctx.arr(np.array([[d[0], z], [z.conjugate(), d[1]]], dtype=object if ctx.sym else complex)) @ dag(ctx, W)] + [herm(ctx, 'h')][:n - 2]
    ctx.hint('null!', ctx.arr(np.zeros((0, 3))))
    reduce(ctx, Hs, [(1, 2)], 0)


PERM = [[0, 1, 2], [0, 2, 1], [2, 1, 0], [1, 2, 0]]


def perm(ctx, name='perm'):
    return const(ctx, np.eye(3)[:, PERM[ctx.choose(name, len(PERM))]])


def irr(ctx, n, name='w'):
    """n Hermitian 2x2 matrices without common eigenvector"""
    l = reals(ctx, name + 'l', 2)
    apart(ctx, l[0], l[1])
    z = ctx.cplx(name + 'z')
    apart(ctx, z, 0)
    d = reals(ctx, name + 'd', 2)
    W = ctx.unitary(name + 'W')
    return [outer(ctx, W, l), W @ ctx.arr(np.array([[d[0], z], [z.conjugate(), d[1]]], dtype=object if ctx.sym else complex)) @ dag(ctx, W)] + [herm(ctx, name + 'h')][:n - 2]


def num1(ctx, x):
    return ctx.arr(np.array([[x]], dtype=object if ctx.sym else complex))


def rows(ctx, Ls):
    """coefficient vectors in the traceless basis, which need not be orthogonal"""
    n = Ls[0].shape[0]
    B = tbasis(n)
    G = np.linalg.inv(np.array([[np.trace(a @ b).real for b in B] for a in B]))
    out = []
    for L in Ls:
        t = [sum((L[i, j] * complex(b[j, i]) for i in range(n) for j in range(n) if b[j, i]), 0 * L[0, 0]) for b in B]
        t = [to_sym(x).real if ctx.sym else np.real(x) for x in t]
        out.append([sum((t[q] * float(G[p, q]) for q in range(len(B)) if abs(G[p, q]) > 1e-12), 0 * t[0]) for p in range(len(B))])
    return out


def nullrows(ctx, Ls, fixed=None):
    """hint for constant Ls: orthonormal coefficient vectors"""
    c = np.array([[to_sym(x).cval().real if ctx.sym else x for x in r] for r in rows(ctx, Ls)], dtype=float)
    q, _ = np.linalg.qr(c.T)
    return q.T


def center(ctx, p, Ln, V=None):
    """hint: every eigenbasis of a diagonal generator with a double eigenvalue (V: one of them)"""
    pn = np.array([[to_sym(x).cval() if ctx.sym else x for x in r] for r in p], dtype=complex)
    V, ph = (ctx.unitary('V'), ctx.phase('ph')) if V is None else (V, 1)
    e = [float(x) for x in np.diag(pn.conj().T @ Ln @ pn).real]
    for s in (1, -1):
        Ws = p @ dsum(ctx, [V, num1(ctx, ph)])
        if s * e[2] < s * e[0]:
            Ws, l = ctx.arr(np.asarray(Ws)[:, [2, 0, 1]]), [s * e[2], s * e[0], s * e[0]]
        else:
            l = [s * e[0], s * e[0], s * e[2]]
        ctx.hint('eigh', const(ctx, s * Ln), (l, Ws))
    return V


@H(bounds='two Hermitian 3x3 matrices: irreducible 2x2 block and a number, in every position; every basis of the degenerate eigenspace of the conserved quantity')
def plane_and_line(ctx):
    p = perm(ctx)
    h2 = irr(ctx, 2)
    c = reals(ctx, 'c', 2)
    Hs = [p @ dsum(ctx, [h, num1(ctx, x)]) @ p.T for h, x in zip(h2, c)]
    L0 = np.diag([1., 1, -2])
    L = p @ const(ctx, L0) @ p.T
    B = nullrows(ctx, [L])
    ctx.hint('null!', B)
    center(ctx, p, sum(b * x for b, x in zip(B[0], tbasis(3))))
    ctx.hint('null!', np.zeros((0, 3)))
    reduce(ctx, Hs, [(1, 2), (1, 1)], 1)


@H(cases={f'{w}': dict(w=w) for w in range(3)}, bounds='two diagonal 3x3 matrices with three inequivalent entries; every orthonormal basis of conserved quantities', time_limit=60)
def three_lines(ctx, w):
    # entries: each pair differs in the first or in the second matrix
    a = reals(ctx, 'a', 3)
    b = reals(ctx, 'b', 3)
    apart(ctx, a[0], a[1])
    apart(ctx, (a if w == 0 else b)[0], (a if w == 0 else b)[2])
    apart(ctx, (b if w == 2 else a)[1], (b if w == 2 else a)[2])
    Hs = [ctx.arr(np.diag(np.array(x, dtype=object if ctx.sym else complex))) for x in (a, b)]
    ctx.hint('null!', nullrows(ctx, [np.diag([1., -1, 0]), np.diag([1., 1, -2])]))
    reduce(ctx, Hs, [(1, 1)] * 3, 2)


@H(bounds='two Hermitian 3x3 matrices: a multiple of the 2x2 identity and another number, in every position; orthonormal basis of conserved quantities rotated in one plane that contains the center', time_limit=60)
def multiplet_and_line(ctx):
    p = perm(ctx)
    a, c = reals(ctx, 'a', 2), reals(ctx, 'c', 2)
    q = ctx.choose('which', 2)
    apart(ctx, a[q], c[q])
    Hs = [p @ dsum(ctx, [eye(ctx, 2) * x, num1(ctx, y)]) @ p.T for x, y in zip(a, c)]
    z = np.zeros((3, 3), dtype=complex)
    S = []
    for m in ([[0, 1], [1, 0]], [[0, -1j], [1j, 0]], [[1, 0], [0, -1]]):
        x = z.copy()
        x[:2, :2] = m
        S.append(x)
    pn = np.array([[to_sym(x).cval() if ctx.sym else x for x in r] for r in p], dtype=complex)
    B0 = nullrows(ctx, [const(ctx, pn @ x @ pn.T) for x in S + [np.diag([1., 1, -2])]])
    cs = ctx.orthogonal('rot', 2)
    i, j = [(0, 3), (2, 3), (1, 2)][ctx.choose('plane', 3)]
    R = np.array(eye(ctx, 4), dtype=object if ctx.sym else float)
    R[i, i], R[i, j], R[j, i], R[j, j] = cs[0, 0], cs[0, 1], cs[1, 0], cs[1, 1]
    ctx.hint('null!', ctx.arr(R) @ const(ctx, B0), True)
    # center in the rotated basis
    C = const(ctx, pn @ np.diag([1., 1, -2]) @ pn.T)
    cv = np.array([to_sym(x).cval().real if ctx.sym else x for x in rows(ctx, [C])[0]])
    y0 = B0 @ cv / np.linalg.norm(cv)
    y = (ctx.arr(R) @ const(ctx, y0.reshape(4, 1))).T
    ctx.hint('null!', y)
    center(ctx, p, pn @ np.diag([1., 1, -2]) @ pn.T / np.linalg.norm(cv))
    reduce(ctx, Hs, [(2, 1), (1, 1)], 4)


@H(cases={f'{o}-{k}': dict(o=o, k=k) for o in ('left', 'right') for k in (0, 1, 2)}, time_limit=60,
   bounds='two Hermitian 4x4 matrices h x 1 (or 1 x h) with irreducible h: every right-handed orthonormal basis of the su(2) of conserved quantities, every eigenbasis')
def multiplet2(ctx, o, k):
    h2 = irr(ctx, 2, 'w')
    sw = lambda A, B: kron(ctx, A, B) if o == 'left' else kron(ctx, B, A)
    Hs = [sw(h, eye(ctx, 2)) for h in h2]
    U = ctx.unitary('U', special=True)
    sg = [cst2(ctx, m) for m in ([[0, 1], [1, 0]], [[0, -1j], [1j, 0]], [[1, 0], [0, -1]])]
    T = [U @ s @ dag(ctx, U) for s in sg]
    T = T[k:] + T[:k]
    G = [sw(eye(ctx, 2), t) for t in T]
    r = rows(ctx, G)
    nr = sum((x * x for x in r[0]), 0 * r[0][0])
    nr = np.sqrt(to_sym(nr).cval().real) if ctx.sym else np.sqrt(nr)
    B = ctx.arr(np.array([[x * (1 / nr) for x in row] for row in r], dtype=object if ctx.sym else float))
    ctx.hint('null!', B, True)
    s = 1 / nr
    # eigenvectors of the first generator
    e0 = {0: [[1, 1], [-1, 1]], 1: [[1, 1], [-1j, 1j]], 2: [[0, 1], [1, 0]]}[k]
    E = U @ cst2(ctx, np.array(e0) * (2**-.5 if k < 2 else 1))
    Vm, Vp, Y = ctx.unitary('Vm'), ctx.unitary('Vp'), ctx.unitary('Y')
    half = [sw(V, E[:, i:i + 1]) for i, V in enumerate((Vm, Vp))]
    ctx.hint('eigh', G[0] * s, ([-s, -s, s, s], ctx.arr(np.hstack([np.asarray(x) for x in half]))))
    for g in G[1:]:
        gb = dag(ctx, half[0]) @ (g * s) @ half[1]
        ctx.hint('svd', gb, (Y, [s, s], dag(ctx, Y) @ gb * (1 / s)))
    ctx.hint('null!', np.zeros((0, 15)))
    reduce(ctx, Hs, [(2, 2)], 3)


def cst2(ctx, m):
    return const(ctx, np.array(m, dtype=complex))


def kron(ctx, a, b):
    a, b = np.asarray(a), np.asarray(b)
    out = np.empty((a.shape[0] * b.shape[0], a.shape[1] * b.shape[1]), dtype=object if ctx.sym else complex)
    for i in range(a.shape[0]):
        for j in range(a.shape[1]):
            for p in range(b.shape[0]):
                for q in range(b.shape[1]):
                    out[i * b.shape[0] + p, j * b.shape[1] + q] = a[i, j] * b[p, q]
    return ctx.arr(out)
