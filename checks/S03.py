"""_find_unitary and discrete_symmetries: point group symmetries of a Hamiltonian family."""
import itertools as it
import sympy
from se.runner import Registry
from .common import *
from .G01 import expected
from .L07 import outer, dsum, order, apart, reals, czs
from .S02 import irr, num1, kron, cst2, rows

H = Registry()
STUBS = ['scipy.linalg.svd / eigh: see L04, S02']
ASSUMPTIONS = ['comparisons with tolerances up to 1e-6 are exact']
OUTSIDE = 'families whose irreducible blocks are larger than 2x2, more than 4 orbitals'


def bounded(ctx, name, n, cplx=False):
    """amplitudes that are neither tiny compared to each other nor large: the code compares up to relative tolerances"""
    r = [ctx.real(f'{name}{i}', -3, 3) for i in range(n)]
    if cplx:
        s = [ctx.real(f'{name}i{i}', -3, 3) for i in range(n)]
        return [x + y * (Sym(1j) if ctx.sym else 1j) for x, y in zip(r, s)]
    return r


def sizable(ctx, c, lim=0.1):
    """not all of the numbers are small (Model.eliminate_zeros drops small terms)"""
    if ctx.sym:
        ctx.assume(f_or([f for x in c for y in (to_sym(x).real, to_sym(x).imag) for f in (to_sym(y)._le(Sym(-lim)), Sym(lim)._le(y))]))
    else:
        ctx.assume(any(abs(y) >= lim for x in c for y in (np.real(x), np.imag(x))))


def mat(ctx, rows):
    return ctx.arr(np.array(rows, dtype=object if ctx.sym else complex))


def image_ok(ctx, R, cj, an, U, terms, ks, env, label):
    """U H(..) U^dagger == H at every momentum"""
    mom = NAMES[:len(ks)]

    def Hf(kp):
        return eval_terms(ctx, terms, dict(env, **dict(zip(mom, kp))))
    ctx.check_eq(expected(ctx, R, cj, an, U, Hf, ks), Hf(ks), label)


def spec_found(ctx, model, g, gr, R, cj, an, terms, n):
    """the result has the candidate's action in k space and a unitary U that is a symmetry"""
    ks, env = kvals(ctx, len(np.asarray(R)))
    ctx.check(bool(gr.conjugate) == bool(cj) and bool(gr.antisymmetry) == bool(an) and np.array_equal(np.array(gr.R, dtype=float), np.array(R, dtype=float)), 'the k-space action is the candidate\'s')
    ctx.check(g.U is None, 'candidate unchanged')
    if gr.U is None:
        return
    U = ctx.arr(gr.U)
    ctx.check(U.shape == (n, n), 'shape of U')
    ctx.check_eq(dag(ctx, U) @ U, eye(ctx, n), 'U is unitary')
    image_ok(ctx, R, cj, an, U, terms, ks, env, 'U is a symmetry')


# ------------------------------------------------------------ sums of one dimensional representations
R1 = {'+': [[1]], '-': [[-1]]}
LKEYS = {'odd': ['k_x'], 'both': ['1', 'k_x'], 'even': ['a*k_x**2'], 'exp': ['e**(I*k_x)', 'e**(-I*k_x)']}


def line_image(ctx, keys, coeffs, s, cj, an):
    """coefficients of the image of sum_k key_k(k_x) * c_k for R = s: (+/-) c(+/- s k)^(*)"""
    t = -s if cj else s
    out = []
    for k, c in zip(keys, coeffs):
        if k.startswith('e**'):
            # key -> its inverse if k_x changes sign; conjugation inverts it again
            flip = (t < 0) != bool(cj)
            v = coeffs[1 - keys.index(k)] if flip else c
            v = v.conjugate() if cj else v
        else:
            v = c * (t if k == 'k_x' else 1)
        out.append(-v if an else v)
    return out


def eqv(ctx, x, y):
    """decide whether two tuples of numbers are equal"""
    if ctx.sym:
        return bool(f_and([to_sym(a)._eq(to_sym(b)) for a, b in zip(x, y)]))
    return all(abs(a - b) < 1e-7 for a, b in zip(x, y))


@H(cases={f'{k}-{s}': dict(k=k, s=s) for k in LKEYS for s in '+-'}, time_limit=60,
   bounds='two inequivalent lines in any unitary basis, 1D Model with polynomial or exponential keys, all amplitudes, both flags, R = 1, -1')
def lines(ctx, k, s):
    ctx.exact_tol()
    keys = LKEYS[k]
    cj, an = ctx.pybool('conj'), ctx.pybool('anti')
    W = ctx.unitary('W')
    if k == 'exp':
        A = bounded(ctx, 'a', 2, True)
        co = [[A[0], A[1]], [A[0].conjugate(), A[1].conjugate()]]
    else:
        co = [bounded(ctx, f'a{i}', 2) for i in range(len(keys))]
    q = ctx.choose('which', len(co))
    apart(ctx, co[q][0], co[q][1])
    for c in co:
        if k == 'exp':
            ctx.assume(ctx.Or(Not_zero(ctx, c[0]), Not_zero(ctx, c[1])) if ctx.sym else abs(c[0]) + abs(c[1]) > 1e-4)
        else:
            sizable(ctx, c)
    Hs = [outer(ctx, W, c) for c in co]
    model = ctx.Q.Model({SY(x): h for x, h in zip(keys, Hs)}, momenta=['k_x'])
    Ps = (ctx.arr(np.asarray(W)[None, :, 0:1]), ctx.arr(np.asarray(W)[None, :, 1:2]))
    R = np.array(R1[s])
    g = ctx.Q.PointGroupElement(R, cj, an, None)
    gr = ctx.Q.symmetry_finder._find_unitary(model, Ps, g)
    x = [tuple(c[i] for c in co) for i in range(2)]
    y = [tuple(line_image(ctx, keys, [c[i] for c in co], R[0, 0], cj, an)) for i in range(2)]
    exists = eqv(ctx, x[0], y[0]) and eqv(ctx, x[1], y[1]) or eqv(ctx, x[0], y[1]) and eqv(ctx, x[1], y[0])
    ctx.check((gr.U is not None) == bool(exists), 'U is found iff it exists')
    spec_found(ctx, model, g, gr, R, cj, an, [(SY(k), h) for k, h in zip(keys, Hs)], 2)


# ------------------------------------------------------------ irreducible 2x2 blocks
def commuting(ctx, a, b):
    c = a @ b - b @ a
    if ctx.sym:
        return f_and([to_sym(x)._eq(Sym(0)) for x in np.asarray(c).reshape(-1)])
    return bool(np.max(np.abs(c)) < 1e-2)


def member(ctx, X, sgn, name):
    """arbitrary Hermitian 2x2 matrix h with X h X^-1 = sgn h (X = 'z') or X h^* X^-1 = sgn h (X = 'K', 'iyK')"""
    a, b, c, d = [ctx.real(f'{name}{i}', -3, 3) for i in range(4)]
    i = Sym(1j) if ctx.sym else 1j
    if X == '1':
        return mat(ctx, [[a, c + d * i], [c - d * i, b]]) if sgn > 0 else zeros(ctx, (2, 2))
    if X == 'z':
        return mat(ctx, [[a, 0], [0, b]]) if sgn > 0 else mat(ctx, [[0, c + d * i], [c - d * i, 0]])
    if X == 'K':
        return mat(ctx, [[a, c], [c, b]]) if sgn > 0 else mat(ctx, [[0, d * i * -1], [d * i, 0]])
    if X == 'iyK':
        return mat(ctx, [[a, 0], [0, a]]) if sgn > 0 else mat(ctx, [[a, c + d * i], [c - d * i, a * -1]])


X0 = {'1': [[1, 0], [0, 1]], 'z': [[1, 0], [0, -1]], 'K': [[1, 0], [0, 1]], 'iyK': [[0, 1], [-1, 0]]}


def full_rows(ctx, X):
    """normalised coefficients of a 2x2 matrix in the basis of all Hermitian matrices, as a row"""
    x = mat(ctx, X)
    i = Sym(1j) if ctx.sym else 1j
    r = [x[0, 0], x[1, 1], (x[0, 1] + x[1, 0]) * 0.5, (x[0, 1] - x[1, 0]) * i * -0.5]
    nr = sum((abs2(ctx, v) for v in r), 0 * abs2(ctx, r[0]))
    s = to_sym(nr).sqrt() if ctx.sym else np.sqrt(nr)
    return ctx.arr(np.array([[v / s for v in r]], dtype=object if ctx.sym else complex))


def abs2(ctx, z):
    return to_sym(z).abs2() if ctx.sym else abs(z)**2


IRR = [('z', '-', False, False), ('z', '-', False, True), ('z', '+', False, True), ('K', '+', True, False), ('K', '-', True, False), ('K', '+', True, True),
       ('iyK', '+', True, False), ('iyK', '-', True, True), ('iyK', '+', True, True), ('1', '+', False, False)]
BKEYS = {(1, -1): ['1', 'k_x'], (-1, 1): ['k_x', 'a*k_x**2'], (-1, -1): ['k_x', 'k_x**3'], (1, 1): ['1', 'a*k_x**2']}


def signs(R, cj, an, key):
    """sign that the symmetry has to give the Hermitian matrix of the key"""
    p = {'1': 0, 'k_x': 1, 'a*k_x**2': 2, 'k_x**3': 3}[key]
    return (R * (-1 if cj else 1))**p * (-1 if an else 1)


def family2(ctx, X, R, cj, an):
    """two (for X = 'K', 'z' also with equal signs) noncommuting matrices with the symmetry X in the basis of the block"""
    for keys in (['1', 'k_x'], ['k_x', 'k_x**3'], ['1', 'a*k_x**2']):
        sg = [signs(R, cj, an, k) for k in keys]
        # pairs that can be noncommuting
        if {'z': sg != [1, 1], 'K': sg != [-1, -1], 'iyK': sg == [-1, -1], '1': sg == [1, 1]}[X]:
            break
    h = [member(ctx, X, q, f'h{i}') for i, q in enumerate(sg)]
    ctx.assume(f_not(commuting(ctx, h[0], h[1])) if ctx.sym else not commuting(ctx, h[0], h[1]))
    return keys, h


@H(cases={f'{X}{s}{"c" if c else ""}{"a" if a else ""}-{b}': dict(X=X, s=s, cj=c, an=a, b=b) for X, s, c, a in IRR for b in ('const', 'rot')}, time_limit=60,
   bounds='irreducible 2x2 block in any unitary basis (rot: symmetry rotated with respect to the basis of the block), 1D Model with two of the keys 1, k_x, a*k_x^2, k_x^3: every Hamiltonian with the symmetry, which has to be found')
def block2(ctx, X, s, cj, an, b):
    ctx.exact_tol()
    W = ctx.unitary('W')
    R = np.array(R1[s])
    keys, h = family2(ctx, X, R[0, 0], cj, an)
    Hs = [W @ x @ dag(ctx, W) for x in h]
    x0 = mat(ctx, X0[X])
    P = W
    if b == 'rot':
        V = ctx.arr(ctx.orthogonal('V', 2, det=1))
        P, x0 = W @ V, V.T @ x0 @ V
    model = ctx.Q.Model({SY(x): v for x, v in zip(keys, Hs)}, momenta=['k_x'])
    ctx.hint('null!', full_rows(ctx, x0))
    g = ctx.Q.PointGroupElement(R, cj, an, None)
    gr = ctx.Q.symmetry_finder._find_unitary(model, (ctx.arr(np.asarray(P)[None]),), g)
    ctx.check(gr.U is not None, 'U is found if it exists')
    spec_found(ctx, model, g, gr, R, cj, an, [(SY(k), v) for k, v in zip(keys, Hs)], 2)


K4 = np.eye(4)[:, [0, 2, 3, 1]]


@H(cases={f'{s}{"c" if c else ""}{"a" if a else ""}-{o}{"-" + t if t else ""}': dict(s=s, cj=c, an=a, o=o, turn=t) for s in '+-' for c in (False, True) for a in (False, True) for o in (0, 1)
          for t in ('', 'i') if (s == '-') != c or a},
   time_limit=60, bounds='two inequivalent irreducible 2x2 blocks (any bases of the blocks) that the symmetry exchanges by the identity or a complex unitary: every such family with keys 1, k_x, which has to be found')
def exchanged(ctx, s, cj, an, o, turn):
    ctx.exact_tol()
    R = np.array(R1[s])
    keys = ['1', 'k_x']
    sg = [signs(R[0, 0], cj, an, k) for k in keys]
    d = [ctx.real(f'd{i}', -3, 3) for i in range(2)]
    apart(ctx, d[0], d[1])
    e = [ctx.real(f'e{i}', -3, 3) for i in range(4)]
    z = e[2] + e[3] * (Sym(1j) if ctx.sym else 1j)
    apart(ctx, z, 0)
    h = [mat(ctx, [[d[0], 0], [0, d[1]]]), mat(ctx, [[e[0], z], [z.conjugate(), e[1]]])]
    odd = 0 if sg[0] < 0 else 1
    if sg[odd] < 0:
        # distinguishes the blocks
        t = h[odd][0, 0] + h[odd][1, 1]
        t = to_sym(t).real if ctx.sym else np.real(t)
        apart(ctx, t, 0)
    h2 = [x.conj() * q if cj else x * q for x, q in zip(h, sg)]
    B = mat(ctx, [[1, 0], [0, 1]])
    if turn:
        # the second block in another basis
        B = mat(ctx, [[0.6, -0.8], [0.8j, 0.6j]] if turn == 'i' else [[1, 0], [0, ctx.phase('b')]])
        h2 = [B @ x @ dag(ctx, B) for x in h2]
    V = [ctx.unitary('V0'), ctx.unitary('V1')]
    K = const(ctx, K4)
    P = [K[:, :2] @ V[0], K[:, 2:] @ V[1]]
    Hs = [P[0] @ a @ dag(ctx, P[0]) + P[1] @ b @ dag(ctx, P[1]) for a, b in zip(h, h2)]
    if o:
        P = P[::-1]
    model = ctx.Q.Model({SY(x): v for x, v in zip(keys, Hs)}, momenta=['k_x'])
    # the code looks for the block in row 1, column 0
    ctx.hint('null!', full_rows(ctx, B if not o else B.T if cj else dag(ctx, B)))
    g = ctx.Q.PointGroupElement(R, cj, an, None)
    gr = ctx.Q.symmetry_finder._find_unitary(model, tuple(ctx.arr(np.asarray(p)[None]) for p in P), g)
    ctx.check(gr.U is not None, 'U is found if it exists')
    spec_found(ctx, model, g, gr, R, cj, an, [(SY(k), v) for k, v in zip(keys, Hs)], 4)


C4 = [[0, -1], [1, 0]]


@H(cases={f'{"c" if c else "u"}{"a" if a else ""}': dict(cj=c, an=a) for c in (False, True) for a in (False, True)}, time_limit=60,
   bounds='four-fold rotation of an irreducible 2x2 block in any unitary basis, 2D Model with keys k_x, k_y, which has to be found')
def fourfold(ctx, cj, an):
    ctx.exact_tol()
    W = ctx.unitary('W')
    z = bounded(ctx, 'z', 1, True)[0]
    apart(ctx, z, 0)
    A = mat(ctx, [[0, z], [z.conjugate(), 0]])
    x0 = mat(ctx, [[0, 1], [1j, 0]] if cj else [[1, 0], [0, 1j]])
    B = x0 @ (A.conj() if cj else A) @ dag(ctx, x0) * (-1 if bool(an) != bool(cj) else 1)
    Hs = [W @ x @ dag(ctx, W) for x in (A, B)]
    model = ctx.Q.Model({SY(x): v for x, v in zip(['k_x', 'k_y'], Hs)}, momenta=['k_x', 'k_y'])
    ctx.hint('null!', full_rows(ctx, x0))
    R = np.array(C4)
    g = ctx.Q.PointGroupElement(R, cj, an, None)
    gr = ctx.Q.symmetry_finder._find_unitary(model, (ctx.arr(np.asarray(W)[None]),), g)
    ctx.check(gr.U is not None, 'U is found if it exists')
    spec_found(ctx, model, g, gr, R, cj, an, [(SY(k), v) for k, v in zip(['k_x', 'k_y'], Hs)], 2)


@H(cases={f'{o}{"c" if c else ""}{"a" if a else ""}': dict(o=o, cj=c, an=a) for o in (0, 1, 2) for c in (False, True) for a in (False, True)}, time_limit=60,
   bounds='three lines permuted by a three-fold rotation of k_x, k_y, k_z, and families that violate it in one amplitude')
def threefold(ctx, o, cj, an):
    ctx.exact_tol()
    al = [ctx.real(f'al{i}', -3, 3) for i in range(3)]
    dl = ctx.real('dl', -3, 3)
    for i, j in ((0, 1), (0, 2), (1, 2)):
        apart(ctx, al[i], al[j])
    R = np.array([[0, 0, 1], [1, 0, 0], [0, 1, 0]])
    sg = -1 if bool(cj) != bool(an) else 1
    keys = ['k_x', 'k_y', 'k_z']
    # g^3 = sg: only consistent for sg = 1; the amplitudes otherwise alternate in sign, which needs al = -al
    co = [[al[(i - k) % 3] + (dl if (i, k) == (o, 0) else 0) for i in range(3)] for k in range(3)]
    perm = [[0, 1, 2], [1, 0, 2], [2, 0, 1]][o]
    Hs = [mat(ctx, [[co[k][i] if i == j else 0 for j in range(3)] for i in range(3)]) for k in range(3)]
    for c in co:
        sizable(ctx, c)
    model = ctx.Q.Model({SY(x): v for x, v in zip(keys, Hs)}, momenta=keys)
    E = np.eye(3)
    Ps = tuple(const(ctx, E[None, :, q:q + 1]) for q in perm)
    g = ctx.Q.PointGroupElement(R, cj, an, None)
    gr = ctx.Q.symmetry_finder._find_unitary(model, Ps, g)
    # image: sg * c(R^-1 k): coefficient of k_j is sg * sum_i c_i (R^-1)_ij
    Ri = np.linalg.inv(R).round().astype(int)
    im = [[sum((co[a][i] * int(Ri[a, b]) for a in range(3) if Ri[a, b]), 0 * al[0]) * sg for i in range(3)] for b in range(3)]
    x = [tuple(co[k][i] for k in range(3)) for i in range(3)]
    y = [tuple(im[k][i] for k in range(3)) for i in range(3)]
    exists = any(all(eqv(ctx, x[i], y[p[i]]) for i in range(3)) for p in it.permutations(range(3)))
    ctx.check((gr.U is not None) == exists, 'U is found iff it exists')
    spec_found(ctx, model, g, gr, R, cj, an, [(SY(k), v) for k, v in zip(keys, Hs)], 3)


@H(cases={f'{s}{"c" if c else ""}{"a" if a else ""}-{m}': dict(s=s, cj=c, an=a, m=m) for s, c, a, m in
          [('-', False, False, 'two'), ('+', True, False, 'two'), ('+', False, True, 'two'), ('-', True, True, 'two'), ('-', False, False, 'one'), ('-', True, True, 'one'), ('+', True, False, 'one')]},
   time_limit=60, bounds='a doublet of lines (one) or two doublets that may be exchanged (two) in bases with arbitrary unitary mixing within the doublets')
def doublets(ctx, s, cj, an, m):
    ctx.exact_tol()
    R = np.array(R1[s])
    keys = ['1', 'k_x']
    n = 2 if m == 'two' else 1
    co = [bounded(ctx, f'a{k}', n) for k in range(2)]
    for c in co:
        sizable(ctx, c)
    if n == 2:
        apart(ctx, co[1][0], co[1][1])
    Hs = [mat(ctx, [[c[i // 2] if i == j else 0 for j in range(2 * n)] for i in range(2 * n)]) for c in co]
    V = [ctx.unitary(f'V{i}') for i in range(n)]
    Ps = []
    for i in range(n):
        P = zeros(ctx, (2, 2 * n, 1))
        for a in range(2):
            for r in range(2):
                P[a, 2 * i + r, 0] = V[i][r, a]
        Ps.append(ctx.arr(P))
    model = ctx.Q.Model({SY(x): v for x, v in zip(keys, Hs)}, momenta=['k_x'])
    g = ctx.Q.PointGroupElement(R, cj, an, None)
    gr = ctx.Q.symmetry_finder._find_unitary(model, tuple(Ps), g)
    x = [tuple(c[i] for c in co) for i in range(n)]
    y = [tuple(line_image(ctx, keys, [c[i] for c in co], R[0, 0], cj, an)) for i in range(n)]
    exists = any(all(eqv(ctx, x[i], y[p[i]]) for i in range(n)) for p in it.permutations(range(n)))
    ctx.check((gr.U is not None) == exists, 'U is found iff it exists')
    spec_found(ctx, model, g, gr, R, cj, an, [(SY(k), v) for k, v in zip(keys, Hs)], 2 * n)
