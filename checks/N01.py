"""Comparisons with tolerances: what differs by more than rounding errors is kept apart, what differs by them is identified."""
from se.runner import Registry
from .common import *

H = Registry()
ASSUMPTIONS = ['differences between 1e-12 and 1e-2 of the largest element are left open (the tolerances of the code lie between them)']
OUTSIDE = 'tolerances of the numerical linear algebra (null spaces, joint eigenspaces, lattices), which the other checks take as exact'


def dev(ctx, lo=0.01, hi=10, name='d'):
    """a deviation that is either a rounding error or not; (True if it is not, value)"""
    far = bool(ctx.choose('far', 2))
    s = (-1, 1)[ctx.choose('sign', 2)]
    d = ctx.real(name)
    a, b = (lo, hi) if far else (0, 1e-12)
    if ctx.sym:
        ctx.assume(to_sym(a)._le(d))
        ctx.assume(d._le(to_sym(b)))
    else:
        ctx.assume(a <= d <= b)
    return far, d * s


def cls(ctx, far, got, label):
    ctx.check(bool(truth(got)) == (not far), label + (': told apart' if far else ': identified'))


def close(ctx, x, y, tol=1e-4):
    x, y = np.asarray(plain(ctx, x)), np.asarray(plain(ctx, y))
    if x.shape != y.shape:
        return False
    if not ctx.sym:
        return bool(np.all(abs(x - y) <= tol))
    fs = []
    for u, v in zip(x.reshape(-1), y.reshape(-1)):
        z = to_sym(u) - to_sym(v)
        for w in ((z.re(), z.im()) if hasattr(z, 're') and callable(z.re) else (z.real, z.imag)):
            fs += [to_sym(w)._le(to_sym(tol)), (-to_sym(w))._le(to_sym(tol))]
    return f_and(fs)


def fmat(ctx, rows):
    return ctx.arr(np.array(rows, dtype=object)) if ctx.sym else np.array(rows, dtype=float)


def cmat(ctx, rows):
    return ctx.arr(np.array(rows, dtype=object)) if ctx.sym else np.array(rows, dtype=complex)


def shapes(d):
    return {'1d': ([[1]], [[1 + d]]), 'shear': ([[1, 0], [0, 1]], [[1, d], [0, 1]]), 'shear half': ([[0.5, 1], [-0.75, 0.5]], [[0.5, 1], [-0.75 + d, 0.5]]),
            'sign': ([[-1, 0], [0, 1]], [[-1, 0], [0, 1 + d]]), '3d': ([[0, 1, 0], [1, 0, 0], [0, 0, -1]], [[0, 1, 0], [1, 0, d], [0, 0, -1]]),
            'third': ([[0.25, 0, 0], [0, 1, 0], [0, 0, 1]], [[0.25, 0, 0], [0, 1 - d, 0], [0, 0, 1]])}


SH = list(shapes(0))


@H(cases={s: dict(s=s) for s in SH}, exact_tol=False, time_limit=60,
   bounds='R in 1-3 dimensions, one element off by any d with |d| <= 1e-12 or 1e-2 <= |d| <= 0.9 (shear: 3)')
def rotations(ctx, s):
    """construction, equality and products of elements whose R are nearly, or not nearly, equal"""
    Q = ctx.Q
    far, d = dev(ctx, 0.01, 3 if s == 'shear' else 0.9)
    R1, R2 = (fmat(ctx, r) for r in shapes(d)[s])
    g1, g2 = Q.PointGroupElement(R1), Q.PointGroupElement(R2)
    for g, R in ((g1, R1), (g2, R2)):
        ctx.check(close(ctx, g.R, R), 'R is the given matrix')
    cls(ctx, far, g1 == g2, 'R')
    cls(ctx, far, g2 == g1, 'R, other order')
    ctx.check(truth(g2 == g2), 'equal to itself')
    e = Q.PointGroupElement(imat(ctx, [[int(i == j) for j in range(len(R1))] for i in range(len(R1))]))
    ctx.check(close(ctx, (g2 * e).R, R2), 'product with the identity')
    ctx.check(close(ctx, (e * g2).R, R2), 'product with the identity')


@H(cases={f'{s}{n}': dict(s=s, n=n) for s in (1, -1) for n in (2, 3)}, exact_tol=False, time_limit=60,
   bounds='rotations by any angle with 1e-2 <= |sin| <= 0.9, and inverses')
def small_angles(ctx, s, n):
    """a small rotation is not the identity"""
    Q = ctx.Q
    R = ctx.orthogonal('R', 2, det=1)
    if ctx.sym:
        ctx.assume(to_sym(0.01)._le(R[1, 0] * s))
        ctx.assume((R[1, 0] * s)._le(to_sym(0.9)))
    else:
        ctx.assume(0.01 <= R[1, 0] * s <= 0.9)
    if n == 3:
        R = fmat(ctx, [[R[0, 0], R[0, 1], 0], [R[1, 0], R[1, 1], 0], [0, 0, 1]])
    g = Q.PointGroupElement(R)
    ctx.check(close(ctx, g.R, R), 'R is the given matrix')
    e = Q.identity(n)
    ctx.check(not truth(g == e) and not truth(e == g), 'not the identity')
    ctx.check(len({g, e}) == 2, 'two elements of a set')


def turn(ctx, far, name='V'):
    """rotation by a small angle, or by one with sine between 1e-2 and 0.9"""
    V = ctx.orthogonal(name, 2, det=1)
    lo, hi = (0.01, 0.9) if far else (0, 1e-12)
    if ctx.sym:
        ctx.assume(f_and([to_sym(lo)._le(V[1, 0]), V[1, 0]._le(to_sym(hi)), Sym(0)._le(V[0, 0])]))
    else:
        ctx.assume(lo <= V[1, 0] <= hi and V[0, 0] >= 0)
    return V


@H(cases={f'{k}{"-strict" if st else ""}': dict(k=k, st=st) for k in ('phase', 'turn', 'global') for st in (True, False)}, exact_tol=False, time_limit=60,
   bounds='2x2 U that differ by any relative phase, rotation or global phase with sine at most 1e-12 or from 1e-2 to 0.9')
def unitaries(ctx, k, st):
    """elements that differ in U only: equal with _strict_eq iff the U agree up to a phase"""
    Q = ctx.Q
    far = bool(ctx.choose('far', 2))
    V = turn(ctx, far)
    c, s = V[0, 0], V[1, 0]
    u = c + 1j * s
    U1 = cmat(ctx, [[0, 1], [1j, 0]])
    D = {'phase': [[1, 0], [0, u]], 'turn': [[c, -s], [s, c]], 'global': [[u, 0], [0, u]]}[k]
    U2 = U1 @ cmat(ctx, D)
    g1 = Q.PointGroupElement(np.eye(1), False, True, U1, _strict_eq=st)
    g2 = Q.PointGroupElement(np.eye(1), False, True, U2, _strict_eq=False)
    ctx.check(close(ctx, g2.U, U2, 1e-9), 'U is the given matrix')
    cls(ctx, far and st and k != 'global', g1 == g2, 'U')
    cls(ctx, far and st and k != 'global', g2 == g1, 'U, other order')
    cls(ctx, far, g1._strictereq(g2), '_strictereq')


@H(cases={'': {}}, exact_tol=False, time_limit=60, bounds='2x2 matrices of any singular vectors, singular values 1 and d with d <= 1e-12 or 1e-2 <= d <= 0.9')
def nullspace(ctx):
    """a matrix has a null vector iff a singular value is a rounding error"""
    Q = ctx.Q
    far = bool(ctx.choose('far', 2))
    d = ctx.real('d')
    lo, hi = (0.01, 0.9) if far else (0, 1e-12)
    ctx.assume(f_and([to_sym(lo)._le(d), d._le(to_sym(hi))]) if ctx.sym else lo <= d <= hi)
    U, V = ctx.orthogonal('U', 2, det=1), ctx.orthogonal('V', 2, det=1)
    M = U @ cmat(ctx, [[1, 0], [0, d]]) @ V
    ctx.hint('svd', M, (U, [1, d], V))
    ns, nsc = Q.linalg.nullspace(M, return_complement=True)
    ctx.check((len(ns), len(nsc)) == ((0, 2) if far else (1, 1)), 'dimensions')
    if not far and len(ns) == 1:
        ctx.check(close(ctx, M @ ns.T, zeros(ctx, (2, 1)), 1e-9), 'null vector')
    ns = Q.linalg.nullspace(M)
    ctx.check(len(ns) == 1 - far, 'dimension without the complement')


@H(cases={k: dict(k=k) for k in ('duplicates', 'subtract')}, exact_tol=False, time_limit=60,
   bounds='families of two members, one of them of weight d with d <= 1e-12 or 1e-2 <= d <= 0.9')
def families(ctx, k):
    """members are linearly independent iff their weight is not a rounding error"""
    Q = ctx.Q
    far = bool(ctx.choose('far', 2))
    d = ctx.real('d')
    lo, hi = (0.01, 0.9) if far else (0, 1e-12)
    ctx.assume(f_and([to_sym(lo)._le(d), d._le(to_sym(hi))]) if ctx.sym else lo <= d <= hi)
    A = Q.Model({'k_x': cmat(ctx, [[1]])}, momenta=['k_x', 'k_y'])
    B = Q.Model({'k_y': cmat(ctx, [[1]])}, momenta=['k_x', 'k_y']) * d
    I, X = cmat(ctx, [[1, 0], [0, 1]]), cmat(ctx, [[0, 1], [1, 0]])

    def unit(*js):
        """permutation matrix with these first columns"""
        js = list(js) + [j for j in range(4) if j not in js]
        return cmat(ctx, [[int(i == j) for j in js] for i in range(4)])
    for i, j in ((0, 2), (2, 0)):
        # elements are at row i (real part of k_x) and j (real part of k_y), in the order in which the set of keys is stored
        E = unit(i, j)
        M, P = (E[:, :2] @ cmat(ctx, [[x, 0], [0, d]]) for x in (1, 0))
        for N, (u, v, w) in ((M, (E, [1, d], I)), (P, (unit(j, i), [d, 0], X))):
            ctx.hint('svd', N, (u, v, w))
            ctx.hint('svd', N.T, (w.T, v, u.T))
    if k == 'duplicates':
        r = Q.hamiltonian_generator.remove_duplicates([A, B])
        ctx.check(len(r) == 1 + far, 'number of independent members')
    else:
        r = Q.hamiltonian_generator.subtract_family([A, B], [A])
        ctx.check(len(r) == int(far), 'number of members left')


@H(cases={k: dict(k=k) for k in ('one', 'two')}, exact_tol=False, time_limit=60,
   bounds='symmetric 2x2 matrices with any eigenvectors and eigenvalues that differ by d <= 1e-12 or 1e-2 <= d <= 0.9')
def eigenspaces(ctx, k):
    """joint eigenspaces are split iff the eigenvalues differ"""
    Q = ctx.Q
    far = bool(ctx.choose('far', 2))
    d = ctx.real('d')
    lo, hi = (0.01, 0.9) if far else (0, 1e-12)
    ctx.assume(f_and([to_sym(lo)._le(d), d._le(to_sym(hi))]) if ctx.sym else lo <= d <= hi)
    W = ctx.orthogonal('W', 2, det=1)
    M = W @ cmat(ctx, [[0.5, 0], [0, 0.5 + d]]) @ W.T
    ctx.hint('eigh', M, ([0.5, 0.5 + d], W))
    if k == 'one':
        Ps = Q.simult_diag(Q.np.array([M]))
    else:
        E = cmat(ctx, [[2, 0], [0, 2]])
        ctx.hint('eigh', E, ([2, 2], cmat(ctx, [[1, 0], [0, 1]])))
        Ps = Q.simult_diag(Q.np.array([E, M]))
    ctx.check([P.shape[1] for P in Ps] == ([1, 1] if far else [2]), 'eigenspaces')


@H(cases={k: dict(k=k) for k in ('id', 'off', 'diag', 'imag', 'zero', 'zero diag', 'scaled')}, exact_tol=False, time_limit=60,
   bounds='2x2 matrices, one element off by any d with |d| <= 1e-12 or 1e-2 <= |d| <= 0.9')
def prop_to_id(ctx, k):
    Q = ctx.Q
    far, d = dev(ctx, 0.01, 0.9)
    A = cmat(ctx, {'id': [[1 + d, 0], [0, 1 + d]], 'off': [[1, d], [0, 1]], 'diag': [[1, 0], [0, 1 + d]], 'imag': [[1j, 0], [0, 1j + d]],
                   'zero': [[0, 0], [d, 0]], 'zero diag': [[0, 0], [0, d]], 'scaled': [[-7, 0], [0, -7 - 7 * d]]}[k])
    p, c = Q.linalg.prop_to_id(A)
    if k == 'id':
        ctx.check(truth(p) and close(ctx, c, A[0, 0], 1e-9), 'proportional to the identity')
    else:
        cls(ctx, far, p, 'proportional to the identity')
        ctx.check(close(ctx, c, 0 if far else A[0, 0], 1e-9), 'factor')


@H(cases={f'{a}-{t}': dict(a=a, t=t) for a in ('add', 'scale', 'missing', 'second') for t in ('dense', 'csr', 'scalar', 'bloch')}, exact_tol=False, time_limit=60,
   bounds='Models of two terms, one coefficient off by any d with |d| <= 1e-12 or 1e-2 <= |d| <= 0.9')
def models(ctx, a, t):
    """equality of Models, and symmetry checks, which rely on it"""
    Q = ctx.Q
    far, d = dev(ctx, 0.01, 0.9)
    keys = ('e**(I*k_x)', 'e**(2*I*k_x)') if t == 'bloch' else ('k_x', 'k_x**2')

    def mk(terms):
        return (Q.BlochModel if t == 'bloch' else Q.Model)(terms, momenta=['k_x'])

    def term(v):
        return v if t == 'scalar' else (Q.sp.csr_matrix(v, dtype=complex) if t == 'csr' else v)

    if a == 'missing':
        one, small = (1, d) if t == 'scalar' else (cmat(ctx, [[1, 0], [0, 2]]), cmat(ctx, [[0, 0], [d, 0]]))
        A = mk({keys[0]: term(one), keys[1]: term(small)})
        B = mk({keys[0]: term(one)})
    else:
        x, y = {'add': ([1, 1], [1 + d, 1]), 'scale': ([3, 1], [3 * (1 + d), 1]), 'second': ([1, 1j], [1, 1j + d])}[a]
        A, B = (mk({k: term(v if t == 'scalar' else cmat(ctx, [[v, 0], [0, 2]])) for k, v in zip(keys, vs)}) for vs in (x, y))
    cls(ctx, far, A == B, 'Models')
    cls(ctx, far, B == A, 'Models, other order')
    cls(ctx, far, (A - B) == 0, 'difference')
    cls(ctx, far, A.allclose(B), 'allclose')


@H(cases={k: dict(k=k) for k in ('chiral', 'mirror', 'continuous', 'rounded')}, exact_tol=False, time_limit=60,
   bounds='two-orbital Hamiltonian, broken by any d with |d| <= 1e-12 or 1e-2 <= |d| <= 0.9')
def check_symmetry(ctx, k):
    Q = ctx.Q
    far, d = dev(ctx, 0.01, 0.9)
    sz = np.diag([1, -1])
    kx = 'k_x'
    if k == 'continuous':
        S = Q.ContinuousGroupGenerator(None, np.diag([1., -1]))
        m = Q.Model({kx: cmat(ctx, [[1, d], [d, 2]])}, momenta=['k_x'])
    elif k == 'mirror':
        S = Q.PointGroupElement(-np.eye(1), False, False, sz)
        m = Q.Model({kx: cmat(ctx, [[d, 1], [1, 0]])}, momenta=['k_x'])
    else:
        S = Q.PointGroupElement(np.eye(1), False, True, sz)
        m = Q.Model({kx: cmat(ctx, [[d, 1], [1, 0]])}, momenta=['k_x'])
    try:
        Q.hamiltonian_generator.check_symmetry([m], [S], **({'num_digits': 3} if k == 'rounded' else {}))
        ok = True
    except ValueError:
        ok = False
    cls(ctx, far, ok, 'symmetry')


@H(cases={k: dict(k=k) for k in ('R', 'U', 'both')}, exact_tol=False, time_limit=60,
   bounds='generators scaled by any d with |d| <= 1e-12 or 1e-2 <= |d| <= 10')
def generators(ctx, k):
    """a small generator acts as a small generator; R and U that are not Hermitian are rejected"""
    Q = ctx.Q
    far, d = dev(ctx)
    kx = 'k_x'
    R = cmat(ctx, [[0, 1j * d], [-1j * d, 0]]) if k != 'U' else None
    U = cmat(ctx, [[0, d], [d, 0]]) if k != 'R' else None
    m = Q.Model({kx: cmat(ctx, [[1, 0], [0, -1]])}, momenta=['k_x', 'k_y'])
    r = Q.ContinuousGroupGenerator(R, U).apply(m)
    xs = (0.75, -0.5)
    env = dict(zip(NAMES, xs))
    got = meval(ctx, r, env) if r.data else zeros(ctx, (2, 2))
    want = zeros(ctx, (2, 2))
    if k != 'U':
        # 1j dH/dk_i R_ij k_j
        want = want + cmat(ctx, [[-d * xs[1], 0], [0, d * xs[1]]])
    if k != 'R':
        # 1j (H U - U H)
        want = want + cmat(ctx, [[0, 1j * d * xs[0] * 2], [-1j * d * xs[0] * 2, 0]])
    ctx.check(close(ctx, got, want, 1e-9), 'action')
    if k != 'R':
        V = cmat(ctx, [[1, 1], [1 + d, 1]])
        cls(ctx, far, not raises(lambda: Q.ContinuousGroupGenerator(None, V), ValueError), 'Hermitian U')
    if k != 'U':
        V = cmat(ctx, [[0, 1j], [-1j + d, 0]])
        cls(ctx, far, not raises(lambda: Q.ContinuousGroupGenerator(V, None), ValueError), 'antisymmetric R')
        V = cmat(ctx, [[d, 1j], [-1j, 0]])
        cls(ctx, far, not raises(lambda: Q.ContinuousGroupGenerator(V, None), ValueError), 'antisymmetric R (diagonal)')


@H(cases={k: dict(k=k) for k in ('1d', '2d', 'zero')}, exact_tol=False, time_limit=60,
   bounds='hopping vectors in 1 and 2 dimensions, one component off by any d with |d| <= 1e-12 or 1e-2 <= |d| <= 10')
def hoppings(ctx, k):
    """hoppings are the same Bloch coefficient iff the vectors agree"""
    Q = ctx.Q
    far, d = dev(ctx, 0.01, 0.9)
    a = sympy.Symbol('a')
    v, w = {'1d': ([1], [1 + d]), '2d': ([1, -0.5], [1, -0.5 + d]), 'zero': ([0, 0], [d, 0])}[k]
    b1, b2 = (Q.BlochCoeff(ctx.arr(np.array(x, dtype=object)) if ctx.sym else np.array(x, dtype=float), a) for x in (v, w))
    cls(ctx, far, b1 == b2, 'hopping')
    cls(ctx, far, b2 == b1, 'hopping, other order')
    ctx.check(hash(b1) == hash(b2), 'hash')
    m = Q.BlochModel({b1: cmat(ctx, [[1]])}, momenta=NAMES[:len(v)]) + Q.BlochModel({b2: cmat(ctx, [[2]])}, momenta=NAMES[:len(v)])
    ctx.check(len(m.data) == 1 + far, 'terms of the sum')
    ctx.check_eq(m[b1], cmat(ctx, [[1 if far else 3]]), 'first amplitude')
    ctx.check_eq(m[b2], cmat(ctx, [[2 if far else 3]]), 'second amplitude')
    if k == 'zero':
        one = Q.BlochCoeff(b2[0], sympy.Integer(1))
        cls(ctx, far, one == 1, 'on-site')


@H(cases={str(n): dict(n=n) for n in (0, 1, 2, 3)}, exact_tol=False, time_limit=60,
   bounds='Models with one or two terms, any real coefficients between -8 and 8, 0-3 digits')
def rounding(ctx, n):
    """around and round_family: nearest multiple of 10^-n, terms that round to zero left out"""
    Q = ctx.Q
    x, y = ctx.real('x'), ctx.real('y')
    for z in (x, y):
        if ctx.sym:
            ctx.assume(to_sym(-8)._le(z))
            ctx.assume(z._le(to_sym(8)))
        else:
            ctx.assume(-8 <= z <= 8)
    A = Q.Model({'k_x': cmat(ctx, [[x, 0], [0, y]])}, momenta=['k_x'])
    for m in (A.around(n), Q.hamiltonian_generator.round_family([A], n)[0]):
        ctx.check(tuple(m.shape) == (2, 2) and m.momenta == A.momenta, 'attributes')
        v = list(m.values())[0] if m.data else zeros(ctx, (2, 2))
        v = ctx.arr(v)
        half = 0.5 * 10.0**-n + (0 if ctx.sym else 1e-12)
        ctx.check(close(ctx, v, cmat(ctx, [[x, 0], [0, y]]), half), 'within half a unit of the last digit')
        for i in range(2):
            u = v[i, i] * 10**n
            if ctx.sym:
                r = Q.np.around(u, 0)
                ctx.check(to_sym(u)._eq(to_sym(r)), 'digits')
            else:
                ctx.check(abs(u - np.round(u)) < 1e-6, 'digits')


@H(cases={f'{n}': dict(n=n) for n in (2, 3)}, exact_tol=False, time_limit=60,
   bounds='ascending lists of 2 or 3 values, gaps of any d <= 1e-12 or 1e-2 <= d <= 10')
def split_list(ctx, n):
    Q = ctx.Q
    far, d = dev(ctx, name='d')
    ctx.assume(to_sym(0)._le(d) if ctx.sym else d >= 0)
    vals = [0.5, 0.5 + d] + ([0.5 + d + (0 if far else 1)] if n == 3 else [])
    r = np.array(Q.linalg.split_list(ctx.arr(np.array(vals, dtype=object)) if ctx.sym else np.array(vals, dtype=float)))
    want = {(2, True): [[0, 1], [1, 2]], (2, False): [[0, 2]], (3, True): [[0, 1], [1, 3]], (3, False): [[0, 2], [2, 3]]}[(n, far)]
    ctx.check(r.tolist() == want, 'blocks of equal values')


@H(cases={k: dict(k=k) for k in ('id', 'rows', 'cols')}, exact_tol=False, time_limit=60,
   bounds='2x2 matrices with a rank that depends on any d with |d| <= 1e-12 or 1e-2 <= |d| <= 0.9')
def rref(ctx, k):
    """a pivot of one percent is a pivot"""
    Q = ctx.Q
    far, d = dev(ctx, 0.01, 0.9)
    M = cmat(ctx, {'id': [[1, 0], [0, d]], 'rows': [[1, 1], [1, 1 + d]], 'cols': [[0, 1], [d, 2]]}[k])
    r = ctx.arr(Q.linalg.rref(M))
    if k == 'cols' and not far:
        ctx.check(close(ctx, r[0, 0], 0, 1e-9) and close(ctx, r[0, 1], 1, 1e-9), 'first row')
    rank2 = close(ctx, r, cmat(ctx, [[1, 0], [0, 1]]), 1e-9)
    ctx.check(iff(truth(rank2), far), 'rank two iff the rows are independent')


@H(cases={k: dict(k=k) for k in ('inversion', 'chiral')}, exact_tol=False, time_limit=60, bounds='two bands k and -(1 + d) k with d <= 1e-12 or 1e-2 <= d <= 0.9')
def symmetries(ctx, k):
    """a symmetry that exchanges two bands exists iff their energies agree"""
    Q = ctx.Q
    far = bool(ctx.choose('far', 2))
    d = ctx.real('d')
    lo, hi = (0.01, 0.9) if far else (0, 1e-12)
    ctx.assume(f_and([to_sym(lo)._le(d), d._le(to_sym(hi))]) if ctx.sym else lo <= d <= hi)
    m = Q.Model({'k_x': cmat(ctx, [[1, 0], [0, -1 - d]])}, momenta=['k_x'])
    g = Q.PointGroupElement((-1 if k == 'inversion' else 1) * np.eye(1), False, k == 'chiral')
    Ps = tuple(cmat(ctx, [[[1], [0]]] if i == 0 else [[[0], [1]]]) for i in range(2))
    for x in (d, d + 2, 2 * d + 2, 2):
        for sg in (1, -1):
            ctx.hint('svd', cmat(ctx, [[x * sg]]), (cmat(ctx, [[sg]]), [x], cmat(ctx, [[1]])))
    syms, _ = Q.discrete_symmetries(m, {g}, Ps=Ps)
    found = any(truth(x == g) for x in syms)
    cls(ctx, far, found, 'symmetry')
