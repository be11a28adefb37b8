"""continuous_symmetries: continuous rotation symmetries of a Hamiltonian family."""
import sympy
from se.runner import Registry
from .common import *
from .G07 import deriv
from .L07 import outer, apart, reals, dsum
from .S02 import irr, num1, rows, tbasis, perm, nullrows, center, coeffs
from .S03 import mat, sizable, eqv

H = Registry()
STUBS = ['scipy.linalg.svd / eigh: see L04, S02']
ASSUMPTIONS = ['comparisons with tolerances up to 1e-6 are exact']
OUTSIDE = 'families with blocks larger than 2x2, more than 3 orbitals'


def rbasis(dim):
    import qsymm.linalg
    return [np.asarray(b, dtype=complex) for b in qsymm.linalg.matrix_basis(dim, antihermitian=True, real=True)]


def vec(ctx, dim, R, Ls):
    """normalised coefficients of a generator; R is constant, Ls are traceless generators of the blocks"""
    r = [complex(np.trace(b.conj().T @ (-1j * R)) / np.trace(b.conj().T @ b)).real for b in rbasis(dim)]
    v = list(r)
    nr = sum(x * x for x in r)
    for L, n2 in Ls:
        v += rows(ctx, [L])[0]
        c = np.linalg.norm(np.array([np.trace(b @ b).real for b in tbasis(L.shape[0])]))
        nr += n2
    return [x * (1 / np.sqrt(nr)) for x in v]


def Rgen(dim, i, j):
    R = np.zeros((dim, dim), dtype=complex)
    R[i, j], R[j, i] = -1j, 1j
    return R


def hint_null(ctx, vs, n):
    B = np.array(vs, dtype=object if ctx.sym else float).reshape(len(vs), n)
    ctx.hint('null!', ctx.arr(B) if len(vs) else np.zeros((0, n)))


def spec(ctx, gens, terms, dim, N, count):
    """the result: independent generators with R != 0 that leave the family invariant, as many as there are"""
    ctx.check(len(gens) == count, 'number of continuous rotation symmetries')
    ks, env = kvals(ctx, dim)
    Hk = eval_terms(ctx, terms, env)
    Rs = []
    for g in gens:
        R = ctx.arr(g.R)
        L = ctx.arr(g.U)
        ctx.check(R.shape == (dim, dim) and L.shape == (N, N), 'shapes')
        ctx.check_eq(R, dag(ctx, R), 'R is Hermitian')
        ctx.check_eq(R, R.T * -1, 'R is antisymmetric')
        ctx.check_eq(L, dag(ctx, L), 'U is Hermitian')
        inv = (Hk @ L - L @ Hk) * 1j
        d = deriv(ctx, terms, dim, R, ks, env)
        ctx.check_eq(inv if d is None else inv + d * 1j, zeros(ctx, (N, N)), 'leaves the family invariant')
        Rs.append([R[i, j] for i in range(dim) for j in range(i)])
    if Rs:
        n = len(Rs)
        M = ctx.arr(np.array([[sum((a[q] * to_sym(b[q]).conjugate() if ctx.sym else a[q] * np.conj(b[q]) for q in range(len(a))), 0 * a[0]) for b in Rs] for a in Rs], dtype=object if ctx.sym else complex))
        d = ctx.Q.la.det(M) if ctx.sym else np.linalg.det(M)
        ctx.check(f_not(to_sym(d)._eq(Sym(0))) if ctx.sym else abs(d) > 1e-9, 'rotations are independent')


def find(ctx, terms, dim, N, api, fmt=None):
    m = ctx.Q.Model({SY(k): v for k, v in terms}, momenta=NAMES[:dim])
    if fmt == 'csr':
        m = m.tocsr()
    if api == 'symmetries':
        ds, cs = ctx.Q.symmetries(m, candidates=set(), continuous_rotations=True)
        ctx.check(len(ds) == 0, 'no discrete candidates')
        ctx.check(all(g.R is None for g in cs[:len([g for g in cs if g.R is None])]), 'conserved quantities first')
        return [g for g in cs if g.R is not None]
    if api == 'pretty':
        return ctx.Q.symmetry_finder.continuous_symmetries(m)
    return ctx.Q.symmetry_finder.continuous_symmetries(m, prettify=False)


API = ('plain', 'symmetries', 'pretty')


@H(cases={f'{k}-{a}': dict(k=k, api=a) for k in ('quad', 'mixed', 'lin', 'const', 'cubic') for a in API}, time_limit=60,
   bounds='2D, one orbital: every quadratic form, linear and constant Hamiltonians, k_x^4 + k_x^2 k_y^2 + k_y^4 with any amplitudes')
def scalar2d(ctx, k, api):
    ctx.exact_tol()
    keys = {'quad': ['k_x**2', 'k_y**2', 'k_x*k_y', '1'], 'mixed': ['a*k_x**2', 'a*k_y**2', 'k_x**2', 'k_y**2'], 'lin': ['k_x', 'k_y'], 'const': ['1', 'a'],
            'cubic': ['k_x**4', 'k_x**2*k_y**2', 'k_y**4']}[k]
    co = [ctx.real(f'c{i}', -3, 3) for i in range(len(keys))]
    if k == 'cubic':
        for i in (0, 2):
            sizable(ctx, [co[i]])
    elif k != 'lin':
        co = [ctx.choose(f'z{i}', 2) * c for i, c in enumerate(co)] if ctx.choose('some', 2) else co
    nz = [x for x in co if not (isinstance(x, (int, float)) and x == 0 or ctx.sym and to_sym(x)._eq(Sym(0)) is True)]
    for x in nz:
        sizable(ctx, [x])
    if not nz:
        return
    terms = [(kk, num1(ctx, c)) for kk, c in zip(keys, co)]
    z = Sym(0) if ctx.sym else 0
    sym = {'quad': lambda: eqv(ctx, co[:3], [co[1], co[0], z]), 'mixed': lambda: eqv(ctx, co, [co[1], co[0], co[3], co[2]]), 'lin': lambda: False, 'const': lambda: True,
           'cubic': lambda: eqv(ctx, co, [co[2], co[0] * 2, co[0]])}[k]()
    spec(ctx, find(ctx, terms, 2, 1, api), terms, 2, 1, 1 if sym else 0)


@H(cases={f'{k}-{a}': dict(k=k, api=a) for k in ('diag', 'lin') for a in API}, time_limit=60,
   bounds='3D, one orbital: every diagonal quadratic form; every linear Hamiltonian along an axis')
def scalar3d(ctx, k, api):
    ctx.exact_tol()
    pairs = [(0, 1), (0, 2), (1, 2)]
    if k == 'diag':
        pat = ctx.choose('pattern', 5)
        if pat == 0:
            c, yes = reals(ctx, 'c', 3), []
            for p in pairs:
                apart(ctx, c[p[0]], c[p[1]])
        elif pat == 4:
            c, yes = [ctx.real('c', -3, 3)] * 3, pairs
        else:
            p = pairs[pat - 1]
            x, y = reals(ctx, 'c', 2)
            apart(ctx, x, y)
            c, yes = [x if q in p else y for q in range(3)], [p]
        for x in c:
            sizable(ctx, [x])
        terms = [(f'{m}**2', num1(ctx, x)) for m, x in zip(NAMES, c)]
    else:
        a = ctx.choose('axis', 3)
        x = ctx.real('c', -3, 3)
        sizable(ctx, [x])
        terms = [(NAMES[a], num1(ctx, x))]
        yes = [p for p in pairs if a not in p]
    hint_null(ctx, [vec(ctx, 3, Rgen(3, *p), []) for p in yes], 3)
    spec(ctx, find(ctx, terms, 3, 1, api), terms, 3, 1, len(yes))


@H(cases={f'{e}-{a}': dict(extra=e, api=a) for e in ('', 'mass', 'quad') for a in API[:2]}, time_limit=60,
   bounds='2D, irreducible 2x2 block in any unitary basis: every linear Hamiltonian k_x M_1 + k_y M_2 with noncommuting M, with a mass term or a quadratic term that may break the symmetry')
def dirac2d(ctx, extra, api):
    ctx.exact_tol()
    W = ctx.unitary('W')
    l = ctx.real('l', -3, 3)
    sizable(ctx, [l])
    i = Sym(1j) if ctx.sym else 1j
    z = Sym(0) if ctx.sym else 0

    def m(a, b, c, s=z):
        return W @ mat(ctx, [[a + b, c - i * s], [c + i * s, a - b]]) @ dag(ctx, W)

    def other(name):
        x = ctx.real(name, -3, 3)
        sizable(ctx, [x])
        return x
    # without loss of generality: M1 = c0 + l s_z, M2 = c1 + d s_z + e s_x in some basis
    ways = ['yes', 'c0', 'c1', 'd', 'e'] + {'': [], 'mass': ['x', 'z'], 'quad': ['q']}[extra]
    way = ways[ctx.choose('way', len(ways))]
    c0, c1, d = [other(n) if way == n else z for n in ('c0', 'c1', 'd')]
    if way in ('c0', 'c1', 'd', 'e'):
        e = other('e')
        if way == 'e':
            apart(ctx, l * l, e * e)
    else:
        e = l * (1, -1)[ctx.choose('sign', 2)]
    terms = [('k_x', m(c0, l, z)), ('k_y', m(c1, d, e))]
    if extra == 'mass':
        terms.append(('a', m(z, other('x') if way == 'z' else z, other('x') if way == 'x' else z, ctx.real('y', -3, 3))))
        sizable(ctx, [ctx.real('y', -3, 3)])
    elif extra == 'quad':
        x = other('x')
        y = other('y') if way == 'q' else x
        if way == 'q':
            apart(ctx, x, y)
        terms += [('a*k_x**2', m(z, z, z, x)), ('a*k_y**2', m(z, z, z, y))]
    ctx.hint('null!', np.zeros((0, 3)))   # irreducible
    yes = way == 'yes'
    if yes:
        for s in (1, -1):
            L = m(z, z, z, Sym(0.5 * s) if ctx.sym else 0.5 * s)
            hint_null(ctx, [vec(ctx, 2, Rgen(2, 0, 1), [(L, 0.25)])], 4)
    else:
        hint_null(ctx, [], 4)
    spec(ctx, find(ctx, terms, 2, 2, api), terms, 2, 2, 1 if yes else 0)


@H(cases={f'{a}': dict(api=a) for a in API[:2]}, time_limit=60,
   bounds='2D, two inequivalent bands in any unitary basis: a (k_x^2 + q k_y^2) with every amplitude of the bands, isotropic or anisotropic in one or both bands')
def lines2d(ctx, api):
    ctx.exact_tol()
    W = ctx.unitary('W')
    x = reals(ctx, 'x', 2)
    apart(ctx, x[0], x[1])
    sizable(ctx, x)
    way = ctx.choose('way', 4)
    y = [x[0], x[1]]
    for q in range(2):
        if way >> q & 1:
            y[q] = ctx.real(f'y{q}')
            apart(ctx, x[q], y[q])
    sizable(ctx, y)
    terms = [('k_x**2', outer(ctx, W, x)), ('k_y**2', outer(ctx, W, y))]
    L = outer(ctx, W, [1, -1])
    ctx.hint('null!', ctx.arr(np.asarray(coeffs(ctx, L)).reshape(1, 3)))
    ctx.hint('eigh', L, ([-1, 1], W @ ctx.arr(np.array([[0, 1], [1, 0]]))))
    ctx.hint('eigh', L * -1, ([-1, 1], W))
    gens = find(ctx, terms, 2, 2, api)
    spec(ctx, gens, terms, 2, 2, 1 if way == 0 else 0)


@H(cases={f'{w}-{a}': dict(pat=w, api=a) for a in API[:2] for w in range(5)}, time_limit=60,
   bounds='3D, irreducible 2x2 block in any unitary basis: sum_i v_i k_i s_i with all |v_i| equal, two equal, or none, with an optional term b m(k) 1')
def weyl3d(ctx, pat, api):
    ctx.exact_tol()
    W = ctx.unitary('W')
    pairs = [(0, 1), (0, 2), (1, 2)]
    sg = [1] + [(1, -1)[ctx.choose(f's{i}', 2)] for i in (1, 2)]
    v = [ctx.real(f'v{i}', -3, 3) for i in range(3)]
    for x in v:
        sizable(ctx, [x])
    if pat == 0:
        yes = []
    elif pat == 4:
        v, yes = [v[0]] * 3, list(pairs)
    else:
        p = pairs[pat - 1]
        v = [v[p[0]] if q in p else v[q] for q in range(3)]
        yes = [p]
    v = [x * s for x, s in zip(v, sg)]
    for p in pairs:
        if p not in yes:
            apart(ctx, v[p[0]] * v[p[0]], v[p[1]] * v[p[1]])
    S = [W @ cst(ctx, m) @ dag(ctx, W) for m in ([[0, 1], [1, 0]], [[0, -1j], [1j, 0]], [[1, 0], [0, -1]])]
    terms = [(k, m * x) for k, m, x in zip(NAMES, S, v)]
    if ctx.choose('mass', 2):
        b = ctx.real('b', -3, 3)
        sizable(ctx, [b])
        terms += [(f'a*{k}**2', eye(ctx, 2) * b) for k in NAMES]
    ctx.hint('null!', np.zeros((0, 3)))   # irreducible
    for s in range(8) if yes else ():
        vs = []
        for i, p in enumerate(yes):
            k = 3 - sum(p)
            vs.append(vec(ctx, 3, Rgen(3, *p), [(S[k] * (0.5 * (1, -1)[s >> i & 1]), 0.25)]))
        if len(yes) == 3 or s < 2:
            hint_null(ctx, vs, 6)
    if not yes:
        hint_null(ctx, [], 6)
    spec(ctx, find(ctx, terms, 3, 2, api), terms, 3, 2, len(yes))


@H(cases={f'{w}-{a}': dict(way=w, api=a) for a in API[:2] for w in range(3)}, time_limit=60,
   bounds='2D, 3x3: irreducible 2x2 block l (k_x s_z + k_y s_x) and a band x k_x^2 + y k_y^2 in every position of the 3-orbital basis and in a complex basis that mixes them, every amplitude, two eigenbases of the conserved quantity')
def dirac_and_line(ctx, way, api):
    ctx.exact_tol()
    # the last one: a complex basis that mixes the block and the band
    p = const(ctx, np.array([[1, 0, 0], [0, 0.6, 0.8j], [0, 0.8j, 0.6]])) if ctx.choose('turn', 2) else perm(ctx)
    l, e = [ctx.real(n, -3, 3) for n in 'le']
    x, y = [ctx.real(n, -3, 3) for n in 'xy']
    for q in (l, e, x, y):
        sizable(ctx, [q])
    if way == 1:
        apart(ctx, l * l, e * e)
    else:
        e = l * (1, -1)[ctx.choose('sign', 2)]
    if way == 2:
        apart(ctx, x, y)
    else:
        y = x
    sz, sx, sy = [cst(ctx, m) for m in ([[1, 0], [0, -1]], [[0, 1], [1, 0]], [[0, -1j], [1j, 0]])]
    z2, z1 = zeros(ctx, (2, 2)), num1(ctx, 0 * x)
    H_ = [('k_x', sz * l, z1), ('k_y', sx * e, z1), ('a*k_x**2', z2, num1(ctx, x)), ('a*k_y**2', z2, num1(ctx, y))]
    terms = [(k, p @ dsum(ctx, [m, n]) @ dag(ctx, p)) for k, m, n in H_]
    L0 = np.diag([1., 1, -2])
    B = nullrows(ctx, [p @ const(ctx, L0) @ dag(ctx, p)])
    ctx.hint('null!', B)
    V = cst(ctx, [np.eye(2), np.array([[1, 1j], [1j, 1]]) / 2**.5][ctx.choose('V', 2)])
    center(ctx, p, sum(b * t for b, t in zip(B[0], tbasis(3))), V)
    ctx.hint('null!', np.zeros((0, 3)))
    if way:
        hint_null(ctx, [], 4)
    else:
        for s in (0.5, -0.5):
            hint_null(ctx, [vec(ctx, 2, Rgen(2, 0, 1), [(dag(ctx, V) @ (sy * s) @ V, 0.25)])], 4)
    gens = find(ctx, terms, 2, 3, api)
    spec(ctx, gens, terms, 2, 3, 0 if way else 1)


def cst(ctx, m):
    return const(ctx, np.array(m, dtype=complex))
