"""discrete_symmetries, symmetries: exactly the candidates that are symmetries."""
import itertools as it
import sympy
from se.runner import Registry
from .common import *
from .G01 import expected
from .L07 import outer, apart
from .S02 import num1
from .S03 import mat, sizable, bounded, eqv, line_image, image_ok

H = Registry()
STUBS = ['scipy.linalg.svd / eigh: see L04, S02']
ASSUMPTIONS = ['comparisons with tolerances up to 1e-6 are exact']
OUTSIDE = 'Hamiltonians with blocks larger than one dimension (S03 covers single candidates of 2x2 blocks)'


def poly_image(keys, c, R, cj, an):
    """coefficients of (+/-) c(+/- R^-1 k)^(*) for polynomial keys given as tuples of powers"""
    Ri = np.linalg.inv(np.array(R, dtype=float)).round().astype(int) * (-1 if cj else 1)
    out = {k: None for k in keys}
    for k, v in zip(keys, c):
        # substitute k_i -> sum_j Ri_ij k_j, R is a signed permutation
        q, s = [0] * len(k), 1
        for i, p in enumerate(k):
            j = int(np.nonzero(Ri[i])[0][0])
            q[j] += p
            s *= int(Ri[i, j])**p
        q = tuple(q)
        assert q in out
        v = v.conjugate() if cj else v
        v = v * s * (-1 if an else 1)
        out[q] = v if out[q] is None else out[q] + v
    return [0 if out[k] is None else out[k] for k in keys]


def name(k):
    return '*'.join([f'{m}**{p}' for m, p in zip(NAMES, k) if p]) or '1'


def group(Q, dim, which):
    """candidates as a list of (R, conjugate, antisymmetry)"""
    I = np.eye(dim, dtype=int)
    if which == 'TP':
        Rs = [I]
    elif which == 'inv':
        Rs = [I, -I]
    elif which == 'square':
        Rs = [np.array(r) for r in ([[1, 0], [0, 1]], [[-1, 0], [0, -1]], [[0, -1], [1, 0]], [[0, 1], [-1, 0]], [[1, 0], [0, -1]], [[-1, 0], [0, 1]], [[0, 1], [1, 0]], [[0, -1], [-1, 0]])]
    elif which == 'C4':
        Rs = [np.array(r) for r in ([[1, 0], [0, 1]], [[-1, 0], [0, -1]], [[0, -1], [1, 0]], [[0, 1], [-1, 0]])]
    elif which == 'S6':
        P = np.array([[0, 1, 0], [0, 0, 1], [1, 0, 0]])
        Rs = [s * np.linalg.matrix_power(P, n) for n in range(3) for s in (1, -1)]
    return Rs


def spec(ctx, syms, cands, exists, terms, N, dim, gens=False):
    """syms are the candidates that exist, each with a unitary that is a symmetry"""
    found = []
    ks, env = kvals(ctx, dim)
    for g in syms:
        U = ctx.arr(g.U)
        ctx.check_eq(dag(ctx, U) @ U, eye(ctx, N), 'U is unitary')
        image_ok(ctx, np.array(g.R), g.conjugate, g.antisymmetry, U, terms, ks, env, 'U is a symmetry')
        found.append((tuple(np.array(g.R, dtype=int).reshape(-1)), bool(g.conjugate), bool(g.antisymmetry)))
    ctx.check(len(found) == len(set(found)), 'no symmetry is listed twice')
    want = {(tuple(np.array(R).reshape(-1)), cj, an) for (R, cj, an), e in zip(cands, exists) if e}
    if gens:
        # they generate exactly the symmetries
        one = (tuple(np.eye(dim, dtype=int).reshape(-1)), False, False)
        mul = lambda a, b: (tuple((np.array(a[0]).reshape(dim, dim) @ np.array(b[0]).reshape(dim, dim)).reshape(-1)), a[1] != b[1], a[2] != b[2])
        G = {one}
        while True:
            new = {mul(a, b) for a in G for b in found} | G
            if new == G:
                break
            G = new
        ctx.check(G == want, 'the generators generate exactly the symmetries')
    else:
        ctx.check(set(found) == want, 'exactly the candidates that are symmetries are returned')


def run(ctx, model, cands, exists, terms, N, dim, api, gens, Ps=None):
    Q = ctx.Q
    cs = {Q.PointGroupElement(np.array(R), cj, an, None) for R, cj, an in cands}
    n = len(cs)
    if api == 'discrete':
        syms, _ = Q.symmetry_finder.discrete_symmetries(model, cs, Ps=Ps, generators=gens)
    else:
        arg = {'symmetries': cs, 'list': list(cs), 'iter': iter(list(cs)), 'none': None}[api]
        syms, cont = Q.symmetries(model, arg, generators=gens)
        ctx.check(all(not b < a for a, b in zip(syms, syms[1:])), 'symmetries are sorted')
    ctx.check(len(cs) == n and all(c.U is None for c in cs), 'candidates unchanged')
    spec(ctx, syms, cands, exists, terms, N, dim, gens)


ONE = {'1d': (1, [(0,), (1,)], 'inv', (False, True), (False, True)),
       '1d2': (1, [(1,), (2,)], 'inv', (False, True), (False, True)),
       'TP': (1, [(1,), (2,)], 'TP', (False, True), (False, True)),
       'TP2': (2, [(1, 0), (1, 1)], 'TP', (False, True), (False, True)),
       'C4': (2, [(1, 0), (0, 1), (2, 0), (0, 2)], 'C4', (False,), (False,)),
       'C4a': (2, [(2, 0), (0, 2), (1, 1)], 'C4', (False,), (False, True)),
       'sq': (2, [(1, 0), (0, 1)], 'square', (False,), (False,)),
       'sq2': (2, [(2, 0), (0, 2), (1, 1)], 'square', (False,), (False,)),
       'S6': (3, [(1, 0, 0), (0, 1, 0), (0, 0, 1)], 'S6', (False,), (False,)),
       'S6b': (3, [(2, 0, 0), (0, 2, 0), (0, 0, 2)], 'S6', (False,), (False, True)),
       'sqT': (2, [(1, 0), (0, 1)], 'square', (False, True), (False,))}


@H(cases={f'{k}-{a}-{"gens" if g else "all"}': dict(k=k, api=a, g=g) for k in ONE for a, g in (('discrete', False), ('discrete', True))}, time_limit=60,
   bounds='one-band polynomial Hamiltonians in 1, 2 and 3 dimensions with every real amplitude; time reversal, particle-hole, inversion, C4, S6 and square groups')
def one_band(ctx, k, api, g):
    ctx.exact_tol()
    dim, keys, grp, cjs, ans = ONE[k]
    co = [ctx.real(f'a{i}', -3, 3) for i in range(len(keys))]
    for c in co[:1]:
        sizable(ctx, [c])
    used = []
    for key, c in zip(keys, co):
        # amplitudes are zero or not small
        if not (key == keys[0]) and eqv(ctx, (c,), (0 * c,)):
            continue
        sizable(ctx, [c])
        used.append((key, c))
    terms = [(SY(name(key)), num1(ctx, c)) for key, c in used]
    model = ctx.Q.Model(dict(terms), momenta=NAMES[:dim])
    cands = [(R, cj, an) for R in group(ctx.Q, dim, grp) for cj in cjs for an in ans]
    ex = [eqv(ctx, co, poly_image(keys, co, R, cj, an)) for R, cj, an in cands]
    run(ctx, model, cands, ex, terms, 1, dim, api, g)


@H(cases={f'{a}-{"gens" if g else "all"}': dict(api=a, g=g) for a in ('symmetries', 'list', 'iter', 'none') for g in (False, True)}, time_limit=60,
   bounds='symmetries() for one-band 1D Hamiltonians: candidates as set, list or iterator, or the default ones')
def top(ctx, api, g):
    ctx.exact_tol()
    co = [ctx.real(f'a{i}', -3, 3) for i in range(2)]
    for c in co:
        sizable(ctx, [c])
    keys = [(1,), (2,)] if ctx.pybool('keys') else [(1,), (3,)]
    terms = [(SY(name(key)), num1(ctx, c)) for key, c in zip(keys, co)]
    model = ctx.Q.Model(dict(terms), momenta=NAMES[:1])
    cands = [(R, cj, an) for R in group(ctx.Q, 1, 'TP' if api == 'none' else 'inv') for cj in (False, True) for an in (False, True)]
    ex = [eqv(ctx, co, poly_image(keys, co, R, cj, an)) for R, cj, an in cands]
    run(ctx, model, cands, ex, terms, 1, 1, api, g)


@H(cases={f'{k}-{"gens" if g else "all"}-{"Ps" if p else "auto"}': dict(k=k, g=g, p=p) for k in ('TP', 'inv') for g in (False, True) for p in (True, False)}, time_limit=60,
   bounds='two inequivalent lines in any unitary basis with keys k_x, k_x^2 and every amplitude; blocks given (Ps) or found (auto)')
def two_lines(ctx, k, g, p):
    ctx.exact_tol()
    W = ctx.unitary('W') if not p else None
    keys = [(1,), (2,)]
    co = [bounded(ctx, f'a{i}', 2) for i in range(2)]
    apart(ctx, co[0][0], co[0][1])
    for c in co:
        sizable(ctx, c)
    W = ctx.unitary('W')
    Hs = [outer(ctx, W, c) for c in co]
    terms = [(SY(name(key)), h) for key, h in zip(keys, Hs)]
    model = ctx.Q.Model(dict(terms), momenta=NAMES[:1])
    cands = [(R, cj, an) for R in group(ctx.Q, 1, k) for cj in (False, True) for an in (False, True)]
    ex = []
    for R, cj, an in cands:
        x = [tuple(c[i] for c in co) for i in range(2)]
        y = [tuple(poly_image(keys, [c[i] for c in co], R, cj, an)) for i in range(2)]
        ex.append(eqv(ctx, x[0], y[0]) and eqv(ctx, x[1], y[1]) or eqv(ctx, x[0], y[1]) and eqv(ctx, x[1], y[0]))
    Ps = None
    if p:
        Ps = (ctx.arr(np.asarray(W)[None, :, 0:1]), ctx.arr(np.asarray(W)[None, :, 1:2]))
    else:
        from .S02 import coeffs
        L = outer(ctx, W, [1, -1])
        ctx.hint('null!', ctx.arr(np.asarray(coeffs(ctx, L)).reshape(1, 3)))
        X = ctx.arr(np.array([[0, 1], [1, 0]]))
        ctx.hint('eigh', L, ([-1, 1], W @ X))
        ctx.hint('eigh', L * -1, ([-1, 1], W))
    run(ctx, model, cands, ex, terms, 2, 1, 'discrete', g, Ps)


def bloch_key(v):
    # product form: the documented default normaliser splits sums in exponents, not factored exponents
    return '*'.join(f'e**(I*{x}*{n})' for x, n in zip(v, NAMES) if x) if any(v) else '1'


HOP = {'1d': (1, [(1,)], 'inv', (False, True), (False, True)), 'C4': (2, [(1, 0), (0, 1)], 'C4', (False,), (False,)), 'sq': (2, [(1, 0), (0, 1)], 'square', (False,), (False,)),
       'TP': (2, [(1, 0), (1, 1)], 'TP', (False, True), (False, True)), 'on': (1, [(0,), (1,)], 'inv', (False, True), (False, True))}


@H(cases={f'{k}-{f}-{"gens" if g else "all"}': dict(k=k, f=f, g=g) for k in HOP for f in ('Model', 'Bloch') for g in (False, True)}, time_limit=60,
   bounds='one-band tight-binding Models and BlochModels in 1 and 2 dimensions with every complex hopping amplitude')
def hoppings(ctx, k, f, g):
    ctx.exact_tol()
    dim, vs, grp, cjs, ans = HOP[k]
    co = {}
    for i, v in enumerate(vs):
        if any(v):
            c = bounded(ctx, f'a{i}', 1, True)[0]
            sizable(ctx, [c])
            co[v], co[tuple(-x for x in v)] = c, c.conjugate()
        else:
            c = ctx.real(f'a{i}', -3, 3)
            sizable(ctx, [c])
            co[v] = c
    mom = sympy.symbols(NAMES[:dim])
    terms = [(SY(bloch_key(v)), num1(ctx, c)) for v, c in co.items()]
    if f == 'Model':
        model = ctx.Q.Model(dict(terms), momenta=NAMES[:dim])
    else:
        model = ctx.Q.BlochModel({ctx.Q.BlochCoeff(np.array(v, dtype=float), sympy.Integer(1)): num1(ctx, c) for v, c in co.items()}, momenta=NAMES[:dim])
    cands = [(R, cj, an) for R in group(ctx.Q, dim, grp) for cj in cjs for an in ans]

    def image(R, cj, an):
        out = {v: 0 for v in co}
        for v, c in co.items():
            w = tuple(int(x) for x in np.array(R) @ np.array(v))
            out[w] = (c.conjugate() if cj and (ctx.sym or True) else c) * (-1 if an else 1)
        return [out[v] for v in co]
    ex = [eqv(ctx, list(co.values()), image(R, cj, an)) for R, cj, an in cands]
    run(ctx, model, cands, ex, terms, 1, dim, 'discrete' if ctx.pybool('low') else 'symmetries', g)


@H(cases={f'{d}{a}': dict(d=d, api=a) for d in (1, 2) for a in ('csr', 'sparse', 'both')}, time_limit=60,
   bounds='one-band polynomial Hamiltonians given as sparse matrices or with sparse_linalg=True')
def sparse(ctx, d, api):
    ctx.exact_tol()
    keys = {1: [(1,), (2,)], 2: [(1, 0), (0, 1)]}[d]
    co = [ctx.real(f'a{i}', -3, 3) for i in range(2)]
    for c in co:
        sizable(ctx, [c])
    terms = [(SY(name(key)), num1(ctx, c)) for key, c in zip(keys, co)]
    conv = (lambda m: ctx.Q.scipy.sparse.csr_matrix(m)) if api != 'sparse' else (lambda m: m)
    model = ctx.Q.Model({k: conv(v) for k, v in terms}, momenta=NAMES[:d])
    cands = [(R, cj, an) for R in group(ctx.Q, d, 'inv' if d == 1 else 'square') for cj in ((False, True) if d == 1 else (False,)) for an in ((False, True) if d == 1 else (False,))]
    ex = [eqv(ctx, co, poly_image(keys, co, R, cj, an)) for R, cj, an in cands]
    cs = {ctx.Q.PointGroupElement(np.array(R), cj, an, None) for R, cj, an in cands}
    syms, cont = ctx.Q.symmetries(model, cs, sparse_linalg=api != 'csr')
    ctx.check(len(cont) == 0, 'no conserved quantity of a single band')
    spec(ctx, syms, cands, ex, terms, 1, d)
