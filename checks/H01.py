"""constrain_family: the symmetric subspace of a family."""
import sympy
from se.runner import Registry
from se import contracts
from .common import *
from .G01 import expected

H = Registry()
STUBS = ['scipy.linalg.svd of a symbolic matrix: fresh singular vectors with the facts of the SVD theorem (se/contracts.py), forked over the rank']
ASSUMPTIONS = ['closeness tests are taken as exact equality', 'every rank of the constraint matrix is explored; ranks the solver cannot exclude are kept']
OUTSIDE = 'matrices larger than 2x2, more than 8 family members'
SIG = [[[1, 0], [0, 1]], [[0, 1], [1, 0]], [[0, -1j], [1j, 0]], [[1, 0], [0, -1]], [[0, 1], [0, 0]], [[0, 0], [1, 0]]]


def cst(ctx, m):
    return const(ctx, np.array(m, dtype=complex))


FAM = {
    'onsite': (0, [[('1', s)] for s in range(4)]),
    'lin1': (1, [[('k_x', s)] for s in range(4)] + [[('1', 3)]]),
    'mix1': (1, [[('k_x', 0), ('k_x**2', 1)], [('k_x**2', 2)], [('k_x', 3), ('1', 0)], [('a*k_x', 1)]]),
    'lin2': (2, [[('k_x', s)] for s in (0, 1, 3)] + [[('k_y', s)] for s in (0, 2)]),
    'trig1': (1, [[('cos(k_x)', 0)], [('sin(k_x)', 1)], [('sin(k_x)', 2)], [('cos(k_x)', 3)]]),
    'exp1': (1, [[('e**(I*k_x)', 0), ('e**(-I*k_x)', 0)], [('e**(I*k_x)', 1), ('e**(-I*k_x)', 1)], [('e**(I*k_x)', 3), ('e**(-I*k_x)', 3)], [('e**(I*k_x)', 4), ('e**(-I*k_x)', 5)]]),
}
LATER = {'late1': (1, [[('1', 1)], [('k_x', 0), ('1', 3)], [('k_x**3', 2)]])}
FAM.update(LATER)


def family(ctx, spec, cls='Model'):
    dim, terms = spec
    fam = []
    for t in terms:
        d = {}
        for k, s in t:
            d[k] = cst(ctx, SIG[s])
        m = ctx.Q.Model(d, momenta=NAMES[:dim])
        if cls == 'BlochModel':
            m = ctx.Q.BlochModel(m)
        fam.append(m)
    return fam


def fval(ctx, spec, i, ks, env):
    dim, terms = spec
    e = dict(zip(NAMES, ks), a=env['a'])
    return sum((cst(ctx, SIG[s]) * keyval(ctx, SY(k), (), e) for k, s in terms[i]),
               const(ctx, np.zeros((2, 2), dtype=complex)))


def img(ctx, g, Hf, ks):
    R, cj, an, U = g
    return expected(ctx, R, cj, an, U, Hf, ks) - Hf(ks)


def grp(ctx, dim, i, Ukind):
    cj, an = ctx.pybool(f'conj{i}'), ctx.pybool(f'anti{i}')
    R = np.eye(0, dtype=int) if dim == 0 else rot(ctx, dim, 'int', f'R{i}')
    if Ukind == 'any':
        U = ctx.matrix(f'U{i}', 2)
        ctx.assume(Not_zero(ctx, U[0, 0]))
    elif Ukind == 'unitary':
        U = ctx.unitary(f'U{i}')
    else:
        U = ctx.arr(np.diag([ctx.phase(f'p{i}'), ctx.phase(f'q{i}')]))
    return R, cj, an, U


CASES = {f'{f}-{u}': dict(fam=f, u=u) for f in FAM for u in ('phases', 'any') if f != 'lin2' or u == 'phases'}


SLOW = {k: CASES.pop(k) for k in ('lin1-any', 'mix1-any', 'trig1-any')}


@H(cases=SLOW, tiers=('thorough',), time_limit=60, max_paths=120, bounds='as point_group')
def point_group_more(ctx, fam, u):
    point_group(ctx, fam, u)


@H(cases=CASES, time_limit=60, max_paths=150,
   bounds='families of up to 5 members over Pauli matrices with 1-2 keys each; one PointGroupElement with integer R, both flags, '
          'U = any diag of phases or any 2x2 complex matrix; every real coefficient vector')
def point_group(ctx, fam, u):
    Q = ctx.Q
    spec = FAM[fam]
    dim = spec[0]
    cls = 'Model'
    g = grp(ctx, dim, 0, u)
    F = family(ctx, spec, cls)
    run(ctx, spec, F, [g], [Q.PointGroupElement(*g)])


def run(ctx, spec, F, gs, syms, images=None):
    Q = ctx.Q
    dim = spec[0]
    n = len(F)
    ks, env = kvals(ctx, dim)
    env0 = env
    vals0 = [meval(ctx, f, env) for f in F]
    n0 = len(contracts.calls(ctx)) if ctx.sym else 0
    res = Q.constrain_family(syms, F)
    for m in res:
        ctx.check(type(m) is type(F[0]) and tuple(m.shape) == (2, 2) and tuple(m.momenta) == tuple(F[0].momenta), 'type, shape and momenta')

    def val(m, kp):
        return meval(ctx, m, dict(zip(NAMES, kp), a=env['a']))

    def symm(Hf):
        return [img(ctx, g, Hf, ks) for g in gs] + [im(Hf, ks) for im in images or ()]
    for i, m in enumerate(res):
        for d in symm(lambda kp: val(m, kp)):
            ctx.check(kzero(ctx, d, ks + [env['a']]), f'member {i} has the symmetry')
    # completeness
    c = [ctx.real(f'c{i}') for i in range(n)]

    def Hc(kp):
        return sum((fval(ctx, spec, i, kp, env) * c[i] for i in range(n)), const(ctx, np.zeros((2, 2), dtype=complex)))
    if ctx.sym:
        ctx.assume(ctx.And(*[kzero(ctx, d, ks + [env['a']]) for d in symm(Hc)]))
        cl = contracts.calls(ctx)[n0:]
        if cl:
            f, lam = cl[-1].complete(c, 'c')
            ctx.assume(f)
            ctx.check(len(res) == len(lam), 'one member per solution')
            S = sum((val(m, ks) * l for m, l in zip(res, lam)), const(ctx, np.zeros((2, 2), dtype=complex)))
        else:
            ctx.check(len(res) == n, 'unconstrained family is returned')
            S = sum((val(m, ks) * l for m, l in zip(res, c)), const(ctx, np.zeros((2, 2), dtype=complex)))
        ctx.check(kzero(ctx, S - Hc(ks), ks + [env['a']]), 'every symmetric combination is in the span')
    else:
        env = dict(env, a=0.83)
        # project c onto the symmetric combinations: the real null space of the conditions at several k
        pts = [[0.37 * (j + 1) * (-1) ** (j * (q + 1)) + 0.11 * q for q in range(dim)] for j in range(6 if dim else 1)]
        cols = []
        for i in range(n):
            col = []
            for kp in pts:
                for g in gs:
                    col.append(img(ctx, g, lambda k: fval(ctx, spec, i, k, env), kp).ravel())
                for im in images or ():
                    col.append(im(lambda k: fval(ctx, spec, i, k, env), kp).ravel())
            cols.append(np.concatenate(col))
        M = np.array(cols).T
        M = np.vstack([M.real, M.imag])
        _, s, vh = np.linalg.svd(M)
        rk = int(np.sum(s > 1e-6))
        if np.any((s > 1e-9) & (s < 1e-4)):
            return
        ctx.check(len(res) == n - rk, 'every symmetric combination is in the span')
        vecs = [np.concatenate([val(m, kp).ravel() for kp in pts]) for m in res]
        ctx.check(independent(vecs), 'members are independent')
        for v in vh[rk:]:
            w = np.concatenate([sum(v[i] * fval(ctx, spec, i, kp, env) for i in range(n)).ravel() for kp in pts])
            ctx.check(in_span(w, vecs), 'every symmetric combination is in the span')
    for i in range(n):
        ctx.check_eq(meval(ctx, F[i], env0), vals0[i], 'family unchanged')


def cgg(ctx, dim, withR, i=0):
    """-> (ContinuousGroupGenerator, image function): 1j (H L - L H) + dH/dk . (i R k)"""
    Q = ctx.Q
    L = ctx.matrix(f'L{i}', 2, kind='hermitian')
    R = None
    if withR:
        t = ctx.real(f't{i}')
        ctx.assume(Not_zero(ctx, t))
        R = ctx.arr(np.array([[0 * t, -1j * t], [1j * t, 0 * t]], dtype=object)) if ctx.sym else np.array([[0, -1j * t], [1j * t, 0]])
    return Q.ContinuousGroupGenerator(R, L), L, R


DER = {'1': ('0', '0'), 'k_x': ('1', '0'), 'k_y': ('0', '1'), 'k_x**2': ('2*k_x', '0'), 'a*k_x': ('a', '0'), 'k_x*k_y': ('k_y', 'k_x')}
CFAM = {
    'onsite': (0, [[('1', s)] for s in range(4)]),
    'mix1': (1, [[('k_x', 0), ('k_x**2', 1)], [('k_x**2', 2)], [('k_x', 3), ('1', 0)]]),
    'lin2': (2, [[('k_x', s)] for s in (1, 2)] + [[('k_y', s)] for s in (1, 2)]),
    'quad2': (2, [[('k_x**2', 3), ('1', 1)], [('k_x*k_y', 0)], [('a*k_x', 2)]]),
}


@H(cases={f'{f}{"-R" if r else ""}': dict(fam=f, r=r) for f in CFAM for r in (0, 1) if not r or f.endswith('2')}, time_limit=60, max_paths=80,
   bounds='families of up to 4 members; one ContinuousGroupGenerator with any Hermitian L and R None or any rotation generator')
def continuous(ctx, fam, r):
    spec = CFAM[fam]
    dim = spec[0]
    F = family(ctx, spec)
    g, L, R = cgg(ctx, dim, r)
    ctx.assume(Not_zero(ctx, L[0, 1]))
    if r:
        # the derivative is taken term by term on the family
        run_c(ctx, spec, F, g, L, R)
    else:
        run(ctx, spec, F, [], [g], images=[lambda Hf, ks: 1j * (Hf(ks) @ L - L @ Hf(ks))])


def run_c(ctx, spec, F, g, L, R):
    Q = ctx.Q
    dim, terms = spec
    n = len(F)
    ks, env = kvals(ctx, dim)
    n0 = len(contracts.calls(ctx)) if ctx.sym else 0
    res = Q.constrain_family([g], F)

    def image(c, e):
        """action of the generator on sum_i c_i F_i at e"""
        z = const(ctx, np.zeros((2, 2), dtype=complex))
        kp = [e[m] for m in NAMES[:dim]]
        v = [sum(1j * R[i, j] * kp[j] for j in range(dim)) for i in range(dim)]
        Hm = sum((cst(ctx, SIG[s]) * keyval(ctx, SY(k), (), e) * c[i] for i in range(n) for k, s in terms[i]), z)
        D = sum((cst(ctx, SIG[s]) * keyval(ctx, SY(DER[k][j]), (), e) * c[i] * v[j] for i in range(n) for k, s in terms[i] for j in range(dim)), z)
        return 1j * (Hm @ L - L @ Hm) + D
    # members are combinations of the family: read off their coefficients
    c = [ctx.real(f'c{i}') for i in range(n)]
    if ctx.sym:
        cl = contracts.calls(ctx)[n0:]
        if not cl:
            ctx.check(len(res) == n and all(kzero(ctx, meval(ctx, m, env) - meval(ctx, f, env), ks) is True for m, f in zip(res, F)), 'unconstrained family')
            return
        ns = cl[-1].ns
        ctx.check(len(res) == len(ns), 'one member per solution')
        for m, v in zip(res, ns):
            want = sum((meval(ctx, F[i], env) * v[i] for i in range(n)), const(ctx, np.zeros((2, 2), dtype=complex)))
            ctx.check(kzero(ctx, meval(ctx, m, env) - want, ks + [env['a']]), 'member is a combination of the family')
            ctx.check(kzero(ctx, image(v, env), ks + [env['a']]), 'member is invariant')
        ctx.assume(kzero(ctx, image(c, env), ks + [env['a']]))
        f, lam = cl[-1].complete(c, 'c')
        ctx.assume(f)
        S = sum((meval(ctx, m, env) * l for m, l in zip(res, lam)), const(ctx, np.zeros((2, 2), dtype=complex)))
        want = sum((meval(ctx, F[i], env) * c[i] for i in range(n)), const(ctx, np.zeros((2, 2), dtype=complex)))
        ctx.check(kzero(ctx, S - want, ks + [env['a']]), 'every invariant combination is in the span')
    else:
        pts = [dict(k_x=0.37 * (j + 1), k_y=0.21 - 0.3 * j * j, a=0.83) for j in range(5)]
        M = np.array([np.concatenate([image([float(i == j) for j in range(n)], p).ravel() for p in pts]) for i in range(n)]).T
        M = np.vstack([M.real, M.imag])
        _, s, vh = np.linalg.svd(M)
        if np.any((s > 1e-9) & (s < 1e-4)):
            return
        rk = int(np.sum(s > 1e-6))
        ctx.check(len(res) == n - rk, 'every invariant combination is in the span')
        vec = lambda m: np.concatenate([meval(ctx, m, p).ravel() for p in pts])
        vecs = [vec(m) for m in res]
        ctx.check(independent(vecs), 'members are independent')
        for v in vh[rk:]:
            ctx.check(in_span(sum(v[i] * vec(F[i]) for i in range(n)), vecs), 'every invariant combination is in the span')


@H(cases={f'{f}-{k}{a}': dict(fam=f, cj=k, an=a) for f in ('onsite', 'lin1', 'late1') for k in (0, 1) for a in (0, 1)}, time_limit=60, max_paths=60,
   bounds='two PointGroupElements with U = diag of phases / fixed sigma_x, flags of both arbitrary')
def two_symmetries(ctx, fam, cj, an):
    Q = ctx.Q
    spec = FAM[fam]
    dim = spec[0]
    an1 = ctx.pybool('anti1')
    g1 = (np.eye(dim, dtype=int), cj, an1, ctx.arr(np.diag([ctx.phase('p'), ctx.phase('q')])))
    g2 = (-np.eye(dim, dtype=int), not cj, an, cst(ctx, SIG[1]))
    F = family(ctx, spec)
    run(ctx, spec, F, [g1, g2], [Q.PointGroupElement(*g1), Q.PointGroupElement(*g2)])


@H(cases={f'{f}-{r}': dict(fam=f, same_r=r) for f in ('onsite', 'lin1') for r in (1, -1)}, time_limit=60, max_paths=60,
   bounds='two PointGroupElements with the same R and flags and different U (diag of any phases, sigma_x), both flags arbitrary')
def same_rotation(ctx, fam, same_r):
    """elements that compare equal are still separate constraints"""
    Q = ctx.Q
    spec = FAM[fam]
    dim = spec[0]
    cj, an = ctx.pybool('conj'), ctx.pybool('anti')
    R = same_r * np.eye(dim, dtype=int)
    g1 = (R, cj, an, ctx.arr(np.diag([ctx.phase('p'), ctx.phase('q')])))
    g2 = (R, cj, an, cst(ctx, SIG[1]))
    F = family(ctx, spec)
    run(ctx, spec, F, [g1, g2], [Q.PointGroupElement(*g1), Q.PointGroupElement(*g2)])


@H(cases={f: dict(fam=f) for f in ('exp1',)}, time_limit=60, max_paths=60,
   bounds='BlochModel family of 4 members with hopping +-1, one PointGroupElement with R = +-1, U = diag of phases')
def bloch(ctx, fam):
    Q = ctx.Q
    spec = FAM[fam]
    g = grp(ctx, 1, 0, 'phases')
    F = family(ctx, spec, 'BlochModel')
    run(ctx, spec, F, [g], [Q.PointGroupElement(*g)])


@H(bounds='empty family, empty symmetry list, generators as arguments; U any 2x2 unitary')
def edge(ctx):
    Q = ctx.Q
    U = ctx.unitary('U')
    g = Q.PointGroupElement(np.eye(1, dtype=int), False, False, U)
    F = family(ctx, FAM['lin1'])
    ctx.check(Q.constrain_family([g], []) == [], 'empty family')
    r = Q.constrain_family([], F)
    ctx.check(len(r) == len(F) and all(a is b or truth(a == b) for a, b in zip(r, F)), 'no symmetries')
    ctx.check(raises(lambda: Q.constrain_family([Q.PointGroupElement(np.eye(2, dtype=int), False, False, U)], F), AssertionError), 'wrong dimension')
    ctx.check(raises(lambda: Q.constrain_family([Q.PointGroupElement(np.eye(1, dtype=int), False, False, ctx.arr([[1]]))], F), AssertionError), 'wrong shape')
    one = Q.PointGroupElement(np.eye(1, dtype=int), False, False, const(ctx, np.eye(2)))
    r = Q.constrain_family(iter([one]), iter(F))
    ctx.check(len(r) == len(F) and all(truth(a == b) for a, b in zip(r, F)), 'the identity constrains nothing')
