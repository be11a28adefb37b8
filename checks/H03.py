"""continuum_pairing: the symmetric superconducting pairing functions."""
from se.runner import Registry
from .common import *
from .hfam import *
from .H02 import monos, mono, umat, element

H = Registry()
STUBS = ['scipy.linalg.svd of a symbolic matrix: fresh singular vectors with the facts of the SVD theorem (se/contracts.py), forked over the rank']
ASSUMPTIONS = ['closeness tests are taken as exact equality', 'every rank of the constraint matrix is explored; ranks the solver cannot exclude are kept']
OUTSIDE = 'pairing matrices larger than 2x2, total powers above 1'


def units(N):
    for i in range(N):
        for j in range(N):
            for z in (1, 1j):
                m = np.zeros((N, N), dtype=complex)
                m[i, j] = z
                yield m


def pbasis(ctx, ps, N):
    return [lambda e, p=p, m=m: cst(ctx, m) * mono(ctx, p, e) for p in ps for m in units(N)]


def neg(k):
    return [-x for x in k]


def act(ctx, g, phase, D, k):
    """the off-diagonal block of the image of [[0, D], [D^+, 0]] under (R, U + phase U^*) minus D"""
    R, cj, an, U = g
    kp = mv(ctx, inv(ctx, plain(ctx, R)), k) if len(k) else []
    d = D(neg(kp)).conj() if cj else D(kp)
    out = U @ d @ (U.conj() * phase).conj().T
    return (-out if an else out) - D(k)


def ph(D, k, s):
    """D(k) = -s D(-k)^T"""
    return D(k) + D(neg(k)).T * s


def uN(ctx, N, kind, name='U'):
    if N == 1:
        return ctx.arr(np.array([[ctx.phase(name)]]))
    return umat(ctx, kind, name)


CASES = {f'N{N}-d{d}-{p}-{u}{"-ph" if f else ""}-s{s}': dict(N=N, dim=d, power=[p], u=u, phase=f, s=s)
         for N, d, p, u in [(1, 0, 0, 'phases'), (1, 1, 1, 'phases'), (2, 0, 0, 'phases'), (2, 1, 1, 'phases'), (2, 1, 1, 'unitary')]
         for f in (0, 1) for s in (1, -1) if not (u == 'unitary' and (f or s == -1))}
SLOW = {k: CASES.pop(k) for k in list(CASES) if 'unitary' in k or k in ('N2-d0-0-phases-ph-s1', 'N2-d0-0-phases-ph-s-1', 'N2-d0-0-phases-s-1', 'N2-d1-1-phases-s1', 'N2-d1-1-phases-ph-s1')}


@H(cases=SLOW, time_limit=100, max_paths=200, tiers=('thorough',), bounds='as point_group')
def point_group_more(ctx, N, dim, power, u, phase, s):
    point_group(ctx, N, dim, power, u, phase, s)


@H(cases=CASES, time_limit=60, max_paths=60,
   bounds='1x1 and 2x2 pairing of degree 0 or 1 in 0 or 1 dimensions; one PointGroupElement with R = -1, unitary or antiunitary, '
          'U any diag of phases (thorough: any unitary), default or any phase factor of the hole block, both squares of particle-hole')
def point_group(ctx, N, dim, power, u, phase, s):
    Q = ctx.Q
    U = uN(ctx, N, u)
    g = (-np.eye(dim, dtype=int), ctx.pybool('conj'), False, U)
    f = ctx.phase('f') if phase else 1
    ks, env = kvals(ctx, dim)
    ps = [p for d in power for p in monos(dim, d)]
    pg = Q.PointGroupElement(*g)
    U0 = U + 0 * U
    kw = dict(phases=[f]) if phase else {}
    images = lambda D, kp=ks: [act(ctx, g, f, D, kp), ph(D, kp, s)]
    res = symmetric_span(ctx, lambda: Q.continuum_pairing([pg], dim, power, ph_square=s, **kw), Q.hamiltonian_generator,
                         pbasis(ctx, ps, N), images, dim, ks, env, (N, N), inner=lambda m: m[:N, N:])
    for m in res:
        ctx.check(type(m) is Q.Model and tuple(m.shape) == (N, N), 'type and shape')
    ctx.check_eq(pg.U, U0, 'symmetries unchanged')


@H(cases={f'N{N}-d{d}-{p}{"-ph" if f else ""}': dict(N=N, dim=d, power=p, phase=f) for N, d, p in [(1, 0, [0]), (2, 0, [0]), (2, 1, [1])] for f in (0, 1)},
   time_limit=40, max_paths=60, bounds='one conserved quantity (any real diagonal matrix), default or any real phase, both squares of particle-hole')
def conserved(ctx, N, dim, power, phase):
    Q = ctx.Q
    x = [ctx.real(f'l{i}') for i in range(N)]
    L = ctx.arr(np.array([[x[i] if i == j else 0 * x[0] for j in range(N)] for i in range(N)], dtype=object)) if ctx.sym else np.diag(x)
    f = ctx.real('f') if phase else 0
    s = 1 - 2 * ctx.choose('s', 2)
    ks, env = kvals(ctx, dim)
    ps = [p for d in power for p in monos(dim, d)]
    kw = dict(phases=[f]) if phase else {}
    images = lambda D, kp=ks: [L @ D(kp) - D(kp) @ (L.conj() * -1 + eye(ctx, N) * f), ph(D, kp, s)]
    symmetric_span(ctx, lambda: Q.continuum_pairing([Q.ContinuousGroupGenerator(None, L)], dim, power, ph_square=s, **kw), Q.hamiltonian_generator,
                   pbasis(ctx, ps, N), images, dim, ks, env, (N, N), inner=lambda m: m[:N, N:])


@H(cases={f'{t}': dict(t=t) for t in ('tr-sz', 'cgg-first')}, time_limit=60, max_paths=60,
   bounds='two symmetries (antiunitary with U = i sigma_y times any phase, conserved s_z of any strength; both orders)')
def two(ctx, t):
    Q = ctx.Q
    p = ctx.phase('p')
    U = ctx.arr(np.array([[0 * p, p], [-p, 0 * p]]))
    g = (np.eye(1, dtype=int), True, False, U)
    x = ctx.real('x')
    ctx.assume(Not_zero(ctx, x))
    L = ctx.arr(np.array([[x, 0 * x], [0 * x, -x]], dtype=object)) if ctx.sym else np.diag([x, -x])
    ks, env = kvals(ctx, 1)
    syms = [Q.PointGroupElement(*g), Q.ContinuousGroupGenerator(None, L)]
    if t == 'cgg-first':
        syms = syms[::-1]
    images = lambda D, kp=ks: [act(ctx, g, 1, D, kp), L @ D(kp) + D(kp) @ L.conj(), ph(D, kp, 1)]
    symmetric_span(ctx, lambda: Q.continuum_pairing(syms, 1, [0], ph_square=1), Q.hamiltonian_generator,
                   pbasis(ctx, [(0,)], 2), images, 1, ks, env, (2, 2), inner=lambda m: m[:2, 2:])


@H(cases={f'{w}': dict(w=w) for w in ('names', 'symbols')}, bounds='1x1 pairing with renamed momenta; U any phase')
def momenta(ctx, w):
    import sympy
    Q = ctx.Q
    pg = Q.PointGroupElement(-np.eye(1, dtype=int), False, False, ctx.arr(np.array([[ctx.phase('p')]])))
    mom = ['q'] if w == 'names' else [sympy.Symbol('q', commutative=True)]
    res = Q.continuum_pairing([pg], 1, [1], momenta=mom, phases=[1], ph_square=1)
    for m in res:
        ctx.check([str(k) for k in m.momenta] == ['q'] and all(str(k) == 'q' for k in m), 'momenta of the result')
    ctx.check(raises(lambda: Q.continuum_pairing([pg], 1, [1], ph_square=2), ValueError), 'invalid square')
