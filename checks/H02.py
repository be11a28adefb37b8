"""continuum_hamiltonian and continuum_variables."""
import itertools
import sympy
from se.runner import Registry
from .common import *
from .hfam import *
from .G01 import expected

H = Registry()
STUBS = ['scipy.linalg.svd of a symbolic matrix: fresh singular vectors with the facts of the SVD theorem (se/contracts.py), forked over the rank']
ASSUMPTIONS = ['closeness tests are taken as exact equality', 'every rank of the constraint matrix is explored; ranks the solver cannot exclude are kept']
OUTSIDE = 'matrices larger than 2x2, total powers above 2 (variables: above 4)'


def monos(dim, degree, powers=None):
    """exponent tuples of the given total degree"""
    return [p for p in itertools.product(range(degree + 1), repeat=dim)
            if sum(p) == degree and all(powers is None or x in powers[i] for i, x in enumerate(p))]


def mono(ctx, p, e, z=1):
    out = Sym(1) if ctx.sym else 1.0
    for i, x in enumerate(p):
        for _ in range(x):
            out = out * e[NAMES[i]]
    return out


def basis(ctx, ps):
    return [lambda e, p=p, s=s: cst(ctx, PAULI[s]) * mono(ctx, p, e) for p in ps for s in range(4)]


def element(ctx, dim, i, U, R):
    cj, an = ctx.pybool(f'conj{i}'), ctx.pybool(f'anti{i}')
    Rm = np.array(R, dtype=int).reshape(dim, dim)
    return Rm, cj, an, U


def umat(ctx, kind, name='U'):
    if kind == 'phases':
        return ctx.arr(np.diag([ctx.phase(name + 'p'), ctx.phase(name + 'q')]))
    if kind == 'unitary':
        U = ctx.unitary(name)
        ctx.assume(Not_zero(ctx, U[0, 1]))
        return U
    return cst(ctx, PAULI[kind])


RS = {0: [[]], 1: [[-1]], 2: [[0, -1], [1, 0]], 'm': [[1, 0], [0, -1]]}
CASES = {f'd{d}-{tag}-{u}': dict(dim=d, power=p, R=R, u=u)
         for d, tag, p, R in [(0, '0', 0, RS[0]), (1, '1', [1], RS[1]), (1, '01', 1, RS[1]), (1, '2', [2], RS[1]), (2, '1', [1], RS[2]), (2, '1m', [1], RS['m'])]
         for u in ('phases', 'unitary') if u == 'phases' or tag in ('0', '1') and d < 2}


@H(cases=CASES, time_limit=60, max_paths=60,
   bounds='2x2 Hamiltonians in 0 to 2 dimensions of degree up to 2, one PointGroupElement with R = -1, a fourfold rotation or a mirror, both flags, U any diag of phases or unitary')
def point_group(ctx, dim, power, R, u):
    Q = ctx.Q
    g = element(ctx, dim, 0, umat(ctx, u), R)
    ks, env = kvals(ctx, dim)
    degs = range(power + 1) if isinstance(power, int) else power
    ps = [p for d in degs for p in monos(dim, d)]
    hg = Q.hamiltonian_generator
    before = list(power) if isinstance(power, list) else power
    images = lambda Hf, kp=ks: [expected(ctx, *g, Hf, kp) - Hf(kp)]
    pg = Q.PointGroupElement(*g)
    res = symmetric_span(ctx, lambda: Q.continuum_hamiltonian([pg], dim, power), hg, basis(ctx, ps), images, dim, ks, env, (2, 2))
    for m in res:
        ctx.check(type(m) is Q.Model and tuple(m.shape) == (2, 2) and [str(k) for k in m.momenta] == NAMES[:dim], 'type, shape and momenta')
        # each member has a definite degree
        ctx.check(len({sum(sympy.Poly(k, *[sympy.Symbol(str(x), commutative=True) for x in m.momenta]).monoms()[0]) if dim else 0 for k in m}) == 1, 'definite degree')
    ctx.check(power == before, 'arguments unchanged')


@H(cases={f'{t}': dict(powers=pw, power=tp) for t, pw, tp in [('cap', [1, 2], [2]), ('list', [[0, 2], [0, 1]], [2])]}, time_limit=60, max_paths=60,
   bounds='two dimensions with restricted powers of the single momenta, mirror with U = diag of any phases, both flags')
def powers(ctx, powers, power):
    Q = ctx.Q
    g = element(ctx, 2, 0, umat(ctx, 'phases'), RS['m'])
    ks, env = kvals(ctx, 2)
    allowed = [range(p + 1) if isinstance(p, int) else p for p in powers]
    ps = [p for d in power for p in monos(2, d, allowed)]
    images = lambda Hf, kp=ks: [expected(ctx, *g, Hf, kp) - Hf(kp)]
    arg = [p if isinstance(p, int) else list(p) for p in powers]
    symmetric_span(ctx, lambda: Q.continuum_hamiltonian([Q.PointGroupElement(*g)], 2, power, all_powers=arg), Q.hamiltonian_generator,
                   basis(ctx, ps), images, 2, ks, env, (2, 2))
    ctx.check(arg == powers, 'all_powers unchanged')


@H(cases={f'd{d}-{"-".join(map(str, p))}': dict(dim=d, power=p) for d, p in [(0, [0]), (1, [1])]}, time_limit=60, max_paths=60,
   bounds='one conserved quantity (any Hermitian 2x2 matrix) and inversion with U = sigma_x, both flags')
def conserved(ctx, dim, power):
    Q = ctx.Q
    L = herm(ctx, 'L')
    ctx.assume(Not_zero(ctx, L[0, 1]))
    g = element(ctx, dim, 0, cst(ctx, PAULI[1]), -np.eye(dim, dtype=int))
    ks, env = kvals(ctx, dim)
    ps = [p for d in power for p in monos(dim, d)]
    images = lambda Hf, kp=ks: [expected(ctx, *g, Hf, kp) - Hf(kp), Hf(kp) @ L - L @ Hf(kp)]
    symmetric_span(ctx, lambda: Q.continuum_hamiltonian([Q.PointGroupElement(*g), Q.ContinuousGroupGenerator(None, L)], dim, power),
                   Q.hamiltonian_generator, basis(ctx, ps), images, dim, ks, env, (2, 2))


@H(time_limit=60, max_paths=60, bounds='rotation symmetry of any strength about z with any diagonal generator of spin, degree 1 in two dimensions')
def rotational(ctx):
    Q = ctx.Q
    x, y = ctx.real('x'), ctx.real('y')
    L = ctx.arr(np.array([[x, 0 * x], [0 * x, y]], dtype=object)) if ctx.sym else np.diag([x, y])
    Rg = cst(ctx, [[0, -1j], [1j, 0]])
    ks, env = kvals(ctx, 2)

    def images(Hf, kp=ks):
        # Hf is linear in k: dH/dk . (i R k) = H(i R k) with i R real
        v = [kp[1], -kp[0]]
        return [1j * (Hf(kp) @ L - L @ Hf(kp)) + Hf(v)]
    symmetric_span(ctx, lambda: Q.continuum_hamiltonian([Q.ContinuousGroupGenerator(Rg, L)], 2, [1]), Q.hamiltonian_generator,
                   basis(ctx, monos(2, 1)), images, 2, ks, env, (2, 2))


@H(cases={f'd{d}-{p}': dict(dim=d, total=p) for d in range(4) for p in range(5)},
   bounds='continuum_variables: all total powers up to 4 in up to 3 dimensions, caps 0..2 on the powers as integer or list, symbols, names and indices as momenta')
def variables(ctx, dim, total):
    Q = ctx.Q
    cap = ctx.choose('cap', 4)
    names = [['k_x', 'k_y', 'k_z'], ['k_1', 'k_a', 'p'], [0, 1, 2], [2, 0, 1]][ctx.choose('mom', 4)]
    mom = names if ctx.pybool('extra') else names[:dim]
    pw = None if cap == 3 else [cap if i else sorted({0, cap}) for i in range(dim)]
    kw = {} if names is None else dict(momenta=mom)
    arg = None if pw is None else [p if isinstance(p, int) else list(p) for p in pw]
    vs = Q.hamiltonian_generator.continuum_variables(dim, total, all_powers=arg, **kw)
    sy = [sympy.Symbol(['k_x', 'k_y', 'k_z'][n] if isinstance(n, int) else n, commutative=True) for n in names]
    al = None if pw is None else [range(p + 1) if isinstance(p, int) else p for p in pw]
    want = [sympy.Mul(*[s**x for s, x in zip(sy, p)]) for p in monos(dim, total, al)]
    ctx.check(len(vs) == len(want) and set(vs) == set(want), 'every monomial once')
    ctx.check(arg == pw and len(mom) in (dim, 3), 'arguments unchanged')
