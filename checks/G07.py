"""Continuous symmetry generators."""
import sympy
from se.runner import Registry
from .common import *

H = Registry()
ASSUMPTIONS = ['closeness tests (np.allclose / np.isclose) are taken as exact equality in symbolic runs']
OUTSIDE = 'matrices larger than 2x2 (3x3 for the constructor), polynomials above order 3'

KEYS = {1: ['1', 'k_x', 'k_x**2', 'a'], 2: ['k_x', 'k_y**2', 'a*k_x*k_y', '1'], 3: ['k_x', 'k_y*k_z', 'k_z**2']}
TRIG = {2: ['cos(k_x)', 'sin(k_y)*a'], 3: ['sin(k_x + k_y)', 'cos(k_z)']}


def genR(ctx, dim, name='r'):
    """Hermitian antisymmetric: i times real antisymmetric"""
    rows = [[0 for _ in range(dim)] for _ in range(dim)]
    for i in range(dim):
        for j in range(i + 1, dim):
            x = ctx.real(f'{name}{i}{j}')
            rows[i][j], rows[j][i] = x * 1j, x * -1j
    return ctx.arr(np.array(rows, dtype=object)) if ctx.sym else np.array(rows, dtype=complex)


def deriv(ctx, terms, dim, R, ks, env):
    out = None
    for k, v in terms:
        for i in range(dim):
            d = sympy.diff(SY(k), sympy.Symbol(NAMES[i]))
            if d == 0:
                continue
            z = keyval(ctx, d, (), env)
            for j in range(dim):
                t = v * (z * R[i, j] * ks[j])
                out = t if out is None else out + t
    return out


@H(cases={f'd{d}-{k}-{u}': dict(dim=d, keys=k, u=u) for d, k in [(1, 'poly'), (2, 'poly'), (3, 'poly'), (2, 'trig'), (3, 'trig')]
          for u in ('both', 'R', 'U', 'none') if d > 1 or u in ('U', 'none')}, time_limit=60,
   bounds='Models with arbitrary 2x2 coefficients in 1 to 3 dimensions, polynomial or trigonometric keys, every R and Hermitian U, each possibly None')
def apply(ctx, dim, keys, u):
    Q = ctx.Q
    ks_ = (KEYS if keys == 'poly' else TRIG)[dim]
    terms = [(k, ctx.matrix(f'h{i}', 2)) for i, k in enumerate(ks_)]
    for _, v in terms:
        ctx.assume(Not_zero(ctx, v[0, 0]))
    model = Q.Model({k: v for k, v in terms}, momenta=NAMES[:dim])
    R = genR(ctx, dim) if u in ('both', 'R') and dim > 1 else None
    U = herm(ctx, 'U') if u in ('both', 'U') else None
    if R is not None:
        ctx.assume(Not_zero(ctx, R[0, 1]))
    ks, env = kvals(ctx, dim)
    before = meval(ctx, model, env)
    r = Q.ContinuousGroupGenerator(R, U).apply(model)
    want = zeros(ctx, (2, 2))
    Hk = eval_terms(ctx, terms, env)
    if U is not None:
        want = want + (Hk @ U - U @ Hk) * 1j
    if R is not None:
        d = deriv(ctx, terms, dim, R, ks, env)
        want = want if d is None else want + d * 1j
    ctx.check_eq(meval(ctx, r, env), want, 'i (HU - UH) + i dH/dk R k')
    ctx.check(tuple(r.shape) == (2, 2) and tuple(r.momenta) == tuple(model.momenta), 'shape and momenta')
    ctx.check_eq(meval(ctx, model, env), before, 'argument unchanged')


@H(bounds='BlochModel with arbitrary 2x2 coefficients, every Hermitian U')
def apply_bloch(ctx):
    Q = ctx.Q
    terms = [(k, ctx.matrix(f'h{i}', 2)) for i, k in enumerate(['e**(I*k_x)', 'e**(-I*k_x + I*k_y)', '1'])]
    m = Q.BlochModel({k: v for k, v in terms}, momenta=NAMES[:2])
    U = herm(ctx, 'U')
    ks, env = kvals(ctx, 2)
    r = Q.ContinuousGroupGenerator(None, U).apply(m)
    Hk = eval_terms(ctx, terms, env)
    ctx.check(isinstance(r, Q.BlochModel), 'type')
    ctx.check_eq(meval(ctx, r, env), (Hk @ U - U @ Hk) * 1j, 'commutator')


@H(cases={f'{f}': dict(fmt=f) for f in ('csr',)}, bounds='sparse Model, every R and U')
def apply_sparse(ctx, fmt):
    Q = ctx.Q
    terms = [(k, ctx.matrix(f'h{i}', 2)) for i, k in enumerate(['k_x', 'k_y'])]
    for _, v in terms:
        ctx.assume(Not_zero(ctx, v[0, 0]))
    m = Q.Model({k: v for k, v in terms}, momenta=NAMES[:2]).tocsr()
    U, R = herm(ctx, 'U'), genR(ctx, 2)
    ctx.assume(Not_zero(ctx, R[0, 1]))
    ks, env = kvals(ctx, 2)
    r = Q.ContinuousGroupGenerator(R, U).apply(m)
    Hk = eval_terms(ctx, terms, env)
    ctx.check_eq(meval(ctx, r, env), (Hk @ U - U @ Hk) * 1j + deriv(ctx, terms, 2, R, ks, env) * 1j, 'sparse')


@H(bounds='invariance: linear Rashba-type Hamiltonian of any strengths under rotation generated by R = L, U = s_z / 2 with any additional multiple of 1')
def invariant(ctx):
    Q = ctx.Q
    x, y, z = ctx.real('x'), ctx.real('y'), ctx.real('z')
    s0, sx, sy, sz = sig(ctx)
    m = Q.Model({'k_x': sx * x + sy * y, 'k_y': sy * x - sx * y, 'k_x**2 + k_y**2': s0 * z}, momenta=NAMES[:2])
    L = ctx.Q.groups.L_matrices(2)[0]
    c = ctx.real('c')
    r = Q.ContinuousGroupGenerator(L, sz * 0.5 + s0 * c).apply(m)
    ks, env = kvals(ctx, 2)
    ctx.check_eq(meval(ctx, r, env), zeros(ctx, (2, 2)), 'rotation symmetric')
    # finite rotation generated by (R, U) leaves H invariant: exp(-i t U) H(exp(i t R) k) exp(i t U) = H(k)
    t = ctx.real('t')
    if ctx.sym:
        co, si = t.cos(), t.sin()
    else:
        co, si = np.cos(t), np.sin(t)
    eR = np.array([[co, si], [-si, co]], dtype=object)
    e = lambda w: (to_sym(t) * Sym(-1j * w)).exp() if ctx.sym else np.exp(-1j * w * t)
    V = ctx.arr(np.array([[e(0.5), 0], [0, e(-0.5)]], dtype=object))
    k2 = [eR[0, 0] * ks[0] + eR[0, 1] * ks[1], eR[1, 0] * ks[0] + eR[1, 1] * ks[1]]
    env2 = dict(env, k_x=k2[0], k_y=k2[1])
    ctx.check_eq(V @ meval(ctx, m, env2) @ dag(ctx, V), meval(ctx, m, env), 'finite transformation')
    ctx.check_eq(const(ctx, np.array(L)), const(ctx, np.array([[0, -1j], [1j, 0]])), 'L generates the rotation')


@H(cases={f'R{n}': dict(n=n, which='R') for n in (1, 2, 3)} | {f'U{n}': dict(n=n, which='U') for n in (1, 2)}, time_limit=60,
   bounds='any complex 2x2 matrix (1x1 and 3x3 real + i real for R)')
def constructor(ctx, n, which):
    Q = ctx.Q
    if n == 3:
        A, B = rmat(ctx, 'A', 3), rmat(ctx, 'B', 3)
        which_ = ctx.choose('k', 3)
        if which_ == 0:
            M = A
        elif which_ == 1:
            M = (B - B.T) * 1j + A * 0
        else:
            M = (B + B.T) * 1j
    else:
        M = ctx.matrix('M', n)
    herm = close(ctx, M, dag(ctx, M), 1e-4)
    anti = close(ctx, M, -M.T, 1e-4)
    ok = f_and([herm, anti]) if which == 'R' else herm
    try:
        g = Q.ContinuousGroupGenerator(M, None) if which == 'R' else Q.ContinuousGroupGenerator(None, M)
    except ValueError:
        ctx.check(f_not(ok), 'rejected although valid')
        return
    ctx.check(ok, 'accepted although invalid')
    if which == 'R':
        ctx.check_eq(g.R, M, 'R'), ctx.check(g.U is None, 'U')
    else:
        ctx.check_eq(g.U, M, 'U'), ctx.check(g.R is None, 'R')
