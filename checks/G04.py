"""Factory functions: rotations, mirrors, time reversal, spin matrices, predefined groups."""
import itertools
import math
import sympy
from se.runner import Registry
from .common import *

H = Registry()
ASSUMPTIONS = ['closeness tests are exact equality in symbolic runs']
STUBS = ['scipy.linalg.expm of -i n.s: Lagrange polynomial of the spectrum after checking the minimal polynomial symbolically']
OUTSIDE = 'spins above 5/2; spin representations other than direct conjugates of the standard ones'


def spins(ctx, s):
    """standard spin matrices, written down independently"""
    d = int(round(2 * s + 1))
    m = [s - i for i in range(d)]
    sp = np.zeros((d, d))
    for i in range(1, d):
        sp[i - 1, i] = math.sqrt(s * (s + 1) - m[i] * (m[i] + 1))
    return [const(ctx, (sp + sp.T) / 2), const(ctx, (sp - sp.T) / 2j), const(ctx, np.diag(m).astype(complex))]


def spin_arg(ctx, kind):
    """-> (argument for `spin`, list of three spin matrices)"""
    if kind == 'none':
        return None, None
    if kind == 'V':
        V = ctx.unitary('V')
        s = [V @ x @ dag(ctx, V) for x in spins(ctx, 0.5)]
        return (AR.wrap(np.array([np.asarray(x, dtype=object) for x in s])) if ctx.sym else np.array(s)), s
    if kind == 'list':
        s = spins(ctx, 1)
        return s, s
    return kind, spins(ctx, kind)


def cossin(ctx, x):
    if ctx.sym:
        x = to_sym(x)
        e = (x * Sym(1j)).exp()
        f = (x * Sym(-1j)).exp()
        return (e + f) / 2, (e - f) * Sym(-0.5j)
    return math.cos(x), math.sin(x)


def mat(ctx, rows):
    return ctx.arr(np.array(rows, dtype=object)) if ctx.sym else np.array(rows, dtype=float)


def rodrigues(ctx, n, th):
    c, s = cossin(ctx, th)
    K = [[0 * n[0], -n[2], n[1]], [n[2], 0 * n[0], -n[0]], [-n[1], n[0], 0 * n[0]]]
    return mat(ctx, [[(1 if i == j else 0) * c + K[i][j] * s + n[i] * n[j] * (1 - c) for j in range(3)] for i in range(3)])


def covariant(ctx, U, s, R3, lab, conj=False, sign=1):
    """U s_i U+ = sign * sum_j s_j R_ji"""
    for i in range(3):
        l = U @ (s[i].conj() if conj else s[i]) @ dag(ctx, U)
        r = sum((s[j] * R3[j, i] for j in range(3)), 0 * s[0])
        ctx.check_eq(l, r * sign, f'{lab}: action on spin component {i}')


def is_unitary(ctx, U, lab):
    ctx.check_eq(U @ dag(ctx, U), eye(ctx, U.shape[0]), lab + ': unitary')


def pad(ctx, R):
    """2D matrix as 3D matrix that keeps z"""
    R = plain(ctx, R)
    z = 0 * R[0, 0]
    return mat(ctx, [[R[0, 0], R[0, 1], z], [R[1, 0], R[1, 1], z], [z, z, z + 1]])


def plainpge(ctx, g, lab):
    ctx.check(g.conjugate is False and g.antisymmetry is False, lab + ': flags')


@H(cases={str(s): dict(s=s) for s in ('none', 0.5, 1, 1.5, 'V', 'list')}, bounds='any angle, spin 1/2, 1, 3/2 or any conjugate of spin 1/2')
def rotation2(ctx, s):
    Q = ctx.Q
    spin, S = spin_arg(ctx, s)
    t = ctx.real('t')
    c, sn = cossin(ctx, t * (2 * np.pi))
    if ctx.sym:
        ctx.nonint(to_sym(c).real)
    elif abs(c) < 1e-3 or abs(c) > 0.999:
        return
    g = Q.rotation(t, spin=spin)
    ctx.check_eq(plain(ctx, g.R), mat(ctx, [[c, -sn], [sn, c]]), 'R')
    plainpge(ctx, g, 'rotation')
    if S is None:
        ctx.check(g.U is None, 'no U')
        return
    is_unitary(ctx, g.U, 'U')
    covariant(ctx, g.U, S, pad(ctx, g.R), 'rotation')
    # the phase: exp(-i theta s_z)
    e = lambda m: to_sym(t * (2 * np.pi) * -m * 1j).exp() if ctx.sym else np.exp(-2j * np.pi * t * m)
    ctx.check_eq(np.trace(g.U) if not ctx.sym else AR.np_trace(g.U), sum((e(m - (len(g.U) - 1) / 2) for m in range(len(g.U))), 0 * e(1)), 'trace of U')


FR = {1: 1, 2: 1, 3: 1, 4: 1, 6: 1, '-4': -1}


@H(cases={f'{s}-{n}': dict(s=s, n=n) for s in (0.5, 1, 'V') for n in (1, 2, 3, 4, 6, -4, -3)},
   bounds='angles 2 pi / n; 2D (z) and the axes x, y, z, (111), (1-10) scaled by any positive factor; proper and improper')
def rotation_n(ctx, s, n):
    Q = ctx.Q
    spin, S = spin_arg(ctx, s)
    axes = [None, [1, 0, 0], [0, 1, 0], [0, 0, 1], [1, 1, 1], [1, -1, 0], [0, 0, -1]]
    ax = axes[ctx.choose('axis', len(axes))]
    if ax is None:
        g = Q.rotation(1 / n, spin=spin)
        th = 2 * np.pi / n
        R3 = rodrigues(ctx, [0., 0., 1.], th) if not ctx.sym else rodrigues(ctx, [to_sym(0), to_sym(0), to_sym(1)], th)
        ctx.check_eq(pad(ctx, g.R), R3, 'R')
        sgn = 1
    else:
        inv_ = ctx.pybool('inv')
        f = ctx.real('f', lo=0.1, hi=10)
        g = Q.rotation(1 / n, [f * x for x in ax] if ctx.sym else np.array(ax) * f, inversion=inv_, spin=spin)
        u = np.array(ax) / np.linalg.norm(ax)
        R3 = rodrigues(ctx, [to_sym(x) for x in u] if ctx.sym else list(u), 2 * np.pi / n)
        ctx.check_eq(plain(ctx, g.R), -R3 if inv_ else R3, 'R')
    plainpge(ctx, g, 'rotation')
    is_unitary(ctx, g.U, 'U')
    covariant(ctx, g.U, S, R3, 'rotation')


@H(cases={f'{s}': dict(s=s) for s in ('none', 0.5, 1)}, time_limit=60,
   bounds='any angle, any axis of any positive length, proper and improper; spin 1/2 and 1')
def rotation3(ctx, s):
    Q = ctx.Q
    spin, S = spin_arg(ctx, s)
    t = ctx.real('t')
    n = unit(ctx, 3)
    f = ctx.real('f', lo=0.2, hi=5)
    th = t * (2 * np.pi)
    R3 = rodrigues(ctx, n, th)
    if ctx.sym:
        ctx.nonint(to_sym(R3[0, 1]).real)
    elif min(abs(abs(R3[0, 1]) - x) for x in (0, 1)) < 1e-3:
        return
    inv_ = ctx.pybool('inv')
    ax = [f * x for x in n] if ctx.sym else np.array(n) * f
    g = Q.rotation(t, ax, inversion=inv_, spin=spin)
    ctx.check_eq(plain(ctx, g.R), -R3 if inv_ else R3, 'R')
    plainpge(ctx, g, 'rotation')
    if S is None:
        ctx.check(g.U is None, 'no U')
        return
    is_unitary(ctx, g.U, 'U')
    covariant(ctx, g.U, S, R3, 'rotation')


def unit(ctx, n, name='n'):
    v = [ctx.real(f'{name}{i}') for i in range(n)]
    if ctx.sym:
        nm = [next(iter(x.n))[0][0][0] for x in v]
        ctx.sphere(nm[0], nm[1:])
        return v
    r = math.sqrt(sum(x * x for x in v)) or 1.0
    return [x / r for x in v]


@H(cases={f'{d}-{s}': dict(d=d, s=s) for d in (1, 2, 3) for s in ('none', 0.5, 1, 'V') if d > 1 or s == 'none'}, time_limit=60,
   bounds='any normal in 1 to 3 dimensions, spin 1/2, 1 or any conjugate of spin 1/2')
def mirror(ctx, d, s):
    Q = ctx.Q
    spin, S = spin_arg(ctx, s)
    f = ctx.real('f', lo=0.2, hi=5)
    if d == 1:
        g = Q.mirror([f] if ctx.sym else np.array([f]))
        ctx.check_eq(plain(ctx, g.R), const(ctx, np.array([[-1.]])), 'R')
        return
    n = unit(ctx, d)
    if ctx.sym:
        ctx.nonint(n[0] * n[1] * 2)
    elif abs(n[0] * n[1]) < 1e-3 or abs(abs(2 * n[0] * n[1]) - 1) < 1e-3:
        return
    g = Q.mirror([f * x for x in n] if ctx.sym else np.array(n) * f, spin=spin)
    R = mat(ctx, [[(1 if i == j else 0) - 2 * n[i] * n[j] for j in range(d)] for i in range(d)])
    ctx.check_eq(plain(ctx, g.R), R, 'R')
    plainpge(ctx, g, 'mirror')
    if S is None:
        ctx.check(g.U is None, 'no U')
        return
    is_unitary(ctx, g.U, 'U')
    covariant(ctx, g.U, S, R if d == 3 else pad(ctx, R), 'mirror', sign=-1)


@H(cases={str(s): dict(s=s) for s in ('none', 0.5, 1, 1.5, 2, 'list')}, bounds='dimension 0-3; any complex 2x2 U; spin up to 2')
def onsite(ctx, s):
    Q = ctx.Q
    d = ctx.choose('d', 4)
    spin, S = spin_arg(ctx, s)
    T = Q.time_reversal(d, spin=spin)
    ctx.check((T.conjugate, T.antisymmetry) == (True, False), 'time reversal flags')
    ctx.check(T.R.shape == (d, d) and (d == 0 or truth(close(ctx, plain(ctx, T.R), eye(ctx, d)))), 'time reversal R')
    if S is None:
        ctx.check(T.U is None, 'no U')
    else:
        is_unitary(ctx, T.U, 'T')
        for x in S:
            ctx.check_eq(T.U @ x.conj() @ dag(ctx, T.U), -x, 'T reverses the spin')
        n = len(S[0])
        ctx.check_eq(T.U @ T.U.conj(), eye(ctx, n) * (-1 if n % 2 == 0 else 1), 'T^2')
    U = ctx.matrix('U', 2)
    for f, fl, sg in ((Q.time_reversal, (True, False), 1), (Q.particle_hole, (True, True), 1), (Q.chiral, (False, True), 1),
                      (Q.inversion, (False, False), -1)):
        for u in (None, U):
            g = f(d, U=u)
            ctx.check((g.conjugate, g.antisymmetry) == fl, 'flags')
            ctx.check(g.R.shape == (d, d) and (d == 0 or truth(close(ctx, plain(ctx, g.R), eye(ctx, d) * sg))), 'R')
            if u is None:
                ctx.check(g.U is None, 'no U')
            else:
                ctx.check_eq(g.U, U, 'U')
    for sh in (None, 2):
        g = Q.groups.identity(d, sh)
        ctx.check((g.conjugate, g.antisymmetry) == (False, False), 'identity flags')
        ctx.check(g.R.shape == (d, d) and (d == 0 or truth(close(ctx, plain(ctx, g.R), eye(ctx, d)))), 'identity R')
        if sh is None:
            ctx.check(g.U is None, 'identity U')
        else:
            ctx.check_eq(g.U, eye(ctx, 2), 'identity U')
    ctx.check(raises(lambda: Q.time_reversal(2, U=U, spin=0.5), ValueError), 'U and spin')
    ctx.check(raises(lambda: Q.rotation(0.25, U=U, spin=0.5), ValueError), 'U and spin')
    ctx.check(raises(lambda: Q.mirror([1, 0], U=U, spin=0.5), ValueError), 'U and spin')
    ctx.check(raises(lambda: Q.rotation(0.25, [1, 0]), ValueError), '2D axis')
    for g in (Q.rotation(0.25, U=U), Q.mirror([0, 1], U=U), Q.rotation(0.25, [0, 0, 1], U=U)):
        ctx.check_eq(g.U, U, 'given U')


@H(cases={str(s): dict(s=s) for s in (0, 0.5, 1, 1.5, 2, 2.5)}, bounds='spins up to 5/2, any two vectors')
def spin_matrices(ctx, s):
    Q = ctx.Q
    S = Q.groups.spin_matrices(s)
    want = spins(ctx, s)
    d = int(2 * s + 1)
    ctx.check(S.shape == (3, d, d), 'shape')
    for a, b in zip(S, want):
        ctx.check_eq(plain(ctx, a), b, 'standard basis')
    v, w = [ctx.real(f'v{i}') for i in range(3)], [ctx.real(f'w{i}') for i in range(3)]
    dot = lambda u: sum((plain(ctx, S[i]) * u[i] for i in range(3)), 0 * want[0])
    x = [v[1] * w[2] - v[2] * w[1], v[2] * w[0] - v[0] * w[2], v[0] * w[1] - v[1] * w[0]]
    ctx.check_eq(dot(v) @ dot(w) - dot(w) @ dot(v), dot(x) * 1j, 'commutation relations')
    S0 = Q.groups.spin_matrices(s, include_0=True)
    ctx.check(S0.shape == (4, d, d), 'shape with identity')
    ctx.check_eq(plain(ctx, S0[0]), eye(ctx, d), 'identity')
    for a, b in zip(S0[1:], want):
        ctx.check_eq(plain(ctx, a), b, 'components with identity')
    ctx.check(raises(lambda: Q.groups.spin_matrices(s + 0.3), AssertionError), 'not half-integer')


def orbitals(x, y, z):
    return [(x * x - y * y) / 2, (2 * z * z - x * x - y * y) / (2 * math.sqrt(3)), x * y, y * z, z * x]


def orb_jac(x, y, z):
    s3 = math.sqrt(3)
    return [[x, -y, 0 * x], [-x / s3, -y / s3, 2 * z / s3], [y, x, 0 * x], [0 * x, z, y], [z, 0 * x, x]]


@H(bounds='any point r; d = 2, 3, l = 1, 2')
def L_matrices(ctx):
    Q = ctx.Q
    r = [ctx.real(n) for n in 'xyz']
    L1, L2 = Q.groups.L_matrices(3, 1), Q.groups.L_matrices(3, 2)
    L2d = Q.groups.L_matrices(2, 1)
    rv = mat(ctx, r)
    f, J = mat(ctx, orbitals(*r)), mat(ctx, orb_jac(*r))
    for k in range(3):
        a, b, c = plain(ctx, L1[k]), plain(ctx, L1[(k + 1) % 3]), plain(ctx, L1[(k + 2) % 3])
        ctx.check_eq(a @ b - b @ a, c * 1j, 'l=1 commutation')
        ek = [1 if i == k else 0 for i in range(3)]
        cross = [ek[1] * r[2] - ek[2] * r[1], ek[2] * r[0] - ek[0] * r[2], ek[0] * r[1] - ek[1] * r[0]]
        ctx.check_eq((a * -1j) @ rv, mat(ctx, cross), 'generates rotations of r')
        a2, b2, c2 = plain(ctx, L2[k]), plain(ctx, L2[(k + 1) % 3]), plain(ctx, L2[(k + 2) % 3])
        ctx.check_eq(a2 @ b2 - b2 @ a2, c2 * 1j, 'l=2 commutation')
        ctx.check_eq((a2 * -1j) @ f, J @ mat(ctx, cross), 'd orbitals transform as functions of r')
        for m in (a, a2):
            ctx.check_eq(m.T, -m, 'antisymmetric')
            ctx.check_eq(m.conj(), -m, 'imaginary')
    ctx.check_eq((plain(ctx, L2d[0]) * -1j) @ mat(ctx, r[:2]), mat(ctx, [-r[1], r[0]]), '2D')
    ctx.check(raises(lambda: Q.groups.L_matrices(4, 1), ValueError) and raises(lambda: Q.groups.L_matrices(2, 2), ValueError), 'unsupported')


@H(cases={f'{k}-{s}': dict(k=k, s=s) for k in ('square', 'cubic', 'hex2', 'hex2f', 'hex3', 'hex3f') for s in ('none', 0.5, 1, 'V')
          if not (s in (1, 'V') and k in ('cubic', 'hex3', 'hex3f')) or (k, s) == ('cubic', 'V')},
   time_limit=60, bounds='predefined groups with all options; spin 1/2, 1 or any conjugate of spin 1/2')
def groups(ctx, k, s):
    Q = ctx.Q
    spin, S = spin_arg(ctx, s)
    # exp(-i pi s_y) K reverses the spin only for real s_x, s_z and imaginary s_y
    tr = ctx.pybool('tr') if s != 'V' else False
    ph = ctx.pybool('ph')
    kw = dict(tr=tr, ph=ph, spin=spin)
    if k.startswith('hex'):
        f = lambda **o: Q.groups.hexagonal(int(k[3]), sympy_R=not k.endswith('f'), **o)
    else:
        f = getattr(Q.groups, k)
    if ph and S is not None:
        ctx.check(raises(lambda: f(**kw), ValueError), 'spin with particle-hole symmetry')
        return
    n = dict(square=8, cubic=48, hex2=12, hex2f=12, hex3=24, hex3f=24)[k] * (2 if tr else 1) * (2 if ph else 1)
    G = f(**kw)
    ctx.check(len(G) == n, 'order of the group')
    gens = f(generators=True, **kw)
    ctx.check(all(g in G for g in gens), 'generators are elements')
    el = sorted(G)
    dim = 3 if k in ('cubic', 'hex3', 'hex3f') else 2
    e = Q.groups.identity(dim)
    ctx.check(e in G, 'identity')
    for g in (el if n <= 48 else el[::5]):
        ctx.check(g.inv() in G, 'inverse')
        for h_ in gens:
            ctx.check(g * h_ in G, 'closed')
        R = np.array(g.R).astype(float)
        ctx.check(truth(close(ctx, const(ctx, R @ R.T), eye(ctx, dim))), 'orthogonal')
        if k in ('square', 'cubic'):
            ctx.check(np.allclose(R, np.round(R)), 'integer')
        if S is None:
            ctx.check(g.U is None, 'no U')
        else:
            R3 = R if dim == 3 else np.block([[R, np.zeros((2, 1))], [np.zeros((1, 2)), np.eye(1)]])
            sg = int(round(np.linalg.det(R3))) * (-1 if g.conjugate else 1)
            is_unitary(ctx, g.U, 'U')
            covariant(ctx, g.U, S, const(ctx, R3), 'element', conj=g.conjugate, sign=sg)
    # the point group itself: all integer matrices for square and cubic, all symmetries of the hexagon otherwise
    Rs = {tuple(np.round(np.array(g.R).astype(float), 6).ravel() + 0.0) for g in el}
    ctx.check(len(Rs) == dict(square=8, cubic=48, hex2=12, hex2f=12, hex3=24, hex3f=24)[k], 'all rotations')


@H(cases={f'{s}': dict(s=s) for s in (0.5, 1, 'V', 'list')}, time_limit=60, bounds='any rotation vector f n, spin 1/2, 1 or conjugates; integer option for quarter turns')
def spin_rotation(ctx, s):
    Q = ctx.Q
    spin, S = spin_arg(ctx, s)
    if s == 'V':
        n = [ctx.real('t') * 0, ctx.real('t') * 0, ctx.real('t')]
        t = n[2]
        u = [0 * t, 0 * t, 0 * t + 1]
    else:
        u = unit(ctx, 3)
        t = ctx.real('t', lo=0.05, hi=9)
        n = [t * x for x in u]
    ctx.assume(Not_zero(ctx, t))
    U = Q.groups.spin_rotation(n, spin)
    is_unitary(ctx, U, 'U')
    covariant(ctx, U, S, rodrigues(ctx, u, t), 'spin_rotation')
    for i in range(4):
        for ax in range(3):
            v = np.eye(3)[ax] * i * np.pi / 2
            M = Q.groups.spin_rotation(v, Q.groups.L_matrices(), roundint=True)
            w = rodrigues(ctx, [to_sym(x) for x in np.eye(3)[ax]] if ctx.sym else list(np.eye(3)[ax]), i * np.pi / 2)
            ctx.check_eq(plain(ctx, M), w, 'integer rotation')
    ctx.check(raises(lambda: Q.groups.spin_rotation([0.3, 0, 0], Q.groups.L_matrices(), roundint=True), AssertionError), 'not integer')
