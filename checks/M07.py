"""Operations leave their operands alone, and results do not share memory with them."""
from se.runner import Registry
from .common import *
from .M01 import build, ev, KA, KB, value

H = Registry()
ASSUMPTIONS = ['closeness tests (np.allclose) are taken as exact equality in symbolic runs']
OUTSIDE = 'T, reshape, toarray, tocsr (views of the values, as in numpy), LinearOperator values (no in-place operations)'

T_ = sympy.Symbol('t')


def snap(ctx, m):
    return {k: (dense(ctx, v) + 0) for k, v in m.items()}


def same(ctx, m, s, meta, label):
    ctx.check(set(m.keys()) == set(s.keys()), label + ': keys')
    for k in s:
        ctx.check_eq(dense(ctx, m[k]), s[k], f'{label}: value')
    ctx.check((m.shape, m.format, m.momenta, set(m.keep)) == meta, label + ': attributes')


def meta(m):
    return (m.shape, m.format, m.momenta, set(m.keep))


OPS = {
    'copy': lambda Q, A, B: A.copy(),
    'copy.copy': lambda Q, A, B: __import__('copy').copy(A),
    'A+B': lambda Q, A, B: A + B,
    'A-B': lambda Q, A, B: A - B,
    'A+A': lambda Q, A, B: A + A,
    'A+empty': lambda Q, A, B: A + A.zeros_like(),
    'empty+A': lambda Q, A, B: A.zeros_like() + A,
    '0+A': lambda Q, A, B: 0 + A,
    'A+0': lambda Q, A, B: A + 0,
    'sum': lambda Q, A, B: sum([A, B]),
    '-A': lambda Q, A, B: -A,
    'A*1': lambda Q, A, B: A * 1,
    '1*A': lambda Q, A, B: 1 * A,
    'A/1': lambda Q, A, B: A / 1,
    'A*t': lambda Q, A, B: A * T_,
    't*A': lambda Q, A, B: T_ * A,
    'A@B': lambda Q, A, B: A @ B,
    'conj': lambda Q, A, B: A.conj(),
    'eliminate_zeros': lambda Q, A, B: A.eliminate_zeros(),
    'rotate': lambda Q, A, B: A.rotate_momenta(Q.np.eye(2, dtype=int)),
    'subs': lambda Q, A, B: A.subs({T_: 1}),
    'transform': lambda Q, A, B: A.transform_symbolic(lambda x: x),
    'apply id': lambda Q, A, B: Q.PointGroupElement(np.eye(2, dtype=int)).apply(A),
    'apply': lambda Q, A, B: Q.PointGroupElement(np.array([[0, 1], [1, 0]]), True, True).apply(A),
    'linear combination': lambda Q, A, B: Q.hamiltonian_generator.hamiltonian_from_family([A, B], coeffs=[1, 1], tosympy=False),
}
SKIP = {('BlochModel', 'subs'), ('BlochModel', 'transform'), ('BlochModel', 'linear combination')}


@H(cases={f'{c}-{f}-{o}': dict(cls=c, fmt=f, op=o) for c in ('Model', 'BlochModel') for f in ('dense', 'csr') for o in OPS if (c, o) not in SKIP},
   bounds='operands with two terms, every 2x2 coefficient')
def models(ctx, cls, fmt, op):
    """operands are unchanged by the operation, and by changing the result in place"""
    Q = ctx.Q
    ks = 'exp' if cls == 'BlochModel' else 'poly'
    A, _ = build(ctx, Q, cls, fmt, 'A', KA[ks][:2], (2, 2))
    B, _ = build(ctx, Q, cls, fmt, 'B', KB[ks][:2], (2, 2))
    sa, sb, ma, mb = snap(ctx, A), snap(ctx, B), meta(A), meta(B)
    try:
        r = OPS[op](Q, A, B)
    except NotImplementedError:
        r = None
    same(ctx, A, sa, ma, 'A')
    same(ctx, B, sb, mb, 'B')
    if r is None:
        return
    z = ctx.cplx('z')
    for k in list(r.keys()):
        v = r[k]
        v *= z
        r[k] *= z
        if fmt == 'dense':
            r[k][0, 1] = z
    r.keep.add('x')
    if r.data:
        r[T_**7] = r[list(r)[0]]
    same(ctx, A, sa, ma, 'A after changing the result')
    same(ctx, B, sb, mb, 'B after changing the result')


@H(cases={f'{c}-{f}-{o}': dict(cls=c, fmt=f, op=o) for c in ('Model', 'BlochModel') for f in ('dense', 'csr', 'scalar') for o in ('+=', '-=', '*=', '/=', '[]')},
   bounds='operands with two terms, every coefficient')
def inplace(ctx, cls, fmt, op):
    """augmented assignments rebind the name, other references to the Model are unchanged"""
    Q = ctx.Q
    ks = 'exp' if cls == 'BlochModel' else 'poly'
    A, _ = build(ctx, Q, cls, fmt, 'A', KA[ks][:2], (2, 2))
    B, _ = build(ctx, Q, cls, fmt, 'B', KB[ks][:2], (2, 2))
    C = A.copy()
    D = A
    sa, sb, ma, mb = snap(ctx, A), snap(ctx, B), meta(A), meta(B)
    if op == '+=':
        D += B
    elif op == '-=':
        D -= B
    elif op == '*=':
        D *= 3
    elif op == '/=':
        D /= 3
    else:
        k = list(C)[0]
        C[k] += C[k]
        C[k] *= 3
    same(ctx, A, sa, ma, 'A')
    same(ctx, B, sb, mb, 'B')


def freeze(ctx, x):
    """deep snapshot of arguments"""
    if hasattr(x, 'momenta') and hasattr(x, 'items'):
        return ('model', meta(x), snap(ctx, x))
    if hasattr(x, 'antisymmetry'):
        return ('pge', freeze(ctx, x.R), x.conjugate, x.antisymmetry, freeze(ctx, x.U), x._strict_eq)
    if type(x).__name__ == 'ContinuousGroupGenerator':
        return ('cgg', freeze(ctx, x.R), freeze(ctx, x.U))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [freeze(ctx, y) for y in x])
    if isinstance(x, (set, frozenset)):
        return ('set', set(map(id, x)), [freeze(ctx, y) for y in x])
    if isinstance(x, dict):
        return ('dict', [(k, freeze(ctx, v)) for k, v in x.items()])
    if isinstance(x, sympy.MatrixBase):
        return ('sympy', x.as_immutable())
    if hasattr(x, 'tocsr'):
        return ('sparse', dense(ctx, x) + 0)
    if hasattr(x, 'shape') and x.shape != ():
        return ('array', x + 0 * x)
    return ('value', x)


def thaw(ctx, a, b, label):
    ctx.check(a[0] == b[0] and len(a) == len(b), label + ': type')
    if a[0] == 'model':
        ctx.check(a[1] == b[1] and set(a[2]) == set(b[2]), label + ': attributes and keys')
        for k in a[2]:
            ctx.check_eq(b[2][k], a[2][k], label + ': value of a term')
    elif a[0] in ('array', 'sparse'):
        ctx.check(a[1].shape == b[1].shape, label + ': shape')
        if a[1].shape == b[1].shape:
            ctx.check_eq(b[1], a[1], label + ': entries')
    elif a[0] in ('pge', 'cgg'):
        for x, y in zip(a[1:], b[1:]):
            thaw(ctx, x, y, label) if isinstance(x, tuple) else ctx.check(x == y, label + ': flags')
    elif a[0] in ('list', 'tuple'):
        ctx.check(len(a[1]) == len(b[1]), label + ': length')
        for x, y in zip(a[1], b[1]):
            thaw(ctx, x, y, label)
    elif a[0] == 'set':
        ctx.check(a[1] == b[1], label + ': members')
        if a[1] == b[1]:
            for x, y in zip(a[2], b[2]):
                thaw(ctx, x, y, label)
    elif a[0] == 'dict':
        ctx.check([k for k, _ in a[1]] == [k for k, _ in b[1]], label + ': keys')
        for x, y in zip(a[1], b[1]):
            thaw(ctx, x[1], y[1], label)
    else:
        ctx.check(a[1] is b[1] or bool(a[1] == b[1]), label)


class Args:
    """lazily made arguments"""

    def __init__(self, ctx):
        self.ctx, self.Q = ctx, ctx.Q
        self.k = sympy.symbols('k_x k_y')

    def U(self):
        return self.ctx.unitary('U', special=True)

    def pge(self, U=True, R=((0, -1), (1, 0)), c=False, a=False):
        return self.Q.PointGroupElement(np.array(R), c, a, self.U() if U else None)

    def M(self, n, keys=('1', 'k_x')):
        return self.Q.Model({SY(k): self.ctx.matrix(f'{n}{i}', 2) for i, k in enumerate(keys)}, momenta=['k_x', 'k_y'])

    def one(self, n, key, i):
        e = np.zeros((2, 2))
        e[i, i] = 1
        return self.Q.Model({SY(key): const(self.ctx, e) * self.ctx.real(n, lo=0.5)}, momenta=['k_x', 'k_y'])

    def B(self, n, keys=('1', 'e**(I*k_x)')):
        return self.Q.BlochModel({SY(k): self.ctx.matrix(f'{n}{i}', 2) for i, k in enumerate(keys)}, momenta=['k_x', 'k_y'])

    def cgg(self):
        return self.Q.ContinuousGroupGenerator(np.array([[0, 1j], [-1j, 0]]), herm(self.ctx, 'L'))

    def pauli(self):
        """single band"""
        one = const(self.ctx, np.eye(1))
        return self.Q.Model({k ** 2: one * self.ctx.real(f'a{k}', lo=0.5) for k in self.k}, momenta=['k_x', 'k_y'])

    def group(self):
        Q = self.Q
        return Q.groups.generate_group({Q.PointGroupElement(np.diag([-1, 1])), Q.PointGroupElement(np.diag([1, -1])), Q.PointGroupElement(np.eye(2, dtype=int), True)})


FUN = {
    'g*h': (lambda A: (A.pge(), A.pge(R=((-1, 0), (0, 1)), c=True)), lambda Q, g, h: g * h),
    'inv': (lambda A: (A.pge(c=True),), lambda Q, g: g.inv()),
    'power': (lambda A: (A.pge(c=True),), lambda Q, g: (g ** 2, g ** -1)),
    'identity': (lambda A: (A.pge(c=True),), lambda Q, g: g.identity()),
    'eq': (lambda A: (A.pge(), A.pge(R=((-1, 0), (0, 1)))), lambda Q, g, h: (g == h, g < h, hash(g))),
    'apply': (lambda A: (A.pge(c=True, a=True), A.M('m')), lambda Q, g, m: g.apply(m)),
    'apply Bloch': (lambda A: (A.pge(c=True, a=True), A.B('m')), lambda Q, g, m: g.apply(m)),
    'apply generator': (lambda A: (A.cgg(), A.M('m')), lambda Q, g, m: g.apply(m)),
    'generate_group': (lambda A: ({A.pge(U=False), A.pge(U=False, c=True, R=((-1, 0), (0, 1)))},), lambda Q, g: Q.groups.generate_group(g)),
    'generate_subgroups': (lambda A: ({A.pge(U=False, R=((-1, 0), (0, 1))), A.pge(U=False, R=((1, 0), (0, 1))), A.pge(U=False, R=((1, 0), (0, -1))), A.pge(U=False, R=((-1, 0), (0, -1)))},),
                           lambda Q, g: Q.groups.generate_subgroups(g)),
    'set_multiply': (lambda A: ({A.pge(U=False)}, {A.pge(U=False, c=True)}), lambda Q, g, h: Q.groups.set_multiply(g, h)),
    'symmetry_from_permutation': (lambda A: (np.eye(2, dtype=int), {0: 1, 1: 0}, {0: 1, 1: 1}, {0: A.ctx.matrix('u', 1), 1: A.ctx.matrix('v', 1)}),
                                  lambda Q, R, p, n, o: Q.groups.symmetry_from_permutation(R, p, n, o)),
    'continuum_hamiltonian': (lambda A: ([A.pge(R=((-1, 0), (0, -1)))],), lambda Q, s: Q.continuum_hamiltonian(s, 2, 1, sparse_linalg=False)),
    'constrain_family': (lambda A: ([A.pge()], [A.M('m', ('k_x',)), A.M('n', ('k_y',))]), lambda Q, s, f: Q.hamiltonian_generator.constrain_family(s, f, sparse_linalg=False)),
    'symmetrize_monomial': (lambda A: (A.M('m', ('k_x',)), {A.pge(), A.pge(R=((1, 0), (0, 1)))}), lambda Q, m, s: Q.hamiltonian_generator.symmetrize_monomial(m, s)),
    'remove_duplicates': (lambda A: ([A.M('m', ('k_x',)), A.M('n', ('k_x',))],), lambda Q, f: Q.hamiltonian_generator.remove_duplicates(f)),
    'subtract_family': (lambda A: ([A.one('m', 'k_x', 0), A.one('n', 'k_y', 1)], [A.one('p', 'k_x', 0)]), lambda Q, f, g: Q.hamiltonian_generator.subtract_family(f, g)),
    'make_basis_pretty': (lambda A: ([A.M('m', ('k_x',)), A.M('n', ('k_y',))],), lambda Q, f: Q.hamiltonian_generator.make_basis_pretty(f)),
    'hamiltonian_from_family': (lambda A: ([A.M('m', ('k_x',)), A.M('n', ('k_y',))], [A.ctx.real('c'), sympy.Symbol('x')]), lambda Q, f, c: Q.hamiltonian_from_family(f, coeffs=c, tosympy=False)),
    'check_symmetry': (lambda A: ([A.one('m', 'k_x', 0)], [A.pge(), A.pge(c=True)]), lambda Q, f, s: raises(lambda: Q.hamiltonian_generator.check_symmetry(f, s), ValueError, TypeError)),
    'continuum_pairing': (lambda A: ([A.pge()], [1]), lambda Q, s, p: Q.hamiltonian_generator.continuum_pairing(s, 2, 0, ph_square=1, phases=p, sparse_linalg=False)),
    'bloch_family': (lambda A: ([('a', 'a', [1, 0])], [Q_pge(A)], [('a', 1)]), lambda Q, h, s, n: Q.bloch_family(h, s, n)),
    'symmetries': (lambda A: (A.pauli(), A.group()), lambda Q, m, c: Q.symmetries(m, c, sparse_linalg=False)),
    'discrete_symmetries': (lambda A: (A.pauli(), A.group()), lambda Q, m, c: Q.symmetry_finder.discrete_symmetries(m, c)),
    'continuous_symmetries': (lambda A: (A.pauli(),), lambda Q, m: Q.symmetry_finder.continuous_symmetries(m, sparse_linalg=False)),
    'conserved_quantities': (lambda A: (list(A.pauli().values()),), lambda Q, h: Q.symmetry_finder.conserved_quantities(Q.symmetry_finder._reduce_hamiltonian(Q.np.array(h)))),
    'rref': (lambda A: (rmat(A.ctx, 'r', 2, 3),), lambda Q, m: Q.linalg.rref(m)),
    'nullspace': (lambda A: (rmat(A.ctx, 'r', 1, 2),), lambda Q, m: Q.linalg.nullspace(m)),
    'sparse_basis': (lambda A: (rmat(A.ctx, 'r', 2, 3),), lambda Q, m: Q.linalg.sparse_basis(m, reals=True)),
    'family_to_vectors': (lambda A: ([A.M('m', ('k_x',)), A.M('n', ('k_y',))],), lambda Q, f: Q.linalg.family_to_vectors(f)),
    'prop_to_id': (lambda A: (A.ctx.matrix('m', 2),), lambda Q, m: Q.linalg.prop_to_id(m)),
    'allclose': (lambda A: (A.ctx.matrix('m', 2), A.ctx.matrix('n', 2)), lambda Q, m, n: Q.linalg.allclose(m, n)),
}


def Q_pge(A):
    return A.Q.PointGroupElement(np.array([[-1, 0], [0, 1]]), True, False, A.ctx.arr(np.array([[A.ctx.phase('u')]], dtype=object if A.ctx.sym else complex)))


@H(cases={f: dict(f=f) for f in FUN}, bounds='arguments with two orbitals and symbolic entries', time_limit=25, max_paths=30)
def arguments(ctx, f):
    ctx.exact_tol()
    mk, fn = FUN[f]
    args = mk(Args(ctx))
    before = [freeze(ctx, a) for a in args]
    fn(ctx.Q, *args)
    for i, (a, b) in enumerate(zip(args, before)):
        thaw(ctx, b, freeze(ctx, a), f'argument {i}')
