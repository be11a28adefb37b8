"""Results do not depend on calls made before: every call is preceded by one with other values of the same structure."""
import importlib
from se import contracts
from se.runner import Registry, Harness
from .common import *
from .M01 import build, value, ev, KA, E_

H = Registry()
STUBS = ['as in the checks whose harnesses are repeated (named in front of the colon)']
ASSUMPTIONS = ['as in the checks whose harnesses are repeated']
OUTSIDE = 'earlier calls with values other than the constant ones of the warm-up, or on objects of another structure; state kept outside the process'

FUNCTIONS = {'constrain_family', 'continuum_hamiltonian', 'continuum_pairing', 'bloch_family', 'symmetries', 'discrete_symmetries', 'conserved_quantities',
             'continuous_symmetries', 'remove_duplicates', 'subtract_family', 'make_basis_pretty', 'hamiltonian_from_family', 'check_symmetry', 'round_family',
             'symmetrize_monomial', 'generate_group', 'nullspace', 'simult_diag', 'solve_mat_eqn', 'rref', 'sparse_basis', 'prop_to_id', 'pretty_print_pge',
             'pretty_print_cgg', 'symmetry_from_permutation', 'spin_rotation', 'time_reversal', 'rotation', 'mirror', 'particle_hole', 'chiral', 'inversion',
             'allclose', 'family_to_vectors', 'display_family', '_reduce_hamiltonian', '_find_unitary', '_reduced_model', 'bravais_point_group', 'set_multiply',
             'generate_subgroups', 'symmetry_adapted_sun', 'separate_lie_algebra'}


def const(ctx, shape, kind):
    """constant matrices of generic entries: Hermitian, or unitary and diagonal"""
    n = shape[0]
    m = np.zeros(shape, dtype=complex)
    for i in range(n):
        for j in range(shape[-1]):
            if kind == 'unitary':
                m[i, j] = (i == j) * (1, -1, 1j)[i % 3]
            else:
                m[i, j] = 3 + 2 * i if i == j else (1 + (i + j) % 2) * (1 + 1j * np.sign(i - j))
    return ctx.arr(m.astype(object)) if ctx.sym else m


class Skip(Exception):
    pass


def decoy(ctx, Q, x, depth=0):
    if hasattr(x, 'momenta') and hasattr(x, 'data'):
        m = x.copy()
        for k, v in list(m.data.items()):
            s = getattr(v, 'shape', ())
            if len(s) == 2 and isinstance(v, np.ndarray):
                m.data[k] = const(ctx, s, 'hermitian')
            elif len(s) == 2:
                raise Skip
            else:
                m.data[k] = 7
        return m
    if hasattr(x, 'antisymmetry') and hasattr(x, 'conjugate'):
        return Q.PointGroupElement(x.R, x.conjugate, x.antisymmetry, None if x.U is None else const(ctx, x.U.shape, 'unitary'), _strict_eq=x._strict_eq)
    if type(x).__name__ == 'ContinuousGroupGenerator':
        return Q.ContinuousGroupGenerator(x.R, None if x.U is None else const(ctx, x.U.shape, 'hermitian'))
    if isinstance(x, (list, tuple, set, frozenset)) and not hasattr(x, '_fields'):
        try:
            return type(x)([decoy(ctx, Q, y, depth + 1) for y in x])
        except TypeError:
            return type(x)(*[decoy(ctx, Q, y, depth + 1) for y in x])
    if isinstance(x, dict):
        return type(x)((k, decoy(ctx, Q, v, depth + 1)) for k, v in x.items())
    if isinstance(x, np.ndarray):
        if x.ndim == 2 and x.shape[0] == x.shape[1] and x.dtype == object:
            return const(ctx, x.shape, 'hermitian')
        if x.ndim == 3 and x.shape[1] == x.shape[2]:
            return ctx.arr(np.array([np.asarray(const(ctx, x.shape[1:], 'hermitian')) * (1 + i) for i in range(len(x))]))
        return x
    if hasattr(x, '__next__'):
        raise Skip
    return x


class Warm:
    """the package, with every function called twice: on a decoy and on the arguments"""

    def __init__(self, ctx, Q, root=None):
        object.__setattr__(self, '_w', (ctx, Q, root or Q))
        if root is None:
            ctx.__dict__['plain_functions'] = [(m, k, getattr(m, k)) for m in (Q.hamiltonian_generator, Q.symmetry_finder, Q.linalg)
                                               for k in FUNCTIONS if k in vars(m)]

    def __setattr__(self, k, v):
        setattr(self._w[1], k, v)

    def __getattr__(self, k):
        ctx, Q, root = self._w
        v = getattr(Q, k)
        if type(v).__name__ == 'module' and k in ('linalg', 'groups', 'model', 'hamiltonian_generator', 'symmetry_finder'):
            return Warm(ctx, v, root)
        if k not in FUNCTIONS or not callable(v):
            return v

        def f(*a, **kw):
            rec = contracts.calls(ctx) if ctx.sym else []
            n = len(rec)
            # without what the harness has put in place of functions to watch them
            there = [(m, q, getattr(m, q)) for m, q, _ in ctx.plain_functions]
            for m, q, g in ctx.plain_functions:
                setattr(m, q, g)
            try:
                a2 = [decoy(ctx, root, x) for x in a]
                k2 = {q: decoy(ctx, root, x) for q, x in kw.items()}
                r = v(*a2, **k2)
                if hasattr(r, '__next__'):
                    list(r)
                ctx.__dict__['warmed'] = ctx.__dict__.get('warmed', 0) + 1
            except (Skip, ValueError, TypeError, AssertionError, AttributeError, KeyError, IndexError, np.linalg.LinAlgError, NotImplementedError, ZeroDivisionError):
                pass
            finally:
                for m, q, g in there:
                    setattr(m, q, g)
                del rec[n:]
            return v(*a, **kw)
        return f


def sy(ctx, r, env):
    """value of a sympy matrix"""
    return ctx.arr(np.array([[keyval(ctx, r[i, j], (), env) for j in range(r.shape[1])] for i in range(r.shape[0])], dtype=object))


def minus(env):
    return dict(env, k_x=-env['k_x'], k_y=-env['k_y'])


# name: (call, value of its result, expected from the function of the environment)
METHODS = {
    'conj': (lambda Q, A: A.conj(), None, lambda f, e: f(e).conj()),
    'T': (lambda Q, A: A.T(), None, lambda f, e: f(e).T),
    'neg': (lambda Q, A: -A, None, lambda f, e: f(e) * -1),
    'times': (lambda Q, A: 3 * A, None, lambda f, e: f(e) * 3),
    'add': (lambda Q, A: A + A, None, lambda f, e: f(e) * 2),
    'copy': (lambda Q, A: A.copy(), None, lambda f, e: f(e)),
    'matmul': (lambda Q, A: A @ A, None, lambda f, e: f(e) @ f(e)),
    'trace': (lambda Q, A: A.trace(), None, lambda f, e: f(e)[0, 0] + f(e)[1, 1]),
    'around': (lambda Q, A: A.around(9), None, lambda f, e: f(e)),
    'toarray': (lambda Q, A: A.toarray(), None, lambda f, e: f(e)),
    'rotate': (lambda Q, A: A.rotate_momenta(-np.eye(2, dtype=int)), None, lambda f, e: f(minus(e))),
    'chiral': (lambda Q, A: Q.chiral(2, np.diag([1, -1])).apply(A), None, lambda f, e: f(e) * np.array([[-1, 1], [1, -1]])),
    'subs': (lambda Q, A: A.subs({'a': 2}), None, lambda f, e: f(dict(e, a=2))),
    'evalf': (lambda Q, A: A.evalf({'k_x': 0.5, 'k_y': -0.25, 'a': 2}), lambda ctx, r, e: ctx.arr(r), lambda f, e: f(dict(k_x=0.5, k_y=-0.25, a=2))),
    'tosympy': (lambda Q, A: A.tosympy(), sy, lambda f, e: f(e)),
    'lambdify': (lambda Q, A: A.lambdify(), lambda ctx, r, e: ctx.arr(plain(ctx, r(a=e['a'], k_x=e['k_x'], k_y=e['k_y']))), lambda f, e: f(e)),
    'generator': (lambda Q, A: Q.ContinuousGroupGenerator(None, np.diag([1., 0])).apply(A), None, lambda f, e: f(e) * np.array([[0, -1j], [1j, 0]])),
}


@H(cases={f'{o}-{f}': dict(o=o, fmt=f) for o in METHODS for f in ('dense', 'csr') if f == 'dense' or o not in ('tosympy', 'lambdify', 'matmul', 'chiral', 'evalf')},
   time_limit=30, bounds='Models of two terms, all coefficients before and after the change')
def methods(ctx, o, fmt):
    """the result follows changes of the coefficients after an earlier call, and is not that of another Model with the same keys"""
    Q = ctx.Q
    call, val, want = METHODS[o]
    keys = ['k_x', 'a*k_y']
    A, ta = build(ctx, Q, 'Model', fmt, 'A', keys, (2, 2))
    B, tb = build(ctx, Q, 'Model', fmt, 'B', keys, (2, 2))
    _, env = kvals(ctx, 2)

    def look(M, ts, label):
        r = call(Q, M)
        got = val(ctx, r, env) if val else meval(ctx, r, env)
        w = want(lambda e: ev(ctx, ts, e), env)
        ctx.check_eq(got, w, label)
    look(A, ta, 'first Model')
    look(B, tb, 'second Model')
    new = [('k_x', value(ctx, Q, fmt, 'N', (2, 2))), ta[1]]
    ctx.assume(Not_zero(ctx, dense(ctx, new[0][1]).reshape(-1)[0]))
    k = next(k for k in A if str(k) == 'k_x')
    A[k] = new[0][1]
    look(A, new, 'coefficient replaced')
    if fmt == 'dense':
        z = ctx.cplx('z')
        m = ctx.arr(np.array([[x for x in r] for r in np.asarray(A[k])], dtype=object))
        m[0, 1] = z
        A[k][0, 1] = z
        look(A, [('k_x', m), ta[1]], 'coefficient changed in place')
    look(B, tb, 'second Model again')


REPEAT = {
    'H01': ['point_group[late1-phases]', 'point_group[onsite-phases]', 'two_symmetries[', 'same_rotation[onsite'],
    'H02': ['point_group[d1-1-phases]', 'conserved[d0'],
    'H03': ['point_group[N1-d0-0-phases-s'],
    'H04': ['symmetrized[T-A1]', 'symmetrized[P-A1]', 'symmetrized[invT-AB]', 'constrained[A1'],
    'H05': ['check_many', 'symmetrize['],
    'S01': ['one_band['],
    'S02': ['two_lines[', 'plane_and_line'],
    'S03': ['block2['],
    'S04': ['scalar2d[', 'dirac2d[-symmetries]'],
    'L07': ['herm2', 'normal2', 'products', 'inv_int'],
    'G05': ['integer', 'with_u', 'subgroups[C', 'set_product'],
    'G06': ['permutation[', 'homomorphism[two'],
    'P01': ['spin'],
}


def warmed(h):
    def f(ctx):
        ctx.Q = Warm(ctx, ctx.Q)
        return h.fn(ctx)
    return f
for _p, _ns in REPEAT.items():
    _m = importlib.import_module(f'checks.{_p}')
    for _n in _ns:
        for _h in [_h for _h in _m.H if _h.name.startswith(_n)]:
            H.append(Harness(warmed(_h), f'{_p}: {_h.name}', 'as there', _h.tiers, dict(_h.opts, time_limit=25), dict(_h.thorough)))
