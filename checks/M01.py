"""Model arithmetic is the algebra of matrix valued functions."""
from se.runner import Registry
from .common import *

H = Registry()
ASSUMPTIONS = ['closeness tests (np.allclose) are taken as exact equality in symbolic runs']
OUTSIDE = 'more than 3 terms per operand, matrices larger than 2x3, `keep` (M06), elementwise products of Models with dense and with sparse values, products of csr matrices with LinearOperators'
E_ = sympy.Symbol('e', commutative=True)
KA = {'poly': ['1', 'k_x', 'a*k_y'], 'exp': ['1', 'e**(I*k_x)', 'a*e**(I*k_x - I*k_y)'],
      'mixed': ['k_x', 'a*k_x*e**(I*k_y)', 'cos(k_y)*a'], 'merge': ['a', 'p', 'k_x'],
      'phase': ['e**(I*a)', 'e**(-I*a)*e**(I*k_x)', 'k_y']}
KB = {'poly': ['k_x', 'k_y**2', 'a'], 'exp': ['e**(-I*k_x)', 'e**(I*k_x)', 'a'],
      'mixed': ['k_x', 'e**(-I*k_y)', 'k_y']}


def value(ctx, Q, fmt, name, shape):
    if fmt == 'scalar':
        return ctx.cplx(name)
    m = ctx.matrix(name, shape)
    if fmt == 'csr':
        return Q.sp.csr_matrix(m)
    if fmt == 'linop':
        return Q.sla.aslinearoperator(m)
    return m


def terms(ctx, Q, fmt, tag, keys, shape):
    return [(k, value(ctx, Q, fmt, f'{tag}{i}', shape)) for i, k in enumerate(keys)]


def build(ctx, Q, cls, fmt, tag, keys, shape, nz=True):
    ts = terms(ctx, Q, fmt, tag, keys, shape)
    for _, v in ts:
        if nz:
            ctx.assume(Not_zero(ctx, first(ctx, v)))
    kw = {}
    return getattr(Q, cls)(dict(ts), momenta=['k_x', 'k_y'], **kw), ts


def first(ctx, v):
    d = dense(ctx, v) if np.ndim(v) or hasattr(v, 'shape') else v
    return d.reshape(-1)[0] if hasattr(d, 'reshape') else d


def ev(ctx, ts, env):
    out = None
    for k, v in ts:
        k = sympy.sympify(k, locals={'e': E_})
        t = (dense(ctx, v) if hasattr(v, 'shape') else v) * keyval(ctx, k, (), env)
        out = t if out is None else out + t
    return out


def setup(ctx, cls, fa, fb, ks, sa=(2, 2), sb=(2, 2), na=2, nb=2):
    Q = ctx.Q
    A, ta = build(ctx, Q, cls, fa, 'A', KA[ks][:na], sa)
    B, tb = build(ctx, Q, cls, fb, 'B', KB[ks][:nb], sb)
    _, env = kvals(ctx, 2)
    return Q, A, B, ev(ctx, ta, env), ev(ctx, tb, env), env, ta, tb


FMT = ['dense', 'scalar', 'csr', 'linop']
LIN = {f'{c}-{f}-{k}': dict(cls=c, fmt=f, ks=k) for c, k in
       [('Model', 'poly'), ('Model', 'mixed'), ('BlochModel', 'exp')] for f in FMT}
BND = 'two operands with 2-3 terms each, arbitrary complex coefficients (2x2 or scalar), arbitrary momenta and parameter values'


def shape_ok(ctx, m, shape, label):
    ctx.check(tuple(m.shape) == tuple(shape), label + ': shape attribute')
    ctx.check(all(tuple(np.shape(v) if np.isscalar(v) else v.shape) == tuple(shape) for v in m.values()),
              label + ': shape of values')


@H(cases=LIN, bounds=BND, time_limit=40)
def linear(ctx, cls, fmt, ks):
    Q, A, B, a, b, env, ta, tb = setup(ctx, cls, fmt, fmt, ks, na=3, nb=2)
    shp = () if fmt == 'scalar' else (2, 2)
    for lab, m, x in (('A+B', A + B, a + b), ('A-B', A - B, a - b), ('-A', -A, -a), ('0+A', 0 + A, a), ('A+0', A + 0, a),
                      ('sum', sum([A, B, A]), a + b + a)):
        ctx.check_eq(meval(ctx, m, env), x, lab)
        shape_ok(ctx, m, shp, lab)
        ctx.check(type(m) is getattr(Q, cls) and m.momenta == A.momenta, lab + ': type and momenta')
    ctx.check_eq(meval(ctx, A, env), a, 'A unchanged')
    ctx.check_eq(meval(ctx, B, env), b, 'B unchanged')


@H(cases=LIN, bounds=BND, time_limit=40)
def scale(ctx, cls, fmt, ks):
    Q, A, B, a, b, env, ta, tb = setup(ctx, cls, fmt, fmt, ks, na=3, nb=1)
    c = ctx.cplx('c')
    p = sympy.Symbol('p', commutative=True)
    env['p'] = ctx.real('p')
    bloch = cls == 'BlochModel'
    key = sympy.Symbol('a', commutative=True) * p
    ops = [('c*A', lambda: c * A, c * a), ('A*c', lambda: A * c, a * c),
           ('2*A', lambda: 2 * A, 2 * a), ('A/2', lambda: A / 2, a / 2),
           ('A*p', lambda: A * p, a * env['p']), ('p*A', lambda: p * A, a * env['p']),
           ('A*ap', lambda: A * key, a * env['p'] * env['a'])]
    if not bloch:
        kx = A.momenta[0]
        ops += [('A*k', lambda: A * kx, a * env['k_x']), ('k*A', lambda: kx * A, a * env['k_x'])]
    for lab, f, x in ops:
        m = f()
        ctx.check_eq(meval(ctx, m, env), x, lab)
        shape_ok(ctx, m, () if fmt == 'scalar' else (2, 2), lab)
    ctx.assume(Not_zero(ctx, c))
    ctx.check_eq(meval(ctx, A / c, env), a / c, 'A/c')
    ctx.check_eq(meval(ctx, A, env), a, 'A unchanged')


@H(cases={f'{c}-{k}-{x}': dict(cls=c, ks=k, fmt=x) for c, k in
          [('Model', 'poly'), ('Model', 'mixed'), ('BlochModel', 'exp')] for x in ('dense', 'csr', 'linop')},
   bounds=BND + '; 2x3 @ 3x2 for dense values', time_limit=40)
def matmul(ctx, cls, ks, fmt):
    Q, A, B, a, b, env, ta, tb = setup(ctx, cls, fmt, fmt, ks, sa=(2, 3) if fmt == 'dense' else (2, 2),
                                       sb=(3, 2) if fmt == 'dense' else (2, 2), na=3 if ks != 'mixed' else 2)
    m = A @ B
    ctx.check_eq(meval(ctx, m, env), a @ b, 'A@B')
    shape_ok(ctx, m, (2, 2), 'A@B')
    ctx.check(m.momenta == A.momenta, 'momenta')
    if fmt == 'dense':
        ctx.check_eq(meval(ctx, B @ A, env), b @ a, 'B@A')
        shape_ok(ctx, B @ A, (3, 3), 'B@A')


@H(cases={f'{c}-{k}-{x}': dict(cls=c, ks=k, fmt=x) for c, k in [('Model', 'poly'), ('BlochModel', 'exp')]
          for x in ('dense', 'csr')},
   bounds=BND + '; constant matrix factors of shape 2x2, 1x2 and 2x1', time_limit=40)
def constant(ctx, cls, ks, fmt):
    Q, A, B, a, b, env, ta, tb = setup(ctx, cls, fmt, fmt, ks, na=3)
    M = ctx.matrix('M', 2)
    r, c = ctx.matrix('r', (1, 2)), ctx.matrix('c', (2, 1))
    if fmt == 'csr':
        M_, r_, c_ = (Q.sp.csr_matrix(x) for x in (M, r, c))
    else:
        M_, r_, c_ = M, r, c
    for lab, m, x in (('A@M', A @ M_, a @ M), ('M@A', M_ @ A if fmt == 'dense' else A.__rmatmul__(M_), M @ a),
                      ('A@c', A @ c_, a @ c), ('r@A', r_ @ A if fmt == 'dense' else A.__rmatmul__(r_), r @ a)):
        ctx.check_eq(meval(ctx, m, env), x, lab)
        shape_ok(ctx, m, x.shape, lab)
    for lab, m in (('A+M', A + M_), ('M+A', M_ + A if fmt == 'dense' else A.__radd__(M_))):
        ctx.check_eq(meval(ctx, m, env), a + M, lab)
        shape_ok(ctx, m, (2, 2), lab)
    ctx.check_eq(meval(ctx, A - M_, env), a - M, 'A-M')
    if fmt == 'dense':
        ctx.check_eq(meval(ctx, A * M, env), a * M, 'A*M (entrywise)')
        ctx.check_eq(meval(ctx, M * A, env), M * a, 'M*A (entrywise)')
    ctx.check_eq(meval(ctx, A, env), a, 'A unchanged')


@H(cases={f'{c}-{f}-{g}': dict(cls=c, ks=k, fm=f, fc=g) for c, k in [('Model', 'poly'), ('BlochModel', 'exp')]
          for f, g in [('dense', 'csr'), ('dense', 'linop'), ('csr', 'dense'), ('linop', 'dense')]},
   bounds='Models with dense, csr and LinearOperator values times matrices in the other formats, 2x2 and (from the right) 2x1; '
          'sparse matrices and LinearOperators from the left through __rmatmul__', time_limit=60)
def formats(ctx, cls, ks, fm, fc):
    Q = ctx.Q
    A, ta = build(ctx, Q, cls, fm, 'A', KA[ks][:2], (2, 2))
    _, env = kvals(ctx, 2)
    a = ev(ctx, ta, env)
    M, c = ctx.matrix('M', 2), ctx.matrix('c', (2, 1))
    M_, c_ = ({'dense': lambda x: x, 'csr': Q.sp.csr_matrix, 'linop': Q.sla.aslinearoperator}[fc](x) for x in (M, c))
    ops = [('A@M', lambda: A @ M_, a @ M), ('A@c', lambda: A @ c_, a @ c), ('A*M', lambda: A * M_, a @ M)]
    if fc == 'dense':
        ops += [('M@A', lambda: M_ @ A, M @ a), ('M*A', lambda: M_ * A, M @ a)]
    else:
        ops += [('M@A', lambda: A.__rmatmul__(M_), M @ a)]
    for lab, f, x in ops:
        m = f()
        ctx.check(type(m) is getattr(Q, cls) and m.momenta == A.momenta, lab + ': type and momenta')
        ctx.check_eq(meval(ctx, m, env), x, lab)
        shape_ok(ctx, m, x.shape, lab)
        ctx.check(all(issubclass(type(v), m.format) for v in m.values()), lab + ': format')
    ctx.check_eq(meval(ctx, A, env), a, 'A unchanged')


@H(cases={f'{c}-{k}-{x}': dict(cls=c, ks=k, fmt=x) for c, k in [('Model', 'poly'), ('Model', 'mixed'), ('BlochModel', 'exp')]
          for x in ('dense', 'csr', 'scalar')},
   bounds='1-2 terms, none of them constant, plus an arbitrary constant or a term assigned to a new key; '
          'the result is added, multiplied, conjugated, rotated and converted further', time_limit=40)
def offset(ctx, cls, ks, fmt):
    """a constant added to a Model without a constant term, and terms assigned under new keys, are terms like all others"""
    Q = ctx.Q
    keys = {'poly': ['k_x', 'a'], 'mixed': ['a*k_x*e**(I*k_y)'], 'exp': ['e**(-I*k_x)', 'a*e**(I*k_x)']}[ks]
    A, ta = build(ctx, Q, cls, fmt, 'A', keys, (2, 2))
    _, env = kvals(ctx, 2)
    a = ev(ctx, ta, env)
    M = value(ctx, Q, fmt, 'M', (2, 2))
    ctx.assume(Not_zero(ctx, first(ctx, M)))
    Md = dense(ctx, M) if fmt != 'scalar' else M
    how = ctx.choose('how', 4)
    m, x = A, a
    if how == 0:
        m, x = A + M, a + Md
    elif how == 1:
        m, x = A.__radd__(M), a + Md
    elif how == 2:
        m = A.copy()
        m[1] = M
        x = a + Md
    else:
        m = A.copy()
        key = 'b*e**(I*k_y)' if cls == 'BlochModel' else 'b*k_y'
        env['b'] = ctx.real('b')
        m[key] = M
        x = a + Md * (keyval(ctx, sympy.sympify(key, locals={'e': E_}), (), env))
        ctx.check_eq(dense(ctx, m[key]), Md, 'item by its text')
    ctx.check_eq(meval(ctx, m, env), x, 'value')
    ctx.check(len(m.data) == len(keys) + 1, 'one new term')
    ctx.check_eq(meval(ctx, m + m, env), x + x, 'm+m')
    ctx.check_eq(meval(ctx, m + A, env), x + a, 'm+A')
    if fmt == 'csr':
        ctx.check_eq(meval(ctx, m @ A, env), x @ a, 'm@A')
    else:
        ctx.check_eq(meval(ctx, m * A, env), x * a, 'm*A')
        ctx.check_eq(meval(ctx, A * m, env), a * x, 'A*m')
    c = m.conj()
    ctx.check_eq(meval(ctx, c, env), x.conj() if fmt != 'scalar' else x.conjugate(), 'conj')
    R = np.array([[0, -1], [1, 0]])
    r = m.rotate_momenta(R)
    ctx.check_eq(meval(ctx, r, env), meval(ctx, m, dict(env, k_x=-env['k_y'], k_y=env['k_x'])), 'rotate_momenta')
    s = m.subs({'a': 2})
    ctx.check_eq(meval(ctx, s, env), meval(ctx, m, dict(env, a=to_sym(2) if ctx.sym else 2)), 'subs')
    if cls == 'BlochModel':
        ctx.check_eq(meval(ctx, m.tomodel(), env), x, 'tomodel')
    ctx.check_eq(meval(ctx, A, env), a, 'A unchanged')


@H(cases={f'{c}-{k}-{f}{g}': dict(cls=c, ks=k, fa=f, fb=g) for c, k in
          [('Model', 'poly'), ('Model', 'mixed'), ('BlochModel', 'exp')]
          for f, g in [('dense', 'dense'), ('scalar', 'scalar'), ('scalar', 'dense'), ('dense', 'scalar'), ('scalar', 'csr')]},
   bounds=BND, time_limit=40)
def elementwise(ctx, cls, ks, fa, fb):
    Q, A, B, a, b, env, ta, tb = setup(ctx, cls, fa, fb, ks, na=3 if ks != 'mixed' else 2)
    m = A * B
    ctx.check_eq(meval(ctx, m, env), a * b, 'A*B')
    shape_ok(ctx, m, () if fa == fb == 'scalar' else (2, 2), 'A*B')
    ctx.check_eq(meval(ctx, A, env), a, 'A unchanged')
    ctx.check_eq(meval(ctx, B, env), b, 'B unchanged')


@H(cases={f'{c}-{f}': dict(cls=c, fmt=f) for c in ('Model', 'BlochModel') for f in FMT},
   bounds='empty operands combined with arbitrary 2-term operands')
def empty(ctx, cls, fmt):
    Q = ctx.Q
    ks = 'poly' if cls == 'Model' else 'exp'
    A, ta = build(ctx, Q, cls, fmt, 'A', KA[ks][:2], (2, 2))
    _, env = kvals(ctx, 2)
    a = ev(ctx, ta, env)
    z = A.zeros_like()
    shp = () if fmt == 'scalar' else (2, 2)
    ctx.check(z.data == {} and tuple(z.shape) == shp and z.format is A.format and z.momenta == A.momenta, 'zeros_like')
    for lab, m in (('A+0', A + z), ('0+A', z + A)):
        ctx.check_eq(meval(ctx, m, env), a, lab)
        shape_ok(ctx, m, shp, lab)
    ps = [('0*2', z * 2), ('-0', -z), ('0+0', z + z)]
    if fmt != 'scalar':
        ps += [('0@A', z @ A), ('A@0', A @ z)]
    for lab, m in ps:
        ctx.check(m.data == {} and tuple(m.shape) == shp, lab)
    d = A - A
    ctx.check_eq(meval(ctx, d, env), 0 * a, 'A-A')


@H(bounds='addition and products of operands with different momenta or shapes must be rejected', cases={c: dict(cls=c) for c in ('Model', 'BlochModel')})
def incompatible(ctx, cls):
    Q = ctx.Q
    C = getattr(Q, cls)
    m1, m2 = ctx.matrix('m1', 2), ctx.matrix('m2', 2)
    n = ctx.matrix('n', 1)
    for m in (m1, m2, n):
        ctx.assume(Not_zero(ctx, m[0, 0]))
    A = C({'1' if cls == 'Model' else 1: m1}, momenta=['k_x', 'k_y'])
    B = C({'1' if cls == 'Model' else 1: m2}, momenta=['k_x'])
    D = C({'1' if cls == 'Model' else 1: n}, momenta=['k_x', 'k_y'])
    for lab, f in (('+', lambda: A + B), ('@', lambda: A @ B), ('*', lambda: A * B), ('shape', lambda: A + D)):
        ctx.check(raises(f, ValueError), 'rejected: ' + lab)


@H(bounds='three operands, one term each, 2x2', cases={c: dict(cls=c, ks=k) for c, k in [('Model', 'poly'), ('BlochModel', 'exp')]},
   time_limit=60)
def ring(ctx, cls, ks):
    Q, A, B, a, b, env, ta, tb = setup(ctx, cls, 'dense', 'dense', ks, na=1, nb=1)
    C, tc = build(ctx, Q, cls, 'dense', 'C', KA[ks][1:2], (2, 2))
    ctx.check_eq(meval(ctx, (A @ B) @ C, env), meval(ctx, A @ (B @ C), env), 'associative')
    ctx.check_eq(meval(ctx, A @ (B + C), env), meval(ctx, A @ B + A @ C, env), 'left distributive')
    ctx.check_eq(meval(ctx, (A + B) @ C, env), meval(ctx, A @ C + B @ C, env), 'right distributive')


def hops(ctx, Q, tag, n, dim=2):
    """n distinct Bloch keys with arbitrary real hopping vectors"""
    out = []
    for i in range(n):
        c = [sympy.Integer(1), sympy.Symbol('a', commutative=True), sympy.Symbol('a', commutative=True)][i % 3]
        v = [ctx.real(f'{tag}h{i}{j}') for j in range(dim)]
        out.append(Q.BlochCoeff(ctx.arr(v) if ctx.sym else np.array(v, dtype=float), c))
    return out


def bloch(ctx, Q, tag, n, fmt):
    ks = hops(ctx, Q, tag, n)
    ts = [(k, value(ctx, Q, fmt, f'{tag}{i}', (2, 2))) for i, k in enumerate(ks)]
    for i in range(n):
        for j in range(i):
            if ks[i][1] == ks[j][1]:
                ctx.assume(Not_zero(ctx, ks[i][0][0] - ks[j][0][0]))
    return Q.BlochModel(dict(ts), momenta=['k_x', 'k_y']), ts


def bval(ctx, ts, momenta, env):
    out = None
    for k, v in ts:
        t = (dense(ctx, v) if hasattr(v, 'shape') else v) * keyval(ctx, k, momenta, env)
        out = t if out is None else out + t
    return out


@H(cases={f'{f}-{n}': dict(fmt=f, na=n[0], nb=n[1]) for f in ('dense', 'scalar', 'csr', 'linop') for n in ((1, 1), (2, 1))},
   bounds='BlochModels with 1-2 keys with arbitrary real hopping vectors in 2D (coinciding or not)', time_limit=60)
def bloch_hoppings(ctx, fmt, na, nb):
    Q = ctx.Q
    A, ta = bloch(ctx, Q, 'A', na, fmt)
    B, tb = bloch(ctx, Q, 'B', nb, fmt)
    _, env = kvals(ctx, 2)
    a, b = bval(ctx, ta, A.momenta, env), bval(ctx, tb, A.momenta, env)
    ctx.check_eq(meval(ctx, A + B, env), a + b, 'A+B')
    ctx.check_eq(meval(ctx, A - B, env), a - b, 'A-B')
    if fmt == 'scalar':
        ctx.check_eq(meval(ctx, A * B, env), a * b, 'A*B')
    else:
        ctx.check_eq(meval(ctx, A @ B, env), a @ b, 'A@B')
    if fmt in ('scalar', 'dense'):
        c = ctx.cplx('c') if fmt == 'scalar' else ctx.matrix('c', 2)
        ctx.check_eq(meval(ctx, A + c, env), a + c, 'A+const')


@H(tiers=('thorough',), bounds='BlochModels with 2 keys each with arbitrary real hopping vectors in 2D', time_limit=60,
   cases={f: dict(fmt=f) for f in ('dense', 'scalar')}, max_paths=2000)
def bloch_hoppings_22(ctx, fmt):
    bloch_hoppings(ctx, fmt, 2, 2)
