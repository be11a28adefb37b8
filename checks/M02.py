"""Model transformations commute with evaluation."""
from se.runner import Registry
from .common import *
from .M01 import value, terms, build, ev, KA, hops, bloch, bval, shape_ok, FMT, E_

H = Registry()
ASSUMPTIONS = ['parameters and momenta are real; closeness tests are exact equality in symbolic runs']
OUTSIDE = 'more than 3 terms, larger matrices, 1-3 momenta only; substituting several momenta by each other at once'
a_, p_, q_ = (sympy.Symbol(s, commutative=True) for s in 'apq')
NS = ['dense', 'csr']
MK = [('Model', 'poly'), ('Model', 'exp'), ('Model', 'mixed'), ('BlochModel', 'exp'), ('Model', 'phase'), ('BlochModel', 'phase')]


def one(ctx, cls, fmt, ks, shape=(2, 2), n=3):
    Q = ctx.Q
    A, ta = build(ctx, Q, cls, fmt, 'A', KA[ks][:2 if (cls, ks) == ('BlochModel', 'phase') else n], shape)
    _, env = kvals(ctx, 2)
    if ks == 'merge':
        env['p'] = ctx.real('p')
    return Q, A, ev(ctx, ta, env), env, ta


def same(ctx, A, a, env, Q, cls):
    ctx.check_eq(meval(ctx, A, env), a, 'argument unchanged')


@H(cases={f'{c}-{k}-{f}': dict(cls=c, ks=k, fmt=f) for c, k in MK for f in ('dense', 'scalar', 'csr')},
   bounds='3 terms, arbitrary complex 2x2 or scalar coefficients')
def conj(ctx, cls, ks, fmt):
    Q, A, a, env, ta = one(ctx, cls, fmt, ks)
    m = A.conj()
    ctx.check_eq(meval(ctx, m, env), a.conj() if hasattr(a, 'conj') else a.conjugate(), 'conj')
    shape_ok(ctx, m, A.shape, 'conj')
    ctx.check(m.momenta == A.momenta and m.format is A.format and type(m) is type(A), 'attributes')
    same(ctx, A, a, env, Q, cls)


@H(cases={f'{c}-{k}-{f}': dict(cls=c, ks=k, fmt=f) for c, k in MK for f in ('dense', 'csr', 'linop')},
   bounds='3 terms, arbitrary complex 2x3 (dense), 2x2 coefficients')
def transpose(ctx, cls, ks, fmt):
    shp = (2, 3) if fmt == 'dense' else (2, 2)
    Q, A, a, env, ta = one(ctx, cls, fmt, ks, shp)
    m = A.T()
    ctx.check_eq(meval(ctx, m, env), a.T, 'T')
    shape_ok(ctx, m, shp[::-1], 'T')
    # the result is a Model like all others
    ctx.check(m.format is A.format and m.momenta == A.momenta and type(m) is type(A), 'attributes')
    ctx.check_eq(meval(ctx, m.T(), env), a, 'T of T')
    ctx.check_eq(meval(ctx, A @ m, env), a @ a.T, 'A @ A.T')
    if fmt != 'linop':
        ctx.check(all(isinstance(v, m.format) for v in m.values()), 'type of the values')
        ctx.check_eq(meval(ctx, m.zeros_like() + m + m - m, env), a.T, 'T in a sum')
        if cls == 'BlochModel':
            ctx.check_eq(meval(ctx, m.tomodel(), env), a.T, 'tomodel of T')
    if shp == (2, 2):
        ctx.check_eq(meval(ctx, A - m, env), a - a.T, 'A - A.T')
    same(ctx, A, a, env, Q, cls)


@H(cases={f'{c}-{k}-{f}': dict(cls=c, ks=k, fmt=f) for c, k in MK for f in ('dense', 'csr')},
   bounds='3 terms, arbitrary complex 2x2 coefficients')
def trace(ctx, cls, ks, fmt):
    Q, A, a, env, ta = one(ctx, cls, fmt, ks)
    m = A.trace()
    ctx.check_eq(meval(ctx, m, env), a[0, 0] + a[1, 1], 'trace')
    ctx.check(tuple(m.shape) == (), 'trace shape')
    # usable as a scalar Model
    ctx.check_eq(meval(ctx, m * A if fmt == 'dense' else m * 2, env), (a[0, 0] + a[1, 1]) * (a if fmt == 'dense' else 2),
                 'trace in arithmetic')
    same(ctx, A, a, env, Q, cls)


@H(cases={f'{c}-{k}': dict(cls=c, ks=k) for c, k in MK}, bounds='3 terms, arbitrary complex 2x3 coefficients')
def reshape(ctx, cls, ks):
    Q, A, a, env, ta = one(ctx, cls, 'dense', ks, (2, 3))
    for s in ((3, 2), (6,), (-1,), (1, 6)):
        m = A.reshape(*s)
        ctx.check_eq(meval(ctx, m, env), a.reshape(*s), f'reshape {s}')
        shape_ok(ctx, m, a.reshape(*s).shape, f'reshape {s}')
    ctx.check_eq(meval(ctx, A.reshape((3, 2)), env), a.reshape((3, 2)), 'reshape tuple')
    same(ctx, A, a, env, Q, cls)


@H(cases={f'{c}-{k}-{f}': dict(cls=c, ks=k, fmt=f) for c, k in MK for f in FMT}, bounds='3 terms, arbitrary complex 2x2 or scalar coefficients')
def formats(ctx, cls, ks, fmt):
    Q, A, a, env, ta = one(ctx, cls, fmt, ks)
    ops = [('toarray', A.toarray(), Q.np.ndarray)]
    if fmt != 'scalar':
        ops.append(('tocsr', A.tocsr(), Q.sp.csr_matrix))
        ops.append(('tocsr.toarray', A.tocsr().toarray(), Q.np.ndarray))
    for lab, m, f in ops:
        ctx.check_eq(meval(ctx, m, env), a, lab)
        ctx.check(m.format is f and tuple(m.shape) == tuple(A.shape) and m.momenta == A.momenta, lab + ': attributes')
        ctx.check(all(isinstance(v, f) for v in m.values()), lab + ': value types')
    c = A.copy()
    ctx.check_eq(meval(ctx, c, env), a, 'copy')
    ctx.check(c.momenta == A.momenta and c.format is A.format, 'copy: attributes')
    same(ctx, A, a, env, Q, cls)


ROT = [(1, 'orth'), (2, 'orth'), (2, 'int'), (2, 'sympy'), (3, 'int'), (3, 'sympy')]
RK = {1: ['k_x', 'a*k_x**2'], 2: ['k_x', 'a*k_y', 'k_x*k_y'], 3: ['k_x', 'k_y*k_z', 'a*k_z']}
RE = {1: ['e**(I*k_x)', 'a*e**(-2*I*k_x)'], 2: ['e**(I*k_x)', 'a*e**(I*k_y - I*k_x)'], 3: ['e**(I*k_x)', 'a*e**(I*k_y - I*k_z)']}


@H(cases={f'{c}-{d}-{k}': dict(cls=c, dim=d, kind=k) for c in ('Model', 'ModelExp', 'BlochModel') for d, k in ROT},
   time_limit=60, bounds='1-3 dimensions, orthogonal, unimodular integer and exact matrices, 2-3 terms')
def rotate_momenta(ctx, cls, dim, kind):
    Q = ctx.Q
    R = rot(ctx, dim, kind)
    keys = RK[dim] if cls == 'Model' else RE[dim]
    ts = [(k, ctx.matrix(f'A{i}', (1, 2))) for i, k in enumerate(keys)]
    for _, v in ts:
        ctx.assume(Not_zero(ctx, v[0, 0]))
    A = getattr(Q, cls.replace('Exp', ''))(dict(ts), momenta=NAMES[:dim])
    ks, env = kvals(ctx, dim)
    m = A.rotate_momenta(R)
    Rk = mv(ctx, R, ks)
    env2 = dict(env)
    env2.update(zip(NAMES, Rk))
    ctx.check_eq(meval(ctx, m, env), ev(ctx, ts, env2), 'H(R k)')
    ctx.check(m.momenta == A.momenta, 'momenta')
    ctx.check_eq(meval(ctx, A, env), ev(ctx, ts, env), 'argument unchanged')


# (name, substitution, value at env, expected momenta)
def _num(ctx, env):
    return {}


SUBS = {
    'param-number': lambda k: ({a_: 2}, {'a': 2}, 'xy'),
    'param-half': lambda k: ({a_: -0.5}, {'a': -0.5}, 'xy'),
    'param-symbol': lambda k: ({a_: p_}, {'a': 'p'}, 'xy'),
    'param-expr': lambda k: ({a_: p_ * q_ + 1}, {'a': lambda e: e['p'] * e['q'] + 1}, 'xy'),
    'k-number': lambda k: ({k[0]: 1}, {'k_x': 1}, 'y'),
    'k-zero': lambda k: ({k[0]: 0}, {'k_x': 0}, 'y'),
    'k-float': lambda k: ({k[1]: 0.5}, {'k_y': 0.5}, 'x'),
    'k-pi': lambda k: ({k[0]: sympy.pi}, {'k_x': np.pi}, 'y'),
    'k-symbol': lambda k: ({k[0]: p_}, {'k_x': 'p'}, 'py'),
    'k-param-expr': lambda k: ({k[0]: 2 * p_}, {'k_x': lambda e: 2 * e['p']}, 'y'),
    'k-k-expr': lambda k: ({k[0]: k[0] + k[1]}, {'k_x': lambda e: e['k_x'] + e['k_y']}, 'xy'),
    'k-minus': lambda k: ({k[0]: -k[0]}, {'k_x': lambda e: -e['k_x']}, 'xy'),
    'both': lambda k: ({k[0]: 0.25, a_: 3}, {'k_x': 0.25, 'a': 3}, 'y'),
    'a-p': lambda k: ({a_: p_}, {'a': 'p'}, 'xy'),
    'a-k': lambda k: ({a_: k[0]}, {'a': 'k_x'}, 'xy'),
    'a-pk': lambda k: ({a_: 2 * p_ - k[0]}, {'a': lambda e: 2 * e['p'] - e['k_x']}, 'xy'),
    'ap-num': lambda k: ({a_: 2, p_: 3}, {'a': 2, 'p': 3}, 'xy'),
    'two-k': lambda k: ({k[0]: 1, k[1]: -1}, {'k_x': 1, 'k_y': -1}, ''),
}


@H(cases={f'{c}-{k}-{s}': dict(cls=c, ks=k, s=s) for c, k in MK + [('Model', 'merge')] for s in SUBS
          if not (c == 'BlochModel' and s in ('k-param-expr', 'a-k', 'a-pk'))
          and (k == 'merge' or s not in ('ap-num', 'a-p'))},
   bounds='3 terms, arbitrary complex 2x2 coefficients, listed substitutions in the three call forms')
def subs(ctx, cls, ks, s):
    Q, A, a, env, ta = one(ctx, cls, 'dense', ks)
    for n in 'pq':
        env[n] = env[n] if n in env else ctx.real(n)
    d, at, mom = SUBS[s](A.momenta)
    form = ctx.choose('form', 3 if len(d) == 1 else 2)
    if form == 0:
        m = A.subs(d)
    elif form == 1:
        m = A.subs(list(d.items()))
    else:
        m = A.subs(*list(d.items())[0])
    env2 = dict(env)
    for k, v in at.items():
        v = env[v] if isinstance(v, str) else v(env) if callable(v) else v
        env2[k] = to_sym(v) if ctx.sym else v
    ctx.check_eq(meval(ctx, m, env), ev(ctx, ta, env2), 'value')
    ctx.check([str(x) for x in m.momenta] == [{'x': 'k_x', 'y': 'k_y', 'p': 'p'}[c] for c in mom], 'momenta')
    shape_ok(ctx, m, (2, 2), 'subs')
    ctx.check(type(m) is type(A), 'type')
    same(ctx, A, a, env, Q, cls)
    ctx.check([str(x) for x in A.momenta] == ['k_x', 'k_y'], 'momenta of the argument')


@H(cases={f'{c}-{k}-{f}-{n}': dict(cls=c, ks=k, fmt=f, ns=n) for c, k in MK for f in ('dense', 'csr', 'scalar') for n in (False, True)
          if not (n and f == 'scalar')},
   bounds='3 terms, arbitrary complex 2x2 or scalar coefficients')
def tosympy(ctx, cls, ks, fmt, ns):
    Q, A, a, env, ta = one(ctx, cls, fmt, ks)
    s = A.tosympy(nsimplify=ns)
    if fmt == 'scalar':
        v = keyval(ctx, s, (), env)
        ctx.check_eq(v, a, 'tosympy')
    else:
        ctx.check(s.shape == (2, 2), 'shape')
        for i in range(2):
            for j in range(2):
                ctx.check_eq(keyval(ctx, s[i, j], (), env), a[i, j], f'tosympy[{i},{j}]')
    same(ctx, A, a, env, Q, cls)


@H(cases={f'{c}-{k}-{f}-{n}': dict(cls=c, ks=k, shape=f, ns=n) for c, k in MK for f in ((2, 2), (1, 1), (1, 2)) for n in (False, True)},
   bounds='3 terms, arbitrary complex coefficients of shape 2x2, 1x1, 1x2')
def lambdify(ctx, cls, ks, shape, ns):
    Q, A, a, env, ta = one(ctx, cls, 'dense', ks, shape)
    names = sorted({s.name for k, _ in ta for s in sympy.sympify(k, locals={'e': E_}).free_symbols} - {'e'})
    f = A.lambdify(nsimplify=ns)
    kw = {n: env[n] for n in names}
    ctx.check_eq(plain(ctx, f(**kw)), a, 'keywords')
    ctx.check_eq(plain(ctx, f(*[env[n] for n in names])), a, 'positional, sorted by name')
    f = A.lambdify(nsimplify=ns, onsite=True)
    ctx.check_eq(plain(ctx, f(None, **kw)), a, 'onsite')
    f = A.lambdify(nsimplify=ns, hopping=True)
    ctx.check_eq(plain(ctx, f(None, None, *[env[n] for n in names])), a, 'hopping')
    ctx.check(raises(lambda: A.lambdify(onsite=True, hopping=True), ValueError), 'onsite and hopping')


@H(cases={f'{f}-{n}': dict(fmt=f, ns=n) for f in ('dense', 'scalar') for n in (False, True) if not (n and f == 'scalar')},
   bounds='parameters named a, B, b_10, b_2, k_x: arbitrary values, complex 2x2 or scalar coefficients')
def lambdify_names(ctx, fmt, ns):
    Q = ctx.Q
    names = ['a', 'B', 'b_10', 'b_2', 'k_x']
    env = {n: ctx.real(n) for n in names}
    v = [ctx.cplx(f'c{i}') if fmt == 'scalar' else ctx.matrix(f'c{i}', 2) for i in range(4)]
    m = Q.Model(dict(zip(('a*k_x', 'B', 'b_2*B', 'b_10*k_x**2'), v)), momenta=['k_x'])
    want = v[0] * (env['a'] * env['k_x']) + v[1] * env['B'] + v[2] * (env['b_2'] * env['B']) + v[3] * (env['b_10'] * env['k_x'] * env['k_x'])
    for kw, pre in (({}, ()), (dict(onsite=True), (None,)), (dict(hopping=True), (None, None))):
        f = m.lambdify(nsimplify=ns, **kw)
        got = f(*pre, *[env[n] for n in sorted(names)])
        ctx.check_eq(got if fmt == 'scalar' else plain(ctx, got), want, 'positional, sorted by name')


@H(cases={f'{c}-{k}-{f}': dict(cls=c, ks=k, fmt=f) for c, k in MK for f in ('dense', 'scalar', 'csr')},
   bounds='3 terms, arbitrary complex 2x2 or scalar coefficients, 3 parameter points')
def evalf(ctx, cls, ks, fmt):
    Q, A, a, env, ta = one(ctx, cls, fmt, ks)
    pt = [dict(k_x=1, k_y=-2, a=3), dict(k_x=0.5, k_y=0, a=-1), dict(k_x=-0.25, k_y=0.75, a=0.5)][ctx.choose('pt', 3)]
    r = A.evalf(subs=pt)
    e2 = {k: (to_sym(v) if ctx.sym else v) for k, v in pt.items()}
    ctx.check_eq(dense(ctx, r) if fmt != 'scalar' else r, ev(ctx, ta, e2), 'evalf')


@H(cases={f'{f}-{d}': dict(fmt=f, d=d) for f in ('dense', 'csr') for d in (1, 3)}, bounds='1 term, 1x2 complex coefficients')
def around(ctx, fmt, d):
    Q = ctx.Q
    A, ta = build(ctx, Q, 'Model', fmt, 'A', ['k_x'], (1, 2), nz=False)
    m = A.around(d) if d != 3 else A.around()
    v, w = dense(ctx, ta[0][1]), dense(ctx, m['k_x'])
    tol = 0.5001 * 10. ** -d
    for j in range(2):
        x = w[0, j] - v[0, j]
        for y in (x.real, x.imag):
            if ctx.sym:
                ctx.check(f_and([y._le(to_sym(tol)), to_sym(-tol)._le(y)]), 'within half a unit')
            else:
                ctx.check(abs(y) <= tol, 'within half a unit')
    z = raises_key(m)
    ctx.check(bool(z) == (len(m.data) == 0), 'rounded-away terms are dropped')


def raises_key(m):
    return not m.data


@H(cases={f'{c}-{k}': dict(cls=c, ks=k) for c, k in MK}, bounds='3 terms, arbitrary complex 2x2 coefficients')
def value_list(ctx, cls, ks):
    Q, A, a, env, ta = one(ctx, cls, 'dense', ks)
    keys = list(A.keys())
    vs = A.value_list(keys[::-1])
    ctx.check(len(vs) == len(keys), 'length')
    for k, v in zip(keys[::-1], vs):
        ctx.check_eq(v, A[k], 'entry')
    # the same keys as text
    for (k, v), w in zip(ta, A.value_list([k for k, _ in ta])):
        ctx.check_eq(w, v, f'entry {k}')
    if cls == 'Model':
        ctx.check_eq(A['b_absent'], zeros(ctx, (2, 2)), 'absent keys are zero')
    ctx.check(len(A.data) == len(keys), 'no key is created by reading')


@H(cases={f'{c}-{k}-{w}': dict(cls=c, ks=k, w=w) for c, k in MK for w in ('a', 'k', 'ak')}, time_limit=40,
   bounds='3 terms, arbitrary complex coefficients, arbitrary real numbers substituted')
def subs_any_number(ctx, cls, ks, w):
    Q, A, a, env, ta = one(ctx, cls, 'dense', ks)
    d, env2 = {}, dict(env)
    for c in w:
        v = ctx.real('v' + c)
        ctx.assume(Not_zero(ctx, v))
        s, n = {'a': (a_, 'a'), 'k': (A.momenta[0], 'k_x')}[c]
        d[s], env2[n] = v, v
    m = A.subs(d)
    ctx.check_eq(meval(ctx, m, env), ev(ctx, ta, env2), 'value')
    ctx.check([str(x) for x in m.momenta] == (['k_y'] if 'k' in w else ['k_x', 'k_y']), 'momenta')
    same(ctx, A, a, env, Q, cls)
