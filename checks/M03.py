"""Parsing of Hamiltonians and normalisation of keys."""
from se.runner import Registry
from .common import *
from .M01 import shape_ok

H = Registry()
ASSUMPTIONS = ['closeness to zero is exact in symbolic runs', 'momenta and parameters real']
OUTSIDE = 'strings other than the listed templates, more than 2x2 (4x4 for kron) matrices'
e_ = None


def X(ctx):
    """namespace for the expected values"""
    s = dict(zip(('s0', 'sx', 'sy', 'sz'), sig(ctx)))
    return s


def ex(ctx, x):
    return (to_sym(x) * Sym(1j)).exp() if ctx.sym else np.exp(1j * x)


def num(ctx, x):
    return to_sym(x) if ctx.sym else x


def cos(ctx, x):
    return (ex(ctx, x) + ex(ctx, -x)) / 2


def sin(ctx, x):
    return (ex(ctx, x) - ex(ctx, -x)) / 2j if not ctx.sym else (ex(ctx, x) - ex(ctx, -x)) / to_sym(2j)


def T(s, f, locals=None):
    return (s, f, locals)


# (string, expected value, locals): kx, ky real momenta, a, b real parameters
TPL = {
    'linear': T('k_x * sigma_x + k_y * sigma_y', lambda c, s, kx, ky, a, b: s['sx'] * kx + s['sy'] * ky),
    'mass': T('a*sigma_z + b*identity(2)', lambda c, s, kx, ky, a, b: s['sz'] * a + s['s0'] * b),
    'quad': T('a*k_x**2*sigma_0 - b*(k_x + I*k_y)**2*sigma_x',
              lambda c, s, kx, ky, a, b: s['s0'] * (a * kx * kx) - s['sx'] * (b * (kx + num(c, 1j) * ky) * (kx + num(c, 1j) * ky))),
    'kron': T('kron(sigma_x, sigma_y)*k_x + kron(sigma_0, sigma_z)*a',
              lambda c, s, kx, ky, a, b: kron(c, s['sx'], s['sy']) * kx + kron(c, s['s0'], s['sz']) * a),
    'product': T('(a + k_x)*(a - k_x)*sigma_y*sigma_z', lambda c, s, kx, ky, a, b: (s['sy'] @ s['sz']) * (a * a - kx * kx)),
    'cos': T('cos(k_x)*sigma_z + a*sin(k_y)*sigma_x', lambda c, s, kx, ky, a, b: s['sz'] * cos(c, kx) + s['sx'] * (a * sin(c, ky))),
    'cos2': T('cos(k_x)*cos(k_y)*sigma_z', lambda c, s, kx, ky, a, b: s['sz'] * (cos(c, kx) * cos(c, ky))),
    'cos-sum': T('a*cos(k_x + 2*k_y)*sigma_x - b*sin(k_x - k_y)*sigma_y',
                 lambda c, s, kx, ky, a, b: s['sx'] * (a * cos(c, kx + 2 * ky)) - s['sy'] * (b * sin(c, kx - ky))),
    'exp': T('[[0, a*exp(I*k_x)], [a*exp(-I*k_x), b]]',
             lambda c, s, kx, ky, a, b: mat(c, [[0, a * ex(c, kx)], [a * ex(c, -kx), b]])),
    'epow': T('[[0, e**(I*k_x + I*k_y)], [e**(-I*k_x - I*k_y), 0]]',
              lambda c, s, kx, ky, a, b: mat(c, [[0, ex(c, kx + ky)], [ex(c, -kx - ky), 0]])),
    'sinsq': T('sin(k_x)**2*sigma_0', lambda c, s, kx, ky, a, b: s['s0'] * (sin(c, kx) * sin(c, kx))),
    'scalar': T('a*k_x**2 + 3*b/2 - 1', lambda c, s, kx, ky, a, b: mat(c, [[a * kx * kx + b * num(c, 1.5) - 1]])),
    'lists': T('[[a*k_x, I*b], [-I*b, 2]]', lambda c, s, kx, ky, a, b: mat(c, [[a * kx, num(c, 1j) * b], [-(num(c, 1j) * b), 2]])),
    'rect': T('[[a, k_x, b*k_y]]', lambda c, s, kx, ky, a, b: mat(c, [[a, kx, b * ky]])),
    'cancel': T('(k_x + k_y)*sigma_x - k_x*sigma_x', lambda c, s, kx, ky, a, b: s['sx'] * ky),
    'locals-str': T('k*sigma_x + k_x**2*M', lambda c, s, kx, ky, a, b: s['sx'] * (kx + num(c, 1j) * ky) + s['sz'] * (kx * kx),
                    {'k': 'k_x + I*k_y', 'M': 'sigma_z'}),
    'locals-list': T('k_x**2 * P', lambda c, s, kx, ky, a, b: mat(c, [[0, 2 * kx * kx], [0, 0]]), {'P': [[0, 2], [0, 0]]}),
    'locals-shadow': T('b*sigma_x', lambda c, s, kx, ky, a, b: s['sz'] * (2 * a), {'b': '2*a', 'sigma_x': 'sigma_z'}),
    'float': T('0.5*a*sigma_x - 1.25*k_x*sigma_z', lambda c, s, kx, ky, a, b: s['sx'] * (a / 2) - s['sz'] * (kx * num(c, 1.25))),
}


def mat(ctx, rows):
    if ctx.sym:
        o = np.empty((len(rows), len(rows[0])), dtype=object)
        for i, r in enumerate(rows):
            for j, x in enumerate(r):
                o[i, j] = to_sym(x)
        return AR.wrap(o)
    return np.array(rows, dtype=complex)


@H(cases={k: dict(t=k) for k in TPL}, bounds='the listed Hamiltonian strings, arbitrary real momenta and parameters')
def strings(ctx, t):
    Q = ctx.Q
    s, f, loc = TPL[t]
    ks, env = kvals(ctx, 2, ('a', 'b'))
    x = f(ctx, X(ctx), ks[0], ks[1], env['a'], env['b'])
    m = Q.Model(s, locals=loc, momenta=['k_x', 'k_y'])
    ctx.check_eq(meval(ctx, m, env), x, 'value')
    shape_ok(ctx, m, x.shape, 'parsed')
    ctx.check(m.format is Q.np.ndarray, 'format')
    normal(ctx, m)
    m2 = Q.Model(Q.sympify(s, locals=loc), momenta=['k_x', 'k_y'])
    ctx.check_eq(meval(ctx, m2, env), x, 'sympy input')
    ctx.check(set(m2.data) == set(m.data), 'same keys from sympy input')


def normal(ctx, m):
    for k, v in m.items():
        ctx.check(isinstance(k, sympy.Expr) and not isinstance(k, sympy.Add) and normkey(k), f'key {k} in normal form')
        nz = f_or([ctx.Not(to_sym(x)._eq(Sym(0))) for x in dense(ctx, v).reshape(-1)]) if ctx.sym else np.any(np.abs(dense(ctx, v)) > 1e-9)
        ctx.check(nz, 'no zero terms')


def normkey(k):
    return all(not f.is_number for f in k.as_ordered_factors()) or k == 1


@H(cases={f'{n}-{s}': dict(n=n, s=s) for n in (1, 2, 3) for s in ((1, 1), (2, 2))},
   bounds='sympy Matrix input with arbitrary complex coefficients of up to 3 monomials per entry')
def sympy_matrix(ctx, n, s):
    Q = ctx.Q
    ks, env = kvals(ctx, 2, ('a', 'b'))
    syms = {x: sympy.Symbol(x, commutative=x[0] != 'k') for x in ('k_x', 'k_y', 'a', 'b')}
    mons = [syms['k_x'] * syms['a'], sympy.Integer(1), syms['k_y'] ** 2][:n]
    vals = [ks[0] * env['a'], num(ctx, 1), ks[1] * ks[1]][:n]
    M = sympy.zeros(*s)
    x = zeros(ctx, s)
    for i in range(s[0]):
        for j in range(s[1]):
            for p, (mo, v) in enumerate(zip(mons, vals)):
                c = ctx.cplx(f'c{i}{j}{p}')
                ctx.assume(Not_zero(ctx, c))
                M[i, j] = M[i, j] + sympy.sympify(c) * mo
                x[i, j] = x[i, j] + c * v
    m = Q.Model(M, momenta=['k_x', 'k_y'])
    ctx.check_eq(meval(ctx, m, env), x, 'value')
    ctx.check(len(m.data) == n, 'one key per monomial')
    normal(ctx, m)


DK = {
    'factor': ['2*k_x', 'a'], 'sum': ['k_x + 3*a', 'k_y'], 'merge': ['2*k_x', '-I*k_x', 'k_x'], 'irr': ['sqrt(2)*k_x', 'pi*a'],
    'paren': ['(k_x + k_y)*a', 'a*k_x'], 'sq': ['(k_x + I*k_y)**2', 'k_x**2'], 'exp': ['e**(I*k_x + I*k_y)', 'e**(I*k_x)*e**(I*k_y)'],
    'exp2': ['2*e**(I*k_x)', 'a*e**(-I*k_x)', 'I*e**(I*k_x)'], 'one': ['1', '2', 'I'], 'frac': ['k_x/2', '0.25*k_x*a'],
    'single': ['-k_x'],
}


@H(cases={f'{k}-{f}': dict(k=k, f=f) for k in DK for f in ('dense', 'scalar', 'csr')}, time_limit=60,
   bounds='normalize=True with the listed keys, arbitrary complex 1x2 or scalar coefficients')
def normalize(ctx, k, f):
    Q = ctx.Q
    ks, env = kvals(ctx, 2, ('a', 'b'))
    ts = []
    for i, key in enumerate(DK[k]):
        v = ctx.cplx(f'v{i}') if f == 'scalar' else ctx.matrix(f'v{i}', (1, 2))
        ts.append((key, Q.sp.csr_matrix(v) if f == 'csr' else v))
    m = Q.Model(dict(ts), momenta=['k_x', 'k_y'], normalize=True)
    x = None
    for key, v in ts:
        t = dense(ctx, v) * keyval(ctx, sympy.sympify(key, locals={'e': sympy.Symbol('e', positive=True)}), (), env)
        x = t if x is None else x + t
    ctx.check_eq(meval(ctx, m, env), x, 'value')
    normal(ctx, m)
    ctx.check(tuple(m.shape) == (() if f == 'scalar' else (1, 2)), 'shape')


@H(bounds='dict input in all formats, arbitrary values', cases={f: dict(f=f) for f in ('dense', 'scalar', 'csr', 'linop')})
def dicts(ctx, f):
    Q = ctx.Q
    v = [ctx.cplx(f'v{i}') if f == 'scalar' else ctx.matrix(f'v{i}', 2) for i in range(2)]
    w = [Q.sp.csr_matrix(x) if f == 'csr' else Q.sla.aslinearoperator(x) if f == 'linop' else x for x in v]
    a, kx = sympy.Symbol('a'), sympy.Symbol('k_x')
    ks, env = kvals(ctx, 2)
    x = v[0] * env['k_x'] + v[1] * env['a']
    for lab, d in (('strings', {'k_x': w[0], 'a': w[1]}), ('symbols', {kx: w[0], a: w[1]}), ('mixed', {kx: w[0], 'a': w[1]})):
        m = Q.Model(d, momenta=['k_x', 'k_y'])
        ctx.check_eq(meval(ctx, m, env), x, lab)
        shape_ok(ctx, m, () if f == 'scalar' else (2, 2), lab)
        for key in ('k_x', kx):
            ctx.check_eq(dense(ctx, m[key]), v[0], lab + f': item {key!r}')
        ctx.check_eq(dense(ctx, m['b']), zeros(ctx, () if f == 'scalar' else (2, 2)), 'missing item')
        ctx.check(len(m.data) == 2, 'reading creates no keys')
        m['b'] = w[0]
        ctx.check_eq(meval(ctx, m, dict(env, b=env['a'])), x + v[0] * env['a'], 'assignment')
    mom = [Q.Model(d, momenta=p).momenta for p in (['k_x', 'k_y'], ('k_x', 'k_y'), sympy.symbols('k_x k_y'),
                                                   sympy.symbols('k_x k_y', commutative=False))]
    ctx.check(all(p == mom[0] for p in mom), 'momenta as strings or symbols')
    ctx.check(raises(lambda: Q.Model(d, momenta=[0, 1]), TypeError), 'integer momenta are rejected')


@H(bounds='inconsistent values')
def invalid(ctx):
    Q = ctx.Q
    a, b = ctx.matrix('a', 2), ctx.matrix('b', (1, 2))
    ctx.check(raises(lambda: Q.Model({'k_x': a, 'a': b}), ValueError), 'different shapes')
    ctx.check(raises(lambda: Q.Model({'k_x': a, 'a': Q.sp.csr_matrix(a)}), ValueError), 'different formats')
    m = Q.Model({'k_x': a})
    for lab, v in (('shape', b), ('format', Q.sp.csr_matrix(a)), ('scalar', 1)):
        ctx.check(raises(lambda: m.__setitem__('a', v), ValueError), 'assignment: ' + lab)
    s = Q.Model({'k_x': 2.0})
    s['a'] = 3
    ctx.check(s['a'] == 3, 'scalar assignment')


@H(cases={str(i): dict(i=i) for i in range(4)}, bounds='monomials of polynomials with arbitrary complex coefficients')
def monomials(ctx, i):
    Q = ctx.Q
    S = {n: sympy.Symbol(n) for n in ('u', 'v', 'a', 'k')}
    x, y, a, k = (S[n] for n in ('u', 'v', 'a', 'k'))
    mons = [[x, y, sympy.Integer(1)], [a * x ** 2, k * x ** 2, y], [a * x * y, x * y, a], [x, a, 1 / x]][i]
    env = {n: ctx.real(n) for n in S}
    if i == 3:
        ctx.assume(Not_zero(ctx, env['u']))
    cs = [ctx.cplx(f'c{j}') for j in range(3)]
    for c in cs:
        ctx.assume(Not_zero(ctx, c))
    expr = sum((sympy.sympify(c) * m for c, m in zip(cs, mons)), sympy.Integer(0))
    if i == 1:
        expr = expr * (x + 1)
    gens = [None, ('u', 'v')][ctx.choose('gens', 2)]
    r = Q.monomials(expr, gens)
    tot = num(ctx, 0)
    g = {x, y} if gens else set(expr.atoms(sympy.Symbol))
    for key, v in r.items():
        tot = tot + keyval(ctx, key, (), env) * keyval(ctx, v, (), env)
        ctx.check(not (g & v.free_symbols) and key.free_symbols <= g, 'generators only in the keys')
    ctx.check_eq(tot, keyval(ctx, expr, (), env), 'sum of key * value')
    M = sympy.Matrix([[expr, cs and sympy.sympify(cs[0]) * x]])
    r = Q.monomials(M, ('u', 'v'))
    for j in range(2):
        tot = num(ctx, 0)
        for key, v in r.items():
            tot = tot + keyval(ctx, key, (), env) * keyval(ctx, v[0, j], (), env)
        ctx.check_eq(tot, keyval(ctx, M[0, j], (), env), f'matrix entry {j}')
