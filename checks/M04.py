"""Model <-> BlochModel conversion keeps the Hamiltonian."""
import math
from se.runner import Registry
from .common import *
from .M01 import value, build, ev, hops, bloch, bval, shape_ok, E_
from .M03 import ex, cos, sin, num, mat, X

H = Registry()
ASSUMPTIONS = ['momenta and parameters real', 'closeness tests are exact equality in symbolic runs']
OUTSIDE = 'more than 3 terms, hoppings beyond 3 dimensions, keys other than the listed templates (with arbitrary hopping lengths)'
SP = {n: sympy.Symbol(n, commutative=True) for n in 'abpq'}
SP['phi'] = sympy.Symbol('phi', commutative=True)
EP = sympy.Symbol('e', positive=True)

KEYS = {
    'onsite': ['1', 'a'], 'hop': ['e**(I*k_x)', 'e**(-I*k_x)'], 'coeff': ['a*e**(I*k_x)', 'b*e**(I*k_x)'],
    'diag': ['e**(I*k_x + I*k_y)', 'a*b*e**(I*k_x - 2*I*k_y)'], 'prod': ['e**(I*k_x)*e**(I*k_y)', 'a**2*e**(-I*k_x)*e**(I*k_y)'],
    'half': ['e**(I*k_x/2 + I*sqrt(3)*k_y/2)', 'e**(I*(k_x/2 - k_y*sqrt(3)/2))'], 'phase': ['e**(I*phi)*e**(I*k_x)', 'e**(I*phi)'],
    'phase2': ['e**(I*phi + I*k_x)', 'a*e**(I*phi - I*k_y)'], 'float': ['e**(0.5*I*k_x)', 'e**(-0.25*I*k_y)'],
    'phase3': ['e**(I*k_x + I/2)', 'a*e**(I*k_x + I)'], 'decay': ['e**(I*k_x - 1)', 'a*e**(1 + I*phi + I*k_y)'],
    'pow': ['(e**(I*k_x))**2', 'a**2'], 'paren': ['e**(I*(k_x - k_y))', 'a*e**(2*I*(k_x + k_y))'],
}
VAL = {
    'onsite': lambda c, v: [num(c, 1), v['a']], 'hop': lambda c, v: [ex(c, v['x']), ex(c, -v['x'])],
    'coeff': lambda c, v: [v['a'] * ex(c, v['x']), v['b'] * ex(c, v['x'])],
    'diag': lambda c, v: [ex(c, v['x'] + v['y']), v['a'] * v['b'] * ex(c, v['x'] - 2 * v['y'])],
    'prod': lambda c, v: [ex(c, v['x'] + v['y']), v['a'] * v['a'] * ex(c, v['y'] - v['x'])],
    'paren': lambda c, v: [ex(c, v['x'] - v['y']), v['a'] * ex(c, 2 * (v['x'] + v['y']))],
    'float': lambda c, v: [ex(c, v['x'] * num(c, 0.5)), ex(c, v['y'] * num(c, -0.25))],
    'phase': lambda c, v: [ex(c, v['phi'] + v['x']), ex(c, v['phi'])],
    'phase2': lambda c, v: [ex(c, v['phi'] + v['x']), v['a'] * ex(c, v['phi'] - v['y'])],
    'phase3': lambda c, v: [ex(c, v['x'] + num(c, 0.5)), v['a'] * ex(c, v['x'] + 1)],
    'decay': lambda c, v: [ex(c, v['x']) * num(c, math.exp(-1)), v['a'] * ex(c, v['y'] + v['phi']) * num(c, math.e)],
    'pow': lambda c, v: [ex(c, 2 * v['x']), v['a'] * v['a']],
}
HOPS = {'onsite': [(0, 0), (0, 0)], 'hop': [(1, 0), (-1, 0)], 'coeff': [(1, 0), (1, 0)], 'diag': [(1, 1), (1, -2)],
        'prod': [(1, 1), (-1, 1)], 'half': [(.5, 3**.5/2), (.5, -3**.5/2)], 'phase': [(1, 0), (0, 0)],
        'phase2': [(1, 0), (0, -1)], 'phase3': [(1, 0), (1, 0)], 'decay': [(1, 0), (0, 1)], 'float': [(.5, 0), (0, -.25)], 'pow': [(2, 0), (0, 0)], 'paren': [(1, -1), (2, 2)]}


def setenv(ctx):
    ks, env = kvals(ctx, 2, ('a', 'b', 'phi'))
    return env, dict(x=env['k_x'], y=env['k_y'], a=env['a'], b=env['b'], phi=env['phi'])


@H(cases={f'{k}-{f}': dict(k=k, fmt=f) for k in KEYS for f in ('dense', 'scalar', 'csr', 'linop')}, time_limit=60,
   bounds='two terms of the listed forms, arbitrary complex 2x2 or scalar coefficients')
def convert(ctx, k, fmt):
    Q = ctx.Q
    env, v = setenv(ctx)
    vals = [value(ctx, Q, fmt, f'v{i}', (2, 2)) for i in range(2)]
    for w in vals:
        ctx.assume(Not_zero(ctx, dense(ctx, w).reshape(-1)[0] if fmt != 'scalar' else w))
    d = dict(zip(KEYS[k], vals))
    M = Q.Model(d, momenta=['k_x', 'k_y'])
    x = meval(ctx, M, env)
    if k in VAL:
        z = VAL[k](ctx, v)
        y = sum((dense(ctx, w) if fmt != 'scalar' else w) * f for w, f in zip(vals, z))
        ctx.check_eq(x, y, 'Model value')
    for lab, B in (('from Model', Q.BlochModel(M)), ('from dict', Q.BlochModel(d, momenta=['k_x', 'k_y']))):
        ctx.check_eq(meval(ctx, B, env), x, lab)
        shape_ok(ctx, B, () if fmt == 'scalar' else (2, 2), lab)
        ctx.check(B.format is M.format and B.momenta == M.momenta, lab + ': attributes')
        ctx.check(all(isinstance(key, Q.BlochCoeff) for key in B), lab + ': keys')
        ctx.check(sorted(tuple(round(float(num_(h)), 9) for h in key[0]) for key in B) == sorted(
            tuple(round(float(h), 9) for h in hh) for hh in (HOPS[k] if len(B.data) == 2 else HOPS[k][:1])), lab + ': hopping vectors')
        for ns in (False, True):
            T = B.tomodel(nsimplify=ns)
            ctx.check_eq(meval(ctx, T, env), x, lab + f': tomodel({ns})')
            ctx.check(type(T) is Q.Model and T.momenta == M.momenta and T.format is M.format, lab + ': tomodel attributes')
    ctx.check_eq(meval(ctx, M, env), x, 'Model unchanged')


def num_(h):
    return h.cval().real if isinstance(h, Sym) else h


STR = {
    'cos': ('cos(k_x)*sigma_z + a*sin(k_y)*sigma_x', lambda c, s, v: s['sz'] * cos(c, v['x']) + s['sx'] * (v['a'] * sin(c, v['y']))),
    'cos2': ('cos(k_x)*cos(k_y)*sigma_z', lambda c, s, v: s['sz'] * (cos(c, v['x']) * cos(c, v['y']))),
    'cos-sum': ('cos(k_x + k_y)*sigma_z + a*sigma_0', lambda c, s, v: s['sz'] * cos(c, v['x'] + v['y']) + s['s0'] * v['a']),
    'sq': ('sin(k_x)**2*sigma_0', lambda c, s, v: s['s0'] * (sin(c, v['x']) * sin(c, v['x']))),
    'exp': ('[[0, a*exp(I*k_x)], [a*exp(-I*k_x), 0]]', lambda c, s, v: mat(c, [[0, v['a'] * ex(c, v['x'])], [v['a'] * ex(c, -v['x']), 0]])),
    'par': ('cos(a)*cos(k_x)*sigma_0', lambda c, s, v: s['s0'] * (cos(c, v['a']) * cos(c, v['x']))),
}


@H(cases={k: dict(k=k) for k in STR}, bounds='the listed strings, arbitrary momenta and parameters')
def strings(ctx, k):
    Q = ctx.Q
    env, v = setenv(ctx)
    x = STR[k][1](ctx, X(ctx), v)
    B = Q.BlochModel(STR[k][0], momenta=['k_x', 'k_y'])
    ctx.check_eq(meval(ctx, B, env), x, 'BlochModel(string)')
    ctx.check_eq(meval(ctx, Q.BlochModel(Q.sympify(STR[k][0]), momenta=['k_x', 'k_y']), env), x, 'BlochModel(sympy)')
    ctx.check_eq(meval(ctx, B.tomodel(), env), x, 'tomodel')


@H(cases={f'{d}-{n}-{f}': dict(dim=d, n=n, fmt=f) for d in (1, 2, 3) for n in (1, 2) for f in ('dense', 'scalar')}, time_limit=60,
   bounds='1-2 BlochCoeff keys with arbitrary real hopping vectors in 1-3 dimensions')
def tomodel(ctx, dim, n, fmt):
    Q = ctx.Q
    ks = hops(ctx, Q, 'h', n, dim)
    for k in ks:
        for x in k[0]:
            ctx.assume(Not_zero(ctx, x))
    vals = [value(ctx, Q, fmt, f'v{i}', (1, 2)) for i in range(n)]
    ts = list(zip(ks, vals))
    B = Q.BlochModel(dict(ts), momenta=NAMES[:dim])
    _, env = kvals(ctx, dim)
    x = bval(ctx, ts, B.momenta, env)
    ctx.check_eq(meval(ctx, B, env), x, 'BlochModel')
    T = B.tomodel()
    ctx.check_eq(meval(ctx, T, env), x, 'tomodel')
    ctx.check(type(T) is Q.Model and T.momenta == B.momenta, 'attributes')
    ctx.check_eq(keyval(ctx, ks[0].tosympy(B.momenta), (), env), keyval(ctx, ks[0], B.momenta, env), 'BlochCoeff.tosympy')


@H(cases={f'{d}-{t}': dict(dim=d, t=t) for d in (1, 2, 3) for t in ('plain', 'coeff', 'phase', 'two')}, time_limit=60,
   bounds='exponentials with arbitrary real hopping lengths in 1-3 dimensions')
def any_hopping(ctx, dim, t):
    Q = ctx.Q
    hs = [ctx.real(f'h{i}') for i in range(dim)]
    for x in hs:
        ctx.assume(Not_zero(ctx, x))
    mom = [sympy.Symbol(n, commutative=True) for n in NAMES[:dim]]
    arg = sum(sympy.I * sympy.sympify(x) * k for x, k in zip(hs, mom))
    key = EP ** arg
    if t == 'coeff':
        key = key * SP['a']
    elif t == 'phase':
        key = EP ** (arg + sympy.I * SP['phi']) * SP['a']
    elif t == 'two':
        key = EP ** (arg - sympy.I * mom[0] / 2) * EP ** (sympy.I * mom[0] / 2)
    v = ctx.matrix('v', (1, 2))
    ks, env = kvals(ctx, dim, ('a', 'phi'))
    M = Q.Model({key: v}, momenta=NAMES[:dim])
    ph = sum(h * k for h, k in zip(hs, ks))
    f = ex(ctx, ph)
    if t in ('coeff', 'phase'):
        f = f * env['a']
    if t == 'phase':
        f = f * ex(ctx, env['phi'])
    ctx.check_eq(meval(ctx, M, env), v * f, 'Model')
    B = Q.BlochModel(M)
    ctx.check_eq(meval(ctx, B, env), v * f, 'BlochModel')
    ctx.check_eq(meval(ctx, B.tomodel(), env), v * f, 'tomodel')
    (bk,) = B.keys()
    ctx.check_eq(bk[0], ctx.arr(hs) if ctx.sym else np.array(hs), 'hopping vector')


BAD = ['k_x', 'a*k_x*e**(I*k_y)', 'e**(k_x)', 'e**(I*a*k_x)', 'k_x**2', 'e**(I*k_x**2)', 'e**(I*k_x*k_y)', 'e**(I*k_x)*k_y',
       '2**(I*k_x)']


@H(cases={k: dict(k=k) for k in BAD}, bounds='keys that are not a hopping times a k independent coefficient are rejected')
def rejected(ctx, k):
    Q = ctx.Q
    v = ctx.matrix('v', 2)
    ctx.assume(Not_zero(ctx, v[0, 0]))
    M = Q.Model({k: v}, momenta=['k_x', 'k_y'])
    ctx.check(raises(lambda: Q.BlochModel(M), ValueError), 'rejected: ' + k)


@H(bounds='keys of mixed kinds, BlochCoeff validation, equality and products of BlochCoeff with arbitrary hoppings')
def coeffs(ctx):
    Q = ctx.Q
    v = ctx.matrix('v', 2)
    a, b = SP['a'], SP['b']
    h1, h2 = ([ctx.real(f'h{i}{j}') for j in range(2)] for i in range(2))
    A = lambda h: ctx.arr(h) if ctx.sym else np.array(h, dtype=float)
    k1, k2 = Q.BlochCoeff(A(h1), a), Q.BlochCoeff(A(h2), b)
    ctx.check(raises(lambda: Q.BlochModel({k1: v, 'a': v}), ValueError), 'mixed keys')
    ctx.check(raises(lambda: Q.BlochCoeff(list(h1), a), ValueError), 'hop must be an array')
    ctx.check(raises(lambda: Q.BlochCoeff(A(h1), a + b), ValueError), 'sums are rejected')
    p = k1 * k2
    ctx.check_eq(p[0], A([x + y for x, y in zip(h1, h2)]), 'product: hop')
    ctx.check(p[1] == a * b, 'product: coeff')
    ctx.check((k1 * b)[1] == a * b and (b * k1)[1] == a * b, 'product with an expression')
    ctx.check_eq((k1 * b)[0], A(h1), 'product with an expression: hop')
    k3 = Q.BlochCoeff(A(h2), a)
    e = bool(k1 == k3)
    same = f_and([to_sym(x)._eq(to_sym(y)) for x, y in zip(h1, h2)]) if ctx.sym else bool(np.allclose(h1, h2))
    ctx.check(iff(e, same), 'equality')
    ctx.check(not bool(k1 == Q.BlochCoeff(A(h1), b)), 'different coefficient')
    ctx.check(hash(k1) == hash(Q.BlochCoeff(A(h1), a)), 'hash')
    ctx.check(hash(k1) == hash(k3) or not e, 'hash of equals')
    c = k1.copy()
    ctx.check(bool(c == k1) and c[0] is not k1[0], 'copy')
