"""Comparison and clean-up of Models."""
from se.runner import Registry
from .common import *
from .M01 import value, FMT, hops

H = Registry()
ASSUMPTIONS = ['equality harnesses: closeness is exact equality in symbolic runs; tolerance harnesses use the real tolerance formulas']
OUTSIDE = 'more than 3 keys; tolerance formulas for complex values and more than 2 entries'
KM = ['1', 'k_x', 'a*k_y']
KB = ['e**(I*k_x)', 'a', 'a*e**(-I*k_y)']
# which keys the two sides have
SETS = {'same': ([0, 1], [0, 1]), 'sub': ([0, 1], [0]), 'sup': ([1], [0, 1]), 'disj': ([0], [1]), 'none': ([], [0]), 'cross': ([0, 1], [1, 2])}


def mk(ctx, Q, cls, fmt, tag, idx):
    keys = KM if cls == 'Model' else KB
    shp = (1, 2)
    vs = {i: value(ctx, Q, fmt, f'{tag}{i}', shp if fmt != 'linop' else (2, 2)) for i in idx}
    kw = {}
    if not idx:
        z = value(ctx, Q, fmt, f'{tag}z', shp if fmt != 'linop' else (2, 2))
        full = getattr(Q, 'Model')({'1': z}, momenta=['k_x', 'k_y']) if cls == 'Model' else Q.BlochModel({Q.BlochCoeff(Q.np.array([0., 0.]), sympy.Integer(1)): z}, momenta=['k_x', 'k_y'])
        return full.zeros_like(), vs
    d = {keys[i]: v for i, v in vs.items()}
    m = Q.Model(d, momenta=['k_x', 'k_y'])
    if cls == 'BlochModel':
        for i, v in vs.items():
            ctx.assume(Not_zero(ctx, dense(ctx, v).reshape(-1)[0] if fmt != 'scalar' else v))
        m = Q.BlochModel(m)
    return m, vs


def arr1(ctx, v):
    return dense(ctx, v).reshape(-1) if hasattr(v, 'shape') and np.shape(v) != () or not np.isscalar(v) and not isinstance(v, Sym) else [v]


def allzero(ctx, v):
    xs = arr1(ctx, v)
    return f_and([to_sym(x)._eq(Sym(0)) for x in xs]) if ctx.sym else bool(np.all(np.abs(np.array(xs)) < 1e-9))


def alleq(ctx, v, w):
    xs, ys = arr1(ctx, v), arr1(ctx, w)
    if ctx.sym:
        return f_and([to_sym(x)._eq(to_sym(y)) for x, y in zip(xs, ys)])
    return bool(np.all(np.abs(np.array(xs) - np.array(ys)) < 1e-9))


def conj_(ctx, fs):
    return f_and(fs) if ctx.sym else all(fs)


@H(cases={f'{c}-{f}-{s}': dict(cls=c, fmt=f, s=s) for c in ('Model', 'BlochModel') for f in FMT for s in SETS}, time_limit=30,
   bounds='0-2 keys per side, arbitrary 1x2 or scalar complex coefficients (nonzero first entry for BlochModel)')
def equality(ctx, cls, fmt, s):
    Q = ctx.Q
    ia, ib = SETS[s]
    A, va = mk(ctx, Q, cls, fmt, 'A', ia)
    B, vb = mk(ctx, Q, cls, fmt, 'B', ib)
    fs = []
    for i in sorted(set(ia) | set(ib)):
        if i in va and i in vb:
            fs.append(alleq(ctx, va[i], vb[i]))
        else:
            fs.append(allzero(ctx, va.get(i, vb.get(i))))
    x = conj_(ctx, fs)
    e = truth(A == B)
    ctx.check(iff(e, x), 'A == B iff all coefficients agree')
    ctx.check(iff(truth(B == A), x), 'B == A')
    ctx.check(iff(truth(A.allclose(B)), x), 'A.allclose(B)')
    ctx.check(iff(not truth(A != B), x), 'A != B')


@H(cases={f'{c}-{f}': dict(cls=c, fmt=f) for c in ('Model', 'BlochModel') for f in FMT}, time_limit=30,
   bounds='2 keys, arbitrary coefficients')
def self_zero(ctx, cls, fmt):
    Q = ctx.Q
    A, va = mk(ctx, Q, cls, fmt, 'A', [0, 1])
    ctx.check(truth(A == A) and truth(A == A.copy()), 'reflexive')
    z = conj_(ctx, [allzero(ctx, v) for v in va.values()])
    for lab, o in (('0', 0), ('{}', {})):
        ctx.check(iff(truth(A == o), z), 'equals ' + lab)
    ctx.check(iff(truth(A == A.zeros_like()), z), 'equals the empty Model')
    ctx.check(truth(A.zeros_like() == 0) and truth(A.zeros_like() == {}), 'the empty Model is zero')
    D = A - A
    ctx.check(truth(D == 0), 'A - A == 0')


@H(cases={f'{f}-{n}': dict(fmt=f, n=n) for f in ('dense', 'csr') for n in (1, 2)}, time_limit=40, exact_tol=False, max_paths=200,
   bounds='1-2 keys with real 1x2 / 1x1 coefficients, tolerances (0.5, 0.25), (0.1, 0.01), (0, 1)')
def eliminate_zeros(ctx, fmt, n):
    Q = ctx.Q
    rt, at = [(0.5, 0.25), (0.1, 0.01), (0, 1)][ctx.choose('tol', 3)]
    vs = [ctx.matrix(f'v{i}', (1, 2 if n == 1 else 1), kind='real') for i in range(n)]
    d = {k: Q.sp.csr_matrix(v, dtype=complex) if fmt == 'csr' else v for k, v in zip(KM[1:], vs)}
    A = Q.Model(d, momenta=['k_x', 'k_y'])
    m = A.eliminate_zeros(rtol=rt, atol=at)
    n2 = [sum(x * x for x in v.reshape(-1)) for v in vs]
    keys = [str(k) for k in m.keys()]
    for i, k in enumerate(KM[1:][:n]):
        here = any(sympy.sympify(k) == sympy.sympify(j) for j in keys)
        for v in m.values():
            pass
        # norm < tol  <=>  norm^2 < tol^2 for tol = max(atol, rtol * max norm)
        if ctx.sym:
            nr = [to_sym(x).sqrt() for x in n2]
            small = f_or([nr[i]._lt(to_sym(at))] + [nr[i]._lt(nr[j] * to_sym(rt)) for j in range(n) if rt])
            ctx.check(iff(not here, small), f'term {i} dropped iff its norm is below the tolerance')
        else:
            nr = np.sqrt(np.array(n2, dtype=float))
            tol = max(at, rt * max(nr))
            if abs(nr[i] - tol) > 1e-9 * max(1, tol):
                ctx.check((not here) == (nr[i] < tol), f'term {i} dropped iff its norm is below the tolerance')
        if here:
            ctx.check_eq(dense(ctx, m[k]), vs[i], 'kept value unchanged')
    ctx.check(len(keys) <= n and tuple(m.shape) == tuple(A.shape) and m.format is A.format and m.momenta == A.momenta, 'attributes')
    ctx.check(len(A.data) == n, 'argument unchanged')


@H(bounds='empty Models and unsupported formats', cases={f: dict(fmt=f) for f in FMT})
def eliminate_zeros_edge(ctx, fmt):
    Q = ctx.Q
    A, va = mk(ctx, Q, 'Model', fmt, 'A', [0])
    if fmt in ('dense', 'csr'):
        z = A.zeros_like().eliminate_zeros()
        ctx.check(z.data == {} and tuple(z.shape) == tuple(A.shape), 'empty')
    else:
        ctx.check(raises(lambda: A.eliminate_zeros(), ValueError), 'rejected')


def near(ctx, x, y, tol):
    """real |x - y| <= tol"""
    if ctx.sym:
        d = to_sym(x) - to_sym(y)
        return f_and([d._le(to_sym(tol)), (-d)._le(to_sym(tol))])
    return abs(x - y) <= tol


@H(cases={f'{f}-{t}': dict(fmt=f, t=t) for f in ('dense', 'csr', 'linop', 'scalar') for t in range(3)}, exact_tol=False, time_limit=40,
   bounds='Model.allclose with one real entry per key, 2 keys, tolerances (0.1, 0), (0.1, 0.01), (0, 0.5)')
def tolerance(ctx, fmt, t):
    Q = ctx.Q
    rt, at = [(0.1, 0), (0.1, 0.01), (0, 0.5)][t]
    keys = KM[1:]
    xs, ys = [ctx.real(f'x{i}') for i in range(2)], [ctx.real(f'y{i}') for i in range(2)]

    # a right hand side that counts as zero is compared with zero
    ctx.assume(Sym(1)._le(ys[0] * 100) if ctx.sym else ys[0] >= 0.01)

    def mk1(vs):
        d = {}
        for k, v in zip(keys, vs):
            m = (ctx.arr([[v]]) if ctx.sym else np.array([[v]], dtype=complex))
            d[k] = {'dense': lambda: m, 'csr': lambda: Q.sp.csr_matrix(m), 'linop': lambda: Q.sla.aslinearoperator(m), 'scalar': lambda: v}[fmt]()
        return Q.Model(d, momenta=['k_x', 'k_y'])
    A, B = mk1(xs), mk1(ys)
    r = truth(A.allclose(B, rtol=rt, atol=at))
    if ctx.sym:
        fs = []
        for x, y in zip(xs, ys):
            # |x - y| <= at + rt * max(|x|, |y|)
            fs.append(f_or([f_and([(s * (x - y))._le(to_sym(at) + to_sym(rt) * u) for s in (Sym(1), Sym(-1))]) for u in (x, -x, y, -y)]))
        ctx.check(iff(r, f_and(fs)), 'tolerance formula')
    else:
        g = [at + rt * max(abs(x), abs(y)) - abs(x - y) for x, y in zip(xs, ys)]
        if all(abs(v) > 1e-12 for v in g):
            ctx.check(r == all(v > 0 for v in g), 'tolerance formula')
