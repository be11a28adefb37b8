"""keep: Models with `keep` are truncated exactly to the kept terms."""
import itertools as it
from se.runner import Registry
from .common import *
from .M01 import value, first, FMT

H = Registry()
ASSUMPTIONS = ['closeness tests (np.allclose) are taken as exact equality in symbolic runs']
OUTSIDE = 'addition of constants to Models with `keep` (adds the key 1), elementwise and matrix functions of Models'

FULL = {'poly': ['1', 'k_x', 'k_x**2', 'a*k_y'], 'exp': ['1', 'e**(I*k_x)', 'e**(-I*k_x)', 'a*e**(I*k_x)*e**(I*k_y)']}
# subset of keys of the result of a product
KEEP = {'poly': ['1', 'k_x', 'a*k_x*k_y', 'k_x**3'], 'exp': ['1', 'e**(I*k_x)', 'a*e**(I*k_y)', 'e**(2*I*k_x)']}


def key(s):
    return sympy.powsimp(SY(s) if isinstance(s, str) else s, combine='exp', force=True)


def members(ctx, m, Q):
    """{canonical key: value}"""
    out = {}
    for k, v in m.items():
        if hasattr(k, 'tosympy'):
            k = k.tosympy(m.momenta, nsimplify=True)
        k = key(sympy.nsimplify(k))
        ctx.check(k not in out, 'no key occurs twice')
        out[k] = v
    return out


def mul(a, b):
    return key(key(a) * key(b))


def compare(ctx, Q, m, want, keep, label, shape=(2, 2)):
    """m has exactly the terms in `want` (up to terms that vanish) and nothing outside keep"""
    got = members(ctx, m, Q)
    K = {key(k) for k in keep}
    ctx.check(set(got) <= K, label + ': nothing outside keep')
    for k in K | set(want):
        if k in K:
            w = want.get(k)
            g = got.get(k)
            w = 0 * eye(ctx, 2) if w is None and shape else w
            if g is None:
                g = w * 0 if w is not None else None
            if g is not None:
                ctx.check_eq(dense(ctx, g) if hasattr(g, 'shape') else g, 0 * g if w is None else w, f'{label}: term {k}')
    ctx.check(tuple(m.shape) == shape, label + ': shape')


def table(ctx, ts):
    out = {}
    for k, v in ts:
        out[key(k)] = dense(ctx, v) if hasattr(v, 'shape') else v
    return out


def product(ctx, A, B, op):
    out = {}
    for (k1, v1), (k2, v2) in it.product(A.items(), B.items()):
        v = v1 @ v2 if op == '@' else v1 * v2
        k = mul(k1, k2)
        out[k] = v if k not in out else out[k] + v
    return out


def mk(ctx, Q, cls, ts, keep):
    kw = {} if keep is None else dict(keep=keep)
    if cls == 'BlochModel' and keep is not None:
        kw['keep'] = [Q.model._to_bloch_coeff(SY(k), Q.Model({}, momenta=['k_x', 'k_y'], shape=(), format=np.complex128).momenta) for k in keep]
    return getattr(Q, cls)({SY(k): v for k, v in ts}, momenta=['k_x', 'k_y'], **kw)


CASES = {f'{c}-{k}-{f}': dict(cls=c, ks=k, fmt=f) for c, k in (('Model', 'poly'), ('Model', 'exp'), ('BlochModel', 'exp')) for f in FMT}
BND = 'Models with three or four terms, arbitrary complex coefficients (2x2 or scalar), every subset of the keys kept'


def subset(ctx, keys, name):
    n = ctx.choose(name, 2**len(keys))
    return [k for i, k in enumerate(keys) if n >> i & 1]


@H(cases=CASES, bounds=BND, time_limit=60)
def init(ctx, cls, ks, fmt):
    Q = ctx.Q
    keys = FULL[ks][:3]
    keep = subset(ctx, keys + ['b'], 'keep')
    if not keep:
        return      # nothing given: everything is kept
    ts = [(k, value(ctx, Q, fmt, f'v{i}', (2, 2))) for i, k in enumerate(keys)]
    for _, v in ts:
        ctx.assume(Not_zero(ctx, first(ctx, v)))
    if cls == 'BlochModel' and not any(k in keep for k in keys):
        return
    m = mk(ctx, Q, cls, ts, keep)
    T = table(ctx, ts)
    compare(ctx, Q, m, {k: v for k, v in T.items() if k in {key(x) for x in keep}}, keep, 'init', () if fmt == 'scalar' else (2, 2))
    for lab, r, f in (('copy', m.copy(), 1), ('-m', -m, -1), ('2*m', 2 * m, 2), ('m/2', m / 2, 0.5), ('m+m', m + m, 2), ('m-2m', m - 2 * m, -1)):
        compare(ctx, Q, r, {k: v * f for k, v in T.items() if k in {key(x) for x in keep}}, keep, lab, () if fmt == 'scalar' else (2, 2))
        ctx.check(r.keep == m.keep, lab + ': keep')
    compare(ctx, Q, m, {k: v for k, v in T.items() if k in {key(x) for x in keep}}, keep, 'unchanged', () if fmt == 'scalar' else (2, 2))


@H(cases={f'{w}-{k}': dict(w=w, ks=k) for w in ('str', 'sympy', 'normalize') for k in ('poly', 'exp')}, time_limit=60,
   bounds='Model given as string or sympy expression with two matrices and any real coefficients, or as dict with sums in keys and normalize=True; every nonempty subset of keys kept')
def parse(ctx, w, ks):
    Q = ctx.Q
    keys = FULL[ks]
    keep = subset(ctx, keys[:3] + ['b'], 'keep')
    if not keep:
        return
    if w == 'normalize':
        a, b = ctx.matrix('a', 2), ctx.matrix('b', 2)
        ctx.assume(Not_zero(ctx, a[0, 0])), ctx.assume(Not_zero(ctx, b[0, 0])), ctx.assume(Not_zero(ctx, (a + b)[0, 0]))
        m = Q.Model({SY(f'2*({keys[0]}) + ({keys[1]})'): a, SY(f'({keys[1]}) + 3*({keys[2]})'): b}, keep=keep, normalize=True, momenta=['k_x', 'k_y'])
        want = {key(keys[0]): a * 2, key(keys[1]): a + b, key(keys[2]): b * 3}
    else:
        s = f'({keys[0]})*sigma_x + 2*({keys[1]})*sigma_y + 3*({keys[2]})*sigma_0 + ({keys[3]})*sigma_z'
        if w == 'sympy':
            s = Q.kwant_continuum.sympify(s)
        m = Q.Model(s, keep=keep, momenta=['k_x', 'k_y'])
        s0, sx, sy, sz = sig(ctx)
        want = {key(keys[0]): sx, key(keys[1]): sy * 2, key(keys[2]): s0 * 3, key(keys[3]): sz}
    compare(ctx, Q, m, {k: v for k, v in want.items() if k in {key(x) for x in keep}}, keep, w)


@H(cases={n + '-' + o: dict(c, op=o) for n, c in CASES.items() for o in '@*' if (o == '@') == (c['fmt'] != 'scalar') or c['fmt'] == 'dense'}, bounds=BND, time_limit=60)
def prod(ctx, cls, ks, fmt, op):
    Q = ctx.Q
    full = FULL[ks][:3]
    ta = [(k, value(ctx, Q, fmt, f'A{i}', (2, 2))) for i, k in enumerate(full[:2])]
    tb = [(k, value(ctx, Q, fmt, f'B{i}', (2, 2))) for i, k in enumerate(full[1:] + [FULL[ks][3]])]
    for _, v in ta + tb:
        ctx.assume(Not_zero(ctx, first(ctx, v)))
    # keep contains the keys of the operands, so that only the product is truncated
    which = ctx.choose('which', 3)
    extra = subset(ctx, KEEP[ks], 'extra') if ks == 'poly' else KEEP[ks][:2]
    ka = [k for k, _ in ta] + extra[:2]
    kb = [k for k, _ in tb] + extra[2:]
    ka, kb = (ka if which != 1 else None), (kb if which != 0 else None)
    A, B = mk(ctx, Q, cls, ta, ka), mk(ctx, Q, cls, tb, kb)
    keep = {key(k) for k in (ka or []) + (kb or [])}
    shp = () if fmt == 'scalar' else (2, 2)
    P = product(ctx, table(ctx, ta), table(ctx, tb), op)
    r = A @ B if op == '@' else A * B
    compare(ctx, Q, r, {k: v for k, v in P.items() if k in keep}, keep, 'A' + op + 'B', shp)
    # keep is inherited
    r2 = r @ A if op == '@' else r * A
    P2 = product(ctx, {k: v for k, v in P.items() if k in keep}, table(ctx, ta), op)
    compare(ctx, Q, r2, {k: v for k, v in P2.items() if k in keep}, keep, 'A' + op + 'B' + op + 'A', shp)
    compare(ctx, Q, A, table(ctx, ta), [k for k, _ in ta] if ka is None else ka, 'A unchanged', shp)


@H(cases={n: c for n, c in CASES.items() if c['cls'] == 'Model'}, bounds=BND, time_limit=60)
def by_symbol(ctx, cls, ks, fmt):
    Q = ctx.Q
    full = FULL[ks][:3]
    ts = [(k, value(ctx, Q, fmt, f'A{i}', (2, 2))) for i, k in enumerate(full)]
    for _, v in ts:
        ctx.assume(Not_zero(ctx, first(ctx, v)))
    keep = full + subset(ctx, ['k_x**3', 'p', 'p*k_x', 'e**(2*I*k_x)', 'p*e**(I*k_x)'][:3 if ks == 'poly' else 5], 'extra')
    m = mk(ctx, Q, cls, ts, keep)
    s = [sympy.Symbol('p'), m.momenta[0], Q.kwant_continuum.e**(sympy.I * m.momenta[0])][ctx.choose('s', 3)]
    K = {key(k) for k in keep}
    want = {mul(k, s): v for k, v in table(ctx, ts).items()}
    want = {k: v for k, v in want.items() if k in K}
    shp = () if fmt == 'scalar' else (2, 2)
    for lab, r in (('m*s', m * s), ('s*m', s * m)):
        compare(ctx, Q, r, want, keep, lab, shp)
        ctx.check(r.keep == m.keep, lab + ': keep')
