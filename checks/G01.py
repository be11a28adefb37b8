"""Group action on models."""
import sympy
from se.runner import Registry
from .common import *

H = Registry()
ASSUMPTIONS = ['closeness tests (np.allclose / np.isclose) are taken as exact equality in symbolic runs',
               'model symbols stand for real numbers']
OUTSIDE = 'matrices larger than 2x2, polynomial degree above 3, more than 3 momenta'


def expected(ctx, R, conj, anti, U, Hfun, ks):
    """(+/-) U H(+/- R^-1 k)^(*) U^dagger"""
    Rinv = inv(ctx, plain(ctx, R))
    kp = mv(ctx, Rinv, ks)
    if conj:
        kp = [-x for x in kp]
    h = Hfun(kp)
    if conj:
        h = h.conj()
    if anti:
        h = -h
    if U is not None:
        h = U @ h @ U.T.conj()
    return h


KEYS = {'lin1': ['1', 'a*k_x'], 'quad1': ['k_x', 'a*k_x**2', 'k_x**3'],
        'lin2': ['1', 'a*k_x', 'k_y'], 'quad2': ['a*k_x*k_y', 'k_x'], 'sq2': ['a*k_y**2', '1'], 'cub2': ['k_x**2*k_y'],
        'lin3': ['1', 'a*k_z', 'k_y'], 'quad3': ['a*k_x*k_z', 'k_y**2'], 'one3': ['k_x']}
CASES = [(1, 'orth', 'lin1'), (1, 'orth', 'quad1'), (2, 'orth', 'lin2'), (2, 'orth', 'sq2'), (2, 'int', 'lin2'),
         (2, 'int', 'quad2'), (2, 'int', 'cub2'), (2, 'sympy', 'lin2'), (2, 'sympy', 'quad2'), (3, 'int', 'lin3'),
         (3, 'int', 'quad3'), (3, 'orth', 'one3'), (3, 'sympy', 'lin3')]


@H(cases={f'd{d}-{k}-{n}': dict(dim=d, kind=k, keys=n) for d, k, n in CASES},
   bounds='polynomial Model, degree <= 3, 2x2 (3D: 1x1) arbitrary complex coefficients, arbitrary real k, arbitrary '
          'complex U, both flags; R: any element of O(n) or one of the listed integer/exact matrices', max_paths=600)
def apply_poly(ctx, dim, kind, keys):
    Q = ctx.Q
    conj, anti = ctx.pybool('conj'), ctx.pybool('anti')
    R = rot(ctx, dim, kind)
    n = 1 if dim == 3 or kind == 'orth' and keys == 'sq2' else 2
    U = ctx.matrix('U', n)
    keys = KEYS[keys]
    vals = {k: ctx.matrix(f'h{i}', n) for i, k in enumerate(keys)}
    for v in vals.values():
        ctx.assume(Not_zero(ctx, v[0, 0]))
    ctx.assume(Not_zero(ctx, U[0, 0]))
    model = Q.Model(dict(vals), momenta=NAMES[:dim])
    g = Q.PointGroupElement(R, conj, anti, U)
    res = g.apply(model)
    ks, env = kvals(ctx, dim)

    def Hf(kp):
        e = dict(zip(NAMES, kp), a=env['a'])
        out = None
        for k, v in vals.items():
            t = v * keyval(ctx, sympy.sympify(k), (), e)
            out = t if out is None else out + t
        return out
    want = expected(ctx, R, conj, anti, U, Hf, ks)
    ctx.check_eq(meval(ctx, res, env), want, 'apply formula on Model')
    ctx.check(tuple(res.momenta) == tuple(model.momenta), 'momenta kept')
    ctx.check_eq(meval(ctx, model, env), Hf(ks), 'argument unchanged')


@H(cases={f'd{d}-{k}': dict(dim=d, kind=k) for d, k in
          [(1, 'orth'), (2, 'orth'), (2, 'int'), (3, 'int'), (2, 'sympy')]},
   bounds='BlochModel with 2 hoppings of arbitrary real vector, 2x2 arbitrary complex amplitudes')
def apply_bloch(ctx, dim, kind):
    Q = ctx.Q
    conj, anti = ctx.pybool('conj'), ctx.pybool('anti')
    useU = ctx.pybool('U?')
    R = rot(ctx, dim, kind)
    U = ctx.matrix('U', 2) if useU else None
    a = sympy.Symbol('a', commutative=True)
    one = sympy.Integer(1)
    terms = []
    ph = sympy.Symbol('e', commutative=True) ** (sympy.I * a)
    for i, c in enumerate((one, ph)):
        hop = [ctx.real(f'd{i}{j}') for j in range(dim)]
        hop = ctx.arr(np.array(hop, dtype=object))
        terms.append((hop, c, ctx.matrix(f'h{i}', 2)))
    data = {Q.BlochCoeff(h, c): v for h, c, v in terms}
    ctx.assume(len(data) == 2)
    model = Q.BlochModel(data, momenta=NAMES[:dim])
    g = Q.PointGroupElement(R, conj, anti, U)
    res = g.apply(model)
    ks, env = kvals(ctx, dim)

    def Hf(kp):
        e = dict(zip(NAMES, kp), a=env['a'])
        out = None
        mom = [sympy.Symbol(n) for n in NAMES[:dim]]
        for h, c, v in terms:
            t = v * keyval(ctx, (h, c), mom, e)
            out = t if out is None else out + t
        return out
    want = expected(ctx, R, conj, anti, U, Hf, ks)
    ctx.check_eq(meval(ctx, res, env), want, 'apply formula on BlochModel')
    ctx.check(type(res) is type(model), 'result type')


@H(bounds='Model with exponential/trigonometric momentum dependence, integer rotations',
   cases={'d2': dict(dim=2), 'd1': dict(dim=1)})
def apply_trig(ctx, dim):
    Q = ctx.Q
    conj, anti = ctx.pybool('conj'), ctx.pybool('anti')
    R = rot(ctx, dim, 'int')
    U = ctx.matrix('U', 2)
    keys = ['e**(I*k_x)', 'e**(-I*k_x)', 'a', 'e**(-I*a)', 'e**(I*a + I*k_x)'] if dim == 1 else ['e**(I*k_x)', 'a*e**(I*k_x - I*k_y)', 'e**(-2*I*k_y)', 'e**(I*a)']
    from sympy import Symbol
    vals = {k: ctx.matrix(f'h{i}', 2) for i, k in enumerate(keys)}
    model = Q.Model(dict(vals), momenta=NAMES[:dim])
    res = Q.PointGroupElement(R, conj, anti, U).apply(model)
    ks, env = kvals(ctx, dim)

    def Hf(kp):
        e = dict(zip(NAMES, kp), a=env['a'])
        out = None
        for k, v in vals.items():
            t = v * keyval(ctx, sympy.sympify(k, locals={'e': Symbol('e')}), (), e)
            out = t if out is None else out + t
        return out
    ctx.check_eq(meval(ctx, res, env), expected(ctx, R, conj, anti, U, Hf, ks), 'apply formula on trigonometric Model')
