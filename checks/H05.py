"""Family utilities: check_symmetry, symmetrize_monomial, hamiltonian_from_family, round_family, display_family."""
import contextlib
import io
import sympy
from se.runner import Registry
from .common import *
from .hfam import cst, PAULI
from .G01 import expected
from .H04 import closure, ham_u

H = Registry()
ASSUMPTIONS = ['closeness tests are taken as exact equality']
OUTSIDE = 'more than 3 members, matrices larger than 2x2'
SYK = {'poly': (['k_x', 'a*k_x**2', '1'], 1), 'poly2': (['k_x*k_y'], 2), 'trig': (['cos(k_x)', 'sin(k_x)'], 1), 'exp': (['e**(I*k_x)', 'e**(-I*k_x)'], 1)}


def model(ctx, keys, dim, name, cls='Model', hermitian=False):
    Q = ctx.Q
    t = [(k, herm(ctx, f'{name}{i}') if hermitian else ctx.matrix(f'{name}{i}', 2)) for i, k in enumerate(keys)]
    m = Q.Model(dict(t), momenta=NAMES[:dim])
    if cls == 'BlochModel':
        m = Q.BlochModel(m)
    return m, t


def elem(ctx, dim, u='phases'):
    R = rot(ctx, dim, 'int', 'R')
    cj, an = ctx.pybool('conj'), ctx.pybool('anti')
    U = ctx.arr(np.diag([ctx.phase('p'), ctx.phase('q')])) if u == 'phases' else ctx.unitary('U') if u == 'unitary' else None
    return R, cj, an, U


@H(cases={f'{k}-{u}-{c}': dict(keys=k, u=u, cls=c) for k, u, c in [('poly', 'phases', 'Model'), ('poly', 'none', 'Model'), ('poly2', 'phases', 'Model'),
                                                                  ('exp', 'phases', 'BlochModel'), ('trig', 'none', 'Model')]},
   time_limit=40, max_paths=300,
   bounds='one or two members with arbitrary 2x2 coefficients; one PointGroupElement with integer R, U = diag of phases or None, both flags')
def check_pge(ctx, keys, u, cls):
    Q = ctx.Q
    ks_, dim = SYK[keys]
    m1, t1 = model(ctx, ks_[:2], dim, 'h', cls)
    m2, t2 = model(ctx, ks_[:1] if len(ks_) > 1 else ['k_y'], dim, 'g', cls)
    # entries of the members are zero or of order one
    g = elem(ctx, dim, u)
    ks, env = kvals(ctx, dim)
    pg = Q.PointGroupElement(*g)
    fs = []
    for t in (t1, t2):
        Hf = lambda kp: eval_terms(ctx, t, dict(zip(NAMES, kp), a=env['a']))
        fs.append(kzero(ctx, expected(ctx, *g, Hf, ks) - Hf(ks), ks + [env['a']]))
    before = [meval(ctx, m, env) for m in (m1, m2)]
    if ctx.sym:
        ok = True
        try:
            Q.hamiltonian_generator.check_symmetry(iter([m1, m2]) if ctx.pybool('it') else [m1, m2], [pg])
        except ValueError:
            ok = False
        ctx.check(f_and(fs) if ok else f_not(f_and(fs)), 'raises ValueError iff a member is not symmetric')
    else:
        d = []
        for t in (t1, t2):
            for kp, av in [([0.3, -0.7], 0.9), ([-1.1, 0.2], -1.3), ([0.9, 1.7], 0.4)]:
                Hf = lambda kp: eval_terms(ctx, t, dict(zip(NAMES, kp), a=av))
                d.append(np.max(np.abs(expected(ctx, *g, Hf, kp[:dim]) - Hf(kp[:dim]))))
        if 1e-9 < max(d) < 1e-2:
            return
        r = raises(lambda: Q.hamiltonian_generator.check_symmetry(iter([m1, m2]) if ctx.pybool('it') else [m1, m2], [pg]), ValueError)
        ctx.check(r == (max(d) > 1e-3), 'raises ValueError iff a member is not symmetric')
    for m, b in zip((m1, m2), before):
        ctx.check_eq(meval(ctx, m, env), b, 'family unchanged')


@H(cases={'onsite': dict(R=0), 'R': dict(R=1)}, time_limit=60, max_paths=100,
   bounds='two members linear in momenta with arbitrary 2x2 coefficients, ContinuousGroupGenerator with any Hermitian U and none or any R')
def check_cgg(ctx, R):
    Q = ctx.Q
    m1, t1 = model(ctx, ['k_x', 'k_y'] if R else ['k_x', '1'], 2, 'h')
    m2, t2 = model(ctx, ['k_x'], 2, 'g')
    L = herm(ctx, 'L')
    Rm = None
    if R:
        r = ctx.real('r')
        ctx.assume(Not_zero(ctx, r))
        Rm = ctx.arr(np.array([[0 * r, r * -1j], [r * 1j, 0 * r]], dtype=object))
    g = Q.ContinuousGroupGenerator(Rm, L)

    def images(e):
        out = []
        for t in (t1, t2):
            Hm = eval_terms(ctx, t, e)
            d = 1j * (Hm @ L - L @ Hm)
            if R:
                d = d + eval_terms(ctx, t, dict(e, k_x=e['k_y'] * r, k_y=-1 * e['k_x'] * r))
            out.append(d)
        return out
    ks, env = kvals(ctx, 2)
    if ctx.sym:
        fs = f_and([kzero(ctx, d, ks) for d in images(env)])
        ok = not raises(lambda: Q.hamiltonian_generator.check_symmetry([m1, m2], [g]), ValueError)
        ctx.check(fs if ok else f_not(fs), 'raises ValueError iff a member is not symmetric')
    else:
        mx = max(np.max(np.abs(d)) for e in (dict(k_x=0.3, k_y=0.8), dict(k_x=-1.1, k_y=0.4)) for d in images(e))
        if 1e-9 < mx < 1e-2:
            return
        ok = not raises(lambda: Q.hamiltonian_generator.check_symmetry([m1, m2], [g]), ValueError)
        ctx.check(ok == (mx < 1e-3), 'raises ValueError iff a member is not symmetric')


@H(cases={f'{n}': dict(n=n) for n in (0, 1, 2)}, time_limit=30, bounds='one symmetric member; list with a satisfied symmetry (diag of any phases) before or after a violated one; rounded families')
def check_many(ctx, n):
    Q = ctx.Q
    x = ctx.real('x')
    ctx.assume(ctx.And(x > 0.5, x < 2) if not ctx.sym else f_and([Sym(0.5)._lt(x), x._lt(Sym(2))]))
    sz = sig(ctx)[3]
    m = Q.Model({'k_x': sz * x}, momenta=['k_x'])
    U = ctx.arr(np.diag([ctx.phase('p'), ctx.phase('q')]))
    good = Q.PointGroupElement(np.eye(1, dtype=int), False, False, U)
    bad = Q.PointGroupElement(-np.eye(1, dtype=int), False, False, U)
    cs = Q.hamiltonian_generator.check_symmetry
    cg = Q.ContinuousGroupGenerator(None, sz)
    cb = Q.ContinuousGroupGenerator(None, sig(ctx)[1])
    ctx.check(not raises(lambda: cs([m], [good, cg]), ValueError), 'satisfied')
    for l in ([bad], [good, bad], [bad, good], [good, cb], [cb, good]):
        ctx.check(raises(lambda: cs([m], l), ValueError), 'violated')
        ctx.check(raises(lambda: cs(iter([m]), iter(l)), ValueError), 'iterators')
    ctx.check(not raises(lambda: cs([m], []), ValueError) and not raises(lambda: cs([], [bad]), ValueError), 'nothing to check')
    if n:
        for l in ([bad], [cb], [good, cb], [cg, bad]):
            ctx.check(raises(lambda: cs([m], l, num_digits=n), ValueError), 'violated, rounded')
        ctx.check(not raises(lambda: cs([m], [cg], num_digits=n), ValueError), 'satisfied, rounded')
        ctx.check(not raises(lambda: cs(Q.hamiltonian_generator.round_family([m], n), [Q.PointGroupElement(np.eye(1, dtype=int), False, False, None)], num_digits=n), ValueError), 'satisfied, rounded')


@H(cases={f'{c}-{w}': dict(cls=c, w=w) for c in ('Model', 'BlochModel') for w in ('default', 'names', 'numbers', 'exprs')},
   bounds='3 members with arbitrary 2x2 coefficients; default, named and compound symbolic coefficients, any real numbers; sympy matrix (with and without nsimplify) or Model')
def from_family(ctx, cls, w):
    Q = ctx.Q
    keys = ['e**(I*k_x)', 'a*e**(-I*k_x)', '1'] if cls == 'BlochModel' else ['k_x', 'a*k_x**2', '1']
    F = [model(ctx, [keys[i], keys[2 - i]] if i != 1 else [keys[1]], 1, f'h{i}', cls) for i in range(3)]
    ks, env = kvals(ctx, 1)
    v = [ctx.real(n) for n in ('u0', 'u1', 'u2')]
    if w == 'default':
        coeffs, e, c = None, dict(env, c0=v[0], c1=v[1], c2=v[2]), v
    elif w == 'names':
        coeffs, e, c = list(sympy.symbols('m mu t')), dict(env, m=v[0], mu=v[1], t=v[2]), v
    elif w == 'exprs':
        coeffs, e, c = [sympy.Symbol('m'), 2 * sympy.Symbol('m'), sympy.Symbol('mu')**2], dict(env, m=v[0], mu=v[1]), [v[0], v[0] * 2, v[1] * v[1]]
    else:
        coeffs, e, c = v, env, v
    want = sum((eval_terms(ctx, t, env) * x for (m, t), x in zip(F, c)), zeros(ctx, (2, 2)))
    fam = [m for m, _ in F]
    before = [meval(ctx, m, env) for m in fam]
    r = Q.hamiltonian_from_family(fam, coeffs=coeffs, tosympy=False)
    ctx.check(type(r) is type(fam[0]) and tuple(r.shape) == (2, 2) and tuple(r.momenta) == tuple(fam[0].momenta), 'type, shape and momenta')
    ctx.check_eq(meval(ctx, r, e), want, 'linear combination')
    for ns in (False, True):
        s = Q.hamiltonian_from_family(fam, coeffs=coeffs, nsimplify=ns)
        ctx.check(s.shape == (2, 2), 'shape')
        for i in range(2):
            for j in range(2):
                ctx.check_eq(keyval(ctx, s[i, j], (), e), want[i, j], f'sympy linear combination [{i},{j}]')
    for m, b in zip(fam, before):
        ctx.check_eq(meval(ctx, m, env), b, 'family unchanged')
    ctx.check(raises(lambda: Q.hamiltonian_from_family(fam, coeffs=(coeffs or v)[:2]), AssertionError), 'wrong number of coefficients')


@H(cases={f'{c}-{u}-{R}{k}{a}': dict(cls=c, u=u, R=R, cj=k, an=a) for c, u in [('Model', 'refl'), ('BlochModel', 'refl'), ('Model', 'symm')] for R in (1, -1)
          for k in (0, 1) for a in (0, 1) if (u == 'symm') == bool(k)},
   bounds='term with arbitrary 2x2 coefficients, group {1, g} with any reflection in spin space or any symmetric antiunitary, times any phase, both flags')
def symmetrize(ctx, cls, u, R, cj, an):
    Q = ctx.Q
    keys = ['e**(I*k_x)', 'a*e**(-I*k_x)'] if cls == 'BlochModel' else ['k_x', 'a*k_x**2', 'e**(I*k_x)']
    m, t = model(ctx, keys, 1, 'h', cls)
    g = (np.array([[R]]), bool(cj), bool(an), ham_u(ctx, u))
    grp = closure(ctx, g, 2)
    G = [Q.PointGroupElement(np.round(np.asarray(R_, dtype=float)).astype(int), c, a, U) for R_, c, a, U in grp]
    ks, env = kvals(ctx, 1)
    Hf = lambda kp: eval_terms(ctx, t, dict(zip(NAMES, kp), a=env['a']))
    r = Q.hamiltonian_generator.symmetrize_monomial(m, G)
    val = lambda kp: meval(ctx, r, dict(zip(NAMES, kp), a=env['a']))
    ctx.check_eq(val(ks), (expected(ctx, *grp[0], Hf, ks) + expected(ctx, *grp[1], Hf, ks)) * 0.5, 'average over the group')
    ctx.check_eq(expected(ctx, *g, val, ks), val(ks), 'the average is symmetric')
    if cls == 'BlochModel':
        r2 = Q.hamiltonian_generator.symmetrize_monomial(r, G)
        ctx.check_eq(meval(ctx, r2, env), val(ks), 'symmetric terms are unchanged')
    ctx.check(type(r) is type(m) and tuple(r.momenta) == tuple(m.momenta), 'type and momenta')
    ctx.check_eq(meval(ctx, m, env), Hf(ks), 'argument unchanged')


@H(cases={f'{c}': dict(cls=c) for c in ('Model', 'BlochModel')}, bounds='2 members with arbitrary 2x2 coefficients, printed separately and summed')
def display(ctx, cls):
    Q = ctx.Q
    keys = ['e**(I*k_x)', '1'] if cls == 'BlochModel' else ['k_x', '1']
    F = [model(ctx, keys, 1, 'h', cls), model(ctx, keys[:1], 1, 'g', cls)]
    fam = [m for m, _ in F]
    ks, env = kvals(ctx, 1)
    hg = Q.hamiltonian_generator
    shown = []
    orig_print = __builtins__['print'] if isinstance(__builtins__, dict) else __builtins__.print
    hg.print = lambda *a, **k: shown.extend(a)
    import sys
    saved = {k: sys.modules.get(k, 0) for k in ('IPython', 'IPython.display')}
    sys.modules['IPython'] = sys.modules['IPython.display'] = None
    try:
        hg.display_family(fam, nsimplify=False)
        ctx.check(len(shown) == 2, 'one output per member')
        for s, (m, t) in zip(shown, F):
            v = eval_terms(ctx, t, env)
            for i in range(2):
                for j in range(2):
                    ctx.check_eq(keyval(ctx, s[i, j], (), env), v[i, j], 'member')
        shown.clear()
        a, b = ctx.real('a_'), ctx.real('b_')
        hg.display_family(fam, summed=True, coeffs=list(sympy.symbols('a_ b_')), nsimplify=False)
        ctx.check(len(shown) == 1, 'one output')
        v = eval_terms(ctx, F[0][1], env) * a + eval_terms(ctx, F[1][1], env) * b
        for i in range(2):
            for j in range(2):
                ctx.check_eq(keyval(ctx, shown[0][i, j], (), dict(env, a_=a, b_=b)), v[i, j], 'sum')
    finally:
        del hg.print
        for k, x in saved.items():
            if x == 0:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = x
