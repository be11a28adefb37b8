"""bloch_family: symmetric tight-binding Hamiltonians."""
import contextlib
from collections import OrderedDict
import sympy
from se import contracts
from se.runner import Registry
from .common import *
from .hfam import *
from .G01 import expected

H = Registry()
STUBS = ['scipy.linalg.svd of a symbolic matrix: fresh singular vectors with the facts of the SVD theorem (se/contracts.py), forked over the rank']
ASSUMPTIONS = ['closeness tests are taken as exact equality', 'norms compared with num_digits are exactly zero or larger', 'every rank of the constraint matrix is explored; ranks the solver cannot exclude are kept']
OUTSIDE = 'more than 2 orbitals, more than 4 hoppings, groups of more than 4 elements'


def expi(ctx, x):
    return (to_sym(x) * Sym(1j)).exp() if ctx.sym else np.exp(1j * x)


def hop_basis(ctx, hops, norbs, onsites, L=None):
    """all Hermitian terms on the given hoppings (may be linearly dependent); L: diagonal of a conserved quantity"""
    off, N = {}, 0
    for a, n in norbs:
        off[a], N = N, N + n
    nb = dict(norbs)
    dim = len(hops[0][2])
    hs = list(hops) + ([(a, a, [0] * dim) for a, _ in norbs] if onsites else [])
    out = []
    for a, b, vec in hs:
        for i in range(nb[a]):
            for j in range(nb[b]):
                if L and L[off[a] + i] != L[off[b] + j]:
                    continue
                for z in (1, 1j):
                    m = np.zeros((N, N), dtype=complex)
                    m[off[a] + i, off[b] + j] = z
                    fv = [float(v) for v in vec]

                    def f(kp, m=m, fv=fv):
                        ph = sum((x * k for x, k in zip(fv, kp) if x), 0 * kp[0])
                        return cst(ctx, m) * expi(ctx, ph) + cst(ctx, m.conj().T) * expi(ctx, -ph)
                    out.append(f)
    return out, N


def average(ctx, group, f):
    def g(kp):
        return sum((expected(ctx, *x, f, kp) for x in group[1:]), expected(ctx, *group[0], f, kp)) * (1 / len(group))
    return g


def closure(ctx, g, order):
    """powers of one element (order up to a phase)"""
    dim = len(g[0])
    one = (np.eye(dim), False, False, eye(ctx, g[3].shape[0]))
    out = [one]
    for _ in range(order - 1):
        R, cj, an, U = out[-1]
        V = g[3].conj() if cj else g[3]
        out.append((np.asarray(R) @ np.asarray(g[0], dtype=float), cj ^ g[1], an ^ g[2], U @ V))
    return out


def run(ctx, hops, norbs, onsites, gens, group, symmetrize, bloch, prettify=False, pgs=None, images=None, L=None):
    Q = ctx.Q
    ctx.exact_tol()
    hg = Q.hamiltonian_generator
    dim = len(hops[0][2])
    ks = [ctx.real(n) for n in NAMES[:dim]]
    O, N = hop_basis(ctx, hops, norbs, onsites, L)
    kw = dict(onsites=onsites, symmetrize=symmetrize, bloch_model=bloch, prettify=prettify)
    pg = pgs if pgs is not None else [Q.PointGroupElement(*g) for g in gens]
    U0 = [(p.U + 0 * p.U, p._strict_eq) for p in pg if p.U is not None and hasattr(p, '_strict_eq')]
    hv = [(a, b, list(v)) for a, b, v in hops]
    with spy2(ctx, hg) as recs:
        res = Q.bloch_family(hv, pg, norbs, **kw)
    ctx.check(hv == [(a, b, list(v)) for a, b, v in hops], 'hopping vectors unchanged')
    for (u, s), p in zip(U0, [p for p in pg if hasattr(p, '_strict_eq')]):
        ctx.check_eq(p.U, u, 'symmetries unchanged')
        ctx.check(p._strict_eq == s, 'symmetries unchanged')
    val = lambda m: (lambda kp: meval(ctx, m, dict(zip(NAMES, kp))))
    images = images or (lambda Hf, kp: [expected(ctx, *g, Hf, kp) - Hf(kp) for g in gens])
    for i, m in enumerate(res):
        ctx.check(type(m) is (Q.BlochModel if bloch else Q.Model) and tuple(m.shape) == (N, N) and [str(k) for k in m.momenta] == NAMES[:dim], 'type, shape and momenta')
        for d in images(val(m), ks):
            ctx.check(kzero(ctx, d, ks), f'member {i} has the symmetries')
        h = val(m)(ks)
        ctx.check(kzero(ctx, h - h.conj().T, ks), f'member {i} is Hermitian')
    if not ctx.sym:
        pts = [[0.37 * (j + 1) * (-1) ** (j * (q + 1)) + 0.11 * q for q in range(dim)] for j in range(9)]
        vec = lambda f: ri(np.concatenate([np.asarray(f(kp)).ravel() for kp in pts]))
        if symmetrize and group:
            S = [average(ctx, group, f) for f in O]
            W = np.array([vec(f) for f in S])
        else:
            M = np.array([ri(np.concatenate([np.asarray(d).ravel() for kp in pts for d in images(f, kp)] or [np.zeros(1)])) for f in O]).T
            _, s, vh = np.linalg.svd(M)
            if np.any((s > 1e-9) & (s < 1e-4)):
                return
            rk = int(np.sum(s > 1e-6))
            W = vh[rk:] @ np.array([vec(f) for f in O])
        if not len(W):
            ctx.check(len(res) == 0, 'every symmetric Hamiltonian is in the span')
            return
        s = np.linalg.svd(W)[1]
        if np.any((s > 1e-9) & (s < 1e-4)):
            return
        rk = int(np.sum(s > 1e-6))
        ctx.check(len(res) == rk, 'number of members')
        ctx.check(len(res) == rk, 'every symmetric Hamiltonian is in the span')
        vecs = [vec(val(m)) for m in res]
        ctx.check(independent(vecs), 'members are independent')
        for w in W:
            ctx.check(in_span(w, vecs), 'every symmetric Hamiltonian is in the span')
        return
    return res, O, recs, val, ks, N


@contextlib.contextmanager
def spy2(ctx, hg):
    """calls of remove_duplicates: (family, contract record, result)"""
    out = []
    orig = hg.remove_duplicates

    def f(family, *a, **k):
        n0 = len(contracts.calls(ctx)) if ctx.sym else 0
        r = orig(family, *a, **k)
        cl = contracts.calls(ctx)[n0:] if ctx.sym else []
        out.append((list(family), cl[-1] if cl else None, r))
        return r
    hg.remove_duplicates = f
    try:
        yield out
    finally:
        hg.remove_duplicates = orig


def is0(d):
    return all(to_sym(x)._eq(Sym(0)) is True for x in np.asarray(d).reshape(-1))


def constant_span(ctx, res, val, O, ks, label):
    """every O is in the real span of the constant members of res: exact coefficients from a numerical solution"""
    pts = [[Sym(0.37 * (j + 1) * (-1) ** (j * (q + 1)) + 0.11 * q) for q in range(len(ks))] for j in range(9)]
    vec = lambda f: ri(np.concatenate([num(ctx, f(kp)).ravel() for kp in pts]))
    if not res:
        for f in O:
            ctx.check(kzero(ctx, f(ks), ks), label)
        return
    A = np.array([vec(val(m)) for m in res]).T
    ctx.check(np.linalg.matrix_rank(A, tol=1e-8) == len(res), 'members are independent')
    for f in O:
        x = np.round(np.linalg.lstsq(A, vec(f), rcond=None)[0], 10)
        d = sum((val(m)(ks) * float(c) for m, c in zip(res, x) if c), zeros(ctx, f(ks).shape)) - f(ks)
        ctx.check(all(abs(c) < 1e-7 for t in np.asarray(d).reshape(-1) for c in to_sym(t).n.values()), label)


def isconst(ctx, m):
    return all(to_sym(x).is_const() for v in m.data.values() for x in np.asarray(AR.as_objarr(dense(ctx, v))).reshape(-1))


def spanned(ctx, r, group):
    """symmetrized family: every average of a hopping term is a combination of the members"""
    if r is None:
        return
    res, O, recs, val, ks, N = r
    S = [average(ctx, group, f) for f in O]
    if not recs or recs[-1][1] is None:
        if all(isconst(ctx, m) for m in res) and all(to_sym(x).is_const() for f in S for x in np.asarray(f([Sym(0.3)] * len(ks))).reshape(-1)):
            constant_span(ctx, res, val, S, ks, 'every symmetric Hamiltonian is in the span')
        elif all(truth(kzero(ctx, f(ks), ks)) for f in S):
            ctx.check(len(res) == 0, 'every symmetric Hamiltonian is in the span')
        else:
            ctx.note('no factorisation of the symmetrized family')
        return
    fam, rec, out = recs[-1]
    w = rec.nsc
    ctx.check(len(w) == len(out), 'number of members')
    ctx.assume(rec.rows())
    vals = [val(m)(ks) for m in fam]
    used = set()
    for f in S:
        s = f(ks)
        j = next((j for j, v in enumerate(vals) if is0(v - s)), None)
        if j is None:
            ctx.check(kzero(ctx, s, ks), 'every symmetrized hopping is in the family')
            continue
        used |= {i for i, v in enumerate(vals) if i == j or is0(v - s) or is0(v + s)}
        back = sum((val(m)(ks) * to_sym(w[i, j]).conjugate() for i, m in enumerate(res)), zeros(ctx, (N, N)))
        ctx.check(kzero(ctx, back - s, ks), 'every symmetric Hamiltonian is in the span')
    for j, v in enumerate(vals):
        if j not in used:
            ctx.check(kzero(ctx, v, ks), 'nothing else is in the family')


def ham_u(ctx, kind, name='U'):
    """unitary with U U = phase (antiunitary: U U^* = 1 or -1)"""
    p = ctx.phase(name + 'p')
    if kind == 'phase':
        return ctx.arr(np.array([[p]]))
    if kind == 'swap':
        q = ctx.phase(name + 'q')
        return ctx.arr(np.array([[0 * p, p], [q, 0 * p]]))
    if kind == 'swap=':
        return ctx.arr(np.array([[0 * p, p], [p, 0 * p]]))
    v = [ctx.real(name + x) for x in 'xyz']
    if ctx.sym:
        ctx.sphere(name + 'x', [name + 'y', name + 'z'])
    else:
        r = math.sqrt(sum(x * x for x in v))
        v = [x / r for x in v] if r > 1e-9 else [1.0, 0.0, 0.0]
    S = sig(ctx)
    if kind == 'refl':
        return (S[1] * v[0] + S[2] * v[1] + S[3] * v[2]) * p
    if kind == 'symm':
        return (S[0] * v[0] + S[1] * (1j * v[1]) + S[3] * (1j * v[2])) * p
    if kind == 'isy':
        return S[2] * 1j * p
    raise KeyError(kind)


A1, A2 = (('A', 1),), (('A', 2),)
AB = (('A', 1), ('B', 1))
CASES = {
    'inv-A1': dict(hops=[('A', 'A', [1])], norbs=A1, onsites=True, R=[[-1]], flags=(0, 0), u='phase', order=2),
    'invT-A1': dict(hops=[('A', 'A', [1])], norbs=A1, onsites=True, R=[[-1]], flags=(1, 0), u='phase', order=2),
    'T-A1': dict(hops=[('A', 'A', [1])], norbs=A1, onsites=True, R=[[1]], flags=(1, 0), u='phase', order=2),
    'P-A1': dict(hops=[('A', 'A', [1])], norbs=A1, onsites=True, R=[[1]], flags=(1, 1), u='phase', order=2),
    'inv-AB': dict(hops=[('A', 'B', [1])], norbs=AB, onsites=False, R=[[-1]], flags=(0, 0), u='swap', order=2),
    'inv-AB0': dict(hops=[('B', 'A', [0])], norbs=AB, onsites=True, R=[[-1]], flags=(0, 0), u='swap', order=2),
    'invT-AB': dict(hops=[('A', 'B', [1])], norbs=AB, onsites=False, R=[[-1]], flags=(1, 0), u='swap=', order=2),
    'C-AB': dict(hops=[('A', 'B', [sympy.Rational(1, 2)])], norbs=AB, onsites=False, R=[[-1]], flags=(0, 1), u='swap', order=2),
    'inv-A2on': dict(hops=[('A', 'A', [0])], norbs=A2, onsites=False, R=[[-1]], flags=(0, 0), u='refl', order=2),
    'inv-A2': dict(hops=[('A', 'A', [1])], norbs=A2, onsites=False, R=[[-1]], flags=(0, 0), u='refl', order=2),
    'T-A2': dict(hops=[('A', 'A', [1])], norbs=A2, onsites=False, R=[[1]], flags=(1, 0), u='symm', order=2),
    'T-A2s': dict(hops=[('A', 'A', [1])], norbs=A2, onsites=False, R=[[1]], flags=(1, 0), u='isy', order=2),
    'C4-A1': dict(hops=[('A', 'A', [1, 0])], norbs=A1, onsites=True, R=[[0, -1], [1, 0]], flags=(0, 0), u='phase', order=4),
    'C4T-A1': dict(hops=[('A', 'A', [1, 0])], norbs=A1, onsites=False, R=[[0, -1], [1, 0]], flags=(1, 0), u='phase', order=4),
    'My-AB': dict(hops=[('A', 'B', [1, 0]), ('A', 'A', [1, 1])], norbs=AB, onsites=False, R=[[-1, 0], [0, 1]], flags=(0, 0), u='swap=', order=2),
}


@H(cases={f'{k}{"-bloch" if b else ""}': dict(bloch=b, **c) for k, c in CASES.items() for b in (0, 1) if not b or k in ('inv-A1', 'C-AB', 'C4-A1')},
   time_limit=40, max_paths=60,
   bounds='1-2 orbitals on 1-2 sites, 1-2 hoppings in 1-2 dimensions with or without onsite terms; one generator of a point group of order 2 or 4 '
          '(times an arbitrary phase, any reflection of spin space, any symmetric or antisymmetric antiunitary); symmetrize=True')
def symmetrized(ctx, hops, norbs, onsites, R, flags, u, order, bloch):
    U = ham_u(ctx, u)
    g = (np.array(R), bool(flags[0]), bool(flags[1]), U)
    grp = closure(ctx, g, order)
    r = run(ctx, hops, norbs, onsites, [g], grp, True, bool(bloch))
    spanned(ctx, r, grp)


@H(cases={f'{t}-{k}': dict(t=t, k=k) for t in ('A2', 'AB') for k in (0, 1)}, time_limit=60, max_paths=60,
   bounds='conserved quantity diag(1, -1) and one point group element with U = diag of any phases, both flags; symmetrize=True')
def conserved(ctx, t, k):
    Q = ctx.Q
    norbs = A2 if t == 'A2' else AB
    hops = [('A', 'A', [1]), ('A', 'B', [1])][(0 if t == 'A2' else 1):][:1]
    L = [1, -1]
    U = ctx.arr(np.diag([ctx.phase('p'), ctx.phase('p')]))
    an = ctx.pybool('anti')
    g = (np.array([[-1 if k == 0 else 1]]), True, an, U)
    cg = Q.ContinuousGroupGenerator(None, cst(ctx, np.diag(L)) * (2.0 if k else 1))
    pgs = [cg, Q.PointGroupElement(*g)]
    Lm = cst(ctx, np.diag(L))
    images = lambda Hf, kp: [expected(ctx, *g, Hf, kp) - Hf(kp), Lm @ Hf(kp) - Hf(kp) @ Lm]
    grp = closure(ctx, g, 2)
    spanned(ctx, run(ctx, hops, norbs, True, [g], grp, True, False, pgs=pgs, images=images, L=L), grp)


def ind_basis(ctx, hops, norbs, onsites):
    O, N = hop_basis(ctx, hops, norbs, False)
    out = list(O)
    if onsites:
        n0 = 0
        for a, n in norbs:
            for i in range(n):
                for j in range(i, n):
                    for z in ((1,) if i == j else (1, 1j)):
                        m = np.zeros((N, N), dtype=complex)
                        m[n0 + i, n0 + j] += z
                        m[n0 + j, n0 + i] += np.conj(z) if i != j else 0
                        out.append(lambda kp, m=m: cst(ctx, m))
            n0 += n
    return out, N


CONS = {'A1': dict(hops=[('A', 'A', [1])], norbs=A1, onsites=True, R=[[-1]], u='phase'),
        'A2': dict(hops=[('A', 'A', [1])], norbs=A2, onsites=False, R=[[-1]], u='diag'),
        'A2on': dict(hops=[('A', 'A', [1])], norbs=A2, onsites=True, R=[[1]], u='diag'),
        'AB': dict(hops=[('A', 'B', [1]), ('A', 'B', [-1])], norbs=AB, onsites=True, R=[[-1]], u='diag'),
        'AB2d': dict(hops=[('A', 'B', [1, 0]), ('A', 'B', [0, 1]), ('B', 'A', [1, 0])], norbs=AB, onsites=False, R=[[0, 1], [1, 0]], u='diag'),
        'miss': dict(hops=[('A', 'A', [1, 0]), ('A', 'A', [1, 1])], norbs=A1, onsites=True, R=[[0, -1], [1, 0]], u='phase')}
CONS_CASES = {f'{k}{"-bloch" if b else ""}': dict(bloch=b, **c) for k, c in CONS.items() for b in (0, 1) if not b or k in ('A1', 'AB')}


@H(cases=CONS_CASES, time_limit=40, max_paths=60,
   bounds='symmetrize=False: one PointGroupElement with U any phase or diag of phases, both flags; hoppings complete or not')
def constrained(ctx, hops, norbs, onsites, R, u, bloch):
    Q = ctx.Q
    U = ctx.arr(np.diag([ctx.phase('p'), ctx.phase('q')])) if u == 'diag' else ham_u(ctx, 'phase')
    g = (np.array(R), ctx.pybool('conj'), ctx.pybool('anti'), U)
    dim = len(hops[0][2])
    ks, env = kvals(ctx, dim)
    O, N = ind_basis(ctx, hops, norbs, onsites)
    oracle = [lambda e, f=f: f([e[m] for m in NAMES[:dim]]) for f in O]
    images = lambda Hf, kp=ks: [expected(ctx, *g, Hf, kp) - Hf(kp)]
    hv = [(a, b, list(v)) for a, b, v in hops]
    pg = Q.PointGroupElement(*g)
    call = lambda: Q.bloch_family(hv, [pg], norbs, onsites=onsites, symmetrize=False, prettify=False, bloch_model=bool(bloch))
    res = symmetric_span(ctx, call, Q.hamiltonian_generator, oracle, images, dim, ks, env, (N, N))
    for m in res or ():
        ctx.check(type(m) is (Q.BlochModel if bloch else Q.Model) and [str(k) for k in m.momenta] == NAMES[:dim], 'type and momenta')
    ctx.check(hv == [(a, b, list(v)) for a, b, v in hops], 'hopping vectors unchanged')


@H(cases={f'{"bloch" if b else "model"}-{n}': dict(bloch=b, norb=n) for b in (0, 1) for n in ('tuple', 'list', 'OrderedDict')},
   bounds='argument forms: norbs as tuple, list or OrderedDict, momenta as names or symbols, U any phase')
def forms(ctx, bloch, norb):
    Q = ctx.Q
    nb = {'tuple': (('A', 1),), 'list': [('A', 1)], 'OrderedDict': OrderedDict([('A', 1)])}[norb]
    p = ctx.phase('p')
    pg = Q.PointGroupElement(-np.eye(1, dtype=int), False, False, ctx.arr(np.array([[p]])))
    mom = [['q'], [sympy.Symbol('q', commutative=True)], ['q', 'k_x']][ctx.choose('mom', 3)]
    for vec in ([1], (1,), np.array([1])):
        for pretty in (False, True):
            res = Q.bloch_family([('A', 'A', vec)], [pg], nb, onsites=False, momenta=mom, bloch_model=bool(bloch), prettify=pretty)
            ctx.check(len(res) == 1 and [str(k) for k in res[0].momenta] == ['q'], 'momenta')
            x = ctx.real('x')
            h = meval(ctx, res[0], {'q': x})
            co = x.cos() if ctx.sym else np.cos(x)
            si = x.sin() if ctx.sym else np.sin(x)
            h0 = meval(ctx, res[0], {'q': 0 * x})
            ctx.check_eq(h, h0 * co, 'cosine')
            ctx.check_eq(h0.conj(), h0, 'real')
            ctx.check(ctx.Not(to_sym(h0[0, 0])._eq(Sym(0))) if ctx.sym else abs(h0[0, 0]) > 1e-6, 'not zero')
    ctx.check(raises(lambda: Q.bloch_family([('A', 'A', [1])], [pg], {'A'}), ValueError), 'norbs of another type')
    cg = Q.ContinuousGroupGenerator(const(ctx, np.array([[0, -1j], [1j, 0]])), const(ctx, np.eye(1)))
    ctx.check(raises(lambda: Q.bloch_family([('A', 'A', [1, 0])], [cg], nb), ValueError), 'continuous rotation')
    if not bloch:
        fl = Q.PointGroupElement(np.array([[0.6, -0.8], [0.8, 0.6]]), False, False, ctx.arr(np.array([[p]])))
        ctx.check(raises(lambda: Q.bloch_family([('A', 'A', [1, 0])], [fl], nb), ValueError), 'float rotation of a Model')


@H(cases={f'{k}': dict(k=k) for k in ('C3', 'C6', 'M')}, bounds='BlochModel families on the triangular lattice with float hoppings and rotations, U any phase times a character')
def triangular(ctx, k):
    Q = ctx.Q
    r3 = math.sqrt(3) / 2
    R = {'C3': [[-0.5, -r3], [r3, -0.5]], 'C6': [[0.5, -r3], [r3, 0.5]], 'M': [[0.5, r3], [r3, -0.5]]}[k]
    order = {'C3': 3, 'C6': 6, 'M': 2}[k]
    p = ctx.phase('p')
    g = (np.array(R), False, False, ctx.arr(np.array([[p]])))
    grp = closure(ctx, g, order)
    hops = [('A', 'A', [1.0, 0.0])]
    if ctx.sym:
        # float rotations: the averages agree up to rounding only
        res = Q.bloch_family([('A', 'A', [1.0, 0.0])], [Q.PointGroupElement(*g)], A1, bloch_model=True, prettify=False)
        ctx.check(len(res) == (3 if k == 'C3' else 2 if k == 'C6' else 3), 'number of members')
        for m in res:
            ks = [0.37, -1.13]
            h = lambda q: num(ctx, meval(ctx, m, {'k_x': Sym(q[0]), 'k_y': Sym(q[1])}))
            ctx.check(bool(np.allclose(h(ks), h(list(np.linalg.inv(np.array(R)) @ ks)))), 'symmetric')
        return
    run(ctx, hops, A1, True, [g], grp, True, True)
