"""Vector-space operations on families: family_to_vectors, make_basis_pretty, remove_duplicates, subtract_family."""
from se.runner import Registry
from se import contracts
from .common import *

H = Registry()
STUBS = ['scipy.linalg.svd of a symbolic matrix: fresh singular vectors with the facts of the SVD theorem (se/contracts.py), forked over the rank; where the harness '
         'knows an orthonormal basis of the row space, every orthonormal basis of it',
         'np.round to one or more digits is the identity on symbolic values']
ASSUMPTIONS = ['singular values are exactly zero or larger than the tolerance']
OUTSIDE = 'more than 3 members, matrices larger than 2x2'
KEYS = ['1', 'k_x', 'a*k_x']


def fam(ctx, name, n, pat, cls='Model', keys=KEYS):
    """n members with symbolic real weights: member i = sum_j w_ij key_j sigma_j; -> (models, weights)"""
    Q = ctx.Q
    S = sig(ctx)
    W, out = [], []
    for i in range(n):
        w = [ctx.real(f'{name}{i}{j}') if c == 'x' else ((Sym(float(c)) if ctx.sym else float(c))) for j, c in enumerate(pat[i])]
        ctx.assume(ctx.Or(*[Not_zero(ctx, x) for x in w]))
        for x in w:
            if ctx.sym and not to_sym(x).is_const():
                ctx.assume(f_or([to_sym(x)._eq(Sym(0)), f_and([Sym(1 / 16)._lt(x * x), (x * x)._lt(Sym(16))])]))
            elif not ctx.sym:
                ctx.assume(x == 0 or 0.25 < abs(x) < 4)
        d = {}
        for j, x in enumerate(w):
            if pat[i][j] == '0':
                continue
            k = keys[j % len(keys)]
            d[k] = (d[k] if k in d else 0) + S[[1, 2, 3, 0][j]] * x
        m = Q.Model({k: v for k, v in d.items()}, momenta=NAMES[:1])
        out.append(Q.BlochModel(m) if cls == 'BlochModel' else m)
        W.append(w)
    return out, W


def amat(ctx, W):
    return ctx.arr(np.array(W, dtype=object)) if ctx.sym else np.array(W, dtype=float)


BK = ['1', 'e**(I*k_x)', 'a*e**(-I*k_x)']


@H(cases={f'{c}-{"keys" if k else "nokeys"}': dict(cls=c, keys=k) for c in ('Model', 'BlochModel') for k in (False, True)}, time_limit=40,
   bounds='2 members with arbitrary complex 2x2 coefficients at 3 keys (one absent); every real combination')
def vectors(ctx, cls, keys):
    Q = ctx.Q
    ks_ = BK if cls == 'BlochModel' else KEYS
    A = [ctx.matrix(f'h{i}', 2) for i in range(4)]
    for a in A:
        ctx.assume(Not_zero(ctx, a[0, 0]))
    F = [getattr(Q, cls)({ks_[0]: A[0], ks_[1]: A[1]}, momenta=NAMES[:1]), getattr(Q, cls)({ks_[1]: A[2], ks_[2]: A[3]}, momenta=NAMES[:1])]
    allk = None
    if keys:
        allk = list(F[0].keys()) + [k for k in F[1].keys() if k not in F[0].keys()]
        allk = [allk[i] for i in (2, 0, 1)] + list(Q.BlochModel({'e**(2*I*k_x)': A[0]}, momenta=NAMES[:1]).keys() if cls == 'BlochModel' else Q.Model({'k_x**5': A[0]}, momenta=NAMES[:1]).keys())
    V = Q.linalg.family_to_vectors(F, **({} if allk is None else {'all_keys': allk}))
    V = AR.wrap(AR.as_objarr(V)) if ctx.sym else np.asarray(V)
    n = 4 if keys else 3
    ctx.check(V.shape == (2, 8 * n), 'shape: real and imaginary part of every coefficient')
    if ctx.sym:
        ctx.check(ctx.And(*[to_sym(x).is_real() for x in V.reshape(-1)]), 'real vectors')
    # the vectors determine the functions and the other way round: linear, injective
    c = [ctx.real('c0'), ctx.real('c1')]
    comb = [V[0, j] * c[0] + V[1, j] * c[1] for j in range(8 * n)]
    ks, env = kvals(ctx, 1)
    f = meval(ctx, F[0], env) * c[0] + meval(ctx, F[1], env) * c[1]
    if ctx.sym:
        z1 = ctx.And(*[to_sym(x)._eq(Sym(0)) for x in comb])
        z2 = kzero(ctx, f, ks + [env['a']])
        ctx.check(iff(z1, z2), 'a real combination of vectors vanishes iff that of the members does')
        if keys:
            # ordering as in all_keys
            want = [A[3] * c[1], A[0] * c[0], A[1] * c[0] + A[2] * c[1], A[0] * 0]
            for q, w in enumerate(want):
                got = comb[8 * q:8 * q + 8]
                w = np.asarray(w).reshape(-1)
                ctx.check_eq(AR.wrap(np.array(got, dtype=object)), AR.wrap(np.array([to_sym(x).real for x in w] + [to_sym(x).imag for x in w], dtype=object)), 'block of a key')
    else:
        if keys:
            want = [A[3] * c[1], A[0] * c[0], A[1] * c[0] + A[2] * c[1], A[0] * 0]
            ctx.check_eq(np.array(comb), np.concatenate([np.concatenate([w.ravel().real, w.ravel().imag]) for w in want]), 'block of a key')
        ctx.check(abs(np.linalg.norm(comb) ** 2 - sum(np.linalg.norm(w) ** 2 for w in (A[0] * c[0], A[1] * c[0] + A[2] * c[1], A[3] * c[1]))) < 1e-8,
                  'a real combination of vectors vanishes iff that of the members does')


def same_span(ctx, res, F, W, n0, label, sub=None):
    """res spans the same real space as F (weights W)"""
    ks, env = kvals(ctx, 1)
    if not ctx.sym:
        V = model_vec(list(F) + list(res))
        a, b = V[:len(F)], V[len(F):]
        s = np.linalg.svd(np.array([np.concatenate([v.real, v.imag]) for v in a]), compute_uv=False)
        if np.any((s > 1e-9) & (s < 1e-2)):
            return
        ctx.check(independent(b, 1e-5), label + ': independent')
        for v in a:
            ctx.check(in_span(v, b, 1e-4), label + ': nothing is lost')
        for v in b:
            ctx.check(in_span(v, a, 1e-4), label + ': nothing is added')
        return
    raise AssertionError


PATS = {'2': ['xx0', '0xx'], '2d': ['xx0', 'xx0'], '3': ['x00', 'xx0', '0x0'], '1': ['xxx'], '3d': ['xx0', '0x0', 'x00']}


def lin_indep(ctx, W):
    return None


@H(cases={k: dict(pat=k) for k in PATS}, time_limit=60, max_paths=60, bounds='families of 1-3 members with arbitrary real weights, independent or not')
def duplicates(ctx, pat):
    Q = ctx.Q
    F, W = fam(ctx, 'w', len(PATS[pat]), PATS[pat])
    n0 = len(contracts.calls(ctx)) if ctx.sym else 0
    ks, env = kvals(ctx, 1)
    v0 = [meval(ctx, f, env) for f in F]
    res = Q.hamiltonian_generator.remove_duplicates(F)
    for f, v in zip(F, v0):
        ctx.check_eq(meval(ctx, f, env), v, 'argument unchanged')
    ctx.check(all(type(r) is type(F[0]) and tuple(r.shape) == (2, 2) and tuple(r.momenta) == tuple(F[0].momenta) for r in res), 'type, shape, momenta')
    if not ctx.sym:
        return same_span(ctx, res, F, W, n0, 'span')
    rec = contracts.calls(ctx)[n0:][-1]
    ctx.assume(rec.rows())
    # member coordinates: every returned member is the combination given by a singular vector;
    # nothing is lost: a dual vector that kills all returned members kills the family
    span_eq(ctx, res, F, rec, ks, env)


def span_eq(ctx, res, F, rec, ks, env):
    r = len(rec.nsc)
    ctx.check(len(res) == r, 'as many members as the rank')
    # each family member is a combination of the returned ones
    for i, f in enumerate(F):
        t = zeros(ctx, (2, 2))
        for v, m in zip(rec.nsc, res):
            t = t + meval(ctx, m, env) * to_sym(v[i]).conjugate()
        # f_i - sum_a conj(v_a[i]) res_a must vanish (v_a orthonormal basis of the row span)
        d = t - meval(ctx, f, env)
        # null-space part: A n = 0 for the null vectors
        ctx.check(kzero(ctx, d, ks + [env['a']]), 'every member is a combination of the returned ones')


@H(cases={k: dict(pat=k) for k in PATS}, time_limit=60, max_paths=60, bounds='as above; reduced row echelon form with zeros where possible')
def pretty(ctx, pat):
    Q = ctx.Q
    F, W = fam(ctx, 'w', len(PATS[pat]), PATS[pat])
    from .L05 import oracle
    M = amat(ctx, W)
    want, piv = oracle(ctx, M)
    res = Q.hamiltonian_generator.make_basis_pretty(F, num_digits=6)
    ctx.check(len(res) == len(want), 'as many members as the rank')
    ks, env = kvals(ctx, 1)
    S = sig(ctx)
    if not ctx.sym:
        return same_span(ctx, res, F, W, 0, 'span')
    # nothing is lost, nothing is added: the returned members are the rows of the reduced row echelon form up to
    # a permutation of the coordinates; check the span through the coordinates of the returned members
    G = [coord(ctx, m) for m in res]
    for g in G:
        ctx.check(all(to_sym(x).is_real() for x in g), 'real coefficients')
    inspan(ctx, G, want, piv, 'nothing is added')
    g2, piv2 = oracle(ctx, amat(ctx, G)) if G else ([], [])
    ctx.check(len(g2) == len(want), 'returned members are independent')


def coord(ctx, m):
    """weights of the member in the basis key_j sigma_j"""
    Q = ctx.Q
    S = [1, 2, 3, 0]
    out = []
    d = {str(k): dense(ctx, v) for k, v in m.data.items()}
    ok = True
    for j, k in enumerate(KEYS):
        v = d.pop(k, None)
        s = np.array([[[0, 1], [1, 0]], [[0, -1j], [1j, 0]], [[1, 0], [0, -1]]][j])
        if v is None:
            out.append(Sym(0) if ctx.sym else 0.)
            continue
        if not ctx.sym:
            w = np.trace(v @ s) / 2
            ctx.check(abs(w.imag) < 1e-9 and np.allclose(v, s * w), 'no other matrix appears')
            out.append(w.real)
            continue
        w = AR.np_trace(AR.np_dot(v, const(ctx, s))) * Sym(0.5)
        out.append(to_sym(w))
        ctx.check_eq(v, const(ctx, s) * w, 'no other matrix appears')
    ctx.check(not d, 'no other key appears')
    return out


def inspan(ctx, G, want, piv, label):
    """rows G are in the span of the rref rows `want`"""
    for g in G:
        t = [sum((want[a][j] * g[p] for a, p in enumerate(piv)), Sym(0)) for j in range(len(g))]
        ctx.check_eq(AR.wrap(np.array(t, dtype=object)), AR.wrap(np.array(g, dtype=object)), label)


# family1 has coordinates Q R in an orthonormal frame e (Q: orthonormal columns, R: upper triangular): n1 members that
# span e_0 .. e_{r1 - 1}; family2 spans some of the e's (a subfamily or orthogonal), or directions between them (rejected)
SUB = {'in': (2, 2, '1'), 'all': (2, 2, '01'), 'orth': (2, 2, '2'), 'mix': (2, 2, '12'), 'dup': (2, 2, '11'), 'dep': (3, 2, '1'), 'dep-orth': (3, 2, '2'),
       'three': (3, 3, '2'), 'three2': (3, 3, '12'), 'one': (1, 1, '0'), 'one-orth': (1, 1, '12'), 'one-bad': (1, 1, 'a'), 'one-foreign': (1, 1, 'b'),
       'bad': (2, 2, 'b'), 'bad2': (2, 2, '0c'), 'mix2': (2, 2, 'cc'), 'mix3': (2, 2, '1c')}
DIR = {'a': (0, 1), 'b': (0, 2), 'c': (1, 2)}


def orth_rows(ctx, name, n):
    if n == 1:
        return ctx.arr(np.array([[(1, -1)[ctx.choose(name, 2)]]], dtype=object))
    return ctx.orthogonal(name, n, det=1)


def member(ctx, co):
    """model with the given weights of key_j sigma_j (None: absent)"""
    S = sig(ctx)
    return ctx.Q.Model({k: S[[1, 2, 3][j]] * x for j, (k, x) in enumerate(zip(KEYS, co)) if x is not None}, momenta=NAMES[:1])


@H(cases={f'{k}-{t}' if t else k: dict(pat=k, turn=t) for k in SUB for t in ('', 'turn') if not (t and k in ('three', 'three2', 'dep', 'bad2'))}, time_limit=40, max_paths=60,
   bounds='families of 1-3 members, independent or not, with arbitrary weights in an arbitrary plane of the coefficient space; the second family inside the span of the first, orthogonal to it, both, or neither (rejected)')
def subtract(ctx, pat, turn):
    n1, r1, f2 = SUB[pat]
    z, one = (Sym(0), Sym(1)) if ctx.sym else (0., 1.)
    # orthonormal frame of the coefficients of key_j sigma_j
    E = [[one if i == j else z for j in range(3)] for i in range(3)]
    mixed = [set(), set()]
    if turn:
        a, b = [(0, 1), (0, 2), (1, 2)][ctx.choose('plane', 3)]
        U = ctx.orthogonal('U', 2, det=1)
        for i, p in enumerate((a, b)):
            for j, q in enumerate((a, b)):
                E[p][q] = U[i, j]
    supp = [{j for j in range(3) if not (E[i][j] is z)} for i in range(3)]

    def comb(cs):
        """combination of the frame vectors; coordinates that no vector has are absent"""
        s = set().union(*[supp[i] for i, c in enumerate(cs) if c is not z]) if any(c is not z for c in cs) else set()
        return [sum((E[i][j] * c for i, c in enumerate(cs) if c is not z), z) if j in s else None for j in range(3)]
    Qm = orth_rows(ctx, 'Q', n1)[:, :r1]
    R = [[z] * r1 for _ in range(r1)]
    for i in range(r1):
        for j in range(i, r1):
            R[i][j] = ctx.real(f'r{i}{j}', 0.25 if i == j else -2, 2)
    C1 = [[sum((Qm[i, k] * R[k][j] for k in range(j + 1)), z) for j in range(r1)] + [z] * (3 - r1) for i in range(n1)]
    for c in C1:
        # no member vanishes
        ctx.assume(ctx.Or(*[Not_zero(ctx, x) for x in c if x is not z]) if ctx.sym else max(abs(x) for x in c) > 1e-3)
    F1 = [member(ctx, comb(c)) for c in C1]
    C2, bad = [], False
    for n, d in enumerate(f2):
        w = ctx.real(f'w{n}', -2, 2)
        ctx.assume(Sym(1 / 16)._le(w * w) if ctx.sym else w * w > 1 / 16.1)
        c = [z, z, z]
        if d.isdigit():
            c[int(d)] = w
        else:
            bad = True
            t = ctx.orthogonal(f'T{n}', 2, det=1)
            for q in (0, 1):
                ctx.assume(Sym(1 / 64)._le(t[0, q] * t[0, q]) if ctx.sym else abs(t[0, q]) > 0.12)
            for q, x in zip(DIR[d], t[0]):
                c[q] = x * w
        C2.append(c)
    if pat in ('mix2', 'mix3'):
        # two directions between e_1 and e_2: their span is that of e_1 and e_2
        bad = False
        d = C2[0][1] * C2[1][2] - C2[0][2] * C2[1][1]
        ctx.assume(Sym(1 / 64)._le(d * d) if ctx.sym else abs(d) > 0.12)
    F2 = [member(ctx, comb(c)) for c in C2]
    s2 = {1, 2} if pat in ('mix2', 'mix3') else {int(d) for d in f2 if d.isdigit()}
    keep = [i for i in range(r1) if i not in s2]
    if ctx.sym:
        hints(ctx, E, C2, s2, bad, r1, Qm, R, C1, keep)
    try:
        res = ctx.Q.hamiltonian_generator.subtract_family(F1, F2)
    except ValueError:
        ctx.check(bad, 'rejected although the projection is a subfamily')
        return
    ctx.check(not bad, 'accepted although the projection is not a subfamily')
    ctx.check(len(res) == len(keep), 'as many members as dimensions remain')
    G = []
    for m in res:
        g = coord(ctx, m)
        e = [sum((g[j] * x for j, x in enumerate(E[i])), z) for i in range(3)]
        for i in range(r1, 3):
            ctx.check_eq(e[i], z, 'result is a subfamily')
        G.append([e[i] for i in keep])
    if len(G) == 1:
        ctx.check(Not_zero(ctx, G[0][0]) if ctx.sym else abs(G[0][0]) > 1e-6, 'independent of family2')
    elif G:
        d = G[0][0] * G[1][1] - G[0][1] * G[1][0]
        ctx.check(Not_zero(ctx, d) if ctx.sym else abs(d) > 1e-6, 'independent of family2 and of each other')


def hints(ctx, E, C2, s2, bad, r1, Qm, R, C1, keep):
    """orthonormal bases of the row spaces that occur, for every order of the keys"""
    import itertools
    sg = [np.array(m, dtype=complex).reshape(-1) / np.sqrt(2) for m in ([[0, 1], [1, 0]], [[0, -1j], [1j, 0]], [[1, 0], [0, -1]])]

    def rows(vs, keys):
        out = []
        for v in vs:
            w = [to_sym(sum((E[i][j] * x for i, x in enumerate(v)), Sym(0))) for j in range(3)]
            r = []
            for j in keys:
                r += [w[j] * Sym(float(x)) for x in np.concatenate([sg[j].real, sg[j].imag])]
            out.append(r)
        return AR.wrap(np.array(out, dtype=object).reshape(len(vs), 8 * len(keys)))
    e = [[Sym(float(i == j)) for j in range(3)] for i in range(3)]
    used = {j for i in set(range(r1)) | {i for c in C2 for i, x in enumerate(c) if not (to_sym(x)._eq(Sym(0)) is True)} for j in range(3) if not (to_sym(E[i][j])._eq(Sym(0)) is True)}
    for keys in itertools.permutations(sorted(used)):
        ctx.hint('rows', rows(e[:r1], keys))
        if not bad:
            ctx.hint('rows', rows([e[i] for i in sorted(s2)], keys))
        else:
            c = C2[-1]
            w = ctx.real(f'w{len(C2) - 1}')
            ctx.hint('rows', rows([e[i] for i in sorted(s2)] + [[x if to_sym(x)._eq(Sym(0)) is True else x / w for x in c]], keys))
    # columns of the projected coordinates
    ctx.hint('rows', Qm[:, :len(keep)].T)
    ctx.hint('rows', Qm.T)


@H(bounds='empty families')
def empties(ctx):
    Q = ctx.Q
    G = Q.hamiltonian_generator
    F, W = fam(ctx, 'w', 1, ['xx0'])
    ctx.check(G.remove_duplicates([]) == [] and G.make_basis_pretty([]) == [], 'empty family')
    ctx.check(G.subtract_family(F, []) == F and G.subtract_family([], F) == [], 'nothing to subtract')
    V = Q.linalg.family_to_vectors([Q.Model({}, shape=(2, 2)), Q.Model({}, shape=(2, 2))])
    ctx.check(tuple(V.shape) == (2, 0), 'zero members')
