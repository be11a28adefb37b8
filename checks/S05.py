"""bravais_point_group: the point group of a Bravais lattice."""
import itertools
import math
from se.runner import Registry
from se import contracts
from .common import *

H = Registry()
STUBS = ['lll and voronoi (vendored from Kwant) return the transformation and the integer Voronoi vectors that the real code returns for the centre of the '
         'parameter box; the harness proves that these are the Voronoi vectors everywhere in the box']
ASSUMPTIONS = ['comparisons with tolerances up to 1e-5 are exact']
OUTSIDE = 'lattices outside the parameter boxes; the numerical error of lll and voronoi'
R3 = math.sqrt(3)


def _diag(*x):
    return [[x[i] if i == j else 0 for j in range(len(x))] for i in range(len(x))]


def _cent(M, kind):
    """basis of the lattice with conventional vectors M and centring"""
    M = [list(r) for r in M]

    def half(*rows):
        return [sum((r[j] for r in rows), 0) * 0.5 for j in range(3)]
    return {'P': lambda: M, 'I': lambda: [M[0], M[1], half(*M)], 'C': lambda: [M[0], half(M[0], M[1]), M[2]],
            'F': lambda: [half(M[0], M[1]), half(M[0], M[2]), half(M[1], M[2])]}[kind]()


def _hex(a, c):
    return [[a, 0, 0], [a * -0.5, a * (R3 / 2), 0], [0, 0, c]]


def _rhomb(a, c):
    return [[a, 0, c], [a * -0.5, a * (R3 / 2), c], [a * -0.5, a * (-R3 / 2), c]]


def _mono(a, b, c, d):
    return [[a, 0, 0], [0, b, 0], [d, 0, c]]


S = (0.5, 2)
# name: (order, boxes, basis); lattices with several parameters are scaled to a = 1
LAT = {
    '1d': (2, [S], lambda a: [[a]]),
    'oblique': (2, [(1.3, 1.5), (0.1, 0.3)], lambda b, d: [[1, 0], [d, b]]),
    'rect': (4, [(1.3, 1.6)], lambda b: _diag(1, b)),
    'square': (8, [S], lambda a: _diag(a, a)),
    'crect-flat': (4, [(0.6, 0.7)], lambda b: [[1, b], [1, b * -1]]),
    'crect-tall': (4, [(1.9, 2.5)], lambda b: [[1, b], [-1, b]]),
    'crect-first': (4, [S], lambda a: [[a, 0], [a * 0.28, a * 0.96]]),
    'hex2': (12, [S], lambda a: [[a, 0], [a * -0.5, a * (R3 / 2)]]),
    'cP': (48, [S], lambda a: _diag(a, a, a)),
    'cI': (48, [S], lambda a: _cent(_diag(a, a, a), 'I')),
    'cF': (48, [S], lambda a: _cent(_diag(a, a, a), 'F')),
    'tP-long': (16, [(1.3, 1.6)], lambda c: _diag(1, 1, c)),
    'tP-flat': (16, [(0.5, 0.7)], lambda c: _diag(1, 1, c)),
    'tI-long': (16, [(1.7, 2)], lambda c: _cent(_diag(1, 1, c), 'I')),
    'tI-mid': (16, [(1.15, 1.25)], lambda c: _cent(_diag(1, 1, c), 'I')),
    'tI-flat': (16, [(0.5, 0.7)], lambda c: _cent(_diag(1, 1, c), 'I')),
    'oP': (8, [(1.3, 1.4), (1.7, 1.8)], lambda b, c: _diag(1, b, c)),
    'oC': (8, [(1.3, 1.4), (1.75, 1.85)], lambda b, c: _cent(_diag(1, b, c), 'C')),
    'oC-short': (8, [(1.3, 1.4), (0.4, 0.45)], lambda b, c: _cent(_diag(1, b, c), 'C')),
    'oI': (8, [(1.2, 1.22), (1.35, 1.37)], lambda b, c: _cent(_diag(1, b, c), 'I')),
    'oI-long': (8, [(1.2, 1.25), (2.3, 2.4)], lambda b, c: _cent(_diag(1, b, c), 'I')),
    'oF': (8, [(1.2, 1.22), (1.35, 1.37)], lambda b, c: _cent(_diag(1, b, c), 'F')),
    'oF-long': (8, [(1.2, 1.25), (2.3, 2.4)], lambda b, c: _cent(_diag(1, b, c), 'F')),
    'hP-long': (24, [(1.3, 1.6)], lambda c: _hex(1, c)),
    'hP-flat': (24, [(0.4, 0.6)], lambda c: _hex(1, c)),
    'hP-equal': (24, [S], lambda a: _hex(a, a)),
    'oC-equal': (8, [S], lambda a: [[a, a * (1 / 3), 0], [a, a * (-1 / 3), 0], [0, 0, a * (math.sqrt(10) / 3)]]),
    'hR-long': (12, [(1.1, 1.3)], lambda c: _rhomb(1, c)),
    'hR-mid': (12, [(0.5, 0.6)], lambda c: _rhomb(1, c)),
    'hR-flat': (12, [(0.2, 0.25)], lambda c: _rhomb(1, c)),
    'mP': (4, [(1.3, 1.32), (1.65, 1.67), (0.25, 0.27)], lambda *x: _mono(1, *x)),
    'mP2': (4, [(0.55, 0.57), (1.65, 1.67), (0.25, 0.27)], lambda *x: _mono(1, *x)),
    'mC': (4, [(1.3, 1.32), (1.65, 1.67), (0.25, 0.27)], lambda *x: _cent(_mono(1, *x), 'C')),
    'mC-flat': (4, [(0.53, 0.54), (0.41, 0.42), (0.17, 0.18)], lambda *x: _cent(_mono(1, *x), 'C')),
    'aP': (2, [(0.15, 0.17), (0.35, 0.37)], lambda d, f: [[1, 0, 0], [d, 1.2, 0], [0.27, f, 1.43]]),
    'aP-right': (2, [(0.25, 0.27), (0.35, 0.37)], lambda d, f: [[1, 0, 0], [d, 1.2, 0], [0, f, 1.43]]),
}
ROT = {2: [[0.6, 0.8], [-0.8, 0.6]], 3: [[0.6, 0.64, 0.48], [-0.8, 0.48, 0.36], [0, -0.6, 0.8]]}


def cosets(n):
    return [c for c in itertools.product((0, 1), repeat=n) if any(c)]


def vectors(G):
    """sample Gram matrix -> [(coset, minimal vectors up to sign, others)]"""
    n = len(G)
    out = []
    for c in cosets(n):
        ws = [w for w in itertools.product(range(-3, 4), repeat=n) if all((x - y) % 2 == 0 for x, y in zip(w, c))]
        ws = [w for w in ws if next(x for x in w if x) > 0]
        q = {w: float(np.array(w) @ G @ np.array(w)) for w in ws}
        m = min(q.values())
        mins = [w for w in ws if q[w] < m + 1e-9]
        others = sorted((w for w in ws if q[w] >= m + 1e-9), key=lambda w: q[w])[:12]
        out.append((c, mins, others))
    return out


def isometries(G, vs, differ):
    """integer matrices N (rows: images of the basis) with N G N^T = G; an isometry permutes the Voronoi vectors.
    differ(v, w, a, b): v.w has to be different from a.b"""
    n = len(G)
    V = [np.array(x) * s for x in sorted(vs) for s in (1, -1)]
    e = next(list(c) for c in itertools.combinations(V[::2], n) if abs(round(np.linalg.det(np.array(c)))) == 1)
    inv = np.rint(np.linalg.inv(np.array(e))).astype(int)
    out = []

    def go(rows):
        i = len(rows)
        if i == n:
            out.append(inv @ np.array(rows))
            return
        for v in V:
            bad = next((j for j in range(i, -1, -1) if abs(v @ G @ (rows[j] if j < i else v) - e[i] @ G @ e[j]) > 1e-9), None)
            if bad is None:
                go(rows + [v])
            else:
                differ(tuple(v), tuple(rows[bad] if bad < i else v), tuple(e[i]), tuple(e[bad]))
    go([])
    return out


def form(ctx, G, v, w):
    return sum((G[i][j] * (v[i] * w[j]) for i in range(len(v)) for j in range(len(w)) if v[i] and w[j]), Sym(0) if ctx.sym else 0.0)


def order(mats):
    """order of the group generated by integer matrices"""
    n = len(mats[0])
    els = {tuple(np.eye(n, dtype=int).reshape(-1))}
    todo = list(els)
    while todo:
        x = np.array(todo.pop()).reshape(n, n)
        for m in mats:
            y = tuple((x @ m).reshape(-1))
            if y not in els:
                els.add(y)
                todo.append(y)
                assert len(els) < 100
    return len(els)


def lattice(ctx, name, frame):
    n, boxes, f = LAT[name]
    par = [ctx.real(f'p{i}', lo, hi) for i, (lo, hi) in enumerate(boxes)]
    ctx.box({f'p{i}': b for i, b in enumerate(boxes)})
    mid = [(lo + hi) / 2 for lo, hi in boxes]
    dim = len(f(*mid))
    O = np.array(ROT.get(dim, [[1.]]) if frame else np.eye(dim), dtype=float)
    B0 = np.array(f(*mid), dtype=float) @ O
    B = f(*par)
    if ctx.sym:
        B = AR.np_dot(AR.wrap(np.array([[to_sym(x) for x in r] for r in B], dtype=object)), const(ctx, O))
    else:
        B = np.array(B, dtype=float) @ O
    return n, B, B0


class Stub:
    """lll and voronoi with the integer results that the real functions give at the sample"""
    def __init__(self, ctx, B0, flip):
        self.ctx, self.B0, self.flip = ctx, B0, flip
        self.SF = ctx.Q.symmetry_finder

    def __enter__(self):
        if not self.ctx.sym:
            return self
        from qsymm.kwant_linalg_lll import lll, voronoi
        red, _ = lll(self.B0)
        self.T = np.rint(red @ np.linalg.inv(self.B0)).astype(int)
        V = voronoi(red, reduced=True, rtol=1e-5)
        n = len(V) // 2
        V = V[:n]
        if self.flip:
            # any order and any signs
            V = V[::-1] * np.array([(-1)**i for i in range(n)])[:, None]
        self.V = np.concatenate([V, -V])
        self.old = self.SF.lll, self.SF.voronoi
        self.SF.lll = lambda p, *a, **k: (AR.np_dot(const(self.ctx, self.T), p), self.T)
        self.SF.voronoi = lambda p, *a, **k: self.V
        return self

    def __exit__(self, *a):
        if self.ctx.sym:
            self.SF.lll, self.SF.voronoi = self.old


def cell(ctx, B, B0, V):
    """the Voronoi vectors of the sample are those of every lattice in the box; no accidental symmetries -> isometries"""
    n = len(B0)
    G0 = B0 @ B0.T
    G = AR.np_dot(B, B.T) if ctx.sym else B @ B.T
    rel = set()
    for c, mins, others in vectors(G0):
        if len(mins) == 1:
            rel.add(mins[0])
        q = form(ctx, G, mins[0], mins[0])
        for w in mins[1:]:
            ctx.check_eq(form(ctx, G, w, w), q, 'box: the same minimal vectors')
        gap = [form(ctx, G, w, w) - q for w in others]
        ctx.check(ctx.And(*[Sym(1e-3)._lt(g) for g in gap]) if ctx.sym else all(g > 1e-4 for g in gap), 'box: the same minimal vectors')
    if ctx.sym:
        got = {max(tuple(v), tuple(-v)) for v in np.asarray(V)}
        ctx.check(got == rel, 'voronoi stub')
    bad, G0 = set(), B0 @ B0.T

    def differ(v, w, a, b):
        bad.add((min((v, w), (w, v)), (min((a, b), (b, a)))))
    N = isometries(G0, rel, differ)
    for (v, w), (a, b) in sorted(bad):
        d = form(ctx, G, v, w) - form(ctx, G, a, b)
        s = 1 if (np.array(v) @ G0 @ np.array(w)) > (np.array(a) @ G0 @ np.array(b)) else -1
        ctx.check(Sym(1e-3)._lt(d * s) if ctx.sym else d * s > 1e-4, 'box: no accidental symmetry')
    for m in N:
        for i in range(n):
            for j in range(i + 1):
                ctx.check_eq(form(ctx, G, m[i], m[j]), G[i, j], 'box: the symmetries of the centre')
    return N


def action(ctx, R, B, N):
    """the isometry of the lattice that R is: index in N or None"""
    n = len(B)
    if ctx.sym:
        X = AR.np_dot(B, R.T)
        env = ctx._witness()
        num = lambda M: np.array([[complex(contracts._ev(to_sym(x), env)) for x in r] for r in M]).real
        x, b = num(X), num(B)
    else:
        x, b = B @ R.T, B
    m = np.rint(x @ np.linalg.inv(b)).astype(int)
    ctx.check_eq(X if ctx.sym else x, AR.np_dot(const(ctx, m), B) if ctx.sym else m @ b, 'maps the lattice to itself')
    ctx.check(any(np.array_equal(m, k) for k in N), 'isometry')
    return m


@H(cases={k + ('-rot' if f else ''): dict(name=k, frame=f, flip=f) for k in LAT for f in ('', 'rot')}, time_limit=150, max_paths=60,
   bounds='the 14 Bravais lattices (and those of 1 and 2 dimensions) with lattice parameters in boxes, in two orientations')
def group(ctx, name, frame, flip):
    ctx.exact_tol()
    n, B, B0 = lattice(ctx, name, frame)
    dim = len(B0)
    with Stub(ctx, B0, flip) as st:
        gens = ctx.Q.symmetry_finder.bravais_point_group(B, generators=True)
    N = isometry_group(ctx, n, B, B0, st)
    Ms = []
    for g in gens:
        ctx.check(not g.conjugate and not g.antisymmetry, 'a point group element')
        Ms.append(action(ctx, element(ctx, g, dim), B, N))
    ctx.check(order(Ms) == n, 'all symmetries of the lattice')


def isometry_group(ctx, n, B, B0, st):
    V = AR.np_dot(st.V, st.T) if ctx.sym else None
    N = cell(ctx, B, B0, None if V is None else np.array([[int(to_sym(x).cval().real) for x in r] for r in V]))
    ctx.check(len(N) == n, 'order of the holohedry')
    return N


def element(ctx, g, dim):
    R = ctx.arr(plain(ctx, g.R))
    ctx.check(R.shape == (dim, dim) and g.U is None, 'a point group element')
    ctx.check_eq(R @ R.T, eye(ctx, dim), 'orthogonal')
    return R


@H(cases={f'{k}-{t}{p}{"e" if e > 0 else "n" if e else ""}': dict(name=k, tr=t, ph=p, emb=e) for k, t, p, e in [
    ('1d', 0, 0, 2), ('1d', 1, 1, 0), ('oblique', 0, 0, 3), ('oblique', 1, 0, 0), ('rect', 0, 1, 0), ('rect', 0, 0, 3), ('square', 0, 0, 3), ('crect-tall', 1, 0, 0),
    ('square', 1, 1, 0), ('hex2', 0, 0, 3), ('crect-first', 0, 0, 3), ('crect-first', 0, 0, -3), ('oP', 0, 0, 0), ('mP', 1, 0, 0), ('oF', 0, 0, 0), ('hP-long', 0, 0, 0), ('tI-mid', 0, 0, 0), ('cF', 0, 0, 0)]},
   time_limit=150, max_paths=60, bounds='full groups with time reversal and particle-hole; planar lattices in three dimensions')
def full(ctx, name, tr, ph, emb):
    ctx.exact_tol()
    n, B, B0 = lattice(ctx, name, '')
    dim = len(B0)
    periods = B
    if emb:
        E = np.array(ROT[abs(emb)])[:dim]
        if emb < 0:
            E = E * ([-1.] + [1.] * (len(E.T) - 1))
        periods = AR.np_dot(B, const(ctx, E)) if ctx.sym else B @ E
        if ctx.sym:
            # any signs
            S = np.diag([1. - 2. * ctx.choose(f's{i}', 2) for i in range(dim)])
            ctx.hint('qr', periods.T, (const(ctx, E.T @ S), AR.np_dot(const(ctx, S), B.T)))
    with Stub(ctx, B0, '') as st:
        G = ctx.Q.symmetry_finder.bravais_point_group(periods, **{k: True for k, v in (('tr', tr), ('ph', ph)) if v})
    N = isometry_group(ctx, n, B, B0, st)
    got = []
    for g in G:
        m = action(ctx, element(ctx, g, dim), B, N)
        got.append((tuple(m.reshape(-1)), bool(g.conjugate), bool(g.antisymmetry)))
    nonsp = {(False, False)} | ({(True, False)} if tr else set()) | ({(True, True)} if ph else set()) | ({(False, True)} if tr and ph else set())
    ctx.check(len(got) == len(set(got)), 'each element once')
    ctx.check({x[1:] for x in got} == nonsp, 'time reversal and particle-hole if asked for')
    ctx.check(len(got) == n * len(nonsp), 'the whole group')


@H(cases={'4d': {}}, bounds='4 periods')
def dimension(ctx):
    a = ctx.real('a', 0.5, 2)
    B = np.diag([1., 1., 1., 1.]).astype(object if ctx.sym else float)
    B[0, 0] = a
    with Stub(ctx, np.eye(4), ''):
        try:
            ctx.Q.symmetry_finder.bravais_point_group(AR.wrap(B) if ctx.sym else B)
        except NotImplementedError:
            return
    ctx.check(False, 'NotImplementedError in four dimensions')
