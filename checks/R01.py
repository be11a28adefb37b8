"""kwant_rmt.gaussian: random Hamiltonians of the ten symmetry classes."""
from se.runner import Registry
from .common import *

H = Registry()
STUBS = ['random number generator: an object whose normal draws are symbolic real numbers']
ASSUMPTIONS = ['draws are independent standard normal numbers']
OUTSIDE = 'n > 8; quality of the random numbers'

# antiunitary / chiral operators of the documentation, last index is tau
sx, sy, sz, s0 = np.array([[0, 1], [1, 0]]), np.array([[0, -1j], [1j, 0]]), np.diag([1, -1]), np.eye(2)
TR = {'AI': [[1]], 'BDI': sz, 'CI': sx, 'AII': sy, 'CII': np.kron(sy, s0), 'DIII': sy}
PH = {'C': sy, 'CI': sy, 'CII': np.kron(sy, sz), 'D': [[1]], 'BDI': [[1]], 'DIII': sx}
CH = ('AIII', 'BDI', 'CII', 'CI', 'DIII')
SYMS = ('A', 'AI', 'AII', 'AIII', 'BDI', 'CII', 'D', 'DIII', 'C', 'CI')


class Rng:
    """numpy.random.RandomState look-alike"""

    def __init__(self, ctx, bits=None):
        self.ctx, self.n, self.draws, self.bits = ctx, 0, [], bits

    def randn(self, *shape):
        size = int(np.prod(shape, dtype=int))
        xs = []
        for _ in range(size):
            xs.append(self.ctx.real(f'g{self.n}'))
            self.n += 1
        self.draws += xs
        if not shape:
            return xs[0]
        a = np.empty(size, dtype=object if self.ctx.sym else float)
        a[:] = xs
        return self.ctx.arr(a.reshape(shape))

    def standard_normal(self, size=None):
        return self.randn(*(() if size is None else size if isinstance(size, tuple) else (size,)))

    def randint(self, low, high=None, size=None):
        lo, hi = (0, low) if high is None else (low, high)
        shape = () if size is None else size if isinstance(size, tuple) else (size,)
        out = []
        for _ in range(int(np.prod(shape, dtype=int))):
            out.append(lo + self.ctx.choose(f'b{self.n}', hi - lo))
            self.n += 1
        return np.array(out, dtype=int).reshape(shape) if shape else out[0]

    def choice(self, a, size=None):
        a = np.arange(a) if np.ndim(a) == 0 else np.asarray(a)
        return a[self.randint(len(a), size=size)]

    def random_sample(self, *a, **k):
        raise NotImplementedError


def big(m, n):
    m = np.array(m)
    return np.kron(np.eye(n // len(m)), m)


def conj(ctx, a):
    return dag(ctx, a).T


def relations(ctx, h, sym, n):
    ctx.check(np.ndim(h) == 2 and h.shape == (n, n), 'shape')
    ctx.check_eq(h, dag(ctx, h), 'Hermitian')
    for name, table, s in (('time reversal', TR, 1), ('particle-hole', PH, -1)):
        if sym in table:
            U = const(ctx, big(table[sym], n))
            ctx.check_eq(U @ conj(ctx, h) @ dag(ctx, U), h * s, name)
    if sym in CH:
        U = const(ctx, big(sz, n))
        ctx.check_eq(U @ h @ U, h * (-1), 'chiral')


def sizes(sym, top):
    step = 4 if sym == 'CII' else 1 if sym in ('A', 'D', 'AI') else 2
    return [n for n in (1, 2, 3, 4, 6, 8) if n % step == 0 and n <= top]


@H(cases={f'{s}-{n}': dict(sym=s, n=n) for s in SYMS for n in sizes(s, 8)},
   bounds='every draw and v; n up to 8')
def symmetries(ctx, sym, n):
    v = ctx.real('v')
    h = ctx.Q.gaussian(n, sym, v=v, rng=Rng(ctx))
    relations(ctx, h, sym, n)


@H(cases={s: dict(sym=s) for s in SYMS}, bounds='n = 4')
def numpy_integers(ctx, sym):
    """the size may be a numpy integer"""
    h = ctx.Q.gaussian(np.int64(4), sym, rng=Rng(ctx))
    relations(ctx, h, sym, 4)


def general(ctx, sym, n):
    """arbitrary Hermitian matrix with the documented symmetries: average of any Hermitian matrix over the group"""
    X = herm(ctx, 'x', n)
    if sym in CH:
        U = const(ctx, big(sz, n))
        X = X - U @ X @ U
    for table, s in ((TR, 1), (PH, -1)):
        if sym in table:
            U = const(ctx, big(table[sym], n))
            X = X + s * (U @ conj(ctx, X) @ dag(ctx, U))
    return X


@H(cases={f'{s}-{n}': dict(sym=s, n=n) for s in SYMS for n in sizes(s, 4)},
   bounds='every Hermitian X with the symmetries, every v; n up to 4')
def isotropic(ctx, sym, n):
    """the variance of Tr(X H) is 2 v^2 Tr(X^2) (4 with a quaternionic structure), v is the deviation of an off-diagonal component: every matrix element allowed by the symmetries is drawn, with equal weight"""
    v = ctx.real('v')

    def tr(a, b):
        return sum(a[i, j] * b[j, i] for i in range(n) for j in range(n))

    X = general(ctx, sym, n)
    rng = Unit(ctx)
    h = ctx.Q.gaussian(n, sym, v=v, rng=rng)
    N = rng.n
    ctx.check_eq(tr(X, h), tr(X, h) * 0, 'no draw, no Hamiltonian')
    var = tr(X, X) * 0
    for i in range(N):
        h = ctx.Q.gaussian(n, sym, v=v, rng=Unit(ctx, i))
        t = tr(X, h)
        var = var + t * t
    # an off-diagonal component appears twice in Tr(X H), four times with a quaternionic structure
    q = 4 if sym in ('AII', 'CII', 'DIII', 'C', 'CI') else 2
    ctx.check_eq(var, q * v * v * tr(X, X), 'variance of Tr(X H)')


class Unit(Rng):
    """draw number i is one, the others are zero"""

    def __init__(self, ctx, i=None):
        super().__init__(ctx)
        self.i = i

    def randn(self, *shape):
        size = int(np.prod(shape, dtype=int))
        a = np.zeros(size)
        for j in range(size):
            a[j] = float(self.n == self.i)
            self.n += 1
        return self.ctx.arr(a.reshape(shape)) if shape else a[0]


@H(cases={f'{s}-{n}': dict(sym=s, n=n) for s in ('A', 'BDI', 'CII', 'CI') for n in sizes(s, 4)[-1:]},
   bounds='every pair of draws, every linear combination')
def linear(ctx, sym, n):
    """H is a linear function of the draws"""
    v, w, a = ctx.real('v'), ctx.real('w'), ctx.real('a')

    class Two(Rng):
        def __init__(self, ctx, c):
            super().__init__(ctx)
            self.c = c

        def randn(self, *shape):
            k = self.n
            x = [ctx.real(f'p{k + i}') * self.c[0] + ctx.real(f'q{k + i}') * self.c[1] for i in range(int(np.prod(shape)))]
            self.n += len(x)
            out = np.empty(len(x), dtype=object if ctx.sym else float)
            out[:] = x
            return ctx.arr(out.reshape(shape))

    def f(c, v):
        return ctx.Q.gaussian(n, sym, v=v, rng=Two(ctx, c))
    ctx.check_eq(f((1, a), v), f((1, 0), v) + a * f((0, 1), v), 'linear in the draws')
    ctx.check_eq(f((1, 1), v * w), w * f((1, 1), v), 'linear in v')


@H(bounds='n up to 6')
def errors(ctx):
    for s in SYMS:
        for n in range(1, 7):
            if n not in sizes(s, 6) and not (n == 5 and s in ('A', 'D', 'AI')):
                ctx.check(raises(lambda: ctx.Q.gaussian(n, s, rng=Rng(ctx)), ValueError), f'{s} {n}')
    ctx.check(raises(lambda: ctx.Q.gaussian(2, 'E', rng=Rng(ctx)), ValueError), 'unknown class')
    ctx.check(raises(lambda: ctx.Q.gaussian(2, 'A', rng='x'), ValueError), 'not a generator')
    for f in ('t', 'p', 'c'):
        ctx.check(raises(lambda: getattr(ctx.Q.kwant_rmt, f)('E'), ValueError), f + ' of unknown class')


@H(cases={s: dict(sym=s) for s in SYMS}, bounds='all classes')
def squares(ctx, sym):
    """t, p, c: squares of the documented operators"""
    def sq(table):
        if sym not in table:
            return 0
        U = np.array(table[sym])
        return int(np.real((U @ U.conj())[0, 0]))
    ctx.check(ctx.Q.kwant_rmt.t(sym) == sq(TR), 't')
    ctx.check(ctx.Q.kwant_rmt.p(sym) == sq(PH), 'p')
    ctx.check(ctx.Q.kwant_rmt.c(sym) == (1 if sym in CH else 0), 'c')
    K = ctx.Q.kwant_rmt
    ctx.check(set(K.h_t_matrix) == set(TR) and set(K.h_p_matrix) == set(PH), 'tables have the right classes')
    for tab, mine in ((K.h_t_matrix, TR), (K.h_p_matrix, PH)):
        if sym in tab:
            a, b = np.array(tab[sym]), np.array(mine[sym])
            ctx.check(a.shape == b.shape and np.allclose(a @ a.conj(), b @ b.conj()) and np.allclose(abs(a), abs(b)), 'tables agree with the documentation')
            M = herm(ctx, 'm', len(a))
            ctx.check_eq(const(ctx, a) @ M @ dag(ctx, const(ctx, a)), const(ctx, b) @ M @ dag(ctx, const(ctx, b)), 'same action')


@H(bounds='any seed object')
def same_draws(ctx):
    """the generator that is passed in is the only source of randomness"""
    for s in SYMS:
        n = 4
        ctx.check_eq(ctx.Q.gaussian(n, s, rng=Rng(ctx)), ctx.Q.gaussian(n, s, rng=Rng(ctx)), s)
