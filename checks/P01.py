"""Printed names of symmetries: the text is decoded and compared with the symmetry."""
import itertools
import math
import re
from se import sym as S
from se.runner import Registry
from .common import *

H = Registry()
STUBS = ['fractions.Fraction of a symbolic number: the number itself, with denominator 1',
         'numpy.arctan2: the angle defined by its sine and cosine, in (-pi, pi]',
         'numpy.round to d > 0 digits: any value within half a unit of the last digit',
         'scipy.linalg.eigh: any orthonormal basis of eigenvectors',
         'printing of symbolic numbers: numbered tokens, looked up when the text is decoded']
ASSUMPTIONS = ['closeness tests (np.allclose / np.isclose) are taken as exact equality in symbolic runs']
OUTSIDE = 'layout and spacing of the text; how matrices with more than 2 x 2 entries are printed'

ANGLES = [(0, 1), (1, 1), (1, 2), (-1, 2), (2, 3), (1, 3), (-1, 6), (3, 4), (2, 5), (-5, 7), (1, 50), (98, 99)]
AXES = [v for v in itertools.product([-1, 0, 1], repeat=3) if any(v)]
NUM = r'[-+]?(?:\d+\.?\d*|\.\d+)(?:e[-+]?\d+)?'
TOK = r'-?§\d+§'
TOL = {True: 1e-3, False: .017}      # angles: exact, or rounded to a fraction with denominator up to 100


# ------------------------------------------------------------- reading text
class Text:
    """context: collects the symbolic values that are printed"""

    def __init__(self, ctx):
        self.ctx = ctx

    def __enter__(self):
        if self.ctx.sym:
            S.TOKENS = self.tok = []
        return self

    def __exit__(self, *a):
        if self.ctx.sym:
            S.TOKENS = None

    def value(self, s):
        """real or complex number"""
        s = s.strip()
        m = re.fullmatch(r'(-?)§(\d+)§', s)
        if m:
            v = self.tok[int(m.group(2))]
            return -v if m.group(1) else v
        s = s.replace(' ', '').strip('()')
        return complex(s) if 'j' in s else float(s)

    def numbers(self, s, cplx=False):
        pat = rf'{TOK}|\({NUM}\s*[-+]\s*{NUM}j\)|{NUM}\s*[-+]\s*{NUM}j|{NUM}j|{NUM}' if cplx else rf'{TOK}|{NUM}'
        rest = re.sub(pat, '', s)
        if re.search(r'[^\s\[\]]', rest):
            raise ValueError('not a list of numbers: ' + s)
        return [self.value(x) for x in re.findall(pat, s)]

    def angle(self, s):
        """angle in units of pi"""
        s = s.strip()
        m = re.fullmatch(r'(-?)\\frac\{(.*)\\pi\}\{(.*)\}', s)
        if m:
            sg, n, d = m.groups()
        else:
            m = re.fullmatch(r'(-?)(.*?)(?:π|\\pi)(?:/(.*))?', s)
            if not m:
                raise ValueError('not an angle: ' + s)
            sg, n, d = m.groups()
        r = self.value(n) if n else 1.0
        if d:
            r = r / self.value(d)
        return -r if sg else r

    def matrix(self, s, latex):
        if latex:
            m = re.fullmatch(r'\\begin\{bmatrix\}(.*)\\end\{bmatrix\}', s.strip(), re.S)
            if not m:
                raise ValueError('not a matrix: ' + s)
            rows = [[self.numbers(x, True) for x in r.split('&')] for r in m.group(1).split(r'\\') if r.strip()]
            if any(len(x) != 1 for r in rows for x in r):
                raise ValueError('not a matrix: ' + s)
            return [[x[0] for x in r] for r in rows]
        rows = [self.numbers(r, True) for r in re.findall(r'\[([^\[\]]+)\]', s)]
        return rows


def parse(T, name, latex):
    """-> (kind, angle / pi or None, axis or None, letter)"""
    if latex:
        if not (name.startswith('$') and name.endswith('$')):
            raise ValueError('no math delimiters: ' + name)
        name = name[1:-1]
        m = re.fullmatch(r'(.*?)\s*(?:\\mathcal\{([TPC])\})?\s*', name, re.S)
    else:
        m = re.fullmatch(r'(.*?)\s*([TPC]?)\s*', name, re.S)
    rot, az = m.group(1).strip(), m.group(2) or ''
    return parse_rot(T, rot if rot or not az else '1') + (az,)


def parse_rot(T, rot):
    if rot in ('1', 'I'):
        return rot, None, None
    m = re.fullmatch(r'([RMS])(?:\\left)?\((.*?)(?:\\right)?\)', rot, re.S)
    if not m:
        raise ValueError('unknown form: ' + rot)
    k, arg = m.groups()
    if k == 'M':
        return k, None, T.numbers(arg)
    if ',' not in arg:
        return k, T.angle(arg), None
    a, b = arg.split(',', 1)
    return k, T.angle(a), T.numbers(b)


# --------------------------------------------------------------- comparison
def within(ctx, a, b, tol):
    d = a - b
    if ctx.sym:
        d = to_sym(d)
        return ctx.And(d._le(Sym(tol)), (-d)._le(Sym(tol)))
    return abs(d) <= tol


def unit(ctx, v):
    """printed axis, normalised if it is given by integers"""
    if ctx.sym:
        if any(isinstance(x, Sym) and not x.is_const() for x in v):
            return v
        v = [x.cval().real if isinstance(x, Sym) else x for x in v]
    r = math.sqrt(sum(x * x for x in v))
    return [x / r for x in v]


def cs(ctx, th, sgn=1):
    """cos and sin of th pi"""
    if ctx.sym:
        t = to_sym(th) * math.pi
        return t.cos(), t.sin()
    return math.cos(th * math.pi), math.sin(th * math.pi)


def same_rotation(ctx, got, n, c, s, tol=.006):
    """printed (angle, axis) is the rotation with axis n, cosine c and sine s"""
    th, v = got
    v = unit(ctx, v)
    gc, gs = cs(ctx, th)
    t = TOL[ctx.sym]
    return ctx.Or(*[ctx.And(within(ctx, gc, c, t), within(ctx, gs, s * sg, t),
                            *[within(ctx, a, b * sg, tol) for a, b in zip(v, n)]) for sg in (1, -1)])


def same_axis(ctx, v, n, tol=.006):
    v = unit(ctx, v)
    return ctx.Or(*[ctx.And(*[within(ctx, a, b * sg, tol) for a, b in zip(v, n)]) for sg in (1, -1)])


# ------------------------------------------------------------------- inputs
def sphere(ctx, name, d=3):
    """unit vector"""
    n = [ctx.real(name + x) for x in 'xyz'[:d]]
    if ctx.sym:
        ctx.sphere(name + 'x', [name + x for x in 'yz'[:d - 1]])
        return n
    r = math.sqrt(sum(x * x for x in n))
    return [x / r for x in n] if r > 1e-9 else [0.0] * (d - 1) + [1.0]


def generic(ctx, n):
    """not parallel to a vector of 0, 1, -1"""
    for v in itertools.product([-1, 0, 1], repeat=len(n)):
        if any(v):
            r = math.sqrt(sum(x * x for x in v))
            d = sum((x * y for x, y in zip(v, n) if x), 0)
            if ctx.sym:
                ctx.assume(to_sym(d)._lt(Sym(r)))
            else:
                ctx.assume(d < r - 1e-3)


def rodrigues(ctx, n, c, s, sg=1):
    x, y, z = n
    K = [[0, -z, y], [z, 0, -x], [-y, x, 0]]
    rows = [[(K[i][j] * s + n[i] * n[j] * (1 - c) + (c if i == j else 0)) * sg for j in range(3)] for i in range(3)]
    return ctx.arr(np.array(rows, dtype=object)) if ctx.sym else np.array(rows, dtype=float)


def hint_axis(ctx, R, n, name='w', lam=(-1, -1, 1), col=-1):
    """eigenvectors of a twofold rotation or mirror: n and some basis of the plane, which may be any"""
    if ctx.sym:
        d = len(n)
        W = np.empty((d, d), dtype=object)
        for i in range(d):
            for j in range(d):
                W[i, j] = n[i] if j == col % d else ctx.real(f'{name}{i}{j}')
        ctx.hint('eigh', R, (list(lam), ctx.arr(W)))


def nonint(ctx, R):
    """some entry is not an integer"""
    if not ctx.sym:
        return ctx.assume(any(abs(x - round(x)) > 1e-4 for x in R.reshape(-1)))
    for x in np.asarray(R).reshape(-1):
        if not to_sym(x).is_const():
            return ctx.nonint(x)
        if abs(to_sym(x).cval().real - round(to_sym(x).cval().real)) > 1e-3:
            return


def text(ctx, R, conj=False, anti=False, U=None, **k):
    Q = ctx.Q
    g = Q.PointGroupElement(R, conj, anti, U)
    return g, Q.groups.pretty_print_pge(g, **k)


def read(ctx, f):
    """decode; text that is not of a documented form violates the property"""
    try:
        return f()
    except (ValueError, AttributeError, IndexError) as e:
        ctx.check(False, f'documented form ({e})')


def check_name(ctx, kind, got, n, c, s):
    """kind of the operation: proper or not"""
    k, th, v, az = got
    if kind == 'R':
        if k == '1':
            return ctx.check(within(ctx, c, 1, 1e-5), 'identity')
        if k != 'R' or th is None or v is None or len(v) != 3:
            return ctx.check(False, 'proper rotation')
        return ctx.check(same_rotation(ctx, (th, v), n, c, s), 'axis and angle')
    if k == 'I':
        return ctx.check(within(ctx, c, 1, 1e-5), 'inversion')
    if k == 'M' and v is not None and len(v) == 3:
        return ctx.check(ctx.And(within(ctx, c, -1, 1e-5), same_axis(ctx, v, n)), 'mirror normal')
    if k != 'S' or th is None or v is None or len(v) != 3:
        return ctx.check(False, 'improper rotation')
    ctx.check(same_rotation(ctx, (th, v), n, c, s), 'axis and angle of rotoinversion')


# --------------------------------------------------------------- harnesses
AC = {f'{k}-{p}-{q}{"-latex" if l else ""}': dict(kind=k, p=p, q=q, latex=l) for k in 'RS' for p, q in ANGLES for l in (False, True)
      if not l or (p, q) in ((0, 1), (1, 1), (2, 3), (-1, 2), (-5, 7))}
AQ = {n for n, c in AC.items() if (c['p'], c['q']) in ((0, 1), (1, 1), (2, 3), (-1, 2), (1, 50), (98, 99) if c['kind'] == 'R' else (2, 5))}


@H(cases={n: c for n, c in AC.items() if n not in AQ}, time_limit=60, tiers=('thorough',),
   bounds='3D rotations and rotoinversions by further angles about every axis that is not a vector of 0, 1, -1')
@H(cases={n: c for n, c in AC.items() if n in AQ}, time_limit=60,
   bounds='3D rotations and rotoinversions by listed angles about every axis that is not a vector of 0, 1, -1')
def axis3d(ctx, kind, p, q, latex):
    n = sphere(ctx, 'n')
    generic(ctx, n)
    th = math.pi * p / q
    c, s = (round(x, 15) if abs(x - round(x)) < 1e-12 else x for x in (math.cos(th), math.sin(th)))
    R = rodrigues(ctx, n, c, s, 1 if kind == 'R' else -1)
    if p:
        nonint(ctx, R)
    if (p, q) == (1, 1):
        hint_axis(ctx, R if kind == 'R' else -R, n)
    with Text(ctx) as T:
        g, name = text(ctx, R, latex=latex)
        got = read(ctx, lambda: parse(T, name, latex))
    ctx.check(got[3] == '', 'no letter')
    check_name(ctx, kind, got, n, c, s)


IC = {f'{k}-{i}{"-latex" if l else ""}': dict(kind=k, i=i, latex=l) for k in 'RS' for i in range(len(AXES)) for l in (False, True)
      if not l or i in (0, 7, 22)}
IQ = {n for n, c in IC.items() if c['i'] % 2 == (c['kind'] == 'R') or c['latex'] and c['i'] != 7}


@H(cases={n: c for n, c in IC.items() if n not in IQ}, time_limit=60, tiers=('thorough',),
   bounds='3D rotations and rotoinversions by every angle about the other integer axes of 0, 1, -1')
@H(cases={n: c for n, c in IC.items() if n in IQ}, time_limit=60,
   bounds='3D rotations and rotoinversions by every angle about every integer axis of 0, 1, -1')
def angle3d(ctx, kind, i, latex):
    a = AXES[i]
    r = math.sqrt(sum(x * x for x in a))
    n = [x / r for x in a]
    c, s = sphere(ctx, 'c', 2)
    ctx.assume(Not_zero(ctx, s))
    R = rodrigues(ctx, n, c, s, 1 if kind == 'R' else -1)
    nonint(ctx, R)
    with Text(ctx) as T:
        g, name = text(ctx, R, latex=latex)
        got = read(ctx, lambda: parse(T, name, latex))
    check_name(ctx, kind, got, n, c, s)
    if got[2] is not None:
        ctx.check(all(not isinstance(x, Sym) or x.is_const() for x in got[2]) and
                  all(abs(abs(float(x.cval().real if isinstance(x, Sym) else x)) - abs(y)) < 1e-9 for x, y in zip(got[2], a)), 'integer axis')


@H(cases={f'{l}': dict(latex=l == 'latex') for l in ('text', 'latex')}, bounds='every 2D rotation')
def angle2d(ctx, latex):
    c, s = sphere(ctx, 'c', 2)
    R = ctx.arr(np.array([[c, -s], [s, c]], dtype=object)) if ctx.sym else np.array([[c, -s], [s, c]])
    with Text(ctx) as T:
        g, name = text(ctx, R, latex=latex)
        k, th, v, az = read(ctx, lambda: parse(T, name, latex))
    if k == '1':
        return ctx.check(within(ctx, c, 1, 1e-5), 'identity')
    if k != 'R' or v is not None or th is None:
        return ctx.check(False, 'rotation')
    gc, gs = cs(ctx, th)
    ctx.check(ctx.And(within(ctx, gc, c, TOL[ctx.sym]), within(ctx, gs, s, TOL[ctx.sym])), 'angle')


@H(cases={f'{p}-{q}{"-latex" if l else ""}': dict(p=p, q=q, latex=l) for p, q in ANGLES for l in (False, True)},
   bounds='2D rotations by listed angles')
def list2d(ctx, p, q, latex):
    c, s = math.cos(math.pi * p / q), math.sin(math.pi * p / q)
    R = np.array([[c, -s], [s, c]])
    with Text(ctx) as T:
        g, name = text(ctx, R, latex=latex)
        k, th, v, az = read(ctx, lambda: parse(T, name, latex))
    if k == '1':
        return ctx.check(p == 0, 'identity')
    if k != 'R' or v is not None or th is None:
        return ctx.check(False, 'rotation')
    gc, gs = cs(ctx, th)
    ctx.check(ctx.And(within(ctx, gc, c, TOL[ctx.sym]), within(ctx, gs, s, TOL[ctx.sym])), 'angle')


@H(cases={f'{l}-{a}': dict(latex=l == 'latex', ax=a) for l in ('text', 'latex') for a in ('any', 'int')}, bounds='every 2D mirror')
def mirror2d(ctx, latex, ax):
    if ax == 'any':
        n = sphere(ctx, 'n', 2)
        generic(ctx, n)
    else:
        vs = [v for v in itertools.product([-1, 0, 1], repeat=2) if any(v)]
        v = vs[ctx.choose('v', len(vs))]
        n = [x / math.sqrt(sum(y * y for y in v)) for x in v]
    rows = [[(1 if i == j else 0) - n[i] * n[j] * 2 for j in range(2)] for i in range(2)]
    R = ctx.arr(np.array(rows, dtype=object)) if ctx.sym else np.array(rows, dtype=float)
    if ax == 'any':
        hint_axis(ctx, R, n, lam=(-1, 1), col=0)
    with Text(ctx) as T:
        g, name = text(ctx, R, latex=latex)
        k, th, v, az = read(ctx, lambda: parse(T, name, latex))
    if k != 'M' or v is None or len(v) != 2:
        return ctx.check(False, 'mirror')
    ctx.check(same_axis(ctx, v, n), 'normal')


FIXED = {'1d1': ([[1]], '1'), '1dI': ([[-1]], 'I'), '2d1': ([[1, 0], [0, 1]], '1'), '2dR': ([[0, -1], [1, 0]], 'R'),
         '2dM': ([[0, 1], [1, 0]], 'M'), '3d1': ([[1, 0, 0], [0, 1, 0], [0, 0, 1]], '1'), '3dI': ([[-1, 0, 0], [0, -1, 0], [0, 0, -1]], 'I'),
         '3dR': ([[0, -1, 0], [1, 0, 0], [0, 0, 1]], 'R'), '3dM': ([[1, 0, 0], [0, 1, 0], [0, 0, -1]], 'M'),
         '3dS': ([[0, -1, 0], [1, 0, 0], [0, 0, -1]], 'S')}


@H(cases={f'{f}-{l}': dict(f=f, latex=l == 'latex') for f in FIXED for l in ('text', 'latex')},
   bounds='all four combinations of conjugation and antisymmetry, with every form of the spatial part')
def letter(ctx, f, latex):
    m, want = FIXED[f]
    conj, anti = ctx.pybool('conj'), ctx.pybool('anti')
    with Text(ctx) as T:
        g, name = text(ctx, np.array(m), conj, anti, latex=latex)
        got = read(ctx, lambda: parse(T, name, latex))
    ctx.check(got[0] == want, 'spatial part')
    ctx.check(got[3] == {(0, 0): '', (1, 0): 'T', (1, 1): 'P', (0, 1): 'C'}[int(conj), int(anti)], 'letter')


def entries(ctx, got, U, label, tol=.0015):
    U = np.asarray(U)
    if len(got) != U.shape[0] or any(len(r) != U.shape[1] for r in got):
        return ctx.check(False, label + ' shape')
    fs = []
    for i in range(U.shape[0]):
        for j in range(U.shape[1]):
            if ctx.sym:
                d = to_sym(got[i][j]) - to_sym(U[i, j])
                fs += [within(ctx, d.real, 0, tol), within(ctx, d.imag, 0, tol)]
            else:
                fs.append(abs(got[i][j] - U[i, j]) <= 3 * tol)
    ctx.check(ctx.And(*fs), label)


@H(cases={f'{f}-{l}-{u}': dict(f=f, latex=l == 'latex', u=u) for f in ('1dI', '2dM', '3dS', '3d1') for l in ('text', 'latex') for u in ('U', 'none')},
   bounds='full output with every 2 x 2 matrix U and all combinations of conjugation and antisymmetry')
def full(ctx, f, latex, u):
    m, want = FIXED[f]
    conj, anti = ctx.pybool('conj'), ctx.pybool('anti')
    U = ctx.matrix('u', 2) if u == 'U' else None
    with Text(ctx) as T:
        g, name = text(ctx, np.array(m), conj, anti, U, latex=latex, full=True)
        pat = (r'\$U H\(\\mathbf\{+k\}+\)(\^\*)? U\^\{+-1\}+ = (-?)H\((-?)R\\mathbf\{+k\}+\) \\\\R = (.*?)\\\\(?:U = (.*))?\$' if latex else
               r'\s*U⋅H\(k\)(\*)?⋅U\^-1 = (-?)H\((-?)R⋅k\)\s*R = (.*?)\n\s*(?:U = (.*))?')
        mm = re.fullmatch(pat, name, re.S)
        ctx.check(mm is not None, 'documented form')
        star, neg, kneg, rot, mat = mm.groups()
        got = read(ctx, lambda: parse_rot(T, rot.strip()))
        M = read(ctx, lambda: T.matrix(mat, latex)) if mat is not None else None
    ctx.check(bool(star) == bool(conj) and bool(neg) == bool(anti) and bool(kneg) == bool(conj), 'action on the Hamiltonian')
    ctx.check(got[0] == want, 'spatial part')
    ctx.check((M is not None) == (U is not None), 'matrix given')
    if U is not None:
        entries(ctx, M, U, 'unitary', .0015 if not latex or ctx.sym else .01)


def cgg_text(ctx, name, latex):
    """-> printed angle argument (None, 'ϕ' or axis string), L string, factors with L, commutator form"""
    if latex:
        m = re.fullmatch(r'\$(?:\\left\[ H\(\\mathbf\{+k\}+\), L \\right\] = 0 \\\\|(e\^\{-i\\phi L\})?H\(\\mathbf\{+k\}+\)(e\^\{i\\phi L\})? = H\(R_\{+\\phi\}+\\mathbf\{+k\}+\) \\\\)'
                         r'(?:R_\{+\\phi\}+ = R\\left\(\\phi(?:, (.*?))?\\right\)\\\\)?(?:L = (.*?) \\\\)?\$', name, re.S)
    else:
        m = re.fullmatch(r'\s*(?:\[H\(k\), L\] = 0|(exp\(-i ϕ L\)⋅)?H\(k\)(⋅exp\(i ϕ L\))? = H\(R_ϕ⋅k\))\s*'
                         r'(?:R_ϕ = R\(ϕ(?:, (.*?))?\)\s*)?(?:L = (.*?))?', name, re.S)
    if m is None:
        return None
    return dict(comm='] = 0' in name, rot='R_ϕ = ' in name or r'= R\left' in name, pre=m.group(1), post=m.group(2), axis=m.group(3), L=m.group(4))


def generator(ctx, n, a):
    x, y, z = n
    K = [[0, -z, y], [z, 0, -x], [-y, x, 0]]
    rows = [[K[i][j] * a * 1j for j in range(3)] for i in range(3)]
    return ctx.arr(np.array(rows, dtype=object)) if ctx.sym else np.array(rows, dtype=complex)


def check_cgg(ctx, R, U, n, a, latex):
    Q = ctx.Q
    g = Q.ContinuousGroupGenerator(R, U)
    with Text(ctx) as T:
        name = Q.groups.pretty_print_cgg(g, latex=latex)
        t = cgg_text(ctx, name, latex)
        ctx.check(t is not None, 'documented form')
        axis = read(ctx, lambda: T.numbers(t['axis'])) if t['axis'] is not None else None
        L = read(ctx, lambda: T.matrix(t['L'], latex)) if t['L'] is not None else None
    ctx.check(t['rot'] == (R is not None) and t['comm'] == (R is None), 'spatial rotation given')
    ctx.check((L is not None) == (U is not None), 'L given')
    ctx.check(bool(t['pre']) == bool(t['post']) == (R is not None and U is not None), 'factors')
    if R is not None:
        ctx.check((axis is not None) == (R.shape[0] == 3), 'axis given')
    tol = .0015 if not latex or ctx.sym else .008
    if R is None:
        return entries(ctx, L, U, 'conserved quantity', tol)
    opts = []
    for sg in (1, -1) if R.shape[0] == 3 else (1,):
        fs = []
        if axis is not None:
            v = unit(ctx, axis)
            fs += [within(ctx, x, y * sg, .006) for x, y in zip(v, n)]
        if L is not None:
            if len(L) != 2 or any(len(r) != 2 for r in L):
                ctx.check(False, 'shape of L')
            for i in range(2):
                for j in range(2):
                    if ctx.sym:
                        w = to_sym(U[i, j]) / (to_sym(a) * sg)
                        d = to_sym(L[i][j]) - w
                        fs += [within(ctx, d.real, 0, tol), within(ctx, d.imag, 0, tol)]
                    else:
                        fs.append(abs(L[i][j] - U[i, j] / (a * sg)) <= 3 * tol)
        opts.append(ctx.And(*fs))
    ctx.check(ctx.Or(*opts), 'rotation and L belong together')


@H(cases={f'{d}-{u}-{l}': dict(d=d, u=u, latex=l == 'latex') for d in ('0', '2', '3', '3int') for u in ('U', 'none') for l in ('text', 'latex') if d != '0' or u == 'U'},
   time_limit=60, bounds='continuous generators: every rotation generator in two and three dimensions of every scale, every Hermitian 2 x 2 matrix')
def cgg(ctx, d, u, latex):
    U = herm(ctx, 'U') if u == 'U' else None
    if U is not None:
        ctx.assume(Not_zero(ctx, U[0, 0]))
    a = R = n = None
    if d != '0':
        a = ctx.real('a', lo=0)
        ctx.assume(Sym(.05)._lt(a) if ctx.sym else a > .05)
        if ctx.pybool('neg'):
            a = -a
    if d == '2':
        R = genR2(ctx, a)
    elif d == '3':
        n = sphere(ctx, 'n')
        generic(ctx, n)
        R = generator(ctx, n, a)
    elif d == '3int':
        v = AXES[ctx.choose('axis', len(AXES))]
        n = [x / math.sqrt(sum(y * y for y in v)) for x in v]
        R = generator(ctx, n, a)
    check_cgg(ctx, R, U, n, a, latex)


def genR2(ctx, a):
    rows = [[0, a * -1j], [a * 1j, 0]]
    return ctx.arr(np.array(rows, dtype=object)) if ctx.sym else np.array(rows, dtype=complex)
