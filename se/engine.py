"""Path exploration, solver queries and replay."""
import cmath
import math
import random
import signal
import time
import traceback
import zlib
from fractions import Fraction

import numpy as np
import z3

from . import sym as S
from .sym import (Sym, SymBool, Unsupported, ONE, f_and, f_not, f_or, f_eval, f_implies,
                  f_vars, p_add, p_const, p_eval, p_key, p_mul, p_real_split,
                  p_var, p_vars, p_hasE, p_isconst, to_sym, as_formula)

_CUR = None


def current():
    if _CUR is None:
        raise RuntimeError('no symbolic context')
    return _CUR


def active():
    return _CUR is not None and _CUR.mode == 'sym'


class PathAbort(BaseException):
    """Assumption false on this path."""


class Budget(BaseException):
    pass


class CheckFailed(Exception):
    """A property assertion failed in a concrete replay."""


# ------------------------------------------------------------------ z3 encode
_SQF = {}


def _coef(c):
    """real float -> (Fraction, squarefree m or 1)"""
    if c == 0:
        return Fraction(0), 1
    r = _SQF.get(c)
    if r is not None:
        return r
    f = Fraction(c).limit_denominator(5040)
    if abs(float(f) - c) <= 1e-12 * max(1, abs(c)) and f != 0:
        r = (f, 1)
    else:
        q = Fraction(c * c).limit_denominator(2000)
        if q != 0 and abs(float(q) - c * c) <= 1e-12 * max(1.0, c * c):
            n = q.numerator * q.denominator
            den = q.denominator
            m, k = n, 1
            for pr in range(2, 200):
                while m % (pr * pr) == 0:
                    m //= pr * pr
                    k *= pr
            r = (Fraction(k, den) * (1 if c > 0 else -1), m) if m < 300 else (Fraction(c), 1)
        else:
            r = (Fraction(c), 1)
    if len(_SQF) < 100000:
        _SQF[c] = r
    return r


class Enc:
    """Encodes formulas for one query. mode 'lin': monomials abstracted."""

    def __init__(self, ctx, mode, env=None):
        self.ctx, self.mode = ctx, mode
        self.env = env            # fixed numeric values for some variables
        self.cache = {}
        self.side = []
        self.vars = {}
        self.E = {}
        self.used = set()
        self.Lmaps = {}

    def var(self, v):
        z = self.vars.get(v)
        if z is None:
            if v.startswith('sqrt#'):
                m = int(v[5:])
                z = z3.Real(v)
                if self.mode == 'nl':
                    self.side += [z * z == m, z > 0]
                else:
                    self.side += [z > 0]
            elif self.ctx.kinds.get(v) == 'int':
                z = z3.ToReal(z3.Int(v))
            else:
                z = z3.Real(v)
            self.vars[v] = z
        return z

    def cs(self, L):
        """cos and sin terms of E(L); L canonical sign handled by the caller."""
        e = self.E.get(L)
        if e is None:
            n = f'E{zlib.crc32(repr(L).encode()):08x}'
            c, s = z3.Real(n + 'c'), z3.Real(n + 's')
            e = self.E[L] = (c, s)
            if self.mode == 'nl':
                self.side.append(c * c + s * s == 1)
        return e

    def mono(self, m, L):
        """-> (re, im) z3 terms of the monomial (im may be None)."""
        k = (m, L)
        r = self.cache.get(k)
        if r is not None:
            return r
        sg = 1
        if L and L[0][1] < 0:
            L = tuple((mm, -x) for mm, x in L)
            sg = -1
        if self.mode == 'nl':
            t = None
            for v, e in m:
                z = self.var(v)
                for _ in range(e):
                    t = z if t is None else t * z
            if L:
                c, s = self.cs(L)
                if sg < 0:
                    s = -s
                r = (c if t is None else t * c, s if t is None else t * s)
            else:
                r = (z3.RealVal(1) if t is None else t, None)
        else:
            if not L and len(m) == 1 and m[0][1] == 1:
                r = (self.var(m[0][0]), None)
            elif not L and not m:
                r = (z3.RealVal(1), None)
            else:
                n = f'M{repr((m, L))}'
                if L:
                    s = z3.Real(n + 's')
                    r = (z3.Real(n + 'c'), -s if sg < 0 else s)
                else:
                    z = z3.Real(n)
                    if all(e % 2 == 0 for _, e in m):
                        self.side.append(z >= 0)
                    r = (z, None)
        self.cache[k] = r
        return r

    def poly(self, p):
        """-> (re, im) z3 terms."""
        re, im = [], []
        for (m, L), c in p.items():
            for part, cc in (('r', c.real), ('i', c.imag)):
                if cc == 0:
                    continue
                f, sq = _coef(cc)
                mm = m
                if sq != 1:
                    d = dict(m)
                    d[f'sqrt#{sq}'] = 1
                    mm = tuple(sorted(d.items()))
                a, b = self.mono(mm, L)
                q = z3.Q(f.numerator, f.denominator)
                if part == 'r':
                    re.append(q * a)
                    if b is not None:
                        im.append(q * b)
                else:
                    im.append(q * a)
                    if b is not None:
                        re.append(-q * b)
        zr = z3.Sum(re) if re else z3.RealVal(0)
        zi = z3.Sum(im) if im else None
        return zr, zi

    def f(self, x):
        if not isinstance(x, SymBool):
            return z3.BoolVal(bool(x))
        if x.op == 'bool':
            return z3.Bool(x.args[0])
        if x.op == 'not':
            return z3.Not(self.f(x.args[0]))
        if x.op == 'and':
            return z3.And([self.f(a) for a in x.args])
        if x.op == 'or':
            return z3.Or([self.f(a) for a in x.args])
        re, im = self.poly(x.args[0])
        if x.op == 'eq0':
            r = re == 0
            if im is not None:
                r = z3.And(r, im == 0)
            return r
        if x.op == 'lt0':
            return re < 0
        if x.op == 'le0':
            return re <= 0
        raise AssertionError(x.op)


def _p_subst(p, v, val):
    """substitute polynomial ``val`` for the real variable v."""
    keep, acc = {}, {}
    for (m, L), c in p.items():
        dm = dict(m)
        e = dm.pop(v, 0)
        inL = any(v in dict(mm) for mm, _ in L)
        if not e and not inL:
            keep[(m, L)] = c
            continue
        t = {(tuple(sorted(dm.items())), ()): c}
        for _ in range(e):
            t = p_mul(t, val)
        if L:
            Lp = {}
            for mm, x in L:
                d = dict(mm)
                k = d.pop(v, 0)
                tt = {(tuple(sorted(d.items())), ()): complex(x)}
                for _ in range(k):
                    tt = p_mul(tt, val)
                Lp = p_add(Lp, tt)
            t = p_mul(t, (Sym(Lp) * Sym(1j)).exp().n)
        acc = p_add(acc, t)
    return p_add(keep, acc)


def _f_subst(f, v, val):
    if not isinstance(f, SymBool) or f.op == 'bool':
        return f
    if f.op in ('eq0', 'lt0', 'le0'):
        p = f.args[0]
        if v not in p_vars(p):
            return f
        q = _p_subst(p, v, val)
        if f.op == 'eq0':
            return S.mk_eq0(q)
        return S.mk_rel(f.op, q)
    args = [_f_subst(a, v, val) for a in f.args]
    if f.op == 'not':
        return f_not(args[0])
    return f_and(args) if f.op == 'and' else f_or(args)


def _conjuncts(fs):
    for f in fs:
        if isinstance(f, SymBool) and f.op == 'and':
            yield from _conjuncts(f.args)
        elif isinstance(f, SymBool) and f.op == 'not' and f.args[0].op == 'or':
            yield from _conjuncts([f_not(a) for a in f.args[0].args])
        else:
            yield f


def presolve(ctx, facts, goals, subs=None):
    """Eliminate variables fixed by linear equalities among the facts."""
    facts = list(_conjuncts(facts))
    expv = set(_exp_vars(facts)) | set(_exp_vars(goals))
    used = set()
    for f in list(facts) + list(goals):
        f_vars(f, used)
    red = set()
    for w, r in S.REDUCE.items():
        if w in used:
            red |= p_vars(r)
    for _ in range(80):
        pick = None
        for i, f in enumerate(facts):
            if not (isinstance(f, SymBool) and f.op == 'eq0'):
                continue
            p = f.args[0]
            parts = [q for q in p_real_split(p) if q]
            for q in parts:
                hasE = p_hasE(q)
                cnt = {}
                for (m, L), c in q.items():
                    for v, e in m:
                        cnt[v] = cnt.get(v, 0) + 1
                for (m, L), c in q.items():
                    if len(m) == 1 and m[0][1] == 1 and cnt[m[0][0]] == 1:
                        v = m[0][0]
                        if v in S.REDUCE or v.startswith('sqrt#'):
                            continue
                        # integrality of rounding atoms may be dropped: that only
                        # weakens the facts, and models are re-validated
                        rnd = v[:3] in ('rd@', 'fl@')
                        if ctx.kinds.get(v) == 'int' and not rnd:
                            continue
                        if v in red or L:
                            continue
                        if v in ctx.atom_facts and not rnd and not all(not k[0] and not k[1] or k == (m, L) for k in q):
                            continue
                        if hasE and v in expv:
                            continue
                        val = p_mul({k: x for k, x in q.items() if k != (m, L)}, p_const(-1 / c))
                        pick = (i, v, val)
                        break
                if pick:
                    break
            if pick:
                break
        if pick is None:
            break
        i, v, val = pick
        if subs is not None:
            subs.append((v, val))
        f = facts[i]
        nf = _f_subst(f, v, val)
        facts[i] = nf
        facts = list(_conjuncts([g if j == i else _f_subst(g, v, val)
                                 for j, g in enumerate(facts)]))
        facts = [g for g in facts if g is not True]
        goals = [_f_subst(g, v, val) for g in goals]
        if any(g is False for g in facts):
            return [False], goals
    return facts, goals


# ------------------------------------------------------------------ contexts
class Stats:
    def __init__(self):
        self.paths = 0
        self.queries = 0
        self.solver_s = 0.0
        self.checks = 0
        self.proved = 0
        self.infeasible = 0
        self.replays = 0
        self.unknown = 0
        self.witnessed = 0
        self.wit_s = 0.0
        self.notes = []


class BaseCtx:
    def And(self, *a):
        return f_and(a)

    def Or(self, *a):
        return f_or(a)

    def Not(self, a):
        return f_not(a)

    def implies(self, a, b):
        return f_or([f_not(a), b])

    def matrix(self, name, shape, kind='complex', lo=None, hi=None):
        if isinstance(shape, int):
            shape = (shape, shape)
        out = np.empty(shape, dtype=object)
        for idx in np.ndindex(*shape):
            nm = name + '_' + '_'.join(map(str, idx))
            if kind == 'hermitian':
                i, j = idx
                if i == j:
                    out[idx] = self.real(nm, lo, hi)
                elif i < j:
                    out[idx] = self.cplx(nm, lo, hi)
                else:
                    u = out[j, i]
                    out[idx] = u.conjugate()
            elif kind == 'symmetric':
                i, j = idx
                out[idx] = self.real(nm, lo, hi) if i <= j else out[j, i]
            elif kind == 'antisymmetric':
                i, j = idx
                out[idx] = (self.real(nm, lo, hi) if i < j else
                            (Sym(0) if self.sym else 0.0) if i == j else -out[j, i])
            elif kind == 'complex':
                out[idx] = self.cplx(nm, lo, hi)
            elif kind == 'real':
                out[idx] = self.real(nm, lo, hi)
            elif kind == 'int':
                out[idx] = self.int(nm, lo, hi)
            else:
                raise ValueError(kind)
        return self.arr(out)

    def cplx(self, name, lo=None, hi=None):
        a, b = self.real(name + 'r', lo, hi), self.real(name + 'i', lo, hi)
        if self.sym:
            return a + b * Sym(1j)
        return complex(a, b)

    def unitary(self, name, n=2, special=False):
        """Arbitrary element of U(n), n <= 2 (exact parametrisation)."""
        if n == 1:
            return self.arr(np.array([[self.phase(name + 'p')]], dtype=object))
        assert n == 2
        a, b = self.cplx(name + 'a'), self.cplx(name + 'b')
        if self.sym:
            v = name + 'ar'
            self.sphere(v, [name + 'ai', name + 'br', name + 'bi'])
        else:
            r = math.sqrt(abs(a) ** 2 + abs(b) ** 2)
            if r < 1e-9:
                a, b, r = 1.0, 0.0, 1.0
            a, b = a / r, b / r
        ph = 1 if special else self.phase(name + 'p')
        m = np.empty((2, 2), dtype=object)
        m[0, 0], m[0, 1] = a, b
        m[1, 0], m[1, 1] = -b.conjugate() * ph, a.conjugate() * ph
        return self.arr(m)

    def orthogonal(self, name, n=2, det=None):
        """Arbitrary element of O(n), n<=3, via unit complex / quaternion."""
        if det is None:
            det = 1 - 2 * self.choose(name + 'det', 2)
        if n == 1:
            return self.arr(np.array([[Sym(det) if self.sym else float(det)]], dtype=object))
        if n == 2:
            c, s = self.real(name + 'c'), self.real(name + 's')
            if self.sym:
                self.sphere(name + 'c', [name + 's'])
            else:
                r = math.hypot(c, s)
                c, s = (c / r, s / r) if r > 1e-9 else (1.0, 0.0)
            return self.arr(np.array([[c, -s * det], [s, c * det]], dtype=object))
        q = [self.real(name + x) for x in 'wxyz']
        if self.sym:
            self.sphere(name + 'w', [name + x for x in 'xyz'])
        else:
            r = math.sqrt(sum(x * x for x in q))
            q = [x / r for x in q] if r > 1e-9 else [1.0, 0, 0, 0]
        w, x, y, z = q
        m = np.array([[1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)],
                      [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
                      [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]],
                     dtype=object)
        return self.arr(m * det)

    def phase(self, name):
        t = self.real(name)
        if self.sym:
            return (t * Sym(1j)).exp()
        return complex(math.cos(t), math.sin(t))


class SymCtx(BaseCtx):
    mode = 'sym'
    sym = True

    def __init__(self, ex, prefix):
        S.EXACT_TOL = False
        self.ex = ex
        self.st = ex.stats
        self.Q = ex.Qsym
        self.prefix = list(prefix)
        self.decs = []         # decisions taken: ints
        self.alts = []         # prefixes still to explore
        self.kinds = {}
        self.path = []         # facts
        self.facts_known = {}
        self.atom_facts = {}   # var -> [formula]
        self.atoms = {}
        self.atom_def = {}     # atom var -> ('sqrt' | 'abs', polynomial) or ('max', values)
        self.grid = None       # see box()
        self.env = {}          # witness values (all vars)
        self.env_ok = True
        self.defs = {}         # atom var -> function(env) computing its value
        self.order = []
        self.nonneg = set()
        self.n_dec = 0
        self.picks = {}
        S.REDUCE.clear()

    # ---------------------------------------------------------- variables
    def _rng(self, name):
        return random.Random(f'{self.ex.seed}/{self.ex.name}/{name}')

    def real(self, name, lo=None, hi=None):
        if name not in self.kinds:
            self.kinds[name] = 'real'
            self.order.append(name)
            l, h = (-2 if lo is None else lo), (2 if hi is None else hi)
            r = self._rng(name)
            v = round(r.uniform(l, h), 2)
            if lo is None and abs(v) < 0.2:
                v = 0.7
            self.env[name] = min(max(v, l), h)
            x = Sym.var(name)
            if lo is not None:
                if lo >= 0:
                    self.nonneg.add(name)
                self.atom_facts.setdefault(name, []).append(Sym(lo)._le(x))
            if hi is not None:
                self.atom_facts.setdefault(name, []).append(x._le(Sym(hi)))
        return Sym.var(name)

    def int(self, name, lo=None, hi=None):
        if name not in self.kinds:
            self.kinds[name] = 'int'
            self.order.append(name)
            l, h = (-3 if lo is None else lo), (3 if hi is None else hi)
            self.env[name] = self._rng(name).randint(l, h)
            x = Sym.var(name)
            if lo is not None:
                self.atom_facts.setdefault(name, []).append(Sym(lo)._le(x))
            if hi is not None:
                self.atom_facts.setdefault(name, []).append(x._le(Sym(hi)))
        return Sym.var(name)

    def boolean(self, name):
        if name not in self.kinds:
            self.kinds[name] = 'bool'
            self.order.append(name)
            self.env[name] = self._rng(name).random() < 0.5
        return SymBool('bool', (name,))

    def pybool(self, name):
        return bool(self.choose(name, 2))

    def choose(self, name, n):
        """Fork over a finite configuration choice; returns a Python int."""
        if name in self.picks:
            return self.picks[name]
        i = len(self.decs)
        if i < len(self.prefix):
            d = self.prefix[i]
        else:
            d = 0
            for k in range(n - 1, 0, -1):
                self.alts.append(self.decs + [k])
        self.decs.append(d)
        self.picks[name] = d
        return d

    def sphere(self, v, others):
        """v**2 + sum(others**2) == 1"""
        p = p_const(1)
        for o in others:
            p = p_add(p, {(((o, 2),), ()): 1 + 0j}, -1)
        S.REDUCE[v] = p
        x = Sym(p_add({(((v, 2),), ()): 1 + 0j}, p, -1))
        # normalise the witness
        vs = [v] + list(others)
        r = math.sqrt(sum(self.env[o] ** 2 for o in vs)) or 1.0
        for o in vs:
            self.env[o] /= r
        f = SymBool('eq0', (x.n,))
        for o in vs:
            self.atom_facts.setdefault(o, []).append(f)

    def arr(self, a):
        from .arr import wrap
        return wrap(np.array(a, dtype=object))

    # ---------------------------------------------------------- atoms
    def hint(self, kind, A, result=None):
        """fix the result of a factorisation: the harness parametrises all pairs of a matrix and a result (see contracts.hinted)"""
        self.__dict__.setdefault('hints', []).append((kind, self.arr(A), result))

    def box(self, boxes):
        """all inputs are real parameters in these boxes: prune branches by interval evaluation (see interval.py)"""
        from .interval import Grid
        self.grid = Grid(self, boxes)

    def exact_tol(self):
        """comparisons with a positive constant up to 1e-6 are comparisons with zero"""
        S.EXACT_TOL = True

    def _fresh(self, base):
        k = len(self.atoms)
        return f'{base}@{k}'

    def sqrt_atom(self, x):
        """Principal square root of a (real, nonnegative) symbolic value."""
        if not x.is_real():
            if x.d is None and len(x.n) == 1:
                (m, L), c = next(iter(x.n.items()))
                if not m and L:
                    # c exp(i L): one of the two roots, the principal one at the witness
                    half = Sym({((), tuple((q, v / 2) for q, v in L)): S.snap(cmath.sqrt(c))})
                    key = ('csqrt', p_key(x.n))
                    v = self.atoms.get(key)
                    if v is None:
                        v = self._fresh('sg')
                        self.atoms[key] = v
                        self.kinds[v] = 'real'
                        self.order.append(v)
                        xn, hn = dict(x.n), dict(half.n)
                        self.defs[v] = lambda env: round((cmath.sqrt(p_eval(xn, env)) / p_eval(hn, env)).real)
                        self.env[v] = self.defs[v](self.env)
                        S.REDUCE[v] = {((), ()): 1 + 0j}
                        sv = Sym.var(v)
                        self.atom_facts[v] = [f_or([sv._eq(Sym(1)), sv._eq(Sym(-1))])]
                    return half * Sym.var(v)
            raise Unsupported('sqrt of complex symbolic value')
        if x.d is not None:
            # sqrt(n/d) = sqrt(n*d)/|d|
            nd = Sym(p_mul(x.n, x.d))
            den = Sym(x.d)
            if not den.is_real():
                raise Unsupported('sqrt of complex fraction')
            return nd.sqrt() / abs(den)
        n = p_real_split(x.n)[0]
        if not n:
            return Sym(0)
        # monomial with even powers -> product of abs
        if len(n) == 1:
            (m, L), c = next(iter(n.items()))
            if not L and c.real > 0:
                r = Sym(math.sqrt(c.real))
                for v, e in m:
                    xv = Sym.var(v)
                    if e % 2 == 0:
                        a = self._abs_var(v) if (e // 2) % 2 else None
                        r = r * (xv ** (e // 2 - 1) * a if a is not None and e // 2 > 1 else
                                 (a if a is not None else xv ** (e // 2)))
                    else:
                        break
                else:
                    return r
        r = self._square_root(n) if self.grid is not None else None
        if r is not None:
            return r
        k0 = max(n)
        sc = abs(n[k0])
        n1 = {k: S.snap(v / sc) for k, v in n.items()}
        key = ('sqrt', p_key(n1))
        v = self.atoms.get(key)
        if v is None:
            v = self._fresh('rt')
            self.atoms[key] = v
            self.kinds[v] = 'real'
            self.order.append(v)
            pn = dict(n1)
            self.atom_def[v] = 'sqrt', pn
            self.defs[v] = lambda env: math.sqrt(max(0.0, p_eval(pn, env).real))
            self.env[v] = self.defs[v](self.env)
            if not p_hasE(n1):
                S.REDUCE[v] = pn
            xv = Sym.var(v)
            sq = SymBool('eq0', (p_add({(((v, 2),), ()): 1 + 0j}, pn, -1),))
            self.atom_facts[v] = [Sym(0)._le(xv), sq]
        return Sym.var(v) * Sym(math.sqrt(sc))

    def _square_root(self, n):
        """sqrt of a polynomial with a square factor: v^2k q -> |v|^k sqrt(q), q^2 -> |q|"""
        if len(n) < 2 or p_hasE(n) or any(abs(c.imag) > 1e-12 for c in n.values()):
            return None
        common = None
        for m, _ in n:
            d = dict(m)
            common = d if common is None else {v: min(e, d[v]) for v, e in common.items() if v in d}
        common = {v: e - e % 2 for v, e in common.items() if e >= 2}
        if common:
            r = Sym(1)
            q = {}
            for (m, L), c in n.items():
                q[(tuple((v, e - common.get(v, 0)) for v, e in m if e > common.get(v, 0)), L)] = c
            for v, e in common.items():
                r = r * (Sym.var(v) ** (e // 2) if e // 2 % 2 == 0 else Sym.var(v) ** (e // 2 - 1) * self._abs_var(v))
            return r * Sym(q).sqrt()
        if len(n) > 60 or any(v in S.REDUCE for v in p_vars(n)):
            return None
        # polynomial square root, leading terms first
        vs = sorted(p_vars(n))
        key = lambda m: tuple(dict(m).get(v, 0) for v in vs)
        t = {key(m): c.real for (m, _), c in n.items()}
        lead = max(t)
        if t[lead] <= 0 or any(e % 2 for e in lead):
            return None
        q = {tuple(e // 2 for e in lead): math.sqrt(t[lead])}
        l0, c0 = next(iter(q.items()))
        rem = dict(t)
        del rem[lead]
        while rem:
            m = max(rem)
            if any(a < b for a, b in zip(m, l0)) or len(q) > 12:
                return None
            nm, nc = tuple(a - b for a, b in zip(m, l0)), rem[m] / (2 * c0)
            if nm in q or nm > l0:
                return None
            for k, c in list(q.items()) + [(nm, nc / 2)]:
                k2 = tuple(a + b for a, b in zip(k, nm))
                v = rem.get(k2, 0) - 2 * c * nc
                if abs(v) > 1e-12 * max(1, abs(c * nc)):
                    rem[k2] = v
                else:
                    rem.pop(k2, None)
            q[nm] = nc
        y = Sym({(tuple((v, e) for v, e in zip(vs, k) if e), ()): complex(c) for k, c in q.items()})
        if all(c > 0 and all(e % 2 == 0 or v in self.nonneg for v, e in zip(vs, k)) for k, c in q.items()):
            return y
        return abs(y)

    def _abs_var(self, w):
        if w in self.nonneg:
            return Sym.var(w)
        key = ('abs', w)
        v = self.atoms.get(key)
        if v is None:
            # nonnegative by its own bounds?
            v = self._fresh('ab')
            self.atoms[key] = v
            self.kinds[v] = self.kinds.get(w, 'real')
            self.order.append(v)
            self.defs[v] = lambda env: abs(env[w])
            self.atom_def[v] = 'abs', Sym.var(w).n
            self.env[v] = abs(self.env[w])
            x, a = Sym.var(w), Sym.var(v)
            S.REDUCE[v] = {(((w, 2),), ()): 1 + 0j}
            self.atom_facts[v] = [Sym(0)._le(a),
                                  f_or([f_and([Sym(0)._le(x), SymBool('eq0', ((a - x).n,))]),
                                        f_and([x._lt(Sym(0)), SymBool('eq0', ((a + x).n,))])])]
        return Sym.var(v)

    def abs_atom(self, x):
        """|x| of a real polynomial"""
        k0 = max(x.n)
        sc = abs(x.n[k0])
        n1 = {k: S.snap(v / sc) for k, v in x.n.items()}
        if n1[k0].real < 0:
            n1 = {k: -v for k, v in n1.items()}
        key = ('abs', p_key(n1))
        v = self.atoms.get(key)
        if v is None:
            v = self._fresh('ab')
            self.atoms[key] = v
            self.kinds[v] = 'real'
            self.order.append(v)
            pn = dict(n1)
            self.atom_def[v] = 'abs', pn
            self.defs[v] = lambda env: abs(p_eval(pn, env).real)
            self.env[v] = self.defs[v](self.env)
            a, y = Sym.var(v), Sym(pn)
            self.atom_facts[v] = [Sym(0)._le(a),
                                  f_or([f_and([Sym(0)._le(y), SymBool('eq0', ((a - y).n,))]),
                                        f_and([y._lt(Sym(0)), SymBool('eq0', ((a + y).n,))])])]
            S.REDUCE[v] = p_mul(pn, pn)
        return Sym.var(v) * Sym(sc)

    def max_atom(self, xs):
        """max of real values as a defined atom"""
        vals, consts = [], []
        seen = set()
        for x in xs:
            if x.is_const():
                consts.append(x.cval().real)
            else:
                k = (p_key(x.n), p_key(x.d) if x.d is not None else None)
                if k not in seen:
                    seen.add(k)
                    vals.append(x)
        if consts:
            vals.append(Sym(max(consts)))
        if len(vals) == 1:
            return vals[0]
        if any(v.d is not None for v in vals) and self.grid is None:
            # generic: compare by forking
            r = vals[0]
            for v in vals[1:]:
                if bool(r._lt(v)):
                    r = v
            return r
        key = ('max', tuple(sorted((p_key(v.n), p_key(v.d) if v.d is not None else '') for v in vals)))
        v = self.atoms.get(key)
        if v is None:
            v = self._fresh('mx')
            self.atoms[key] = v
            self.kinds[v] = 'real'
            self.order.append(v)
            self.defs[v] = lambda env: max((p_eval(q.n, env) / (1 if q.d is None else p_eval(q.d, env))).real for q in vals)
            self.atom_def[v] = 'max', list(vals)
            self.env[v] = self.defs[v](self.env)
            m = Sym.var(v)
            self.atom_facts[v] = [f_and([q._le(m) for q in vals]),
                                  f_or([m._eq(q) for q in vals])]
        return Sym.var(v)

    def max_of(self, xs):
        return self.max_atom(xs)

    def min_of(self, xs):
        return -self.max_atom([-x for x in xs])

    def round_atom(self, x):
        if x.is_const():
            v = x.cval()
            return Sym(complex(round(v.real), round(v.imag)))
        if x.d is None and all(self.kinds.get(v) == 'int' for v in p_vars(x.n)) and \
                not p_hasE(x.n) and all(c.imag == 0 and float(c.real).is_integer() for c in x.n.values()):
            return x
        if not x.is_real():
            return self.round_atom(x.real) + self.round_atom(x.imag) * Sym(1j)
        key = ('round', p_key(x.n), p_key(x.d) if x.d is not None else None)
        v = self.atoms.get(key)
        if v is None and self.grid is not None:
            c = self.grid.rounded(x)
            if c is not None:
                return Sym(c)
        if v is None:
            v = self._fresh('rd')
            self.atoms[key] = v
            self.kinds[v] = 'int'
            self.order.append(v)
            n, d = x.n, x.d
            self.defs[v] = lambda env: round((p_eval(n, env) / (p_eval(d, env) if d else 1)).real)
            self.env[v] = self.defs[v](self.env)
            r = Sym.var(v)
            self.atom_facts[v] = [(r - x)._le(Sym(0.5)), (x - r)._le(Sym(0.5))]
        return Sym.var(v)

    def round_digits(self, x, nd):
        """x rounded to nd digits: any value within half a unit of the last digit"""
        if not x.is_real():
            return self.round_digits(x.real, nd) + self.round_digits(x.imag, nd) * Sym(1j)
        if x.is_const():
            return Sym(round(x.cval().real, nd))
        key = ('rnd', nd, p_key(x.n), p_key(x.d) if x.d is not None else None)
        v = self.atoms.get(key)
        if v is None:
            v = self._fresh('rn')
            self.atoms[key] = v
            self.kinds[v] = 'real'
            self.order.append(v)
            n, d = x.n, x.d
            self.defs[v] = lambda env: round((p_eval(n, env) / (p_eval(d, env) if d else 1)).real, nd)
            self.env[v] = self.defs[v](self.env)
            r = Sym.var(v)
            u = 0.5 * 10 ** -nd
            self.atom_facts[v] = [(r - x)._le(Sym(u)), (x - r)._le(Sym(u))]
        return Sym.var(v)

    def arctan2_atom(self, y, x):
        if not (y.is_real() and x.is_real()):
            raise TypeError('arctan2 of complex values')
        if y.is_const() and x.is_const():
            return Sym(math.atan2(y.cval().real, x.cval().real))
        key = ('atan2',) + tuple(p_key(p) if p is not None else None for p in (y.n, y.d, x.n, x.d))
        v = self.atoms.get(key)
        if v is None:
            r = (x * x + y * y).sqrt()
            v = self._fresh('th')
            self.atoms[key] = v
            self.kinds[v] = 'real'
            self.order.append(v)
            ny, dy, nx, dx = y.n, y.d, x.n, x.d

            def f(env):
                a = (p_eval(ny, env) / (p_eval(dy, env) if dy else 1)).real
                b = (p_eval(nx, env) / (p_eval(dx, env) if dx else 1)).real
                return math.atan2(a, b)
            self.defs[v] = f
            self.env[v] = f(self.env)
            t = Sym.var(v)
            z, P = Sym(0), Sym(math.pi)
            ypos, yneg, y0 = z._lt(y), y._lt(z), y._eq(z)
            xpos, xneg = z._lt(x), x._lt(z)
            self.atom_facts[v] = [
                (r * t.cos())._eq(x), (r * t.sin())._eq(y), (-P)._lt(t), t._le(P),
                f_implies(ypos, f_and([z._lt(t), t._lt(P)])), f_implies(yneg, t._lt(z)),
                f_implies(f_and([y0, xpos]), t._eq(z)), f_implies(f_and([y0, xneg]), t._eq(P)),
                f_implies(t._eq(P), f_and([y0, x._le(z)])), f_implies(t._eq(z), f_and([y0, z._le(x)])),
                f_implies(t._eq(z), t.cos()._eq(Sym(1))), f_implies(t._eq(P), t.cos()._eq(Sym(-1)))]
        return Sym.var(v)

    def floor_atom(self, x):
        if x.is_const():
            return Sym(math.floor(x.cval().real))
        key = ('floor', p_key(x.n), p_key(x.d) if x.d is not None else None)
        v = self.atoms.get(key)
        if v is None:
            v = self._fresh('fl')
            self.atoms[key] = v
            self.kinds[v] = 'int'
            self.order.append(v)
            n, d = x.n, x.d
            self.defs[v] = lambda env: math.floor((p_eval(n, env) / (p_eval(d, env) if d else 1)).real)
            self.env[v] = self.defs[v](self.env)
            r = Sym.var(v)
            self.atom_facts[v] = [r._le(x), x._lt(r + 1)]
        return Sym.var(v)

    def int_divmod(self, a, b):
        if a.is_const() and b.is_const():
            q, r = divmod(a.cval().real, b.cval().real)
            return Sym(q), Sym(r)
        if bool(b._eq(Sym(0))):
            raise ZeroDivisionError('integer modulo by zero')
        key = ('div', p_key(a.n), p_key(b.n))
        v = self.atoms.get(key)
        if v is None:
            v = self._fresh('dv')
            w = v + 'm'
            self.atoms[key] = v
            for z in (v, w):
                self.kinds[z] = 'int'
                self.order.append(z)
            an, bn = a.n, b.n
            self.defs[v] = lambda env: math.floor(p_eval(an, env).real / p_eval(bn, env).real)
            self.defs[w] = lambda env: p_eval(an, env).real - p_eval(bn, env).real * self.defs[v](env)
            try:
                self.env[v] = self.defs[v](self.env)
                self.env[w] = self.defs[w](self.env)
            except ZeroDivisionError:
                self.env[v] = self.env[w] = 0
                self.env_ok = False
            q, r = Sym.var(v), Sym.var(w)
            fs = [(a)._eq(b * q + r),
                  f_or([f_and([Sym(0)._lt(b), Sym(0)._le(r), r._lt(b)]),
                        f_and([b._lt(Sym(0)), r._le(Sym(0)), b._lt(r)])])]
            self.atom_facts[v] = fs
            self.atom_facts[w] = fs
        return Sym.var(v), Sym.var(v + 'm')

    def require_nonzero(self, x):
        """Division by x: numpy would produce inf/nan at 0."""
        if bool(x._eq(Sym(0))):
            raise ZeroDivisionError('division by zero on a symbolic path')

    def concretize_int(self, x):
        """Fork over the integer values of a bounded symbolic integer."""
        for _ in range(64):
            v = p_eval(x.n, self._witness()).real
            if not abs(v - round(v)) < 1e-6:
                raise Unsupported('concretisation of a non-integer symbolic value')
            if bool(x._eq(Sym(round(v)))):
                return round(v)
        raise Unsupported('too many integer values')

    # ---------------------------------------------------------- solving
    def _closure(self, fs):
        """facts of atoms appearing in fs (transitively)"""
        seen, out, keys = set(), [], set()
        todo = set()
        for f in fs:
            f_vars(f, todo)
        todo = list(todo)
        while todo:
            v = todo.pop()
            if v in seen:
                continue
            seen.add(v)
            for f in self.atom_facts.get(v, ()):
                if not isinstance(f, SymBool):
                    if not f:
                        out.append(False)
                    continue
                k = f.key()
                if k not in keys:
                    keys.add(k)
                    out.append(f)
                    todo.extend(f_vars(f))
        return out

    def _solve(self, fs, mode, timeout, extra=None, fix=None):
        """-> ('unsat'|'sat'|'unknown', model, enc)"""
        if any(f is False for f in fs):
            return 'unsat', None, None
        enc = Enc(self, mode)
        s = z3.Solver()
        s.set('timeout', int(timeout * 1000))
        t = time.time()
        try:
            zs = [enc.f(f) for f in fs]
            for z in zs:
                s.add(z)
            for v, k in self.kinds.items():
                pass
            if extra:
                for z in extra(enc):
                    s.add(z)
            for z in enc.side:
                s.add(z)
            r = s.check()
        except z3.Z3Exception:
            r = z3.unknown
        dt = time.time() - t
        self.st.queries += 1
        self.st.solver_s += dt
        if r == z3.unsat:
            return 'unsat', None, enc
        if r == z3.sat:
            return 'sat', s.model(), enc
        return 'unknown', None, enc

    def _model_env(self, m, enc, subs=()):
        env = dict(self.env)
        for v, z in enc.vars.items():
            if v.startswith('sqrt#'):
                continue
            zz = z3.Int(v) if self.kinds.get(v) == 'int' else z3.Real(v)
            val = m.eval(zz, model_completion=False)
            if z3.is_int_value(val):
                env[v] = val.as_long()
            elif z3.is_rational_value(val):
                env[v] = float(val.as_fraction())
            elif z3.is_algebraic_value(val):
                env[v] = float(val.approx(20).as_fraction())
        for d in m.decls():
            if d.name() in self.kinds and self.kinds[d.name()] == 'bool':
                env[d.name()] = z3.is_true(m[d])
        # angles
        for L, (c, s) in enc.E.items():
            if len(L) == 1 and len(L[0][0]) == 1 and L[0][0][0][1] == 1:
                v = L[0][0][0][0]
                cv, sv = m.eval(c), m.eval(s)
                try:
                    def fl(x):
                        return float(x.as_fraction()) if z3.is_rational_value(x) else \
                            float(x.approx(20).as_fraction())
                    env[v] = math.atan2(fl(sv), fl(cv)) / L[0][1]
                except Exception:
                    pass
        for v, val in reversed(subs):
            try:
                x = p_eval(val, env).real
                env[v] = round(x) if self.kinds.get(v) == 'int' else x
            except (KeyError, OverflowError):
                pass
        return self._recompute(env)

    def _recompute(self, env):
        for v in self.order:
            if v in self.defs:
                try:
                    env[v] = self.defs[v](env)
                except Exception:
                    pass
        return env

    def _env_sat(self, env, fs):
        try:
            return all(f_eval(f, env) for f in fs)
        except (OverflowError, KeyError, ZeroDivisionError):
            return False

    def _allfacts(self, fs):
        return list(fs) + self._closure(fs)

    def _wide(self, fs, goals):
        """cone of influence through the definitions of atoms"""
        memo = self.__dict__.setdefault('_clo', {})

        def clo(v):
            if v not in memo:
                s = {v}
                todo = [v]
                while todo:
                    for a in self.atom_facts.get(todo.pop(), ()):
                        if isinstance(a, SymBool):
                            for w in f_vars(a):
                                if w not in s:
                                    s.add(w)
                                    todo.append(w)
                memo[v] = s
            return memo[v]

        def fvs(f):
            s = set()
            for v in f_vars(f) | _bools(f):
                s |= clo(v)
            return s
        vs = set()
        for g in goals:
            vs |= fvs(g)
        rest, out, ch = [(f, fvs(f)) for f in fs], [], True
        while ch:
            ch, nr = False, []
            for f, fv in rest:
                if fv & vs or not fv:
                    out.append(f)
                    vs |= fv
                    ch = True
                else:
                    nr.append((f, fv))
            rest = nr
        return out

    def _relevant(self, fs, goals):
        """cone of influence: facts sharing variables with the goals"""
        vs = set()
        for g in goals:
            f_vars(g, vs)
            _bools(g, vs)
        rest = [(f, f_vars(f) | _bools(f)) for f in fs]
        out = []
        ch = True
        while ch:
            ch = False
            nr = []
            for f, fv in rest:
                if fv & vs or not fv:
                    out.append(f)
                    vs |= fv
                    for v in list(fv):
                        for a in self.atom_facts.get(v, ()):
                            if isinstance(a, SymBool):
                                f_vars(a, vs)
                    ch = True
                else:
                    nr.append((f, fv))
            rest = nr
            # atoms
            for v in list(vs):
                for a in self.atom_facts.get(v, ()):
                    if isinstance(a, SymBool):
                        n = len(vs)
                        f_vars(a, vs)
                        if len(vs) != n:
                            ch = True
        return out

    def feasible(self, cond):
        """True/False/None(unknown); updates witness when found."""
        facts = self._relevant(self.path, [cond])
        base = facts + [cond]
        allf = self._allfacts(base)
        subs = []
        f2, _ = presolve(self, allf, [], subs)
        if any(f is False for f in f2):
            self.st.queries += 1
            return False, None
        r, m, enc = self._solve(f2, 'lin', self.ex.t_feas)
        if r == 'unsat':
            return False, None
        if any(v[:3] in ('rd@', 'fl@') for v, _ in subs):
            # integrality of the eliminated rounding atoms
            r, m, enc = self._solve(allf, 'lin', self.ex.t_feas)
            if r == 'unsat':
                return False, None
        env = self._special(list(self.path) + [cond], 40)
        if env is not None:
            return True, env
        r, m, enc = self._solve(f2, 'nl', self.ex.t_feas)
        if r == 'unsat':
            return False, None
        if r == 'sat':
            env = self._model_env(m, enc, subs)
            if self._env_sat(env, list(self.path) + [cond]):
                return True, env
            wide = self._wide(self.path, [cond])
            if len(wide) > len(facts):
                subs = []
                f2, _ = presolve(self, self._allfacts(wide + [cond]), [], subs)
                if any(f is False for f in f2):
                    self.st.queries += 1
                    return False, None
                r, m, enc = self._solve(f2, 'nl', self.ex.t_feas)
                if r == 'unsat':
                    return False, None
                if r == 'sat':
                    env = self._model_env(m, enc, subs)
                    if self._env_sat(env, list(self.path) + [cond]):
                        return True, env
            # try sampling exponent variables numerically
            return True, None
        return None, None

    def _witness(self):
        if self.env_ok:
            return self.env
        facts = list(self.path)
        w = self.find_env(facts)
        if w is not None:
            self.env = w
            self.env_ok = True
            return w
        return self.env

    def decide(self, f):
        k = f.key()
        if k in self.facts_known:
            return self.facts_known[k]
        if self.grid is not None:
            d = self.grid.decide(f)
            if d is not None:
                # the same everywhere in the box
                self.facts_known[k] = d
                return d
        i = len(self.decs)
        if i < len(self.prefix):
            d = bool(self.prefix[i])
            self.decs.append(int(d))
            self._take(f, d)
            if self.env_ok and not self._env_sat(self.env, [self.path[-1]]):
                self.env_ok = False
            return d
        self.n_dec += 1
        if len(self.decs) > self.ex.max_decs:
            raise Budget('decision depth')
        if time.time() > self.ex.deadline:
            raise Budget('time')
        nf = f_not(f)
        known = None
        if self.env_ok:
            try:
                known = f_eval(f, self.env)
                # avoid judgments on near-boundary values
            except (OverflowError, ZeroDivisionError, KeyError):
                known = None
        res = {}
        envs = {}
        for d, g in ((True, f), (False, nf)):
            if known is not None and known == d:
                res[d] = True
                envs[d] = self.env
            else:
                ok, env = self.feasible(g)
                res[d] = ok is not False
                envs[d] = env
        if res[True] and res[False]:
            d = True if self.ex.prefer_true else (known if known is not None else True)
            self.alts.append(self.decs + [int(not d)])
        elif res[True]:
            d = True
        elif res[False]:
            d = False
        else:
            self.st.infeasible += 1
            raise PathAbort('infeasible path')
        self.decs.append(int(d))
        self._take(f, d)
        if envs[d] is not None:
            self.env = envs[d]
            self.env_ok = True
        else:
            self.env_ok = self.env_ok and known == d
        return d

    def _take(self, f, d):
        g = f if d else f_not(f)
        self.path.append(g)
        self.facts_known[f.key()] = d
        self.facts_known[f_not(f).key()] = not d
        for c in _conjuncts([g]):
            if isinstance(c, SymBool):
                self.facts_known[c.key()] = True
                self.facts_known[f_not(c).key()] = False
                self._implied(c)

    def _implied(self, c):
        """relations of the same polynomial to zero that follow from c"""
        if c.op not in ('lt0', 'eq0') or len(c.args) != 1:
            return
        p = c.args[0]
        if c.op == 'eq0' and p_real_split(p)[1]:
            return
        n = {k: -v for k, v in p.items()}
        for g, v in ((S.mk_eq0(p), c.op == 'eq0'), (S.mk_rel('lt0', p), c.op == 'lt0'), (S.mk_rel('le0', p), True),
                     (S.mk_rel('lt0', n), False), (S.mk_rel('le0', n), c.op == 'eq0')):
            if isinstance(g, SymBool):
                self.facts_known.setdefault(g.key(), v)
                ng = f_not(g)
                if isinstance(ng, SymBool):
                    self.facts_known.setdefault(ng.key(), not v)

    def assume(self, f):
        f = as_formula(f)
        if not isinstance(f, SymBool):
            if not f:
                raise PathAbort('assumption')
            return
        k = f.key()
        if self.facts_known.get(k) is True:
            return
        if self.facts_known.get(k) is False:
            raise PathAbort('assumption')
        if self.env_ok and not self._env_sat(self.env, [f]):
            ok, env = self.feasible(f)
            if ok is False:
                self.st.infeasible += 1
                raise PathAbort('assumption infeasible')
            if env is not None:
                self.env = env
            else:
                self.env_ok = False
        self._take(f, True)

    def find_env(self, facts, quick=False):
        """numeric assignment satisfying the facts with margin, or None"""
        facts = [f for f in facts if f is not True]
        if self.env_ok and self._env_sat(self.env, facts) and _margin_ok(facts, self.env):
            return self.env
        allf = self._allfacts(facts)
        env = self._special(facts, 60)
        if env is not None:
            return env
        if quick:
            return None
        t_end = time.time() + 3 * self.ex.t_wit
        for margin in (Fraction(1, 16), None):
            if time.time() > t_end:
                break
            g = _margin(facts, margin) if margin else facts
            gg = list(g) + self._closure(g)
            bound = [f for f in self._box(gg)] if margin else []
            subs = []
            g2, _ = presolve(self, gg + bound, [], subs)
            if any(f is False for f in g2):
                continue
            r, m, enc = self._solve(g2, 'nl', self.ex.t_wit)
            if r == 'sat':
                env = self._model_env(m, enc, subs)
                if self._env_sat(env, facts):
                    return env
            # fix variables occurring in exponents and randomise
            rng = random.Random(self.ex.seed + 17)
            ev = _exp_vars(allf)
            for t in range(2):
                env0 = dict(self.env)
                if not ev or time.time() > t_end:
                    break
                for v in ev:
                    env0[v] = round(rng.uniform(-2, 2), 3)
                ff = list(gg)
                for v in ev:
                    ff = [_f_subst(f, v, p_const(env0[v])) if isinstance(f, SymBool) else f for f in ff]
                subs = []
                ff, _ = presolve(self, ff, [], subs)
                if any(f is False for f in ff):
                    continue
                r, m, enc = self._solve(ff, 'nl', self.ex.t_wit)
                if r == 'sat':
                    env = self._model_env(m, enc, subs)
                    for v in ev:
                        env[v] = env0[v]
                    env = self._recompute(env)
                    if self._env_sat(env, facts):
                        return env
        # random restarts over the free variables
        rng = random.Random(self.ex.seed + 5)
        for _ in range(200):
            env = {}
            for v in self.order:
                if v in self.defs:
                    continue
                k = self.kinds[v]
                if k == 'int':
                    env[v] = rng.randint(-3, 3)
                elif k == 'bool':
                    env[v] = rng.random() < 0.5
                else:
                    env[v] = round(rng.uniform(-2, 2), 2)
            for v in list(S.REDUCE):
                pass
            self._renorm(env)
            env = self._recompute(env)
            if self._env_sat(env, allf):
                return env
        return None

    def _special(self, facts, tries):
        """look for a witness among special points (angles that are multiples
        of pi/6 or pi/4, small integers and halves)"""
        rng = random.Random(self.ex.seed + 11)
        ang = None
        fv = set()
        for f in facts:
            f_vars(f, fv)
            _bools(f, fv)
        for v in list(fv):
            if v in self.defs:
                for f in self.atom_facts.get(v, ()):
                    f_vars(f, fv)
        ev = set(_exp_vars(self._allfacts(facts)))
        base = self.env
        for t in range(tries):
            env = dict(base)
            for v in self.order:
                if v in self.defs or (v not in fv and t % 2):
                    continue
                k = self.kinds[v]
                if v in ev:
                    q = rng.choice((math.pi / 2, math.pi / 2, math.pi / 3, math.pi / 4))
                    env[v] = q * rng.randint(-4, 4)
                elif k == 'int':
                    env[v] = rng.randint(-2, 2)
                elif k == 'bool':
                    env[v] = rng.random() < 0.5
                else:
                    env[v] = rng.choice((0.0, 1.0, -1.0, 0.0, 1.0, 0.5, -0.5, 2.0))
            self._renorm(env)
            env = self._recompute(env)
            if self._env_sat(env, facts) and self._env_sat(env, self._closure(facts)):
                return env
        return None

    def _renorm(self, env):
        for v, p in S.REDUCE.items():
            if v in self.defs:
                continue
            others = sorted(p_vars(p))
            vs = [v] + others
            r = math.sqrt(sum(env.get(o, 0) ** 2 for o in vs)) or 1.0
            for o in vs:
                if o in env:
                    env[o] /= r

    def project(self, xs, exprs):
        """Choose the witness values of the real variables xs such that the expressions, which
        are linear and homogeneous in them, vanish (this restricts witnesses only)."""
        names = [next(iter(to_sym(x).n))[0][0][0] for x in xs]
        ps = [p for e in exprs for p in p_real_split(to_sym(e).n) if p]
        memo = {}

        def values(env):
            key = tuple(env.get(v) for v in deps)
            if key not in memo:
                if len(memo) > 20:
                    memo.clear()
                cols = []
                e = dict(env)
                for v in names:
                    for w in names:
                        e[w] = 1.0 if w == v else 0.0
                    cols.append([p_eval(p, e).real for p in ps])
                x0 = np.array([0.37 + 0.61 * ((i * 7) % 5) * (-1) ** i for i in range(len(names))])
                M = np.array(cols, dtype=float).T.reshape(len(ps), len(names))
                if len(ps):
                    _, s, vh = np.linalg.svd(M)
                    r = int(np.sum(s > 1e-7 * max(1, s[0] if len(s) else 0)))
                    x0 = x0 - vh[:r].T @ (vh[:r] @ x0)
                memo[key] = {v: float(x) for v, x in zip(names, x0)}
            return memo[key]
        deps = set()
        for p in ps:
            deps |= p_vars(p)
        deps = sorted(deps - set(names))
        for v in names:
            self.defs[v] = lambda env, v=v: values(env)[v]
        # evaluate after the variables the expressions depend on
        self.order = [v for v in self.order if v not in set(names)] + names
        if self.env_ok:
            self.env = self._recompute(dict(self.env))

    def nonint(self, x):
        """assume 0 < |x| < 1 for a real value in [-1, 1]"""
        self.assume(f_or([f_and([Sym(0)._lt(x), x._lt(Sym(1))]), f_and([Sym(-1)._lt(x), x._lt(Sym(0))])]))

    def _box(self, fs):
        vs = set()
        for f in fs:
            f_vars(f, vs)
        out = []
        for v in vs:
            if self.kinds.get(v) == 'real' and v not in self.defs:
                x = Sym.var(v)
                out += [x._le(Sym(4)), Sym(-4)._le(x)]
        return [o for o in out if isinstance(o, SymBool)]

    # ---------------------------------------------------------- checking
    def prove(self, goal, label):
        """Decide facts |= goal."""
        goal = as_formula(goal)
        self.st.checks += 1
        neg = f_not(goal)
        if neg is False or goal is True:
            # decided by canonical forms; still submit the trivial query
            self.st.proved += 1
            return True
        facts = self._relevant(self.path, [neg] if isinstance(neg, SymBool) else [])
        if not isinstance(neg, SymBool):
            facts = list(self.path)
        allf = self._allfacts(facts + ([neg] if isinstance(neg, SymBool) else []))
        subs = []
        f2, _ = presolve(self, allf, [], subs)
        if any(f is False for f in f2):
            self.st.queries += 1
            self.st.proved += 1
            return True
        r, m, enc = self._solve(f2, 'lin', self.ex.t_prove)
        if r == 'unsat':
            self.st.proved += 1
            return True
        wide = self._wide(self.path, [neg]) if isinstance(neg, SymBool) else facts
        if len(wide) > len(facts):
            allf = self._allfacts(wide + [neg])
            subs = []
            f2, _ = presolve(self, allf, [], subs)
            if any(f is False for f in f2):
                self.st.queries += 1
                self.st.proved += 1
                return True
            r, m, enc = self._solve(f2, 'lin', self.ex.t_prove)
            if r == 'unsat':
                self.st.proved += 1
                return True
        # look for a counterexample first with the path witness
        cands = []
        w = self._witness()
        if self.env_ok and isinstance(neg, SymBool) and self._env_sat(w, [neg]):
            cands.append(w)
        r = 'unknown'
        if not cands:
            r, m, enc = self._solve(f2, 'nl', self.ex.t_prove)
            if r == 'unsat':
                self.st.proved += 1
                return True
            if r == 'sat':
                env = self._model_env(m, enc, subs)
                if self._env_sat(env, list(self.path) + ([neg] if isinstance(neg, SymBool) else [])):
                    cands.append(env)
            if not cands:
                env = self.find_env(list(self.path) + ([neg] if isinstance(neg, SymBool) else []))
                if env is not None:
                    cands.append(env)
        for env in cands:
            if self.ex.replay(self, env, label):
                return False
        if isinstance(neg, SymBool):
            env = self.find_env(list(self.path) + [neg])
            if env is not None and self.ex.replay(self, env, label):
                return False
        self.st.unknown += 1
        self.ex.note(f'undecided: {label} ({r}; {len(cands)} candidate(s) did not reproduce)')
        return None

    def check(self, goal, label):
        self.prove(goal, label)

    def check_eq(self, a, b, label, tol=None):
        from .arr import as_objarr
        a, b = as_objarr(a), as_objarr(b)
        if a.shape != b.shape:
            try:
                a, b = np.broadcast_arrays(a, b)
            except ValueError:
                self.check(False, label + ' [shape]')
                return
        if a.size == 0:
            return
        goals = []
        triv = []
        for x, y in zip(a.reshape(-1), b.reshape(-1)):
            x, y = to_sym(x), to_sym(y)
            e = x._eq(y)
            if e is True:
                triv.append((x, y))
            else:
                goals.append(e)
        if triv:
            self._submit_trivial(triv)
        if goals:
            self.prove(f_and(goals), label)
        else:
            self.st.checks += 1
            self.st.proved += 1

    def _submit_trivial(self, pairs):
        """Entries whose canonical difference vanished: let the solver confirm
        lhs != rhs is unsatisfiable from the two encodings."""
        enc = Enc(self, 'lin')
        ds = []
        for x, y in pairs:
            if x.is_const() and y.is_const():
                continue
            if x.d is not None or y.d is not None:
                d1 = x.d or {ONE: 1 + 0j}
                d2 = y.d or {ONE: 1 + 0j}
                l, r = p_mul(x.n, d2), p_mul(y.n, d1)
            else:
                l, r = x.n, y.n
            if len(l) > 400:
                continue
            lr, li = enc.poly(l)
            rr, ri = enc.poly(r)
            # coefficients that are not small rationals carry float rounding
            ds.append(z3.Or(lr - rr > z3.Q(1, 10**9), rr - lr > z3.Q(1, 10**9)) if False else lr != rr)
            if li is not None or ri is not None:
                ds.append((li if li is not None else z3.RealVal(0)) !=
                          (ri if ri is not None else z3.RealVal(0)))
        if not ds:
            return
        s = z3.Solver()
        s.set('timeout', 3000)
        t = time.time()
        s.add(z3.Or(ds))
        r = s.check()
        self.st.queries += 1
        self.st.solver_s += time.time() - t
        if r != z3.unsat:
            # float coefficients differing in the last bits: equality holds up
            # to the stated coefficient precision only
            self.ex.rounding += 1

    def note(self, s):
        self.ex.note(s)


def _bools(f, acc=None):
    acc = set() if acc is None else acc
    if isinstance(f, SymBool):
        if f.op == 'bool':
            acc.add(f.args[0])
        elif f.op in ('and', 'or', 'not'):
            for a in f.args:
                _bools(a, acc)
    return acc


def _exp_vars(fs):
    vs = set()

    def go(f):
        if isinstance(f, SymBool):
            if f.op in ('eq0', 'lt0', 'le0'):
                for (m, L) in f.args[0]:
                    for mm, _ in L:
                        for v, _ in mm:
                            vs.add(v)
            elif f.op != 'bool':
                for a in f.args:
                    go(a)
    for f in fs:
        go(f)
    return sorted(vs)


def _margin(fs, eps):
    """strengthen strict relations by eps"""
    e = Sym(float(eps))

    def go(f, pos):
        if not isinstance(f, SymBool):
            return f
        if f.op == 'not':
            return go(f.args[0], not pos)
        if f.op in ('and', 'or'):
            a = [go(x, pos) for x in f.args]
            return (f_and(a) if (f.op == 'and') == pos else f_or(a))
        if f.op == 'bool':
            return f if pos else f_not(f)
        p = f.args[0]
        if f.op == 'eq0':
            if pos:
                return f
            re, im = p_real_split(p)
            alts = []
            for q in (re, im):
                if q:
                    x = Sym(q)
                    alts += [x._lt(-e), e._lt(x)]
            return f_or(alts)
        x = Sym(p)
        if pos:
            return x._lt(-e)
        return e._lt(x)
    return [go(f, True) for f in fs]


def _margin_ok(fs, env):
    try:
        return all(f_eval(f, env) for f in _margin(fs, 0.01))
    except Exception:
        return False


class ConcCtx(BaseCtx):
    """Concrete twin: runs a harness on the real code with given values."""
    mode = 'conc'
    sym = False

    def __init__(self, ex, env, picks):
        self.ex = ex
        self.Q = ex.Qreal
        self.env, self.picks = env, picks
        self.values = {}

    def real(self, name, lo=None, hi=None):
        v = float(self.env.get(name, self.ex.default(name, lo, hi)))
        if (lo is not None and v < lo - 1e-9) or (hi is not None and v > hi + 1e-9):
            raise PathAbort('out of bounds')
        self.values[name] = v
        return v

    def int(self, name, lo=None, hi=None):
        v = int(round(self.env.get(name, self.ex.default(name, lo, hi, True))))
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            raise PathAbort('out of bounds')
        self.values[name] = v
        return v

    def boolean(self, name):
        v = bool(self.env.get(name, False))
        self.values[name] = v
        return v

    def pybool(self, name):
        return bool(self.choose(name, 2))

    def choose(self, name, n):
        v = int(self.picks.get(name, 0))
        self.values[name] = v
        return v

    def sphere(self, v, others):
        pass

    def nonint(self, x):
        self.assume(1e-4 < abs(x) < 1 - 1e-4)

    def project(self, xs, exprs):
        pass

    def hint(self, kind, A, result=None):
        pass

    def box(self, boxes):
        pass

    def exact_tol(self):
        pass

    def arr(self, a):
        a = np.array(a)
        try:
            if a.dtype == object:
                flat = [complex(x) for x in a.reshape(-1)]
                if all(isinstance(x, (int, np.integer)) for x in a.reshape(-1)) and a.size:
                    return a.astype(int)
                if all(not isinstance(x, (complex, np.complexfloating)) for x in a.reshape(-1)):
                    return a.astype(float)
                return np.array(flat, dtype=complex).reshape(a.shape)
        except TypeError:
            pass
        return a

    def assume(self, f):
        if not bool(f):
            raise PathAbort('assumption')

    def check(self, goal, label):
        if not bool(goal):
            raise CheckFailed(label)

    def check_eq(self, a, b, label, tol=None):
        tol = tol or 1e-6
        a = np.asarray(_dense(a), dtype=complex)
        b = np.asarray(_dense(b), dtype=complex)
        if a.shape != b.shape:
            try:
                a, b = np.broadcast_arrays(a, b)
            except ValueError:
                raise CheckFailed(f'{label}: shapes {a.shape} {b.shape}')
        if a.size == 0:
            return
        sc = max(1.0, np.max(np.abs(a)), np.max(np.abs(b)))
        if not np.all(np.isfinite(a)) or not np.all(np.isfinite(b)):
            raise CheckFailed(f'{label}: non-finite result')
        d = np.max(np.abs(a - b))
        if d > tol * sc:
            raise CheckFailed(f'{label}: |difference| = {d:.3g}')

    def note(self, s):
        pass


def _dense(a):
    if hasattr(a, 'toarray'):
        return a.toarray()
    return a


class alarm:
    """interrupts a computation between solver calls that takes too long (a path that blows up)"""

    def __init__(self, seconds):
        self.seconds = max(seconds, 0.5)

    def _ring(self, *a):
        raise Budget('time')

    def __enter__(self):
        import threading
        self.on = threading.current_thread() is threading.main_thread()
        if self.on:
            self.old = signal.signal(signal.SIGALRM, self._ring)
            signal.setitimer(signal.ITIMER_REAL, self.seconds, 2.0)   # again if it is swallowed in a destructor

    def __exit__(self, *a):
        if self.on:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, self.old)


class Explorer:
    """Explores all paths of one harness and discharges its assertions."""

    def __init__(self, name, fn, Qsym, Qreal, seed=1, tier='quick', max_paths=400,
                 time_limit=60, t_feas=0.4, t_prove=4.0, t_wit=0.4, max_decs=400,
                 prefer_true=False, exact_tol=True, allow_exc=(), probes=2, **kw):
        self.name, self.fn = name, fn
        self.Qsym, self.Qreal = Qsym, Qreal
        self.seed, self.tier = seed, tier
        self.max_paths, self.max_decs = max_paths, max_decs
        self.t_feas, self.t_prove, self.t_wit = t_feas, t_prove, t_wit
        self.prefer_true = prefer_true
        self.time_limit = time_limit
        self.stats = Stats()
        self.violation = None
        self.notes = []
        self.rounding = 0
        self.exact_tol = exact_tol
        self.incomplete = []
        self.samples = []
        self.probes = probes
        self._warned = set()

    def default(self, name, lo, hi, integer=False):
        r = random.Random(f'{self.seed}/{self.name}/{name}')
        l, h = (-2 if lo is None else lo), (2 if hi is None else hi)
        return r.randint(int(l), int(h)) if integer else round(r.uniform(l, h), 2)

    def note(self, s):
        if s not in self._warned and len(self.notes) < 30:
            self._warned.add(s)
            self.notes.append(s)

    def run_conc(self, env, picks):
        """-> None if all assertions held, 'skip', or a failure message"""
        global _CUR
        old = _CUR
        _CUR = None
        ctx = ConcCtx(self, env, picks)
        self.stats.replays += 1
        import warnings
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                np.random.seed(self.seed)
                self.fn(ctx)
            return None, ctx
        except PathAbort:
            return 'skip', ctx
        except CheckFailed as ex:
            return f'assertion failed: {ex}', ctx
        except Exception as ex:
            tb = traceback.extract_tb(ex.__traceback__)
            loc = next((f'{f.filename.rsplit("/", 1)[-1]}:{f.lineno}' for f in reversed(tb)
                        if '/qsymm/' in f.filename), '?')
            # an exception is attributed to the code under test only if it passed through it
            if loc == '?':
                return f'harness-error: {type(ex).__name__}: {ex}', ctx
            return f'unexpected {type(ex).__name__} at {loc}: {str(ex)[:200]}', ctx
        finally:
            _CUR = old

    def replay(self, sctx, env, label):
        r, c = self.run_conc(env, sctx.picks)
        if r and r != 'skip' and not r.startswith('harness-error'):
            self.violation = dict(harness=self.name, label=label, failure=r,
                                  values={k: v for k, v in c.values.items()},
                                  env={k: env[k] for k in env}, picks=dict(sctx.picks))
            return True
        if r and r.startswith('harness-error'):
            self.note(r)
        return False

    def explore(self):
        global _CUR
        self.t0 = time.time()
        self.deadline = self.t0 + self.time_limit
        stack = [[]]
        seen_ok = 0
        while stack and self.violation is None:
            if self.stats.paths >= self.max_paths:
                self.incomplete.append(f'path budget {self.max_paths} reached')
                break
            if time.time() > self.deadline:
                self.incomplete.append('time budget reached')
                break
            prefix = stack.pop()
            ctx = SymCtx(self, prefix)
            from . import sympy_bridge
            sympy_bridge.reset()
            _CUR = ctx
            status = 'ok'
            exc = None
            try:
                self.Qsym_reset()
                with alarm(self.deadline - time.time() + 5):
                    self.fn(ctx)
            except PathAbort as ex:
                status = 'abort'
            except Budget as ex:
                status = 'budget'
                self.incomplete.append(f'budget: {ex}')
            except Unsupported as ex:
                status = 'unsupported'
                exc = ex
            except RecursionError as ex:
                status = 'unsupported'
                exc = ex
            except Exception as ex:
                status = 'exception'
                exc = ex
            finally:
                _CUR = None
            self.stats.paths += 1
            stack.extend(ctx.alts)
            if status == 'abort':
                continue
            if self.violation is not None:
                break
            # reachability witness / replay on the real code
            _CUR = ctx
            t1 = time.time()
            try:
                with alarm(20):
                    env = ctx.find_env(list(ctx.path), quick=self.stats.wit_s > 0.25 * self.time_limit)
            except BaseException as ex:
                if isinstance(ex, (KeyboardInterrupt, SystemExit)):
                    raise
                env = None
            finally:
                _CUR = None
            self.stats.wit_s += time.time() - t1
            if env is not None:
                r, c = self.run_conc(env, ctx.picks)
                if r is None:
                    self.stats.witnessed += 1
                    if len(self.samples) < 3:
                        self.samples.append({k: (round(v, 4) if isinstance(v, float) else v)
                                             for k, v in list(c.values.items())[:12]})
                elif r.startswith('harness-error'):
                    self.note(r)
                elif r != 'skip':
                    self.violation = dict(harness=self.name, label='path witness', failure=r,
                                          values=c.values, env=env, picks=dict(ctx.picks))
                    break
            if status == 'unsupported':
                self.incomplete.append(f'unsupported: {exc}')
                self._tb(exc)
                # inputs of this path could not be encoded: probe a few solver-free points
                self._probe(ctx)
            elif status == 'exception':
                if env is not None:
                    self.incomplete.append(f'exception not reproduced: {type(exc).__name__}: {str(exc)[:150]}')
                else:
                    self.incomplete.append(f'exception on path without witness: {type(exc).__name__}: {str(exc)[:150]}')
                self._tb(exc)
                self._probe(ctx)
        self.wall = time.time() - self.t0
        return self

    def _tb(self, exc):
        tb = traceback.extract_tb(exc.__traceback__)
        self.note('trace: ' + ' < '.join(f'{f.filename.rsplit("/", 1)[-1]}:{f.lineno}:{f.name}'
                                         for f in reversed(tb[-9:])))

    def _probe(self, ctx, n=4):
        if self.violation is not None:
            return
        for k in range(n):
            rng = random.Random(f'{self.seed}/{k}')
            env = {}
            for v, kind in ctx.kinds.items():
                if v in ctx.defs:
                    continue
                env[v] = (rng.randint(-2, 2) if kind == 'int' else rng.random() < .5
                          if kind == 'bool' else round(rng.uniform(-2, 2), 2))
            r, c = self.run_conc(env, ctx.picks)
            if r and r != 'skip' and not r.startswith('harness-error'):
                self.violation = dict(harness=self.name, label='probe of an unencodable path', failure=r,
                                      values=c.values, env=env, picks=dict(ctx.picks))
                return

    def Qsym_reset(self):
        r = getattr(self.Qsym, '_reset', None)
        if r:
            r()
