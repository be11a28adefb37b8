"""Symbolic scalars and formulas.

A ``Sym`` is a complex-valued expression  num/den  where num and den are
polynomials with complex coefficients over *real* solver variables, extended by
unit exponentials E(L) = exp(i L) whose exponent L is a real polynomial.
``SymBool`` is a quantifier-free formula over polynomial (in)equalities and
Boolean variables.  Deciding a ``SymBool`` in a Python condition forks the
symbolic execution (see engine.py).

Coefficients are IEEE complex numbers that are snapped to rationals with a small
denominator; cancellation residue below 1e-11 relative is dropped.  This means
real-number semantics: rounding of the code under test is abstracted away.
"""
import cmath
import math
import numbers
from fractions import Fraction

import sympy


TOKENS = None    # list of symbolic values printed while a harness reads text output


class Unsupported(BaseException):
    """The symbolic executor cannot encode an operation."""


_SN = 5040.0


def _snapf(x):
    if x == 0.0:
        return 0.0
    ax = abs(x)
    if ax < 1e-15:
        return 0.0
    if ax > 1e8 or ax < 1e-6:
        return x
    r = round(x * _SN) / _SN
    if abs(x - r) <= 4e-15 * (ax if ax > 1 else 1.0) * 50:
        return r
    return x


def _snapL(x):
    """exponent coefficient: rational, or rational multiple of pi"""
    y = _snapf(x)
    if y != x:
        return y
    z = x / math.pi
    r = _snapf(z)
    return r * math.pi if r == round(r * _SN) / _SN else x


def snap(c):
    return complex(_snapf(c.real), _snapf(c.imag))


# ---------------------------------------------------------------- polynomials
# poly: dict { (pows, L) : complex }, pows = tuple of (var, int power) sorted,
# L = tuple of (pows, float) sorted  (real polynomial exponent, no constant).
ONE = ((), ())

# reduction rules  var -> poly  meaning  var**2 == poly
REDUCE = {}


def p_const(c):
    c = snap(complex(c))
    return {ONE: c} if c != 0 else {}


def p_var(name):
    return {(((name, 1),), ()): 1 + 0j}


def _drop(s, a, b):
    m = abs(a) if abs(a) > abs(b) else abs(b)
    if abs(s) <= 1e-11 * m:
        return True
    return False


def p_add(p, q, cq=1):
    if not q:
        return p
    if not p and cq == 1:
        return q
    r = dict(p)
    for k, v in q.items():
        if cq != 1:
            v = v * cq
        o = r.get(k)
        if o is None:
            r[k] = v
        else:
            s = o + v
            if _drop(s, o, v):
                del r[k]
            else:
                # clean residues in one component
                m = 1e-11 * max(abs(o), abs(v))
                re, im = s.real, s.imag
                if re and abs(re) <= m:
                    re = 0.0
                if im and abs(im) <= m:
                    im = 0.0
                r[k] = complex(re, im)
    return r


def _mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for v, k in b:
        d[v] = d.get(v, 0) + k
    return tuple(sorted(d.items()))


def _L_add(a, b, sb=1):
    if not b:
        return a
    d = dict(a)
    for m, c in b:
        s = d.get(m, 0.0) + sb * c
        if abs(s) < 1e-11:
            d.pop(m, None)
        else:
            d[m] = _snapf(s)
    return tuple(sorted(d.items()))


def p_mul(p, q):
    if not p or not q:
        return {}
    if len(p) == 1 and ONE in p:
        c = p[ONE]
        if c == 1:
            return q
        return {k: snap(v * c) for k, v in q.items()}
    if len(q) == 1 and ONE in q:
        c = q[ONE]
        if c == 1:
            return p
        return {k: snap(v * c) for k, v in p.items()}
    r = {}
    big = {}
    needred = False
    for (m1, l1), c1 in p.items():
        for (m2, l2), c2 in q.items():
            m = _mono_mul(m1, m2)
            l = _L_add(l1, l2) if (l1 and l2) else (l1 or l2)
            k = (m, l)
            v = c1 * c2
            o = r.get(k)
            a = abs(v)
            if o is None:
                r[k] = v
                big[k] = a
            else:
                r[k] = o + v
                if a > big[k]:
                    big[k] = a
    out = {}
    for k, v in r.items():
        t = 1e-11 * big[k]
        re, im = v.real, v.imag
        if abs(re) <= t:
            re = 0.0
        if abs(im) <= t:
            im = 0.0
        if re == 0.0 and im == 0.0:
            continue
        out[k] = complex(_snapf(re), _snapf(im))
        if REDUCE and not needred:
            for vv, kk in k[0]:
                if kk >= 2 and vv in REDUCE:
                    needred = True
                    break
    if needred:
        out = p_reduce(out)
    return out


def p_reduce(p):
    while True:
        todo = None
        for k in p:
            for v, e in k[0]:
                if e >= 2 and v in REDUCE:
                    todo = v
                    break
            if todo:
                break
        if todo is None:
            return p
        keep, acc = {}, {}
        for k, c in p.items():
            e = dict(k[0]).get(todo, 0)
            if e >= 2:
                rest = dict(k[0])
                if e % 2:
                    rest[todo] = 1
                else:
                    del rest[todo]
                base = {(tuple(sorted(rest.items())), k[1]): c}
                t = base
                sub = REDUCE[todo]
                for _ in range(e // 2):
                    # multiply without reducing todo (sub has no todo)
                    t = p_mul(t, sub)
                acc = p_add(acc, t)
            else:
                keep[k] = c
        p = p_add(keep, acc)


def p_conj(p):
    r = {}
    for (m, l), c in p.items():
        if l:
            l = tuple((mm, -x) for mm, x in l)
        r[(m, l)] = c.conjugate()
    return r


def p_key(p):
    return tuple(sorted((k, round(c.real, 11), round(c.imag, 11)) for k, c in p.items()))


def p_isconst(p):
    return not p or (len(p) == 1 and ONE in p)


def p_cval(p):
    return p.get(ONE, 0j)


def p_hasE(p):
    return any(l for (_, l) in p)


def p_vars(p):
    s = set()
    for (m, l) in p:
        for v, _ in m:
            s.add(v)
        for mm, _ in l:
            for v, _ in mm:
                s.add(v)
    return s


def p_eval(p, env):
    t = 0j
    for (m, l), c in p.items():
        for v, k in m:
            c = c * env[v] ** k
        if l:
            x = 0.0
            for mm, cc in l:
                for v, k in mm:
                    cc = cc * env[v] ** k
                x += cc
            c = c * cmath.exp(1j * x)
        t += c
    return t


def p_real_split(p):
    """(re, im) as polys; both are real-valued polys."""
    c = p_conj(p)
    re = p_mul(p_const(0.5), p_add(p, c))
    im = p_mul(p_const(-0.5j), p_add(p, c, -1))
    return re, im


def p_scale_ratio(p, q):
    """If p == c*q for constant c return c else None."""
    if len(p) != len(q) or not q:
        return None
    k0 = next(iter(q))
    if k0 not in p:
        return None
    c = p[k0] / q[k0]
    for k, v in q.items():
        w = p.get(k)
        if w is None or abs(w - c * v) > 1e-10 * max(1.0, abs(w)):
            return None
    return snap(c)


# ---------------------------------------------------------------- formulas
TRUE = True
FALSE = False


class SymBool:
    __slots__ = ('op', 'args', '_key')

    def __init__(self, op, args):
        self.op, self.args = op, args
        self._key = None

    def key(self):
        if self._key is None:
            if self.op in ('eq0', 'lt0', 'le0'):
                self._key = (self.op, p_key(self.args[0]))
            elif self.op == 'bool':
                self._key = (self.op, self.args[0])
            else:
                self._key = (self.op,) + tuple(a.key() for a in self.args)
        return self._key

    def __bool__(self):
        from . import engine
        return engine.current().decide(self)

    def __and__(self, o):
        return f_and([self, o])

    __rand__ = __and__

    def __or__(self, o):
        return f_or([self, o])

    __ror__ = __or__

    def __invert__(self):
        return f_not(self)

    def __xor__(self, o):
        o = as_formula(o)
        return f_or([f_and([self, f_not(o)]), f_and([f_not(self), o])])

    __rxor__ = __xor__

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)) or type(o).__name__ == 'bool_':
            return f_not(self.__xor__(o))
        return NotImplemented

    def __ne__(self, o):
        if isinstance(o, (bool, SymBool)) or type(o).__name__ == 'bool_':
            return self.__xor__(o)
        return NotImplemented

    def __hash__(self):
        return 0

    def __mul__(self, o):
        return Sym(1 if bool(self) else 0) * o

    __rmul__ = __mul__

    def __add__(self, o):
        return Sym(1 if bool(self) else 0) + o

    __radd__ = __add__

    def __int__(self):
        return int(bool(self))

    def __index__(self):
        return int(bool(self))

    def all(self, *a, **k):
        return self

    any = all

    def item(self):
        return self

    @property
    def shape(self):
        return ()

    def __repr__(self):
        if self.op == 'bool':
            return f'b:{self.args[0]}'
        if self.op in ('eq0', 'lt0', 'le0'):
            return f'[{Sym(self.args[0])!r} {self.op}]'
        return f'{self.op}{self.args!r}'


def as_formula(x):
    if isinstance(x, SymBool):
        return x
    if isinstance(x, Sym):
        return f_not(x._eq(Sym(0)))
    return bool(x)


def f_not(a):
    a = as_formula(a)
    if not isinstance(a, SymBool):
        return not a
    if a.op == 'not':
        return a.args[0]
    return SymBool('not', (a,))


def f_and(xs):
    out = []
    for x in xs:
        x = as_formula(x)
        if isinstance(x, SymBool):
            if x.op == 'and':
                out.extend(x.args)
            else:
                out.append(x)
        elif not x:
            return False
    seen, res = set(), []
    for x in out:
        k = x.key()
        if k not in seen:
            seen.add(k)
            res.append(x)
    if not res:
        return True
    if len(res) == 1:
        return res[0]
    return SymBool('and', tuple(res))


def f_or(xs):
    out = []
    for x in xs:
        x = as_formula(x)
        if isinstance(x, SymBool):
            if x.op == 'or':
                out.extend(x.args)
            else:
                out.append(x)
        elif x:
            return True
    seen, res = set(), []
    for x in out:
        k = x.key()
        if k not in seen:
            seen.add(k)
            res.append(x)
    if not res:
        return False
    if len(res) == 1:
        return res[0]
    return SymBool('or', tuple(res))


def f_implies(a, b):
    return f_or([f_not(a), b])


def f_iff(a, b):
    a, b = as_formula(a), as_formula(b)
    return f_or([f_and([a, b]), f_and([f_not(a), f_not(b)])])


def f_vars(f, acc=None):
    acc = set() if acc is None else acc
    if isinstance(f, SymBool):
        if f.op in ('eq0', 'lt0', 'le0'):
            acc |= p_vars(f.args[0])
        elif f.op != 'bool':
            for a in f.args:
                f_vars(a, acc)
    return acc


def f_eval(f, env, tol=1e-9):
    """Evaluate numerically (None when too close to call is not modelled)."""
    if not isinstance(f, SymBool):
        return bool(f)
    if f.op == 'eq0':
        p = f.args[0]
        sc = max([1.0] + [abs(c) for c in p.values()])
        return abs(p_eval(p, env)) <= tol * sc
    if f.op == 'lt0':
        return p_eval(f.args[0], env).real < 0
    if f.op == 'le0':
        return p_eval(f.args[0], env).real <= tol
    if f.op == 'bool':
        return bool(env[f.args[0]])
    if f.op == 'not':
        return not f_eval(f.args[0], env, tol)
    if f.op == 'and':
        return all(f_eval(a, env, tol) for a in f.args)
    if f.op == 'or':
        return any(f_eval(a, env, tol) for a in f.args)
    raise AssertionError(f.op)


def mk_eq0(p):
    if not p:
        return True
    if p_isconst(p):
        return abs(p_cval(p)) < 1e-10
    # single monomial c*x1^k1...*E(L) == 0  <=>  some xi == 0
    if len(p) == 1:
        (m, l), c = next(iter(p.items()))
        if len(m) >= 1:
            alts = [SymBool('eq0', ({(((v, 1),), ()): 1 + 0j},)) for v, _ in m]
            return f_or(alts)
        return False  # c*E(L) never zero
    # common unit factors: phases and signs
    it = iter(p)
    m0, L0 = next(it)
    if L0 and all(L == L0 for _, L in it):
        return mk_eq0({(m, ()): c for (m, L), c in p.items()})
    for v, e in m0:
        if e == 1 and len(REDUCE.get(v, ())) == 1 and ONE in REDUCE[v] and all((v, 1) in m for m, _ in p):
            return mk_eq0({(tuple(t for t in m if t[0] != v), L): c for (m, L), c in p.items()})
    # normalise scale
    k0 = max(p)
    c0 = p[k0]
    if c0 != 1:
        p = {k: snap(v / c0) for k, v in p.items()}
    return SymBool('eq0', (p,))


def mk_rel(op, p):
    """p < 0 or p <= 0, p must be real valued."""
    re, im = p_real_split(p)
    if im:
        raise Unsupported('ordering of complex symbolic values')
    p = re
    if p_isconst(p):
        v = p_cval(p).real
        return v < 0 if op == 'lt0' else v <= 1e-13
    k0 = max(p)
    c0 = abs(p[k0])
    if c0 != 1 and c0 != 0:
        p = {k: snap(v / c0) for k, v in p.items()}
    return SymBool(op, (p,))


# ---------------------------------------------------------------- Sym
def to_sym(x):
    if isinstance(x, Sym):
        return x
    if isinstance(x, bool):
        return Sym(int(x))
    if isinstance(x, (int, float, complex)):
        return Sym(x)
    if isinstance(x, Fraction):
        return Sym(float(x))
    if isinstance(x, SymBool):
        return Sym(1 if bool(x) else 0)
    if isinstance(x, sympy.Basic):
        from .sympy_bridge import sympy_to_sym
        return sympy_to_sym(x)
    if hasattr(x, 'dtype') and getattr(x, 'shape', None) == ():
        if x.dtype == object:
            return to_sym(x.item())
        return Sym(complex(x))
    if isinstance(x, numbers.Number):
        return Sym(complex(x))
    raise Unsupported(f'to_sym({type(x).__name__})')


class _SymMeta(type(numbers.Number)):
    def __instancecheck__(cls, o):
        return type(o) is Sym


EXACT_TOL = False


def _tiny(a, b):
    """a < b with one side a tolerance, if tolerances are taken as exactly zero"""
    if not EXACT_TOL:
        return None
    if b.is_const() and not a.is_const() and 0 < b.cval().real <= 1e-6:
        return a._le(Sym(0))
    if a.is_const() and not b.is_const() and 0 < a.cval().real <= 1e-6:
        return Sym(0)._lt(b)
    # relative tolerance: a small multiple of a maximum, a norm or an absolute value
    if _rel_tol(b) and not _rel_tol(a):
        return a._le(Sym(0))
    if _rel_tol(a) and not _rel_tol(b):
        return Sym(0)._lt(b)
    return None


def _rel_tol(x):
    if x.d is not None or len(x.n) != 1:
        return False
    (m, L), c = next(iter(x.n.items()))
    return not L and len(m) == 1 and m[0][1] == 1 and m[0][0][:3] in ('mx@', 'rt@', 'ab@') and c.imag == 0 and 0 < c.real <= 1e-4


class Sym(numbers.Number):
    """Symbolic complex number; also stands in for np.complex128 / np.float64."""
    __slots__ = ('n', 'd')
    __array_priority__ = 1.0
    shape = ()
    ndim = 0
    size = 1

    def __new__(cls, v=0, im=None):
        self = object.__new__(cls)
        if im is not None:
            return to_sym(v) + to_sym(im) * Sym(1j)
        if isinstance(v, dict):
            self.n, self.d = v, None
        elif type(v) is Sym:
            self.n, self.d = v.n, v.d
        elif isinstance(v, (int, float, complex)):
            self.n, self.d = p_const(v), None
        else:
            t = to_sym(v)
            self.n, self.d = t.n, t.d
        return self

    @staticmethod
    def var(name):
        return Sym(p_var(name))

    @staticmethod
    def frac(n, d):
        if d is not None:
            if not n:
                return Sym({})
            if p_isconst(d):
                c = p_cval(d)
                if c == 0:
                    raise ZeroDivisionError('symbolic division by zero')
                n = p_mul(n, p_const(1 / c))
                d = None
            else:
                c = p_scale_ratio(n, d)
                if c is not None:
                    n, d = p_const(c), None
                else:
                    n, d = _cancel(n, d)
        r = object.__new__(Sym)
        r.n, r.d = n, d
        return r

    # -- queries
    def is_const(self):
        return self.d is None and p_isconst(self.n)

    def cval(self):
        return p_cval(self.n)

    def is_real(self):
        if self.d is None:
            return not p_real_split(self.n)[1]
        return not p_real_split(p_mul(self.n, p_conj(self.d)))[1]

    # -- arithmetic
    def _co(self, o):
        if type(o) is Sym:
            return o
        if isinstance(o, (int, float, complex)):
            return Sym(o)
        if isinstance(o, sympy.Basic):
            return None
        if isinstance(o, (SymBool, numbers.Number)):
            return to_sym(o)
        return None

    def __add__(self, o):
        o = self._co(o)
        if o is None:
            return NotImplemented
        if self.d is None and o.d is None:
            return Sym(p_add(self.n, o.n))
        d1 = self.d or {ONE: 1 + 0j}
        d2 = o.d or {ONE: 1 + 0j}
        if p_key(d1) == p_key(d2):
            return Sym.frac(p_add(self.n, o.n), d1)
        q = _pdiv(d2, d1)
        if q is not None:
            return Sym.frac(p_add(p_mul(self.n, q), o.n), d2)
        q = _pdiv(d1, d2)
        if q is not None:
            return Sym.frac(p_add(self.n, p_mul(o.n, q)), d1)
        return Sym.frac(p_add(p_mul(self.n, d2), p_mul(o.n, d1)), p_mul(d1, d2))

    __radd__ = __add__

    def __neg__(self):
        r = object.__new__(Sym)
        r.n = {k: -v for k, v in self.n.items()}
        r.d = self.d
        return r

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = self._co(o)
        if o is None:
            return NotImplemented
        return self + (-o)

    def __rsub__(self, o):
        o = self._co(o)
        if o is None:
            return NotImplemented
        return o + (-self)

    def __mul__(self, o):
        o = self._co(o)
        if o is None:
            return NotImplemented
        if self.d is None and o.d is None:
            return Sym(p_mul(self.n, o.n))
        d = p_mul(self.d or {ONE: 1 + 0j}, o.d or {ONE: 1 + 0j})
        return Sym.frac(p_mul(self.n, o.n), d)

    __rmul__ = __mul__

    def inv(self):
        if not self.n:
            raise ZeroDivisionError('symbolic division by zero')
        if self.is_const():
            return Sym(1 / self.cval())
        from . import engine
        # unit exponential monomial: exact inverse
        n, d = self.n, self.d
        num = d or {ONE: 1 + 0j}
        if len(n) == 1:
            (m, l), c = next(iter(n.items()))
            if l:
                num = p_mul(num, {((), tuple((mm, -x) for mm, x in l)): 1 + 0j})
                n = {(m, ()): c}
        if not p_isconst(n):
            engine.current().require_nonzero(Sym(n))
        return Sym.frac(num, n)

    def __truediv__(self, o):
        o = self._co(o)
        if o is None:
            return NotImplemented
        return self * o.inv()

    def __rtruediv__(self, o):
        o = self._co(o)
        if o is None:
            return NotImplemented
        return o * self.inv()

    def __pow__(self, k):
        if type(k) is Sym:
            if not k.is_const():
                raise Unsupported('symbolic exponent')
            k = k.cval()
            k = k.real if k.imag == 0 else k
        if isinstance(k, float) and k.is_integer():
            k = int(k)
        if isinstance(k, numbers.Integral):
            k = int(k)
            if k == 0:
                return Sym(1)
            if k < 0:
                return self.inv() ** (-k)
            r = self
            for _ in range(k - 1):
                r = r * self
            return r
        if self.is_const():
            v = self.cval()
            if v.imag == 0 and v.real >= 0:
                v = v.real
            return Sym(v ** k)
        k2 = k * 2
        if isinstance(k, float) and float(k2).is_integer():
            return self.sqrt() ** int(k2)
        raise Unsupported(f'power {k}')

    def __rpow__(self, b):
        if self.is_const():
            return Sym(b ** self.cval())
        if isinstance(b, (int, float)) and abs(b - math.e) < 1e-12:
            return self.exp()
        raise Unsupported('symbolic exponent')

    def __mod__(self, o):
        from . import engine
        return engine.current().int_divmod(self, to_sym(o))[1]

    def __floordiv__(self, o):
        from . import engine
        return engine.current().int_divmod(self, to_sym(o))[0]

    def __rmod__(self, o):
        return to_sym(o) % self

    def __rfloordiv__(self, o):
        return to_sym(o) // self

    def conjugate(self):
        r = object.__new__(Sym)
        r.n = p_conj(self.n)
        r.d = p_conj(self.d) if self.d is not None else None
        return r

    conj = conjugate

    @property
    def real(self):
        if self.d is None:
            return Sym(p_real_split(self.n)[0])
        dc = p_conj(self.d)
        if p_key(dc) == p_key(self.d):
            return Sym.frac(p_real_split(self.n)[0], self.d)
        return (self + self.conjugate()) * Sym(0.5)

    @property
    def imag(self):
        if self.d is None:
            return Sym(p_real_split(self.n)[1])
        dc = p_conj(self.d)
        if p_key(dc) == p_key(self.d):
            return Sym.frac(p_real_split(self.n)[1], self.d)
        return (self - self.conjugate()) * Sym(-0.5j)

    def abs2(self):
        return (self * self.conjugate()).real

    def __abs__(self):
        if TOKENS is not None and not self.is_const() and self.is_real():
            from . import engine
            for f, r in ((self._lt(Sym(0)), -self), (Sym(0)._lt(self), self)):
                if isinstance(f, SymBool) and engine.current().facts_known.get(f.key()) is True:
                    return r
            f = self._lt(Sym(0))
            if isinstance(f, SymBool) and engine.current().facts_known.get(f.key()) is False:
                return self
        if self.is_const():
            return Sym(abs(self.cval()))
        if self.d is None and len(self.n) == 1:
            (m, l), c = next(iter(self.n.items()))
            if not m:
                return Sym(abs(c))
        if self.d is None and len(self.n) > 1 and self.is_real() and not p_hasE(self.n):
            from . import engine
            return engine.current().abs_atom(self)
        return self.abs2().sqrt()

    absolute = __abs__

    def sqrt(self):
        from . import engine
        if self.is_const():
            v = self.cval()
            if v.imag == 0 and v.real >= 0:
                return Sym(math.sqrt(v.real))
            return Sym(cmath.sqrt(v))
        return engine.current().sqrt_atom(self)

    def exp(self):
        if self.is_const():
            return Sym(cmath.exp(self.cval()))
        if self.d is not None:
            raise Unsupported('exp of rational function')
        # exp(c + i L): real part must be constant, imaginary part free poly
        re, im = p_real_split(self.n)
        if not p_isconst(re):
            raise Unsupported('exp of non-imaginary symbolic value')
        if p_hasE(im):
            raise Unsupported('nested exponential')
        c = cmath.exp(p_cval(re).real)
        c *= cmath.exp(1j * p_cval(im).real)
        L = tuple(sorted((m, _snapL(v.real)) for (m, _), v in im.items() if m))
        return Sym({((), L): snap(c)}) if L else Sym(c)

    def cos(self):
        z = (self * Sym(1j)).exp()
        return (z + z.conjugate()) * Sym(0.5) if self.is_real() else _un('cos')

    def sin(self):
        z = (self * Sym(1j)).exp()
        return (z - z.conjugate()) * Sym(-0.5j) if self.is_real() else _un('sin')

    def log10(self):
        if self.is_const():
            return Sym(math.log10(self.cval().real))
        raise Unsupported('log10')

    def log(self):
        if self.is_const():
            return Sym(math.log(self.cval().real))
        raise Unsupported('log')

    def sign(self):
        if bool(self._lt(Sym(0))):
            return Sym(-1)
        if bool(self._eq(Sym(0))):
            return Sym(0)
        return Sym(1)

    def rint(self):
        from . import engine
        return engine.current().round_atom(self)

    def __round__(self, nd=None):
        if self.is_const():
            v = self.cval().real
            return round(v) if nd is None else Sym(round(v, nd))
        if nd in (None, 0):
            return self.rint()
        if TOKENS is not None and nd > 0:
            from . import engine
            return engine.current().round_digits(self, nd)
        return self

    def floor(self):
        from . import engine
        return engine.current().floor_atom(self)

    __floor__ = floor

    def __trunc__(self):
        return int(self)

    # -- comparisons
    def _diff(self, o):
        if self.d is None and o.d is None:
            return p_add(self.n, o.n, -1), None
        d1 = self.d or {ONE: 1 + 0j}
        d2 = o.d or {ONE: 1 + 0j}
        if p_key(d1) == p_key(d2):
            return p_add(self.n, o.n, -1), d1
        return p_add(p_mul(self.n, d2), p_mul(o.n, d1), -1), p_mul(d1, d2)

    def _eq(self, o):
        p, _ = self._diff(o)
        return mk_eq0(p)

    def _lt(self, o):
        p, d = self._diff(o)
        if d is not None:
            p = p_mul(p, p_conj(d))
            if p_real_split(d)[1]:
                pass
        return mk_rel('lt0', p)

    def _le(self, o):
        p, d = self._diff(o)
        if d is not None:
            p = p_mul(p, p_conj(d))
        return mk_rel('le0', p)

    def __eq__(self, o):
        o = self._co(o)
        if o is None:
            return NotImplemented
        return self._eq(o)

    def __ne__(self, o):
        o = self._co(o)
        if o is None:
            return NotImplemented
        return f_not(self._eq(o))

    def __lt__(self, o):
        o = self._co(o)
        if o is None:
            return NotImplemented
        t = _tiny(self, o)
        return self._lt(o) if t is None else t

    def __le__(self, o):
        o = self._co(o)
        if o is None:
            return NotImplemented
        t = _tiny(self, o)
        return self._le(o) if t is None else t

    def __gt__(self, o):
        o = self._co(o)
        if o is None:
            return NotImplemented
        t = _tiny(o, self)
        return o._lt(self) if t is None else t

    def __ge__(self, o):
        o = self._co(o)
        if o is None:
            return NotImplemented
        t = _tiny(o, self)
        return o._le(self) if t is None else t

    def __hash__(self):
        if self.is_const():
            v = self.cval()
            return hash(v.real) if v.imag == 0 else hash(v)
        return 0

    def __bool__(self):
        r = f_not(self._eq(Sym(0)))
        return bool(r)

    # -- concretisation
    def _cc(self, what):
        if self.is_const():
            return self.cval()
        raise Unsupported(f'concretisation of a symbolic value by {what}()')

    def __complex__(self):
        return self._cc('complex')

    def __float__(self):
        v = self._cc('float')
        if abs(v.imag) > 1e-13:
            raise TypeError("can't convert complex to float")
        return float(v.real)

    def __int__(self):
        if not self.is_const():
            from . import engine
            return engine.current().concretize_int(self)
        return int(float(self))

    def __index__(self):
        if not self.is_const():
            from . import engine
            return engine.current().concretize_int(self)
        v = self._cc('index').real
        if v != int(v):
            raise TypeError('non-integer index')
        return int(v)

    def is_integer(self):
        return self.is_const() and self.cval().imag == 0 and float(self.cval().real).is_integer()

    def item(self):
        return self

    def copy(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        return (_rebuild, (self.n, self.d))

    @property
    def T(self):
        return self

    @property
    def dtype(self):
        return COMPLEX_DTYPE

    def astype(self, dt, **k):
        return self

    def reshape(self, *s, **k):
        import numpy as np
        from .arr import wrap
        return wrap(np.array(self, dtype=object).reshape(*s, **k))

    def _sympy_(self):
        from .sympy_bridge import sym_to_sympy
        return sym_to_sympy(self)

    def sum(self, *a, **k):
        return self

    def __repr__(self):
        if TOKENS is not None:
            # text output: constants as numbers, other values as numbered tokens the harness looks up
            if self.is_const():
                c = self.cval()
                return repr(c if c.imag else c.real)
            TOKENS.append(self)
            return f'§{len(TOKENS) - 1}§'

        def fm(p):
            out = []
            for (m, l), c in list(p.items())[:8]:
                t = '*'.join([f'{v}^{k}' if k > 1 else v for v, k in m])
                if l:
                    t += '*E(' + '+'.join(f"{x:g}{'*'.join(v for v, _ in mm)}" for mm, x in l) + ')'
                cs = f'{c.real:g}' if c.imag == 0 else f'({c:g})'
                out.append(cs + ('*' + t if t else ''))
            if len(p) > 8:
                out.append('...')
            return ' + '.join(out) or '0'
        s = fm(self.n)
        if self.d is not None:
            s = f'({s})/({fm(self.d)})'
        return s


def _rebuild(n, d):
    r = object.__new__(Sym)
    r.n, r.d = n, d
    return r


def _un(w):
    raise Unsupported(w)


import numpy as _np  # noqa: E402
COMPLEX_DTYPE = _np.dtype(object)


def _pdiv(p, q):
    """p/q as poly when q is a single monomial or p == c q, else None."""
    if p_isconst(q):
        c = p_cval(q)
        return {k: v / c for k, v in p.items()}
    c = p_scale_ratio(p, q)
    if c is not None:
        return p_const(c)
    if len(q) == 1:
        (mq, lq), cq = next(iter(q.items()))
        if lq:
            return None
        dq = dict(mq)
        out = {}
        for (m, l), c in p.items():
            dm = dict(m)
            for v, k in dq.items():
                if dm.get(v, 0) < k:
                    return None
                dm[v] -= k
                if not dm[v]:
                    del dm[v]
            out[(tuple(sorted(dm.items())), l)] = c / cq
        return out
    return _polydiv(p, q)


def _mono_deg(m):
    return sum(k for _, k in m)


def _polydiv(p, q, limit=60):
    """Exact multivariate division attempt (no exponentials), None if inexact."""
    if p_hasE(q):
        return None
    if any(v in REDUCE for v in p_vars(q)):
        return None

    def order(k):
        return (_mono_deg(k[0]), k[0])
    lq = max(q, key=order)
    cq = q[lq]
    dq = dict(lq[0])
    rem = dict(p)
    out = {}
    for _ in range(limit):
        if not rem:
            return out
        lp = max(rem, key=lambda k: (order(k), k[1]))
        dm = dict(lp[0])
        for v, k in dq.items():
            if dm.get(v, 0) < k:
                return None
            dm[v] -= k
            if not dm[v]:
                del dm[v]
        t = {(tuple(sorted(dm.items())), lp[1]): rem[lp] / cq}
        out = p_add(out, t)
        before = len(rem)
        rem = p_add(rem, p_mul(t, q), -1)
        if lp in rem:
            return None
        if len(rem) > before + 40:
            return None
    return None


def _cancel(n, d):
    """Cheap cancellation: common monomial content; exact division."""
    # reduce squared sqrt atoms: if d is single monomial containing sqrt atom s to
    # power 1, leave as is.
    com = None
    for p in (n, d):
        for (m, l) in p:
            dm = dict(m)
            if com is None:
                com = dm
            else:
                com = {v: min(k, dm[v]) for v, k in com.items() if v in dm}
            if not com:
                break
        if not com:
            break
    if com:
        def strip(p):
            r = {}
            for (m, l), c in p.items():
                dm = dict(m)
                for v, k in com.items():
                    dm[v] -= k
                    if not dm[v]:
                        del dm[v]
                r[(tuple(sorted(dm.items())), l)] = c
            return r
        n, d = strip(n), strip(d)
        if p_isconst(d):
            return p_mul(n, p_const(1 / p_cval(d))), None
    if len(n) <= 400 and len(d) <= 40 and not p_hasE(d):
        q = _polydiv(n, d)
        if q is not None:
            return q, None
    return n, d
