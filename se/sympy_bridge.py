"""Bridge between sympy expressions (the keys of Models) and Sym values."""
import sympy
from sympy.core.expr import AtomicExpr

from .sym import Sym, Unsupported, p_key, snap

_REG = {}
_BYID = []


class SymNum(AtomicExpr):
    """A sympy atom that stands for a symbolic *number* (a Sym)."""
    is_number = True
    is_commutative = True
    is_symbol = False
    is_Symbol = False
    is_Number = False
    is_finite = True
    is_comparable = False
    is_complex = True
    is_zero = None
    is_integer = None
    is_rational = None
    is_irrational = None
    is_negative = None
    is_positive = None
    is_extended_positive = None
    is_extended_negative = None
    is_infinite = False
    __slots__ = ('idx',)

    def __new__(cls, idx):
        obj = AtomicExpr.__new__(cls)
        obj.idx = int(idx)
        return obj

    def _eval_is_real(self):
        return True if _BYID[self.idx].is_real() else None

    def _hashable_content(self):
        return (self.idx,)

    def __getnewargs__(self):
        return (self.idx,)

    @property
    def free_symbols(self):
        return set()

    def _eval_evalf(self, prec):
        return None

    def sort_key(self, order=None):
        from sympy import S
        return self.class_key(), (1, (f'symnum{self.idx}',)), S.One.sort_key(), S.One

    @classmethod
    def class_key(cls):
        return 2, 0, 'SymNum'

    def _sympystr(self, printer):
        return f'SN{self.idx}'

    _latex = _sympystr
    _sympyrepr = _sympystr

    def _eval_conjugate(self):
        return sym_to_sympy(_BYID[self.idx].conjugate())

    def _eval_subs(self, old, new):
        return None

    def _eval_derivative(self, s):
        return sympy.S.Zero

    def as_real_imag(self, deep=True, **h):
        v = _BYID[self.idx]
        return sym_to_sympy(v.real), sym_to_sympy(v.imag)


def sym_to_sympy(v):
    if v.is_const():
        c = v.cval()

        def f(x):
            if float(x).is_integer():
                return sympy.Integer(int(x))
            return sympy.Float(x)
        return f(c.real) + sympy.I * f(c.imag) if c.imag else f(c.real)
    k = (p_key(v.n), p_key(v.d) if v.d is not None else None)
    if k in _REG:
        return SymNum(_REG[k])
    k2 = (p_key((-v).n), k[1])
    if k2 in _REG:      # keep -x and x related for sympy
        return -SymNum(_REG[k2])
    _BYID.append(v)
    _REG[k] = len(_BYID) - 1
    return SymNum(_REG[k])


def reset():
    _REG.clear()
    _BYID.clear()


def sympy_to_sym(x, env=None):
    """Evaluate a sympy expression to Sym; env maps symbol *names* to values."""
    env = env or {}
    if isinstance(x, SymNum):
        return _BYID[x.idx]
    if isinstance(x, sympy.Symbol):
        if x.name in env:
            v = env[x.name]
            return v if type(v) is Sym else Sym(v)
        if x.name == 'e':
            return Sym(1).exp()
        raise TypeError(f'Cannot convert expression to number: {x}')
    if x.is_Add:
        r = Sym(0)
        for a in x.args:
            r = r + sympy_to_sym(a, env)
        return r
    if x.is_Mul:
        r = Sym(1)
        for a in x.args:
            r = r * sympy_to_sym(a, env)
        return r
    if x.is_Pow:
        b, e = x.args
        if isinstance(b, sympy.Symbol) and b.name == 'e' and b.name not in env:
            return sympy_to_sym(e, env).exp()
        if b == sympy.E:
            return sympy_to_sym(e, env).exp()
        if e.is_Integer:
            return sympy_to_sym(b, env) ** int(e)
        bv = sympy_to_sym(b, env)
        ev = sympy_to_sym(e, env)
        if ev.is_const():
            return bv ** ev
        if bv.is_const() and abs(bv.cval() - 2.718281828459045) < 1e-12:
            return ev.exp()
        raise Unsupported(f'sympy power {x}')
    if isinstance(x, sympy.exp):
        return sympy_to_sym(x.args[0], env).exp()
    fn = getattr(getattr(x, 'func', None), '__name__', '')
    if fn == 'sin':
        return sympy_to_sym(x.args[0], env).sin()
    if fn == 'cos':
        return sympy_to_sym(x.args[0], env).cos()
    if fn == 'exp':
        return sympy_to_sym(x.args[0], env).exp()
    if fn == 'conjugate':
        return sympy_to_sym(x.args[0], env).conjugate()
    if x.is_number:
        return Sym(snap(complex(x)))
    if fn in env:
        return env[fn](*[sympy_to_sym(a, env) for a in x.args])
    raise Unsupported(f'sympy expression {type(x).__name__}')
