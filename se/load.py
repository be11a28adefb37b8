"""Loads /repo/qsymm twice: the real package (concrete replays) and a copy whose
modules are executed from the current source with symbolic stand-ins for numpy,
scipy, tinyarray and a few builtins."""
import builtins
import functools
import importlib
import importlib.abc
import importlib.machinery
import math
import os
import sys
import types
import warnings

import numpy as np
import scipy
import scipy.linalg
import scipy.sparse
import scipy.sparse.linalg
import sympy
import tinyarray as ta

from . import arr as AR
from . import sym as S
from .sym import Sym, SymBool, Unsupported, to_sym

REPO = os.environ.get('QSYMM_REPO', '/repo')
PKG = os.path.join(REPO, 'qsymm')
SYMNAME = 'qsymm_sym'

ENCODED = set()      # functions of the symbolic copy that were entered


# ------------------------------------------------------------------ builtins
class _NumMeta(type):
    base = None

    def __instancecheck__(cls, o):
        if cls is SFloat:
            return isinstance(o, float) or (isinstance(o, Sym) and o.is_real())
        return isinstance(o, complex) or isinstance(o, Sym)

    def __subclasscheck__(cls, c):
        if c in (SFloat, SComplex):
            return c is cls
        return issubclass(c, float if cls is SFloat else complex) or c is Sym

    def __eq__(cls, o):
        return o is cls or o is cls.real_type

    def __ne__(cls, o):
        return not (cls == o)

    def __hash__(cls):
        return hash(cls.real_type)


class SComplex(metaclass=_NumMeta):
    real_type = complex

    def __new__(cls, v=0, im=None):
        if im is not None:
            return to_sym(v) + to_sym(im) * Sym(1j)
        return _scalar(v, complex)


class SFloat(metaclass=_NumMeta):
    real_type = float
    fromhex = float.fromhex

    def __new__(cls, v=0.0):
        r = _scalar(v, float)
        if isinstance(r, Sym) and not r.is_real():
            raise TypeError("can't convert complex to float")
        return r


def _scalar(v, ty):
    if isinstance(v, Sym):
        return v
    if isinstance(v, sympy.Basic):
        from .sympy_bridge import sympy_to_sym
        if v.free_symbols:
            return ty(v)          # raises as sympy does
        return sympy_to_sym(v)
    if isinstance(v, np.ndarray) and v.size == 1 and v.dtype == object:
        return _scalar(v.reshape(-1)[0], ty)
    if isinstance(v, (AR.TAArr, AR.SymSp)):
        raise TypeError(f'cannot convert {type(v).__name__} to a number')
    return ty(v)


def _sround(x, nd=None):
    if isinstance(x, Sym):
        return x.__round__(nd)
    return round(x) if nd is None else round(x, nd)


def _shash(x):
    if _hsym(x):
        t = AR.HashTok(0)
        t.content = x
        return t
    return hash(x)


def _hsym(x):
    if isinstance(x, (AR.TAArr, Sym, SymBool, AR.HashTok)):
        return True
    if isinstance(x, sympy.Basic):
        from .sympy_bridge import SymNum
        return bool(x.atoms(SymNum)) if hasattr(x, 'atoms') else False
    if isinstance(x, (tuple, frozenset)):
        return any(_hsym(y) for y in x)
    return False


def _stype(*a):
    if len(a) == 1:
        return type(a[0])
    return type(*a)


def _sisinstance(o, c):
    return isinstance(o, _fixcls(c))


def _sissubclass(o, c):
    return issubclass(o, _fixcls(c))


def _fixcls(c):
    if isinstance(c, tuple):
        return tuple(_fixcls(x) for x in c)
    return c


def _sall(it):
    """all() without forking on every element"""
    for x in it:
        if not x:
            return False
    return True


# ------------------------------------------------------------------ proxies
class ModuleProxy(types.ModuleType):
    def __init__(self, mod, over, path):
        types.ModuleType.__init__(self, mod.__name__)
        self.__dict__['_mod'] = mod
        self.__dict__['_over'] = over
        self.__dict__['_path'] = path
        self.__dict__['_memo'] = {}

    def __getattr__(self, k):
        memo = self.__dict__['_memo']
        if k in memo:
            return memo[k]
        path = self.__dict__['_path']
        over = self.__dict__['_over']
        full = f'{path}.{k}'
        if full in over:
            v = over[full]
            if isinstance(v, types.FunctionType):
                v = _norm(v, k)
        else:
            v = getattr(self.__dict__['_mod'], k)
            if isinstance(v, types.ModuleType):
                v = proxy(v.__name__) if v.__name__.split('.')[0] in ROOTS else v
            elif isinstance(v, type) or not callable(v) or path.split('.')[0] == 'sympy':
                pass
            else:
                v = _default(v, full)
        memo[k] = v
        return v

    def __dir__(self):
        return dir(self.__dict__['_mod'])


ROOTS = {'numpy', 'scipy', 'tinyarray', 'sympy'}
_PROX = {}


def proxy(name):
    if name not in _PROX:
        mod = importlib.import_module(name)
        _PROX[name] = ModuleProxy(mod, OVER, name)
    return _PROX[name]


def _nt(x):
    if x is SComplex or x is Sym:
        return complex
    if x is SFloat:
        return float
    return x


def _norm(f, name):
    @functools.wraps(f)
    def g(*a, **k):
        a = [_nt(x) if isinstance(x, type) else x for x in a]
        for kk in k:
            if isinstance(k[kk], type):
                k[kk] = _nt(k[kk])
        return f(*a, **k)
    return g


def _lower_const(x):
    """constant symbolic containers -> numeric; raises if symbolic"""
    if isinstance(x, Sym):
        if not x.is_const():
            raise _NotConst
        c = x.cval()
        if c.imag == 0:
            return int(c.real) if float(c.real).is_integer() and False else c.real
        return c
    if isinstance(x, SymBool):
        raise _NotConst
    if isinstance(x, AR.TAArr):
        return _lower_const(x.a)
    if isinstance(x, AR.SymSp):
        raise _NotConst
    if isinstance(x, np.ndarray) and x.dtype == object:
        flat = x.reshape(-1)
        if not all(isinstance(e, Sym) and e.is_const() for e in flat):
            raise _NotConst
        return AR.num(x)
    if isinstance(x, list):
        return [_lower_const(y) for y in x]
    if type(x) is tuple:
        return tuple(_lower_const(y) for y in x)
    if isinstance(x, type):
        return _nt(x)
    return x


class _NotConst(Exception):
    pass


def _plainarg(x):
    if isinstance(x, AR.TAArr):
        return x.a
    if isinstance(x, type):
        return _nt(x)
    if isinstance(x, list):
        return [_plainarg(y) for y in x]
    if type(x) is tuple:
        return tuple(_plainarg(y) for y in x)
    return x


def _default(fn, full):
    """any library function without a stand-in: run it on numbers, or on object
    arrays when it merely moves entries around."""
    def g(*a, **k):
        try:
            a1 = [_lower_const(x) for x in a]
            k1 = {kk: _lower_const(x) for kk, x in k.items()}
        except _NotConst:
            pass
        else:
            return AR.post(fn(*a1, **k1))
        try:
            r = fn(*[_plainarg(x) for x in a], **{kk: _plainarg(x) for kk, x in k.items()})
        except Unsupported:
            raise
        except Exception as ex:
            raise Unsupported(f'{full} on symbolic values ({type(ex).__name__})')
        if isinstance(r, np.ndarray) and r.dtype != object and r.dtype.kind in 'fc':
            # a numeric result from symbolic input means the entries were ignored
            return AR.post(r)
        return AR.post(r)
    g.__name__ = getattr(fn, '__name__', full)
    return g


# ------------------------------------------------------------------ sympy stand-ins
def _lambdify(args, expr, *r, **k):
    """compiled evaluator of a sympy expression (symbolic interpreter)"""
    from .sympy_bridge import sympy_to_sym, SymNum
    names = []
    for x in (args if isinstance(args, (list, tuple)) else [args]):
        names.append(x if isinstance(x, str) else str(x))

    def f(*vals, **kw):
        if len(vals) > len(names):
            raise TypeError('too many arguments')
        env = dict(zip(names, vals))
        for kk in kw:
            if kk not in names:
                raise TypeError(f'unexpected keyword {kk}')
        env.update(kw)
        miss = [n for n in names if n not in env]
        if miss:
            raise TypeError(f'missing arguments {miss}')
        env = {n: (v if callable(v) or not isinstance(v, (int, float, complex, Sym, np.number)) else to_sym(v))
               for n, v in env.items()}
        if hasattr(expr, 'shape') and hasattr(expr, 'tolist'):
            m = expr
            out = np.empty(m.shape, dtype=object)
            for i in np.ndindex(*m.shape):
                out[i] = sympy_to_sym(m[i], env)
            return AR.wrap(out)
        return sympy_to_sym(sympy.sympify(expr), env)
    return f


def _nsimplify(expr, *a, **k):
    if isinstance(expr, Sym):
        if not expr.is_const():
            from .sympy_bridge import sym_to_sympy
            return sym_to_sympy(expr)
        c = expr.cval()
        expr = c.real if c.imag == 0 else c
    if isinstance(expr, sympy.Basic):
        from .sympy_bridge import SymNum
        if expr.atoms(SymNum):
            return expr
    return sympy.nsimplify(expr, *a, **k)


# ------------------------------------------------------------------ overrides
def _sp_coo_ctor(x, shape=None, **k):
    return AR.COO(x, shape=shape)


OVER = {}


def _fill():
    o = {}
    n = 'numpy.'
    simple = dict(
        array=AR.mk, asarray=AR.np_asarray, asanyarray=AR.np_asarray, zeros=AR.np_zeros, ones=AR.np_ones,
        empty=AR.np_empty, full=AR.np_full, eye=AR.np_eye, identity=AR.np_eye,
        zeros_like=AR.np_like(0), ones_like=AR.np_like(1), empty_like=AR.np_like(0),
        all=AR.np_all, any=AR.np_any, max=AR.np_max, min=AR.np_min, amax=AR.np_max, amin=AR.np_min,
        argmax=AR.np_argmax, argmin=AR.np_argmin, isclose=AR.np_isclose, allclose=AR.np_allclose,
        array_equal=AR.np_array_equal, array_equiv=AR.np_array_equiv, abs=AR.np_abs, absolute=AR.np_abs,
        real=AR.np_real, imag=AR.np_imag, conj=AR.np_conj, conjugate=AR.np_conj, round=AR.np_round,
        around=AR.np_round, sqrt=AR.np_sqrt, sum=AR.np_sum, prod=AR.np_prod, dot=AR.np_dot,
        matmul=AR.np_matmul, tensordot=AR.np_tensordot, einsum=AR.np_einsum, trace=AR.np_trace,
        diag=AR.np_diag, sort=AR.np_sort, argsort=AR.np_argsort, where=AR.np_where, nonzero=AR.np_nonzero,
        count_nonzero=AR.np_count_nonzero, cross=AR.np_cross, atleast_2d=AR.np_atleast_2d,
        maximum=AR.np_maximum, invert=AR.np_invert, isreal=AR.np_isreal, isfinite=AR.np_isfinite,
        isnan=AR.np_isnan, vectorize=AR.np_vectorize, kron=AR.np_kron, outer=AR.np_outer,
        unique=AR.np_unique, argwhere=AR.np_argwhere, iscomplexobj=AR.np_iscomplexobj,
        isrealobj=AR.np_isrealobj, angle=AR.np_angle, arctan2=AR.np_arctan2, linspace=AR.np_linspace, clip=AR.np_clip,
        concatenate=AR.np_concatenate,
        vdot=lambda a, b: AR.np_sum(AR.np_conj(AR.A(a)).reshape(-1) * AR.A(b).reshape(-1)),
        inner=lambda a, b: AR.np_dot(a, AR.A(b).T),
    )
    for u in ('exp', 'sin', 'cos', 'floor', 'rint', 'log', 'log10', 'sign'):
        simple[u] = AR._ew(u)
    for k, v in simple.items():
        o[n + k] = v
    o[n + 'complex128'] = Sym
    o[n + 'complex64'] = Sym
    o[n + 'float64'] = SFloat
    o[n + 'logical_not'] = AR.np_invert
    la = dict(det=AR.la_det, inv=AR.la_inv, norm=AR.la_norm, solve=AR.la_solve, expm=AR.la_expm,
              block_diag=AR.la_block_diag, lstsq=AR.la_lstsq)
    for m in ('scipy.linalg.', 'numpy.linalg.'):
        for k, v in la.items():
            o[m + k] = v
    o['numpy.linalg.matrix_power'] = AR.matrix_power
    for k in ('svd', 'eigh', 'eigvalsh', 'eigvals', 'eig', 'qr', 'null_space', 'schur', 'sqrtm', 'polar'):
        o['scipy.linalg.' + k] = AR._contract(k)
        if k not in ('null_space', 'schur', 'sqrtm', 'polar'):
            o['numpy.linalg.' + k] = AR.np_contract(k)
    o['numpy.linalg.matrix_rank'] = AR.np_contract('matrix_rank')
    sp = 'scipy.sparse.'
    for nm, c in (('csr_matrix', AR.CSR), ('coo_matrix', AR.COO), ('csc_matrix', AR.CSC),
                  ('lil_matrix', AR.LIL), ('spmatrix', AR.SymSp), ('dok_matrix', AR.LIL)):
        o[sp + nm] = c
    o[sp + 'issparse'] = lambda x: isinstance(x, AR.SymSp)
    o[sp + 'isspmatrix'] = lambda x: isinstance(x, AR.SymSp)
    o[sp + 'vstack'] = AR.sp_vstack
    o[sp + 'hstack'] = AR.sp_hstack
    o[sp + 'bmat'] = AR.sp_bmat
    o[sp + 'eye'] = AR.sp_eye
    o[sp + 'identity'] = AR.sp_eye
    sl = 'scipy.sparse.linalg.'
    o[sl + 'LinearOperator'] = AR.SymLinOp
    o[sl + 'aslinearoperator'] = AR.aslinearoperator
    o[sl + 'eigsh'] = AR._contract('eigsh')
    o[sl + 'norm'] = AR.la_norm
    o['scipy.spatial.distance.cdist'] = AR.cdist
    o['scipy.sparse.csgraph.connected_components'] = AR.connected_components
    t = 'tinyarray.'
    o[t + 'array'] = AR.ta_array
    o[t + 'asarray'] = AR.ta_array
    o[t + 'matrix'] = AR.ta_array
    o[t + 'dot'] = AR.ta_dot
    o[t + 'identity'] = AR.ta_identity
    o[t + 'zeros'] = AR.ta_filled(0)
    o[t + 'ones'] = AR.ta_filled(1)
    o[t + 'transpose'] = AR.ta_transpose
    o[t + 'ndarray_int'] = AR.TAInt
    o[t + 'ndarray_float'] = AR.TAFloat
    o[t + 'ndarray_complex'] = AR.TAComplex
    o[t + 'round'] = lambda a: AR.TAFloat(AR.np_round(a.a))
    o['sympy.lambdify'] = _lambdify
    o['sympy.utilities.lambdify.lambdify'] = _lambdify
    o['sympy.nsimplify'] = _nsimplify
    OVER.update(o)


_fill()


def _lru_cache(maxsize=128, typed=False):
    def deco(f):
        f.cache_clear = lambda: None
        f.cache_info = lambda: None
        return f
    if callable(maxsize):
        return deco(maxsize)
    return deco


class _FT(types.ModuleType):
    def __getattr__(self, k):
        if k == 'lru_cache':
            return _lru_cache
        if k == 'cache':
            return lambda f: _lru_cache()(f)
        return getattr(functools, k)


_FUNCTOOLS = _FT('functools')


class _MATH(types.ModuleType):
    def __getattr__(self, k):
        v = getattr(math, k)
        if not callable(v):
            return v

        def g(*a):
            if any(isinstance(x, Sym) and not x.is_const() for x in a):
                if k in ('sqrt', 'sin', 'cos', 'exp', 'floor'):
                    return getattr(a[0], k)()
                if k == 'isclose':
                    return AR.np_isclose(a[0], a[1])
                if k == 'atan2':
                    return AR.np_arctan2(a[0], a[1])
                if k in ('fabs',):
                    return abs(a[0])
                raise Unsupported(f'math.{k}')
            return v(*[x.cval().real if isinstance(x, Sym) else x for x in a])
        return g


_MATHP = _MATH('math')


class SFraction:
    """fractions.Fraction; a symbolic value is a fraction with denominator 1"""

    def __new__(cls, n=0, d=None):
        import fractions
        if d is None and isinstance(n, Sym) and not n.is_const():
            r = object.__new__(cls)
            r.numerator, r.denominator = n, 1
            return r
        n, d = (x.cval().real if isinstance(x, Sym) and x.is_const() else x for x in (n, d))
        return fractions.Fraction(n, d)

    def limit_denominator(self, max_denominator=1000000):
        if max_denominator < 2:
            return SFraction(self.numerator.rint())
        return self


class _FR(types.ModuleType):
    def __getattr__(self, k):
        import fractions
        return SFraction if k == 'Fraction' else getattr(fractions, k)


_FRACTIONS = _FR('fractions')


def _sym_import(name, globals=None, locals=None, fromlist=(), level=0):
    if level:
        return builtins.__import__(name, globals, locals, fromlist, level)
    root = name.split('.')[0]
    if root == 'qsymm':
        name = SYMNAME + name[5:]
        m = builtins.__import__(name, globals, locals, fromlist or ('x',), 0)
        return m if fromlist else sys.modules[SYMNAME]
    if root in ROOTS:
        builtins.__import__(name)
        return proxy(name) if fromlist else proxy(root)
    if name == 'functools':
        return _FUNCTOOLS
    if name == 'fractions':
        return _FRACTIONS
    if name == 'math':
        return _MATHP
    return builtins.__import__(name, globals, locals, fromlist, level)


def _smax(*a, **k):
    """max(x, y) of numbers: no case split if the inputs are in boxes (see engine.box)"""
    from . import engine
    if not k and len(a) > 1 and any(isinstance(x, Sym) and not x.is_const() for x in a) and engine.current().grid is not None and all(
            isinstance(x, (Sym, int, float)) and to_sym(x).is_real() for x in a):
        return engine.current().max_atom([to_sym(x) for x in a])
    return builtins.max(*a, **k)


def _sym_builtins():
    d = dict(builtins.__dict__)
    d.update(complex=SComplex, float=SFloat, round=_sround, hash=_shash, max=_smax, __import__=_sym_import)
    return d


class _Loader(importlib.abc.Loader):
    def __init__(self, path):
        self.path = path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, 'rb') as f:
            src = f.read()
        code = compile(src, self.path, 'exec')
        module.__dict__['__builtins__'] = _sym_builtins()
        module.__file__ = self.path
        exec(code, module.__dict__)


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        if name != SYMNAME and not name.startswith(SYMNAME + '.'):
            return None
        rel = name.split('.')[1:]
        base = os.path.join(PKG, *rel)
        if os.path.isdir(base):
            f = os.path.join(base, '__init__.py')
            return importlib.machinery.ModuleSpec(name, _Loader(f), origin=f, is_package=True) \
                if os.path.exists(f) else None
        f = base + '.py'
        if not os.path.exists(f):
            return None
        return importlib.machinery.ModuleSpec(name, _Loader(f), origin=f)


class _NS:
    """qsymm namespace handed to harnesses: attributes resolve in the package
    and then in all of its modules, plus the matching numeric libraries."""

    def __init__(self, pkg, sym):
        self.pkg = pkg
        self.sym = sym
        self.mods = {}

    def mod(self, name):
        return importlib.import_module(self.pkg.__name__ + '.' + name)

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        for m in ('groups', 'model', 'linalg', 'hamiltonian_generator', 'symmetry_finder',
                  'kwant_continuum', 'kwant_rmt', 'kwant_linalg_lll'):
            if k == m:
                return self.mod(m)
        if hasattr(self.pkg, k):
            return getattr(self.pkg, k)
        for m in ('groups', 'model', 'linalg', 'hamiltonian_generator', 'symmetry_finder',
                  'kwant_continuum', 'kwant_rmt', 'kwant_linalg_lll'):
            mm = self.mod(m)
            if hasattr(mm, k):
                return getattr(mm, k)
        raise AttributeError(k)

    def _reset(self):
        pass


_LOADED = None


def load():
    global _LOADED
    if _LOADED is None:
        warnings.simplefilter('ignore')
        if REPO not in sys.path:
            sys.path.insert(0, REPO)
        import qsymm
        assert os.path.realpath(os.path.dirname(qsymm.__file__)) == os.path.realpath(PKG), qsymm.__file__
        sys.meta_path.insert(0, _Finder())
        symm = importlib.import_module(SYMNAME)
        for m in ('groups', 'model', 'linalg', 'hamiltonian_generator', 'symmetry_finder',
                  'kwant_continuum', 'kwant_rmt', 'kwant_linalg_lll'):
            importlib.import_module('qsymm.' + m)
            importlib.import_module(SYMNAME + '.' + m)
        Q, R = _NS(symm, True), _NS(qsymm, False)
        for ns in (Q, R):
            ns.np = proxy('numpy') if ns.sym else np
            ns.ta = proxy('tinyarray') if ns.sym else ta
            ns.sp = proxy('scipy.sparse') if ns.sym else scipy.sparse
            ns.la = proxy('scipy.linalg') if ns.sym else scipy.linalg
            ns.sla = proxy('scipy.sparse.linalg') if ns.sym else scipy.sparse.linalg
        _LOADED = Q, R
    return _LOADED
