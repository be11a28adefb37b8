"""Arrays of Sym values and the numpy / scipy / tinyarray stand-ins that the
symbolically executed copy of qsymm sees."""
import itertools
import math
import numbers

import numpy as np
import scipy
import sympy

from . import sym as S
from .sym import Sym, SymBool, Unsupported, f_and, f_not, f_or, to_sym


def eng():
    from . import engine
    return engine.current()


class SymArray(np.ndarray):
    __array_priority__ = 20.0

    def __array_finalize__(self, obj):
        pass

    @property
    def real(self):
        return wrap(_map(self, lambda x: to_sym(x).real))

    @real.setter
    def real(self, v):
        im = self.imag
        self[...] = wrap(np.asarray(v, dtype=object)) + im * Sym(1j)

    @property
    def imag(self):
        return wrap(_map(self, lambda x: to_sym(x).imag))

    def conj(self):
        return wrap(_map(self, _conj1))

    conjugate = conj

    def astype(self, dt, **k):
        return _astype(self, dt)

    def __array_wrap__(self, arr, context=None, return_scalar=False):
        if arr.ndim == 0:
            return arr.item() if arr.dtype == object else arr[()]
        return np.ndarray.view(arr, type(self)) if arr.dtype == object else np.asarray(arr)

    def all(self, axis=None, **k):
        return np_all(self, axis)

    def any(self, axis=None, **k):
        return np_any(self, axis)

    def max(self, axis=None, **k):
        return np_max(self, axis)

    def min(self, axis=None, **k):
        return np_min(self, axis)

    def argmax(self, axis=None, **k):
        return np_argmax(self, axis)

    def argmin(self, axis=None, **k):
        return np_argmax(-self, axis)

    def round(self, decimals=0, **k):
        return np_round(self, decimals)

    def trace(self, *a, **k):
        return np_trace(self)

    def dot(self, o):
        return np_dot(self, o)

    def __matmul__(self, o):
        if hasattr(o, '__rmatmul__') and not isinstance(o, np.ndarray) and not isinstance(o, (list, tuple)):
            return NotImplemented
        return np_matmul(self, o)

    def __rmatmul__(self, o):
        return np_matmul(o, self)

    def __pow__(self, k):
        return wrap(_map(self, lambda x: to_sym(x) ** k))

    def __eq__(self, o):
        return _cmp(self, o, lambda a, b: a == b)

    def __ne__(self, o):
        return _cmp(self, o, lambda a, b: a != b)

    def __lt__(self, o):
        return _cmp(self, o, lambda a, b: a < b)

    def __le__(self, o):
        return _cmp(self, o, lambda a, b: a <= b)

    def __gt__(self, o):
        return _cmp(self, o, lambda a, b: a > b)

    def __ge__(self, o):
        return _cmp(self, o, lambda a, b: a >= b)

    __hash__ = None

    def __bool__(self):
        if self.size != 1:
            raise ValueError('The truth value of an array with more than one element is ambiguous.')
        return bool(self.reshape(-1)[0])

    def __invert__(self):
        return wrap(_map(self, f_not))

    def __and__(self, o):
        return _cmp(self, o, lambda a, b: f_and([a, b]))

    __rand__ = __and__

    def __or__(self, o):
        return _cmp(self, o, lambda a, b: f_or([a, b]))

    __ror__ = __or__

    def __getitem__(self, k):
        k = _fix_index(k)
        r = np.ndarray.__getitem__(self, k)
        return r

    def __setitem__(self, k, v):
        k = _fix_index(k)
        if isinstance(v, TAArr):
            v = v.a
        if isinstance(v, np.ndarray) and v.dtype != object:
            v = wrap(v)
        elif isinstance(v, (int, float, complex, np.number)):
            v = to_sym(v)
        elif isinstance(v, (list, tuple)):
            v = mk(v)
        np.ndarray.__setitem__(self, k, v)

    def copy(self, *a, **k):
        return wrap(np.array(np.asarray(self), dtype=object, copy=True))

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    def sum(self, axis=None, **k):
        return np_sum(self, axis)

    def tolist(self):
        return np.asarray(self).tolist()

    def __reduce__(self):
        return (wrap, (np.asarray(self),))

    def __iadd__(self, o):
        self[...] = self + o
        return self

    def __isub__(self, o):
        self[...] = self - o
        return self

    def __imul__(self, o):
        self[...] = self * o
        return self

    def __itruediv__(self, o):
        self[...] = self / o
        return self


def _fix_index(k):
    def f(x):
        if isinstance(x, np.ndarray) and x.dtype == object:
            flat = x.reshape(-1)
            if all(isinstance(e, (SymBool, bool, np.bool_)) for e in flat):
                return np.array([bool(e) for e in flat], dtype=bool).reshape(x.shape)
            if any(isinstance(e, (SymBool, bool, np.bool_)) for e in flat):
                raise Unsupported('index array of mixed truth values and integers')
            return np.array([int(e) for e in flat], dtype=int).reshape(x.shape)
        if isinstance(x, Sym):
            return int(x)
        if isinstance(x, SymBool):
            return bool(x)
        if isinstance(x, list):
            if any(isinstance(e, (SymBool,)) for e in x):
                return [bool(e) for e in x]
            if any(isinstance(e, Sym) for e in x):
                return [int(e) for e in x]
        return x
    if isinstance(k, tuple):
        return tuple(f(x) for x in k)
    return f(k)


def _conj1(x):
    if isinstance(x, (Sym, complex, float, int)):
        return x.conjugate()
    if hasattr(x, 'conjugate'):
        return x.conjugate()
    return x


def _map(a, f):
    a = np.asarray(a)
    out = np.empty(a.shape, dtype=object)
    of = out.reshape(-1) if out.ndim else out
    if out.ndim == 0:
        out[()] = f(a.item())
        return out
    for i, x in enumerate(a.reshape(-1)):
        of[i] = f(x)
    return out


def _cmp(a, o, f):
    o = _plain(o)
    if o is NotImplemented:
        return NotImplemented
    try:
        x, y = np.broadcast_arrays(np.asarray(a), np.asarray(o, dtype=object))
    except ValueError:
        if f(1, 1) is True and f(1, 2) is False:
            return False
        raise
    out = np.empty(x.shape, dtype=object)
    for i in np.ndindex(*x.shape):
        out[i] = f(to_symx(x[i]), to_symx(y[i]))
    if out.ndim == 0:
        return out.item()
    return maybe_bool(out)


def to_symx(x):
    if isinstance(x, (SymBool, bool, np.bool_)):
        return x
    return to_sym(x)


def _plain(o):
    if isinstance(o, TAArr):
        return o.a
    if isinstance(o, SymSp):
        return o.a
    return o


def maybe_bool(out):
    """object array of bools without symbols -> real bool array"""
    flat = out.reshape(-1)
    if all(isinstance(x, (bool, np.bool_)) for x in flat):
        return np.array([bool(x) for x in flat], dtype=bool).reshape(out.shape)
    return wrap(out, conv=False)


def _symconst(x):
    return isinstance(x, sympy.Expr) and x.is_number


def wrap(a, conv=True):
    """ndarray -> SymArray (object); numeric float/complex arrays are lifted."""
    if isinstance(a, SymArray):
        return a
    if isinstance(a, TAArr):
        return a.a
    a = np.asarray(a)
    if a.dtype == object:
        if conv:
            flat = a.reshape(-1) if a.ndim else None
            if a.ndim == 0:
                return a.view(SymArray)
            need = any(not isinstance(x, Sym) for x in flat)
            if need:
                b = np.empty(a.shape, dtype=object)
                bf = b.reshape(-1)
                for i, x in enumerate(flat):
                    bf[i] = to_sym(x) if isinstance(x, (numbers.Number, np.number)) or _symconst(x) else x
                a = b
        return a.view(SymArray)
    if a.dtype.kind in 'fc':
        return _map(a, lambda x: Sym(complex(x))).view(SymArray)
    if a.dtype.kind in 'iu':
        return _map(a, lambda x: Sym(int(x))).view(SymArray)
    return a


def post(r):
    """wrap results of real numpy functions"""
    if isinstance(r, SymArray):
        if r.ndim == 0:
            return r.item()
        return r
    if isinstance(r, np.ndarray):
        if r.dtype == object:
            if r.ndim == 0:
                return r.item()
            return wrap(r, conv=False)
        if r.dtype.kind in 'fc':
            return wrap(r)
        return r
    if isinstance(r, tuple) and type(r) is tuple:
        return tuple(post(x) for x in r)
    if isinstance(r, list):
        return [post(x) for x in r]
    if isinstance(r, (np.complexfloating, np.floating)):
        return to_sym(complex(r))
    return r


def is_intlike_dtype(dt):
    return dt in (int, bool, np.int64, np.int32, np.bool_, 'int', np.intp) or \
        (isinstance(dt, np.dtype) and dt.kind in 'iub')


def _has_sym(x):
    if isinstance(x, (Sym, SymBool, sympy.Basic, TAArr, SymSp)):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object
    if isinstance(x, (list, tuple)):
        return any(_has_sym(y) for y in x)
    return False


def _lower(x):
    """nested lists with array-likes -> plain nested / ndarray object"""
    if isinstance(x, TAArr):
        return np.asarray(x.a)
    if isinstance(x, SymSp):
        raise Unsupported('array of sparse matrices')
    if isinstance(x, np.ndarray):
        return np.asarray(x)
    if isinstance(x, (list, tuple)):
        return [_lower(y) for y in x]
    if isinstance(x, sympy.MatrixBase):
        return np.array(x.tolist(), dtype=object).reshape(x.shape)
    if isinstance(x, (map, range, filter, zip)) or type(x).__name__ == 'generator':
        return x if isinstance(x, range) else x
    return x


def mk(x, dtype=None, copy=True, ndmin=0):
    """np.array"""
    if isinstance(x, SymSp):
        # numpy makes a 0-d object array out of sparse matrices
        out = np.empty((), dtype=object)
        out[()] = x
        return out
    if isinstance(x, (list, tuple)) and any(isinstance(y, SymSp) for y in x):
        out = np.empty(len(x), dtype=object)
        for i, y in enumerate(x):
            out[i] = y
        return out
    if hasattr(x, '__array__') and not isinstance(x, (np.ndarray, Sym, TAArr, sympy.Basic, sympy.MatrixBase)) \
            and not isinstance(x, np.generic):
        x = x.__array__()
    y = _lower(x)
    if isinstance(y, str) and dtype is not None:
        return np.array(y, dtype=dtype)   # raises as numpy does
    if isinstance(y, np.ndarray) and y.dtype != object:
        a = y
        if dtype is None:
            r = np.array(a, copy=copy)
            r = r if r.dtype.kind in 'iubSUM' else wrap(r)
        elif is_intlike_dtype(dtype):
            r = a.astype(dtype)
        elif dtype is object:
            r = a.astype(object)
        else:
            r = wrap(a)
        return _nd(r, ndmin)
    try:
        if _has_sym(y):
            a = np.array(y, dtype=object)
        else:
            a = np.array(y)
    except ValueError:
        raise
    if a.dtype == object:
        flat = a.reshape(-1) if a.ndim else [a.item()]
        if any(isinstance(e, (np.ndarray, list)) for e in flat):
            if dtype in (complex, float):
                raise ValueError('setting an array element with a sequence.')
        if dtype is not None and dtype is not object:
            return _nd(_astype(a, dtype), ndmin)
        if all(isinstance(e, (SymBool, bool, np.bool_)) for e in flat):
            return _nd(a.view(SymArray), ndmin)
        if a.ndim == 0 and not isinstance(a.item(), (Sym, SymBool)):
            return a
        return _nd(wrap(a), ndmin)
    if dtype is not None and is_intlike_dtype(dtype):
        return _nd(a.astype(dtype), ndmin)
    if dtype is None and a.dtype.kind in 'iub':
        return _nd(a, ndmin)
    if a.dtype.kind in 'iubfc' and dtype is not object:
        return _nd(wrap(a), ndmin)
    if dtype in (complex, float) and a.dtype.kind in 'US':
        return _nd(wrap(a.astype(dtype)), ndmin)
    return _nd(a, ndmin)


def _nd(a, ndmin):
    while a.ndim < ndmin:
        a = a[np.newaxis]
    return a


def _astype(a, dt):
    a = np.asarray(a)
    if dt is object or dt is Sym and False:
        return wrap(a)
    if is_intlike_dtype(dt):
        flat = a.reshape(-1)
        if dt in (bool, np.bool_) or (isinstance(dt, np.dtype) and dt.kind == 'b'):
            return np.array([bool(e) for e in flat], dtype=bool).reshape(a.shape)
        if all(not isinstance(e, Sym) or e.is_const() for e in flat):
            return np.array([int(e.cval().real) if isinstance(e, Sym) else int(e) for e in flat],
                            dtype=int).reshape(a.shape)
        r = wrap(_map(a, lambda x: _trunc(to_sym(x))))
        return r
    # float / complex
    if dt in (float, np.float64) or dt is FloatScalar:
        def f(x):
            s = to_sym(x)
            if not s.is_real():
                # numpy: ComplexWarning for arrays, TypeError for python objects
                raise TypeError("can't convert complex to float")
            return s
        return wrap(_map(a, f))
    return wrap(_map(a, to_sym))


def _trunc(x):
    if x.is_const():
        return Sym(int(x.cval().real))
    r = eng().round_atom(x)
    # integral already?
    if r._eq(x) is True:
        return x
    if bool(r._eq(x)):
        return r
    raise Unsupported('truncation of a non-integer symbolic value')


def as_objarr(x):
    if isinstance(x, SymSp):
        x = x.a
    if isinstance(x, TAArr):
        x = x.a
    if isinstance(x, SymLinOp):
        x = x.m
    if isinstance(x, np.ndarray):
        return np.asarray(wrap(x))
    if isinstance(x, sympy.MatrixBase):
        return np.asarray(wrap(np.array(x.tolist(), dtype=object).reshape(x.shape)))
    if isinstance(x, (list, tuple)):
        return np.asarray(mk(x)) if _has_sym(x) else np.asarray(wrap(np.array(x)))
    out = np.empty((), dtype=object)
    out[()] = to_sym(x)
    return out


class FloatScalar:
    pass


# ------------------------------------------------------------ numpy functions
def A(x):
    """asarray preserving object"""
    if isinstance(x, SymArray):
        return x
    return mk(x, copy=False) if not isinstance(x, np.ndarray) else x


def np_asarray(x, dtype=None, **k):
    if isinstance(x, SymArray) and dtype is None:
        return x
    if isinstance(x, np.ndarray) and dtype is None and x.dtype != object:
        return x if x.dtype.kind in 'iub' else wrap(x)
    return mk(x, dtype)


def _shape(s):
    if isinstance(s, (list, tuple)):
        return tuple(int(i) for i in s)
    return (int(s),)


def _filled(shape, v, dtype):
    if dtype is not None and is_intlike_dtype(dtype):
        return np.full(_shape(shape), v, dtype=dtype)
    a = np.empty(_shape(shape), dtype=object)
    a[...] = Sym(v)
    return a.view(SymArray)


def np_zeros(shape, dtype=float, **k):
    return _filled(shape, 0, dtype)


def np_ones(shape, dtype=float, **k):
    return _filled(shape, 1, dtype)


def np_empty(shape, dtype=float, **k):
    return _filled(shape, 0, dtype)


def np_full(shape, v, dtype=None, **k):
    if dtype is None and isinstance(v, (int, np.integer)):
        return np.full(shape, v)
    a = np.empty(_shape(shape), dtype=object)
    a[...] = to_sym(v)
    return a.view(SymArray)


def np_eye(n, m=None, k=0, dtype=float, **kw):
    if is_intlike_dtype(dtype):
        return np.eye(n, m, k, dtype=dtype)
    return wrap(np.eye(int(n), None if m is None else int(m), k))


def np_like(v):
    def f(a, dtype=None, **k):
        a = A(a)
        if dtype is None and a.dtype.kind in 'iub':
            return np.full(a.shape, v, dtype=a.dtype)
        return _filled(a.shape, v, dtype)
    return f


def _red(a, axis, f):
    """reduce object array with f(list)"""
    a = np.asarray(A(a))
    if axis is None:
        return f(list(a.reshape(-1)))
    if isinstance(axis, tuple):
        axis = tuple(x % a.ndim for x in axis)
        rest = [i for i in range(a.ndim) if i not in axis]
        b = a.transpose(rest + list(axis)).reshape([a.shape[i] for i in rest] + [-1])
    else:
        b = np.moveaxis(a, axis, -1)
    out = np.empty(b.shape[:-1], dtype=object)
    for i in np.ndindex(*out.shape):
        out[i] = f(list(b[i]))
    return out


def np_all(a, axis=None, **k):
    if not _has_sym(a) and not isinstance(a, SymBool):
        return np.all(a, axis=axis, **k)
    if isinstance(a, SymBool):
        return a
    r = _red(a, axis, f_and)
    return r if axis is None else maybe_bool(r)


def np_any(a, axis=None, **k):
    if not _has_sym(a) and not isinstance(a, SymBool):
        return np.any(a, axis=axis, **k)
    if isinstance(a, SymBool):
        return a
    r = _red(a, axis, f_or)
    return r if axis is None else maybe_bool(r)


def np_max(a, axis=None, **k):
    if isinstance(a, SymSp):
        return a.max()
    if not _has_sym(a):
        return post(np.max(a, axis=axis))

    def f(l):
        if not l:
            raise ValueError('zero-size array to reduction operation maximum which has no identity')
        return eng().max_of([to_sym(x) for x in l])
    r = _red(a, axis, f)
    return r if axis is None else wrap(r)


def np_min(a, axis=None, **k):
    if not _has_sym(a):
        return post(np.min(a, axis=axis))

    def f(l):
        if not l:
            raise ValueError('zero-size array to reduction operation minimum which has no identity')
        return eng().min_of([to_sym(x) for x in l])
    r = _red(a, axis, f)
    return r if axis is None else wrap(r)


def np_argmax(a, axis=None, **k):
    if not _has_sym(a):
        return np.argmax(a, axis=axis)

    def f(l):
        l = [to_sym(x) for x in l]
        best = 0
        for i in range(1, len(l)):
            if bool(l[best]._lt(l[i])):
                best = i
        return best
    r = _red(a, axis, f)
    return r if axis is None else np.array(r.tolist(), dtype=int)


def np_argmin(a, axis=None, **k):
    if not _has_sym(a):
        return np.argmin(a, axis=axis)
    return np_argmax(-A(a), axis)


def _exact_close(x, y, rtol, atol):
    """closeness of two scalars under the active comparison mode"""
    x, y = to_sym(x), to_sym(y)
    e = x._eq(y)
    if e is True:
        return True
    if x.is_const() and y.is_const():
        try:
            return abs(x.cval() - y.cval()) <= float(atol) + float(rtol) * abs(y.cval())
        except Unsupported:
            return e
    if eng().ex.exact_tol:
        return e
    return (abs(x - y))._le(to_sym(atol) + to_sym(rtol) * abs(y))


def np_isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    if not _has_sym(a) and not _has_sym(b) and not _has_sym(atol):
        return np.isclose(a, b, rtol=rtol, atol=atol)
    x, y = np.broadcast_arrays(np.asarray(A(a)), np.asarray(A(b)))
    out = np.empty(x.shape, dtype=object)
    for i in np.ndindex(*x.shape):
        out[i] = _exact_close(x[i], y[i], rtol, atol)
    if out.ndim == 0:
        return out.item()
    return maybe_bool(out)


def np_allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    r = np_isclose(_plain(a), _plain(b), rtol, atol)
    return sum_of_squares(np_all(r), a, b) if isinstance(r, np.ndarray) else r


def sum_of_squares(f, a, b):
    """all p_i = 0 <=> sum |p_i|^2 = 0, which is simpler if e.g. a unitary transformation drops out"""
    if not isinstance(f, SymBool) or f.op != 'and' or any(not isinstance(x, SymBool) or x.op != 'eq0' for x in f.args):
        return f
    x, y = np.broadcast_arrays(np.asarray(A(_plain(a))), np.asarray(A(_plain(b))))
    ds = [to_sym(u) - to_sym(v) for u, v in zip(x.reshape(-1), y.reshape(-1))]
    if any(d.d is not None for d in ds):
        return f
    ps = [d.n for d in ds]
    vs = set().union(*[S.p_vars(p) for p in ps])
    if len(vs) < 3 or sum(len(p) ** 2 for p in ps) > 20000:
        return f
    t = {}
    for p in ps:
        t = S.p_add(t, S.p_mul(p, S.p_conj(p)))
    t = {k: c for k, c in t.items() if abs(c) > 1e-12}
    if not len(S.p_vars(t)) < len(vs):
        return f
    if all(not L and c.real > 0 and abs(c.imag) < 1e-12 and all(e % 2 == 0 for _, e in m) for (m, L), c in t.items()):
        return S.f_and([S.f_or([Sym.var(v)._eq(Sym(0)) for v, e in m]) if m else False for (m, L), c in t.items()])
    return Sym(t)._eq(Sym(0))


def np_array_equal(a, b, **k):
    a, b = A(a), A(b)
    if a.shape != b.shape:
        return False
    if not _has_sym(a) and not _has_sym(b):
        return np.array_equal(a, b)
    r = _cmp(wrap(a), b, lambda x, y: x == y)
    return np_all(r) if isinstance(r, np.ndarray) else r


def np_array_equiv(a, b):
    return np_array_equal(*np.broadcast_arrays(A(a), A(b)))


def np_abs(a, *r, **k):
    if isinstance(a, SymSp):
        return a.__abs__()
    if isinstance(a, TAArr):
        a = a.a
    if isinstance(a, (list, tuple)):
        a = mk(a)
    if isinstance(a, np.ndarray):
        if a.dtype != object:
            return np.abs(a)
        return wrap(_map(a, lambda x: abs(to_sym(x))))
    return abs(to_sym(a)) if isinstance(a, Sym) else to_sym(abs(a))


def np_real(a):
    if isinstance(a, (SymSp, TAArr)):
        return a.real
    if isinstance(a, (list, tuple)):
        a = mk(a)
    if isinstance(a, np.ndarray):
        return wrap(a).real if a.dtype == object else a.real
    return to_sym(a).real


def np_imag(a):
    if isinstance(a, (SymSp, TAArr)):
        return a.imag
    if isinstance(a, (list, tuple)):
        a = mk(a)
    if isinstance(a, np.ndarray):
        return wrap(a).imag if a.dtype == object else a.imag
    return to_sym(a).imag


def np_conj(a, *r, **k):
    if isinstance(a, (SymSp, TAArr)):
        return a.conj()
    if isinstance(a, (list, tuple)):
        a = mk(a)
    if isinstance(a, np.ndarray):
        return wrap(a).conj() if a.dtype == object else a.conj()
    return to_sym(a).conjugate()


def np_round(a, decimals=0, **k):
    if isinstance(a, SymSp):
        return a.round(decimals)
    if isinstance(a, TAArr):
        a = a.a
    if isinstance(a, (list, tuple)):
        a = mk(a)
    if isinstance(a, np.ndarray):
        if a.dtype != object:
            return np.round(a, decimals)
        return wrap(_map(a, lambda x: _round1(to_sym(x), decimals)))
    return _round1(to_sym(a), decimals)


def _round1(x, decimals):
    if decimals == 0:
        return eng().round_atom(x)
    if x.is_const():
        v = x.cval()
        return Sym(complex(round(v.real, decimals), round(v.imag, decimals)))
    if S.TOKENS is not None and decimals > 0:
        return eng().round_digits(x, decimals)
    if eng().ex.exact_tol:
        return x     # rounding to `decimals` digits is within tolerance of identity
    s = 10 ** decimals
    return eng().round_atom(x * s) / s


def np_sqrt(a, **k):
    if isinstance(a, (list, tuple)):
        a = mk(a)
    if isinstance(a, np.ndarray):
        return wrap(_map(a, lambda x: to_sym(x).sqrt()))
    return to_sym(a).sqrt()


def _ew(name):
    def f(a, *r, **k):
        if isinstance(a, (list, tuple)):
            a = mk(a)
        if isinstance(a, TAArr):
            a = a.a
        if isinstance(a, np.ndarray):
            return wrap(_map(a, lambda x: getattr(to_sym(x), name)()))
        return getattr(to_sym(a), name)()
    return f


def np_sum(a, axis=None, **k):
    if isinstance(a, SymSp):
        return a.sum(axis)
    if isinstance(a, (list, tuple)) or type(a).__name__ == 'generator':
        a = mk(list(a))
    if isinstance(a, np.ndarray) and a.dtype != object:
        return np.sum(a, axis=axis)

    def f(l):
        r = Sym(0)
        for x in l:
            r = r + (to_sym(x))
        return r
    if isinstance(a, Sym):
        return a
    r = _red(a, axis, f)
    return r if axis is None else wrap(r)


def np_prod(a, axis=None, **k):
    a = list(a) if type(a).__name__ == 'generator' else a
    if isinstance(a, (list, tuple)) and any(isinstance(x, sympy.Basic) for x in a):
        r = 1
        for x in a:
            r = r * x
        return r
    if isinstance(a, (list, tuple)):
        a = mk(a)
    if isinstance(a, np.ndarray) and a.dtype != object:
        return np.prod(a, axis=axis)

    def f(l):
        r = Sym(1)
        for x in l:
            r = r * to_sym(x)
        return r
    r = _red(a, axis, f)
    return r if axis is None else wrap(r)


def _mm(a, b):
    """2D x 2D"""
    n, k = a.shape
    k2, m = b.shape
    if k != k2:
        raise ValueError(f'matmul: dimension mismatch {a.shape} {b.shape}')
    out = np.empty((n, m), dtype=object)
    for i in range(n):
        for j in range(m):
            s = Sym(0)
            for l in range(k):
                x = a[i, l]
                if isinstance(x, Sym) and x.d is None and not x.n:
                    continue
                y = b[l, j]
                if isinstance(y, Sym) and y.d is None and not y.n:
                    continue
                s = s + x * y
            out[i, j] = s
    return out


def np_dot(a, b, **k):
    if isinstance(a, (SymSp, SymLinOp)):
        return a.dot(b)
    if isinstance(b, (SymSp,)):
        return b.__rmatmul__(a)
    a, b = A(a), A(b)
    if a.dtype != object and b.dtype != object:
        return np.dot(a, b)
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    if a.ndim <= 2 and b.ndim <= 2:
        return np_matmul(a, b)
    return post(np.tensordot(np.asarray(a), np.asarray(b), axes=((a.ndim - 1,), (b.ndim - 2,))))


def np_matmul(a, b, **k):
    if isinstance(a, (SymSp, SymLinOp)):
        return a @ b
    if isinstance(b, (SymSp,)):
        return b.__rmatmul__(a)
    a, b = A(a), A(b)
    if a.dtype != object and b.dtype != object:
        return np.matmul(a, b)
    a, b = np.asarray(wrap(a)), np.asarray(wrap(b))
    if a.ndim == 0 or b.ndim == 0:
        raise ValueError('matmul: Input operand does not have enough dimensions')
    if a.ndim == 1 and b.ndim == 1:
        return _mm(a[None], b[:, None])[0, 0]
    if a.ndim == 1 and b.ndim == 2:
        return wrap(_mm(a[None], b)[0])
    if b.ndim == 1 and a.ndim == 2:
        return wrap(_mm(a, b[:, None])[:, 0])
    if a.ndim == 2 and b.ndim == 2:
        return wrap(_mm(a, b))
    if b.ndim == 1:
        b = b[:, None]
        return wrap(np.asarray(np_matmul(a, b))[..., 0])
    if a.ndim == 1:
        a = a[None]
        return wrap(np.asarray(np_matmul(a, b))[..., 0, :])
    lead = np.broadcast_shapes(a.shape[:-2], b.shape[:-2])
    a = np.broadcast_to(a, lead + a.shape[-2:])
    b = np.broadcast_to(b, lead + b.shape[-2:])
    out = np.empty(lead + (a.shape[-2], b.shape[-1]), dtype=object)
    for i in np.ndindex(*lead):
        out[i] = _mm(a[i], b[i])
    return wrap(out)


def np_tensordot(a, b, axes=2):
    a, b = A(a), A(b)
    if a.dtype != object and b.dtype != object:
        return np.tensordot(a, b, axes)
    a, b = np.asarray(wrap(a)), np.asarray(wrap(b))
    if isinstance(axes, (int, np.integer)):
        ax, bx = list(range(a.ndim - axes, a.ndim)), list(range(axes))
    else:
        ax, bx = axes
        ax = [ax] if isinstance(ax, (int, np.integer)) else list(ax)
        bx = [bx] if isinstance(bx, (int, np.integer)) else list(bx)
    ax = [i % a.ndim for i in ax]
    bx = [i % b.ndim for i in bx]
    if [a.shape[i] for i in ax] != [b.shape[i] for i in bx]:
        raise ValueError('shape-mismatch for sum')
    ra = [i for i in range(a.ndim) if i not in ax]
    rb = [i for i in range(b.ndim) if i not in bx]
    sa, sb = [a.shape[i] for i in ra], [b.shape[i] for i in rb]
    k = int(np.prod([a.shape[i] for i in ax])) if ax else 1
    A2 = a.transpose(ra + ax).reshape(int(np.prod(sa)) if sa else 1, k)
    B2 = b.transpose(bx + rb).reshape(k, int(np.prod(sb)) if sb else 1)
    return post(_mm(A2, B2).reshape(sa + sb))


def np_einsum(spec, *ops, **k):
    ops = [A(o) for o in ops]
    if all(o.dtype != object for o in ops):
        return np.einsum(spec, *ops)
    spec = spec.replace(' ', '')
    if '->' in spec:
        ins, out = spec.split('->')
    else:
        ins = spec
        letters = sorted(set(ins.replace(',', '')))
        out = ''.join(c for c in letters if ins.count(c) == 1)
    ins = ins.split(',')
    dims = {}
    for s, o in zip(ins, ops):
        if len(s) != o.ndim:
            raise ValueError('einsum: operand dimension mismatch')
        for c, n in zip(s, o.shape):
            if dims.setdefault(c, n) != n and n != 1:
                raise ValueError('einsum: dimension mismatch')
    ops = [np.asarray(wrap(o)) for o in ops]
    rest = [c for c in dims if c not in out]
    res = np.empty([dims[c] for c in out], dtype=object)
    for oi in np.ndindex(*res.shape):
        e = dict(zip(out, oi))
        t = Sym(0)
        for ri in itertools.product(*[range(dims[c]) for c in rest]):
            e.update(zip(rest, ri))
            v = Sym(1)
            for s, o in zip(ins, ops):
                x = o[tuple(e[c] for c in s)]
                if isinstance(x, Sym) and not x.n:
                    v = None
                    break
                v = v * x
            if v is not None:
                t = t + v
        res[oi] = t
    return post(res)


def np_trace(a, **k):
    if isinstance(a, SymSp):
        return a.trace()
    a = A(a)
    if a.dtype != object:
        return np.trace(a, **k)
    s = Sym(0)
    for i in range(min(a.shape)):
        s = s + a[i, i]
    return s


def np_diag(a, k=0):
    a = A(a)
    if a.dtype != object:
        return np.diag(a, k)
    if a.ndim == 1:
        n = len(a) + abs(k)
        out = np_zeros((n, n))
        for i, x in enumerate(a):
            out[(i, i + k) if k >= 0 else (i - k, i)] = x
        return out
    return wrap(np.asarray(np.diagonal(np.asarray(a), k)).copy())


def np_sort(a, axis=-1, **k):
    a = A(a)
    if a.dtype != object:
        return np.sort(a, axis)
    if a.ndim != 1:
        return np.apply_along_axis(lambda r: np.asarray(np_sort(wrap(r))), axis, np.asarray(a)).view(SymArray)
    return wrap(np.array(sorted(a, key=_Key), dtype=object))


def np_argsort(a, axis=-1, **k):
    a = A(a)
    if a.dtype != object:
        return np.argsort(a, axis, kind='stable')
    return np.array(sorted(range(len(a)), key=lambda i: _Key(a[i])), dtype=int)


def cdist(a, b, metric='euclidean', **k):
    a, b = A(a), A(b)
    if a.dtype != object and b.dtype != object:
        import scipy.spatial.distance
        return scipy.spatial.distance.cdist(a, b, metric, **k)
    if metric not in ('euclidean', 'sqeuclidean'):
        raise Unsupported(f'cdist with metric {metric}')
    out = np.empty((len(a), len(b)), dtype=object)
    for i in range(len(a)):
        for j in range(len(b)):
            s = sum(((to_sym(x) - to_sym(y)) * (to_sym(x) - to_sym(y)) for x, y in zip(a[i], b[j])), Sym(0))
            out[i, j] = s if metric == 'sqeuclidean' else s.sqrt()
    return wrap(out)


def connected_components(g, *a, **k):
    import scipy.sparse.csgraph
    g = A(g.toarray() if isinstance(g, SymSp) else g)
    if g.dtype == object:
        g = np.array([[bool(x) for x in r] for r in np.asarray(g)])
    return scipy.sparse.csgraph.connected_components(g, *a, **k)


class _Key:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def __lt__(self, o):
        return bool(self.v < o.v)


def np_where(c, *xy):
    if not xy:
        return np_nonzero(c)
    c = np.asarray(c)
    x, y = xy
    c, x, y = np.broadcast_arrays(c, np.asarray(A(x)), np.asarray(A(y)))
    out = np.empty(c.shape, dtype=object)
    for i in np.ndindex(*c.shape):
        out[i] = x[i] if bool(c[i]) else y[i]
    return post(out)


def np_nonzero(a):
    a = np.asarray(A(a))
    if a.dtype == object:
        a = np.array([bool(x) for x in a.reshape(-1)], dtype=bool).reshape(a.shape)
    return np.nonzero(a)


def np_count_nonzero(a, **k):
    return len(np_nonzero(a)[0])


def np_cross(a, b, **k):
    a, b = A(a), A(b)
    if a.dtype != object and b.dtype != object:
        return np.cross(a, b)
    if a.shape != (3,) or b.shape != (3,):
        raise Unsupported('cross')
    return wrap(np.array([a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2],
                          a[0] * b[1] - a[1] * b[0]], dtype=object))


def np_atleast_2d(a, *r):
    a = A(a)
    if a.ndim == 0:
        return wrap(np.asarray(a).reshape(1, 1))
    if a.ndim == 1:
        return a[np.newaxis, :]
    return a


def np_maximum(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        x, y = np.broadcast_arrays(np.asarray(A(a)), np.asarray(A(b)))
        out = np.empty(x.shape, dtype=object)
        for i in np.ndindex(*x.shape):
            out[i] = eng().max_of([to_sym(x[i]), to_sym(y[i])])
        return post(out)
    return eng().max_of([to_sym(a), to_sym(b)])


def np_invert(a, *r):
    if isinstance(a, SymBool):
        return f_not(a)
    a = A(a)
    if a.dtype != object:
        return np.invert(a)
    return maybe_bool(_map(a, f_not))


def np_isreal(a):
    if isinstance(a, np.ndarray):
        return maybe_bool(_map(a, lambda x: to_sym(x).imag._eq(Sym(0))))
    return to_sym(a).imag._eq(Sym(0))


def np_isfinite(a):
    if isinstance(a, np.ndarray):
        return np.ones(a.shape, dtype=bool)
    return True


def np_isnan(a):
    if isinstance(a, np.ndarray):
        return np.zeros(a.shape, dtype=bool)
    return False


def np_vectorize(f, otypes=None, **k):
    def g(*args):
        args = [np.asarray(A(a)) for a in args]
        args = np.broadcast_arrays(*args)
        out = np.empty(args[0].shape, dtype=object)
        for i in np.ndindex(*out.shape):
            out[i] = f(*[a[i] for a in args])
        if out.ndim == 0:
            return out
        return wrap(out, conv=False)
    return g


def np_kron(a, b):
    a, b = A(a), A(b)
    if a.dtype != object and b.dtype != object:
        return np.kron(a, b)
    a, b = np.asarray(wrap(a)), np.asarray(wrap(b))
    if a.ndim != 2 or b.ndim != 2:
        raise Unsupported('kron')
    out = np.empty((a.shape[0] * b.shape[0], a.shape[1] * b.shape[1]), dtype=object)
    for i in range(a.shape[0]):
        for j in range(a.shape[1]):
            for k in range(b.shape[0]):
                for l in range(b.shape[1]):
                    out[i * b.shape[0] + k, j * b.shape[1] + l] = a[i, j] * b[k, l]
    return wrap(out)


def np_outer(a, b, **k):
    a, b = np.asarray(A(a)).reshape(-1), np.asarray(A(b)).reshape(-1)
    return post(np.multiply.outer(a, b))


def np_unique(a, *r, **k):
    if not _has_sym(a):
        return np.unique(a, *r, **k)
    raise Unsupported('np.unique')


def np_argwhere(a):
    return np.transpose(np_nonzero(a))


def np_iscomplexobj(a):
    if isinstance(a, (SymArray, Sym)):
        return True
    return np.iscomplexobj(a)


def np_isrealobj(a):
    return not np_iscomplexobj(a)


def np_angle(z, **k):
    if isinstance(z, Sym):
        if z.is_const():
            import cmath
            return Sym(cmath.phase(z.cval()))
    raise Unsupported('angle')


def np_arctan2(y, x):
    if isinstance(y, np.ndarray) or isinstance(x, np.ndarray):
        y, x = np.broadcast_arrays(np.asarray(A(y), dtype=object), np.asarray(A(x), dtype=object))
        out = np.empty(y.shape, dtype=object)
        for i in np.ndindex(*y.shape):
            out[i] = np_arctan2(y[i], x[i])
        return wrap(out) if out.shape else out.item()
    from . import engine
    return engine.current().arctan2_atom(to_sym(y), to_sym(x))


def np_linspace(*a, **k):
    return wrap(np.linspace(*a, **k))


def np_clip(*a, **k):
    raise Unsupported('clip')


# ------------------------------------------------------------ linear algebra
def _allconst(*arrs):
    for a in arrs:
        a = np.asarray(A(a))
        if a.dtype == object and not all(isinstance(x, Sym) and x.is_const() for x in a.reshape(-1)):
            return False
    return True


def num(a):
    """constant SymArray -> numeric"""
    a = np.asarray(A(a))
    if a.dtype != object:
        return a
    c = np.array([x.cval() for x in a.reshape(-1)], dtype=complex).reshape(a.shape)
    if np.all(c.imag == 0):
        return c.real.copy()
    return c


def la_det(a, **k):
    a = A(a)
    if a.dtype != object:
        return to_sym(float(np.linalg.det(a)))
    a = np.asarray(a)
    n = a.shape[0]
    if a.shape[0] != a.shape[1]:
        raise ValueError('det of non-square matrix')

    def det(rows, cols):
        if not rows:
            return Sym(1)
        r = rows[0]
        t = Sym(0)
        for k_, c in enumerate(cols):
            x = a[r, c]
            if isinstance(x, Sym) and not x.n:
                continue
            m = det(rows[1:], cols[:k_] + cols[k_ + 1:])
            t = t + (x * m if k_ % 2 == 0 else -(x * m))
        return t
    if n > 6:
        raise Unsupported('det of large symbolic matrix')
    return det(tuple(range(n)), tuple(range(n)))


def la_inv(a, **k):
    if isinstance(a, TAArr):
        a = a.a
    a = A(a)
    if a.dtype != object:
        return wrap(np.linalg.inv(a))
    n = a.shape[0]
    if n == 0:
        return a
    d = la_det(a)
    z = d._eq(Sym(0))
    if z is True or (z is not False and bool(z)):
        raise np.linalg.LinAlgError('Singular matrix')
    di = d.inv()
    a = np.asarray(a)
    out = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            minor = np.delete(np.delete(a, j, 0), i, 1)
            m = la_det(minor) if n > 1 else Sym(1)
            out[i, j] = (m if (i + j) % 2 == 0 else -m) * di
    return wrap(out)


def la_norm(a, ord=None, axis=None, **k):
    if isinstance(a, SymSp):
        a = a.a
    a = A(a)
    if ord not in (None, 2, 'fro') or (ord == 2 and a.ndim != 1):
        raise Unsupported('norm order')

    def f(l):
        s = Sym(0)
        for x in l:
            s = s + to_sym(x).abs2()
        return s.sqrt()
    r = _red(wrap(a), axis, f)
    return r if axis is None else wrap(r)


def la_solve(a, b, **k):
    return np_matmul(la_inv(a), b)


def _poly_root(q):
    """real Sym q >= 0 -> a real root theta with theta**2 == q"""
    if q.is_const():
        return Sym(math.sqrt(max(0.0, q.cval().real)))
    if q.d is None and len(q.n) == 1:
        (m, l), c = next(iter(q.n.items()))
        if not l and all(e % 2 == 0 for _, e in m) and c.real > 0:
            return Sym({(tuple((v, e // 2) for v, e in m), ()): complex(math.sqrt(c.real))})
    return q.sqrt()


def la_expm(a):
    """exp of A = -i (n . s) by its minimal polynomial (Lagrange formula)."""
    a = A(a)
    n = a.shape[0]
    if a.dtype != object:
        return wrap(scipy.linalg.expm(a))
    if _allconst(a):
        return wrap(scipy.linalg.expm(num(a)))
    H = a * Sym(1j)          # a = -i H
    # eigenvalues of H assumed m*theta with m = -s..s (2s+1 <= n), or subsets
    tr2 = np_trace(np_matmul(H, H))
    I = np_eye(n)
    cands = []
    for two_s in range(1, 6):
        ms = [(-two_s + 2 * k) / 2 for k in range(two_s + 1)]
        for mult in (n / (two_s + 1), (n - 1) / (two_s + 1) if n > 1 else 0):
            if mult <= 0 or not float(mult).is_integer():
                continue
            cands.append((ms, mult))
        if two_s >= n:
            break
    # generic two-level-plus-zero spectra {-1,0,1}*theta with multiplicity from trace
    for ms, mult in cands:
        w = mult * sum(m * m for m in ms)
        if w == 0:
            continue
        q = (tr2 * Sym(1 / w)).real
        th2 = q
        # check minimal polynomial prod (H - m theta) == 0 using even structure
        P = None
        pos = sorted({abs(m) for m in ms})
        M = I
        H2 = np_matmul(H, H)
        for m in pos:
            if m == 0:
                M = np_matmul(M, H)
            else:
                M = np_matmul(M, H2 - I * (th2 * Sym(m * m)))
        if len(ms) != 2 * len([m for m in pos if m]) + (1 if 0 in pos else 0):
            continue
        ok = all(to_sym(x)._eq(Sym(0)) is True for x in np.asarray(M).reshape(-1))
        z = 0 in pos
        if not ok and not z:
            # spectrum with an extra zero eigenvalue (block with identity)
            M = np_matmul(M, H)
            ok = all(to_sym(x)._eq(Sym(0)) is True for x in np.asarray(M).reshape(-1))
            if ok:
                ms = sorted(ms + [0.0])
        if ok:
            th = _poly_root(th2)
            if bool(th._eq(Sym(0))):
                return I
            out = np_zeros((n, n))
            for m in ms:
                Pm = I
                for m2 in ms:
                    if m2 != m:
                        Pm = np_matmul(Pm, (H - I * (th * Sym(m2))) / (th * Sym(m - m2)))
                out = out + Pm * (th * Sym(-1j * m)).exp()
            return out
    raise Unsupported('matrix exponential of a general symbolic matrix')


# contract stubs for factorisations: the harness context supplies them
def _contract(name):
    def f(a, *r, **k):
        if isinstance(a, TAArr):
            a = a.a
        if isinstance(a, SymSp):
            a = a.a
        if _allconst(a) and getattr(eng(), 'hints', None) and name in ('eigh', 'eig', 'qr', 'svd'):
            from . import contracts
            if contracts.hinted(eng(), name, wrap(as_objarr(num(a)))) is not None:
                return getattr(contracts, name)(eng(), wrap(as_objarr(num(a))), *r, **k)
        if _allconst(a):
            fn = getattr(scipy.linalg if name != 'eigsh' else contracts_const, name)
            return post(fn(num(a), *r, **{x: y for x, y in k.items()}))
        from . import contracts
        return getattr(contracts, name)(eng(), A(a), *r, **k)
    return f


class contracts_const:
    @staticmethod
    def eigsh(a, *r, **k):
        import scipy.sparse.linalg
        if np.ndim(a) == 2 and k.get('k', 6) < len(a):
            k = dict(k, v0=np.ones(len(a)) + np.arange(len(a)) * 0.1)
        return scipy.sparse.linalg.eigsh(scipy.sparse.csc_matrix(a), *r, **k)


def np_contract(name):
    def f(a, *r, **k):
        if _allconst(a):
            return post(tuple(getattr(np.linalg, name)(num(a), *r, **k)))
        from . import contracts
        return getattr(contracts, name)(eng(), A(a), *r, **k)
    return f


def la_lstsq(a, b, **k):
    if _allconst(a, b):
        x, res, rk, sv = scipy.linalg.lstsq(num(a), num(b), **k)
        return wrap(x), wrap(np.atleast_1d(res)), rk, None
    from . import contracts
    return contracts.lstsq(eng(), A(a), A(b))


def la_block_diag(*ms):
    ms = [np.asarray(np_atleast_2d(m)) for m in ms]
    R, C = sum(m.shape[0] for m in ms), sum(m.shape[1] for m in ms)
    out = np_zeros((R, C))
    r = c = 0
    for m in ms:
        out[r:r + m.shape[0], c:c + m.shape[1]] = wrap(m)
        r += m.shape[0]
        c += m.shape[1]
    return out


def matrix_power(a, n):
    r = np_eye(A(a).shape[0])
    b = la_inv(a) if n < 0 else a
    for _ in range(abs(n)):
        r = np_matmul(r, b)
    return r


# ------------------------------------------------------------ sparse stand-in
class SymSp:
    """Dense-backed stand-in for scipy.sparse matrices (spmatrix semantics)."""
    __array_priority__ = 30.0
    __array_ufunc__ = None
    ndim = 2
    fmt = 'csr'

    def __init__(self, x, shape=None, dtype=None, copy=False):
        if isinstance(x, tuple) and len(x) == 2 and all(isinstance(i, (int, np.integer)) for i in x):
            self.a = np_zeros(x)
        elif isinstance(x, tuple) and len(x) == 2:
            data, (i, j) = x
            self.a = np_zeros(shape or (max(i) + 1, max(j) + 1))
            for d, p, q in zip(data, i, j):
                self.a[p, q] = self.a[p, q] + d
        elif isinstance(x, SymSp):
            # scipy shares the data unless the format changes
            self.a = x.a.copy() if copy or x.fmt != self.fmt else x.a
        else:
            a = mk(x, complex)
            if a.ndim == 0:
                a = a.reshape(1, 1)
            if a.ndim == 1:
                a = a[None]
            if a.ndim > 2:
                raise TypeError('expected dimension <= 2 array or matrix')
            self.a = wrap(np.array(np.asarray(a), dtype=object))

    def _n(self, a):
        r = object.__new__(type(self) if type(self) is not SymSp else CSR)
        r.a = wrap(a)
        return r

    @property
    def shape(self):
        return self.a.shape

    @property
    def size(self):
        return self.nnz

    @property
    def nnz(self):
        return int(self.a.size)

    @property
    def dtype(self):
        return self.a.dtype

    @property
    def data(self):
        return self.a.reshape(-1)

    @property
    def format(self):
        return self.fmt

    def __imul__(self, o):
        # scalars act in place
        if np.ndim(o) == 0 and not isinstance(o, SymSp) and not hasattr(o, 'shape'):
            self.a[...] = self.a * o
            return self
        return self * o

    def __itruediv__(self, o):
        if np.ndim(o) == 0 and not isinstance(o, SymSp) and not hasattr(o, 'shape'):
            self.a[...] = self.a / o
            return self
        return self / o

    def toarray(self, *a, **k):
        return self.a.copy()

    todense = toarray

    @property
    def A(self):
        return self.a.copy()

    def tocsr(self, copy=False):
        return CSR(self)

    def tocoo(self, copy=False):
        return COO(self)

    def tocsc(self, copy=False):
        return CSC(self)

    def tolil(self, copy=False):
        return LIL(self)

    def asformat(self, f, copy=False):
        return dict(csr=CSR, coo=COO, csc=CSC, lil=LIL)[f](self)

    def conj(self, copy=True):
        return self._n(self.a.conj())

    conjugate = conj

    @property
    def T(self):
        return self._n(self.a.T)

    def transpose(self, *a, **k):
        return self.T

    def getH(self):
        return self._n(self.a.T.conj())

    @property
    def real(self):
        return self._n(self.a.real)

    @property
    def imag(self):
        return self._n(self.a.imag)

    def diagonal(self, k=0):
        return np_diag(self.a, k)

    def trace(self, *a, **k):
        return np_trace(self.a)

    def reshape(self, *s, **k):
        s = s[0] if len(s) == 1 and isinstance(s[0], (tuple, list)) else s
        if len(s) != 2:
            raise ValueError("shape must have length 2")
        return self._n(self.a.reshape(s))

    def copy(self):
        return self._n(self.a.copy())

    __copy__ = copy

    def __deepcopy__(self, m):
        return self.copy()

    def eliminate_zeros(self):
        pass

    def sum_duplicates(self):
        pass

    def sum(self, axis=None, **k):
        return np_sum(self.a, axis)

    def max(self, axis=None, **k):
        return np_max(self.a, axis)

    def min(self, axis=None, **k):
        return np_min(self.a, axis)

    def __abs__(self):
        return self._n(np_abs(self.a))

    def round(self, nd=0):
        return self._n(np_round(self.a, nd))

    __round__ = round
    rint = round

    def __neg__(self):
        return self._n(-self.a)

    def __add__(self, o):
        if isinstance(o, np.ndarray) and o.ndim == 0:
            o = o.item()
        if isinstance(o, SymSp):
            if o.shape != self.shape:
                raise ValueError('inconsistent shapes')
            return self._n(self.a + o.a)
        if isinstance(o, (numbers.Number, Sym)):
            if not isinstance(o, Sym) and o == 0:
                return self.copy()
            if isinstance(o, Sym) and not o.n:
                return self.copy()
            raise NotImplementedError('adding a nonzero scalar to a sparse matrix is not supported')
        if isinstance(o, np.ndarray):
            return self.a + wrap(o)
        return NotImplemented

    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, (SymSp, np.ndarray, numbers.Number)):
            return self + (-o)
        return NotImplemented

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        if isinstance(o, (numbers.Number, Sym)):
            return self._n(self.a * o)
        return self.__matmul__(o)

    def __rmul__(self, o):
        if isinstance(o, (numbers.Number, Sym)):
            return self._n(self.a * o)
        return self.__rmatmul__(o)

    def __matmul__(self, o):
        if isinstance(o, SymSp):
            return self._n(np_matmul(self.a, o.a))
        if isinstance(o, (np.ndarray, list)):
            return np_matmul(self.a, A(o))
        if isinstance(o, (numbers.Number, Sym)):
            raise ValueError("Scalar operands are not allowed, use '*' instead")
        return NotImplemented

    dot = __matmul__

    def __rmatmul__(self, o):
        if isinstance(o, SymSp):
            return self._n(np_matmul(o.a, self.a))
        if isinstance(o, (np.ndarray, list)):
            return np_matmul(A(o), self.a)
        return NotImplemented

    def __truediv__(self, o):
        if isinstance(o, (numbers.Number, Sym)):
            return self._n(self.a / o)
        return NotImplemented

    def __pow__(self, k):
        if not isinstance(k, int):
            raise ValueError('exponent must be an integer')
        return self._n(matrix_power(self.a, k))

    def multiply(self, o):
        o = o.a if isinstance(o, SymSp) else o
        return self._n(self.a * o)

    def power(self, n, dtype=None):
        return self._n(self.a ** n)

    def getrow(self, i):
        return self._n(self.a[i:i + 1])

    def __getitem__(self, k):
        r = self.a[k]
        if isinstance(r, np.ndarray):
            if r.ndim == 1:
                r = r[None]
            return self._n(r)
        return r

    def __setitem__(self, k, v):
        self.a[k] = v

    def __eq__(self, o):
        return NotImplemented if not isinstance(o, SymSp) else self._n(self.a == o.a)

    __hash__ = None

    def __len__(self):
        raise TypeError('sparse array length is ambiguous; use getnnz()')

    def __repr__(self):
        return f'<sparse {self.shape}>'


class CSR(SymSp):
    fmt = 'csr'


class COO(SymSp):
    fmt = 'coo'

    @property
    def row(self):
        return np.indices(self.shape)[0].reshape(-1)

    @property
    def col(self):
        return np.indices(self.shape)[1].reshape(-1)


class CSC(SymSp):
    fmt = 'csc'


class LIL(SymSp):
    fmt = 'lil'


def sp_vstack(ms, format=None, dtype=None):
    return CSR(np_concatenate([m.a if isinstance(m, SymSp) else A(m) for m in ms], 0))


def sp_hstack(ms, format=None, dtype=None):
    return CSR(np_concatenate([m.a if isinstance(m, SymSp) else A(m) for m in ms], 1))


def sp_bmat(rows, format=None, dtype=None):
    return CSR(np_concatenate([np_concatenate([m.a if isinstance(m, SymSp) else A(m) for m in r], 1)
                               for r in rows], 0))


def sp_eye(n, m=None, *a, **k):
    return CSR(np_eye(n, m))


def np_concatenate(ms, axis=0, **k):
    ms = [np.asarray(A(m)) for m in ms]
    if any(m.dtype == object for m in ms) and all(_boolish(m) for m in ms):
        return maybe_bool(np.concatenate([m.astype(object) for m in ms], axis))
    if any(m.dtype == object or m.dtype.kind in 'fc' for m in ms):
        ms = [np.asarray(wrap(m)) for m in ms]
    return post(np.concatenate(ms, axis))


def _boolish(m):
    if m.dtype != object:
        return m.dtype.kind == 'b' or m.size == 0
    return all(isinstance(x, (bool, np.bool_, SymBool)) for x in m.reshape(-1))


class SymLinOp:
    """Stand-in for scipy.sparse.linalg.LinearOperator (dense backed)."""
    __array_ufunc__ = None
    __array_priority__ = 40.0
    ndim = 2

    def __init__(self, m):
        self.m = wrap(m)

    @property
    def shape(self):
        return self.m.shape

    @property
    def dtype(self):
        return self.m.dtype

    def matvec(self, v):
        return np_matmul(self.m, A(v))

    matmat = matvec

    def __call__(self, x):
        return self * x

    def dot(self, x):
        if isinstance(x, SymLinOp):
            return SymLinOp(np_matmul(self.m, x.m))
        if isinstance(x, (numbers.Number, Sym)):
            return SymLinOp(self.m * x)
        if isinstance(x, np.ndarray):
            return np_matmul(self.m, x)
        raise ValueError(f'expected 1-d or 2-d array or matrix, got {x!r}')

    def __matmul__(self, o):
        if isinstance(o, (numbers.Number, Sym)):
            raise ValueError('Scalar operands are not allowed')
        return self.dot(o)

    def __rmatmul__(self, o):
        if isinstance(o, (numbers.Number, Sym)):
            raise ValueError('Scalar operands are not allowed')
        if isinstance(o, np.ndarray):
            return np_matmul(o, self.m)
        return NotImplemented

    def __mul__(self, x):
        return self.dot(x)

    def __rmul__(self, x):
        if isinstance(x, (numbers.Number, Sym)):
            return SymLinOp(self.m * x)
        return self.__rmatmul__(x)

    def __truediv__(self, x):
        return SymLinOp(self.m / x)

    def __add__(self, x):
        if isinstance(x, SymLinOp):
            return SymLinOp(self.m + x.m)
        return NotImplemented

    def __sub__(self, x):
        return self + (-x)

    def __neg__(self):
        return SymLinOp(-self.m)

    @property
    def H(self):
        return SymLinOp(self.m.T.conj())

    def adjoint(self):
        return self.H

    @property
    def T(self):
        return SymLinOp(self.m.T)

    def transpose(self):
        return self.T

    def __copy__(self):
        return SymLinOp(self.m.copy())

    def __deepcopy__(self, m):
        return SymLinOp(self.m.copy())


class MatrixLinOp(SymLinOp):
    @property
    def A(self):
        return self.m


def aslinearoperator(x):
    if isinstance(x, SymLinOp):
        return x
    return MatrixLinOp(x.a if isinstance(x, SymSp) else wrap(A(x)))


# ------------------------------------------------------------ tinyarray stand-in
class HashTok(int):
    """Return value of hash() on symbolic content: usable as a hash, and carries
    the hashed content so that hash equality can be asserted."""
    content = None


class TAArr:
    __slots__ = ('a',)
    __array_priority__ = 25.0

    def __init__(self, a):
        self.a = a

    @property
    def shape(self):
        return self.a.shape

    @property
    def size(self):
        return int(self.a.size)

    @property
    def ndim(self):
        return self.a.ndim

    @property
    def dtype(self):
        return self.kind_type

    @property
    def real(self):
        return ta_wrap(self.a.real)

    @property
    def imag(self):
        return ta_wrap(self.a.imag)

    def __array__(self, dtype=None, copy=None):
        a = np.array(np.asarray(self.a), dtype=object)
        if dtype is not None and dtype != object:
            return np.array([complex(x) for x in a.reshape(-1)]).astype(dtype).reshape(a.shape)
        return a

    def __len__(self):
        return len(self.a)

    def __iter__(self):
        for x in self.a:
            yield TAInt(x) if isinstance(x, np.ndarray) and isinstance(self, TAInt) else \
                TAFloat(x) if isinstance(x, np.ndarray) else x

    def __getitem__(self, k):
        r = self.a[k]
        if isinstance(r, np.ndarray):
            return type(self)(wrap(r))
        return r

    def _op(self, o, f):
        b = o.a if isinstance(o, TAArr) else o
        if isinstance(b, (list, tuple)):
            b = mk(b)
        r = f(self.a, b)
        if isinstance(o, np.ndarray):
            return wrap(r)
        kinds = [type(self)]
        if isinstance(o, TAArr):
            kinds.append(type(o))
        elif isinstance(o, (int, np.integer)):
            pass
        elif isinstance(o, Sym) and o.is_integer():
            pass
        elif isinstance(o, complex):
            kinds.append(TAComplex)
        else:
            kinds.append(TAFloat)
        k = TAComplex if TAComplex in kinds else TAFloat if TAFloat in kinds else TAInt
        return k(wrap(r))

    def __add__(self, o):
        return self._op(o, lambda x, y: x + y)

    __radd__ = __add__

    def __sub__(self, o):
        return self._op(o, lambda x, y: x - y)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        return self._op(o, lambda x, y: x * y)

    __rmul__ = __mul__

    def __truediv__(self, o):
        r = self._op(o, lambda x, y: x / y)
        return TAFloat(r.a) if isinstance(r, TAInt) else r

    def __neg__(self):
        return type(self)(-self.a)

    def __pos__(self):
        return self

    def __abs__(self):
        return type(self)(np_abs(self.a))

    def __matmul__(self, o):
        if isinstance(o, TAArr):
            return ta_dot(self, o)
        return np_matmul(self.a, o)

    def __rmatmul__(self, o):
        return np_matmul(o, self.a)

    def conjugate(self):
        return type(self)(self.a.conj())

    conj = conjugate

    def transpose(self, *a):
        return type(self)(self.a.T)

    @property
    def T(self):
        raise AttributeError('T')

    def _eqf(self, o):
        b = o.a if isinstance(o, TAArr) else o
        b = np.asarray(A(b))
        if b.shape != self.a.shape:
            return False
        r = _cmp(self.a, b, lambda x, y: x == y)
        return np_all(r) if isinstance(r, np.ndarray) else r

    def __eq__(self, o):
        if not isinstance(o, (TAArr, np.ndarray, list, tuple)):
            return NotImplemented
        return self._eqf(o)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else f_not(r)

    def _lex(self, o, strict):
        x = [to_sym(v) for v in np.asarray(self.a).reshape(-1)]
        y = [to_sym(v) for v in np.asarray(o.a).reshape(-1)]
        r = not strict
        for a, b in zip(reversed(x), reversed(y)):
            r = f_or([a < b, f_and([a == b, r])])
        return r

    def __lt__(self, o):
        return self._lex(o, True)

    def __gt__(self, o):
        return o._lex(self, True)

    def __le__(self, o):
        return self._lex(o, False)

    def __ge__(self, o):
        return o._lex(self, False)

    def __hash__(self):
        h = HashTok(0)
        h.content = self
        return 0

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def tolist(self):
        return np.asarray(self.a).tolist()

    def __repr__(self):
        return f'ta({np.asarray(self.a).tolist()})'


class TAInt(TAArr):
    __slots__ = ()
    kind_type = int

    @property
    def dtype(self):
        return np.dtype(int)


class TAFloat(TAArr):
    __slots__ = ()

    @property
    def dtype(self):
        return np.dtype(float)


class TAComplex(TAArr):
    __slots__ = ()

    @property
    def dtype(self):
        return np.dtype(complex)


def ta_wrap(a):
    return TAFloat(a)


def ta_array(x, dtype=None):
    if isinstance(x, TAArr):
        src = x
        a = x.a
        if dtype is None:
            return x
    else:
        src = None
        if isinstance(x, SymSp):
            raise TypeError('cannot convert')
        y = mk(x)
        if y.dtype != object and y.dtype.kind in 'iub':
            a = wrap(y)
            if dtype is None:
                return TAInt(a)
        else:
            a = wrap(y)
            if dtype is None:
                if isinstance(x, np.ndarray) or any(not to_sym(e).is_integer() for e in np.asarray(a).reshape(-1)) or True:
                    flat = [to_sym(e) for e in np.asarray(a).reshape(-1)]
                    if isinstance(x, (list, tuple)) and flat and all(e.is_const() and e.is_integer() for e in flat) \
                            and _pyints(x):
                        return TAInt(a)
                    if all(e.is_real() for e in flat):
                        # tinyarray would build a complex array from a complex numpy
                        # array even if the imaginary part vanishes
                        return TAFloat(a)
                    return TAComplex(a)
    if dtype in (int,) or dtype is np.int64:
        flat = [to_sym(e) for e in np.asarray(a).reshape(-1)]
        if any(not e.is_real() for e in flat):
            raise TypeError("can't convert complex to int")
        b = _map(a, lambda e: _ta_int(to_sym(e)))
        return TAInt(wrap(b))
    if dtype is float:
        for e in np.asarray(a).reshape(-1):
            if not to_sym(e).is_real():
                raise TypeError("can't convert complex to float")
        return TAFloat(a)
    if dtype is complex:
        return TAComplex(a)
    raise Unsupported(f'ta.array dtype {dtype}')


def _pyints(x):
    if isinstance(x, (list, tuple)):
        return all(_pyints(y) for y in x)
    return isinstance(x, (int, np.integer)) or (isinstance(x, np.ndarray) and x.dtype.kind in 'iu')


def _ta_int(e):
    if e.is_const():
        return Sym(int(e.cval().real))
    return _trunc(e)


def ta_dot(a, b):
    ka = type(a) if isinstance(a, TAArr) else TAFloat
    kb = type(b) if isinstance(b, TAArr) else TAFloat
    k = TAComplex if TAComplex in (ka, kb) else TAFloat if TAFloat in (ka, kb) else TAInt
    r = np_dot(a.a if isinstance(a, TAArr) else A(a), b.a if isinstance(b, TAArr) else A(b))
    return k(r) if isinstance(r, np.ndarray) else r


def ta_identity(n, dtype=float):
    a = wrap(np.eye(n))
    return TAInt(a) if dtype is int else TAFloat(a)


def ta_filled(v):
    def f(shape, dtype=float):
        a = _filled(shape, v, float)
        return TAInt(a) if dtype is int else TAFloat(a)
    return f


def ta_transpose(a):
    return a.transpose()
