"""Helpers for harnesses; work in symbolic and in concrete mode."""
import cmath
import itertools
import math

import numpy as np
import scipy.sparse
import scipy.sparse.linalg
import sympy

from . import arr as AR
from .sym import Sym, SymBool, Unsupported, f_and, f_or, f_not, to_sym

kx, ky, kz = (sympy.Symbol(s, commutative=True, real=True) for s in ('k_x', 'k_y', 'k_z'))


def nev(x, env):
    """numeric value of a sympy expression; env maps symbol names to numbers"""
    if isinstance(x, (int, float, complex, np.number)):
        return complex(x)
    if isinstance(x, sympy.Symbol):
        if x.name in env:
            return complex(env[x.name])
        if x.name == 'e':
            return cmath.e
        raise KeyError(f'unbound symbol {x.name}')
    if x.is_Add:
        return sum(nev(a, env) for a in x.args)
    if x.is_Mul:
        r = 1
        for a in x.args:
            r = r * nev(a, env)
        return r
    if x.is_Pow:
        b, p = x.args
        if (isinstance(b, sympy.Symbol) and b.name == 'e' and 'e' not in env) or b == sympy.E:
            return cmath.exp(nev(p, env))
        bv = nev(b, env)
        if p.is_Integer:
            return bv ** int(p)
        return bv ** nev(p, env)
    fn = getattr(getattr(x, 'func', None), '__name__', '')
    if fn in ('sin', 'cos', 'exp'):
        return getattr(cmath, fn)(nev(x.args[0], env))
    if fn == 'conjugate':
        return nev(x.args[0], env).conjugate()
    if fn in env:
        return complex(env[fn](*[nev(a, env) for a in x.args]))
    if x.is_number:
        return complex(x)
    raise KeyError(f'cannot evaluate {x}')


def keyval(ctx, key, momenta, env):
    """value of a model key (sympy expression or BlochCoeff) at env"""
    if isinstance(key, tuple):
        hop, coeff = key
        z = keyval(ctx, coeff, momenta, env)
        if ctx.sym:
            ph = Sym(0)
            for h, m in zip(hop, momenta):
                ph = ph + to_sym(h) * to_sym(env[m.name])
            return z * (ph * Sym(1j)).exp()
        return z * cmath.exp(1j * sum(float(h) * env[m.name] for h, m in zip(hop, momenta)))
    if ctx.sym:
        from .sympy_bridge import sympy_to_sym
        return sympy_to_sym(sympy.sympify(key), env)
    return nev(sympy.sympify(key), env)


def dense(ctx, v):
    if ctx.sym:
        return AR.wrap(AR.as_objarr(v))
    if isinstance(v, scipy.sparse.linalg.LinearOperator):
        return v @ np.eye(v.shape[-1], dtype=complex)
    if hasattr(v, 'toarray'):
        return v.toarray()
    return np.asarray(v)


def meval(ctx, model, env):
    """value of a Model / BlochModel as a dense array (or 0-d array)"""
    r = None
    for k, v in model.data.items():
        t = dense(ctx, v) * keyval(ctx, k, model.momenta, env)
        r = t if r is None else r + t
    if r is None:
        r = zeros(ctx, model.shape)
    return wrap(ctx, r)


def wrap(ctx, a):
    if ctx.sym:
        return AR.wrap(np.asarray(a, dtype=object)) if np.ndim(a) else to_sym(a.item() if isinstance(a, np.ndarray) else a)
    return np.asarray(a)


def zeros(ctx, shape):
    if ctx.sym:
        return AR.np_zeros(shape) if shape != () else Sym(0)
    return np.zeros(shape, dtype=complex)


def eye(ctx, n):
    return AR.np_eye(n) if ctx.sym else np.eye(n)


def plain(ctx, a):
    """tinyarray / sympy matrix / anything -> array usable in arithmetic"""
    if ctx.sym:
        return AR.wrap(AR.as_objarr(a))
    if isinstance(a, sympy.MatrixBase):
        return np.array(a.tolist(), dtype=float)
    return np.asarray(a)


def inv(ctx, a):
    return AR.la_inv(a) if ctx.sym else np.linalg.inv(np.asarray(a, dtype=complex))


def det(ctx, a):
    return AR.la_det(a) if ctx.sym else np.linalg.det(np.asarray(a))


def dag(ctx, a):
    return a.conj().T


def mv(ctx, R, k):
    """matrix times list"""
    R = plain(ctx, R)
    return [sum((R[i, j] * k[j] for j in range(len(k))), 0 * k[0]) for i in range(len(k))]


def kron(ctx, a, b):
    return AR.np_kron(a, b) if ctx.sym else np.kron(a, b)


def const(ctx, a):
    """numeric constant array for the current mode"""
    return AR.wrap(np.array(a)) if ctx.sym else np.array(a)


def raises(fn, *exc):
    try:
        fn()
    except exc:
        return True
    return False


def close(ctx, a, b, tol=1e-6):
    """formula / bool: entrywise equality"""
    if ctx.sym:
        a, b = AR.as_objarr(a), AR.as_objarr(b)
        if a.shape != b.shape:
            a, b = np.broadcast_arrays(a, b)
        return f_and([to_sym(x)._eq(to_sym(y)) for x, y in zip(a.reshape(-1), b.reshape(-1))])
    a, b = np.asarray(dense(ctx, a)), np.asarray(dense(ctx, b))
    sc = max(1.0, np.max(np.abs(a), initial=0), np.max(np.abs(b), initial=0))
    return bool(np.all(np.abs(a - b) <= tol * sc))


def sig(ctx, shape=2):
    s0 = np.eye(2)
    sx = np.array([[0, 1], [1, 0]])
    sy = np.array([[0, -1j], [1j, 0]])
    sz = np.array([[1, 0], [0, -1]])
    return [const(ctx, m) for m in (s0, sx, sy, sz)]


def truth(x):
    """bool of a result that may be symbolic (forks)"""
    return bool(x)


def iff(a, b):
    from .sym import f_iff
    if isinstance(a, SymBool) or isinstance(b, SymBool):
        return f_iff(a, b)
    return bool(a) == bool(b)


def kzero(ctx, a, ks):
    """formula: the entries of `a`, as functions of the real variables ks, vanish identically
    (every coefficient of every monomial / exponential in ks is zero); bool at one point in concrete runs"""
    if not ctx.sym:
        a = np.asarray(dense(ctx, a))
        return bool(np.all(np.abs(a) <= 1e-6))
    names = {next(iter(to_sym(k).n))[0][0][0] for k in ks}
    fs = []
    for x in np.asarray(AR.as_objarr(a)).reshape(-1):
        x = to_sym(x)
        if x.d is not None:
            from .sym import p_vars
            if p_vars(x.d) & names:
                fs.append(x._eq(Sym(0)))
                continue
        groups = {}
        for (m, L), c in x.n.items():
            km = tuple(t for t in m if t[0] in names)
            rm = tuple(t for t in m if t[0] not in names)
            kL = tuple(t for t in L if any(v[0] in names for v in t[0]))
            rL = tuple(t for t in L if not any(v[0] in names for v in t[0]))
            groups.setdefault((km, kL), {})[(rm, rL)] = c
        for g in groups.values():
            fs.append(Sym(g)._eq(Sym(0)))
    return f_and(fs)


def in_span(vec, vecs, tol=1e-6):
    """concrete: vec is a real combination of vecs (flattened, real and imaginary parts)"""
    f = lambda v: np.concatenate([np.real(v).ravel(), np.imag(v).ravel()])
    v = f(np.asarray(vec))
    if not len(vecs):
        return bool(np.all(np.abs(v) <= tol))
    M = np.array([f(np.asarray(w)) for w in vecs]).T
    x = np.linalg.lstsq(M, v, rcond=None)[0]
    return bool(np.linalg.norm(M @ x - v) <= tol * max(1, np.linalg.norm(v)))


def independent(vecs, tol=1e-6):
    f = lambda v: np.concatenate([np.real(v).ravel(), np.imag(v).ravel()])
    if not len(vecs):
        return True
    M = np.array([f(np.asarray(w)) for w in vecs])
    return np.linalg.matrix_rank(M, tol=tol) == len(vecs)


def model_vec(models):
    """concrete: Models as vectors over their joint keys"""
    keys = []
    for m in models:
        for k in m.data:
            if not any(k == j for j in keys):
                keys.append(k)
    out = []
    for m in models:
        v = []
        for k in keys:
            x = next((y for j, y in m.data.items() if j == k), None)
            v.append(np.zeros(m.shape, dtype=complex).ravel() if x is None else np.asarray(dense_c(x), dtype=complex).ravel())
        out.append(np.concatenate(v) if v else np.zeros(0))
    return out


def dense_c(v):
    if isinstance(v, scipy.sparse.linalg.LinearOperator):
        return v @ np.eye(v.shape[-1], dtype=complex)
    return v.toarray() if hasattr(v, 'toarray') else np.asarray(v)
