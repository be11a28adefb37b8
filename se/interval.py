"""Sound pruning of infeasible branches over boxes: interval evaluation of a condition on a grid of cells that covers the box.

Only for harnesses that call ctx.box(): every input is a real parameter in a box, all other atoms are roots, absolute values or maxima.
A condition whose truth value is the same in every cell needs no solver query to prune the other branch; anything else goes to the solver."""
import numpy as np
from .sym import SymBool

EPS = 1e-9


class Grid:
    def __init__(self, ctx, boxes):
        self.ctx = ctx
        n = {0: 1, 1: 512, 2: 40, 3: 13, 4: 7, 5: 5}.get(len(boxes), 3)
        self.v = {}
        axes = []
        for lo, hi in boxes.values():
            e = np.linspace(lo, hi, n + 1)
            axes.append((e[:-1], e[1:]))
        if boxes:
            idx = np.meshgrid(*[np.arange(n)] * len(boxes), indexing='ij')
            for (name, b), (lo, hi), i in zip(boxes.items(), axes, idx):
                self.v[name] = (lo[i.reshape(-1)], hi[i.reshape(-1)])
        self.m = n ** len(boxes) if boxes else 1
        self.mono = {}

    def var(self, v):
        r = self.v.get(v)
        if r is None:
            d = self.ctx.atom_def.get(v)
            if d is None:
                return None
            kind, arg = d
            if kind == 'max':
                ps = [self.frac(q) for q in arg]
                if any(p is None for p in ps):
                    return None
                r = np.max([p[0] for p in ps], axis=0), np.max([p[1] for p in ps], axis=0)
            else:
                p = self.poly(arg)
                if p is None:
                    return None
                lo, hi = p
                if kind == 'sqrt':
                    r = np.sqrt(np.maximum(lo, 0)), np.sqrt(np.maximum(hi, 0))
                else:
                    r = np.where((lo <= 0) & (hi >= 0), 0, np.minimum(abs(lo), abs(hi))), np.maximum(abs(lo), abs(hi))
            r = r[0] - EPS, r[1] + EPS
            if kind != 'max':
                r = np.maximum(r[0], 0), r[1]
            self.v[v] = r
        return r

    def frac(self, q):
        n = self.poly(q.n)
        if q.d is None or n is None:
            return n
        d = self.poly(q.d)
        if d is None or np.any((d[0] <= 0) & (d[1] >= 0)):
            return None
        c = [a / b for a in n for b in d]
        return np.min(c, axis=0), np.max(c, axis=0)

    def rounded(self, x):
        """the integer that x rounds to in every cell, or None"""
        r = self.frac(x)
        if r is None:
            return None
        lo, hi = np.floor(r[0].min() + 0.5 - EPS), np.floor(r[1].max() + 0.5 + EPS)
        return float(lo) if lo == hi else None

    def monomial(self, m):
        r = self.mono.get(m)
        if r is None:
            if not m:
                return np.ones(self.m), np.ones(self.m)
            h = self.monomial(m[:-1])
            v, e = m[-1]
            x = self.var(v)
            if h is None or x is None:
                return None
            lo, hi = x
            if e % 2 == 0:
                a = np.where((lo <= 0) & (hi >= 0), 0, np.minimum(abs(lo), abs(hi)))
                lo, hi = a ** e, np.maximum(abs(lo), abs(hi)) ** e
            else:
                lo, hi = lo ** e, hi ** e
            c = [h[0] * lo, h[0] * hi, h[1] * lo, h[1] * hi]
            r = self.mono[m] = np.min(c, axis=0), np.max(c, axis=0)
        return r

    def poly(self, p, part=0):
        lo, hi = np.zeros(self.m), np.zeros(self.m)
        for (m, L), c in p.items():
            if L:
                return None
            if part is None:
                pass
            c = c.imag if part else c.real
            if not c:
                continue
            r = self.monomial(m)
            if r is None:
                return None
            a, b = r[0] * c, r[1] * c
            lo, hi = lo + np.minimum(a, b), hi + np.maximum(a, b)
        return lo - EPS, hi + EPS

    def truth(self, f):
        """-> (cells where f is certainly true, cells where f is certainly false) or None"""
        if not isinstance(f, SymBool):
            t = np.full(self.m, bool(f))
            return t, ~t
        if f.op in ('lt0', 'le0'):
            if any(abs(c.imag) > 0 for c in f.args[0].values()):
                return None
            p = self.poly(f.args[0])
            return None if p is None else (p[1] < 0, p[0] > 0)
        if f.op == 'eq0':
            no = np.zeros(self.m, bool)
            for part in (0, 1):
                p = self.poly(f.args[0], part)
                if p is None:
                    return None
                no |= (p[0] > 0) | (p[1] < 0)
            return np.zeros(self.m, bool), no
        if f.op == 'not':
            r = self.truth(f.args[0])
            return None if r is None else (r[1], r[0])
        if f.op in ('and', 'or'):
            rs = [self.truth(a) for a in f.args]
            if any(r is None for r in rs):
                return None
            t, n = [r[0] for r in rs], [r[1] for r in rs]
            if f.op == 'and':
                return np.all(t, axis=0), np.any(n, axis=0)
            return np.any(t, axis=0), np.all(n, axis=0)
        return None

    def decide(self, f):
        r = self.truth(f)
        if r is None:
            return None
        if r[0].all():
            return True
        if r[1].all():
            return False
        return None
