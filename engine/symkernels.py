"""Lets the number-basis kernels (mrmustard.math.lattice) run over exact terms.

numba is disabled in exact mode, so the kernels are the Python functions they are written as.
Only the arrays they allocate change type: complex128 arrays become arrays of exact terms
(initialised to exact zeros), and the tables of square roots hold exact square roots.
"""
import sys
import numpy as np
from sym import Sym


class SqrtTable:
    """SQRT[k] = sqrt(k), exactly"""
    memo = {}

    def __init__(self, n):
        self.n = n

    def __len__(self):
        return self.n

    def __getitem__(self, k):
        if isinstance(k, slice):
            return np.array([self[j] for j in range(*k.indices(self.n))] + [None], dtype=object)[:-1]
        k = int(k)
        if k < 0:
            k += self.n
        if not 0 <= k < self.n:
            raise IndexError("square-root table")
        if k not in self.memo:
            self.memo[k] = Sym.lift(k).sqrt() if k > 1 else Sym.lift(k)
        return self.memo[k]


def _cplx(dtype):
    try:
        return np.dtype(dtype).kind in "fc"
    except TypeError:
        return False


class SArr(np.ndarray):
    """array of exact terms whose real and imaginary parts are taken entry by entry"""
    __array_priority__ = 10

    @property
    def real(self):
        return NP().real(self)

    @property
    def imag(self):
        return NP().imag(self)


def _map(f, a):
    r = np.empty(a.shape, dtype=object)
    for i in np.ndindex(a.shape):
        r[i] = f(Sym.lift(a[i]))
    return r.view(SArr)


class NP:
    """numpy, with exact arrays wherever floating point ones are requested"""

    def __getattr__(self, name):
        return getattr(np, name)

    def _full(self, shape, dtype, v):
        if dtype == object or _cplx(dtype):
            a = np.empty(shape, dtype=object)
            a[...] = Sym.lift(v)
            return a
        return np.full(shape, v, dtype=dtype)

    def zeros(self, shape, dtype=float, **k):
        return self._full(shape, dtype, 0)

    def empty(self, shape, dtype=float, **k):
        return self._full(shape, dtype, 0)

    def ones(self, shape, dtype=float, **k):
        return self._full(shape, dtype, 1)

    def zeros_like(self, a, dtype=None, **k):
        return self._full(a.shape, dtype or a.dtype, 0)

    def empty_like(self, a, dtype=None, **k):
        return self._full(a.shape, dtype or a.dtype, 0)

    def ones_like(self, a, dtype=None, **k):
        return self._full(a.shape, dtype or a.dtype, 1)

    def sqrt(self, a, dtype=None, **k):
        if isinstance(a, (int, np.integer)):
            return Sym.lift(int(a)).sqrt()
        if isinstance(a, np.ndarray) and a.dtype.kind in "iu":
            out = np.empty(a.shape, dtype=object)
            for i in np.ndindex(a.shape):
                out[i] = Sym.lift(int(a[i])).sqrt() if a[i] else Sym.lift(0)
            return out
        return np.sqrt(a)

    def arange(self, *a, dtype=None, **k):
        if dtype is not None and (dtype == object or _cplx(dtype)):
            return np.arange(*a)
        return np.arange(*a, dtype=dtype, **k)

    def real(self, a):
        if isinstance(a, Sym):
            return (a + a.conjugate()) / 2
        return _map(lambda v: (v + v.conjugate()) / 2, a) if isinstance(a, np.ndarray) and a.dtype == object else np.real(a)

    def imag(self, a):
        i2 = Sym.lift(2j)
        if isinstance(a, Sym):
            return (a - a.conjugate()) / i2
        return _map(lambda v: (v - v.conjugate()) / i2, a) if isinstance(a, np.ndarray) and a.dtype == object else np.imag(a)

    def outer(self, a, b):
        r = np.outer(a, b)
        return r.view(SArr) if r.dtype == object else r

    def array(self, a, dtype=None, **k):
        if isinstance(a, Sym):
            r = np.empty((), dtype=object)
            r[()] = a
            return r
        r = np.array(a, **k) if dtype is None or _cplx(dtype) else np.array(a, dtype=dtype, **k)
        return r


_saved = []


def enter():
    proxy = NP()
    for name, mod in list(sys.modules.items()):
        if (name.startswith("mrmustard.math.lattice") or name == "mrmustard.physics.wigner") and hasattr(mod, "__dict__"):
            for k, v in list(vars(mod).items()):
                new = None
                if v is np:
                    new = proxy
                elif k == "SQRT" and isinstance(v, np.ndarray):
                    new = SqrtTable(len(v))
                elif k == "dtype_c":
                    pass
                if new is not None:
                    _saved.append((mod, k, v))
                    setattr(mod, k, new)


def leave():
    while _saved:
        mod, k, v = _saved.pop()
        setattr(mod, k, v)
