"""Backend that gives MrMustard's own functions an exact-algebra semantics.

The functions of /repo are executed unmodified (their bytecode is the one CPython runs); only
the numeric primitives they call (`mrmustard.math` backend operations) are replaced by exact
ones with the *mathematical* contract of the primitive:
   inv(M) @ M = I,  det = Leibniz sum,  solve(M, v) = inv(M) v,  sqrt(x)**2 = x, ...
Whatever is not modelled raises Unsupported (the obligation is then undecided, never proved).
"""
from __future__ import annotations
import itertools
import numpy as np
from sym import Sym, AbsSym, LogSym, Unsupported, S, GENS
from mrmustard.math.backend_numpy import BackendNumpy


def is_sym(a):
    return isinstance(a, Sym) or (isinstance(a, np.ndarray) and a.dtype == object) or (
        isinstance(a, (list, tuple)) and any(is_sym(x) for x in a))


def oarr(a):
    """to array; symbolic content -> object array"""
    if isinstance(a, np.ndarray):
        return a
    if isinstance(a, Sym):
        r = np.empty((), dtype=object)
        r[()] = a
        return r
    if isinstance(a, (list, tuple)) and is_sym(a):
        parts = [oarr(x) for x in a]
        if not parts:
            return np.asarray(a)
        out = np.empty((len(parts),) + parts[0].shape, dtype=object)
        for i, p in enumerate(parts):
            out[i] = p if p.ndim else p[()]
        return out
    return np.asarray(a)


def emap(fn, a):
    a = oarr(a)
    out = np.empty(a.shape, dtype=object)
    for i in np.ndindex(a.shape):
        v = a[i]
        out[i] = fn(v if isinstance(v, LogSym) else Sym.lift(v))
    return out


def det_sym(M):
    n = M.shape[0]
    if n == 0:
        return Sym.lift(1)
    memo = {}

    def minor(row, cols):
        if row == n:
            return Sym.lift(1)
        k = cols
        if k in memo:
            return memo[k]
        tot = Sym.lift(0)
        for j, c in enumerate(cols):
            e = Sym.lift(M[row, c])
            if not e.f.num:
                continue
            sub = minor(row + 1, cols[:j] + cols[j + 1:])
            t = e * sub
            tot = tot + t if j % 2 == 0 else tot - t
        memo[k] = tot
        return tot
    return minor(0, tuple(range(n)))


def inv_sym(M):
    n = M.shape[0]
    if n == 0:
        return M
    d = det_sym(M)
    if not d.f.num:
        raise Unsupported("singular symbolic matrix")
    di = d.inv()
    out = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            sub = np.delete(np.delete(M, i, 0), j, 1)
            v = det_sym(sub) * di
            out[j, i] = v if (i + j) % 2 == 0 else -v
    return out


def batched(fn, M, outer_ndim=2):
    M = oarr(M)
    b = M.shape[:-2]
    if b == ():
        return fn(M)
    flat = M.reshape((-1,) + M.shape[-2:])
    res = [fn(m) for m in flat]
    return oarr([oarr(r) for r in res]).reshape(b + oarr(res[0]).shape) if res else np.zeros(b, dtype=object)


class BackendSym(BackendNumpy):
    """exact algebra backend"""

    def __init__(self):
        super().__init__()
        self._name = "numpy"

    # -- creation / casting
    def astensor(self, array, dtype=None):
        a = oarr(array)
        if a.dtype == object:
            return a
        return np.asarray(a, dtype=dtype)

    def asnumpy(self, t):
        return oarr(t)

    def atleast_nd(self, array, n, dtype=None):
        a = self.astensor(array, dtype)
        return a.reshape((1,) * max(0, n - a.ndim) + a.shape)

    def cast(self, array, dtype=None):
        a = oarr(array)
        if a.dtype == object:
            if dtype is not None and dtype in (np.float64, np.float32, "float64"):
                return emap(lambda s: s.real if not s.is_const() else s, a)
            return a
        return super().cast(a, dtype)

    def make_complex(self, real, imag):
        return oarr(real) + oarr(imag) * 1j

    def zeros_like(self, array):
        a = oarr(array)
        return np.zeros(a.shape, dtype=complex if a.dtype == object else a.dtype)

    def ones_like(self, array):
        a = oarr(array)
        return np.ones(a.shape, dtype=complex if a.dtype == object else a.dtype)

    def eye_like(self, array):
        a = oarr(array)
        return np.eye(a.shape[-1], dtype=complex if a.dtype == object else a.dtype)

    # -- elementwise
    def abs(self, a):
        return emap(AbsSym, a) if is_sym(a) else super().abs(a)

    def conj(self, a):
        return emap(lambda s: s.conjugate(), a) if is_sym(a) else super().conj(a)

    def real(self, a):
        return emap(lambda s: s.real, a) if is_sym(a) else super().real(a)

    def imag(self, a):
        return emap(lambda s: s.imag, a) if is_sym(a) else super().imag(a)

    def sqrt(self, x, dtype=None):
        return emap(lambda s: s.sqrt(), x)

    def log(self, x):
        return emap(LogSym, x)

    def angle(self, a):
        if is_sym(a):
            raise Unsupported("angle")
        return super().angle(a)

    def lgamma(self, x):
        if is_sym(x):
            raise Unsupported("lgamma")
        return super().lgamma(x)

    def pow(self, x, y):
        if is_sym(x):
            return emap(lambda s: s ** y, x)
        return super().pow(x, y)

    def allclose(self, a, b, atol=None, rtol=None):
        if is_sym(a) or is_sym(b):
            a, b = np.broadcast_arrays(oarr(a), oarr(b))
            return all(Sym.lift(a[i]) == Sym.lift(b[i]) for i in np.ndindex(a.shape))
        return super().allclose(a, b, atol, rtol)

    def equal(self, a, b):
        if is_sym(a) or is_sym(b):
            a, b = np.broadcast_arrays(oarr(a), oarr(b))
            return np.array([Sym.lift(a[i]) == Sym.lift(b[i]) for i in np.ndindex(a.shape)]).reshape(a.shape)
        return super().equal(a, b)

    def error_if(self, array, condition, msg):
        c = oarr(condition)
        if c.dtype != object and np.any(c):
            raise ValueError(msg)

    def isnan(self, a):
        return np.zeros(oarr(a).shape, dtype=bool) if is_sym(a) else super().isnan(a)

    def issubdtype(self, a, b):
        if a == np.dtype(object):
            return b in (np.complexfloating, np.inexact)
        return super().issubdtype(a, b)

    def iscomplexobj(self, x):
        return True if is_sym(x) else super().iscomplexobj(x)

    # -- linear algebra
    def det(self, m):
        m = oarr(m)
        if m.shape[-1] == 0:
            return np.ones(m.shape[:-2])
        return self.astensor(batched(lambda x: oarr(det_sym(x)), m))

    def inv(self, m):
        return batched(inv_sym, oarr(m))

    def pinv(self, m):
        raise Unsupported("pinv")

    def solve(self, m, rhs):
        m, rhs = oarr(m), oarr(rhs)
        if rhs.ndim == m.ndim - 1:
            return np.matmul(self.inv(m), rhs[..., None])[..., 0]
        return np.matmul(self.inv(m), rhs)

    def matmul(self, *ms):
        out = oarr(ms[0])
        for m in ms[1:]:
            out = np.matmul(out, oarr(m))
        return out

    def expm(self, m):
        raise Unsupported("expm")

    def eigh(self, m):
        raise Unsupported("eigh")

    def eigvals(self, m):
        raise Unsupported("eigvals")

    def sqrtm(self, *a, **k):
        raise Unsupported("sqrtm")

    def norm(self, a):
        if is_sym(a):
            s = Sym.lift(0)
            for v in oarr(a).ravel():
                v = Sym.lift(v)
                s = s + v * v.conjugate()
            return s.sqrt()
        return super().norm(a)

    def trace(self, array, dtype=None):
        a = oarr(array)
        if a.dtype == object:
            return oarr(np.einsum("...ii->...", a))
        return super().trace(array, dtype)

    def einsum(self, *a, **k):
        return oarr(np.einsum(*a))

    def update_tensor(self, tensor, indices, values):
        t = oarr(tensor)
        if is_sym(values) and t.dtype != object:
            t = t.astype(object)
        t[indices] = values
        return t

    def update_add_tensor(self, tensor, indices, values):
        t = oarr(tensor)
        if is_sym(values) and t.dtype != object:
            t = t.astype(object)
        indices = np.atleast_2d(indices)
        for i, v in zip(indices, values):
            t[tuple(i)] = t[tuple(i)] + v
        return t

    def prod(self, x, axis=None):
        return np.prod(oarr(x), axis=axis)


def _unary(name):
    def f(self, a):
        if is_sym(a):
            return emap(lambda s: getattr(s, name)(), a)
        a = np.asarray(a)
        if a.dtype.kind in "fciu" and np.any(a != 0):  # keep exactness for numeric constants
            return emap(lambda s: getattr(s, name)(), a)
        return getattr(np, name)(a)
    f.__name__ = name
    return f


for _n in ("exp", "cos", "sin", "cosh", "sinh", "tanh", "tan"):
    setattr(BackendSym, _n, _unary(_n))

_saved = None


def _einsum(string, *tensors, optimize=None, backend=None):
    """exact meaning of an einsum string (ellipsis supported)"""
    tensors = [oarr(t) for t in tensors]
    if any(t.dtype == object for t in tensors):
        tensors = [t if t.dtype == object else emap(lambda s: s, t) for t in tensors]
    return oarr(np.einsum(string, *tensors))



def enter():
    from mrmustard import math
    global _saved
    _saved = math._backend
    math._backend = BackendSym()
    math._bind()
    import sys
    sys.modules["mrmustard.math.backend_manager"].contract = _einsum
    import symkernels
    symkernels.enter()


def leave():
    from mrmustard import math
    math._backend = _saved
    math._bind()
    import symkernels
    symkernels.leave()
