"""helpers shared by the checks"""
import numpy as np
import oracle as O


def arrs(E, t):
    return tuple(E.arr(x) if not isinstance(x, np.ndarray) else x for x in t)


def item(c):
    return c.item() if isinstance(c, np.ndarray) and c.ndim == 0 else c


def each(E, obj, batch=()):
    """elements of a batched component/ansatz, checking the batch shape"""
    an = getattr(obj, "ansatz", obj)
    A, b, c = arrs(E, an.triple)
    batch = tuple(batch)
    E.true("batch shape", tuple(A.shape[:-2]) == batch and tuple(b.shape[:-1]) == batch and tuple(c.shape[:len(batch)]) == batch,
           f"A {A.shape} b {b.shape} c {c.shape} expected batch {batch}")
    for i in np.ndindex(*batch):
        yield i, (A[i], b[i], c[i] if batch else item(c))


def param(E, kind, name, shape):
    f = getattr(E, kind)
    if shape == ():
        return f(name)
    v = [f(f"{name}_{k}") for k in range(int(np.prod(shape)))]
    if E.sym:
        a = np.empty(len(v), dtype=object)
        for k, x in enumerate(v):
            a[k] = x
        return a.reshape(shape)
    return np.array(v).reshape(shape)


def at(x, i):
    """element of a parameter broadcast to the batch index i"""
    if not isinstance(x, np.ndarray) or x.shape == ():
        return x
    j = i[len(i) - x.ndim:]
    return x[tuple(0 if s == 1 else k for s, k in zip(x.shape, j))]


def bshape(*s):
    return np.broadcast_shapes(*s)


BATCHES1 = [(), (2,), (2, 2)]
BATCHES2 = [((), ()), ((2,), (2,)), ((2,), ()), ((), (2,)), ((2, 1), (2,)), ((1,), (3,))]


def I_(E):
    return E._s.Sym.lift(1j) if E.sym else 1j


def ch(E, r):
    x = E.exp(r)
    return (x + 1 / x) / 2, (x - 1 / x) / 2


def expi(E, phi):
    return E.exp(phi * I_(E))


def cs(E, t):
    e = expi(E, t)
    c, s = (e + 1 / e) / 2, (e - 1 / e) / (I_(E) * 2)
    return (c, s) if E.sym else (c.real, s.real)


def rot(E, t):
    c, s = cs(E, t)
    return E.arr([[c, -s], [s, c]])


def sqz(E, r):
    return E.arr([[E.exp(-r), 0 * r], [0 * r, E.exp(r)]])


def euler1(E, p=""):
    """every single-mode symplectic matrix (Euler decomposition)"""
    return rot(E, E.angle(p + "t1")) @ sqz(E, E.squeeze(p + "r")) @ rot(E, E.angle(p + "t2"))


def u2(E, p=""):
    """every 2x2 unitary"""
    c, s = cs(E, E.angle(p + "th"))
    a, b, g = (expi(E, E.angle(p + x)) for x in ("a", "b", "g"))
    return E.arr([[c * a, -s * b], [s * g / a * 1, c * g / b]]) if False else E.arr([[a * c, b * s], [-s * g / b, c * g / a]])


def orth_symp(E, U):
    re = (U + E.conj(U)) / 2
    im = (U - E.conj(U)) / (I_(E) * 2)
    if not E.sym:
        re, im = re.real, im.real
    return np.block([[re, -im], [im, re]])


def half(E):
    return E._s.Fraction(1, 2) if E.sym else 0.5
