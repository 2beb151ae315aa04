"""P13: number-basis array algebra is truncated tensor algebra."""
import itertools
import numpy as np
import warnings
from common import *


def register(R):
    from mrmustard.physics.ansatz import ArrayAnsatz as AA
    from mrmustard import math
    warnings.simplefilter("ignore")
    R.explanation = ("the real ArrayAnsatz operations are executed on arrays of free entries and compared with the operation on the zero-extended tensors, "
                     "for every combination of the listed shapes; natively over random shapes and batches")
    F = lambda *n: ["ArrayAnsatz." + x for x in n]

    def free(E, shape, p):
        if not E.sym:
            return E.rng.normal(size=shape) + 1j * E.rng.normal(size=shape)
        return E.arr(param(E, "cplx", p, tuple(shape)))

    def pad(E, a, shape, nb):
        a = E.arr(a)
        out = np.zeros(a.shape[:nb] + tuple(shape), dtype=object if E.sym else complex)
        out[...] = E._s.Sym.lift(0) if E.sym else 0
        out[tuple(slice(0, s) for s in a.shape)] = a
        return out

    def arr_eq(E, nm, got, ref, nb):
        """equality of zero-extended tensors"""
        got, ref = E.arr(got), E.arr(ref)
        E.true(nm + ": number of axes", got.ndim == ref.ndim, f"{got.shape} {ref.shape}")
        E.true(nm + ": batch shape", got.shape[:nb] == ref.shape[:nb], f"{got.shape} {ref.shape}")
        s = tuple(max(a, b) for a, b in zip(got.shape[nb:], ref.shape[nb:]))
        E.eq(nm, pad(E, got, s, nb), pad(E, ref, s, nb))

    # ------------------------------------------------------------ sums
    def addc(s1, s2, bs):
        def f(E):
            x, y = free(E, bs + s1, "x"), free(E, bs + s2, "y")
            k = E.cplx("k")
            a, b = AA(x.copy(), len(bs)), AA(y.copy(), len(bs))
            m = tuple(max(p, q) for p, q in zip(s1, s2))
            X, Y = pad(E, x, m, len(bs)), pad(E, y, m, len(bs))
            arr_eq(E, "sum", (a + b).array, X + Y, len(bs))
            arr_eq(E, "difference", (a - b).array, X - Y, len(bs))
            arr_eq(E, "sum the other way", (b + a).array, X + Y, len(bs))
            E.true("batch dimensions", (a + b).batch_dims == len(bs))
            arr_eq(E, "multiple", (a * k).array, x * k, len(bs))
            arr_eq(E, "quotient", (a / k).array, x / k, len(bs))
            arr_eq(E, "negative", (-a).array, -x, len(bs))
            arr_eq(E, "conjugate", a.conj.array, E.conj(x), len(bs))
            E.eq("operand unchanged", a.array, x)
            E.eq("operand unchanged", b.array, y)
        return f
    for s1, s2, bs in (((2,), (2,), ()), ((2,), (3,), ()), ((2, 3), (3, 3), ()), ((2, 3), (3, 2), ()), ((1, 4), (2, 2), ()), ((2, 2), (1, 3), (2,)), ((2, 1, 2), (1, 2, 1), ())):
        R.ob(f"sum of {s1} and {s2} batch {bs}", addc(s1, s2, bs), F("__add__", "__sub__", "reduce", "__mul__", "__truediv__", "__neg__", "conj"), bound="every entry, listed shapes", num=2)

    # ------------------------------------------------------------ reduce
    def red(s1, s2, bs):
        def f(E):
            x = free(E, bs + s1, "x")
            a = AA(x.copy(), len(bs))
            r = a.reduce(s2)
            E.true("shape", tuple(r.core_shape) == tuple(s2) and r.batch_dims == len(bs), f"{r.core_shape}")
            m = tuple(max(p, q) for p, q in zip(s1, s2))
            E.eq("entries", r.array, pad(E, x, m, len(bs))[(Ellipsis,) + tuple(slice(0, k) for k in s2)])
            E.eq("operand unchanged", a.array, x)
        return f
    for s1, s2, bs in (((3,), (2,), ()), ((2,), (3,), ()), ((2, 3), (2, 2), (2,)), ((2, 3), (3, 2), ()), ((2, 3), (1, 4), (3,)), ((2, 2), (3, 3), (2, 1)), ((2, 3), [2, 3], ())):
        R.ob(f"reduce {s1} to {s2} batch {bs}", red(s1, s2, bs), F("reduce"), bound="every entry, listed shapes", num=1)

    # ------------------------------------------------------------ products, orders, traces
    def andc(s1, s2, bs):
        def f(E):
            x, y = free(E, bs + s1, "x"), free(E, bs + s2, "y")
            r = AA(x, len(bs)) & AA(y, len(bs))
            E.true("shape", tuple(r.array.shape) == bs + s1 + s2 and r.batch_dims == len(bs), f"{r.array.shape}")
            for i in np.ndindex(*bs):
                for j in np.ndindex(*s1):
                    for k in np.ndindex(*s2):
                        E.eq("entry", E.arr(r.array)[i + j + k], x[i + j] * y[i + k])
        return f
    for s1, s2, bs in (((2,), (3,), ()), ((2, 2), (3,), (2,)), ((1, 2), (2, 2), (2, 2)), ((), (2,), ()), ((), (), (2,))):
        R.ob(f"tensor product {s1} {s2} batch {bs}", andc(s1, s2, bs), F("__and__"), bound="every entry, listed shapes", num=1)

    def tr(s, bs, z, zc):
        def f(E):
            x = free(E, bs + s, "x")
            a = AA(x.copy(), len(bs))
            r = a.trace(z, zc)
            rest = [i for i in range(len(s)) if i not in z + zc]
            sh = tuple(s[i] for i in rest)
            E.true("shape", tuple(r.array.shape) == bs + sh and r.batch_dims == len(bs), f"{r.array.shape} {bs + sh}")
            for i in np.ndindex(*bs):
                for j in np.ndindex(*sh):
                    t = 0
                    for k in np.ndindex(*(min(s[p], s[q]) for p, q in zip(z, zc))):
                        idx = [None] * len(s)
                        for p, v in zip(rest, j):
                            idx[p] = v
                        for p, q, v in zip(z, zc, k):
                            idx[p] = idx[q] = v
                        t = t + x[i + tuple(idx)]
                    E.eq("entry", E.arr(r.array)[i + j], t)
            E.eq("operand unchanged", a.array, x)
        return f
    for s, bs, z, zc in (((2, 2), (), (0,), (1,)), ((3, 2), (), (0,), (1,)), ((2, 3), (2,), (1,), (0,)), ((2, 3, 2), (), (2,), (0,)), ((2, 3, 2), (2,), (1,), (0,)), ((2, 3, 2, 2), (), (0, 1), (2, 3)), ((2, 3, 2, 2), (), (3, 0), (1, 2)), ((2, 2), (2,), (), ()), ((2, 1, 3, 2), (2, 1), (2,), (0,)),
                         ((2, 3, 3, 2), (), (0, 1), (3, 2)), ((2, 2, 2, 2), (), (2, 0), (3, 1)), ((2, 2, 2, 2), (2,), (0, 3), (2, 1)), ((2, 2, 2, 2, 2), (), (4, 1), (3, 0)), ((1, 2, 2, 2, 1, 2), (), (0, 1, 3), (4, 5, 2))):
        R.ob(f"trace {s} batch {bs} {z},{zc}", tr(s, bs, z, zc), F("trace"), bound="every entry, listed shapes", num=1)

    def rtrace(E):
        n = int(E.rng.integers(2, 8))
        k = int(E.rng.integers(1, n // 2 + 1))
        bs = E.pick((), (2,), (2, 2))
        s = tuple(E.rng.integers(1, 4, size=n).tolist()) if E.rng.random() < .5 else (2,) * n
        ix = E.rng.permutation(n)[:2 * k].tolist()
        E.note(s, bs, ix[:k], ix[k:])
        tr(s, bs, tuple(ix[:k]), tuple(ix[k:]))(E)
    R.bounded("trace of random arrays", rtrace, F("trace"), num=40, bound="up to 7 indices of size 1-3, any order of the pairs, batches")

    def ro(E):
        x = free(E, (2, 3, 2, 1), "x")
        a = AA(x.copy(), 1)
        for o in itertools.permutations(range(3)):
            E.eq(f"reorder {o}", a.reorder(o).array, np.transpose(x, (0,) + tuple(k + 1 for k in o)))
        a = AA(x.copy(), 2)
        E.eq("reorder_batch", a.reorder_batch([1, 0]).array, np.transpose(x, (1, 0, 2, 3)))
        E.true("batch shape", tuple(a.reorder_batch([1, 0]).batch_shape) == (3, 2))
        E.eq("scalar", a.scalar, x[..., 0, 0])
        E.eq("operand unchanged", a.array, x)
        E.raises("wrong length", lambda: a.reorder_batch([0]), ValueError)
    R.ob("reorder", ro, F("reorder", "reorder_batch", "scalar"), bound="every entry, one shape", num=1)

    # ------------------------------------------------------------ contraction
    def con(E, s1, s2, i1, i2, out, x=None, y=None):
        x = free(E, s1, "x") if x is None else x
        y = free(E, s2, "y") if y is None else y
        nb1, nb2 = sum(isinstance(k, str) for k in i1), sum(isinstance(k, str) for k in i2)
        r = AA(x.copy(), nb1).contract(AA(y.copy(), nb2), i1, i2, out)
        dims = {}
        for s, ix in ((s1, i1), (s2, i2)):
            for l, d in zip(ix, s):
                dims[l] = min(dims.get(l, d), d)
        sh = tuple(dims[l] for l in out)
        summed = [l for l in dict.fromkeys(list(i1) + list(i2)) if l not in out]
        E.true("shape", tuple(r.array.shape) == sh and r.batch_dims == sum(isinstance(k, str) for k in out), f"{r.array.shape} {sh} {r.batch_dims}")
        ref = np.empty(sh, dtype=object if E.sym else complex)
        for j in np.ndindex(*sh):
            env = dict(zip(out, j))
            t = 0
            for k in np.ndindex(*(dims[l] for l in summed)):
                env.update(zip(summed, k))
                t = t + x[tuple(env[l] for l in i1)] * y[tuple(env[l] for l in i2)]
            ref[j] = t
        E.eq("entries", E.arr(r.array), ref if ref.ndim else E.arr(ref.item()))
    cons = [((2, 3), (3, 2), [0, 1], [1, 2], [0, 2]), ((2, 3), (3, 2), [0, 1], [1, 2], [2, 0]), ((2, 3), (2, 4), [0, 1], [2, 1], [0, 2]), ((3, 2), (2, 2), [0, 1], [0, 1], []), ((2, 2), (3, 3), [5, 3], [3, 5], []),
            ((2, 3), (2, 2), ["a", 0], ["a", 0], ["a"]), ((2, 3), (2, 2), ["a", 0], ["b", 0], ["b", "a"]), ((2, 3, 2), (3, 2), ["a", 1, 7], [1, 4], ["a", 4, 7]), ((2,), (3,), [0], [1], [1, 0]), ((2, 3, 2), (2, 3, 2), ["x", "a", 0], ["x", "a", 0], ["a", "x"]),
            ((2, 2, 2), (2, 2, 3), [0, 1, 2], [2, 3, 0], [3, 1]), ((2, 2), (), [0, 1], [], [1, 0])]
    for k, c in enumerate(cons):
        R.ob(f"contraction {k} {c[0]}{c[2]} {c[1]}{c[3]} to {c[4]}", (lambda c: lambda E: con(E, *c))(c), F("contract"), bound="every entry, listed shapes and labels", num=1)

    def rnd(E):
        n1, n2 = int(E.rng.integers(1, 5)), int(E.rng.integers(0, 4))
        k = int(E.rng.integers(0, min(n1, n2) + 1))
        B = E.pick(([], []), (["b"], []), (["b"], ["b"]), (["b"], ["c"]), (["b", "c"], ["c"]), (["b", "c"], ["c", "b"]))
        bd = {"b": 2, "c": 3}
        l1 = E.rng.permutation(60)[:n1].tolist()
        l2 = (100 + E.rng.permutation(60)[:n2]).tolist()
        p1, p2 = E.rng.permutation(n1)[:k], E.rng.permutation(n2)[:k]
        for a, b in zip(p1, p2):
            l2[b] = l1[a]
        s1 = [bd[x] for x in B[0]] + E.rng.integers(1, 4, size=n1).tolist()
        s2 = [bd[x] for x in B[1]] + E.rng.integers(1, 4, size=n2).tolist()
        core = [l for l in l1 + l2 if (l in l1) != (l in l2)]
        bout = list(dict.fromkeys(B[0] + B[1]))
        out = [bout[i] for i in E.rng.permutation(len(bout))] + [core[i] for i in E.rng.permutation(len(core))]
        E.note(s1, s2, B[0] + l1, B[1] + l2, out)
        con(E, tuple(s1), tuple(s2), B[0] + l1, B[1] + l2, out)
    R.bounded("contraction of random arrays", rnd, F("contract"), num=60, bound="up to 4+3 indices of size 1-3, batches")

    def mism(E):
        a, b = AA(free(E, (2, 3), "x"), 1), AA(free(E, (3, 3), "y"), 1)
        E.raises("sum of different batches", lambda: a + b, Exception)
        E.raises("tensor product of different batches", lambda: a & b, ValueError)
        E.raises("contraction over batches of different sizes", lambda: a.contract(b, ["a", 0], ["a", 0], ["a"]), Exception)
        E.raises("unknown output label", lambda: a.contract(b, ["a", 0], ["b", 0], ["a", "b", 4]), ValueError)
        E.raises("too few labels", lambda: a.contract(b, ["a"], ["b", 0], ["a", "b"]), ValueError)
        E.raises("trace of overlapping indices", lambda: a.trace((0,), (0,)), ValueError)
        E.raises("reduce to a wrong number of indices", lambda: a.reduce((2, 2)), ValueError)
    R.bounded("refused operations", mism, F("__add__", "__and__", "contract", "trace", "reduce"), num=1)

    def many(E):
        """more labels than letters of the alphabet"""
        n = 27
        x, y = free(E, (1,) * n, "x"), free(E, (1,) * 2, "y")
        r = AA(x, 0).contract(AA(y, 0), list(range(n)), [0, 50], [50] + list(range(1, n)))
        E.eq("value", np.asarray(r.array).ravel(), np.array([x.ravel()[0] * y.ravel()[0]]))
    R.bounded("many indices", many, F("contract"), num=1)
