"""P12: algebra of polynomial-times-exponential functions is pointwise algebra."""
import itertools
import numpy as np
import oracle as O
from common import *
from P02 import rtriple


def register(R):
    from mrmustard.physics.ansatz import PolyExpAnsatz as PE, ArrayAnsatz
    from mrmustard import math, settings
    R.explanation = ("the real PolyExpAnsatz operations are executed on free triples (and free evaluation points) and the value of the result is compared with the pointwise operation; "
                     "natively with batches, superpositions and all mixtures of polynomial parts")
    F = lambda *n: ["PolyExpAnsatz." + x for x in n]

    def btriple(E, n, bs, der, p):
        N = n + len(der)
        if not E.sym:
            return rtriple(E.rng, n, bs, der)
        k = int(np.prod(bs))
        A = E.arr([E.csym(N, f"{p}A{q}_") for q in range(k)]).reshape(bs + (N, N))
        b = E.arr([E.cvec(N, f"{p}b{q}_") for q in range(k)]).reshape(bs + (N,)) if N else np.zeros(bs + (0,))
        return A, b, E.arr(param(E, "cplx", p + "c", tuple(bs) + tuple(der)))

    def pts(E, n, p="z"):
        return [E.cplx(f"{p}{i}") for i in range(n)]

    def call(E, p, z):
        return E.arr(p(*[E.arr(x) for x in z]))

    def same(E, nm, got, ref):
        E.eq(nm, got, ref, shape=False)

    # --------------------------------------------------------------- exact: value and unary operations
    SH = [(1, ()), (2, ()), (1, (2,)), (1, (3,)), (2, (2,)), (1, (2, 2)), (2, (2, 3))]
    for n, der in SH:
        def ev(E, n=n, der=der):
            A, b, c = btriple(E, n, (), der, "p")
            z = pts(E, n)
            p = PE(A, b, c)
            v = O.value(E, A, b, c, z)
            same(E, "value", call(E, p, z), v)
            same(E, "eval", E.arr(p.eval(*[E.arr(x) for x in z])), v)
            k = E.cplx("k")
            same(E, "multiple", call(E, p * k, z), v * k)
            same(E, "left multiple", call(E, k * p, z) if not E.sym else call(E, p.__rmul__(k), z), v * k)
            same(E, "quotient", call(E, p / k, z), v / k)
            same(E, "negative", call(E, -p, z), -v)
            zc = [E.conj(x) for x in z]
            same(E, "conjugate", call(E, p.conj, zc), E.conj(v))
            for o in itertools.permutations(range(n)):
                same(E, f"reorder {o}", call(E, p.reorder(o), [z[k] for k in o]), v)
            for i in range(n):
                if n > 1:
                    q = p.eval(*[E.arr(z[k]) if k == i else None for k in range(n)])
                    E.true("remaining variables", q.num_CV_vars == n - 1 and q.num_derived_vars == len(der))
                    same(E, f"fixed variable {i}", call(E, q, [z[k] for k in range(n) if k != i]), v)
                    q = p(*[E.arr(z[k]) if k == i else None for k in range(n)])
                    same(E, f"call with one variable {i}", call(E, q, [z[k] for k in range(n) if k != i]), v)
            zero = [0 * x for x in z]
            same(E, "scalar", E.arr(p.scalar), O.value(E, A, b, c, zero))
            E.eq("operand unchanged A", p.A, A)
            E.eq("operand unchanged b", p.b, b)
            E.eq("operand unchanged c", p.c, c)
        R.ob(f"values n={n} derived={der}", ev, F("__call__", "eval", "_partial_eval", "__mul__", "__truediv__", "__neg__", "conj", "reorder", "scalar", "_compute_exp_part", "_compute_polynomial_part", "_combine_exp_and_poly"),
             bound="every A, b, c and every point, numbers of variables and polynomial shape as listed", num=2, timeout=120)

    # --------------------------------------------------------------- exact: sums and products
    PAIRS = [((), ()), ((2,), ()), ((), (2,)), ((2,), (3,)), ((2, 2), (2,)), ((2,), (2, 2)), ((3,), (2, 2)), ((2, 1), (1, 3))]
    for d1, d2 in PAIRS:
        for n in (1, 2):
            def ad(E, n=n, d1=d1, d2=d2):
                t1, t2 = btriple(E, n, (), d1, "p"), btriple(E, n, (), d2, "q")
                z = pts(E, n)
                p, q = PE(*t1), PE(*t2)
                v1, v2 = O.value(E, *t1, z), O.value(E, *t2, z)
                for nm, s, sg in (("sum", p + q, 1), ("difference", p - q, -1)):
                    E.true("is a superposition of two terms", s._lin_sup and s.batch_shape == (2,) and s.num_CV_vars == n, str(s.batch_shape))
                    A, b, c = (E.arr(x) for x in s.triple)
                    same(E, nm + ": first term", call(E, PE(A[0], b[0], c[0]), z), v1)
                    same(E, nm + ": second term", call(E, PE(A[1], b[1], c[1]), z), v2 * sg)
                    if not E.sym:
                        same(E, nm, call(E, s, z), v1 + sg * v2)
                        s3 = s + p
                        same(E, nm + " of three", call(E, s3, z), 2 * v1 + sg * v2)
                        s4 = p + s
                        same(E, nm + " of three, other order", call(E, s4, z), 2 * v1 + sg * v2)
            R.ob(f"sum n={n} derived={d1},{d2}", ad, F("__add__", "__sub__"), bound="every pair of triples with the listed polynomial shapes", num=2, timeout=120)

        def pr(E, d1=d1, d2=d2):
            n1, n2 = 1, 2
            t1, t2 = btriple(E, n1, (), d1, "p"), btriple(E, n2, (), d2, "q")
            z, w = pts(E, n1, "z"), pts(E, n2, "w")
            r = PE(*t1) & PE(*t2)
            E.true("variables", r.num_CV_vars == n1 + n2 and r.shape_derived_vars == tuple(d1) + tuple(d2), f"{r.num_CV_vars} {r.shape_derived_vars}")
            same(E, "tensor product", call(E, r, z + w), O.value(E, *t1, z) * O.value(E, *t2, w))
        R.ob(f"tensor product derived={d1},{d2}", pr, F("__and__"), bound="1 and 2 variables, listed polynomial shapes", num=2, timeout=120)

    # --------------------------------------------------------------- exact: decomposition into core and polynomial
    for n, der in ((1, (2,)), (1, (3,)), (1, (2, 2)), (2, (2, 2)), (1, (1,))):
        def dec(E, n=n, der=der):
            t = btriple(E, n, (), der, "p")
            z = pts(E, n)
            d = PE(*t).decompose_ansatz()
            E.true("one derived variable per variable", d.num_CV_vars == n and d.num_derived_vars == n, f"{d.num_CV_vars} {d.num_derived_vars}")
            same(E, "decomposition", call(E, d, z), O.value(E, *t, z))
        R.ob(f"decomposition n={n} derived={der}", dec, F("decompose_ansatz"), bound="every triple of the listed shapes", num=3, timeout=200)

    # --------------------------------------------------------------- native
    def rand(E, n=None, bs=None, der=None, ls=None):
        n = n if n is not None else int(E.rng.integers(1, 4))
        der = der if der is not None else E.pick((), (), (2,), (3, 2), (1,))
        ls = bool(E.rng.integers(2)) if ls is None else ls
        bs = bs if bs is not None else E.pick((), (2,), (3, 2))
        sh = bs + ((int(E.rng.integers(1, 4)),) if ls else ())
        t = rtriple(E.rng, n, sh, der)
        E.note("n", n, "batch", bs, "superposition", ls and sh[-1], "derived", der)
        return PE(*[x.copy() for x in t], lin_sup=ls), t, n, bs, der, ls

    def ref(t, bs, ls, z):
        """batch of values"""
        out = np.zeros(bs, dtype=complex)
        for i in np.ndindex(*bs):
            out[i] = sum(O.poly_value(*(x[i + a] for x in t), z) for a in (np.ndindex(t[0].shape[len(bs)]) if ls else [()]))
        return out

    def cz(E, n):
        return (E.rng.normal(size=n) + 1j * E.rng.normal(size=n)) * 0.6

    def unary(E):
        p, t, n, bs, der, ls = rand(E)
        z = cz(E, n)
        v = ref(t, bs, ls, z)
        E.eq("value", p(*z), v)
        k = complex(E.rng.normal(), E.rng.normal())
        for nm, q, w in (("multiple", p * k, v * k), ("left multiple", k * p, v * k), ("quotient", p / k, v / k), ("negative", -p, -v)):
            E.true(nm + " keeps the superposition", q._lin_sup == ls and q.batch_shape == p.batch_shape)
            E.eq(nm, q(*z), w)
        if bs and not ls and not der:
            kk = E.rng.normal(size=bs)
            E.eq("multiple by a batch", (p * kk)(*z), v * kk)
        E.eq("conjugate", p.conj(*np.conj(z)), np.conj(v))
        E.true("conjugate keeps the superposition", p.conj._lin_sup == ls)
        o = E.rng.permutation(n).tolist()
        q = p.reorder(o)
        E.true("reorder keeps the superposition", q._lin_sup == ls)
        E.eq("reorder", q(*z[o]), v)
        if len(bs) == 2:
            q = p.reorder_batch([1, 0] + ([2] if ls else []))
            E.eq("reorder_batch", q(*z), v.T)
        # several points at once
        pt = [cz(E, 5) for _ in range(n)]
        w = np.stack([ref(t, bs, ls, [x[j] for x in pt]) for j in range(5)])
        E.eq("vector of points", p(*pt), w)
        E.eq("eval zip", p.eval(*pt, batch_string=",".join(["a"] * n) + "->a"), w)
        if n == 2:
            g = p.eval(pt[0], pt[1][:3])
            E.eq("eval outer", g, np.stack([[ref(t, bs, ls, [pt[0][a], pt[1][c]]) for c in range(3)] for a in range(5)]))
            g = p.eval(pt[0], pt[1][:3], batch_string="a,b->ba")
            E.eq("eval outer, exchanged", g, np.stack([[ref(t, bs, ls, [pt[0][a], pt[1][c]]) for a in range(5)] for c in range(3)]))
            X, Y = cz(E, (2, 3)), cz(E, (3, 2))
            g = p.eval(X, Y, batch_string="ab,ba->ab")
            E.eq("eval of transposed grids", g, np.stack([[ref(t, bs, ls, [X[a, c], Y[c, a]]) for c in range(3)] for a in range(2)]))
        # partial evaluation
        if n > 1:
            sel = sorted(E.rng.permutation(n)[:int(E.rng.integers(1, n))].tolist())
            a = [z[i] if i in sel else None for i in range(n)]
            for nm, q in (("call", p(*a)), ("eval", p.eval(*a))):
                E.true(f"partial {nm} keeps the superposition", q._lin_sup == ls and q.num_CV_vars == n - len(sel))
                E.eq(f"partial {nm}", q(*[z[i] for i in range(n) if i not in sel]), v)
            a = [pt[i] if i in sel else None for i in range(n)]
            q = p.eval(*a, batch_string=",".join(["a"] * len(sel)) + "->a")
            r = q(*[z[i] for i in range(n) if i not in sel])
            E.eq("partial evaluation at a vector of points", r, np.stack([ref(t, bs, ls, [pt[i][j] if i in sel else z[i] for i in range(n)]) for j in range(5)]))
        # grids of points, square ones included: no exchange of the axes of the points with each other or with the batch
        g = E.pick((2, 2), (3, 3), (2, 3), (3, 2), (2, 2, 2), (1, 2, 3))
        Z = [cz(E, g) for _ in range(n)]
        for nm, full in (("call", list(range(n))), ("partial call", sorted(E.rng.permutation(n)[:max(1, n - 1)].tolist()))):
            if nm == "partial call" and len(full) == n:
                continue
            q = p(*[Z[i] if i in full else None for i in range(n)])
            rest = [z[i] for i in range(n) if i not in full]
            w = np.zeros(g + bs, dtype=complex)
            for j in np.ndindex(*g):
                w[j] = ref(t, bs, ls, [Z[i][j] if i in full else z[i] for i in range(n)])
            E.eq(f"{nm} on a grid", q(*rest) if rest else q, w)
        E.eq("scalar", p.scalar, ref(t, bs, ls, np.zeros(n)), shape=False)
        for x, y in zip(p.triple, t):
            E.eq("operand unchanged", x, y, tol=0)
    R.bounded("unary operations on batches", unary, F("__call__", "eval", "_partial_eval", "reorder", "reorder_batch", "conj", "__mul__", "__truediv__", "scalar"), num=40, bound="up to 3 variables, batches up to (3,2), superpositions, polynomial parts")

    def binary(E):
        n = E.pick(1, 2, 3)
        ls1, ls2 = bool(E.rng.integers(2)), bool(E.rng.integers(2))
        p, t1, _, _, d1, _ = rand(E, n=n, bs=(), ls=ls1)
        q, t2, _, _, d2, _ = rand(E, n=n, bs=(), ls=ls2)
        z = cz(E, n)
        v1, v2 = ref(t1, (), ls1, z), ref(t2, (), ls2, z)
        E.eq("sum", (p + q)(*z), v1 + v2)
        E.eq("difference", (p - q)(*z), v1 - v2)
        E.eq("sum of three", ((p + q) + p)(*z), 2 * v1 + v2)
        for x, y in zip(p.triple + q.triple, t1 + t2):
            E.eq("operand unchanged", x, y, tol=0)
        s = p + q
        s2 = s.simplify()
        E.eq("simplified sum", s2(*z), v1 + v2)
        s3 = (p + q - p).simplify()
        E.eq("simplified sum with equal terms", s3(*z), v2)
        E.true("equal exponents are merged", s3.batch_size == s2.batch_size, f"{s3.batch_size} {s2.batch_size}")
        E.eq("simplifying changes nothing else", s(*z), v1 + v2)
    R.bounded("sums of superpositions", binary, F("__add__", "__sub__", "simplify", "_find_unique_terms_sorted"), num=30, bound="up to 3 variables, up to 3+3 terms")

    def tens(E):
        p, t1, n1, b1, d1, l1 = rand(E)
        q, t2, n2, b2, d2, l2 = rand(E)
        z, w = cz(E, n1), cz(E, n2)
        r = p & q
        v1, v2 = ref(t1, b1, l1, z), ref(t2, b2, l2, w)
        E.eq("tensor product", r(*z, *w), np.multiply.outer(v1, v2))
        E.true("superposition", r._lin_sup == (l1 or l2))
        for x, y in zip(p.triple + q.triple, t1 + t2):
            E.eq("operand unchanged", x, y, tol=0)
    R.bounded("tensor products of batches", tens, F("__and__"), num=30, bound="batches up to (3,2) each, superpositions, polynomial parts")

    def dec2(E):
        p, t, n, bs, der, ls = rand(E, n=E.pick(1, 1, 2), der=E.pick((2, 2), (3, 2), (2, 1), (1, 2)))
        z = cz(E, n)
        d = p.decompose_ansatz()
        E.true("kind", d._lin_sup == ls and d.batch_shape == p.batch_shape)
        E.eq("decomposition", d(*z), ref(t, bs, ls, z))
    R.bounded("decomposition of batches", dec2, F("decompose_ansatz"), num=15, bound="1-2 variables, two polynomial variables, batches")

    def simp(E):
        n = E.pick(1, 2)
        der = E.pick((), (2,), (2, 2))
        base = rtriple(E.rng, n, (3,), der)
        pick = E.rng.integers(0, 3, size=int(E.rng.integers(1, 8)))
        A, b = base[0][pick], base[1][pick]
        c = rtriple(E.rng, n, (len(pick),), der)[2]
        p = PE(A, b, c, lin_sup=True)
        z = cz(E, n)
        s = p.simplify()
        E.true("distinct exponents remain", s.batch_shape == (len(set(pick.tolist())),), f"{s.batch_shape} for {pick}")
        E.eq("value", s(*z), ref((A, b, c), (), True, z))
        E.eq("operand unchanged", p.c, c, tol=0)
        E.eq("again", s.simplify()(*z), ref((A, b, c), (), True, z))
    R.bounded("simplification", simp, F("simplify"), num=40, bound="up to 7 terms with repetitions")

    def eqs(E):
        p, t, n, bs, der, ls = rand(E)
        E.true("equal to itself", p == PE(*[x.copy() for x in t], lin_sup=ls))
        for k, nm in enumerate("Abc"):
            u = [np.array(x) for x in t]
            i = tuple(int(E.rng.integers(s)) for s in u[k].shape)
            u[k][i] += 1e-3
            if nm == "A":
                u[k][i[:-2] + (i[-1], i[-2])] = u[k][i]
            E.true(f"different {nm}", not (p == PE(*u, lin_sup=ls)))
        L = t[0].shape[len(bs)] if ls else 1
        if ls and L > 1:
            o = E.rng.permutation(L)
            ax = len(bs)
            E.true("order of the terms does not matter", p == PE(*[np.take(x, o, axis=ax) for x in t], lin_sup=True))
        if bs and not ls and bs[0] > 1:
            E.true("order of the batch matters", not (p == PE(*[x[::-1].copy() for x in t], lin_sup=False)))
        E.true("not equal to an array", not (p == ArrayAnsatz(np.ones((2, 2)))))
        if not bs:
            e = [np.stack([x, x]) for x in t]
            E.true("batch of copies", p == PE(*e, lin_sup=ls) or ls)
        m = rtriple(E.rng, n + 1, t[0].shape[:-2], der)
        E.true("different number of variables", not (p == PE(*m, lin_sup=ls)))
    R.bounded("equality", eqs, F("__eq__"), num=40, bound="up to 3 variables, batches up to (3,2), superpositions")

    def refuse(E):
        a, b = PE(*rtriple(E.rng, 1)), PE(*rtriple(E.rng, 2))
        E.raises("sum with other variables", lambda: a + b, ValueError)
        E.raises("sum of batches", lambda: PE(*rtriple(E.rng, 1, (2,))) + a, ValueError)
        E.raises("too many arguments", lambda: a(1.0, 2.0), Exception)
        E.raises("product of functions", lambda: a * a, (NotImplementedError, TypeError))
        E.raises("inconsistent batch", lambda: PE(np.zeros((2, 1, 1)), np.zeros((3, 1)), np.zeros(2)).A, ValueError)
        E.raises("inconsistent batch of c", lambda: PE(np.zeros((2, 1, 1)), np.zeros((2, 1)), np.zeros((3,))).A, ValueError)
        E.raises("wrong reorder", lambda: b.reorder([0]), ValueError)
    R.bounded("refused operations", refuse, F("__add__", "__mul__", "reorder"), num=3)
