"""P02: contraction / trace of Bargmann functions is the exact Gaussian integral."""
import itertools
import numpy as np
import oracle as O
from common import *


def small_sym(rng, n, s=0.5):
    """complex symmetric, spectral norm <= s"""
    M = rng.normal(size=(n, n)) + 1j * rng.normal(size=(n, n))
    M = M + M.T
    nr = np.linalg.norm(M, 2) if n else 1.0
    return M / nr * s * rng.uniform(0.3, 1.0) if n else np.zeros((0, 0), dtype=complex)


def rtriple(rng, n, bs=(), derived=(), s=0.45, cs=True):
    N = n + len(derived)
    k = int(np.prod(bs))
    A = np.stack([small_sym(rng, N, s) for _ in range(k)]).reshape(bs + (N, N))
    b = (rng.normal(size=bs + (N,)) + 1j * rng.normal(size=bs + (N,))) * 0.5
    c = rng.normal(size=bs + tuple(derived)) + 1j * rng.normal(size=bs + tuple(derived))
    return A, b, c


def register(R):
    from mrmustard.physics import gaussian_integrals as GI
    from mrmustard.physics.ansatz import PolyExpAnsatz as PE
    from mrmustard import math
    R.explanation = ("the real integral functions are executed on free triples and compared with the integral carried out one complex variable at a time; "
                     "natively also with many variables, batches, polynomial parts and direct numerical values")

    def lift(E, x):
        return E.arr(x)

    def free(E, n, p="", der=()):
        N = n + len(der)
        if E.sym:
            A, b = E.csym(N, p + "A"), E.cvec(N, p + "b")
            c = param(E, "cplx", p + "c", tuple(der)) if der else E.arr(E.cplx(p + "c"))
        else:
            A, b, c = rtriple(E.rng, n, (), der)
            c = c if der else np.array(complex(c))
        return A, b, c

    def logc(E, c):
        from mrmustard import math as m
        return m.log(m.cast(m.astensor(c), "complex128"))

    def cmp(E, nm, got, ref, c0, der=()):
        A, b, c = (E.arr(x) for x in got)
        E.eq(nm + ": A", A, ref[0])
        E.eq(nm + ": b", b, ref[1])
        # every coefficient is multiplied by the same scalar (ref[2] belongs to coefficient 1)
        c0 = E.arr(c0) if der else item(c0)
        for i in np.ndindex(*der):
            x = c[i] if der else item(c)
            y = c0[i] if der else c0
            if E.sym:
                E.eq(nm + f": c{i or ''}", x * x, ref[2] * y * y, shape=False)
            else:
                E.eq(nm + f": c{i or ''}", x, ref[2] * y, shape=False)

    # ------------------------------------------------ one function: every ordered choice of index pairs
    def trace1(n, pairs_z, pairs_zc, der=()):
        def f(E):
            A, b, c = free(E, n, "", der)
            ref = O.integrate(E, A, b, 1 if E.sym else 1.0 + 0j, list(zip(pairs_z, pairs_zc)))
            got = GI.complex_gaussian_integral_1((A, b, logc(E, c)), list(pairs_z), list(pairs_zc))
            cmp(E, "integral", got, ref, c, der)
            p = PE(A, b, c).trace(tuple(pairs_z), tuple(pairs_zc))
            cmp(E, "trace", p.triple, ref, c, der)
        return f
    fn1 = ["gaussian_integrals.complex_gaussian_integral_1", "PolyExpAnsatz.trace"]
    for n in (2, 3, 4):
        for z, zc in itertools.permutations(range(n), 2):
            if n == 4 and (z, zc) not in ((0, 1), (3, 0), (1, 2), (2, 1)):
                continue
            R.ob(f"trace n={n} ({z},{zc})", trace1(n, (z,), (zc,)), fn1, bound=f"{n} variables, every A, b, c", num=2)
    for z, zc in (((0, 1), (2, 3)), ((1, 0), (2, 3)), ((3, 0), (1, 2)), ((2, 3), (0, 1))):
        R.ob(f"trace n=4 two pairs {z},{zc}", trace1(4, z, zc), fn1, bound="4 variables, every A, b, c", num=2)
    for z, zc in (((0, 4), (2, 1)), ((3, 2), (0, 1))):
        R.ob(f"trace n=5 two pairs {z},{zc}", trace1(5, z, zc), fn1, bound="5 variables, every A, b, c", num=2, timeout=120)
    for n, der, z, zc in ((2, (2,), 0, 1), (3, (2,), 2, 0), (3, (2, 3), 1, 2), (2, (3,), 1, 0)):
        R.ob(f"trace with polynomial n={n} derived={der} ({z},{zc})", trace1(n, (z,), (zc,), der), fn1, bound="every A, b and polynomial coefficients of the given shape", num=2)

    def measure(E):
        """another measure exponent"""
        A, b, c = free(E, 3)
        me = 0 if E.sym else 0.0
        # integral of exp(...) d^2z/pi with z, zbar coupled by A only: shift A by -(-1)=+1 to reuse the oracle
        z, zc = 2, 0
        if not E.sym:
            A[z, zc] -= 1.2
            A[zc, z] -= 1.2
        A2 = E.arr(A).copy()
        A2[z, zc] = A2[z, zc] + 1
        A2[zc, z] = A2[zc, z] + 1
        ref = O.integrate(E, A2, b, 1 if E.sym else 1.0 + 0j, [(z, zc)])
        got = GI.complex_gaussian_integral_1((A, b, logc(E, c)), [z], [zc], measure=me)
        cmp(E, "measure", got, ref, c)
        cmp(E, "trace with measure", PE(A, b, c).trace((z,), (zc,), measure=me).triple, ref, c)
    R.ob("other measure", measure, fn1, bound="three variables", num=3)

    # ------------------------------------------------ two functions
    def two(n1, n2, i1, i2, der1=(), der2=()):
        def f(E):
            t1, t2 = free(E, n1, "p", der1), free(E, n2, "q", der2)
            N1, N2 = n1 + len(der1), n2 + len(der2)
            one = 1 if E.sym else 1.0 + 0j
            A, b, _ = O.direct_sum(E, (t1[0], t1[1], one), (t2[0], t2[1], one))
            # core of both first, then the derived ones
            order = list(range(n1)) + [N1 + k for k in range(n2)] + list(range(n1, N1)) + [N1 + k for k in range(n2, N2)]
            A, b = E.arr(A)[np.ix_(order, order)], E.arr(b)[order]
            ref = O.integrate(E, A, b, one, [(x, n1 + y) for x, y in zip(i1, i2)])
            got = GI.complex_gaussian_integral_2(t1, t2, list(i1), list(i2))
            der = tuple(der1) + tuple(der2)
            c0 = E.arr(t1[2])[(...,) + (None,) * len(der2)] * E.arr(t2[2]) if der else t1[2] * t2[2]
            cmp(E, "integral", got, ref, c0, der)
            # through labels, in any output order
            l1 = list(range(n1))
            l2 = [100 + k for k in range(n2)]
            for x, y in zip(i1, i2):
                l2[y] = l1[x]
            out = [l for l in l1 + l2 if (l in l1) != (l in l2)]
            for lo in (out, out[::-1]):
                p = PE(*t1).contract(PE(*t2), l1, l2, lo)
                k = [out.index(l) for l in lo] + list(range(len(out), len(out) + len(der)))
                cmp(E, "contract", p.triple, (E.arr(ref[0])[np.ix_(k, k)], E.arr(ref[1])[k], ref[2]), c0, der)
        return f
    fn2 = ["gaussian_integrals.complex_gaussian_integral_2", "gaussian_integrals.join_Abc", "PolyExpAnsatz.contract", "PolyExpAnsatz.reorder"]
    cases = [(1, 1, (0,), (0,)), (2, 1, (1,), (0,)), (1, 2, (0,), (1,)), (2, 2, (0,), (1,)), (2, 2, (1,), (0,)), (2, 2, (0, 1), (0, 1)), (2, 2, (0, 1), (1, 0)), (2, 2, (1, 0), (0, 1)),
             (3, 2, (2, 0), (0, 1)), (2, 3, (1, 0), (2, 0)), (2, 2, (), ()), (3, 1, (1,), (0,))]
    for n1, n2, i1, i2 in cases:
        R.ob(f"contraction {n1}x{n2} {i1}-{i2}", two(n1, n2, i1, i2), fn2, bound="every pair of triples with the given numbers of variables", num=2, timeout=150)
    for c_ in ((2, 1, (1,), (0,), (2,), ()), (1, 2, (0,), (1,), (), (3,)), (2, 2, (0,), (1,), (2,), (2,))):
        R.ob(f"contraction with polynomials {c_}", two(*c_), fn2, bound="every pair of triples, polynomial shapes as given", num=2, timeout=150)

    # ------------------------------------------------ real Gaussian integral
    def real_int(n, idx):
        def f(E):
            if E.sym:
                A, b, c = E.csym(n, "A"), E.cvec(n, "b"), E.arr(E.cplx("c"))
            else:
                M = E.rng.normal(size=(n, n))
                A = (-(M @ M.T) - np.eye(n)).astype(complex)
                b, c = E.cvec(n, "b"), np.array(E.cplx("c"))
            got = GI.real_gaussian_integral((A, b, c), idx)
            # definition, one real variable at a time: int exp(a x^2/2 + b x) dx = sqrt(2 pi / -a) exp(-b^2/(2a))
            al = list(range(n))
            A2, b2, k, pi_p, e2 = E.arr(A), E.arr(b), item(c) * item(c), 0, 0
            for x in idx:
                j = al.index(x)
                a = A2[j, j]
                rest = [q for q in range(len(al)) if q != j]
                k = k * E.exp(-(b2[j] * b2[j]) / a) / (-a)
                pi_p += 1
                d = A2[rest, j] if rest else None
                nb = b2[rest] - d * (b2[j] / a) if rest else np.zeros((0,))
                nA = (A2[np.ix_(rest, rest)] - np.multiply.outer(d, d) * (1 / a)) if rest else np.zeros((0, 0))
                A2, b2, al = nA, nb, [al[q] for q in rest]
            if len(idx) < n:
                E.eq("A", E.arr(got[0]), A2)
                E.eq("b", E.arr(got[1]), b2)
            c2 = item(E.arr(got[2])) if E.sym else np.asarray(got[2])
            E.eq("c squared", c2 * c2, k * (2 * E.pi) ** pi_p, shape=False)
        return f
    for n, idx in ((1, (0,)), (2, (0,)), (2, (1,)), (3, (1,)), (3, (2, 0)), (2, (0, 1))):
        R.ob(f"real integral n={n} {idx}", real_int(n, idx), ["gaussian_integrals.real_gaussian_integral"], bound="given number of variables", num=3)

    # ------------------------------------------------ joining
    def join(bs1, bs2, string):
        def f(E):
            t1 = batch_triple(E, 2, bs1, (2,), "p")
            t2 = batch_triple(E, 1, bs2, (3,), "q")
            A, b, c = (E.arr(x) for x in (GI.join_Abc(t1, t2, string) if string else GI.join_Abc(t1, t2)))
            ins, out = (string or ",".join(["abc"[:len(bs1)], "xyz"[:len(bs2)]]) + "->" + "abc"[:len(bs1)] + "xyz"[:len(bs2)]).split("->")
            i1, i2 = ins.split(",")
            dims = dict(zip(i1, bs1))
            dims.update(zip(i2, bs2))
            ob = tuple(dims[x] for x in out)
            E.true("batch shape", tuple(A.shape[:-2]) == ob and tuple(b.shape[:-1]) == ob and tuple(c.shape) == ob + (2, 3), f"{A.shape} {b.shape} {c.shape}")
            order = [0, 1, 3, 2, 4]
            for i in np.ndindex(*ob):
                at_ = dict(zip(out, i))
                k1, k2 = tuple(at_[x] for x in i1), tuple(at_[x] for x in i2)
                rA, rb, _ = O.direct_sum(E, (E.arr(t1[0])[k1], E.arr(t1[1])[k1], 1), (E.arr(t2[0])[k2], E.arr(t2[1])[k2], 1))
                E.eq("A", A[i], E.arr(rA)[np.ix_(order, order)])
                E.eq("b", b[i], E.arr(rb)[order])
                E.eq("c", c[i], E.arr(t1[2])[k1][:, None] * E.arr(t2[2])[k2][None, :])
        return f

    def batch_triple(E, n, bs, der, p):
        N = n + len(der)
        if not E.sym:
            return rtriple(E.rng, n, bs, der)
        k = int(np.prod(bs))
        As = [E.csym(N, f"{p}A{q}_") for q in range(k)]
        bsv = [E.cvec(N, f"{p}b{q}_") for q in range(k)]
        return (E.arr(As).reshape(bs + (N, N)), E.arr(bsv).reshape(bs + (N,)), param(E, "cplx", p + "c", bs + tuple(der)))
    for bs1, bs2, s in (((), (), None), ((2,), (), None), ((), (2,), None), ((2,), (2,), "a,a->a"), ((2,), (3,), None), ((2,), (3,), "a,b->ba"), ((2, 3), (3,), "ab,b->ab"), ((2, 3), (3, 2), "ab,ba->ab"),
                        ((2, 3), (2, 3), "ab,ab->ba"), ((2, 3), (2, 3), "ab,cd->cabd"[:0] or "ab,cb->cba"), ((2, 2), (2, 2), "ab,ba->ba")):
        R.ob(f"join batches {bs1},{bs2} {s}", join(bs1, bs2, s), ["gaussian_integrals.join_Abc", "utils.outer_product_batch_str"], bound="listed batch shapes and strings; every triple", num=2)

    # ------------------------------------------------ native: many variables, batches, polynomials, all indices
    def nat(E):
        n1, n2 = int(E.rng.integers(1, 6)), int(E.rng.integers(1, 6))
        k = int(E.rng.integers(0, min(n1, n2) + 1))
        d1, d2 = E.pick((), (), (2,), (1, 3)), E.pick((), (), (3,), (2, 2))
        bs1, bs2, st = E.pick(((), (), ([], [], [])), ((2,), (2,), (["x"], ["x"], ["x"])), ((2,), (3,), (["x"], ["y"], ["y", "x"])), ((2, 3), (3,), (["x", "y"], ["y"], ["y", "x"])), ((1, 2), (), (["x", "y"], [], ["x", "y"])),
                              ((2, 2), (2, 2), (["x", "y"], ["y", "x"], ["y", "x"])))
        t1, t2 = rtriple(E.rng, n1, bs1, d1), rtriple(E.rng, n2, bs2, d2)
        l1 = E.rng.permutation(50)[:n1].tolist()
        l2 = (100 + E.rng.permutation(50)[:n2]).tolist()
        i1, i2 = E.rng.permutation(n1)[:k], E.rng.permutation(n2)[:k]
        for x, y in zip(i1, i2):
            l2[y] = l1[x]
        out = [l for l in l1 + l2 if (l in l1) != (l in l2)]
        lo = E.rng.permutation(out).tolist() if out else []
        E.note("labels", l1, l2, lo, "batch", bs1, bs2, st, "derived", d1, d2)
        keep = [x.copy() for x in t1 + t2]
        p, q = PE(*t1), PE(*t2)
        r = p.contract(q, st[0] + l1, st[1] + l2, st[2] + lo)
        for x, y in zip(keep, [np.asarray(v) for v in p.triple + q.triple]):
            E.eq("operands unchanged", y, x, tol=0)
        dims = dict(zip(st[0], bs1))
        dims.update(zip(st[1], bs2))
        ob = tuple(dims[x] for x in st[2])
        A, b, c = (np.asarray(x) for x in r.triple)
        E.true("shapes", A.shape[:-2] == ob and r.num_CV_vars == len(lo) and c.shape == ob + tuple(d1) + tuple(d2), f"{A.shape} {c.shape}")
        N1 = n1 + len(d1)
        for i in np.ndindex(*ob):
            ai = dict(zip(st[2], i))
            k1, k2 = tuple(ai[x] for x in st[0]), tuple(ai[x] for x in st[1])
            dA, db, _ = O.direct_sum(E, (t1[0][k1], t1[1][k1], 1.0 + 0j), (t2[0][k2], t2[1][k2], 1.0 + 0j))
            ref = O.integrate(E, dA, db, 1.0 + 0j, [(x, N1 + y) for x, y in zip(i1, i2)])
            left = [("a", x) for x in range(N1) if x not in i1] + [("b", y) for y in range(n2 + len(d2)) if y not in i2]
            name = {("a", x): l1[x] for x in range(n1)}
            name.update({("b", y): l2[y] for y in range(n2)})
            pos = [next(j for j, s in enumerate(left) if name.get(s) == l) for l in lo]
            pos += [j for j, s in enumerate(left) if s not in name]
            E.eq("A", A[i], ref[0][np.ix_(pos, pos)])
            E.eq("b", b[i], ref[1][pos])
            cc = t1[2][k1][(...,) + (None,) * len(d2)] * t2[2][k2]
            E.eq("c", c[i], cc * ref[2])
        # Fubini: contracting the same pairs one after the other
        if k and not bs1 and not bs2:
            big = PE(*t1) & PE(*t2)
            names = [("a", x) for x in range(n1)] + [("b", y) for y in range(n2)]
            for j in E.rng.permutation(k):
                z, zc = names.index(("a", i1[j])), names.index(("b", i2[j]))
                big = big.trace((z,), (zc,))
                names = [s for t, s in enumerate(names) if t not in (z, zc)]
            nm = {("a", x): l1[x] for x in range(n1)}
            nm.update({("b", y): l2[y] for y in range(n2)})
            big = big.reorder([[nm[s] for s in names].index(l) for l in lo])
            for x, y, w in zip(big.triple, r.triple, "Abc"):
                E.eq("order of integration " + w, np.asarray(x), np.asarray(y))
    R.bounded("contraction of random functions", nat, fn2, num=40, bound="up to 5+5 variables, batches up to (2,3), polynomial parts")

    def nat_trace(E):
        n = int(E.rng.integers(2, 8))
        k = int(E.rng.integers(1, n // 2 + 1))
        der = E.pick((), (), (2,), (2, 3))
        bs = E.pick((), (2,), (3, 1), (2, 2))
        ls = bool(E.rng.integers(2)) and bs != ()
        t = rtriple(E.rng, n, bs, der)
        ix = E.rng.permutation(n)[:2 * k].tolist()
        z, zc = tuple(ix[:k]), tuple(ix[k:])
        E.note("n", n, "z", z, "zc", zc, "batch", bs, "derived", der, "lin_sup", ls)
        r = PE(*t, lin_sup=ls).trace(z, zc)
        E.true("superposition kept", bool(r._lin_sup) == ls)
        A, b, c = (np.asarray(x) for x in r.triple)
        rest = [x for x in range(n) if x not in ix]
        E.true("shapes", A.shape[:-2] == bs and r.num_CV_vars == len(rest) and c.shape == bs + tuple(der), f"{A.shape} {c.shape}")
        for i in np.ndindex(*bs):
            ref = O.integrate(E, t[0][i], t[1][i], 1.0 + 0j, list(zip(z, zc)))
            E.eq("A", A[i], ref[0])
            E.eq("b", b[i], ref[1])
            E.eq("c", c[i], t[2][i] * ref[2])
        # the value at a point is the integral of the values: brute-force quadrature for a single pair
        if n <= 3 and k == 1 and bs == () and not der:
            x, w = np.polynomial.hermite.hermgauss(40)
            pt = (E.rng.normal(size=len(rest)) + 1j * E.rng.normal(size=len(rest))) * 0.4
            Z = x[:, None] + 1j * x[None, :]
            W = w[:, None] * w[None, :] / np.pi       # exp(-|z|^2) d^2z / pi
            full = np.zeros((n,) + Z.shape, dtype=complex)
            full[z[0]], full[zc[0]] = Z, Z.conj()
            for j, v in zip(rest, pt):
                full[j] = v
            q = 0.5 * np.einsum("iab,ij,jab->ab", full, t[0], full) + np.einsum("i,iab->ab", t[1], full)
            E.eq("numerical integral", np.asarray(r(*pt)) if rest else np.asarray(r.scalar), t[2] * np.sum(W * np.exp(q)), tol=1e-5, shape=False)
        E.raises("repeated indices refused", lambda: PE(*t).trace((0,), (0,)), ValueError)
        E.raises("out of range refused", lambda: PE(*t).trace((0,), (n,)), ValueError)
    R.bounded("trace of random functions", nat_trace, fn1, num=40, bound="up to 7 variables, batches up to (2,2), polynomial parts")

    def lin(E):
        """contraction of superpositions is bilinear"""
        n1, n2 = E.pick(1, 2, 3), E.pick(1, 2)
        L1, L2 = E.pick((2,), (3,), ()), E.pick((2,), (1,), (4,))
        bs = E.pick((), (2,))
        d1, d2 = E.pick((), (2,)), E.pick((), (3,))
        t1, t2 = rtriple(E.rng, n1, bs + L1, d1), rtriple(E.rng, n2, bs + L2, d2)
        l1, l2 = list(range(n1)), [0] + list(range(10, 9 + n2))
        lo = l1[1:] + l2[1:]
        bl = ["x"] if bs else []
        r = PE(*t1, lin_sup=bool(L1)).contract(PE(*t2, lin_sup=True), bl + l1, bl + l2, bl + lo)
        E.true("number of terms", r._lin_sup and r.batch_shape == bs + (int(np.prod(L1)) * L2[0],), f"{r.batch_shape}")
        pt = (E.rng.normal(size=len(lo)) + 1j * E.rng.normal(size=len(lo))) * 0.4
        v = np.asarray(r(*pt)) if lo else np.asarray(r.scalar)
        for i in np.ndindex(*bs):
            tot = 0
            for a in np.ndindex(*L1):
                for e in np.ndindex(*L2):
                    s = PE(*(x[i + a] for x in t1)).contract(PE(*(x[i + e] for x in t2)), l1, l2, lo)
                    A, b, c = (np.asarray(x) for x in s.triple)
                    tot = tot + O.poly_value(A, b, c, pt)
            E.eq("value", v[i] if bs else v, tot, shape=False)
    R.bounded("contraction of superpositions", lin, fn2, num=15, bound="up to 3x4 terms")

    def many(k):
        """product of k independent pairs: the integral is the product of the single integrals, every number of pairs"""
        def f(E):
            n = 2 * k
            x = [E.cplx(f"x{j}") for j in range(k)] if E.sym else (0.6 * (E.rng.random(k) - .5) + 0.6j * (E.rng.random(k) - .5))
            u = E.cvec(n, "u")
            A = E.arr(np.zeros((n, n), dtype=object if E.sym else complex))
            for j in range(k):
                A[j, k + j] = A[k + j, j] = x[j]
            order = list(range(k)) if E.sym else E.rng.permutation(k).tolist()
            c = E.arr(E.cplx("c"))
            got = GI.complex_gaussian_integral_1((A, u, logc(E, c)), order, [k + j for j in order])
            ref, ex = 1, 0
            for j in range(k):
                ref = ref / (1 - x[j])
                ex = ex + u[j] * u[k + j] / (1 - x[j])
            w, g = item(c) * ref * E.exp(ex), item(E.arr(got[2]))
            E.eq("integral over independent pairs", g * g if E.sym else g, w * w if E.sym else w, shape=False)
        return f
    for k in (1, 2, 3, 4):
        R.ob(f"integral over {k} independent pairs", many(k), fn1, bound=f"{k} pairs, every coefficient", num=2, timeout=200)
    for k in (5, 6, 7, 8, 9):
        R.bounded(f"integral over {k} independent pairs", many(k), fn1, num=3, bound=f"{k} pairs")

    def manyc(E):
        """contraction over many pairs of dense functions"""
        n = int(E.rng.integers(3, 10))
        k = int(E.rng.integers(max(1, n - 2), n + 1))
        t1, t2 = rtriple(E.rng, n, (), (), .35), rtriple(E.rng, n, (), (), .35)
        i1, i2 = E.rng.permutation(n)[:k].tolist(), E.rng.permutation(n)[:k].tolist()
        l1, l2 = list(range(n)), [100 + j for j in range(n)]
        for a, b in zip(i1, i2):
            l2[b] = l1[a]
        out = [l for l in l1 + l2 if (l in l1) != (l in l2)]
        E.note("n", n, "pairs", i1, i2)
        one = 1.0 + 0j
        A, b, _ = O.direct_sum(E, (t1[0], t1[1], one), (t2[0], t2[1], one))
        ref = O.integrate(E, A, b, one, [(a, n + c) for a, c in zip(i1, i2)])
        r = PE(*t1).contract(PE(*t2), l1, l2, out)
        cmp(E, "contract", r.triple, ref, t1[2] * t2[2])
        m = int(E.rng.integers(2, 7))
        t = rtriple(E.rng, 2 * m, (), (), .35)
        ix = E.rng.permutation(2 * m).tolist()
        ref = O.integrate(E, t[0], t[1], one, list(zip(ix[:m], ix[m:])))
        cmp(E, "trace", PE(*t).trace(tuple(ix[:m]), tuple(ix[m:])).triple, ref, t[2])
    R.bounded("integrals over many pairs", manyc, fn1 + fn2, num=25, bound="up to 9 pairs")

    # ------------------------------------------------ convergence limits
    def thermal(k, nb, label):
        def f(E):
            a = nb / (nb + 1)
            A = np.zeros((2 * k, 2 * k), dtype=complex)
            for j in range(k):
                A[j, k + j] = A[k + j, j] = a
            r = PE(A, np.zeros(2 * k), np.array((1 - a) ** k, dtype=complex)).trace(tuple(range(k)), tuple(range(k, 2 * k)))
            E.eq(label, np.asarray(r.c), 1.0, tol=1e-6, shape=False)
        return f
    R.bounded("trace of hot modes", thermal(4, 10.0, "trace of four thermal modes"), fn1, num=1)
    R.bounded("trace of many hot modes", thermal(6, 10.0, "trace of six thermal modes"), fn1, num=1)

    def branch(E):
        # overlap of two products of four squeezed modes is the product of the single-mode overlaps
        a = np.sqrt(0.9) * np.exp(0.3j * np.pi / 2)
        one = PE(np.array([[a]]), np.zeros(1), np.array(1.0 + 0j)).contract(PE(np.array([[a]]), np.zeros(1), np.array(1.0 + 0j)), [0], [0], [])
        A = a * np.eye(4)
        r = PE(A, np.zeros(4), np.array(1.0 + 0j)).contract(PE(A, np.zeros(4), np.array(1.0 + 0j)), [0, 1, 2, 3], [0, 1, 2, 3], [])
        E.eq("overlap of four strongly squeezed modes", np.asarray(r.c), np.asarray(one.c) ** 4, shape=False)
    R.bounded("branch of the square root", branch, fn2, num=1)

    def sing(E):
        """one divergent element does not change the others"""
        A = np.array([[[0, .5], [.5, 0]], [[0, 1.], [1., 0]]], dtype=complex)
        r = PE(A, np.zeros((2, 2)), np.ones(2, dtype=complex)).trace((0,), (1,))
        E.true("divergent integral is infinite", not np.isfinite(np.asarray(r.c)[1]))
        E.eq("other batch elements stay finite", np.asarray(r.c)[0], 2.0, shape=False)
    R.bounded("divergent batch element", sing, fn1, num=1)
