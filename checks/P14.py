"""P14: chaining components is operator composition in every representation."""
import itertools
import numpy as np
import oracle as O
import lab as L
from common import *
from P02 import rtriple, small_sym


def register(R):
    from mrmustard import math, settings
    from mrmustard.lab import Ket, DM, Unitary, Operation, Channel, Map, CircuitComponent, TraceOut, Vacuum, Dgate, Sgate, BSgate, Attenuator, Coherent, SqueezedVacuum, Number, Thermal, Identity, Rgate, S2gate
    from mrmustard.physics.ansatz import PolyExpAnsatz as PE, ArrayAnsatz as AA
    from mrmustard.physics.wires import Wires
    R.explanation = ("the real >>, contract, adjoint, dual, on, to_fock and trace-out are executed on components holding free triples and compared with an independent composition of labelled functions; "
                     "natively with random modes, sides, batches and representations")
    F = lambda *n: ["CircuitComponent." + x for x in n]
    KIND = {"ket": (0, 0, 1, 0), "bra": (1, 0, 0, 0), "dm": (1, 0, 1, 0), "op": (0, 0, 1, 1), "ch": (1, 1, 1, 1), "dket": (0, 0, 0, 1), "ddm": (0, 1, 0, 1), "opb": (1, 1, 0, 0)}
    CLS = {"ket": Ket, "dm": DM, "op": Operation, "ch": Map}

    def wires(kind, out, inn=None):
        inn = out if inn is None else inn
        k = KIND[kind]
        return [set(out) if k[0] else set(), set(inn) if k[1] else set(), set(out) if k[2] else set(), set(inn) if k[3] else set()]

    def build(E, kind, out, inn=None, p="p", bs=(), scale=0.4, der=()):
        w = wires(kind, out, inn)
        n = sum(map(len, w))
        if E.sym:
            t = (E.csym(n, p + "A"), E.cvec(n, p + "b"), E.arr(E.cplx(p + "c")))
        else:
            t = rtriple(E.rng, n, bs, der, scale)
        ansatz, W = PE(*t), Wires(*w)
        cls = CLS.get(kind, CircuitComponent)
        return cls(ansatz=ansatz, wires=W) if cls is not CircuitComponent else CircuitComponent(ansatz, W)

    def cmp(E, nm, got, ref, tol=1e-7, norm2=1):
        """got: component or scalar; ref: labelled function"""
        if not ref.labels:
            c = got if not hasattr(got, "ansatz") else got.ansatz.c
            c = item(E.arr(c))
            if E.sym:
                E.eq(nm + ": scalar squared", c * c, ref.triple[2], shape=False)
            else:
                E.eq(nm + ": scalar", c, ref.triple[2], shape=False, tol=tol)
            return
        E.true(nm + ": wires", L.labels_of(got.wires) == ref.labels, f"{L.labels_of(got.wires)} {ref.labels}")
        A, b, c = (E.arr(x) for x in got.ansatz.triple)
        E.eq(nm + ": A", A, ref.triple[0], tol=tol)
        E.eq(nm + ": b", b, ref.triple[1], tol=tol)
        if E.sym:
            E.eq(nm + ": c squared", item(c) * item(c), ref.triple[2], shape=False)
        else:
            E.eq(nm + ": c", c, ref.triple[2], shape=False, tol=tol)

    def one(E, f):
        """labelled function with c replaced by c^2 in exact mode (the integral oracle returns squares)"""
        return f

    # ---------------------------------------------------------------- exact: pairs of components
    def pair(k1, o1, i1, k2, o2, i2, op=">>"):
        def f(E):
            a, b = build(E, k1, o1, i1, "p"), build(E, k2, o2, i2, "q")
            fa, fb = L.of(E, a), L.of(E, b)
            ref = (fa >> fb) if op == ">>" else fa.contract(fb)
            if E.sym:
                # c of the reference: the integral part is squared; prefactors of both operands are squared here
                ones = lambda g: L.Fn(E, g.labels, (g.triple[0], g.triple[1], E._s.Sym.lift(1)))
                ref = (ones(fa) >> ones(fb)) if op == ">>" else ones(fa).contract(ones(fb))
                ca, cb = item(fa.triple[2]), item(fb.triple[2])
                if op == ">>" and fa.has("k") != fa.has("b") and fb.has("k") and fb.has("b"):
                    ca = ca * E.conj(ca)
                if op == ">>" and fb.has("k") != fb.has("b") and fa.has("k") and fa.has("b"):
                    cb = cb * E.conj(cb)
                ref = L.Fn(E, ref.labels, (ref.triple[0], ref.triple[1], ref.triple[2] * ca * ca * cb * cb))
            got = a >> b if op == ">>" else a.contract(b)
            cmp(E, "composition", got, ref)
            for x, g in ((a, fa), (b, fb)):
                A, bb, c = x.ansatz.triple
                E.eq("operand unchanged", E.arr(A), g.triple[0])
                E.eq("operand unchanged b", E.arr(bb), g.triple[1])
        return f
    P = [("ket", (0,), None, "op", (0,), None), ("ket", (1,), None, "op", (0,), None), ("ket", (0, 3), None, "op", (3,), None), ("op", (0,), None, "op", (0,), None), ("op", (2,), None, "op", (0,), None), ("op", (0, 1), None, "op", (1,), None),
         ("op", (1,), None, "op", (0, 1), None), ("ket", (0,), None, "dket", (0,), None), ("ket", (0, 1), None, "dket", (1,), None), ("ket", (0,), None, "ch", (0,), None), ("dm", (0,), None, "op", (0,), None), ("dm", (0,), None, "ch", (0,), None),
         ("ch", (0,), None, "op", (0,), None), ("op", (0,), None, "ch", (0,), None), ("dm", (0, 2), None, "op", (2,), None), ("dm", (0,), None, "dket", (0,), None), ("dm", (0, 1), None, "ddm", (1,), None), ("ket", (0, 1), None, "ddm", (0,), None),
         ("op", (1,), (0,), "op", (0,), (1,)), ("ket", (0,), None, "op", (5,), (0,)), ("bra", (0,), None, "opb", (0,), None), ("bra", (0, 1), None, "opb", (1,), None), ("opb", (0,), None, "ch", (0,), None), ("ch", (0,), None, "ddm", (0,), None)]
    for p in P:
        R.ob(f"{p[0]}{p[1]} >> {p[3]}{p[4]}", pair(*p), F("__rshift__", "contract", "adjoint") + ["Wires.__matmul__", "PolyExpAnsatz.contract"], bound="every pair of triples on the listed wires", num=2, timeout=120)
    for p in (("op", (0,), None, "op", (0,), None), ("dm", (0,), None, "op", (0,), None), ("ket", (0,), None, "ddm", (0,), None), ("ch", (0,), None, "dket", (0,), None), ("ket", (0,), None, "bra", (0,), None)):
        R.ob(f"{p[0]}{p[1]} contract {p[3]}{p[4]}", pair(*p, op="contract"), F("contract"), bound="every pair of triples on the listed wires", num=2, timeout=120)

    def invol(kind, out, inn):
        def f(E):
            a = build(E, kind, out, inn)
            fa = L.of(E, a)
            same = lambda nm, x, g: (E.true(nm + ": wires", L.labels_of(x.wires) == g.labels, f"{L.labels_of(x.wires)} {g.labels}"),
                                     [E.eq(nm, E.arr(u), E.arr(v)) for u, v in zip(x.ansatz.triple, g.triple)])
            same("adjoint", a.adjoint, fa.adjoint)
            same("dual", a.dual, fa.dual)
            same("adjoint twice", a.adjoint.adjoint, fa)
            same("dual twice", a.dual.dual, fa)
            same("adjoint of the dual", a.dual.adjoint, fa.adjoint.dual)
            same("dual of the adjoint", a.adjoint.dual, fa.adjoint.dual)
            same("operand unchanged", a, fa)
        return f
    for kind, out, inn in (("ket", (0, 2), None), ("dm", (1,), None), ("dm", (0, 4), None), ("op", (0, 1), None), ("op", (0,), (1, 2)), ("ch", (0,), None), ("ch", (1,), (0,)), ("ch", (0, 2), None), ("ddm", (3,), None), ("bra", (0, 1), None)):
        R.ob(f"adjoint and dual of {kind} {out} {inn}", invol(kind, out, inn), F("adjoint", "dual"), bound="every triple on the listed wires", num=2)

    # ---------------------------------------------------------------- native: random chains
    MODES = [0, 1, 2, 5, 9, 30, 1001]

    def rcomp(E, kind, bs=(), pool=None, k=None, scale=0.3):
        pool = pool or MODES[:4]
        k = k or E.pick(1, 1, 2)
        m = sorted(E.rng.permutation(pool)[:k].tolist())
        return build(E, kind, tuple(m), None, bs=bs, scale=scale)

    def chain(E):
        pool = sorted(E.rng.permutation(MODES)[:3].tolist())
        side = E.pick("ket", "dm", "mixed")
        n = int(E.rng.integers(2, 5))
        s = build(E, "ket" if side != "dm" else "dm", tuple(pool), scale=0.3)
        comps = [s]
        for _ in range(n):
            comps.append(rcomp(E, "op" if side == "ket" else E.pick("op", "ch"), pool=pool))
        end = E.pick("none", "proj", "trace", "ddm")
        for c in comps:
            E.note(type(c).__name__, c.wires.args)
        ref = L.of(E, comps[0])
        got = comps[0]
        for c in comps[1:]:
            got = got >> c
            ref = ref >> L.of(E, c)
        cmp(E, "left to right", got, ref)
        # associativity: a random bracketing
        fs = list(comps)
        while len(fs) > 1:
            k = int(E.rng.integers(len(fs) - 1))
            fs[k:k + 2] = [fs[k] >> fs[k + 1]]
        cmp(E, "other bracketing", fs[0], ref)
        # adjoint and dual of the whole
        if side == "ket":
            rd = comps[-1].dual
            for c in comps[-2::-1]:
                rd = rd >> c.dual
            cmp(E, "dual reverses", rd, ref.dual)
            ra = comps[0].adjoint
            for c in comps[1:]:
                ra = ra >> c.adjoint
            cmp(E, "adjoint of a chain", ra, ref.adjoint)
        m = int(pool[int(E.rng.integers(len(pool)))])
        if end == "proj":
            p = build(E, "dket", (m,), scale=0.3)
            cmp(E, "projection", got >> p, ref >> L.of(E, p))
        if end == "ddm":
            p = build(E, "ddm", (m,), scale=0.3)
            cmp(E, "measurement", got >> p, ref >> L.of(E, p))
        if end == "trace":
            sel = sorted(E.rng.permutation(pool)[:int(E.rng.integers(1, len(pool) + 1))].tolist())
            A = np.zeros((2 * len(sel),) * 2, dtype=complex)
            for k in range(len(sel)):
                A[k, len(sel) + k] = A[len(sel) + k, k] = 1
            t = L.Fn(E, [("ib", x) for x in sel] + [("ik", x) for x in sel], (A, np.zeros(2 * len(sel)), 1.0))
            full = ref if ref.has("b") else ref.both()
            want = full.contract(t)
            cmp(E, "trace out", got >> TraceOut(tuple(sel)), want)
            r = got
            for x in E.rng.permutation(sel).tolist():
                r = r >> TraceOut(x)
            cmp(E, "trace out one by one", r, want)
        # indices relabelled consistently
        new = {x: y for x, y in zip(pool, sorted(E.rng.permutation(60)[:len(pool)].tolist()))}
        mv = got.on([new[x] for x in pool])
        E.true("moved to other modes", L.labels_of(mv.wires) == [(s_, new[x]) for s_, x in L.labels_of(got.wires)])
        for u, v in zip(mv.ansatz.triple, got.ansatz.triple):
            E.eq("moving keeps the function", u, v, tol=0)
    R.bounded("random chains", chain, F("__rshift__", "contract", "adjoint", "dual", "on") + ["TraceOut.__custom_rrshift__"], num=40, bound="3 modes, up to 4 operations")

    def batches(E):
        """sides added for a batch of operations, and traces of batches and superpositions"""
        pool = [0, 1]
        k1, k2 = E.pick(("ket", "op"), ("ket", "ch"), ("dm", "op"), ("dm", "ch"), ("op", "op"), ("op", "ch"), ("ch", "op"), ("dm", "dket"), ("ket", "ddm"))
        b1, b2 = E.pick(((), (2,)), ((2,), ()), ((2,), (3,)), ((2, 2), ()), ((), (3, 2)), ((2,), (3, 2)))
        a, b = build(E, k1, (0, 1), bs=b1, scale=0.3), build(E, k2, (1,), bs=b2, scale=0.3)
        E.note(k1, b1, k2, b2)
        r = a >> b
        E.true("batch shape", tuple(r.ansatz.batch_shape) == b1 + b2, f"{r.ansatz.batch_shape} for {b1}, {b2}")
        for i in np.ndindex(*(b1 + b2)):
            ref = L.of(E, a, i[:len(b1)]) >> L.of(E, b, i[len(b1):])
            x = CircuitComponent(PE(*(y[i] for y in r.ansatz.triple)), r.wires)
            cmp(E, "element", x, ref)
        if k1 in ("ket", "dm", "op", "ch"):
            ch = E.pick((0,), (1,), (0, 1), (1, 0))
            t = a >> TraceOut(ch)
            for i in np.ndindex(*b1):
                u = CircuitComponent(PE(*(y[i] for y in a.ansatz.triple)), a.wires) >> TraceOut(ch)
                tt = t if not hasattr(t, "ansatz") else t.ansatz
                if hasattr(t, "ansatz"):
                    for x, y in zip(t.ansatz.triple, u.ansatz.triple):
                        E.eq("trace of a batch element", np.asarray(x)[i], np.asarray(y))
                else:
                    E.eq("trace of a batch element", np.asarray(t)[i], np.asarray(u), shape=False)
    R.bounded("batches on either side", batches, F("__rshift__", "contract") + ["TraceOut.__custom_rrshift__"], num=40, bound="batches up to (3,2), every side combination")

    def superpos(E):
        k1, k2 = E.pick(("ket", "op"), ("ket", "ch"), ("dm", "op"), ("dm", "ch"), ("ket", "dket"), ("ket", "ddm"))
        n = int(E.rng.integers(1, 4))
        a = build(E, k1, (0, 1), bs=(n,), scale=0.3)
        ls = type(a)(ansatz=PE(*a.ansatz.triple, lin_sup=True), wires=a.wires)
        b = build(E, k2, (1,), scale=0.3)
        E.note(k1, k2, n)
        r = ls >> b
        elem = [type(a)(ansatz=PE(*(y[i] for y in a.ansatz.triple)), wires=a.wires) for i in range(n)]
        nv = len(L.labels_of(r.wires))
        z = (E.rng.normal(size=nv) + 1j * E.rng.normal(size=nv)) * 0.4
        if k1 == "ket" and k2 in ("ch", "ddm"):
            want = 0
            for x in elem:
                for y in elem:
                    want = want + (x.adjoint.contract(y).contract(b)).ansatz(*z)
        else:
            want = sum((x >> b).ansatz(*z) for x in elem)
        E.eq("superposition", r.ansatz(*z), want, shape=False)
        # trace
        t = ls >> TraceOut(1)
        nv = len(L.labels_of(t.wires))
        z = (E.rng.normal(size=nv) + 1j * E.rng.normal(size=nv)) * 0.4
        full = ls if k1 == "dm" else ls.adjoint.contract(ls)
        E.eq("trace of a superposition", t.ansatz(*z), full.ansatz.trace((1,), (3,))(*z), shape=False)
        E.eq("full trace", np.asarray(ls >> TraceOut((0, 1))), np.asarray(full.ansatz.trace((0, 1), (2, 3)).scalar), shape=False)
    R.bounded("superpositions", superpos, F("__rshift__", "contract") + ["TraceOut.__custom_rrshift__"], num=25, bound="up to 3 terms")

    # ---------------------------------------------------------------- number basis
    def fock_of(f, shape):
        A, b, c = f.triple
        return O.amplitudes(np.asarray(A), np.asarray(b), complex(np.asarray(c)), shape)

    def tofock(E):
        kind = E.pick("ket", "dm", "op", "ch")
        bs = E.pick((), (2,), (2, 2))
        der = E.pick((), (), (2,), (2, 3))
        ls = bool(E.rng.integers(2)) and len(bs) > 0
        m = E.pick((0,), (3,)) if kind in ("op", "ch") else E.pick((0,), (1, 4))
        w = wires(kind, m)
        n = sum(map(len, w))
        t = rtriple(E.rng, n, bs, der)
        a = CLS[kind](ansatz=PE(*t, lin_sup=ls), wires=Wires(*w))
        shape = tuple(int(x) for x in E.rng.integers(1, 5, size=n))
        E.note(kind, bs, der, ls, shape)
        f = a.to_fock(shape)
        b2 = bs[:-1] if ls else bs
        E.true("shape", tuple(f.ansatz.array.shape) == b2 + shape and f.ansatz.batch_dims == len(b2), f"{f.ansatz.array.shape} {f.ansatz.batch_dims}")
        E.true("kind kept", type(f) is type(a))
        N = n + len(der)
        for i in np.ndindex(*b2):
            ref = 0
            for j in (np.ndindex(bs[-1]) if ls else [()]):
                G = O.amplitudes(t[0][i + j], t[1][i + j], 1.0, shape + tuple(der))
                cc = t[2][i + j]
                ref = ref + (np.tensordot(G, cc, axes=len(der)) if der else G * cc)
            E.eq("amplitudes", np.asarray(f.ansatz.array)[i], ref)
            E.eq("fock_array", np.asarray(a.fock_array(shape))[i], ref)
        E.true("cutoffs recorded", tuple(f.manual_shape) == shape, f"{f.manual_shape}")
        # back to Bargmann: the same amplitudes
        B = f.to_bargmann()
        if not ls and not der:
            for x, y in zip(B.ansatz.triple, t):
                E.eq("back to Bargmann", np.asarray(x), y)
        E.eq("back again", np.asarray(B.fock_array(shape)), np.asarray(f.ansatz.array))
        g = CLS[kind](ansatz=AA(np.array(f.ansatz.array), len(b2)), wires=Wires(*w)).to_bargmann()
        E.eq("array held as a polynomial", np.asarray(g.fock_array(shape)), np.asarray(f.ansatz.array))
        bigger = tuple(s + 1 for s in shape)
        E.eq("polynomial has no further amplitudes", np.asarray(g.fock_array(bigger))[(Ellipsis,) + tuple(slice(0, s) for s in shape)], np.asarray(f.ansatz.array))
        E.eq("norm of the larger array", np.sum(np.abs(g.fock_array(bigger)) ** 2), np.sum(np.abs(f.ansatz.array) ** 2))
        for x, y in zip(a.ansatz.triple, t):
            E.eq("operand unchanged", np.asarray(x), y, tol=0)
        E.raises("zero cutoff refused", lambda: a.to_fock((0,) * n), ValueError)
        E.raises("wrong number of cutoffs refused", lambda: a.to_fock((2,) * (n + 1)), ValueError)
    R.bounded("conversion to the number basis", tofock, F("to_fock", "fock_array", "to_bargmann", "_check_fock_shape"), num=40, bound="up to 4 wires, cutoffs 1-4, batches, superpositions, polynomial parts")

    def beforeafter(E):
        k1, k2 = E.pick(("ket", "op"), ("dm", "op"), ("ket", "ch"), ("dm", "ch"), ("op", "op"), ("ket", "dket"), ("dm", "ddm"), ("op", "ch"))
        b1, b2 = E.pick(((), ()), ((2,), ()), ((), (2,)), ((2,), (2,)))
        m1, m2 = E.pick(((0,), (0,)), ((0, 1), (1,)), ((0, 1), (0,)))
        if k1 in ("op",) and k2 == "ch" or k1 == "dm":
            m1, m2 = (0,), (0,)
        a, b = build(E, k1, m1, bs=b1, scale=0.25), build(E, k2, m2, bs=b2, scale=0.25)
        E.note(k1, b1, m1, k2, b2, m2)
        big, small = 18, 3
        sa = [big if (s in ("ob", "ok") and m in m2) else small for s, m in L.labels_of(a.wires)]
        sb = [big if (s in ("ib", "ik") and m in m1) else small for s, m in L.labels_of(b.wires)]
        after = a >> b
        scalar = not hasattr(after, "ansatz")
        want = np.asarray(after) if scalar else np.asarray(after.fock_array((small,) * len(L.labels_of(after.wires))))
        fa, fb = a.to_fock(tuple(sa)), b.to_fock(tuple(sb))
        g = fa >> fb
        if scalar:
            E.eq("converted before", np.asarray(g), want, tol=1e-6)
        else:
            E.true("same wires", g.wires == after.wires or L.labels_of(g.wires) == L.labels_of(after.wires))
            E.eq("converted before", np.asarray(g.ansatz.array), want, tol=1e-6)
        # mixed representations, either default
        for rep in ("Bargmann", "Fock"):
            with settings(DEFAULT_REPRESENTATION=rep):
                for x, y, nm in ((fa, b, "left in the number basis"), (a, fb, "right in the number basis")):
                    if rep == "Fock":
                        x = x.to_bargmann() if not nm.startswith("left") else x
                        z = (y if nm.startswith("left") else x)
                        z.manual_shape = sb if nm.startswith("left") else sa
                    r = x >> y
                    if scalar:
                        E.eq(f"{nm}, default {rep}", np.asarray(r), want, tol=1e-6)
                    else:
                        v = np.asarray(r.fock_array((small,) * len(L.labels_of(r.wires))))
                        E.eq(f"{nm}, default {rep}", v, want, tol=1e-6)
    R.bounded("conversion before or after", beforeafter, F("__rshift__", "contract", "to_fock", "to_bargmann") + ["ArrayAnsatz.contract"], num=30, bound="1-2 modes, contracted cutoff 18, kept cutoff 3, batches of 2")

    # ---------------------------------------------------------------- sums and multiples of components
    def sums(E):
        kind = E.pick("ket", "dm", "op", "ch")
        rep = E.pick("B", "F")
        m = E.pick((0,), (1, 4)) if kind in ("ket", "dm") else (2,)
        a, b = build(E, kind, m, p="p"), build(E, kind, m, p="q")
        n = len(L.labels_of(a.wires))
        sa = tuple(E.rng.integers(1, 4, size=n).tolist())
        sb = tuple(E.rng.integers(1, 4, size=n).tolist())
        k = complex(E.rng.normal(), E.rng.normal())
        if rep == "B":
            a.manual_shape, b.manual_shape = sa, sb
            z = (E.rng.normal(size=n) + 1j * E.rng.normal(size=n)) * 0.4
            va, vb = a.ansatz(*z), b.ansatz(*z)
            s, d, t, q = a + b, a - b, a * k, a / k
            E.eq("sum", s.ansatz(*z), va + vb, shape=False)
            E.eq("difference", d.ansatz(*z), va - vb, shape=False)
            E.eq("multiple", t.ansatz(*z), va * k, shape=False)
            E.eq("left multiple", (k * a).ansatz(*z), va * k, shape=False)
            E.eq("quotient", q.ansatz(*z), va / k, shape=False)
        else:
            a, b = a.to_fock(sa), b.to_fock(sb)
            sh = tuple(max(x, y) for x, y in zip(sa, sb))
            pad = lambda x: np.pad(np.asarray(x.ansatz.array), [(0, y - z) for y, z in zip(sh, x.ansatz.array.shape)])
            s = a + b
            E.eq("sum", np.asarray(s.ansatz.array), pad(a) + pad(b))
            E.eq("difference", np.asarray((a - b).ansatz.array), pad(a) - pad(b))
            E.eq("multiple", np.asarray((a * k).ansatz.array), np.asarray(a.ansatz.array) * k)
        E.true("kind kept", type(s) is type(a))
        E.true("cutoffs of the operands unchanged", tuple(a.manual_shape) == sa and tuple(b.manual_shape) == sb, f"{a.manual_shape} {sa} {b.manual_shape} {sb}")
        E.raises("other wires refused", lambda: a + build(E, kind, (7,)), ValueError)
    R.bounded("sums of components", sums, F("__add__", "__sub__", "__mul__", "__truediv__"), num=30, bound="1-2 modes, both representations")

    def named(E):
        """sums of built-in components of one family"""
        a1, a2 = complex(*E.rng.normal(size=2)) * .5, complex(*E.rng.normal(size=2)) * .5
        r1, r2, p1, p2 = E.rng.uniform(-.5, .5, 4)
        cases = [(Coherent(1, a1), Coherent(1, a2)), (SqueezedVacuum(0, r1, p1), SqueezedVacuum(0, r2, p2)), (Dgate(2, a1), Dgate(2, a2)), (Sgate(0, r1, p1), Sgate(0, r2, p2)), (BSgate((0, 3), r1, p1), BSgate((0, 3), r2, p2)),
                 (Attenuator(0, abs(r1)), Attenuator(0, abs(r2))), (Number(0, 1), Number(0, 2)), (Thermal(0, abs(r1)), Thermal(0, abs(r2))), (Rgate(0, r1), Rgate(0, r2))]
        from mrmustard.lab import Amplifier, FockDamping, MZgate, Pgate, CXgate, CZgate, GKet, GDM, GaussRandNoise, BargmannEigenstate, QuadratureEigenstate, DisplacedSqueezed, TwoModeSqueezedVacuum
        from mrmustard import math as M
        sy = [M.random_symplectic(2, seed=int(E.rng.integers(1000))) for _ in range(2)]
        Y = [np.asarray(y) @ np.asarray(y).T * .2 for y in E.rng.normal(size=(2, 2, 2))]
        cases += [(Amplifier(1, 1 + abs(r1)), Amplifier(1, 1 + abs(r2))), (FockDamping(0, abs(r1)), FockDamping(0, abs(r2))), (MZgate((0, 1), r1, p1), MZgate((0, 1), r2, p2)), (Pgate(0, r1), Pgate(0, r2)),
                  (CXgate((0, 2), r1), CXgate((0, 2), r2)), (CZgate((0, 2), r1), CZgate((0, 2), r2)), (Identity((0, 1)), Identity((0, 1))), (Vacuum((0, 1)), Vacuum((0, 1))), (GKet((0, 1), sy[0]), GKet((0, 1), sy[1])),
                  (GDM((0, 1), [1.2, 1.5], sy[0]), GDM((0, 1), [2.2, 1.1], sy[1])), (GaussRandNoise(0, Y[0]), GaussRandNoise(0, Y[1])), (BargmannEigenstate(0, a1), BargmannEigenstate(0, a2)),
                  (DisplacedSqueezed(0, a1, r1, p1), DisplacedSqueezed(0, a2, r2, p2)), (TwoModeSqueezedVacuum((0, 1), r1, p1), TwoModeSqueezedVacuum((0, 1), r2, p2)), (S2gate((0, 1), r1, p1), S2gate((0, 1), r2, p2))]
        for x, y in cases:
            nm = type(x).__name__
            n = len(L.labels_of(x.wires))
            z = (E.rng.normal(size=n) + 1j * E.rng.normal(size=n)) * 0.4
            xv, yv = x.to_bargmann().ansatz(*z), y.to_bargmann().ansatz(*z)
            s = x + y
            E.eq(f"sum of two {nm}", s.to_bargmann().ansatz(*z), xv + yv, shape=False)
            E.eq(f"sum of three {nm}", (s + x).to_bargmann().ansatz(*z), 2 * xv + yv, shape=False)
            E.eq(f"difference of two {nm}", (x - y).to_bargmann().ansatz(*z), xv - yv, shape=False)
            sh = (3,) * n
            E.eq(f"sum of two {nm} in the number basis", np.asarray(s.fock_array(sh)), np.asarray(x.fock_array(sh)) + np.asarray(y.fock_array(sh)))
            E.true(f"sum of two {nm}: wires", s.wires == x.wires)
            E.true(f"sum of two {nm}: class", type(s) is type(x) or isinstance(x, type(s)), str(type(s)))
    R.bounded("sums of built-in components", named, F("__add__", "__sub__"), num=5, bound="one-parameter-set families")

    def quad(E):
        """wave functions on any mode, in either representation"""
        m = E.pick((0,), (1,), (3,), (0, 1), (2, 1000), (25, 27))
        phi = float(E.rng.uniform(-2, 2))
        a = build(E, "ket", m, scale=0.2)
        n = len(m)
        x = E.rng.normal(size=(n, 4)) * 0.7
        v = np.asarray(a.quadrature(*x, phi=phi))
        # a fixed labelling must not matter
        b = build(E, "ket", tuple(range(n)), scale=0.2)
        b = Ket(ansatz=PE(*a.ansatz.triple), wires=b.wires)
        E.eq("labels do not matter", v, np.asarray(b.quadrature(*x, phi=phi)))
        f = a.to_fock((25,) * n)
        E.eq("number basis", np.asarray(f.quadrature(*x, phi=phi)), v, tol=1e-5)
    R.bounded("wave functions", quad, F("quadrature", "to_quadrature"), num=12, bound="1-2 modes with arbitrary labels, cutoff 25")

    def transf(E):
        """constructors from arrays and their refusal of unsorted modes; inverse of a transformation"""
        ang = E.rng.uniform(-1, 1, 3)
        U = Dgate(0, complex(*E.rng.normal(size=2)) * .4) >> Sgate(0, float(ang[0]), float(ang[1])) >> Rgate(0, float(ang[2]))
        for T in (U, Sgate(3, .3, .2), BSgate((0, 2), .3, .7), S2gate((0, 1), .3, .1), Dgate(1, .4 - .2j)):
            I = T.inverse() >> T
            n = len(T.modes)
            X = np.zeros((2 * n, 2 * n))
            X[:n, n:] = X[n:, :n] = np.eye(n)
            A, b, c = (np.asarray(v) for v in I.ansatz.triple)
            E.eq("inverse of a unitary: A", A, X)
            E.eq("inverse of a unitary: b", b, np.zeros(2 * n))
            E.eq("inverse of a unitary: c", c, 1.0, shape=False)
        C = Attenuator(0, .6)
        J = C.inverse() >> C
        A, b, c = (np.asarray(v) for v in J.ansatz.triple)
        E.eq("inverse of a channel: A", A, np.array([[0, 1, 0, 0], [1, 0, 0, 0], [0, 0, 0, 1], [0, 0, 1, 0.]]))
        E.eq("inverse of a channel: c", c, 1.0, shape=False)
        n_out, n_in = E.pick((1, 1), (1, 2), (2, 1))
        arr = E.rng.normal(size=(2,) * (n_out + n_in)) + 0j
        mo, mi = tuple(range(n_out)), tuple(range(5, 5 + n_in))
        op = Operation.from_fock(mo, mi, arr)
        E.eq("from_fock", np.asarray(op.ansatz.array), arr)
        E.true("from_fock wires", L.labels_of(op.wires) == [("ok", x) for x in mo] + [("ik", x) for x in mi])
        E.raises("unsorted modes refused", lambda: Operation.from_fock((1, 0), (0,), np.ones((2, 2, 2))), ValueError)
    R.bounded("inverse and constructors", transf, ["Transformation.inverse", "Unitary.inverse", "Transformation.from_fock"], num=5)
