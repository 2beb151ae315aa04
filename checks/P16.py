"""P16: batched and superposed evaluation equals element-by-element evaluation."""
import itertools
import numpy as np
import oracle as O
import lab as L
from common import *
from P02 import rtriple


def register(R):
    from mrmustard import math, settings
    from mrmustard.physics import utils as U
    from mrmustard.physics import gaussian_integrals as GI
    from mrmustard.physics.ansatz import PolyExpAnsatz as PE, ArrayAnsatz as AA
    from mrmustard.physics.wires import Wires
    from mrmustard.lab import (CircuitComponent, Ket, DM, Unitary, Operation, Channel, Map, Dgate, Sgate, BSgate, Rgate, Attenuator, Amplifier, Coherent, Number,
                               SqueezedVacuum, Thermal, TraceOut, BtoQ, BtoPS, BtoChar, Vacuum, S2gate, Identity, FockDamping)
    R.explanation = ("the real operations are executed on batches of free triples (and natively on batched and superposed components of every kind) and every element of the result "
                     "is compared with the same operation on the element; batch strings are enumerated and compared with their meaning")

    # ------------------------------------------------------------------ batch strings
    def meaning(s, ndims):
        """well formed: one distinct label per dimension of each argument, every output label present once"""
        assert s.count("->") == 1, s
        i, o = s.split("->")
        ins = i.split(",")
        assert [len(x) for x in ins] == list(ndims), (s, ndims)
        assert all(len(set(x)) == len(x) for x in ins if x) and not set(o) & set(",->"), s
        assert len(set(o)) == len(o), s
        return ins, o

    def strings(E):
        top = 5 if R.quick else 6
        for k in (1, 2, 3, 4):
            for d in itertools.product(range(top if k < 4 else 3), repeat=k):
                try:
                    ins, o = meaning(U.zip_batch_strings(*d), d)
                    ok = o == max(ins, key=len) and all(o.startswith(x) for x in ins)
                except AssertionError:
                    ok = False
                E.true("zip pairs leading dimensions", ok, f"{d}: {U.zip_batch_strings(*d)}")
                for ls in itertools.chain.from_iterable(itertools.combinations(range(k), r) for r in range(k + 1)):
                    if any(d[x] == 0 for x in ls):
                        continue
                    s = U.outer_product_batch_str(*d, lin_sup=ls or None)
                    try:
                        ins, o = meaning(s, d)
                        ok = len(set("".join(ins))) == sum(d)
                        ok = ok and o == "".join(x[:-1] if j in ls else x for j, x in enumerate(ins)) + "".join(ins[j][-1] for j in ls)
                    except AssertionError:
                        ok = False
                    E.true("outer product keeps every dimension in order, superposition axes last", ok, f"{d} {ls}: {s}")
                s = U.lin_sup_batch_str(U.outer_product_batch_str(*d))
                z = U.lin_sup_batch_str(U.zip_batch_strings(*d))
                for base, x in ((U.outer_product_batch_str(*d), s), (U.zip_batch_strings(*d), z)):
                    try:
                        ins, o = meaning(x, [a + 1 for a in d])
                        b0, o0 = base.split("->")
                        ok = all(p == q[:-1] for p, q in zip(b0.split(","), ins)) and o == o0 + "".join(q[-1] for q in ins) and len({q[-1] for q in ins} | set(b0.replace(",", ""))) == k + len(set(b0.replace(",", "")))
                    except AssertionError:
                        ok = False
                    E.true("superposition axes are new labels, last", ok, f"{base} -> {x}")
        for n in range(27):
            for off in (0, 1, 5):
                x = U.generate_batch_str(n, off)
                E.true("generated labels", len(x) == n and len(set(x)) == n and (off == 0 or not set(x) & set(U.generate_batch_str(off))), x)
        E.true("verify accepts consistent", U.verify_batch_triple(np.zeros((2, 3, 1, 1)), np.zeros((2, 3, 1)), np.zeros((2, 3))) is None and U.verify_batch_triple(None, None, None) is None)
        for A, b, c in (((2, 1, 1), (3, 1), (2,)), ((2, 1, 1), (2, 1), (3,)), ((2, 1, 1), (1,), (2,))):
            E.raises("verify refuses inconsistent", lambda: U.verify_batch_triple(np.zeros(A), np.zeros(b), np.zeros(c)), ValueError)
    R.bounded("batch strings", strings, ["generate_batch_str", "outer_product_batch_str", "zip_batch_strings", "lin_sup_batch_str", "verify_batch_triple"], num=1,
              bound="every tuple of up to 4 dimension counts below the listed size, every choice of superposed arguments")

    def reshape(E):
        n = int(E.rng.integers(1, 5))
        lab = "abcdefg"[:int(E.rng.integers(1, 6))]
        size = {x: int(E.rng.integers(1, 4)) for x in lab}
        specs = ["".join(E.rng.permutation(list(lab))[:int(E.rng.integers(0, len(lab) + 1))]) for _ in range(n)]
        out = "".join(E.rng.permutation(list(dict.fromkeys("".join(specs)))).tolist())
        args = [E.rng.normal(size=tuple(size[x] for x in s)) for s in specs]
        s = ",".join(specs) + "->" + out
        E.note(s, size)
        got = U.reshape_args_to_batch_string(args, s)
        prod = np.ones(tuple(size[x] for x in out))
        for g in got:
            E.true("one axis per output label", np.ndim(g) == len(out))
            prod = prod * np.asarray(g)
        E.eq("broadcast product", prod, np.einsum(",".join(specs) + "->" + out, *args))
        E.raises("wrong number of arguments", lambda: U.reshape_args_to_batch_string(args + [1.0], s), ValueError)
        if out and specs[0]:
            bad = np.zeros(tuple(size[x] + 1 for x in specs[0]))
            if any(set(x) & set(specs[0]) for x in specs[1:]):
                E.raises("inconsistent sizes", lambda: U.reshape_args_to_batch_string([bad] + args[1:], s), ValueError)
    R.bounded("arguments aligned by a batch string", reshape, ["reshape_args_to_batch_string"], num=60, bound="up to 4 arguments, 5 labels of size 1-3")

    # ------------------------------------------------------------------ exact: pairings of functions
    def trip(E, n, bs, p, der=()):
        N = n + len(der)
        if not E.sym:
            return rtriple(E.rng, n, bs, der)
        k = int(np.prod(bs))
        A = E.arr([E.csym(N, f"{p}A{q}_") for q in range(k)]).reshape(bs + (N, N))
        b = E.arr([E.cvec(N, f"{p}b{q}_") for q in range(k)]).reshape(bs + (N,))
        return A, b, E.arr(param(E, "cplx", p + "c", tuple(bs) + tuple(der)))

    def el(t, i):
        return tuple(x[i] for x in t)

    def pairings(s, b1, b2):
        """(index of the result) -> (index in the first, index in the second)"""
        i, o = s.split("->")
        s1, s2 = i.split(",")
        size = dict(zip(s1, b1)) | dict(zip(s2, b2))
        for idx in np.ndindex(*(size[x] for x in o)):
            m = dict(zip(o, idx))
            yield idx, tuple(m[x] for x in s1), tuple(m[x] for x in s2)

    STR = [("a,a->a", (2,), (2,)), ("a,b->ab", (2,), (2,)), ("a,b->ba", (2,), (1,)), ("a,->a", (2,), ()), (",a->a", (), (2,)), ("ab,b->ab", (1, 2), (2,)),
           ("ab,b->ba", (2, 1), (1,)), ("ab,ba->ab", (1, 2), (2, 1)), ("ab,ab->ba", (2, 1), (2, 1)), ("a,ab->ab", (2,), (2, 1))]

    def same3(E, nm, got, ref, square=True):
        for x, y, q in zip(got, ref, "Abc"):
            x, y = E.arr(x), E.arr(y)
            if q == "c" and square:
                x, y = x * x, y * y
            E.eq(f"{nm}: {q}", x, y, shape=False)

    for s, b1, b2 in STR:
        def con(E, s=s, b1=b1, b2=b2):
            t1, t2 = trip(E, 2, b1, "p"), trip(E, 1, b2, "q")
            r = PE(*t1).contract(PE(*t2), [*s.split("->")[0].split(",")[0], 0, 1], [*s.split("->")[0].split(",")[1], 1], [*s.split("->")[1], 0])
            i, o = s.split("->")
            E.true("batch shape", tuple(r.batch_shape) == tuple((dict(zip(i.split(",")[0], b1)) | dict(zip(i.split(",")[1], b2)))[x] for x in o), str(r.batch_shape))
            for idx, i1, i2 in pairings(s, b1, b2):
                e = PE(*el(t1, i1)).contract(PE(*el(t2, i2)), [0, 1], [1], [0])
                same3(E, f"element {idx}", el(r.triple, idx), e.triple)
        R.ob(f"contraction paired as {s} {b1} {b2}", con, ["PolyExpAnsatz.contract", "complex_gaussian_integral_2", "join_Abc"], bound="every triple with 2 and 1 variables, listed pairing", num=2, timeout=120)

    for s, b1, b2 in STR:
        def jn(E, s=s, b1=b1, b2=b2):
            t1, t2 = trip(E, 1, b1, "p", (2,)), trip(E, 1, b2, "q")
            r = GI.join_Abc(t1, t2, s)
            for idx, i1, i2 in pairings(s, b1, b2):
                same3(E, f"element {idx}", el(r, idx), GI.join_Abc(el(t1, i1), el(t2, i2), ",->"), False)
        R.ob(f"join paired as {s} {b1} {b2}", jn, ["join_Abc"], bound="every triple with 1+1 and 1 variables, listed pairing", num=2, timeout=120)

    for bs in ((2,), (2, 1), (1,), (2, 2)):
        def tr(E, bs=bs):
            t = trip(E, 3, bs, "p")
            r = PE(*t).trace([0], [2])
            E.true("batch shape", tuple(r.batch_shape) == bs)
            for i in np.ndindex(*bs):
                same3(E, f"trace {i}", el(r.triple, i), PE(*el(t, i)).trace([0], [2]).triple)
            r = GI.complex_gaussian_integral_1(t, [0], [1])
            for i in np.ndindex(*bs):
                same3(E, f"integral {i}", el(r, i), GI.complex_gaussian_integral_1(el(t, i), [0], [1]))
        R.ob(f"trace of a batch {bs}", tr, ["PolyExpAnsatz.trace", "complex_gaussian_integral_1"], bound="every triple with 3 variables, listed batch", num=2, timeout=120)

    # ------------------------------------------------------------------ generic element-by-element contract
    def parts(r):
        """observable parts of a result"""
        if isinstance(r, (tuple, list)):
            return [p for x in r for p in parts(x)]
        if hasattr(r, "wires"):
            lab = [(s, m) for s, m in L.labels_of(r.wires)]
            a = r.ansatz
            if isinstance(a, AA):
                return [("wires", lab), ("array", a.array)]
            return [("wires", lab)] + list(zip("Abc", a.triple))
        if isinstance(r, AA):
            return [("array", r.array)]
        if isinstance(r, PE):
            return list(zip("Abc", r.triple))
        return [("value", r)]

    def elementwise(E, nm, r, bs, elem, tol=1e-7, square=False):
        """r: result on the batch; elem(i): the same operation on element i"""
        P = parts(r)
        for i in np.ndindex(*bs):
            Q = parts(elem(i))
            E.true(f"{nm}: same parts", [p[0] for p in P] == [q[0] for q in Q], f"{[p[0] for p in P]} {[q[0] for q in Q]}")
            for (k, x), (_, y) in zip(P, Q):
                if k == "wires":
                    E.true(f"{nm}: wires", x == y, f"{x} {y}")
                    continue
                x, y = (E.arr(v) for v in (x, y)) if E.sym else (np.asarray(x), np.asarray(y))
                E.true(f"{nm}: {k} has the batch shape", x.shape[:len(bs)] == bs, f"{x.shape} for batch {bs}")
                x = x[i]
                if square and k == "c":
                    x, y = x * x, y * y
                E.eq(f"{nm}: {k}", x, y, tol=tol)

    def elem_of(comp, i):
        a = comp.ansatz
        e = AA(a.array[i], 0) if isinstance(a, AA) else PE(*(x[i] for x in a.triple))
        return type(comp)(ansatz=e, wires=comp.wires)

    def physical_triple(E, kind, m, bs):
        """batch of normalisable functions with the reality of the kind"""
        k = int(np.prod(bs))
        if kind == "ket":
            t = rtriple(E.rng, m, bs, (), .5)
            return t
        out = []
        for _ in range(k):
            A, b, c = O.rand_gauss_dm(E.rng, m) if False else rtriple(E.rng, 2 * m, (), (), .4)
            P = np.array([*range(m, 2 * m), *range(m)])
            A = (A + np.conj(A)[np.ix_(P, P)]) / 2
            b = (b + np.conj(b)[P]) / 2
            out.append((A, b, np.asarray(c.real + 0j)))
        return tuple(np.stack([o[q] for o in out]).reshape(bs + out[0][q].shape) for q in range(3))

    def state(E, kind, modes, bs, rep="B", cut=4):
        m = len(modes)
        w = Wires(set(modes) if kind == "dm" else set(), set(), set(modes), set())
        cls = DM if kind == "dm" else Ket
        if rep == "F":
            s = (cut,) * m
            if kind == "ket":
                a = E.rng.normal(size=bs + s) + 1j * E.rng.normal(size=bs + s)
            else:
                d = cut ** m
                x = E.rng.normal(size=bs + (d, d)) + 1j * E.rng.normal(size=bs + (d, d))
                a = (x @ np.conj(np.swapaxes(x, -1, -2))).reshape(bs + s + s) / d
            return cls(ansatz=AA(a * .5, len(bs)), wires=w)
        if rep == "D":
            n = m * (2 if kind == "dm" else 1)
            return cls(ansatz=PE(*rtriple(E.rng, n, bs, (2,), .4)), wires=w)
        return cls(ansatz=PE(*physical_triple(E, kind, m, bs)), wires=w)

    BS = [(3,), (2, 3), (1,), (2, 1)]

    def states(E):
        kind, rep = E.pick("ket", "dm"), E.pick("B", "B", "F", "D")
        modes = E.pick((0,), (5,), (0, 1), (2, 7))
        bs = E.pick(*BS)
        s = state(E, kind, modes, bs, rep)
        E.note(kind, rep, modes, bs)
        m = modes[0]
        ev = lambda f, nm, tol=1e-7, square=False: elementwise(E, nm, f(s), bs, lambda i: f(elem_of(s, i)), tol, square)
        sh = tuple(int(x) for x in E.rng.integers(1, 5, size=len(modes) * (1 if kind == "ket" else 2)))
        ev(lambda x: x.adjoint, "adjoint")
        ev(lambda x: x.dual, "dual")
        ev(lambda x: x.dm(), "density matrix")
        ev(lambda x: x * (2 - 1j), "multiple")
        ev(lambda x: x / (2 - 1j), "quotient")
        ev(lambda x: x.fock_array(sh), "fock_array")
        ev(lambda x: x.to_fock(sh), "to_fock")
        ev(lambda x: x.probability, "probability")
        ev(lambda x: x.purity, "purity")
        if rep != "D":
            ev(lambda x: x.L2_norm, "L2 norm")
            ev(lambda x: x.normalize(), "normalised")
        ev(lambda x: x[m], "reduced state")
        ev(lambda x: x.to_bargmann(), "to_bargmann")
        ev(lambda x: x >> TraceOut(m), "trace over a mode")
        q = E.rng.normal(size=4)
        phi = float(E.rng.uniform(-3, 3))
        args = [q] * len(s.wires) if len(modes) == 1 else [E.rng.normal(size=k) for k in (2, 3)] * (2 if kind == "dm" else 1)
        if rep != "D":
            # grid axes come first, the batch last
            nq = 1                    # one flattened grid axis
            for nm, f in (("quadrature", lambda x: x.quadrature(*args, phi=phi)), ("quadrature distribution", lambda x: x.quadrature_distribution(*args[:len(modes)], phi=phi))):
                r = np.asarray(f(s))
                for i in np.ndindex(*bs):
                    E.eq(nm, r[(slice(None),) * nq + i], np.asarray(f(elem_of(s, i))))
        if kind == "ket":
            ev(lambda x: x.fock_distribution(3), "photon number distribution")
        if rep == "B":
            ev(lambda x: x.phase_space(float(E.pick(0, 0.5, -1)) if False else 0), "phase space moments", square=False)
            ev(lambda x: x >> Dgate(m, .3 - .2j), "displacement")
            ev(lambda x: x >> Attenuator(m, .7), "loss")
            ev(lambda x: x.contract(BtoQ(modes, phi)), "quadrature representation")
            ev(lambda x: x >> BtoChar(modes, 0.3), "characteristic function")
        if rep != "D":
            u = Dgate(m, .3 + .1j)
            op = u if rep == "B" else u.to_fock((4, 4))
            k = Coherent(m, .2j)
            k = k if rep == "B" else k.to_fock(4)
            for nm, o in (("unitary", op), ("ket", k), ("density matrix", k.dm())):
                ev(lambda x: x.expectation(o), f"expectation of a {nm}")
            if kind == "ket":
                ev(lambda x: x.fidelity(Coherent(modes[0], .1).to_fock(4) if rep == "F" else Coherent(modes[0], .1)) if len(modes) == 1 else x.dm(), "fidelity")
    R.bounded("operations on batches of states", states, ["State.*", "Ket.*", "DM.*", "CircuitComponent.to_fock", "CircuitComponent.fock_array", "CircuitComponent.quadrature"], num=40,
              bound="1-2 modes, batches (3,), (2,3), (1,), (2,1), Gaussian, polynomial and number-basis representations")

    def pairs(E):
        """two batched operands: outer product, zip and custom pairing of expectation values and contractions"""
        kind, rep = E.pick("ket", "dm"), E.pick("B", "B", "F")
        okind = E.pick("ket", "dm", "op")
        mode = E.pick("kron", "zip", "ab,b->ab", "ab,ab->ba", "a,b->ba", "ab,a->ba", "a,a->a")
        if mode == "kron":
            b1, b2 = E.pick((2,), (2, 1), ()), E.pick((3,), (1, 2), ())
            spec = U_outer(len(b1), len(b2))
        elif mode == "zip":
            b1 = b2 = E.pick((2,), (3, 2), ())
            spec = "abc"[:len(b1)] + "," + "abc"[:len(b1)] + "->" + "abc"[:len(b1)]
        else:
            size = {"a": 2, "b": 3}
            b1, b2 = (tuple(size[x] for x in p) for p in mode.split("->")[0].split(","))
            spec = mode
        modes, sub = E.pick(((0,), (0,)), ((0, 1), (1,)), ((2, 9), (9,)), ((0, 3), (0, 3)))
        s = state(E, kind, modes, b1, rep, 3)
        if okind == "op":
            w = Wires(set(), set(), set(sub), set(sub))
            n = 2 * len(sub)
            o = Operation(ansatz=PE(*rtriple(E.rng, n, b2, (), .4)) if rep == "B" else AA(E.rng.normal(size=b2 + (3,) * n) + 1j * E.rng.normal(size=b2 + (3,) * n), len(b2)), wires=w)
        else:
            o = state(E, okind, sub, b2, rep, 3)
        E.note(kind, rep, okind, mode, b1, b2, modes, sub)
        r = np.asarray(s.expectation(o, mode=mode))
        res = list(pairings(spec, b1, b2))
        E.true("batch shape", r.shape == tuple(np.max([i for i, _, _ in res], axis=0) + 1) if res and res[0][0] else r.shape == (), f"{r.shape}")
        for idx, i1, i2 in res:
            E.eq("expectation of an element", r[idx], np.asarray(elem_of(s, i1).expectation(elem_of(o, i2))), tol=1e-6)
        c = s.contract(o.dual if okind != "op" else o, mode=mode)
        elementwise_pairs(E, "contraction", c, res, lambda i1, i2: elem_of(s, i1).contract(elem_of(o, i2).dual if okind != "op" else elem_of(o, i2)))

    def U_outer(n1, n2):
        a, b = "abcdef"[:n1], "abcdef"[n1:n1 + n2]
        return f"{a},{b}->{a}{b}"

    def elementwise_pairs(E, nm, r, res, elem):
        P = parts(r)
        for idx, i1, i2 in res:
            Q = parts(elem(i1, i2))
            for (k, x), (_, y) in zip(P, Q):
                if k == "wires":
                    E.true(f"{nm}: wires", x == y)
                else:
                    E.eq(f"{nm}: {k}", np.asarray(x)[idx], np.asarray(y), tol=1e-6)
    R.bounded("pairings of two batches", pairs, ["Ket.expectation", "DM.expectation", "CircuitComponent.contract"], num=50, bound="1-2 modes, batches up to rank 2, outer product, zip and custom pairings")

    # ------------------------------------------------------------------ transformations
    def transformations(E):
        bs = E.pick(*BS)
        m = E.pick(0, 4)
        two = (m, m + 3)
        u = lambda lo, hi: E.rng.uniform(lo, hi, size=bs)
        kind = E.pick("D", "S", "R", "BS", "S2", "att", "amp", "damp", "gen", "ch")
        mk = {"D": lambda p: Dgate(m, p[0] + 1j * p[1]), "S": lambda p: Sgate(m, p[0], p[1]), "R": lambda p: Rgate(m, p[0]), "BS": lambda p: BSgate(two, p[0], p[1]), "S2": lambda p: S2gate(two, p[0], p[1]),
              "att": lambda p: Attenuator(m, p[2]), "amp": lambda p: Amplifier(m, 1 + p[2]), "damp": lambda p: FockDamping(m, p[2])}
        if kind in mk:
            p = [u(-1, 1), u(-1, 1), u(.1, .9)]
            t = mk[kind](p)
            el_ = lambda i: mk[kind]([x[i] for x in p])
        else:
            w = Wires(set(), set(), {m}, {m}) if kind == "gen" else Wires({m}, {m}, {m}, {m})
            cls = Operation if kind == "gen" else Map
            t = cls(ansatz=PE(*rtriple(E.rng, 2 if kind == "gen" else 4, bs, (), .4)), wires=w)
            el_ = lambda i: elem_of(t, i)
        E.note(kind, bs)
        ev = lambda f, nm, tol=1e-7: elementwise(E, nm, f(t), bs, lambda i: f(el_(i)), tol)
        n = len(L.labels_of(t.wires))
        sh = tuple(int(x) for x in E.rng.integers(1, 4, size=n))
        ev(lambda x: x.ansatz, "representation")
        ev(lambda x: x.adjoint, "adjoint")
        ev(lambda x: x.dual, "dual")
        if kind not in ("gen", "ch", "amp"):
            ev(lambda x: x.inverse(), "inverse")
        ev(lambda x: x.fock_array(sh), "fock_array", 1e-6)
        ev(lambda x: x.to_fock(sh), "to_fock", 1e-6)
        if kind in ("D", "S", "R", "BS", "S2"):
            ev(lambda x: x.symplectic, "symplectic")
        if kind in ("att", "amp"):
            ev(lambda x: x.XY, "X and Y")
        k = Ket(ansatz=PE(*rtriple(E.rng, len(t.modes), (), (), .4)), wires=Wires(set(), set(), set(t.modes), set()))
        ev(lambda x: k >> x, "applied to a state", 1e-6)
        ev(lambda x: k.dm() >> x, "applied to a density matrix", 1e-6)
        ev(lambda x: x.contract(k.dual), "followed by a projection", 1e-6)
    R.bounded("operations on batches of transformations", transformations, ["Transformation.*", "Unitary.*", "Channel.*", "CircuitComponent.fock_array"], num=60, bound="1-2 modes, batches (3,), (2,3), (1,), (2,1)")

    # ------------------------------------------------------------------ builders: broadcasting parameters
    def builders(E):
        """parameters with different batch shapes broadcast against each other"""
        b1, b2 = E.pick(((3,), ()), ((), (2,)), ((2,), (2,)), ((2, 3), (3,)), ((2, 1), (1, 3)), ((1,), (3,)))
        u = lambda b: E.rng.uniform(-.8, .8, size=b)
        x, y = u(b1), u(b2)
        fams = [("displacement", lambda p, q: Dgate(1, p + 1j * q)), ("squeezer", lambda p, q: Sgate(2, p, q)), ("beam splitter", lambda p, q: BSgate((0, 2), p, q)), ("two-mode squeezer", lambda p, q: S2gate((0, 1), p, q)),
                ("squeezed vacuum", lambda p, q: SqueezedVacuum(0, p, q)), ]
        nm, f = fams[int(E.rng.integers(len(fams)))]
        bs = np.broadcast_shapes(b1, b2)
        E.note(nm, b1, b2)
        X, Y = np.broadcast_arrays(x, y)
        try:
            c = f(x, y)
            c.ansatz.triple
        except Exception as e:  # shapes that cannot be combined may be refused
            from harness import Skip
            if len(b1) and len(b2) and b1 != b2:
                raise Skip()
            raise
        elementwise(E, nm, c, bs, lambda i: f(X[i], Y[i]))
    R.bounded("parameters of different batch shapes", builders, ["*_Abc", "PolyExpAnsatz.from_function"], num=40, bound="two parameters, batches up to (2,3)")

    # ------------------------------------------------------------------ superpositions
    def superposed(E):
        """linear maps of a superposition are sums over its terms; quadratic quantities are those of the summed amplitudes"""
        kind = E.pick("ket", "dm")
        modes = E.pick((0,), (4,), (0, 1), (1, 6))
        bs = E.pick((), (2,), (2, 3))
        n = int(E.rng.integers(1, 4))
        t = state(E, kind, modes, bs + (n,)).ansatz.triple
        w = Wires(set(modes) if kind == "dm" else set(), set(), set(modes), set())
        cls = DM if kind == "dm" else Ket
        A, b, c = (np.array(x) for x in t)
        A, b = A * .5, b * .5
        s = cls(ansatz=PE(A, b, c, lin_sup=True), wires=w)
        term = lambda i, k: cls(ansatz=PE(A[i + (k,)], b[i + (k,)], c[i + (k,)]), wires=w)
        E.note(kind, modes, bs, n)
        nv = len(L.labels_of(w))
        sh = tuple(int(x) for x in E.rng.integers(1, 5, size=nv))
        cut = 14 if len(modes) == 2 else 30
        lin = [("fock_array", lambda x: x.fock_array(sh)), ("to_fock", lambda x: x.to_fock(sh).ansatz.array), ("dual", lambda x: x.dual.fock_array(sh)), ("adjoint", lambda x: x.adjoint.fock_array(sh)),
               ("multiple", lambda x: (x * 2j).fock_array(sh)), ("displaced", lambda x: (x >> Dgate(modes[0], .2j)).fock_array(sh))]
        for nm, f in lin:
            r = np.asarray(f(s))
            k_ = np.conj if False else (lambda v: v)
            for i in np.ndindex(*bs):
                E.eq(nm, r[i], sum(np.asarray(f(term(i, k))) for k in range(n)))
        full = (cut,) * nv
        amps = np.zeros(bs + full, complex)
        for i in np.ndindex(*bs):
            amps[i] = sum(np.asarray(term(i, k).fock_array(full)) for k in range(n))
        d = cut ** len(modes)
        if kind == "ket":
            flat = amps.reshape(bs + (d,))
            rho = flat[..., :, None] * np.conj(flat[..., None, :])
        else:
            rho = np.swapaxes(amps.reshape(bs + (d, d)), -1, -2)
        tol = 1e-5
        E.eq("probability", s.probability, np.real(np.trace(rho, axis1=-2, axis2=-1)), tol=tol)
        if kind == "dm":
            E.eq("L2 norm", s.L2_norm, np.real(np.einsum("...ij,...ji->...", rho, rho)) if False else np.sum(np.abs(amps) ** 2, axis=tuple(range(len(bs), amps.ndim))), tol=tol)
            E.eq("purity", s.purity, s.L2_norm / s.probability ** 2)
        else:
            E.eq("purity of a pure state", s.purity, np.ones(bs))
            E.eq("density matrix", s.dm().fock_array((3,) * 2 * len(modes)), np.swapaxes(rho, -1, -2).reshape(bs + (cut,) * 2 * len(modes))[(slice(None),) * len(bs) + (slice(0, 3),) * 2 * len(modes)], tol=tol)
        E.eq("normalised state has unit probability", np.asarray(s.normalize().probability), np.ones(bs), tol=tol)
        m = modes[0]
        q = E.rng.normal(size=3)
        phi = .4
        r = np.asarray(s.quadrature(*[q] * nv, phi=phi))
        want = np.stack([sum(np.asarray(term(i, k).quadrature(*[q] * nv, phi=phi)) for k in range(n)) for i in np.ndindex(*bs)], axis=-1)
        E.eq("wave function", r, want.reshape(want.shape[:-1] + bs))
        kk = Coherent(m, .3)
        v = np.zeros((cut,), complex)
        v[:] = np.asarray(kk.fock_array(cut))
        if len(modes) == 1:
            E.eq("expectation of a ket", s.expectation(kk), np.real(np.einsum("i,...ij,j->...", np.conj(v), rho, v)), tol=tol)
            E.eq("expectation of a density matrix", s.expectation(kk.dm()), np.real(np.einsum("i,...ij,j->...", np.conj(v), rho, v)), tol=tol)
        else:
            rr = rho.reshape(bs + (cut,) * 4)
            E.eq("expectation of a ket on one mode", s.expectation(kk), np.real(np.einsum("i,...iajb,j->...ab", np.conj(v), rr, v).trace(axis1=-2, axis2=-1)) if False else np.einsum("i,...iaja,j->...", np.conj(v), rr, v).real, tol=tol) if kind == "dm" else None
        x, p = E.rng.normal(size=2)
        wg = s.wigner(x, p) if len(modes) == 1 else None
        if wg is not None:
            if kind == "dm":
                E.eq("wigner function", wg, np.array([sum(np.asarray(term(i, k).wigner(x, p)) for k in range(n)) for i in np.ndindex(*bs)]).reshape(bs), tol=tol)
    R.bounded("operations on superpositions", superposed, ["PolyExpAnsatz.*", "Ket.*", "DM.*"], num=30, bound="1-2 modes, up to 3 terms, batches up to (2,3)")

    # ------------------------------------------------------------------ functions evaluated at batches of points
    def grids(E):
        """every batch index of the function and of the points is treated on its own; the axes keep their order (equal sizes included)"""
        n = int(E.rng.integers(1, 4))
        bs = E.pick((), (2,), (2, 2), (3, 2), (1, 2))
        der = E.pick((), (), (2,), (2, 3))
        ls = bool(E.rng.random() < .3)
        nt = int(E.rng.integers(1, 4))
        t = rtriple(E.rng, n, bs + ((nt,) if ls else ()), der)
        f = PE(*t, lin_sup=ls)
        g = E.pick((2,), (2, 2), (3, 3), (2, 3), (2, 2, 2), (1, 2))
        E.note(n, bs, der, "terms" if ls else "", g)
        Z = [(E.rng.normal(size=g) + 1j * E.rng.normal(size=g)) * .5 for _ in range(n)]
        sub = lambda i: PE(*el(t, i), lin_sup=ls)
        val = lambda h, *z: np.asarray(h(*z)).reshape(())
        want = np.zeros(g + bs, complex)
        for j in np.ndindex(*g):
            for i in np.ndindex(*bs):
                want[j + i] = val(sub(i), *[z[j] for z in Z])
        E.eq("values on a grid", f(*Z), want)
        full = "abc"[:len(g)]
        for perm in itertools.permutations(range(len(g))):
            o = "".join(full[k] for k in perm)
            E.eq("grid in another order", f.eval(*Z, batch_string=",".join([full] * n) + "->" + o), np.transpose(want, perm + tuple(range(len(g), want.ndim))))
        if n > 1:
            sel = sorted(E.rng.permutation(n)[:int(E.rng.integers(1, n))].tolist())
            rest = [k for k in range(n) if k not in sel]
            w = [(E.rng.normal() + 1j * E.rng.normal()) * .5 for _ in rest]
            part = [Z[k] if k in sel else None for k in range(n)]
            for nm, q in (("call", f(*part)), ("eval", f.eval(*part, batch_string=",".join([full] * len(sel)) + "->" + full))):
                E.true(f"batch of a partial {nm}", tuple(q.batch_shape) == g + bs + ((nt,) if ls else ()), str(q.batch_shape))
                got = np.asarray(q(*w))
                for j in np.ndindex(*g):
                    zz = [None] * n
                    for k in sel:
                        zz[k] = Z[k][j]
                    for k, v in zip(rest, w):
                        zz[k] = v
                    for i in np.ndindex(*bs):
                        E.eq(f"partial {nm}", got[j + i], val(sub(i), *zz), shape=False)
        if n == 2:
            X, Y = Z[0].reshape(-1)[:3], Z[1].reshape(-1)[:2]
            for st, tr in (("a,b->ab", False), ("a,b->ba", True)):
                got = np.asarray(f.eval(X, Y, batch_string=st))
                for a in range(len(X)):
                    for c in range(len(Y)):
                        for i in np.ndindex(*bs):
                            E.eq("outer product of the points", got[((c, a) if tr else (a, c)) + i], val(sub(i), X[a], Y[c]), shape=False)
        # unary operations element by element
        r = E.rng.permutation(n).tolist()
        for nm, h in (("conj", lambda q: q.conj), ("reorder", lambda q: q.reorder(r)), ("multiple", lambda q: q * (1.5 - 2j)), ("quotient", lambda q: q / (1.5 - 2j)), ("negative", lambda q: -q), ("decomposition", lambda q: q.decompose_ansatz())):
            x = h(f)
            for i in np.ndindex(*bs):
                y = h(sub(i))
                for a, b_, l in zip(x.triple, y.triple, "Abc"):
                    E.eq(f"{nm}: {l}", np.asarray(a)[i], np.asarray(b_))
        if len(bs) == 2:
            x = f.reorder_batch([1, 0] + ([2] if ls else []))
            for i in np.ndindex(*bs):
                for a, b_, l in zip(x.triple, t, "Abc"):
                    E.eq(f"exchanged batch: {l}", np.asarray(a)[i[::-1]], b_[i])
    R.bounded("functions on grids of points", grids, ["PolyExpAnsatz.__call__", "PolyExpAnsatz.eval", "PolyExpAnsatz._partial_eval", "PolyExpAnsatz.reorder_batch", "reshape_args_to_batch_string"], num=40, bound="up to 3 variables, batches up to rank 2, grids up to rank 3")

    def array_batches(E):
        from mrmustard.physics.ansatz import ArrayAnsatz as AA
        n = int(E.rng.integers(1, 4))
        bs = E.pick((2,), (2, 2), (3, 2), (2, 1, 2))
        sh = tuple(int(x) for x in E.rng.integers(1, 4, size=n))
        x = E.rng.normal(size=bs + sh) + 1j * E.rng.normal(size=bs + sh)
        y = E.rng.normal(size=bs + sh) + 1j * E.rng.normal(size=bs + sh)
        a, b = AA(x, len(bs)), AA(y, len(bs))
        r = E.rng.permutation(n).tolist()
        red = tuple(int(v) for v in E.rng.integers(1, 4, size=n))
        ops = [("conj", lambda u, v: u.conj), ("reorder", lambda u, v: u.reorder(r)), ("multiple", lambda u, v: u * 2j), ("quotient", lambda u, v: u / 2j), ("negative", lambda u, v: -u), ("reduce", lambda u, v: u.reduce(red)),
               ("sum", lambda u, v: u + v), ("difference", lambda u, v: u - v), ("tensor product", lambda u, v: u & v)]
        if n > 1:
            ops.append(("trace", lambda u, v: u.trace((r[0],), (r[1],))))
        for nm, h in ops:
            g = h(a, b)
            E.true(f"{nm}: batch shape", tuple(g.batch_shape) == bs, str(g.batch_shape))
            for i in np.ndindex(*bs):
                E.eq(nm, np.asarray(g.array)[i], np.asarray(h(AA(x[i], 0), AA(y[i], 0)).array))
        o = E.rng.permutation(len(bs)).tolist()
        E.eq("reorder_batch", a.reorder_batch(o).array, np.transpose(x, o + list(range(len(bs), x.ndim))))
    R.bounded("operations on batches of arrays", array_batches, ["ArrayAnsatz.*"], num=40, bound="up to 3 indices, batches up to rank 3")

    # ------------------------------------------------------------------ number-basis functions of math
    def kernels(E):
        n = int(E.rng.integers(1, 4))
        bs = E.pick(*BS)
        A, b, c = rtriple(E.rng, n, bs, (), .5)
        sh = tuple(int(x) for x in E.rng.integers(1, 5, size=n))
        E.note(n, bs, sh)
        for st in (False, True):
            r = np.asarray(math.hermite_renormalized(A, b, c, shape=sh, stable=st))
            E.true("shape", r.shape == bs + sh, str(r.shape))
            for i in np.ndindex(*bs):
                E.eq("expansion of an element", r[i], np.asarray(math.hermite_renormalized(A[i], b[i], c[i], shape=sh, stable=st)))
        # only b batched
        b2 = E.rng.normal(size=bs + (n,)) + 0j
        A0, c0 = A[(0,) * len(bs)], c[(0,) * len(bs)]
        Ab, cb = np.broadcast_to(A0, bs + (n, n)), np.broadcast_to(c0, bs)
        r = np.asarray(math.hermite_renormalized(Ab, b2, cb, shape=sh))
        for i in np.ndindex(*bs):
            E.eq("batch of linear terms", r[i], np.asarray(math.hermite_renormalized(A0, b2[i], c0, shape=sh)))
    R.bounded("number-basis expansion of batches", kernels, ["hermite_renormalized", "hermite_renormalized_batched"], num=30, bound="up to 3 variables, shapes up to 4")

    # ------------------------------------------------------------------ exact: public operations on a batch
    def exact_state(kind, bs):
        def f(E):
            m = 1
            n = 1 if kind == "ket" else 2
            if E.sym:
                t = trip(E, n, bs, "p")
            else:
                t = physical_triple(E, kind, 1, bs)
            w = Wires({3} if kind == "dm" else set(), set(), {3}, set())
            cls = DM if kind == "dm" else Ket
            s = cls(ansatz=PE(*t), wires=w)
            ev = lambda g, nm, sq=True: elementwise(E, nm, g(s), bs, lambda i: g(cls(ansatz=PE(*el(t, i)), wires=w)), square=sq)
            ev(lambda x: x.adjoint, "adjoint")
            ev(lambda x: x.dual, "dual")
            ev(lambda x: x.dm(), "density matrix")
            ev(lambda x: x.contract(x.dual, "zip").ansatz, "overlap")
            ev(lambda x: x >> Dgate(3, .25), "displacement")
            ev(lambda x: x >> Attenuator(3, .25), "loss")
            ev(lambda x: x >> TraceOut(3) if kind == "ket" else x[3], "trace") if kind == "dm" else None
        return f
    for kind in ("ket", "dm"):
        for bs in ((2,), (2, 1)):
            R.ob(f"operations on a batch of {kind}s {bs}", exact_state(kind, bs), ["Ket.dm", "CircuitComponent.contract", "CircuitComponent.__rshift__", "CircuitComponent.adjoint", "CircuitComponent.dual"],
                 bound="every triple on one mode, listed batch", num=2, timeout=200)
