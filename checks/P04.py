"""P04: unitary gates: unitarity and documented action on quadratures, Bargmann / symplectic / number basis agree."""
import numpy as np
import oracle as O
from common import *


def gates(E, L, b1, b2=()):
    pass


def check_gate(E, label, g, batch, Sf, df=None, norm=True):
    """Sf(i) documented symplectic, df(i) displacement (in units of a) at batch index i"""
    m = len(g.modes)
    w = g.wires
    E.true(label + ": wires", w.output.ket.modes == set(g.modes) and w.input.ket.modes == set(g.modes) and not w.bra.modes, str(w))
    for i, t in each(E, g, batch):
        S = Sf(i)
        O.unitary_relations(E, label, t, S, None if df is None else df(i))
        A, b, c = t
        ii = A[m:, m:]
        # normalisation: U^dag U = 1 ; |c|^2 = sqrt det(1 - A_ii A_ii^*) for b = 0
        if norm:
            if not E.sym or df is not None or m == 1:
                O.unitarity(E, label, t)
            else:
                d = E.det(E.arr(np.eye(m, dtype=int)) - ii @ E.conj(ii))
                cc = c * E.conj(c)
                E.eq(label + ": norm", cc * cc, d, shape=False)
    if hasattr(g, "symplectic") and not E.sym:
        Sg = np.asarray(g.symplectic)
        for i in np.ndindex(*batch):
            E.eq(label + ": reported symplectic matrix", Sg[i], Sf(i))


def register(R):
    from mrmustard import lab as L
    from mrmustard import math, settings
    from mrmustard.physics import symplectics as SY
    R.explanation = ("each gate is executed on free parameters; the triple must satisfy a_i U = U (Ea + F a^dag + d)_i with E, F from the documented "
                     "symplectic matrix, and U^dag U = U U^dag = 1; families are composed with the real >> and compared with the documented group law")

    def rg(bs):
        def f(E):
            th = param(E, "angle", "th", bs)
            check_gate(E, "Rgate", L.Rgate(1, theta=th), bs, lambda i: rot(E, at(th, i)))
        return f
    for bs in BATCHES1:
        R.ob(f"Rgate batch{bs}", rg(bs), ["lab.Rgate", "triples.rotation_gate_Abc"])

    def dg(bs):
        def f(E):
            al = param(E, "cplx", "al", bs)
            g = L.Dgate(0, alpha=al)
            check_gate(E, "Dgate", g, bs, lambda i: np.eye(2), lambda i: E.arr([at(al, i)]))
            for i, (A, b, c) in each(E, g, bs):
                a = at(al, i)
                E.eq("Dgate: vacuum amplitude", c, E.exp(-(a * E.conj(a)) / 2), shape=False)
        return f
    for bs in BATCHES1:
        R.ob(f"Dgate batch{bs}", dg(bs), ["lab.Dgate", "triples.displacement_gate_Abc"])

    def s_sq(E, r, phi):
        C, Sh = ch(E, r)
        c, s = cs(E, phi)
        return E.arr([[C - c * Sh, -s * Sh], [-s * Sh, C + c * Sh]])

    def sg(b1, b2):
        def f(E):
            r, ph = param(E, "squeeze", "r", b1), param(E, "angle", "phi", b2)
            g = L.Sgate(0, r=r, phi=ph)
            bs = bshape(b1, b2)
            check_gate(E, "Sgate", g, bs, lambda i: s_sq(E, at(r, i), at(ph, i)))
            for i, (A, b, c) in each(E, g, bs):
                E.eq("Sgate: vacuum amplitude squared", c * c * ch(E, at(r, i))[0], 1, shape=False)
                if not E.sym:
                    E.true("Sgate: positive vacuum amplitude", np.real(c) > 0)
        return f
    for b1, b2 in BATCHES2:
        R.ob(f"Sgate batch{b1}{b2}", sg(b1, b2), ["lab.Sgate", "triples.squeezing_gate_Abc"])

    def pg(bs):
        def f(E):
            s = param(E, "real", "s", bs)
            one = s * 0 + 1 if bs == () else at(s, (0,) * len(bs)) * 0 + 1
            check_gate(E, "Pgate", L.Pgate(0, shearing=s), bs, lambda i: E.arr([[one, one * 0], [at(s, i), one]]))
        return f
    for bs in BATCHES1:
        R.ob(f"Pgate batch{bs}", pg(bs), ["lab.Pgate", "symplectics.pgate_symplectic", "Unitary.from_symplectic", "bargmann_utils.symplectic2Au"])

    def bsm(E, th, ph):
        c, s = cs(E, th)
        e = expi(E, ph)
        return orth_symp(E, E.arr([[c + 0 * e, -s / e], [e * s, c + 0 * e]]))

    def bg(b1, b2):
        def f(E):
            th, ph = param(E, "angle", "th", b1), param(E, "angle", "ph", b2)
            check_gate(E, "BSgate", L.BSgate((0, 2), theta=th, phi=ph), bshape(b1, b2), lambda i: bsm(E, at(th, i), at(ph, i)))
        return f
    for b1, b2 in BATCHES2:
        R.ob(f"BSgate batch{b1}{b2}", bg(b1, b2), ["lab.BSgate", "triples.beamsplitter_gate_Abc"])

    def s2m(E, r, ph):
        C, Sh = ch(E, r)
        c, s = cs(E, ph)
        z = 0 * C * c
        C = C + z
        return E.arr([[C, c * Sh, z, s * Sh], [c * Sh, C, s * Sh, z], [z, s * Sh, C, -c * Sh], [s * Sh, z, -c * Sh, C]])

    def s2(b1, b2):
        def f(E):
            r, ph = param(E, "squeeze", "r", b1), param(E, "angle", "ph", b2)
            g = L.S2gate((0, 1), r=r, phi=ph)
            bs = bshape(b1, b2)
            check_gate(E, "S2gate", g, bs, lambda i: s2m(E, at(r, i), at(ph, i)))
            for i, (A, b, c) in each(E, g, bs):
                E.eq("S2gate: vacuum amplitude", c * ch(E, at(r, i))[0], 1, shape=False)
        return f
    for b1, b2 in BATCHES2:
        R.ob(f"S2gate batch{b1}{b2}", s2(b1, b2), ["lab.S2gate", "triples.twomode_squeezing_gate_Abc"])

    def cxz(kind, bs):
        def f(E):
            s = param(E, "real", "s", bs)

            def S(i):
                x = at(s, i)
                o, l = x * 0, x * 0 + 1
                if kind == "CX":
                    return E.arr([[l, o, o, o], [x, l, o, o], [o, o, l, -x], [o, o, o, l]])
                return E.arr([[l, o, o, o], [o, l, o, o], [o, x, l, o], [x, o, o, l]])
            g = (L.CXgate if kind == "CX" else L.CZgate)((1, 3), s=s)
            check_gate(E, kind + "gate", g, bs, S)
        return f
    for k in ("CX", "CZ"):
        for bs in BATCHES1:
            R.ob(f"{k}gate batch{bs}", cxz(k, bs), [f"lab.{k}gate", f"symplectics.{k.lower()}gate_symplectic", "Unitary.from_symplectic"])

    def mzS(E, a, b, internal):
        """two 50:50 beam splitters BS(pi/4, pi/2) with the phases where the documentation puts them"""
        ea, eb = expi(E, a), expi(E, b)
        I = I_(E)
        one = ea * 0 + eb * 0 + 1
        s = E.sqrt(half(E))
        B = E.arr([[one, one * I], [one * I, one]]) * s
        z = one * 0
        if internal:
            P = E.arr([[ea, z], [z, eb]])
            return orth_symp(E, B @ P @ B)
        return orth_symp(E, B @ E.arr([[eb, z], [z, one]]) @ B @ E.arr([[ea, z], [z, one]]))

    def mz(b1, b2, internal):
        def f(E):
            a, b = param(E, "angle", "pa", b1), param(E, "angle", "pb", b2)
            check_gate(E, "MZgate", L.MZgate((0, 1), phi_a=a, phi_b=b, internal=internal), bshape(b1, b2),
                       lambda i: mzS(E, at(a, i), at(b, i), internal))
        return f
    for internal in (False, True):
        for b1, b2 in BATCHES2[:4]:
            R.ob(f"MZgate internal={internal} batch{b1}{b2}", mz(b1, b2, internal), ["lab.MZgate", "symplectics.mzgate_symplectic", "Unitary.from_symplectic"])

    # ---- matrix parametrised gates
    def interf(E):
        U = u2(E)
        check_gate(E, "Interferometer", L.Interferometer((0, 1), U), (), lambda i: orth_symp(E, U))
    R.ob("Interferometer U(2)", interf, ["lab.Interferometer", "symplectics.interferometer_symplectic", "Unitary.from_symplectic"], bound="two modes, every unitary")

    def rinterf(E):
        c, s = cs(E, E.angle("t"))
        for U in (E.arr([[c, -s], [s, c]]), E.arr([[c, s], [s, -c]])):
            check_gate(E, "RealInterferometer", L.RealInterferometer((0, 1), U), (), lambda i: orth_symp(E, U))
    R.ob("RealInterferometer O(2)", rinterf, ["lab.RealInterferometer", "symplectics.realinterferometer_symplectic"], bound="two modes, every orthogonal matrix")

    def gg1(E):
        S = euler1(E)
        check_gate(E, "Ggate", L.Ggate(0, S), (), lambda i: S, norm=not E.sym)
        if E.sym:
            (_, (A, b, c)), = list(each(E, L.Ggate(0, S)))
            cc = c * E.conj(c)
            E.eq("Ggate: norm", cc * cc, 1 - A[1, 1] * E.conj(A[1, 1]), shape=False)
    R.ob("Ggate one mode", gg1, ["lab.Ggate", "Unitary.from_symplectic", "bargmann_utils.symplectic2Au"], bound="one mode, every symplectic matrix")

    def matn(E):
        m = E.pick(1, 2, 3, 4)
        bs = E.pick((), (), (2,), (2, 3))
        modes = tuple(sorted(E.rng.choice(9, size=m, replace=False).tolist()))
        n = int(np.prod(bs))
        E.note("modes", modes, "batch", bs)
        S = np.array([O.rand_symplectic(E.rng, m) for _ in range(n)]).reshape(bs + (2 * m, 2 * m))
        U = np.array([O.rand_unitary(E.rng, m) for _ in range(n)]).reshape(bs + (m, m))
        q = np.array([np.linalg.qr(E.rng.normal(size=(m, m)))[0] for _ in range(n)]).reshape(bs + (m, m))
        check_gate(E, "Ggate", L.Ggate(modes, S), bs, lambda i: S[i])
        check_gate(E, "Unitary.from_symplectic", L.Unitary.from_symplectic(modes, S), bs, lambda i: S[i])
        if bs == ():
            check_gate(E, "Interferometer", L.Interferometer(modes, U), bs, lambda i: O.unitary_to_orth_symplectic(U[i]))
            check_gate(E, "RealInterferometer", L.RealInterferometer(modes, q), bs, lambda i: O.unitary_to_orth_symplectic(q[i] + 0j))
        check_gate(E, "Identity", L.Identity(modes), (), lambda i: np.eye(2 * m))
        (_, t), = list(each(E, L.Identity(modes)))
        E.eq("Identity: c", t[2], 1, shape=False)
        r = L.Unitary.random(modes, max_r=0.7, seed=int(E.rng.integers(1000)))
        Sr = np.asarray(r.symplectic)
        E.eq("Unitary.random symplectic", Sr @ O.omega(m) @ Sr.T, O.omega(m), tol=1e-6)
        O.unitarity(E, "Unitary.random", next(iter(each(E, r)))[1])
    R.bounded("matrix gates native", matn, ["lab.Ggate", "lab.Interferometer", "lab.RealInterferometer", "lab.Identity", "Unitary.from_symplectic", "Unitary.symplectic"], num=10, bound="1-4 modes, batches up to (2,3)")

    def batched_interf(E):
        m, n = E.pick(1, 2, 3), 3
        U = np.array([O.rand_unitary(E.rng, m) for _ in range(n)])
        q = np.array([np.linalg.qr(E.rng.normal(size=(m, m)))[0] for _ in range(n)])
        check_gate(E, "Interferometer", L.Interferometer(tuple(range(m)), U), (n,), lambda i: O.unitary_to_orth_symplectic(U[i]))
        check_gate(E, "RealInterferometer", L.RealInterferometer(tuple(range(m)), q), (n,), lambda i: O.unitary_to_orth_symplectic(q[i] + 0j))
    R.bounded("batched interferometers", batched_interf, ["lab.Interferometer", "lab.RealInterferometer"], num=3)

    # ---- dual / inverse through the public API
    def all_gates(E):
        r = lambda: float(E.rng.uniform(-0.8, 0.8))
        a = lambda: float(E.rng.uniform(-4, 4))
        return [L.Rgate(1, a()), L.Dgate(1, complex(r(), r())), L.Sgate(1, r(), a()), L.Pgate(1, r()), L.BSgate((1, 4), a(), a()),
                L.S2gate((1, 4), r(), a()), L.MZgate((1, 4), a(), a(), internal=bool(E.pick(0, 1))), L.CXgate((1, 4), r()), L.CZgate((1, 4), r()),
                L.Ggate((1, 4, 5), O.rand_symplectic(E.rng, 3)), L.Interferometer((1, 4, 5), O.rand_unitary(E.rng, 3)),
                L.RealInterferometer((1, 4), np.linalg.qr(E.rng.normal(size=(2, 2)))[0]), L.Identity((1, 4))]

    def api_dual(E):
        for g in all_gates(E):
            m = len(g.modes)
            for nm, prod in (("U >> dual", g >> g.dual), ("dual >> U", g.dual >> g), ("U >> inverse", g >> g.inverse())):
                t = tuple(np.asarray(x) for x in prod.ansatz.triple)
                O.identity_check(E, f"{g.name}: {nm}", t, m)
                E.eq(f"{g.name}: {nm} c", t[2], 1, shape=False)
            # adjoint-ed unitary acting on the bra side is the complex conjugate
            A, b, c = (np.asarray(x) for x in g.adjoint.ansatz.triple)
            E.eq(f"{g.name}: adjoint", A, np.conj(np.asarray(g.ansatz.A)))
    R.bounded("dual and inverse of gates", api_dual, ["CircuitComponent.dual", "Unitary.inverse", "CircuitComponent.adjoint"], num=4)

    # ---- group laws
    def same(E, label, prod, ref):
        p, q = arrs(E, prod.ansatz.triple), arrs(E, ref.ansatz.triple)
        E.eq(label + " A", p[0], q[0])
        E.eq(label + " b", p[1], q[1])
        return item(p[2]), item(q[2])

    LAWS = {
        "R(t1) >> R(t2) = R(t1+t2)": lambda E: (lambda a, b: (L.Rgate(0, a) >> L.Rgate(0, b), L.Rgate(0, a + b)))(E.angle("t1"), E.angle("t2")),
        "S(r1,phi) >> S(r2,phi) = S(r1+r2,phi)": lambda E: (lambda a, b, f: (L.Sgate(0, a, f) >> L.Sgate(0, b, f), L.Sgate(0, a + b, f)))(E.squeeze("r1"), E.squeeze("r2"), E.angle("ph")),
        "BS(t1,phi) >> BS(t2,phi) = BS(t1+t2,phi)": lambda E: (lambda a, b, f: (L.BSgate((0, 1), a, f) >> L.BSgate((0, 1), b, f), L.BSgate((0, 1), a + b, f)))(E.angle("t1"), E.angle("t2"), E.angle("ph")),
        "S2(r1,phi) >> S2(r2,phi) = S2(r1+r2,phi)": lambda E: (lambda a, b, f: (L.S2gate((0, 1), a, f) >> L.S2gate((0, 1), b, f), L.S2gate((0, 1), a + b, f)))(E.squeeze("r1"), E.squeeze("r2"), E.angle("ph")),
    }

    def law(l, csym):
        def f(E):
            x, y = same(E, l, *LAWS[l](E))
            if E.sym:
                if csym:
                    x2, y2 = x * x, y * y
                    E.eq(l + " c^4", x2 * x2, y2 * y2, shape=False)
            else:
                E.eq(l + " c", x, y, shape=False)
        return f
    for l in LAWS:
        R.ob("group law " + l, law(l, not l.startswith("S(")), ["CircuitComponent.__rshift__", "lab gates", "PolyExpAnsatz.contract", "gaussian_integrals"])

    def dlaw(E):
        a1, a2 = E.cplx("a1"), E.cplx("a2")
        x, y = same(E, "D(a1) >> D(a2) = phase D(a1+a2)", L.Dgate(0, a1) >> L.Dgate(0, a2), L.Dgate(0, a1 + a2))
        d = a2 * E.conj(a1) - E.conj(a2) * a1
        if E.sym:
            E.eq("D c^2", x * x, y * y * E.exp(d), shape=False)
        else:
            E.eq("D c", x, y * np.exp(d / 2), shape=False)
    R.ob("group law D(a1) >> D(a2)", dlaw, ["CircuitComponent.__rshift__", "lab.Dgate"])

    def plaw(E):
        s1, s2_ = E.real("s1"), E.real("s2")
        same(E, "P(s1) >> P(s2) = P(s1+s2)", L.Pgate(0, s1) >> L.Pgate(0, s2_), L.Pgate(0, s1 + s2_))
    R.ob("group law P", plaw, ["CircuitComponent.__rshift__", "lab.Pgate"], sym=False, kind="bounded", bound="randomised")

    def group2(E):
        s1, s2_ = E.real("s1"), E.real("s2")
        for G in (L.CXgate, L.CZgate):
            p, q = G((0, 1), s1) >> G((0, 1), s2_), G((0, 1), s1 + s2_)
            E.eq(G.__name__ + " A", E.arr(p.ansatz.A), E.arr(q.ansatz.A))
            E.eq(G.__name__ + " b", E.arr(p.ansatz.b), E.arr(q.ansatz.b))
            if not E.sym:
                E.eq(G.__name__ + " |c|", abs(p.ansatz.c), abs(q.ansatz.c), shape=False)
    R.ob("group laws CX CZ", group2, ["CircuitComponent.__rshift__", "lab.CXgate", "lab.CZgate"])

    def group_n(E):
        m = E.pick(1, 2, 3)
        modes = tuple(range(m))
        S1, S2 = O.rand_symplectic(E.rng, m), O.rand_symplectic(E.rng, m)
        U1, U2 = O.rand_unitary(E.rng, m), O.rand_unitary(E.rng, m)
        p, q = L.Ggate(modes, S1) >> L.Ggate(modes, S2), L.Ggate(modes, S2 @ S1)
        E.eq("Ggate composition A", p.ansatz.A, q.ansatz.A)
        E.eq("Ggate composition |c|", abs(p.ansatz.c), abs(q.ansatz.c), shape=False)
        p, q = L.Interferometer(modes, U1) >> L.Interferometer(modes, U2), L.Interferometer(modes, U2 @ U1)
        E.eq("Interferometer composition A", p.ansatz.A, q.ansatz.A)
        E.eq("composed symplectic", np.asarray((L.Ggate(modes, S1) >> L.Ggate(modes, S2)).symplectic), S2 @ S1, tol=1e-6)
    R.bounded("group laws matrix gates", group_n, ["Unitary.__rshift__", "Unitary.symplectic"], num=5)

    # ---- number basis agrees with the Bargmann description
    def fock(E):
        for g in all_gates(E):
            m = len(g.modes)
            shape = tuple(int(x) for x in E.rng.integers(1, 7 if m == 1 else (4 if m == 2 else 3), size=2 * m))
            t = tuple(np.asarray(x) for x in g.ansatz.triple)
            ref = O.amplitudes(*t, shape)
            E.note(g.name, shape)
            E.eq(f"{g.name}: fock_array", np.asarray(g.fock_array(shape)), ref, tol=1e-6)
            E.eq(f"{g.name}: to_fock", np.asarray(g.to_fock(shape).ansatz.array), ref, tol=1e-6)
    R.bounded("number basis of gates", fock, ["CircuitComponent.fock_array", "Dgate.fock_array", "Sgate.fock_array", "BSgate.fock_array", "CircuitComponent.to_fock"], num=5, bound="cutoffs <= 6")

    def fockb(E):
        bs = E.pick((2,), (2, 2), (3, 1))
        n = int(np.prod(bs))
        r, ph = E.rng.uniform(-0.8, 0.8, size=bs), E.rng.uniform(-4, 4, size=bs)
        al = E.rng.normal(size=bs) + 1j * E.rng.normal(size=bs)
        sc = E.pick(0, 1)
        p1 = float(ph.ravel()[0]) if sc else ph
        for g in (L.Dgate(0, al), L.Sgate(0, r, p1), L.BSgate((0, 1), ph, p1), L.SqueezedVacuum(0, r, p1), L.Rgate(0, ph), L.S2gate((0, 1), r, p1)):
            nv = np.asarray(g.ansatz.A).shape[-1]
            shape = tuple(int(x) for x in E.rng.integers(1, 5, size=nv))
            out = np.asarray(g.fock_array(shape))
            E.true(f"{g.name}: batch shape", out.shape == bs + shape, f"{out.shape}")
            A, b, c = (np.asarray(x) for x in g.ansatz.triple)
            for i in np.ndindex(*bs):
                E.eq(f"{g.name}: batched fock_array", out[i], O.amplitudes(A[i], b[i], c[i], shape), tol=1e-6)
    R.bounded("number basis of batched gates", fockb, ["Dgate.fock_array", "Sgate.fock_array", "BSgate.fock_array", "SqueezedVacuum.fock_array"], num=6)

    def order(mk):
        def f(E):
            """the pair of modes is ordered: (1, 0) is the gate with the roles of the modes exchanged"""
            x, y = (float(E.rng.uniform(0.2, 1.2)) for _ in range(2))
            sw = [1, 0, 3, 2]
            f = mk((0, 1), x, y)
            try:
                g = mk((1, 0), x, y)
                g.ansatz.A
            except ValueError:
                E.true("reversed modes refused", True)
                return
            E.eq("reversed modes", np.asarray(g.ansatz.A), np.asarray(f.ansatz.A)[np.ix_(sw, sw)])
        return f
    for nm, mk in (("BSgate", lambda md, x, y: L.BSgate(md, x, y)), ("CXgate", lambda md, x, y: L.CXgate(md, x)), ("MZgate", lambda md, x, y: L.MZgate(md, x, y))):
        R.bounded(f"order of the modes {nm}", order(mk), ["lab." + nm], num=1)

    def hb(E):
        """symplectic gates do not depend on hbar"""
        s = float(E.rng.uniform(-1, 1))
        S = O.rand_symplectic(E.rng, 2)
        ref = [np.asarray(g.ansatz.A) for g in (L.Pgate(0, s), L.CZgate((0, 1), s), L.Ggate((0, 1), S))]
        with settings(HBAR=float(E.rng.uniform(0.3, 3))):
            for g, rf in zip((L.Pgate(0, s), L.CZgate((0, 1), s), L.Ggate((0, 1), S)), ref):
                E.eq(g.name + " independent of hbar", np.asarray(g.ansatz.A), rf)
    R.bounded("gates and hbar", hb, ["Unitary.from_symplectic"], num=2)
