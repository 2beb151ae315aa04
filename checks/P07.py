"""P07: quadrature, characteristic and phase-space transforms; discretised Wigner function."""
import itertools
import numpy as np
import oracle as O
import lab as LB
from common import *
from P02 import rtriple


def bprod(E, *ms):
    return np.block([[m if j == i else np.zeros((m.shape[0], q.shape[1]), dtype=object if E.sym else complex) for j, q in enumerate(ms)] for i, m in enumerate(ms)])


def kernel_q(E, m, phi, h):
    """<x_phi|z> per mode; variables (x_1.., z_1..)"""
    w = expi(E, -phi)
    s = E.sqrt(h * 2) / h
    dt = object if E.sym else complex
    A = np.zeros((2 * m, 2 * m), dtype=dt)
    for k in range(m):
        A[k, k] = -1 / h
        A[k, m + k] = A[m + k, k] = s * w
        A[m + k, m + k] = -w * w
    return A, np.zeros(2 * m, dtype=dt), c4(E, m, h)


def c4(E, m, h):
    if E.sym:
        r = E.sqrt(E.sqrt(h * E.pi))
        return 1 / (r if m == 1 else r * r)
    return (np.pi * h) ** (-0.25 * m)


def char_fn(E, m, s):
    """e^{s|g|^2/2} <out| D(g) |in>: variables (g*.., g.., out.., in..)"""
    dt = object if E.sym else complex
    A = np.zeros((4 * m, 4 * m), dtype=dt)
    for k in range(m):
        gc, g, o, i = k, m + k, 2 * m + k, 3 * m + k
        for a, b, v in ((gc, g, (s - 1) * half(E)), (g, o, 1), (gc, i, -1), (o, i, 1)):
            A[a, b] = A[b, a] = v
    return A, np.zeros(4 * m, dtype=dt), 1


def char_of(E, t, s, m=None):
    """Tr[rho D(g)] e^{s|g|^2/2}, variables (g*.., g..); t is a dm triple (bra.., ket..)"""
    m = t[0].shape[-1] // 2
    K = char_fn(E, m, s)
    return O.contract(E, K, t, list(range(2 * m, 4 * m)), list(range(2 * m)))


def ps_of(E, t, s):
    """W_s(beta) = pi^-2m int d^2g chi_s e^{beta g* - beta* g}, variables (beta.., beta*..)"""
    A, b, c = char_of(E, t, s)
    m = A.shape[-1] // 2
    dt = object if E.sym else complex
    B = np.zeros((4 * m, 4 * m), dtype=dt)
    B[:2 * m, :2 * m] = A
    for k in range(m):
        gc, g, be, bc = k, m + k, 2 * m + k, 3 * m + k
        B[gc, g] = B[gc, g] + 1
        B[g, gc] = B[g, gc] + 1
        B[gc, be] = B[be, gc] = 1
        B[g, bc] = B[bc, g] = -1
    bb = np.concatenate([E.arr(b), np.zeros(2 * m, dtype=dt)])
    f = E.pi ** m if not E.sym else (E.pi if m == 1 else E.pi * E.pi)
    r = O.integrate(E, B, bb, 1 if E.sym else 1.0, [(k, m + k) for k in range(m)])
    return r[0], r[1], r[2] * c / (f * f if E.sym else f)     # c is already squared in exact mode


def sq(E, c):
    return c if E.sym else c


def register(R):
    from mrmustard import lab as L
    from mrmustard import math, settings
    from mrmustard.physics import triples as TR, fock_utils as FU
    from mrmustard.physics import wigner as WG
    from mrmustard.physics.ansatz import PolyExpAnsatz as PE, ArrayAnsatz as AA
    from mrmustard.lab.circuit_components_utils import BtoQ, BtoPS, BtoChar
    R.explanation = ("the real transforms are executed on free triples (angles, ordering parameters, hbar free too) and compared with the integral transforms of the definitions: "
                     "<x_phi|z> for quadratures, Tr[rho D] for characteristic functions, its Fourier integral for phase-space functions, and the exact Wigner function of each number-basis "
                     "operator for the discretised one")

    class with_hbar:
        def __init__(self, h):
            self.h = h

        def __enter__(self):
            self.old = settings.HBAR
            settings.HBAR = self.h

        def __exit__(self, *a):
            settings.HBAR = self.old

    def hbar(E):
        return E.pos("hbar", 0.4, 3.0)

    def tcmp(E, nm, got, ref):
        A, b, c = (E.arr(x) for x in got)
        E.eq(nm + ": A", A, ref[0])
        E.eq(nm + ": b", b, ref[1])
        O.eqc(E, nm + ": c", item(c), ref[2])

    def free(E, n, p="", der=()):
        if E.sym:
            N = n + len(der)
            return E.csym(N, p + "A"), E.cvec(N, p + "b"), (param(E, "cplx", p + "c", tuple(der)) if der else E.arr(E.cplx(p + "c")))
        A, b, c = rtriple(E.rng, n, (), der)
        return A, b, (c if der else np.array(complex(c)))

    def permuted(E, t, perm):
        A, b, c = t
        A, b = E.arr(A), E.arr(b)
        return A[np.ix_(perm, perm)], b[perm], c

    # ------------------------------------------------------------------ quadrature kernel
    def kern(m):
        def f(E):
            h, phi = hbar(E), E.angle("phi")
            with with_hbar(h):
                K = BtoQ(tuple(range(m)), phi)
                t = arrs(E, K.ansatz.triple)
            r = kernel_q(E, m, phi, h)
            E.eq("A", t[0], r[0])
            E.eq("b", t[1], r[1])
            E.eq("c", item(t[2]), r[2], shape=False)
        return f
    for m in (1, 2):
        R.ob(f"BtoQ is <x_phi|z>, {m} modes", kern(m), ["lab.BtoQ", "triples.bargmann_to_quadrature_Abc"], bound=f"{m} modes, every angle and hbar")

    def ladder(E):
        """Q_phi = sqrt(h/2)(a e^{-i phi} + a^dag e^{i phi}) acts on the kernel as multiplication by x:
        on Bargmann functions a -> d/dz, a^dag -> z; transposed on the kernel variable"""
        h, phi = hbar(E), E.angle("phi")
        with with_hbar(h):
            A, b, c = arrs(E, BtoQ((0,), phi).ansatz.triple)
        w = expi(E, phi)
        # <x|(a e^{-i phi}+a^dag e^{i phi})|z) : <x|a|z) = z<x|z), <x|a^dag|z) = d/dz <x|z)
        s = E.sqrt(h * half(E))
        z, x = E.cplx("z"), E.cplx("x")
        dz = A[1, 0] * x + A[1, 1] * z + b[1]
        E.eq("eigenvalue equation", (z / w + dz * w) * s, x, shape=False)
    R.ob("BtoQ eigenvalue equation", ladder, ["lab.BtoQ"], bound="every angle and hbar")

    def ketq(m, how):
        def f(E):
            h, phi = hbar(E), E.angle("phi")
            A, b, c = free(E, m)
            md = (9, 1) if m == 2 else (3,)
            md = tuple(sorted(md))
            with with_hbar(h):
                k = L.Ket.from_bargmann(md, (A, b, c))
                q = k >> BtoQ(md, phi) if how == ">>" else k.to_quadrature(phi)
                t = q.ansatz.triple
                r = O.contract(E, kernel_q(E, m, phi, h), (A, b, item(c) if E.sym else complex(c)), list(range(m, 2 * m)), list(range(m)))
                r = (r[0], r[1], r[2])
                tcmp(E, "wavefunction", t, r)
                E.eq("quadrature_triple", E.arr(k.quadrature_triple(phi)[0]), E.arr(t[0]))
                # inner product with itself: one real Gaussian integral per mode
                if m == 1:
                    A1, b1, c1 = (E.arr(x) for x in t)
                    Aq, bq = A1[0, 0] + E.conj(A1[0, 0]), b1[0] + E.conj(b1[0])
                    c1 = item(c1)
                    nrm = c1 * E.conj(c1) * E.sqrt(-E.pi * 2 / Aq) * E.exp(-bq * bq / Aq * half(E)) if not E.sym else \
                        (c1 * E.conj(c1)) * (c1 * E.conj(c1)) * (-E.pi * 2 / Aq) * E.exp(-bq * bq / Aq)
                    d = O.dm_triple(E, (A, b, item(c) if E.sym else complex(c)))
                    E.eq("norm of the wavefunction" + ("" if not E.sym else " squared"), nrm, O.integrate(E, *d, [(0, 1)])[2], shape=False)
                    back = (q >> BtoQ(md, phi).inverse())
                    tcmp(E, "inverse undoes the map", back.ansatz.triple, (A, b, item(c) * item(c) if E.sym else complex(c)))
                    E.true("wires of the inverse", labs(back) == [("ok", 3)])
                    fq = L.Ket.from_quadrature(md, tuple(E.arr(x) for x in t), phi)
                    tcmp(E, "from_quadrature", fq.ansatz.triple, (A, b, item(c) * item(c) if E.sym else complex(c)))
        return f

    def labs(c):
        return LB.labels_of(c.wires)
    for m in (1, 2):
        for how in (">>", "to_quadrature"):
            R.ob(f"wavefunction of a ket, {m} modes, {how}", ketq(m, how), ["lab.BtoQ", "CircuitComponent.to_quadrature", "CircuitComponent.__rshift__", "Ket.from_quadrature", "BtoQ.inverse"],
                 bound=f"{m} modes, every A, b, c, angle, hbar")

    def dmq(E):
        h, phi = hbar(E), E.angle("phi")
        A, b, c = free(E, 2)
        c0 = item(c) if E.sym else complex(c)
        with with_hbar(h):
            d = L.DM.from_bargmann((3,), (A, b, c))
            t = d.to_quadrature(phi).ansatz.triple
        K = kernel_q(E, 1, phi, h)
        Kb = (E.conj(K[0]), K[1], E.conj(K[2]) if not E.sym else K[2])
        r = O.contract(E, Kb, (A, b, c0), [1], [0])
        r = O.contract(E, K, (r[0], r[1], c0), [1], [1]) if False else None
        # both sides at once
        KK = O.direct_sum(E, Kb, K)
        r = O.contract(E, KK, (A, b, c0), [1, 3], [0, 1])
        tcmp(E, "density matrix in the quadrature basis", t, r)
    R.ob("quadrature density matrix", dmq, ["CircuitComponent.to_quadrature", "lab.BtoQ"], bound="1 mode, every A, b, c, angle, hbar")

    def uq(E):
        h, phi = hbar(E), E.angle("phi")
        A, b, c = free(E, 2)
        c0 = item(c) if E.sym else complex(c)
        with with_hbar(h):
            u = L.Unitary.from_bargmann((3,), (3,), (A, b, c))
            t = u.to_quadrature(phi).ansatz.triple
        K = kernel_q(E, 1, phi, h)
        Kd = (E.conj(K[0]), K[1], K[2])
        r = O.contract(E, O.direct_sum(E, K, Kd), (A, b, c0), [1, 3], [0, 1])
        tcmp(E, "<x|U|x'>", t, r)
    R.ob("quadrature representation of a unitary", uq, ["CircuitComponent.to_quadrature"], bound="1 mode, every A, b, c, angle, hbar")

    # ------------------------------------------------------------------ building components from their wavefunction
    def fromq(kind):
        """from_quadrature is the inverse of to_quadrature on every kind of wire, whatever the angle"""
        def f(E):
            h, phi = hbar(E), E.angle("phi")
            CC = L.CircuitComponent
            lay = dict(ket1=("", "", "a", ""), ket2=("", "", "ab", ""), bra=("a", "", "", ""), bra2=("ab", "", "", ""), dm=("a", "", "a", ""), inket=("", "", "", "a"), inbra=("", "a", "", ""),
                       unitary=("", "", "a", "a"), adjoint=("a", "a", "", ""), unusual=("", "ab", "c", ""), skew=("a", "", "", "b"), crossed=("", "a", "b", ""))[kind]
            md = [tuple({"a": 1, "b": 9, "c": 33}[x] for x in w) for w in lay]
            n = sum(map(len, lay))
            A, b, c = free(E, n)
            with with_hbar(h):
                cc = CC.from_bargmann((A, b, c), *md)
                q = cc.to_quadrature(phi)
                # reference: kernel of each wire, conjugated on the bra side; input wires carry the conjugate kernel
                Ks = []
                for w, k in zip(("ob", "ib", "ok", "ik"), md):
                    for _ in k:
                        K = kernel_q(E, 1, phi, h)
                        if w in ("ob", "ik"):
                            K = (E.conj(K[0]), K[1], K[2])
                        Ks.append(K)
                big = Ks[0]
                for K in Ks[1:]:
                    big = O.direct_sum(E, big, K)
                one = 1 if E.sym else 1.0 + 0j
                ref = O.contract(E, (big[0], big[1], one), (A, b, one), [2 * j + 1 for j in range(n)], list(range(n)))
                t = q.ansatz.triple
                E.eq("A in the quadrature basis", E.arr(t[0]), ref[0])
                E.eq("b in the quadrature basis", E.arr(t[1]), ref[1])
                E.true("wires", labs(q) == labs(cc))
                back = CC.from_quadrature(*md, tuple(E.arr(x) for x in t), phi)
                E.true("wires of the result", labs(back) == labs(cc))
                E.eq("A is recovered", E.arr(back.ansatz.A), A)
                E.eq("b is recovered", E.arr(back.ansatz.b), b)
                if not E.sym:
                    E.eq("c is recovered", np.asarray(back.ansatz.c), c)
                for cls, kd in ((L.Ket, ("ket1", "ket2")), (L.DM, ("dm",))):
                    if kind in kd:
                        r = cls.from_quadrature(md[2], tuple(E.arr(x) for x in t), phi)
                        E.eq(f"{cls.__name__}.from_quadrature: A", E.arr(r.ansatz.A), A)
                        E.eq(f"{cls.__name__}.from_quadrature: b", E.arr(r.ansatz.b), b)
                        if not E.sym:
                            E.eq(f"{cls.__name__}.from_quadrature: c", np.asarray(r.ansatz.c), c)
                for cls, kd in ((L.Unitary, "unitary"), (L.Operation, "unitary")):
                    if kind == kd:
                        r = cls.from_quadrature(md[2], md[3], tuple(E.arr(x) for x in t), phi)
                        E.eq(f"{cls.__name__}.from_quadrature: A", E.arr(r.ansatz.A), A)
                        E.eq(f"{cls.__name__}.from_quadrature: b", E.arr(r.ansatz.b), b)
        return f
    for kind in ("ket1", "ket2", "bra", "bra2", "dm", "inket", "inbra", "unitary", "adjoint", "unusual", "skew", "crossed"):
        R.ob(f"from_quadrature undoes to_quadrature, {kind}", fromq(kind), ["CircuitComponent.from_quadrature", "CircuitComponent.to_quadrature", "State.from_quadrature", "Transformation.from_quadrature", "BtoQ.inverse"],
             bound="1-3 wires, every A, b, c, angle, hbar", num=2, timeout=200)

    def fromq_many(E):
        """kets and density matrices of several modes from their wavefunction"""
        h, phi = hbar(E), float(E.rng.uniform(-3, 3))
        m = int(E.rng.integers(1, 4))
        md = tuple(sorted(E.rng.permutation([0, 1, 3, 8, 11, 16, 33])[:m].tolist()))
        with with_hbar(h):
            for cls, n, kd in ((L.Ket, m, "ket"), (L.DM, 2 * m, "dm")):
                if n > 4:
                    continue
                A, b, c = rtriple(E.rng, n, (), ())
                s = cls.from_bargmann(md, (A, b, np.array(complex(c))))
                r = cls.from_quadrature(md, s.quadrature_triple(phi), phi)
                for w, x, y in zip("Abc", r.ansatz.triple, (A, b, c)):
                    E.eq(f"{kd} from its wavefunction: {w}", np.asarray(x), y, shape=False)
                r0 = cls.from_quadrature(md, s.quadrature_triple())
                for w, x, y in zip("Abc", r0.ansatz.triple, (A, b, c)):
                    E.eq(f"{kd} from its position wavefunction: {w}", np.asarray(x), y, shape=False)
    R.bounded("states from wavefunctions", fromq_many, ["State.from_quadrature"], num=15, bound="1-3 modes, any angle and hbar")

    # ------------------------------------------------------------------ characteristic and phase-space functions
    def svar(E, kind):
        """every ordering parameter; away from the singular points 1 (and -1 where noted)"""
        if E.sym:
            return E.real("s")
        return float(E.rng.uniform(-2, 0.4)) if E.rng.random() < 0.6 else float(E.pick(0.0, -0.5, -1.5))

    def char(m, state):
        def f(E):
            s = svar(E, "char")
            if state == "ket":
                A, b, c = free(E, m)
                st = L.Ket.from_bargmann(tuple(range(3, 3 + m)), (A, b, c))
                d = O.dm_triple(E, (A, b, item(c) if E.sym else complex(c)))
            else:
                A, b, c = free(E, 2 * m)
                st = L.DM.from_bargmann(tuple(range(3, 3 + m)), (A, b, c))
                d = (A, b, item(c) if E.sym else complex(c))
            x = st >> BtoChar(st.modes, s)
            r = char_of(E, d, s)
            tcmp(E, "characteristic function", x.ansatz.triple, r)
            E.true("wires", labs(x) == [("ob", k) for k in st.modes] + [("ok", k) for k in st.modes])
            if m == 1 and state == "dm":
                back = x >> BtoChar(st.modes, s).inverse()
                tcmp(E, "inverse undoes the map", back.ansatz.triple, (A, b, d[2] * d[2] if E.sym else d[2]))
            # value at the origin is the trace
            E.eq("value at zero", r[2], O.integrate(E, *d, [(k, m + k) for k in range(m)])[2], shape=False)
        return f
    for m, st in ((1, "ket"), (1, "dm"), (2, "ket")):
        R.ob(f"characteristic function, {m} modes, {st}", char(m, st), ["lab.BtoChar", "triples.displacement_map_s_parametrized_Abc", "BtoChar.inverse"],
             bound=f"{m} modes, every A, b, c, ordering parameter")

    def phase(m, state):
        def f(E):
            s = svar(E, "ps")
            if not E.sym and abs(s + 1) < .1:
                s = -1.3
            if state == "ket":
                A, b, c = free(E, m)
                st = L.Ket.from_bargmann(tuple(range(3, 3 + m)), (A, b, c))
                d = O.dm_triple(E, (A, b, item(c) if E.sym else complex(c)))
            else:
                A, b, c = free(E, 2 * m)
                st = L.DM.from_bargmann(tuple(range(3, 3 + m)), (A, b, c))
                d = (A, b, item(c) if E.sym else complex(c))
            x = st >> BtoPS(st.modes, s)
            r = ps_of(E, d, s)
            if E.sym:
                tcmp(E, "phase-space function", x.ansatz.triple, r)
            else:   # the function is integrable only for the definition's domain: compare where the sequential integrals converge
                tcmp(E, "phase-space function", x.ansatz.triple, r)
            # total integral
            A_, b_, c_ = (E.arr(v) for v in x.ansatz.triple)
            B = A_.copy()
            for k in range(m):
                B[k, m + k] = B[k, m + k] + 1
                B[m + k, k] = B[m + k, k] + 1
            c_ = item(c_)
            tot = O.integrate(E, B, b_, c_ * E.pi ** m if not E.sym else c_ * (E.pi if m == 1 else E.pi * E.pi), [(k, m + k) for k in range(m)])[2]
            E.eq("total integral", tot, O.integrate(E, *d, [(k, m + k) for k in range(m)])[2], shape=False)
        return f
    for m, st in ((1, "ket"), (1, "dm")):
        R.ob(f"phase-space function, {m} modes, {st}", phase(m, st), ["lab.BtoPS", "triples.bargmann_to_wigner_Abc"], num=0, bound=f"{m} modes, every A, b, c, ordering parameter")

    def wig(state):
        def f(E):
            h = hbar(E)
            n = 1 if state == "ket" else 2
            A, b, c = free(E, n)
            c0 = item(c) if E.sym else complex(c)
            with with_hbar(h):
                st = L.Ket.from_bargmann((3,), (A, b, c)) if state == "ket" else L.DM.from_bargmann((3,), (A, b, c))
                W = st.wigner
                t = arrs(E, W.triple)
            d = O.dm_triple(E, (A, b, c0)) if state == "ket" else (A, b, c0)
            Ap, bp, cp = ps_of(E, d, 0)
            # (beta, beta*) = V (x, p)
            r = 1 / E.sqrt(h * 2)
            V = E.arr([[r, I_(E) * r], [r, -I_(E) * r]])
            E.eq("A", t[0], V.T @ E.arr(Ap) @ V)
            E.eq("b", t[1], V.T @ E.arr(bp))
            O.eqc(E, "c", item(t[2]), cp / (h * 2) / (h * 2) if E.sym else cp / (2 * h))
            if True:  # marginal: integrating over p gives <x|rho|x>
                A_, b_, c_ = t
                app = A_[1, 1]
                Am = A_[0, 0] - A_[0, 1] * A_[0, 1] / app
                bm = b_[0] - A_[0, 1] * b_[1] / app
                c_ = item(c_)
                cm = c_ * c_ * (-E.pi * 2 / app) * E.exp(-b_[1] * b_[1] / app)
                K = kernel_q(E, 1, 0 * h, h)
                q = O.contract(E, O.direct_sum(E, K, K), d, [1, 3], [0, 1])
                E.eq("marginal A", Am, q[0][0, 0] + q[0][0, 1] * 2 + q[0][1, 1], shape=False)
                E.eq("marginal b", bm, q[1][0] + q[1][1], shape=False)
                E.eq("marginal c", cm, q[2] if E.sym else q[2] ** 2, shape=False)
        return f
    for st in ("ket", "dm"):
        R.ob(f"State.wigner, {st}", wig(st), ["State.wigner", "PolyExpAnsatz.PS", "lab.BtoPS"], num=4 if st == "ket" else 0, bound="1 mode, every A, b, c, hbar")

    # ------------------------------------------------------------------ discretised Wigner function
    def disp_elements(E, N, al):
        """<n|D(al)|m>"""
        ac = E.conj(al)
        A = E.arr([[0, 1], [1, 0]]) if not E.sym else E.arr([[0 * al, 0 * al + 1], [0 * al + 1, 0 * al]])
        return O.taylor(E, A, E.arr([al, -ac]), E.exp(-al * ac * half(E)), (N, N))

    def wd(N, method):
        def f(E):
            h = hbar(E)
            M = E.arr([[E.cplx(f"r{i}{j}") for j in range(N)] for i in range(N)])
            rho = M + E.conj(M).T
            x, p, p2 = E.real("x"), E.real("p"), E.real("p2")
            with settings(DISCRETIZATION_METHOD=method), with_hbar(h):
                W, Q, P = WG.wigner_discretized(rho, E.arr([x]), E.arr([p, p2]))
            W, Q, P = E.arr(W), E.arr(Q), E.arr(P)
            E.eq("grid x", Q, E.arr([[x, x]]))
            E.eq("grid p", P, E.arr([[p, p2]]))
            ref = []
            for y in (p, p2):
                al = (x + I_(E) * y) / E.sqrt(h * 2)
                D = disp_elements(E, N, al * 2)
                v = 0
                for m in range(N):
                    for n in range(N):
                        v = v + rho[m, n] * D[n, m] * (-1) ** m
                ref.append(v / (E.pi * h))
            E.eq("Wigner function", W, E.arr([ref]))
        return f
    for N in (1, 2, 3, 4):
        for meth in ("iterative", "clenshaw"):
            R.ob(f"wigner_discretized {meth} cutoff {N}", wd(N, meth), ["wigner.wigner_discretized", f"wigner._wigner_discretized_{meth}", "wigner.make_grid", "wigner._wig_laguerre_val"],
                 bound=f"cutoff {N}, every Hermitian matrix, grid point and hbar")

    def wd_native(E):
        N = E.pick(1, 2, 3, 5, 9, 16, 25, 40)
        h = float(E.rng.uniform(0.4, 3))
        xs = np.sort(E.rng.uniform(-6, 6, size=E.pick(1, 2, 7))) * np.sqrt(h)
        ps = np.sort(E.rng.uniform(-6, 6, size=E.pick(1, 3, 5))) * np.sqrt(h)
        M = E.rng.normal(size=(N, N)) + 1j * E.rng.normal(size=(N, N))
        rho = M @ M.conj().T
        rho = rho / np.trace(rho)
        if E.rng.random() < .3:
            v = E.rng.normal(size=N) + 1j * E.rng.normal(size=N)
            rho = np.outer(v, v.conj()) / np.vdot(v, v)
        E.note("cutoff", N, "hbar", h, "grid", xs.shape, ps.shape)
        ref = np.zeros((len(xs), len(ps)))
        for i, x in enumerate(xs):
            for j, p in enumerate(ps):
                al = (x + 1j * p) / np.sqrt(2 * h)
                D = lag_disp(N, 2 * al)
                ref[i, j] = np.real(np.einsum("mn,nm,m", rho, D, (-1.0) ** np.arange(N))) / (np.pi * h)
        for meth in ("iterative", "clenshaw"):
            with settings(DISCRETIZATION_METHOD=meth, HBAR=h):
                W, Q, P = WG.wigner_discretized(rho, xs, ps)
            E.eq(meth + ": Wigner function", np.asarray(W), ref, tol=1e-7)
            E.eq(meth + ": grid x", np.asarray(Q), np.repeat(xs[:, None], len(ps), 1))
            E.eq(meth + ": grid p", np.asarray(P), np.repeat(ps[None], len(xs), 0))
    R.bounded("wigner_discretized, larger cutoffs", wd_native, ["wigner.wigner_discretized"], num=25, bound="cutoff up to 40, rectangular grids, random states and hbar")

    def lag_disp(N, a):
        """<n|D(a)|m> through Laguerre polynomials (stable)"""
        from scipy.special import eval_genlaguerre, gammaln
        D = np.zeros((N, N), dtype=complex)
        r = abs(a) ** 2
        for n in range(N):
            for m in range(N):
                lo, hi = min(n, m), max(n, m)
                k = hi - lo
                z = a if n >= m else -np.conj(a)
                D[n, m] = np.exp(-r / 2 + 0.5 * (gammaln(lo + 1) - gammaln(hi + 1))) * z**k * eval_genlaguerre(lo, k, r)
        return D

    # ------------------------------------------------------------------ number-basis quadratures
    def osc(E):
        from scipy.special import eval_hermite, gammaln
        N = E.pick(1, 2, 3, 7, 20, 40)
        h = float(E.rng.uniform(0.4, 3))
        q = E.rng.uniform(-4, 4, size=E.pick(1, 3, 6)) * np.sqrt(h)

        def psi(N, q, h):
            n = np.arange(N)[:, None]
            y = q[None] / np.sqrt(h)
            return eval_hermite(n, y) * np.exp(-y**2 / 2 - 0.5 * (n * np.log(2) + gammaln(n + 1))) / (np.pi * h) ** 0.25
        with settings(HBAR=h):
            E.eq("oscillator_eigenstate", np.asarray(FU.oscillator_eigenstate(q, N)), psi(N, q, h) + 0j, tol=1e-6)
        h2 = h * 1.7
        with settings(HBAR=h2):
            E.eq("oscillator_eigenstate after changing hbar", np.asarray(FU.oscillator_eigenstate(q, N)), psi(N, q, h2) + 0j, tol=1e-6)
            phi = float(E.pick(0.0, E.rng.uniform(-4, 4), np.pi / 2))
            k = E.rng.normal(size=N) + 1j * E.rng.normal(size=N)
            w = (psi(N, q, h2) * np.exp(-1j * phi * np.arange(N))[:, None])
            amp = k @ w
            x, pdf = FU.quadrature_distribution(k, phi, q)
            E.eq("quadrature_distribution of a ket", np.asarray(pdf), np.abs(amp) ** 2, tol=1e-6)
            M = E.rng.normal(size=(N, N)) + 1j * E.rng.normal(size=(N, N))
            rho = M @ M.conj().T
            ref = np.real(np.einsum("mn,mq,nq->q", rho, w, w.conj()))    # sum rho_mn <x|m><n|x>, rho ket first
            # the function takes the bra index first
            x, pdf = FU.quadrature_distribution(rho.T, phi, q)
            E.eq("quadrature_distribution of a density matrix", np.asarray(pdf), ref, tol=1e-6)
            bk = FU.quadrature_basis(k, q[:, None], False, phi)
            E.eq("quadrature_basis of a ket", np.asarray(bk), amp, tol=1e-6)
            N2 = E.pick(1, 2, 5)
            q2 = E.rng.uniform(-3, 3, size=len(q))
            T = E.rng.normal(size=(N, N2)) + 1j * E.rng.normal(size=(N, N2))
            w2 = psi(N2, q2, h2) * np.exp(-1j * phi * np.arange(N2))[:, None]
            cj = [bool(E.pick(0, 1)), bool(E.pick(0, 1))]
            bt = FU.quadrature_basis(T, np.stack([q, q2], -1), cj, phi)
            E.eq("quadrature_basis of a tensor", np.asarray(bt), np.einsum("nm,nq,mq->q", T, w.conj() if cj[0] else w, w2.conj() if cj[1] else w2), tol=1e-6)
            # components
            m = E.pick(1, 2)
            sh = tuple(int(x) for x in E.rng.integers(1, 6, size=m))
            md = tuple(sorted(E.rng.choice([3, 11, 19], size=m, replace=False).tolist()))
            bs = E.pick((), (2,))
            arr = E.rng.normal(size=bs + sh) + 1j * E.rng.normal(size=bs + sh)
            qs = [E.rng.uniform(-3, 3, size=E.pick(1, 2, 4)) for _ in range(m)]
            ws = [psi(n, q, h2) * np.exp(-1j * phi * np.arange(n))[:, None] for n, q in zip(sh, qs)]
            kt = L.Ket.from_fock(md, arr, batch_dims=len(bs))
            val = np.einsum("...n,nx->x...", arr, ws[0]) if m == 1 else np.einsum("...nm,nx,my->xy...", arr, *ws)
            got = np.asarray(kt.quadrature(*qs, phi=phi))
            E.eq("quadrature of a number-basis ket", got, val.reshape(got.shape) if got.size == val.size else val, tol=1e-6)
            E.eq("quadrature_distribution of a number-basis ket", np.asarray(kt.quadrature_distribution(*qs, phi=phi)), np.abs(val.reshape(got.shape)) ** 2, tol=1e-6)
            kb = kt.to_bargmann()
            if bs == ():
                E.eq("same through the Bargmann representation", np.asarray(kb.quadrature(*qs, phi=phi)), got, tol=1e-6)
    R.bounded("number-basis quadratures", osc, ["fock_utils.oscillator_eigenstate", "fock_utils.quadrature_basis", "fock_utils.quadrature_distribution", "CircuitComponent.quadrature",
                                                 "State.quadrature_distribution"], num=25, bound="cutoffs up to 40, 1-2 modes, batches")

    # ------------------------------------------------------------------ native: physical states, many modes, polynomial part, batches, superposition
    def gauss(E, m, h):
        cov, mu = O.rand_gauss_dm(E.rng, m)
        return tuple(np.asarray(x) for x in O.triple_from_moments(cov * h, mu * np.sqrt(h), h)), cov * h, mu * np.sqrt(h)

    def native_dm(E):
        m = E.pick(1, 1, 2, 3)
        h = float(E.rng.uniform(0.4, 3))
        phi = float(E.rng.uniform(-4, 4))
        s = float(E.pick(0.0, E.rng.uniform(-0.95, 0.1), E.rng.uniform(-2, -1.05)))
        md = tuple(sorted(E.rng.choice([0, 3, 8, 11, 16, 19], size=m, replace=False).tolist()))
        E.note("modes", md, "hbar", h, "phi", phi, "s", s)
        with settings(HBAR=h):
            t, cov, mu = gauss(E, m, h)
            d = L.DM.from_bargmann(md, t)
            x = d >> BtoChar(md, s)
            tcmp(E, "characteristic function", x.ansatz.triple, char_of(E, t, s))
            w = d >> BtoPS(md, s)
            # s-ordered function of a Gaussian state: normal density with covariance cov - s h/2
            Vs = cov - s * h / 2 * np.eye(2 * m)
            for _ in range(3):
                xi = mu + E.rng.normal(size=2 * m) * 0.7
                be = (xi[:m] + 1j * xi[m:]) / np.sqrt(2 * h)
                dens = np.exp(-0.5 * (xi - mu) @ np.linalg.solve(Vs, xi - mu)) / np.sqrt(np.linalg.det(2 * np.pi * Vs))
                A_, b_, c_ = (np.asarray(v) for v in w.ansatz.triple)
                v = np.concatenate([be, be.conj()])
                E.eq("s-ordered function of a Gaussian state", O.poly_value(A_, b_, c_, v), dens * (2 * h) ** m, shape=False)
                if s == 0:
                    W = d.wigner
                    A_, b_, c_ = (np.asarray(v) for v in W.triple)
                    E.eq("State.wigner of a Gaussian state", O.poly_value(A_, b_, c_, xi), dens, shape=False)
                    if m == 1:
                        E.eq("value of State.wigner", np.asarray(W(*(np.array(v) for v in xi))), dens, shape=False)
            # quadrature marginal is the normal density
            Rm = np.zeros((m, 2 * m))
            for k in range(m):
                Rm[k, k], Rm[k, m + k] = np.cos(phi), np.sin(phi)
            pts = [E.rng.normal(size=2) for _ in range(m)]
            got = np.asarray(d.quadrature_distribution(*pts, phi=phi))
            Vq, mq = Rm @ cov @ Rm.T, Rm @ mu
            ref = []
            for v in itertools.product(*pts):
                dv = np.array(v) - mq
                ref.append(np.exp(-0.5 * dv @ np.linalg.solve(Vq, dv)) / np.sqrt(np.linalg.det(2 * np.pi * Vq)))
            E.eq("quadrature distribution of a Gaussian state", got, np.array(ref))
            # reduced phase-space function = reduced state's
            if m > 1:
                E.eq("fewer modes", np.asarray(d[md[:1]].quadrature_distribution(pts[0], phi=phi)),
                     np.array([np.exp(-0.5 * (v - mq[0]) ** 2 / Vq[0, 0]) / np.sqrt(2 * np.pi * Vq[0, 0]) for v in pts[0]]))
            ap = d.to_quadrature(phi)
            back = d.to_quadrature(phi) >> BtoQ(md, phi).inverse() if False else None
            q1 = L.Ket.from_bargmann(md, rtriple(E.rng, m, (), ()))
            qq = q1 >> BtoQ(md, phi)
            bk = qq >> BtoQ(md, phi).inverse()
            for nm, u, v in zip("Abc", bk.ansatz.triple, q1.ansatz.triple):
                E.eq("BtoQ inverse: " + nm, np.asarray(u), np.asarray(v))
            bk = x >> BtoChar(md, s).inverse()
            for nm, u, v in zip("Abc", bk.ansatz.triple, t):
                E.eq("BtoChar inverse: " + nm, np.asarray(u), np.asarray(v), tol=1e-6)
    R.bounded("physical Gaussian states, many modes", native_dm, ["lab.BtoChar", "lab.BtoPS", "lab.BtoQ", "State.wigner", "State.quadrature_distribution", "BtoQ.inverse", "BtoChar.inverse"],
              num=20, bound="1-3 modes, random hbar, angle and ordering parameter")

    def multi(E):
        """per-mode angles and batches of transforms"""
        h = float(E.rng.uniform(0.4, 3))
        k = E.pick(2, 3)
        phis = E.rng.uniform(-4, 4, size=k)
        m = E.pick(1, 2)
        with settings(HBAR=h):
            B = BtoQ(tuple(range(m)), phis)
            A, b, c = (np.asarray(x) for x in B.ansatz.triple)
            for i in range(k):
                r = kernel_q(E, m, phis[i], h)
                E.eq("batched BtoQ A", A[i], r[0])
                E.eq("batched BtoQ b", b[i], r[1])
                E.eq("batched BtoQ c", c[i], r[2], shape=False)
            ss = E.rng.uniform(-2, 0.3, size=k)
            C = BtoChar(tuple(range(m)), ss)
            A, b, c = (np.asarray(x) for x in C.ansatz.triple)
            for i in range(k):
                K = char_fn(E, m, ss[i])
                # map wires: out bra g*, in bra (rho's bra var conj -> out of D), out ket g, in ket
                perm = list(range(m)) + list(range(2 * m, 3 * m)) + list(range(m, 2 * m)) + list(range(3 * m, 4 * m))
                E.eq("batched BtoChar A", A[i], K[0][np.ix_(perm, perm)])
                E.eq("batched BtoChar c", c[i], 1, shape=False)
    R.bounded("batched transforms", multi, ["lab.BtoQ", "lab.BtoChar"], num=8, bound="1-2 modes, batches of 2-3 angles and ordering parameters")

    def poly(E):
        """states with a polynomial part, batches and superpositions: the phase-space ansatz takes the Wigner value of the number-basis operator"""
        h = float(E.rng.uniform(0.4, 3))
        bs = E.pick((), (2,), (2, 2))
        kind = E.pick("ket", "dm", "dm", "lin_sup")
        with settings(HBAR=h):
            if kind == "dm":
                sh = tuple(int(v) for v in E.rng.integers(1, 5, size=2))
                rho = E.rng.normal(size=bs + sh) + 1j * E.rng.normal(size=bs + sh)     # bra first, any operator
                st = L.DM.from_ansatz((3,), AA(rho, batch_dims=len(bs))).to_bargmann()
                rk = np.swapaxes(rho, -1, -2)
            elif kind == "ket":
                n = int(E.rng.integers(1, 6))
                v = E.rng.normal(size=bs + (n,)) + 1j * E.rng.normal(size=bs + (n,))
                st = L.Ket.from_ansatz((3,), AA(v, batch_dims=len(bs))).to_bargmann().dm()
                rk = v[..., :, None] * v.conj()[..., None, :]
            else:
                bs = ()
                a1, a2 = complex(E.rng.normal(), E.rng.normal()), complex(E.rng.normal(), E.rng.normal())
                st = L.Coherent((3,), a1) + L.Coherent((3,), a2)
                N = 40
                v = sum(np.exp(-abs(a) ** 2 / 2) * np.array([a**n / np.sqrt(float(__import__("math").factorial(n))) for n in range(N)]) for a in (a1, a2))
                rk = np.outer(v, v.conj())
            W = st.wigner
            E.note(kind, "batch", bs, "hbar", h)
            for _ in range(3):
                x, p = E.rng.normal(size=2)
                al = (x + 1j * p) / np.sqrt(2 * h)
                N = max(rk.shape[-2:])
                D = lag_disp(N, 2 * al)[:rk.shape[-1], :rk.shape[-2]]
                ref = np.einsum("...mn,nm,m->...", rk, D, (-1.0) ** np.arange(rk.shape[-2])) / (np.pi * h)
                E.eq("Wigner function of a " + kind, np.asarray(W(np.array(x), np.array(p))), ref, tol=1e-6, shape=False)
            if kind == "lin_sup":
                return
            # an ansatz with Gaussian and polynomial part: PS is a change of variables
            der = E.pick((), (2, 3), (3, 2), (1, 4))
            t = rtriple(E.rng, 2, bs, der)
            P = PE(*t).PS
            Ap, bp, cp = (np.asarray(v) for v in P.triple)
            if der == ():
                for i in np.ndindex(*bs):
                    x, p = E.rng.normal(size=2)
                    be = (x + 1j * p) / np.sqrt(2 * h)
                    E.eq("PS of a Gaussian ansatz", O.poly_value(Ap[i], bp[i], cp[i], [x, p]),
                         O.poly_value(t[0][i], t[1][i], t[2][i], [be.conj(), be]) / (2 * h), shape=False)
    R.bounded("Wigner function of number-basis operators, batches, superpositions", poly, ["State.wigner", "PolyExpAnsatz.PS", "fock_utils.c_in_PS", "fock_utils.gamma_matrix"], num=20, bound="cutoffs up to 5, one mode")

    def ps_poly(E):
        """PS of an ansatz with polynomial part: change of variables, including the derived ones"""
        h = float(E.rng.uniform(0.4, 3))
        bs = E.pick((), (2,), (2, 2))
        der = E.pick((2, 3), (3, 2), (1, 4), (2, 2), (3, 3))
        t = rtriple(E.rng, 2, bs, der)
        with settings(HBAR=h):
            P = PE(*t).PS
        Ap, bp, cp = (np.asarray(v) for v in P.triple)
        for i in np.ndindex(*bs):
            x, p = E.rng.normal(size=2)
            be = (x + 1j * p) / np.sqrt(2 * h)
            E.eq("value", O.poly_value(Ap[i], bp[i], cp[i], [x, p]), O.poly_value(t[0][i], t[1][i], t[2][i], [be.conj(), be]) / (2 * h), shape=False)
    R.bounded("PS with polynomial part", ps_poly, ["PolyExpAnsatz.PS", "fock_utils.c_in_PS", "fock_utils.gamma_matrix"], num=20, bound="polynomial shapes up to (3,3), batches")

    def plots(E):
        h = float(E.rng.uniform(0.5, 2))
        a = complex(E.rng.normal(), E.rng.normal()) * 0.7
        with settings(HBAR=h):
            st = L.Coherent(3, a) if E.rng.random() < .5 else L.DisplacedSqueezed(3, a, 0.3, 0.9).dm() >> L.Attenuator(3, 0.7)
            _, cov, mu = (None, *(np.asarray(v) for v in st.phase_space(0)[:2]))

            def dens(x, p):
                v = np.array([x, p]) - mu
                return np.exp(-0.5 * v @ np.linalg.solve(cov, v)) / np.sqrt(np.linalg.det(2 * np.pi * cov))
            kw = dict(xbounds=(-2, 2.5), pbounds=(-1.5, 2), resolution=6, return_fig=True)
            f2 = st.visualize_2d(**kw)
            hm = [g for g in f2.data if g.type == "heatmap"][0]
            xs, ys, zs = np.asarray(hm.x), np.asarray(hm.y), np.asarray(hm.z)
            E.eq("values of the 2d plot", zs, np.array([[dens(x, y) for x in xs] for y in ys]), tol=2e-3)
    R.bounded("plotted Wigner function", plots, ["State.visualize_2d"], num=3, bound="Gaussian single-mode states")

    def plot3(E):
        h = float(E.rng.uniform(0.5, 2))
        a = complex(E.rng.normal(), E.rng.normal()) * 0.7
        with settings(HBAR=h):
            st = L.Coherent(3, a)
            f3 = st.visualize_3d(xbounds=(-2, 2.5), pbounds=(-1.5, 2), resolution=6, return_fig=True)
            sf = [g for g in f3.data if g.type == "surface"][0]
            X, Y, Z = (np.asarray(v) for v in (sf.x, sf.y, sf.z))
            m = np.sqrt(2 * h) * np.array([a.real, a.imag])
            dens = np.vectorize(lambda x, p: np.exp(-((x - m[0]) ** 2 + (p - m[1]) ** 2) / h) / (np.pi * h))
            # a surface draws z[i][j] at (x[j], y[i])
            E.eq("axes", np.real(Z), dens(*(np.meshgrid(X, Y) if X.ndim == 1 else (X, Y))), tol=2e-3)
    R.bounded("3d plot of the Wigner function", plot3, ["State.visualize_3d"], num=2, bound="coherent states")
