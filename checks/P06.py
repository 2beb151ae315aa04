"""P06: conversions between symplectic / X,Y / covariance+means descriptions and Bargmann triples."""
import numpy as np
import oracle as O
from common import *


def hb(E, settings, fixed=None):
    """every value of hbar"""
    return E.pos("hbar", 0.4, 3.0) if fixed is None else fixed


class _builtin_complex:
    """`complex(x)` of an exact scalar is the scalar itself"""
    def __init__(self, E, *mods):
        self.E, self.mods = E, mods

    def __enter__(self):
        if self.E.sym:
            for m in self.mods:
                m.complex = lambda x, *a: x if hasattr(x, "f") else complex(x, *a)

    def __exit__(self, *a):
        if self.E.sym:
            for m in self.mods:
                del m.complex


def chol(E, n, p="L"):
    L = [[None] * n for _ in range(n)]
    for i in range(n):
        for j in range(n):
            L[i][j] = E.pos(f"{p}{i}{j}", 0.6, 1.5) if i == j else (E.real(f"{p}{i}{j}", -.5, .5) if j < i else 0 * E.pos(f"{p}00") if E.sym else 0.0)
    return E.arr(L)


def register(R):
    from mrmustard import lab as L
    from mrmustard import math, settings
    from mrmustard.physics import triples as TR, bargmann_utils as BU
    from mrmustard.physics import gaussian_integrals as GI
    R.explanation = ("the conversion functions are executed on free matrices; the result must satisfy the defining relations of the described object "
                     "(operator relations of a unitary, moments of every coherent input of a channel, moments and trace of a state) and converting back must return the original")

    class with_hbar:
        def __init__(self, h):
            self.h = h

        def __enter__(self):
            self.old = settings.HBAR
            settings.HBAR = self.h

        def __exit__(self, *a):
            settings.HBAR = self.old

    # ------------------------------------------------------------------ unitaries
    def fam(E, m, kind):
        if m == 1:
            return euler1(E)
        if kind == "passive":
            return orth_symp(E, u2(E))
        if kind == "squeezed then passive":
            r1, r2 = E.squeeze("r1"), E.squeeze("r2")
            z = 0 * r1
            D = E.arr([[E.exp(-r1), z, z, z], [z, E.exp(-r2), z, z], [z, z, E.exp(r1), z], [z, z, z, E.exp(r2)]])
            return orth_symp(E, u2(E)) @ D
        if kind == "passive then squeezed":
            r1, r2 = E.squeeze("r1"), E.squeeze("r2")
            z = 0 * r1
            D = E.arr([[E.exp(-r1), z, z, z], [z, E.exp(-r2), z, z], [z, z, E.exp(r1), z], [z, z, z, E.exp(r2)]])
            return D @ orth_symp(E, u2(E))
        # local squeezers with rotations, beam splitter, local squeezers: real interferometers on both sides
        c, s = cs(E, E.angle("th"))
        c2, s2 = cs(E, E.angle("ph"))
        r1, r2 = E.squeeze("r1"), E.squeeze("r2")
        z = 0 * r1
        D = E.arr([[E.exp(-r1), z, z, z], [z, E.exp(-r2), z, z], [z, z, E.exp(r1), z], [z, z, z, E.exp(r2)]])
        B1 = E.arr([[c, -s, z, z], [s, c, z, z], [z, z, c, -s], [z, z, s, c]])
        B2 = E.arr([[c2, z, z, -s2], [z, c2, -s2, z], [z, s2, c2, z], [s2, z, z, c2]])
        return B2 @ D @ B1

    def s2a(m, kind):
        def f(E):
            S = fam(E, m, kind)
            A = E.arr(BU.symplectic2Au(S))
            O.unitary_relations(E, "symplectic2Au", (A, np.zeros(2 * m, dtype=complex), 1), S)
            E.eq("au2Symplectic undoes symplectic2Au", E.arr(BU.au2Symplectic(A)), S)
        return f
    R.ob("symplectic2Au, one mode", s2a(1, ""), ["bargmann_utils.symplectic2Au", "bargmann_utils.au2Symplectic"], bound="one mode, every symplectic matrix")
    for k in ("passive", "squeezed then passive", "passive then squeezed", "two beam splitters around squeezers"):
        R.ob(f"symplectic2Au, two modes, {k}", s2a(2, k), ["bargmann_utils.symplectic2Au", "bargmann_utils.au2Symplectic"], bound="two modes, the named family for every parameter")

    def s2a_general(n):
        """no parametrisation: the defining relations hold for ANY matrix with invertible S_1 block that obeys the symplectic condition used: checked natively"""
        def f(E):
            S = O.rand_symplectic(E.rng, n, E.pick(0.3, 1.0))
            bs = E.pick((), (2,), (2, 2))
            k = int(np.prod(bs))
            Ss = np.stack([O.rand_symplectic(E.rng, n, 0.7) for _ in range(k)]).reshape(bs + (2 * n, 2 * n)) if bs else S
            As = np.asarray(BU.symplectic2Au(Ss))
            Sb = np.asarray(BU.au2Symplectic(As))
            E.eq("round trip", Sb, Ss)
            md = tuple(sorted(E.rng.choice(9, size=n, replace=False).tolist()))
            U = L.Unitary.from_symplectic(md, Ss)
            E.true("modes of the unitary", U.modes == md)
            for i, t in each(E, U, bs):
                O.unitary_relations(E, "from_symplectic", t, Ss[i])
                O.unitarity(E, "from_symplectic", t)
            E.eq("Unitary.symplectic", np.asarray(U.symplectic), Ss)
        return f
    for n in (1, 2, 3, 4):
        R.bounded(f"symplectic unitaries, {n} modes", s2a_general(n), ["bargmann_utils.symplectic2Au", "bargmann_utils.au2Symplectic", "Unitary.from_symplectic", "Unitary.symplectic"], num=4, bound=f"{n} modes, batches up to (2,2)")

    def compose(E):
        """the symplectic matrix of a composition is the product, with displacements and unsorted overlap of modes"""
        n = E.pick(2, 3)
        md = sorted(E.rng.choice(9, size=n, replace=False).tolist())
        S1 = O.rand_symplectic(E.rng, n, 0.4)
        k = sorted(E.rng.choice(n, size=n - 1, replace=False).tolist())
        S2 = O.rand_symplectic(E.rng, n - 1, 0.4)
        full = np.eye(2 * n)
        ix = k + [n + j for j in k]
        full[np.ix_(ix, ix)] = S2
        W = L.Unitary.from_symplectic(tuple(md), S1) >> L.Unitary.from_symplectic(tuple(md[j] for j in k), S2)
        E.eq("symplectic of a composition", np.asarray(W.symplectic), full @ S1)
        V = L.Unitary.from_symplectic(tuple(md), S1)
        E.eq("symplectic of the inverse", np.asarray(V.inverse().symplectic), np.linalg.inv(S1))
        E.eq("symplectic of the dual", np.asarray((V >> V.inverse()).symplectic), np.eye(2 * n))
        D = L.Dgate(md[0], 0.3 + 0.2j)
        E.eq("displacement has trivial symplectic part", np.asarray((V >> D).symplectic), S1)
    R.bounded("symplectic of composed unitaries", compose, ["Unitary.__rshift__", "Unitary.symplectic", "Unitary.inverse"], num=6, bound="2-3 modes")

    # ------------------------------------------------------------------ channels
    def xy(withd):
        def f(E):
            h = E.pos("hbar", 0.4, 3.0)
            X = E.rmat(2, 2, "x")
            Lm = chol(E, 2)
            Y = Lm @ Lm.T * h
            if not E.sym:
                Y = Y + 3 * h * np.eye(2)
            d = E.arr([E.real("d0"), E.real("d1")]) if withd else None
            with with_hbar(h), _builtin_complex(E, TR):
                t = TR.XY_to_channel_Abc(X, Y, d) if withd else TR.XY_to_channel_Abc(X, Y)
                A = E.arr(t[0])
                if not withd:
                    X2, Y2 = BU.XY_of_channel(A)
                    E.eq("XY_of_channel X", E.arr(X2), X)
                    E.eq("XY_of_channel Y", E.arr(Y2), Y)
            # moments of the image of a coherent input, as documented
            al = E.arr([E.cplx("al")])
            n2 = sum(a * E.conj(a) for a in al)
            Z = E.arr(np.zeros((2, 2), dtype=complex))
            inp = (Z, np.concatenate([E.conj(al), al]), E.exp(-n2))
            A_, b_, c_ = O.contract(E, inp, (A, E.arr(t[1]), item(E.arr(t[2]))), [0, 1], [1, 3])
            mu, V = O.moments(E, A_, b_, h)
            s = E.sqrt(h * 2)
            re = [(a + E.conj(a)) * half(E) * s for a in al]
            im = [(a - E.conj(a)) / (I_(E) * 2) * s for a in al]
            E.eq("means", mu, X @ E.arr(re + im) + (d if withd else 0))
            E.eq("covariance", V, X @ X.T * (h * half(E)) + Y)
        return f
    R.ob("X,Y of a channel and back", xy(False), ["triples.XY_to_channel_Abc", "bargmann_utils.XY_of_channel"], bound="one mode, every X, positive Y, hbar")
    R.ob("X,Y,d to channel", xy(True), ["triples.XY_to_channel_Abc"], bound="one mode, every X, positive Y, d, hbar")

    def xy_native(E):
        m = E.pick(1, 2, 3)
        bs = E.pick((), (2,), (2, 2))
        h = float(E.rng.uniform(0.4, 3))
        X = E.rng.normal(size=bs + (2 * m, 2 * m)) * 0.6
        M = E.rng.normal(size=bs + (2 * m, 2 * m)) * 0.5
        Y = (M @ np.swapaxes(M, -1, -2) + 2.5 * np.eye(2 * m)) * h
        md = tuple(sorted(E.rng.choice(9, size=m, replace=False).tolist()))
        E.note("modes", md, "batch", bs, "hbar", h)
        with settings(HBAR=h):
            A = np.asarray(TR.XY_to_channel_Abc(X, Y)[0])
            c = L.Channel.from_XY(md, md, X, Y)
            E.eq("channel matrix", np.asarray(c.ansatz.A), A)
            E.true("modes", c.modes == md)
            for i in np.ndindex(*bs):
                X2, Y2 = BU.XY_of_channel(A[i])
                E.eq("X", np.asarray(X2), X[i], tol=1e-6)
                E.eq("Y", np.asarray(Y2), Y[i], tol=1e-6)
            if bs == ():
                X2, Y2 = c.XY
                E.eq("Channel.XY X", np.asarray(X2), X, tol=1e-6)
                E.eq("Channel.XY Y", np.asarray(Y2), Y, tol=1e-6)
                # a unitary seen as a channel
                S = O.rand_symplectic(E.rng, m, 0.5)
                U = L.Unitary.from_symplectic(md, S)
                Uc = U.contract(U.adjoint)
                X3, Y3 = BU.XY_of_channel(np.asarray(Uc.ansatz.A))
                E.eq("X of a unitary", np.asarray(X3), S, tol=1e-6)
                E.eq("Y of a unitary", np.asarray(Y3), 0 * S, tol=1e-6)
                # composition
                X4 = E.rng.normal(size=(2 * m, 2 * m)) * 0.6
                Y4 = (np.eye(2 * m) * 3) * h
                XX, YY = (c >> L.Channel.from_XY(md, md, X4, Y4)).XY
                E.eq("X of a composition", np.asarray(XX), X4 @ X, tol=1e-6)
                E.eq("Y of a composition", np.asarray(YY), X4 @ Y @ X4.T + Y4, tol=1e-6)
    R.bounded("X,Y of many-mode channels", xy_native, ["triples.XY_to_channel_Abc", "bargmann_utils.XY_of_channel", "Channel.from_XY", "Channel.XY"], num=10, bound="1-3 modes, batches up to (2,2)")

    # ------------------------------------------------------------------ states
    def w2b(m):
        def f(E):
            h = E.pos("hbar", 0.4, 3.0)
            Lm = chol(E, 2 * m)
            cov = Lm @ Lm.T * h
            mu = E.arr([E.real(f"m{k}") for k in range(2 * m)])
            with with_hbar(h):
                A, b, c = BU.wigner_to_bargmann_rho(cov, mu)
            A, b, c = E.arr(A), E.arr(b), item(E.arr(c))
            m2, V = O.moments(E, A, b, h)
            E.eq("means", m2, mu)
            E.eq("covariance", V, cov)
            E.eq("symmetric A", A, A.T)
            r = O.integrate(E, A, b, c, [(k, m + k) for k in range(m)])
            E.eq("trace one", r[2], 1, shape=False)
        return f
    R.ob("covariance and means to density matrix, one mode", w2b(1), ["bargmann_utils.wigner_to_bargmann_rho", "husimi.wigner_to_husimi", "husimi.pq_to_aadag"], bound="one mode, every positive covariance, means, hbar")

    def w2b_diag(E):
        """two modes: correlated covariance of two-mode squeezed thermal type, free entries"""
        h = E.pos("hbar", 0.4, 3.0)
        a, b, c1, c2 = E.pos("a", 1.5, 2), E.pos("b", 1.5, 2), E.real("c1", -.5, .5), E.real("c2", -.5, .5)
        z = 0 * a
        cov = E.arr([[a, c1, z, z], [c1, b, z, z], [z, z, a, c2], [z, z, c2, b]]) * h
        mu = E.arr([E.real(f"m{k}") for k in range(4)])
        with with_hbar(h):
            A, bb, c = BU.wigner_to_bargmann_rho(cov, mu)
        A, bb, c = E.arr(A), E.arr(bb), item(E.arr(c))
        m2, V = O.moments(E, A, bb, h)
        E.eq("means", m2, mu)
        E.eq("covariance", V, cov)
        E.eq("trace one", O.integrate(E, A, bb, c, [(0, 2), (1, 3)])[2], 1, shape=False)
    R.ob("covariance and means to density matrix, two modes", w2b_diag, ["bargmann_utils.wigner_to_bargmann_rho"], bound="two modes, standard-form covariance, means, hbar")

    def psi1(E):
        h = E.pos("hbar", 0.4, 3.0)
        S = euler1(E)
        cov = S @ S.T * (h * half(E))
        mu = E.arr([E.real("m0"), E.real("m1")])
        with with_hbar(h):
            A, b, c = BU.wigner_to_bargmann_psi(cov, mu)
        A, b, c = E.arr(A), E.arr(b), item(E.arr(c))
        t = O.dm_triple(E, (A, b, c))
        m2, V = O.moments(E, t[0], t[1], h)
        E.eq("means", m2, mu)
        E.eq("covariance", V, cov)
        if not E.sym:
            E.eq("norm one", O.integrate(E, t[0], t[1], t[2], [(0, 1)])[2], 1, shape=False)
    R.ob("covariance and means to ket, one mode", psi1, ["bargmann_utils.wigner_to_bargmann_psi"], bound="one mode, every pure covariance, means, hbar")

    def ps(E):
        """phase_space(0) of a density matrix with free A, b, c"""
        m = 1
        h = E.pos("hbar", 0.4, 3.0)
        if E.sym:
            A = E.csym(2 * m, "A")
            b = E.cvec(2 * m, "b")
            c = E.cplx("c")
        else:
            cov, mu = O.rand_gauss_dm(E.rng, m)
            A, b, c = (np.asarray(x) for x in O.triple_from_moments(cov, mu, 1.0))
            k = complex(E.rng.normal(), E.rng.normal())
            c = c * k
        with with_hbar(h):
            st = L.DM.from_bargmann((3,), (A, b, c))
            cov, mu, co = st.phase_space(s=0)
        m2, V = O.moments(E, A, b, h)
        E.eq("covariance", E.arr(cov), V)
        E.eq("means", E.arr(mu), m2)
        O.eqc(E, "coefficient is the trace", item(E.arr(co)), O.integrate(E, A, b, c, [(0, 1)])[2])
    R.ob("phase_space of a density matrix", ps, ["State.phase_space", "bargmann_utils.bargmann_Abc_to_phasespace_cov_means", "lab.BtoChar", "CircuitComponent.contract"], bound="one mode, every A, b, c, hbar")

    def native_states(E):
        m = E.pick(1, 2, 3)
        h = float(E.rng.uniform(0.4, 3))
        md = tuple(sorted(E.rng.choice(9, size=m, replace=False).tolist()))
        k = float(E.rng.uniform(0.2, 2))
        E.note("modes", md, "hbar", h)
        with settings(HBAR=h):
            cov, mu = O.rand_gauss_dm(E.rng, m)
            cov, mu = cov * h, mu * np.sqrt(h)
            st = L.DM.from_phase_space(md, (cov, mu, k))
            A, b, c = (np.asarray(x) for x in st.ansatz.triple)
            m2, V = O.moments(E, A, b, h)
            E.eq("from_phase_space covariance", V, cov)
            E.eq("from_phase_space means", m2, mu)
            E.eq("from_phase_space trace", O.integrate(E, A, b, c, [(i, m + i) for i in range(m)])[2], k, shape=False)
            cov2, mu2, c2 = st.phase_space(s=0)
            E.eq("phase_space covariance", np.asarray(cov2), cov)
            E.eq("phase_space means", np.asarray(mu2), mu)
            E.eq("phase_space coefficient", np.asarray(c2), k, shape=False)
            # sub-systems: moments of the reduced state
            if m > 1:
                j = sorted(E.rng.choice(m, size=m - 1, replace=False).tolist())
                ix = j + [m + x for x in j]
                cr, mr, _ = st[tuple(md[x] for x in j)].phase_space(s=0)
                E.eq("reduced covariance", np.asarray(cr), cov[np.ix_(ix, ix)])
                E.eq("reduced means", np.asarray(mr), mu[ix])
            S = O.rand_symplectic(E.rng, m, 0.5)
            pc = S @ S.T * h / 2
            kt = L.Ket.from_phase_space(md, (pc, mu, 1.0))
            t = tuple(np.asarray(x) for x in kt.ansatz.triple)
            d = O.dm_triple(E, t)
            m2, V = O.moments(E, d[0], d[1], h)
            E.eq("ket covariance", V, pc)
            E.eq("ket means", m2, mu)
            E.eq("ket norm", O.integrate(E, *d, [(i, m + i) for i in range(m)])[2], 1, shape=False)
            c3, m3, k3 = kt.phase_space(s=0)
            E.eq("ket phase_space covariance", np.asarray(c3), pc)
            E.eq("ket phase_space means", np.asarray(m3), mu)
            E.eq("ket phase_space coefficient", np.asarray(k3), 1, shape=False)
            # acting with a unitary in the Bargmann picture transforms the moments by its symplectic matrix
            S2 = O.rand_symplectic(E.rng, m, 0.5)
            c4, m4, _ = (st >> L.Unitary.from_symplectic(md, S2)).phase_space(s=0)
            E.eq("covariance after a unitary", np.asarray(c4), S2 @ cov @ S2.T)
            E.eq("means after a unitary", np.asarray(m4), S2 @ mu)
            X = E.rng.normal(size=(2 * m, 2 * m)) * 0.6
            Y = np.eye(2 * m) * 2.5 * h
            c5, m5, _ = (kt >> L.Channel.from_XY(md, md, X, Y)).phase_space(s=0)
            E.eq("covariance after a channel", np.asarray(c5), X @ pc @ X.T + Y)
            E.eq("means after a channel", np.asarray(m5), X @ mu)
            # batch
            n = 2
            covs, mus = zip(*(O.rand_gauss_dm(E.rng, m) for _ in range(n)))
            ts = [O.triple_from_moments(cv * h, mm * np.sqrt(h), h) for cv, mm in zip(covs, mus)]
            bt = L.DM.from_bargmann(md, tuple(np.stack([np.asarray(t[q]) for t in ts]) for q in range(3)))
            cb, mb, kb = bt.phase_space(s=0)
            E.eq("batched covariance", np.asarray(cb), np.stack(covs) * h)
            E.eq("batched means", np.asarray(mb), np.stack(mus) * np.sqrt(h))
            E.eq("batched coefficients", np.asarray(kb), np.ones(n))
            # ordering parameter: covariance of the s-ordered function
            s = float(E.rng.uniform(-2, 0.3))
            cs_, ms_, _ = st.phase_space(s=s)
            E.eq("s-ordered covariance", np.asarray(cs_), cov - s * h / 2 * np.eye(2 * m))
            E.eq("s-ordered means", np.asarray(ms_), mu)
    R.bounded("states, many modes", native_states, ["DM.from_phase_space", "Ket.from_phase_space", "State.phase_space", "DM.__getitem__"], num=10, bound="1-3 modes")
