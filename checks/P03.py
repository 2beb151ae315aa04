"""P03: built-in Gaussian states satisfy their defining relations (exact, all parameters)."""
import numpy as np
import oracle as O
from common import *


def triples_of(E, obj):
    t = obj.ansatz.triple
    return E.arr(t[0]), E.arr(t[1]), E.arr(t[2])


def ket_norm(E, label, t):
    m = t[0].shape[-1]
    _, _, n = O.integrate(E, *O.dm_triple(E, t), [(k, m + k) for k in range(m)])
    E.eq(label + ": norm one", n, 1, shape=False)


def dm_ok(E, label, t):
    A, b, c = t
    m = A.shape[-1] // 2
    p = list(range(m, 2 * m)) + list(range(m))
    E.eq(label + ": Hermitian A", E.conj(A[np.ix_(p, p)]), A)
    E.eq(label + ": Hermitian b", E.conj(b[p]), b)
    E.eq(label + ": Hermitian c", E.conj(c), c, shape=False)
    _, _, n = O.integrate(E, A, b, c, [(k, m + k) for k in range(m)])
    E.eq(label + ": trace one", n, 1, shape=False)


def register(R):
    R.explanation = ("every constructor is executed on free parameters (complex amplitudes, squeezing, angles, occupations) and its "
                     "triple must satisfy the linear relations of the documented state, normalisation and Hermiticity, per batch layout")
    from mrmustard import lab as L
    from mrmustard.physics import triples as TR

    def coherent(bs):
        def f(E):
            al = param(E, "cplx", "al", bs)
            for i, (A, b, c) in each(E, L.Coherent(0, alpha=al), bs):
                a = at(al, i)
                E.eq("a|alpha> = alpha|alpha>", A, np.zeros((1, 1)))
                E.eq("eigenvalue", b[0], a, shape=False)
                E.eq("vacuum amplitude is exp(-|alpha|^2/2)", c, E.exp(-(a * E.conj(a)) / 2), shape=False)
                ket_norm(E, "coherent", (A, b, c))
        return f
    for bs in BATCHES1:
        R.ob(f"Coherent batch{bs}", coherent(bs), ["lab.Coherent", "triples.coherent_state_Abc"])

    def bargmann(bs):
        def f(E):
            al = param(E, "cplx", "al", bs)
            for i, (A, b, c) in each(E, L.BargmannEigenstate(0, alpha=al), bs):
                E.eq("aF = alpha F", A, np.zeros((1, 1)))
                E.eq("eigenvalue", b[0], at(al, i), shape=False)
                E.eq("F(0) = 1", c, 1, shape=False)
        return f
    for bs in BATCHES1:
        R.ob(f"BargmannEigenstate batch{bs}", bargmann(bs), ["lab.BargmannEigenstate", "triples.bargmann_eigenstate_Abc"])

    def squeezed(b1, b2):
        def f(E):
            r, ph = param(E, "squeeze", "r", b1), param(E, "angle", "phi", b2)
            bs = bshape(b1, b2)
            for i, (A, b, c) in each(E, L.SqueezedVacuum(0, r=r, phi=ph), bs):
                C, Sh = ch(E, at(r, i))
                e = expi(E, at(ph, i))
                # (a cosh r + a^dag e^{i phi} sinh r)|r,phi> = 0
                E.eq("S a S^dag annihilates", A[0, 0] * C + e * Sh, 0, shape=False)
                E.eq("no displacement", b, np.zeros(1))
                E.eq("vacuum amplitude", c * c * C, 1, shape=False)
                if not E.sym:
                    E.true("positive vacuum amplitude", np.real(c) > 0)
                ket_norm(E, "squeezed", (A, b, c))
        return f
    for b1, b2 in BATCHES2:
        R.ob(f"SqueezedVacuum batch{b1}{b2}", squeezed(b1, b2), ["lab.SqueezedVacuum", "triples.squeezed_vacuum_state_Abc"])

    def dsq(b0, b1, b2):
        def f(E):
            al, r, ph = param(E, "cplx", "al", b0), param(E, "squeeze", "r", b1), param(E, "angle", "phi", b2)
            bs = bshape(b0, b1, b2)
            for i, (A, b, c) in each(E, L.DisplacedSqueezed(0, alpha=al, r=r, phi=ph), bs):
                a, (C, Sh), e = at(al, i), ch(E, at(r, i)), expi(E, at(ph, i))
                # D S a S^dag D^dag = cosh r (a - alpha) + e^{i phi} sinh r (a^dag - alpha*)
                E.eq("annihilator: creation part", A[0, 0] * C + e * Sh, 0, shape=False)
                E.eq("annihilator: constant part", b[0] * C, C * a + e * Sh * E.conj(a), shape=False)
                ket_norm(E, "displaced squeezed", (A, b, c))
                # <0|D S|0>: real positive at alpha=0; phase fixed by <0|D(al)S|0> = exp(-(|al|^2+al*^2 e tanh)/2)/sqrt(cosh)
                t = Sh / C
                O.eqc(E, "vacuum amplitude", c, (E.exp(-(a * E.conj(a)) - E.conj(a) * E.conj(a) * e * t) / C) if E.sym else
                      np.exp(-0.5 * (abs(a) ** 2 + np.conj(a) ** 2 * e * t)) / np.sqrt(C))
        return f
    for bb in [((), (), ()), ((2,), (2,), (2,)), ((2,), (), ()), ((), (2,), ()), ((), (), (2,)), ((2, 1), (3,), ())]:
        R.ob(f"DisplacedSqueezed batch{bb}", dsq(*bb), ["lab.DisplacedSqueezed", "triples.displaced_squeezed_vacuum_state_Abc"])

    def tmsv(b1, b2):
        def f(E):
            r, ph = param(E, "squeeze", "r", b1), param(E, "angle", "phi", b2)
            bs = bshape(b1, b2)
            for i, (A, b, c) in each(E, L.TwoModeSqueezedVacuum((0, 1), r=r, phi=ph), bs):
                C, Sh = ch(E, at(r, i))
                e = expi(E, at(ph, i))
                # (a1 cosh r - a2^dag e^{i phi} sinh r) = 0 and 1<->2
                E.eq("a1 relation", A[0] * C, E.arr([0 * C, e * Sh]))
                E.eq("a2 relation", A[1] * C, E.arr([e * Sh, 0 * C]))
                E.eq("no displacement", b, np.zeros(2))
                E.eq("vacuum amplitude", c * C, 1, shape=False)
                ket_norm(E, "tmsv", (A, b, c))
        return f
    for b1, b2 in BATCHES2:
        R.ob(f"TwoModeSqueezedVacuum batch{b1}{b2}", tmsv(b1, b2), ["lab.TwoModeSqueezedVacuum", "triples.two_mode_squeezed_vacuum_state_Abc"])

    def thermal(bs):
        def f(E):
            n = param(E, "pos", "n", bs)
            for i, (A, b, c) in each(E, L.Thermal(0, nbar=n), bs):
                v = at(n, i)
                # rho = sum_k nbar^k/(nbar+1)^{k+1} |k><k|
                q = v / (v + 1)
                E.eq("geometric distribution", A, E.arr([[0 * q, q], [q, 0 * q]]))
                E.eq("no displacement", b, np.zeros(2))
                E.eq("vacuum probability", c * (v + 1), 1, shape=False)
                dm_ok(E, "thermal", (A, b, c))
        return f
    for bs in BATCHES1:
        R.ob(f"Thermal batch{bs}", thermal(bs), ["lab.Thermal", "triples.thermal_state_Abc"])

    def vacuum(m):
        def f(E):
            modes = tuple(range(m))
            A, b, c = triples_of(E, L.Vacuum(modes))
            E.eq("annihilated by every a", A, np.zeros((m, m)))
            E.eq("no displacement", b, np.zeros(m))
            E.eq("normalised", c, 1, shape=False)
        return f
    for m in (1, 2, 3, 5):
        R.ob(f"Vacuum {m} modes", vacuum(m), ["lab.Vacuum", "triples.vacuum_state_Abc"], num=1, bound=f"{m} modes")

    def quad(b1, b2):
        def f(E):
            from mrmustard import settings
            for hb in (1, 2) if E.sym else (1.0, 2.0, 0.7):
                with settings(HBAR=hb):
                    x, ph = param(E, "real", "x", b1), param(E, "angle", "phi", b2)
                    bs = bshape(b1, b2)
                    for i, (A, b, c) in each(E, L.QuadratureEigenstate(0, x=x, phi=ph), bs):
                        X, e = at(x, i), expi(E, at(ph, i))
                        # sqrt(hbar/2)(a e^{-i phi} + a^dag e^{i phi}) F = x F ; a F = (A z + b) F
                        s = E.sqrt(E._s.Fraction(hb, 2)) if E.sym else np.sqrt(hb / 2)
                        E.eq("eigenvalue equation: creation part", A[0, 0] / e + e, 0, shape=False)
                        E.eq("eigenvalue equation: constant part", s * b[0] / e, X, shape=False)
                        # <x|x'> normalisation in units of x/sqrt(hbar): F(0) = pi^{-1/4} exp(-x^2/2hbar)
                        c4 = c ** 4 if not E.sym else (c * c) * (c * c)
                        pi = E._s.Sym(E._s.Frac({((E._s.gPI.idx, 1),): 1})) if E.sym else np.pi
                        E.eq("normalisation", c4 * pi, E.exp(-X * X * 2 / hb), shape=False)
        return f
    for b1, b2 in BATCHES2:
        R.ob(f"QuadratureEigenstate batch{b1}{b2}", quad(b1, b2), ["lab.QuadratureEigenstate", "triples.quadrature_eigenstates_Abc"])

    # ---- generic Gaussian states
    def gket1(E):
        S = euler1(E)
        A, b, c = triples_of(E, L.GKet(0, S))
        # U a U^dag annihilates U|0>:  inverse symplectic
        mean, cov = O.moments(E, *O.dm_triple(E, (A, b, c.item() if c.ndim == 0 else c))[:2], 1)
        E.eq("covariance S S^T/2", cov, (S @ S.T) / 2 * (E._s.Sym.lift(1) if E.sym else 1.0))
        E.eq("means vanish", mean, np.zeros(2))
        c = c.item() if c.ndim == 0 else c
        if not E.sym:
            ket_norm(E, "gket", (A, b, c))
        else:
            # |c|^4 (= c^4, c real) equals det(1 - A A*)
            d = 1 - A[0, 0] * E.conj(A[0, 0])
            E.eq("norm one", (c * c) * (c * c), d * d, shape=False) if False else E.eq("norm one", (c * c) * (c * c), d, shape=False)
    R.ob("GKet one mode", gket1, ["lab.GKet", "triples.gket_state_Abc", "bargmann_utils.symplectic2Au"], bound="one mode, all symplectic matrices")

    def gketn(E):
        from mrmustard import settings
        m = E.pick(1, 2, 3, 4)
        hb = E.pick(1.0, 2.0, 0.6)
        bs = E.pick((), (), (2,), (2, 2))
        Ss = np.array([O.rand_symplectic(E.rng, m) for _ in range(int(np.prod(bs)))]).reshape(bs + (2 * m, 2 * m))
        E.note("modes", m, "hbar", hb, "batch", bs)
        with settings(HBAR=hb):
            st = L.GKet(tuple(range(m)), Ss)
            for i, t in each(E, st, bs):
                mean, cov = O.moments(E, *O.dm_triple(E, t)[:2], hb)
                E.eq("covariance", cov, hb / 2 * Ss[i] @ Ss[i].T, tol=1e-8)
                E.eq("means", mean, np.zeros(2 * m), tol=1e-8)
                ket_norm(E, "gket", t)
    R.bounded("GKet n modes native", gketn, ["lab.GKet", "triples.gket_state_Abc"], num=12)

    def gdmn(E):
        from mrmustard import settings
        m = E.pick(1, 2, 3)
        hb = E.pick(1.0, 2.0, 0.6)
        bs = E.pick((), (), (2,)) 
        Ss = np.array([O.rand_symplectic(E.rng, m) for _ in range(int(np.prod(bs)))]).reshape(bs + (2 * m, 2 * m))
        beta = E.rng.uniform(0.3, 2.0, size=m)
        E.note("modes", m, "hbar", hb, "batch", bs, "beta", beta)
        with settings(HBAR=hb):
            st = L.GDM(tuple(range(m)), beta if m > 1 or E.pick(0, 1) else float(beta[0]), Ss)
            nb = 1 / (np.exp(beta) - 1)
            D = np.diag(np.concatenate([nb + 0.5, nb + 0.5])) * hb
            for i, t in each(E, st, bs):
                mean, cov = O.moments(E, *t[:2], hb)
                E.eq("covariance S D S^T", cov, Ss[i] @ D @ Ss[i].T, tol=1e-7)
                E.eq("means", mean, np.zeros(2 * m), tol=1e-8)
                dm_ok(E, "gdm", t)
    R.bounded("GDM n modes native", gdmn, ["lab.GDM", "triples.gdm_state_Abc"], num=16)

    def gdm1(E):
        S = euler1(E)
        be = E.squeeze("beta") if E.sym else E._num("beta", float(E.rng.uniform(0.3, 2)))
        A, b, c = triples_of(E, L.GDM(0, be, S))
        mean, cov = O.moments(E, A, b, 1)
        x = E.exp(be)
        w = (x + 1) / (x - 1) / 2
        E.eq("covariance S D S^T", cov, (S @ S.T) * w)
        E.eq("means vanish", mean, np.zeros(2))
        dmc = c.item() if c.ndim == 0 else c
        p = [1, 0]
        E.eq("Hermitian A", E.conj(A[np.ix_(p, p)]), A)
        _, _, n = O.integrate(E, A, b, dmc, [(0, 1)])
        E.eq("trace one", n, 1, shape=False)
    R.ob("GDM one mode", gdm1, ["lab.GDM", "triples.gdm_state_Abc"], bound="one mode, all symplectic matrices and temperatures")

    # ---- number states and superpositions
    def number(E):
        n = int(E.rng.integers(0, 9))
        extra = int(E.rng.integers(1, 4))
        bs = E.pick((), (3,), (2, 2))
        ns = np.array(E.rng.integers(0, 6, size=bs)) if bs else n
        cut = E.pick(None, int(np.max(ns)) + extra)
        st = L.Number(E.pick(0, 4), ns, cut)
        arr = np.asarray(st.ansatz.array)
        C = cut or int(np.max(ns)) + 1
        E.true("shape", arr.shape == tuple(bs) + (C,), f"{arr.shape}")
        for i in np.ndindex(*bs):
            e = np.zeros(C)
            e[ns[i] if bs else ns] = 1
            E.eq("a^dag a |n> = n|n>, norm one", arr[i] if bs else arr, e)
        big = C + int(E.rng.integers(0, 4))
        f = np.asarray(st.fock_array(big))
        for i in np.ndindex(*bs):
            e = np.zeros(big)
            e[ns[i] if bs else ns] = 1
            E.eq("padding", f[i] if bs else f, e)
        k = int(np.max(ns)) - 1
        if k > 0 and not bs:
            E.eq("truncation", np.asarray(st.fock_array(k)), np.zeros(k))
    R.bounded("Number states", number, ["lab.Number", "fock_utils.fock_state"], num=15, bound="n <= 8, cutoffs <= 16")

    def sauron(E):
        n, eps = int(E.rng.integers(0, 5)), float(E.rng.uniform(0.05, 0.4))
        st = L.Sauron(0, n, eps)
        A, b, c = triples_of(E, st)
        E.true("superposition", st.ansatz._lin_sup and A.shape == (n + 1, 1, 1))
        v = sum(O.amplitudes(A[k], b[k], c[k], (3 * n + 12,)) for k in range(n + 1))
        E.eq("norm one", np.vdot(v, v), 1, shape=False, tol=1e-6)
        # only numbers congruent to n modulo n+1, dominated by |n>
        sup = np.array([k % (n + 1) == n for k in range(len(v))])
        E.eq("support", v[~sup], np.zeros((~sup).sum()), tol=1e-8)
        E.true("approximates |n>", abs(v[n]) > 0.9 if eps < 0.3 else True, f"{abs(v[n])}")
        E.eq("norm property", complex(np.sum(np.asarray(st.probability))), 1.0, tol=1e-6, shape=False)
    R.bounded("Sauron states", sauron, ["lab.Sauron", "triples.sauron_state_Abc"], num=8)

    # strong squeezing and special values, native
    def special(E):
        r, ph = E.pick(0.0, 2.5, -2.0, 1e-9), E.pick(0.0, np.pi, -np.pi / 2, 7.0)
        al = E.pick(0j, 3 - 2j, 1e-8j)
        t = L.DisplacedSqueezed(E.pick(0, 3), al, r, ph)
        E.note(al, r, ph)
        for i, tt in each(E, t, ()):
            A, b, c = tt
            C, Sh = np.cosh(r), np.sinh(r)
            E.eq("annihilator", [A[0, 0] * C + np.exp(1j * ph) * Sh, b[0] * C - C * al - np.exp(1j * ph) * Sh * np.conj(al)], [0, 0], shape=False)
            ket_norm(E, "dsq", tt)
        E.true("modes", t.modes == (t.modes[0],) and len(t.modes) == 1)
    R.bounded("special parameter values", special, ["lab.DisplacedSqueezed"], num=12)

    def conventions(E):
        """a state on mode k has exactly one output ket (and bra, if mixed) wire on mode k"""
        k = int(E.rng.integers(0, 7))
        for st, mixed in ((L.Coherent(k, 0.3), 0), (L.SqueezedVacuum(k, 0.2), 0), (L.DisplacedSqueezed(k, 0.1, 0.2), 0), (L.Thermal(k, 0.5), 1),
                          (L.Number(k, 2), 0), (L.Vacuum((k, k + 1)), 0), (L.TwoModeSqueezedVacuum((k, k + 2), 0.2), 0), (L.GDM(k, 0.4), 1), (L.GKet(k), 0)):
            ms = st.modes
            E.true("wires", st.wires.output.ket.modes == set(ms) and st.wires.output.bra.modes == (set(ms) if mixed else set()) and not st.wires.input.modes,
                   f"{type(st).__name__}: {st.wires}")
    R.bounded("wires of states", conventions, ["lab.states"], num=4)
