"""P05: channels: trace preservation, Hermiticity, documented action on moments / coherences, composition."""
import numpy as np
import oracle as O
from common import *


def swap_conj(E, t, k):
    A, b, c = arrs(E, t)
    p = list(range(k, 2 * k)) + list(range(k))
    return E.conj(A[np.ix_(p, p)]), E.conj(b[p]), E.conj(c)


def cptp(E, label, t, m):
    """t: out bra, in bra, out ket, in ket (m modes each)"""
    A, b, c = arrs(E, t)
    As, bs, cs_ = swap_conj(E, t, 2 * m)
    E.eq(label + ": Hermiticity A", As, A)
    E.eq(label + ": Hermiticity b", bs, b)
    E.eq(label + ": Hermiticity c", cs_, c, shape=False)
    r = O.integrate(E, A, b, c, [(i, 2 * m + i) for i in range(m)])
    E.eq(label + ": trace preserved A", r[0], O.xmat(m).astype(complex))
    E.eq(label + ": trace preserved b", r[1], np.zeros(2 * m, dtype=complex))
    E.eq(label + ": trace preserved c", r[2], 1, shape=False)


def coherent_dm(E, al):
    """|al><al|, order (bra, ket)"""
    m = len(al)
    Z = np.zeros((2 * m, 2 * m), dtype=object if E.sym else complex)
    if E.sym:
        Z = E.arr(Z)
    n2 = sum(a * E.conj(a) for a in al)
    return Z, np.concatenate([E.conj(al), al]), E.exp(-n2)


def action(E, label, t, m, X, Y, d, hbar, al):
    """the channel maps every coherent state to the Gaussian state with the documented moments (coherent states span everything)"""
    inp = coherent_dm(E, al)
    # in bra = m..2m, in ket = 3m..4m of the channel; state wires bra 0..m, ket m..2m
    A, b, c = O.contract(E, inp, t, list(range(2 * m)), list(range(m, 2 * m)) + list(range(3 * m, 4 * m)))
    mu, V = O.moments(E, A, b, hbar)
    s = E.sqrt(hbar * (E._s.Fraction(2) if E.sym else 2.0))
    re = [(a + E.conj(a)) * half(E) * s for a in al]
    im = [(a - E.conj(a)) / (I_(E) * 2) * s for a in al]
    mu0 = E.arr(re + im)
    E.eq(label + ": means", mu, X @ mu0 + (d if d is not None else 0))
    E.eq(label + ": covariance", V, X @ X.T * (hbar * half(E)) + Y)
    cptp(E, label, t, m)


def register(R):
    from mrmustard import lab as L
    from mrmustard import math, settings
    from mrmustard.physics import triples as TR
    R.explanation = ("every channel is executed on free parameters; integrating its output pair must leave the identity functional (trace preservation for every input), "
                     "exchanging bra and ket with conjugation must leave the triple unchanged, and its action on every coherent state (which span all operators) must have the documented moments")

    def eta_of(E, s):
        return 1 / (1 + s) if E.sym else 1 / (1 + s)

    def att(bs):
        def f(E):
            s = param(E, "pos", "s", bs)
            eta = 1 / (1 + s)
            ch_ = L.Attenuator(2, transmissivity=eta)
            for i, t in each(E, ch_, bs):
                e = at(eta, i)
                al = E.arr([E.cplx("al")])
                one = e * 0 + 1
                X = E.arr([[one, 0 * e], [0 * e, one]]) * E.sqrt(e)
                Y = E.arr([[one, 0 * e], [0 * e, one]]) * ((1 - e) * half(E))
                action(E, "Attenuator", t, 1, X, Y, None, 1, al)
        return f
    for bs in BATCHES1:
        R.ob(f"Attenuator batch{bs}", att(bs), ["lab.Attenuator", "triples.attenuator_Abc"])

    def amp(bs):
        def f(E):
            s = param(E, "pos", "s", bs)
            g = 1 + s
            ch_ = L.Amplifier(0, gain=g)
            for i, t in each(E, ch_, bs):
                e = at(g, i)
                al = E.arr([E.cplx("al")])
                one = e * 0 + 1
                X = E.arr([[one, 0 * e], [0 * e, one]]) * E.sqrt(e)
                Y = E.arr([[one, 0 * e], [0 * e, one]]) * ((e - 1) * half(E))
                action(E, "Amplifier", t, 1, X, Y, None, 1, al)
        return f
    for bs in BATCHES1:
        R.ob(f"Amplifier batch{bs}", amp(bs), ["lab.Amplifier", "triples.amplifier_Abc"])

    def grn1(E):
        # every positive matrix: Y = L L^T
        a, b, c = E.pos("a"), E.real("b"), E.pos("c")
        Lm = E.arr([[a, 0 * a], [b, c]])
        Y = Lm @ Lm.T
        if E.sym:
            t = TR.gaussian_random_noise_Abc(Y)
        else:
            t = tuple(np.asarray(x) for x in L.GaussRandNoise(1, Y).ansatz.triple)
        action(E, "GaussRandNoise", (t[0], t[1], item(t[2])), 1, E.arr(np.eye(2, dtype=int)) if E.sym else np.eye(2), Y, None, 1, E.arr([E.cplx("al")]))
    R.ob("GaussRandNoise one mode", grn1, ["lab.GaussRandNoise", "triples.gaussian_random_noise_Abc"], bound="one mode, every positive definite Y")

    def xy1(E):
        X = E.rmat(2, 2, "x")
        a, b, c = E.pos("a", 1.0, 2.0), E.real("b"), E.pos("c", 1.0, 2.0)
        Lm = E.arr([[a, 0 * a], [b, c]])
        Y = Lm @ Lm.T * 3
        d = E.arr([E.real("d0"), E.real("d1")])
        t = TR.XY_to_channel_Abc(X, Y, d)
        t = tuple(x if E.sym else np.asarray(x) for x in t)
        action(E, "XY channel", (t[0], t[1], item(t[2])), 1, X, Y, d, 1, E.arr([E.cplx("al")]))
    R.ob("XY channel with displacement", xy1, ["triples.XY_to_channel_Abc"], bound="one mode, every X, d and positive definite Y")

    def fd(bs):
        def f(E):
            be = param(E, "pos", "be", bs)
            for i, (A, b, c) in each(E, L.FockDamping(1, damping=be), bs):
                e = E.exp(-at(be, i))
                E.eq("FockDamping A", A, E.arr([[0 * e, e], [e, 0 * e]]))
                E.eq("FockDamping b", b, np.zeros(2, dtype=complex))
                E.eq("FockDamping c", c, 1, shape=False)
        return f
    for bs in BATCHES1[:2]:
        R.ob(f"FockDamping batch{bs}", fd(bs), ["lab.FockDamping", "triples.fock_damping_Abc"])

    def kraus(bs):
        def f(E):
            s = param(E, "pos", "s", bs)
            eta = 1 / (1 + s)
            A, b, c = TR.attenuator_kraus_Abc(eta)
            ref = TR.attenuator_Abc(eta)
            for i in np.ndindex(*bs):
                k = (E.arr(A)[i], E.arr(b)[i], item(E.arr(c)[i]))
                kc = tuple(E.conj(x) for x in k)
                # K*(out,in,bond) K(out,in,bond*): bond summed with the Bargmann measure
                r = O.contract(E, kc, k, [2], [2])
                E.eq("Kraus operators sum to the channel A", r[0], E.arr(ref[0])[i])
                E.eq("Kraus operators sum to the channel b", r[1], E.arr(ref[1])[i])
                E.eq("Kraus operators sum to the channel c", r[2], 1, shape=False)
        return f
    for bs in BATCHES1[:2]:
        R.ob(f"attenuator Kraus batch{bs}", kraus(bs), ["triples.attenuator_kraus_Abc"])

    # ---- composition laws through the real >>
    def law(nm, mk, comb, kind):
        def f(E):
            x, y = mk(E)
            p, q = arrs(E, (kind(x) >> kind(y)).ansatz.triple), arrs(E, kind(comb(x, y)).ansatz.triple)
            E.eq(nm + " A", p[0], q[0])
            E.eq(nm + " b", p[1], q[1])
            a, b = item(p[2]), item(q[2])
            if E.sym:
                a, b = a * a, b * b
            E.eq(nm + " c", a, b, shape=False)
        return f
    two = lambda E: (E.pos("s1"), E.pos("s2"))
    R.ob("law Attenuator", law("Att(a) >> Att(b) = Att(ab)", lambda E: tuple(1 / (1 + s) for s in two(E)), lambda x, y: x * y, lambda e: L.Attenuator(0, e)), ["CircuitComponent.__rshift__", "lab.Attenuator"])
    R.ob("law Amplifier", law("Amp(a) >> Amp(b) = Amp(ab)", lambda E: tuple(1 + s for s in two(E)), lambda x, y: x * y, lambda e: L.Amplifier(0, e)), ["CircuitComponent.__rshift__", "lab.Amplifier"])
    R.ob("law FockDamping", law("FD(a) >> FD(b) = FD(a+b)", two, lambda x, y: x + y, lambda e: L.FockDamping(0, e)), ["CircuitComponent.__rshift__", "lab.FockDamping"])

    def law_grn(E):
        m = E.pick(1, 2)
        M1, M2 = E.rng.normal(size=(2, 2 * m, 2 * m)) * 0.5
        Y1, Y2 = M1 @ M1.T, M2 @ M2.T
        md = tuple(sorted(E.rng.choice(6, size=m, replace=False).tolist()))
        p, q = L.GaussRandNoise(md, Y1) >> L.GaussRandNoise(md, Y2), L.GaussRandNoise(md, Y1 + Y2)
        for a, b, n in zip(p.ansatz.triple, q.ansatz.triple, "Abc"):
            E.eq("GRN(Y1) >> GRN(Y2) = GRN(Y1+Y2) " + n, np.asarray(a), np.asarray(b), shape=False)
    R.bounded("law GaussRandNoise", law_grn, ["lab.GaussRandNoise"], num=4)

    # ---- native: many modes, batches, hbar
    def native_xy(E):
        hb = E.pick(1.0, float(E.rng.uniform(0.4, 3)))
        m = E.pick(1, 2, 3)
        bs = E.pick((), (2,), (2, 2))
        md = tuple(sorted(E.rng.choice(8, size=m, replace=False).tolist()))
        E.note("hbar", hb, "modes", md, "batch", bs)
        n = int(np.prod(bs))
        Ms = E.rng.normal(size=(n, 2 * m, 2 * m)) * 0.5
        Y = (Ms @ np.swapaxes(Ms, -1, -2)).reshape(bs + (2 * m, 2 * m)) * hb
        al = np.array([E.cplx(f"al{k}") for k in range(m)])
        with settings(HBAR=hb):
            for i, t in each(E, L.GaussRandNoise(md, Y), bs):
                action(E, "GaussRandNoise", t, m, np.eye(2 * m), Y[i], None, hb, al)
            X = E.rng.normal(size=bs + (2 * m, 2 * m)) * 0.7
            Om = O.omega(m)
            # physical Y: add enough noise
            Yp = Y + np.eye(2 * m) * hb * (0.5 + 0.5 * np.max(np.abs(np.linalg.eigvals(Om - X @ Om @ np.swapaxes(X, -1, -2)))))
            c = L.Channel.from_XY(md, md, X, Yp)
            for i, t in each(E, c, bs):
                action(E, "Channel.from_XY", t, m, X[i], Yp[i], None, hb, al)
            if bs == ():
                E.true("physical channel reported physical", bool(c.is_physical))
                X2, Y2 = c.XY
                E.eq("Channel.XY X", np.asarray(X2), X, tol=1e-6)
                E.eq("Channel.XY Y", np.asarray(Y2), Yp, tol=1e-6)
                d = E.rng.normal(size=2 * m)
                t = tuple(np.asarray(x) for x in L.Channel.from_XY(md, md, X, Yp, d).ansatz.triple)
                action(E, "Channel.from_XY with d", t, m, X, Yp, d, hb, al)
            for mk, f in ((lambda: L.Attenuator(md[0], 0.3), (0.3, 0.7)), (lambda: L.Amplifier(md[0], 1.7), (1.7, 0.7))):
                t = tuple(np.asarray(x) for x in mk().ansatz.triple)
                action(E, "attenuator/amplifier with hbar", t, 1, np.sqrt(f[0]) * np.eye(2), f[1] * hb / 2 * np.eye(2), None, hb, al[:1])
    R.bounded("Gaussian channels, many modes, hbar, batch", native_xy, ["lab.GaussRandNoise", "Channel.from_XY", "Channel.XY", "Channel.is_physical"], num=10, bound="1-3 modes, batches up to (2,2)")

    def rand_ch(E):
        m = E.pick(1, 2)
        c = L.Channel.random(tuple(range(m)), max_r=0.6, seed=int(E.rng.integers(1000)))
        (_, t), = each(E, c)
        cptp(E, "Channel.random", t, m)
        E.true("Channel.random is physical", bool(c.is_physical))
        # not trace preserving, not Hermitian -> not physical
        A, b, cc = t
        A2 = A.copy()
        A2[:m, 2 * m:3 * m] += 0.05 * np.eye(m)
        A2[2 * m:3 * m, :m] += 0.05 * np.eye(m)
        E.true("not trace preserving detected", not bool(L.Channel.from_bargmann(c.modes, c.modes, (A2, b, cc)).is_TP))
    R.bounded("random channels", rand_ch, ["Channel.random", "Channel.is_CP", "Channel.is_TP"], num=3)

    # ---- the channel seen through the public API, in either representation
    def kraus_att(eta, N):
        Ks = []
        from math import comb
        for k in range(N):
            K = np.zeros((N, N))
            for n in range(k, N):
                K[n - k, n] = np.sqrt(comb(n, k) * eta ** (n - k) * (1 - eta) ** k)
            Ks.append(K)
        return Ks

    def kraus_amp(g, N, Nout):
        Ks = []
        from math import comb
        for k in range(Nout):
            K = np.zeros((Nout, N))
            for n in range(min(N, Nout - k)):
                K[n + k, n] = np.sqrt(comb(n + k, k) * (1 - 1 / g) ** k * (1 / g) ** (n + 1))
            Ks.append(K)
        return Ks

    def rand_dm(rng, N, bs=()):
        M = rng.normal(size=bs + (N, N)) + 1j * rng.normal(size=bs + (N, N))
        r = M @ np.conj(np.swapaxes(M, -1, -2))
        return r / np.trace(r, axis1=-2, axis2=-1)[..., None, None]

    def fock_in(E):
        N = E.pick(2, 3, 5)
        bs = E.pick((), (2,))
        md = int(E.rng.integers(0, 6))
        rho = rand_dm(E.rng, N, bs)                      # rho[ket, bra]
        arr = np.swapaxes(rho, -1, -2).copy()            # MrMustard order: bra, ket
        st = L.DM.from_fock((md,), arr.copy(), batch_dims=len(bs))
        eta, g, be, sg = (float(E.rng.uniform(0.05, 0.95)), float(E.rng.uniform(1.05, 2)), float(E.rng.uniform(0.1, 1)), float(E.rng.uniform(0.2, 1.5)))
        out = np.asarray((st >> L.Attenuator(md, eta)).fock_array((N, N)))
        E.eq("attenuated number-basis state", np.swapaxes(out, -1, -2), sum(K @ rho @ K.T for K in kraus_att(eta, N)), tol=1e-6)
        Nout = N + 2
        out = np.asarray((st >> L.Amplifier(md, g).to_fock((Nout, N, Nout, N))).fock_array((Nout, Nout)))
        E.eq("amplified number-basis state", np.swapaxes(out, -1, -2), sum(K @ rho @ K.T for K in kraus_amp(g, N, Nout)), tol=1e-6)
        res = st >> L.PhaseNoise(md, sg)
        f = np.exp(-0.5 * sg ** 2 * np.subtract.outer(np.arange(N), np.arange(N)) ** 2)
        E.eq("dephased number-basis state", np.asarray(res.fock_array((N, N))), arr * f)
        E.eq("phase noise preserves the trace", np.trace(np.asarray(res.fock_array((N, N))), axis1=-2, axis2=-1), np.ones(bs))
        E.eq("input object unchanged", np.asarray(st.ansatz.array), arr, tol=0)
        D = np.exp(-be * np.arange(N))
        out = np.asarray((st >> L.FockDamping(md, be)).fock_array((N, N)))
        E.eq("damped number-basis state", out, arr * np.outer(D, D), tol=1e-6)
        E.true("result is a density matrix on the same mode", res.modes == (md,) and bool(res.wires.bra) and bool(res.wires.ket))
    R.bounded("channels on number-basis inputs", fock_in, ["lab.Attenuator", "lab.Amplifier", "lab.PhaseNoise", "lab.FockDamping", "CircuitComponent.contract"], num=8, bound="cutoffs 2-5")

    def pn(E):
        """phase noise on one of several modes, on kets and density matrices, composition"""
        m = E.pick(1, 2, 3)
        md = tuple(sorted(E.rng.choice(9, size=m, replace=False).tolist()))
        sh = tuple(int(x) for x in E.rng.integers(2, 4, size=m))
        psi = E.rng.normal(size=sh) + 1j * E.rng.normal(size=sh)
        psi /= np.linalg.norm(psi)
        st = L.Ket.from_fock(md, psi.copy())
        k = int(E.rng.integers(m))
        s1, s2 = (float(E.rng.uniform(0.1, 1.2)) for _ in range(2))
        E.note("modes", md, "noisy mode", md[k], "shape", sh)
        rho = np.multiply.outer(psi.conj(), psi)
        ix = np.indices(sh + sh)
        f = lambda s: np.exp(-0.5 * s ** 2 * (ix[k] - ix[m + k]) ** 2)
        dm = st.dm()
        for nm, x in (("ket", st), ("dm", dm)):
            y = x >> L.PhaseNoise(md[k], s1)
            E.eq(f"phase noise on a {nm}", np.asarray(y.fock_array(sh + sh)), rho * f(s1))
            z = y >> L.PhaseNoise(md[k], s2)
            E.eq(f"phase noise composes on a {nm}", np.asarray(z.fock_array(sh + sh)), rho * f(np.hypot(s1, s2)))
        E.eq("ket unchanged", np.asarray(st.ansatz.array), psi, tol=0)
        E.eq("density matrix unchanged", np.asarray(dm.ansatz.array), rho, tol=1e-12)
        y = dm >> L.PhaseNoise(md, s1)
        ff = np.ones(sh + sh)
        for j in range(m):
            ff = ff * np.exp(-0.5 * s1 ** 2 * (ix[j] - ix[m + j]) ** 2)
        E.eq("phase noise on all modes", np.asarray(y.fock_array(sh + sh)), rho * ff)
        E.eq("zero noise changes nothing", np.asarray((dm >> L.PhaseNoise(md[k], 0.0)).fock_array(sh + sh)), rho)
    R.bounded("phase noise", pn, ["lab.PhaseNoise"], num=8, bound="1-3 modes, cutoffs 2-3")

    def bar_in(E):
        """Bargmann inputs (batched, several modes, ket and dm) through >>"""
        m = E.pick(1, 2, 3)
        md = tuple(sorted(E.rng.choice(9, size=m, replace=False).tolist()))
        cov, mu = O.rand_gauss_dm(E.rng, m)
        t = O.triple_from_moments(cov, mu, 1.0)
        st = L.DM.from_bargmann(md, tuple(x.copy() for x in map(np.asarray, t)))
        keep = tuple(np.array(x) for x in st.ansatz.triple)
        k = int(E.rng.integers(m))
        eta, g = float(E.rng.uniform(0.05, 0.95)), float(E.rng.uniform(1.05, 2))
        Ys = E.rng.normal(size=(2, 2))
        Ys = Ys @ Ys.T
        sel = [k, m + k]
        for nm, c, x, Y in (("Attenuator", L.Attenuator(md[k], eta), np.sqrt(eta), (1 - eta) / 2 * np.eye(2)), ("Amplifier", L.Amplifier(md[k], g), np.sqrt(g), (g - 1) / 2 * np.eye(2)), ("GRN", L.GaussRandNoise(md[k], Ys), 1.0, Ys)):
            X, YY = np.eye(2 * m), np.zeros((2 * m, 2 * m))
            X[sel, sel] = x
            YY[np.ix_(sel, sel)] = Y
            out = st >> c
            E.true(nm + " keeps the modes", out.modes == md, str(out.modes))
            A, b, cc = (np.asarray(v) for v in out.ansatz.triple)
            mu2, V2 = O.moments(E, A, b, 1.0)
            E.eq(nm + " means", mu2, X @ mu, tol=1e-6)
            E.eq(nm + " covariance", V2, X @ cov @ X.T + YY, tol=1e-6)
            E.eq(nm + " trace", O.integrate(E, A, b, cc, [(i, m + i) for i in range(m)])[2], 1, tol=1e-6, shape=False)
            # number basis after == number basis of the Gaussian result
            if m == 1:
                E.eq(nm + " number basis", np.asarray(out.fock_array((3, 4))), O.amplitudes(A, b, cc, (3, 4)), tol=1e-6)
        for a, b_ in zip(keep, st.ansatz.triple):
            E.eq("input object unchanged", np.asarray(b_), a, tol=0)
    R.bounded("channels on Gaussian inputs", bar_in, ["CircuitComponent.__rshift__", "PolyExpAnsatz.contract"], num=8, bound="1-3 modes")

    def ranges(E):
        E.raises("transmissivity above one refused", lambda: L.Attenuator(0, 1.2).ansatz.A)
        E.raises("negative transmissivity refused", lambda: L.Attenuator(0, -0.1).ansatz.A)
        E.raises("gain below one refused", lambda: L.Amplifier(0, 0.9).ansatz.A)
        E.raises("non positive noise refused", lambda: L.GaussRandNoise(0, np.diag([1.0, -1.0])).ansatz.A)
        for i, t in each(E, L.Attenuator(0, np.array([0.0, 1.0])), (2,)):
            cptp(E, "extreme transmissivity", t, 1) if i == (1,) else None
        A = np.asarray(L.Attenuator(0, 0.0).ansatz.A)
        E.eq("zero transmissivity", A, np.array([[0, 0, 0, 0], [0, 0, 0, 1], [0, 0, 0, 0], [0, 1, 0, 0]], dtype=complex))
        E.eq("unit gain is the identity", np.asarray(L.Amplifier(0, 1.0).ansatz.A), np.asarray(L.Attenuator(0, 1.0).ansatz.A))
    R.bounded("parameter ranges", ranges, ["triples.attenuator_Abc", "triples.amplifier_Abc"], num=1)
