"""P17: physical figures of merit match their definitions."""
import itertools
import numpy as np
import oracle as O
import lab as L
from common import *
from P02 import rtriple


def register(R):
    from mrmustard import math, settings
    from mrmustard.physics import gaussian as G, fock_utils as FU
    from mrmustard.physics.ansatz import PolyExpAnsatz as PE, ArrayAnsatz as AA
    from mrmustard.physics.wires import Wires
    from mrmustard.lab import (CircuitComponent, Ket, DM, Operation, Unitary, Dgate, Sgate, BSgate, Rgate, Attenuator, Amplifier, Coherent, Number, SqueezedVacuum, Thermal, TraceOut, Vacuum,
                               TwoModeSqueezedVacuum, GKet, GDM)
    R.explanation = ("the real properties are executed on free triples, arrays and moments and compared with integrals and sums written from the definitions; "
                     "natively every representation, subset of modes and hbar is compared with number-basis definitions")

    def wires(kind, modes):
        return Wires(set(modes) if kind == "dm" else set(), set(), set(modes), set())

    def mk(kind, modes, t):
        return (DM if kind == "dm" else Ket)(ansatz=PE(*t), wires=wires(kind, modes))

    def arr(kind, modes, a, nb=0):
        return (DM if kind == "dm" else Ket)(ansatz=AA(a, nb), wires=wires(kind, modes))

    def trip(E, n, p):
        if not E.sym:
            return rtriple(E.rng, n)
        return E.csym(n, p + "A"), E.cvec(n, p + "b"), E.arr(E.cplx(p + "c"))

    def sq(E, nm, got, ref):
        """both are real scalars; ref is the square of the expected value in exact mode"""
        x = item(E.arr(got)) if E.sym else np.asarray(got)
        E.eq(nm, x * x if E.sym else x, ref, shape=False)

    def integ(E, t, pairs):
        """full integral: (square of the) scalar"""
        return O.integrate(E, *t, pairs)[2]

    # ------------------------------------------------------------------ exact: Bargmann states
    def herm(E, m, p):
        """free density operator: hermitian"""
        if E.sym:
            a = E.csym(m, p + "a")
            g = [[None] * m for _ in range(m)]
            for i in range(m):
                for j in range(i, m):
                    g[i][j] = E.real(f"{p}g{i}{j}") if i == j else E.cplx(f"{p}g{i}{j}")
                    if i != j:
                        g[j][i] = E.conj(g[i][j])
            b = E.cvec(m, p + "b")
            A = E.arr([[E.conj(a[i, j]) for j in range(m)] + [E.conj(g[i][j]) for j in range(m)] for i in range(m)] + [[g[i][j] for j in range(m)] + [a[i, j] for j in range(m)] for i in range(m)])
            return A, E.arr([E.conj(x) for x in b] + list(b)), E.arr(E.real(p + "c"))
        A, b, c = rtriple(E.rng, 2 * m, (), (), .4)
        P = np.array([*range(m, 2 * m), *range(m)])
        return (A + np.conj(A)[np.ix_(P, P)]) / 2, (b + np.conj(b)[P]) / 2, np.array(abs(c) + 0j)

    for m in (1, 2):
        modes = (0,) if m == 1 else (1, 4)

        def ket(E, m=m, modes=modes):
            t = trip(E, m, "p")
            s = mk("ket", modes, t)
            tc = (E.conj(t[0]), E.conj(t[1]), E.conj(t[2]))
            norm = integ(E, O.direct_sum(E, t, tc), [(i, m + i) for i in range(m)])
            sq(E, "probability", s.probability, norm)
            sq(E, "L2 norm", s.L2_norm, norm)
            E.eq("purity", s.purity, E.arr(1.0), shape=False)
            sq(E, "probability of the density matrix", s.dm().probability, norm)
            d = s.dm()
            E.true("wires of the density matrix", L.labels_of(d.wires) == [("ob", x) for x in modes] + [("ok", x) for x in modes])
        R.ob(f"norm of a ket on {m} modes", ket, ["Ket.probability", "Ket.purity", "State.L2_norm", "Ket.dm", "DM.probability"], bound=f"every triple on {m} modes", num=4, timeout=200)

        def dm(E, m=m, modes=modes):
            t = herm(E, m, "p")
            s = mk("dm", modes, t)
            tr = integ(E, t, [(i, m + i) for i in range(m)])
            sq(E, "probability", s.probability, tr)
            if m == 1:
                tc = (E.conj(t[0]), E.conj(t[1]), E.conj(t[2]))
                n2 = integ(E, O.direct_sum(E, t, tc), [(i, 2 * m + i) for i in range(2 * m)])
                sq(E, "L2 norm", s.L2_norm, n2)
                p = item(E.arr(s.purity)) if E.sym else np.asarray(s.purity)
                # purity * (Tr rho)^2 = Tr rho^2
                E.eq("purity", (p * p * tr * tr) if E.sym else p * tr ** 2, n2, shape=False)
        R.ob(f"trace and purity of a density matrix on {m} modes", dm, ["DM.probability", "DM.purity", "State.L2_norm"], bound=f"every hermitian triple on {m} modes", num=4, timeout=300)

    # expectation values
    SUB = [((0,), (0,)), ((1, 4), (4,)), ((1, 4), (1,))]
    for kind in ("ket", "dm"):
        for modes, sub in SUB:
            for op in ("unitary", "ket", "dm"):
                if kind == "dm" and len(modes) == 2 and R.quick and op == "dm":
                    continue

                def exp_(E, kind=kind, modes=modes, sub=sub, op=op):
                    m, k = len(modes), len(sub)
                    t = herm(E, m, "p") if kind == "dm" else trip(E, m, "p")
                    o = {"unitary": lambda: trip(E, 2 * k, "o"), "ket": lambda: trip(E, k, "o"), "dm": lambda: herm(E, k, "o")}[op]()
                    s = mk(kind, modes, t)
                    if op == "unitary":
                        oc = Operation(ansatz=PE(*o), wires=Wires(set(), set(), set(sub), set(sub)))
                    else:
                        oc = mk(op, sub, o)
                    got = s.expectation(oc)
                    # definition: function of (bra variables, ket variables) of the state
                    cj = lambda x: tuple(E.conj(y) for y in x)
                    rho = t if kind == "dm" else O.direct_sum(E, cj(t), t)          # bra, ket
                    pos = [modes.index(x) for x in sub]
                    if op == "unitary":                                             # variables: out, in
                        f = O.direct_sum(E, rho, o)
                        pairs = []
                        for q, x in enumerate(modes):
                            if x in sub:
                                j = sub.index(x)
                                pairs += [(m + q, 2 * m + k + j), (q, 2 * m + j)]
                            else:
                                pairs.append((q, m + q))
                    else:
                        O2 = o if op == "dm" else O.direct_sum(E, cj(o), o)
                        f = O.direct_sum(E, rho, cj(O2))                            # Tr(rho O^dagger), conj variables
                        pairs = []
                        for q, x in enumerate(modes):
                            if x in sub:
                                j = sub.index(x)
                                pairs += [(q, 2 * m + j), (m + q, 2 * m + k + j)]
                            else:
                                pairs.append((q, m + q))
                    sq(E, "expectation", got, integ(E, f, pairs))
                R.ob(f"expectation of a {op} on modes {sub} in a {kind} on {modes}", exp_, [f"{'Ket' if kind == 'ket' else 'DM'}.expectation"], bound="every triple", num=4, timeout=300)

    # ------------------------------------------------------------------ exact: number basis
    def carr(E, shape, p):
        if E.sym:
            return E.arr([E.cplx(f"{p}{i}") for i in range(int(np.prod(shape)))]).reshape(shape)
        return E.rng.normal(size=shape) + 1j * E.rng.normal(size=shape)

    for shape in ((3,), (2, 3), (1, 2)):
        m = len(shape)

        def fock(E, shape=shape, m=m):
            modes = tuple(range(3, 3 + m))
            a = carr(E, shape, "a")
            s = arr("ket", modes, a)
            flat = list(a.reshape(-1))
            n2 = sum(x * E.conj(x) for x in flat)
            E.eq("probability of an array ket", s.probability, n2, shape=False)
            d = s.dm()
            E.eq("density matrix", d.ansatz.array, E.arr([E.conj(x) * y for x in flat for y in flat]).reshape(shape + shape))
            E.eq("probability of its density matrix", d.probability, n2, shape=False)
            E.eq("purity of its density matrix", item(E.arr(d.purity)) * 1 if E.sym else d.purity, 1.0, shape=False)
            cut = max(shape)
            for x, nm in ((s, "ket"), (d, "density matrix")):
                dist = x.fock_distribution(cut)
                want = []
                for i in np.ndindex(*(cut,) * m):
                    want.append(a[i] * E.conj(a[i]) if all(p < q for p, q in zip(i, shape)) else 0 * flat[0])
                got = E.arr(dist)
                E.eq(f"photon number distribution of a {nm}", got * got if E.sym else got, E.arr(want) ** 2 if E.sym else np.real(want))
            # expectation of an operator array on every mode
            for q in range(m):
                k = shape[q]
                o = carr(E, (k, k), f"o{q}_")              # out, in
                oc = Operation(ansatz=AA(o, 0), wires=Wires(set(), set(), {modes[q]}, {modes[q]}))
                ref = 0
                for i in np.ndindex(*shape):
                    for j in range(k):
                        i2 = i[:q] + (j,) + i[q + 1:]
                        ref = ref + E.conj(a[i2]) * o[j, i[q]] * a[i]
                E.eq(f"expectation of an array on mode {q}", s.expectation(oc), ref, shape=False)
                E.eq(f"expectation of an array on mode {q} in the density matrix", d.expectation(oc), ref, shape=False)
                v = carr(E, (k,), f"v{q}_")
                ref = 0
                for rest in np.ndindex(*(shape[:q] + shape[q + 1:])):
                    z = sum(E.conj(v[j]) * a[rest[:q] + (j,) + rest[q:]] for j in range(k))
                    ref = ref + z * E.conj(z)
                E.eq(f"projection on mode {q}", s.expectation(arr("ket", (modes[q],), v)), ref, shape=False)
                E.eq(f"projection on mode {q} of the density matrix", d.expectation(arr("ket", (modes[q],), v)), ref, shape=False)
                E.eq(f"projector on mode {q}", s.expectation(arr("ket", (modes[q],), v).dm()), ref, shape=False)
                E.eq(f"projector on mode {q} of the density matrix", d.expectation(arr("ket", (modes[q],), v).dm()), ref, shape=False)
        R.ob(f"number-basis states of shape {shape}", fock, ["Ket.probability", "DM.probability", "DM.purity", "Ket.expectation", "DM.expectation", "State.fock_distribution"], bound="every array of the listed shape", num=3, timeout=300)

    # ------------------------------------------------------------------ exact: moments
    class hbar:
        def __init__(self, E):
            self.h = E.pos("hbar", .4, 3.)

        def __enter__(self):
            self.old = settings.HBAR
            settings.HBAR = self.h
            return self.h

        def __exit__(self, *a):
            settings.HBAR = self.old

    for m in (1, 2, 3):
        def mom(E, m=m):
            cov = E.rmat(2 * m, 2 * m, "V")
            cov = E.arr([[cov[min(i, j), max(i, j)] for j in range(2 * m)] for i in range(2 * m)])
            if not E.sym:
                cov = cov + 6 * np.eye(2 * m)
            mu = E.arr([E.real(f"mu{i}") for i in range(2 * m)])
            with hbar(E) as h:
                n = G.number_means(cov, mu)
                p = G.purity(cov)
            ref = []
            for i in range(m):
                xx = cov[i, i] + mu[i] * mu[i]
                pp = cov[m + i, m + i] + mu[m + i] * mu[m + i]
                ref.append((xx + pp) / (2 * h) - .5 if not E.sym else (xx + pp) / (2 * h) - E.arr(1) / 2)
            E.eq("mean photon numbers", n, E.arr([item(E.arr(x)) for x in ref]) if E.sym else np.array(ref))
            if m < 3:
                d = E.det(cov)
                pp = item(E.arr(p)) if E.sym else p
                # purity^2 * det(2 V / hbar) = 1
                E.eq("purity", pp * pp * d * (2 / h) ** (2 * m) if not E.sym else pp * pp * d * (2 ** (2 * m)), 1.0 if not E.sym else h ** (2 * m), shape=False)
        R.ob(f"photon numbers and purity from moments, {m} modes", mom, ["number_means", "purity"], bound=f"every covariance, mean and hbar for {m} modes", num=4, timeout=100)

    # ------------------------------------------------------------------ native: moments
    def gauss(E):
        m = int(E.rng.integers(1, 5))
        h = E.pick(.5, 1., 2., 3.3)
        nu = 1 + E.rng.uniform(0, 2, size=m) * E.rng.integers(0, 2, size=m)
        S = O.rand_symplectic(E.rng, m, .7)
        V = S @ np.diag(np.concatenate([nu, nu])) @ S.T * h / 2
        mu = E.rng.normal(size=2 * m)
        E.note(m, h, nu)
        with settings(HBAR=h):
            E.eq("symplectic eigenvalues", np.sort(np.asarray(G.symplectic_eigenvals(V))), np.sort(nu), tol=1e-5)
            E.eq("purity", G.purity(V), 1 / np.prod(nu), tol=1e-6)
            nb = (nu - 1) / 2
            ent = np.sum((nb + 1) * np.log(nb + 1) - np.where(nb > 1e-12, nb * np.log(np.where(nb > 1e-12, nb, 1)), 0))
            E.eq("entropy", G.von_neumann_entropy(V), ent, tol=1e-5)
            # batches
            VV = np.stack([V, np.eye(2 * m) * h / 2, 2 * V])
            E.eq("eigenvalues of a batch", np.asarray(G.symplectic_eigenvals(VV)), np.stack([np.asarray(G.symplectic_eigenvals(x)) for x in VV]), tol=1e-6)
            E.eq("entropy of a batch", np.asarray(G.von_neumann_entropy(VV)), np.array([float(G.von_neumann_entropy(x)) for x in VV]), tol=1e-6)
            # fidelity with a coherent or pure state: overlap formula
            S2 = O.rand_symplectic(E.rng, m, .5)
            W = S2 @ S2.T * h / 2
            mu2 = E.rng.normal(size=2 * m)
            d = mu2 - mu
            ov = np.exp(-.5 * d @ np.linalg.solve(V + W, d)) / np.sqrt(np.linalg.det((V + W) / h))
            E.eq("fidelity with a pure state", G.fidelity(mu, V, mu2, W), ov, tol=1e-4)
            E.eq("fidelity is symmetric", G.fidelity(mu2, W, mu, V), ov, tol=1e-4)
            nu2 = 1.2 + E.rng.uniform(0, 1, size=m)
            W = S2 @ np.diag(np.concatenate([nu2, nu2])) @ S2.T * h / 2
            V2 = V + .1 * h * np.eye(2 * m)
            E.eq("fidelity of mixed states is symmetric", G.fidelity(mu, V2, mu2, W), G.fidelity(mu2, W, mu, V2), tol=1e-6)
            E.eq("fidelity with itself", G.fidelity(mu, V2, mu, V2), 1.0, tol=1e-5)
            if m == 1:
                # single-mode formula
                D = np.linalg.det((V2 + W) / h)
                L_ = (np.linalg.det(2 * V2 / h) - 1) * (np.linalg.det(2 * W / h) - 1) / 4
                f = np.exp(-.5 * d @ np.linalg.solve(V2 + W, d)) / (np.sqrt(D + L_) - np.sqrt(L_))
                E.eq("single-mode mixed fidelity", G.fidelity(mu, V2, mu2, W), f, tol=1e-5)
    R.bounded("moments of random Gaussian states", gauss, ["symplectic_eigenvals", "von_neumann_entropy", "fidelity", "purity"], num=80, bound="1-4 modes, hbar in {0.5,1,2,3.3}, with vacuum and thermal symplectic eigenvalues")

    def uhlmann(a, b):
        w, v = np.linalg.eigh(a)
        r = (v * np.sqrt(np.clip(w, 0, None))) @ v.conj().T
        return np.sum(np.sqrt(np.clip(np.linalg.eigvalsh(r @ b @ r), 0, None))) ** 2

    def rdm(E, d, rank=None):
        x = E.rng.normal(size=(d, rank or d)) + 1j * E.rng.normal(size=(d, rank or d))
        r = x @ x.conj().T
        return r / np.trace(r)

    def fockfid(E):
        d = int(E.rng.integers(2, 6))
        a, b = rdm(E, d), rdm(E, d)
        E.eq("fidelity of matrices", FU.fidelity(a, b), uhlmann(a, b), tol=1e-6)
        E.eq("fidelity with itself", FU.fidelity(a, a), 1.0, tol=1e-6)
    R.bounded("fidelity of number-basis matrices", fockfid, ["fock_utils.fidelity"], num=20, bound="matrices of size 2-5")

    # ------------------------------------------------------------------ native: states
    def gstate(E, kind, modes, r=.35):
        """random physical Gaussian state built from elementary operations"""
        s = Coherent(modes[0], complex(*E.rng.uniform(-.5, .5, 2)))
        for m in modes[1:]:
            s = s >> Coherent(m, complex(*E.rng.uniform(-.5, .5, 2)))
        for m in modes:
            s = s >> Sgate(m, E.rng.uniform(-r, r), E.rng.uniform(0, 6))
        for a, b in zip(modes, modes[1:]):
            s = s >> BSgate((a, b), E.rng.uniform(-3, 3), E.rng.uniform(-3, 3))
        if kind == "dm":
            for m in modes:
                s = s >> Attenuator(m, E.rng.uniform(.3, .9)) >> Amplifier(m, E.rng.uniform(1, 1.15))
        return s

    def rho_of(s, cut):
        """matrix <n|rho|m> from the amplitudes of the Bargmann function"""
        m = s.n_modes
        A, b, c = (np.asarray(x) for x in s.ansatz.triple)
        if s.wires.bra:
            a = O.amplitudes(A, b, c, (cut,) * 2 * m)
            return np.swapaxes(a.reshape(cut ** m, cut ** m), 0, 1)
        a = O.amplitudes(A, b, c, (cut,) * m).reshape(-1)
        return np.outer(a, a.conj())

    def states(E):
        with settings(AUTOSHAPE_PROBABILITY=1 - 1e-11):
            states_(E)

    def states_(E):
        kind = E.pick("ket", "dm")
        modes = E.pick((0,), (3,), (0, 1), (2, 9))
        m = len(modes)
        cut = 22 if m == 1 else 11
        s = gstate(E, kind, modes, .35 if m == 1 else .2)
        rho = rho_of(s, cut)
        tol = 1e-4 if m == 2 else 1e-5
        E.note(kind, modes)
        f = s.to_fock((cut,) * (m if kind == "ket" else 2 * m))
        d, fd = s.dm(), f.dm()
        reps = [("Bargmann", s), ("array", f), ("density matrix", d), ("array density matrix", fd)]
        for nm, x in reps:
            E.eq(f"probability ({nm})", x.probability, 1.0, tol=tol)
            E.eq(f"purity ({nm})", x.purity, np.real(np.trace(rho @ rho)), tol=tol)
            E.eq(f"norm ({nm})", x.L2_norm, np.real(np.trace(rho @ rho)), tol=tol)
            k = int(E.rng.integers(1, 6))
            dist = np.real(np.diag(rho)).reshape((cut,) * m)[(slice(0, k),) * m].reshape(-1)
            E.eq(f"photon number distribution ({nm})", np.asarray(x.fock_distribution(k)), dist, tol=tol)
            E.true(f"is_pure ({nm})", bool(x.is_pure) == (kind == "ket") or m == 2)
        nrm = (s * 1.7).normalize()
        E.eq("normalised", nrm.probability, 1.0)
        E.eq("norm scales", (s * 1.7j).probability, 1.7 ** 2 if kind == "ket" else np.real(1.7j), tol=tol)
        # expectation values on a subset of modes
        q = int(E.rng.integers(m))
        mode = modes[q]
        a, n = O.fock_ops(cut)[0], np.arange(cut)
        red = np.trace(rho.reshape((cut,) * 2 * m), axis1=1 - q, axis2=2 + 1 - q) if m == 2 else rho
        u = Dgate(mode, complex(*E.rng.uniform(-.4, .4, 2))) if E.rng.integers(2) else Rgate(mode, E.rng.uniform(-3, 3))
        um = np.asarray(u.fock_array((cut, cut)))
        kt = gstate(E, "ket", (mode,), .3)
        dt = gstate(E, "dm", (mode,), .3)
        cases = [("unitary", u, np.trace(um @ red)), ("ket", kt, np.trace(red @ rho_of(kt, cut))), ("density matrix", dt, np.trace(red @ rho_of(dt, cut)))]
        for nm, x in reps:
            for on, o, ref in cases:
                E.eq(f"expectation of a {on} ({nm})", x.expectation(o), ref, tol=tol)
                E.eq(f"expectation of an array {on} ({nm})", x.expectation(o.to_fock((cut,) * len(o.wires))), ref, tol=tol)
                if E.rng.random() < .3:
                    with settings(DEFAULT_REPRESENTATION="Fock"):
                        E.eq(f"expectation of a {on} in the number basis ({nm})", x.expectation(o.to_fock((cut,) * len(o.wires))), ref, tol=tol)
        # number operator as an array
        N = Operation(ansatz=AA(np.diag(n).astype(complex), 0), wires=Wires(set(), set(), {mode}, {mode}))
        mean = np.real(np.trace(np.diag(n) @ red))
        E.eq("mean photon number as an expectation", fd.expectation(N), mean, tol=tol)
        # moments for another hbar
        h = E.pick(.5, 1., 2.)
        with settings(HBAR=h):
            cov, mu, c = s.phase_space(0)
            E.eq("mean photon number from moments", np.asarray(G.number_means(np.real(cov), np.real(mu)))[q], mean, tol=10 * tol)
            E.eq("purity from moments", G.purity(np.real(cov)), np.real(np.trace(rho @ rho)), tol=10 * tol)
            if kind == "dm":
                w = np.linalg.eigvalsh(rho)
                w = w[w > 1e-14]
                E.eq("entropy from moments", G.von_neumann_entropy(np.real(cov)), -np.sum(w * np.log(w)), tol=100 * tol)
        # fidelity
        o = gstate(E, E.pick("ket", "dm"), modes, .2)
        ro = rho_of(o, cut)
        fid = uhlmann(rho, ro)
        fo = o.to_fock((cut,) * len(o.wires))
        for nm, x in reps:
            for on, y in (("Bargmann", o), ("density matrix", o.dm()), ("array", fo)):
                if kind == "dm" or not (on == "density matrix" or o.wires.bra):
                    E.eq(f"fidelity ({nm}, {on})", x.fidelity(y), fid, tol=20 * tol + 2e-3 * (on == "array" or "array" in nm))
        E.eq("fidelity of a ket and a density matrix", s.fidelity(o), fid, tol=20 * tol)
    R.bounded("random Gaussian states", states, ["State.*", "Ket.expectation", "DM.expectation", "Ket.fidelity", "DM.fidelity", "State.fock_distribution", "State.normalize"], num=16,
              bound="1-2 modes, number-basis cutoff 22 or 11, hbar in {0.5,1,2}", timeout=400)

    def arrays(E):
        """states held as arrays with unequal cutoffs"""
        m = int(E.rng.integers(1, 4))
        modes = tuple(sorted(E.rng.permutation(12)[:m].tolist())) if E.rng.integers(2) else E.pick((3, 11, 19), (0, 8, 16), (1, 9, 33))[:m]
        sh = tuple(int(x) for x in E.rng.integers(1, 4, size=m))
        d = int(np.prod(sh))
        rho = rdm(E, d, int(E.rng.integers(1, 4))) * E.rng.uniform(.3, 2)
        pure = np.linalg.matrix_rank(rho) == 1
        E.note(modes, sh)
        a = np.swapaxes(rho, 0, 1).reshape(sh + sh)          # bra indices first
        x = arr("dm", modes, a)
        E.eq("probability", x.probability, np.real(np.trace(rho)))
        E.eq("purity", x.purity, np.real(np.trace(rho @ rho)) / np.real(np.trace(rho)) ** 2)
        E.eq("norm", x.L2_norm, np.real(np.trace(rho @ rho)))
        E.true("is_pure", bool(x.is_pure) == bool(abs(np.real(np.trace(rho @ rho)) / np.real(np.trace(rho)) ** 2 - 1) < 1e-6))
        k = int(E.rng.integers(1, 5))
        dist = np.zeros((k,) * m)
        for i in np.ndindex(*dist.shape):
            if all(p < q for p, q in zip(i, sh)):
                dist[i] = np.real(a[i + i])
        E.eq("photon number distribution", x.fock_distribution(k), dist.reshape(-1))
        E.eq("normalised", x.normalize().probability, 1.0)
        sub = tuple(sorted(E.rng.permutation(m)[:int(E.rng.integers(1, m + 1))].tolist()))
        red = x[[modes[i] for i in sub]]
        rest = [i for i in range(m) if i not in sub]
        t = a
        for i in sorted(rest, reverse=True):
            t = np.trace(t, axis1=i, axis2=i + t.ndim // 2)
        E.true("modes of the reduced state", red.modes == tuple(modes[i] for i in sub))
        E.eq("reduced state", red.ansatz.array, t)
        ssh = tuple(sh[i] for i in sub)
        o = E.rng.normal(size=ssh + ssh) + 1j * E.rng.normal(size=ssh + ssh)
        oc = Operation(ansatz=AA(o, 0), wires=Wires(set(), set(), {modes[i] for i in sub}, {modes[i] for i in sub}))
        ds = int(np.prod(ssh))
        E.eq("expectation of an operator", x.expectation(oc), np.trace(o.reshape(ds, ds) @ t.reshape(ds, ds).T))
        v = E.rng.normal(size=ssh) + 1j * E.rng.normal(size=ssh)
        E.eq("projection", x.expectation(arr("ket", [modes[i] for i in sub], v)), np.conj(v.reshape(-1)) @ t.reshape(ds, ds).T @ v.reshape(-1))
        r2 = rdm(E, ds)
        E.eq("overlap", x.expectation(arr("dm", [modes[i] for i in sub], r2.T.reshape(ssh + ssh))), np.trace(r2 @ t.reshape(ds, ds).T))
        # fidelity between arrays of different cutoffs
        sh2 = tuple(int(y) for y in E.rng.integers(1, 4, size=m))
        d2 = int(np.prod(sh2))
        r2 = rdm(E, d2)
        y = arr("dm", modes, r2.T.reshape(sh2 + sh2))
        big = tuple(max(p, q) for p, q in zip(sh, sh2))

        def pad(b, s_):
            z = np.zeros(big + big, complex)
            z[tuple(slice(0, n) for n in s_ + s_)] = b
            return z.reshape(int(np.prod(big)), -1)
        E.eq("fidelity of arrays", x.fidelity(y), uhlmann(pad(a, sh), pad(r2.T.reshape(sh2 + sh2), sh2)), tol=1e-5)
    R.bounded("random number-basis states", arrays, ["DM.*", "State.fock_distribution", "State.fidelity"], num=60, bound="1-3 modes, cutoffs 1-3, ranks 1-3")

    def nongauss(E):
        """photon-number states and their mixtures with Gaussian operations"""
        n = int(E.rng.integers(0, 4))
        mode = E.pick(0, 5)
        cut = 30
        s = Number(mode, n)
        if E.rng.integers(2):
            s = s >> Dgate(mode, complex(*E.rng.uniform(-.4, .4, 2)))
        if E.rng.integers(2):
            s = s >> Attenuator(mode, .6)
        E.note(n, mode, type(s).__name__)
        a = np.asarray(s.fock_array((cut,) * len(s.wires)))
        rho = a.T if s.wires.bra else np.outer(a, a.conj())
        for nm, x in (("itself", s), ("density matrix", s.dm())):
            E.eq(f"probability ({nm})", x.probability, 1.0, tol=1e-6)
            E.eq(f"purity ({nm})", x.purity, np.trace(rho @ rho).real, tol=1e-5)
            E.eq(f"photon number distribution ({nm})", x.fock_distribution(6), np.real(np.diag(rho))[:6], tol=1e-6)
            k = gstate(E, "ket", (mode,), .3)
            E.eq(f"expectation of a ket ({nm})", x.expectation(k), np.trace(rho @ rho_of(k, cut)), tol=1e-5)
            E.eq(f"expectation of a density matrix ({nm})", x.expectation(k.dm()), np.trace(rho @ rho_of(k, cut)), tol=1e-5)
            j = int(E.rng.integers(0, 4))
            E.eq(f"expectation of a number state ({nm})", x.expectation(Number(mode, j)), np.real(rho[j, j]), tol=1e-5)
            E.eq(f"expectation of a unitary ({nm})", x.expectation(Dgate(mode, .2)), np.trace(np.asarray(Dgate(mode, .2).fock_array((cut, cut))) @ rho), tol=1e-5)
    R.bounded("non-Gaussian states", nongauss, ["State.L2_norm", "DM.purity", "Ket.expectation", "DM.expectation", "State.fock_distribution"], num=25, bound="number states up to 3, displaced and lossy")

    def separable(E):
        a, b = E.pick((0, 1), (3, 8))
        kind = E.pick("ket", "dm")
        p = gstate(E, kind, (a,)) >> gstate(E, kind, (b,))
        E.true("product states are separable", bool(p.is_separable))
        e = TwoModeSqueezedVacuum((a, b), E.rng.uniform(.2, .6), E.rng.uniform(-3, 3))
        if kind == "dm":
            e = e >> Attenuator(a, .8)
        E.true("correlated states are not", not bool(e.is_separable))
        E.true("one mode is", bool(gstate(E, kind, (a,)).is_separable))
        r = E.pick([0., .3], [.3, 0.])
        E.true("a batch is not if one element is not", not bool(TwoModeSqueezedVacuum((a, b), r).is_separable))
        E.true("a batch is if every element is", bool((Coherent(a, [.1, .3]) >> SqueezedVacuum(b, .2)).is_separable))
    R.bounded("separability", separable, ["State.is_separable"], num=8, bound="two modes")

    def refused(E):
        k = Coherent(0, .1) >> Coherent(1, .2)
        for s in (k, k.dm()):
            E.raises("operator on foreign modes", lambda: s.expectation(Coherent(2, .1)), ValueError)
            E.raises("fidelity on other modes", lambda: s.fidelity(Coherent(0, .1)), ValueError)
            E.raises("channel as operator", lambda: s.expectation(Attenuator(0, .5)), ValueError)
    R.bounded("refused arguments", refused, ["Ket.expectation", "DM.expectation", "Ket.fidelity", "DM.fidelity"], num=1)
