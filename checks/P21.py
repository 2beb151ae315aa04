"""P21: stellar decompositions recompose to the original state, with the documented core and kind of transformation"""
import itertools
import numpy as np
import oracle as O
import lab as L
from common import *
from harness import Skip, Undecided


# ------------------------------------------------------------------------------ exact
def split(modes, core):
    other = [m for m in modes if m not in core]
    return [modes.index(m) for m in core], [modes.index(m) for m in other]


def assemble(E, n, ic, io, Am, R, An, bm, bn):
    """A, b on n indices from blocks of core and other indices"""
    A = np.empty((n, n), dtype=object if E.sym else complex)
    b = np.empty(n, dtype=object if E.sym else complex)
    A[np.ix_(ic, ic)] = Am
    A[np.ix_(io, ic)] = R
    A[np.ix_(ic, io)] = np.swapaxes(R, 0, 1)
    A[np.ix_(io, io)] = An
    b[ic], b[io] = bm, bn
    return E.arr(A), E.arr(b)


def block_zero(E, nm, comp, core, tol=1e-6):
    """finite support: the core modes enter the exponential only through the other modes"""
    A, b, c = arrs(E, comp.bargmann_triple())
    i = list(comp.wires[tuple(core)].indices)
    A = A[..., i, :][..., :, i]
    b = b[..., i]
    E.eq(nm + ": no quadratic term on the core modes", A, np.zeros(A.shape, dtype=complex), tol=tol)
    E.eq(nm + ": no linear term on the core modes", b, np.zeros(b.shape, dtype=complex), tol=tol)


def same(E, nm, got, want, tol=1e-6):
    t, u = arrs(E, got.bargmann_triple()), arrs(E, want.bargmann_triple())
    E.true(nm + ": wires", got.wires == want.wires, f"{got.wires.args} {want.wires.args}")
    E.eq(nm + ": A", t[0], u[0], tol=tol)
    E.eq(nm + ": b", t[1], u[1], tol=tol)
    if E.sym:
        x, y = item(t[2]), item(u[2])
        E.eq(nm + ": c squared", E.arr(x * x), E.arr(y * y), shape=False)
    else:
        E.eq(nm + ": c", np.asarray(t[2]), np.asarray(u[2]), tol=tol, shape=False)


def use_eigh(E, X0=None, w0=None, V0=None):
    """the contract of the Hermitian eigensolver: one-by-one matrices are diagonal; otherwise the given decomposition, which is verified"""
    if not E.sym:
        return
    from mrmustard import math
    be = math._backend

    def eigh(X):
        X = E.arr(X)
        if X.shape[-1] == 1:
            one = np.ones(X.shape)
            return X[..., 0], E.arr(one)
        if V0 is None:
            raise Undecided("eigenvectors")
        Y = V0 @ np.diag(w0) @ E.conj(V0.T)
        for i in np.ndindex(X.shape):
            if not X[i] == Y[i]:
                raise Undecided("not the matrix whose eigenvectors are known")
        return E.arr(w0), E.arr(V0)
    be.eigh = eigh


def formal_ket(modes, core):
    def fn(E):
        from mrmustard.lab import Ket
        n = len(modes)
        A, b, c = (E.csym(n, "A"), E.cvec(n, "b"), E.arr(E.cplx("c"))) if E.sym else O_gauss_ket(E.rng, n)
        psi = Ket.from_bargmann(tuple(modes), (A, b, c))
        s, t = psi.formal_stellar_decomposition(core)
        E.true("kinds", type(s).__name__ == "Ket" and type(t).__name__ == "Operation", f"{type(s)} {type(t)}")
        E.true("modes", tuple(t.modes) == tuple(sorted(core)) and s.modes == psi.modes, f"{t.modes} {s.modes}")
        block_zero(E, "core", s, core)
        same(E, "recomposed", s >> t, psi)
        same(E, "input untouched", psi, Ket.from_bargmann(tuple(modes), (A, b, c)))
    return fn


def physical_ket(modes, core):
    def fn(E):
        from mrmustard.lab import Ket
        n, M = len(modes), len(core)
        if E.sym:
            ic, io = split(modes, sorted(core))
            r = [E.squeeze(f"r{i}") for i in range(M)]
            t = [ch(E, x)[1] / ch(E, x)[0] for x in r]
            s = [1 / (ch(E, x)[0] * ch(E, x)[0]) for x in r]
            V = E.arr([[expi(E, E.angle("f"))]]) if M == 1 else E.arr(u2(E, "v") if callable(u2) else None)
            Am = V @ np.diag(t) @ V.T
            use_eigh(E, None, s, V)
            A, b = assemble(E, n, ic, io, Am, E.arr([[E.cplx(f"R{i}{j}") for j in range(M)] for i in range(n - M)]).reshape(n - M, M),
                            E.csym(n - M, "n"), E.cvec(M, "bm"), E.cvec(n - M, "bn"))
            c = E.arr(E.cplx("c"))
        else:
            A, b, c = O_gauss_ket(E.rng, n)
        psi = Ket.from_bargmann(tuple(modes), (A, b, c))
        core_state, U = psi.physical_stellar_decomposition(core)
        E.true("kinds", type(core_state).__name__ == "Ket" and type(U).__name__ == "Unitary", f"{type(core_state)} {type(U)}")
        E.true("modes", tuple(U.modes) == tuple(sorted(core)) and core_state.modes == psi.modes)
        block_zero(E, "core", core_state, core)
        if E.sym:
            tU = arrs(E, U.bargmann_triple())
            m = M
            A_, b_ = tU[0], tU[1]
            perm = list(range(m, 2 * m)) + list(range(m))
            td = (E.conj(A_[np.ix_(perm, perm)]), E.conj(b_[perm]), E.conj(item(tU[2])))
            # U^dag U: out of U with in of U^dag
            for nm, (x, y) in (("U dagger U", ((A_, b_), td)), ("U U dagger", ((td[0], td[1]), (A_, b_, 0)))):
                i1, i2 = list(range(m)), list(range(m, 2 * m))
                Ac, bc, cc = O.contract(E, (x[0], x[1], 1), (y[0], y[1], 1), i1, i2)
                k = list(range(m, 2 * m)) + list(range(m))
                E.eq(nm + ": A", E.arr(Ac), O.xmat(m).astype(complex))
                E.eq(nm + ": b", E.arr(bc), np.zeros(2 * m, dtype=complex))
                q = item(tU[2]) * E.conj(item(tU[2]))
                E.eq(nm + ": normalisation", E.arr(cc * q * q), E.arr(1), shape=False)
        else:
            unitary_native(E, U)
        same(E, "recomposed", core_state >> U, psi)
    return fn


def formal_dm(modes, core):
    def fn(E):
        from mrmustard.lab import DM
        n = len(modes)
        if E.sym:
            A, b, c = E.csym(2 * n, "A"), E.cvec(2 * n, "b"), E.arr(E.cplx("c"))
        else:
            A, b, c = O_gauss_dm(E.rng, n)
        rho = DM.from_bargmann(tuple(modes), (A, b, c))
        s, t = rho.formal_stellar_decomposition(core)
        E.true("kinds", type(s).__name__ == "DM" and type(t).__name__ == "Map", f"{type(s)} {type(t)}")
        E.true("modes", tuple(t.modes) == tuple(sorted(core)) and s.modes == rho.modes)
        block_zero(E, "core", s, core)
        same(E, "recomposed", s >> t, rho)
    return fn


# ------------------------------------------------------------------------------ native states
def O_gauss_ket(rng, n, disp=True):
    S = O.rand_symplectic(rng, n, .5)
    mu = rng.normal(size=2 * n) * (.7 if disp else 0)
    A, b, c = O.triple_from_moments(S @ S.T / 2, mu, 1.0)
    # pure: the ket block
    A, b = np.asarray(A)[n:, n:], np.asarray(b)[n:]
    c = np.sqrt(np.abs(np.asarray(c)).item()) * np.exp(1j * rng.uniform(0, 6))
    return A, b, np.array(c)


def O_gauss_dm(rng, n, disp=True):
    cov, mu = O.rand_gauss_dm(rng, n, .5, .7, .7 if disp else 0)
    A, b, c = O.triple_from_moments(cov, mu, 1.0)
    return np.asarray(A), np.asarray(b), np.asarray(c)


def unitary_native(E, U, tol=1e-6):
    A, b, c = (np.asarray(x) for x in U.bargmann_triple())
    bs = c.shape
    m = b.shape[-1] // 2
    for i in np.ndindex(*bs):
        a_, b_, c_ = A[i], b[i], c[i]
        perm = list(range(m, 2 * m)) + list(range(m))
        td = (np.conj(a_[np.ix_(perm, perm)]), np.conj(b_[perm]), np.conj(c_))
        for nm, (x, y) in (("U dagger U", ((a_, b_, c_), td)), ("U U dagger", (td, (a_, b_, c_)))):
            Ac, bc, cc = O.contract(E, x, y, list(range(m)), list(range(m, 2 * m)))
            E.eq(nm + ": A", np.asarray(Ac), O.xmat(m).astype(complex), tol=tol)
            E.eq(nm + ": b", np.asarray(bc), np.zeros(2 * m), tol=tol)
            E.eq(nm + ": normalisation", np.asarray(cc), 1, shape=False, tol=tol)


def channel_native(E, phi, tol=1e-6):
    """completely positive and trace preserving"""
    A, b, c = (np.asarray(x) for x in phi.bargmann_triple())
    m = b.shape[-1] // 4
    ob, ib, ok, ik = (list(range(k * m, (k + 1) * m)) for k in range(4))
    for i in np.ndindex(*c.shape):
        a_, b_, c_ = A[i], b[i], c[i]
        # trace over the output
        At, bt, ct = O.integrate(E, a_, b_, c_, list(zip(ob, ok)))
        E.eq("trace preserving: A", np.asarray(At), O.xmat(m).astype(complex), tol=tol)
        E.eq("trace preserving: b", np.asarray(bt), np.zeros(2 * m), tol=tol)
        E.eq("trace preserving: c", np.asarray(ct), 1, shape=False, tol=tol)
        # Hermitian and positive as a two-sided array: bra is the conjugate of ket, cross block positive
        h = list(ob) + list(ib)
        k = list(ok) + list(ik)
        E.eq("Hermitian: A", a_[np.ix_(h, h)], np.conj(a_[np.ix_(k, k)]), tol=tol)
        E.eq("Hermitian: cross", a_[np.ix_(h, k)], np.conj(a_[np.ix_(h, k)].T), tol=tol)
        E.eq("Hermitian: b", b_[h], np.conj(b_[k]), tol=tol)
        E.true("completely positive", np.linalg.eigvalsh((a_[np.ix_(h, k)] + a_[np.ix_(h, k)].conj().T) / 2).min() > -tol, "negative cross block")


def state_native(E, core, tol=1e-6):
    """norm (trace) one and positive"""
    A, b, c = (np.asarray(x) for x in core.bargmann_triple())
    ket = type(core).__name__ == "Ket"
    m = b.shape[-1] // (1 if ket else 2)
    for i in np.ndindex(*c.shape):
        t = (A[i], b[i], c[i])
        if ket:
            t = O.dm_triple(E, t) if hasattr(O, "dm_triple") else t
        a_, b_, c_ = (np.asarray(x) for x in t)
        _, _, tr = O.integrate(E, a_, b_, c_, [(k, m + k) for k in range(m)])
        E.eq("core: trace one", np.asarray(tr), 1, shape=False, tol=tol)
        if not ket:
            h, k = list(range(m)), list(range(m, 2 * m))
            E.eq("core: Hermitian", a_[np.ix_(h, h)], np.conj(a_[np.ix_(k, k)]), tol=tol)
            E.true("core: positive", np.linalg.eigvalsh((a_[np.ix_(h, k)] + a_[np.ix_(h, k)].conj().T) / 2).min() > -tol)


LABELS = {2: [(0, 1), (3, 11), (2, 9)], 3: [(0, 1, 2), (3, 11, 19), (1, 9, 33)], 4: [(0, 1, 2, 3), (0, 8, 16, 24)]}


def special_ket(rng, n, core_idx):
    """kets with degenerate blocks"""
    k = int(rng.integers(6))
    if k == 0:      # coherent product
        return np.zeros((n, n), dtype=complex), (rng.normal(size=n) + 1j * rng.normal(size=n)) * .4, np.array(.7 + .1j)
    if k == 1:      # vacuum
        return np.zeros((n, n), dtype=complex), np.zeros(n, dtype=complex), np.array(1.0 + 0j)
    if k == 2:      # product of single-mode states, some unsqueezed
        A = np.diag([0 if rng.integers(2) else .6 * np.exp(1j * rng.uniform(0, 6)) for _ in range(n)]).astype(complex)
        return A, (rng.normal(size=n) + 0j) * rng.integers(2), np.array(1.0 + 0j)
    if k == 3:      # two-mode squeezing only
        A = np.zeros((n, n), dtype=complex)
        p = rng.permutation(n)
        for i in range(0, n - 1, 2):
            A[p[i], p[i + 1]] = A[p[i + 1], p[i]] = rng.uniform(.1, .8)
        return A, (rng.normal(size=n) + 1j * rng.normal(size=n)) * .3 * rng.integers(2), np.array(1.0 + 0j)
    if k == 4:      # equal squeezing everywhere (degenerate eigenvalues)
        return np.eye(n, dtype=complex) * .4, (rng.normal(size=n) + 1j * rng.normal(size=n)) * .3, np.array(.3j)
    return O_gauss_ket(rng, n, False)


def norm_dm(A, b):
    class E_:
        sym = False
        arr = staticmethod(np.array)
        sqrt = staticmethod(np.sqrt)
        conj = staticmethod(np.conj)
    n = len(b) // 2
    _, _, c = O.integrate(E_, A, b, 1.0 + 0j, [(k, n + k) for k in range(n)])
    return np.array(1 / np.asarray(c).item())


def dm_of(t):
    A, b, c = (np.asarray(x) for x in t)
    n = len(b)
    Z = np.zeros((n, n))
    A2 = np.block([[A.conj(), Z], [Z, A]])
    b2 = np.concatenate([b.conj(), b])
    return A2, b2, norm_dm(A2, b2)


def special_dm(rng, n, core_idx):
    k = int(rng.integers(5))
    if k == 0:      # a pure state
        return dm_of(special_ket(rng, n, core_idx))
    if k == 1:      # product of thermal-like states
        nu = 0.5 + rng.uniform(0, 1, size=n) * rng.integers(0, 2, size=n)
        return tuple(np.asarray(x) for x in O.triple_from_moments(np.diag(np.concatenate([nu, nu])), rng.normal(size=2 * n) * .5, 1.0))
    if k == 2:      # vacuum
        return dm_of((np.zeros((n, n), dtype=complex), np.zeros(n, dtype=complex), 1))
    if k == 3:      # a pure state with noise on the core modes only
        cov, mu = O_cov_pure(rng, n)
        for i in core_idx:
            g = rng.uniform(0.1, .5, size=2)
            cov[i, i] += g[0]
            cov[n + i, n + i] += g[1]
        return tuple(np.asarray(x) for x in O.triple_from_moments(cov, mu, 1.0))
    return O_gauss_dm(rng, n, False)


def O_cov_pure(rng, n):
    S = O.rand_symplectic(rng, n, .5)
    return S @ S.T / 2, rng.normal(size=2 * n) * .6


def batch_of(rng, make):
    shape = [(), (), (3,), (2, 2), (1,)][int(rng.integers(5))]
    if not shape:
        return shape, make()
    ts = [make() for _ in range(int(np.prod(shape)))]
    return shape, tuple(np.stack([np.asarray(t[k]) for t in ts]).reshape(shape + np.shape(ts[0][k])) for k in range(3))


def pick_core(rng, modes, M=None):
    M = M or int(rng.integers(1, len(modes)))
    core = sorted(int(x) for x in rng.choice(modes, size=M, replace=False))
    return core if rng.integers(2) else tuple(core)


def recompose(E, nm, core, T, want, tol):
    """element by element of the batch"""
    from mrmustard.lab import DM
    t, u, w = ([np.asarray(x) for x in y.bargmann_triple()] for y in (core, T, want))
    bs = w[2].shape
    E.true(nm + ": batch shapes", t[2].shape == bs and u[2].shape == bs, f"{t[2].shape} {u[2].shape} {bs}")
    for i in np.ndindex(*bs):
        a = type(core).from_bargmann(core.modes, tuple(x[i] for x in t))
        b = type(T).from_bargmann(T.modes, T.modes, tuple(x[i] for x in u))
        same(E, nm, a >> b, type(want).from_bargmann(want.modes, tuple(x[i] for x in w)), tol)


def native(method, cls, kind):
    def fn(E):
        from mrmustard import settings
        import mrmustard.lab as lab
        rng = E.rng
        n = int(rng.choice([2, 3, 4]))
        modes = LABELS[n][int(rng.integers(len(LABELS[n])))]
        ket = cls == "Ket"
        if method == "physical_stellar_decomposition" and not ket:
            n = int(rng.choice([2, 4]))
            modes = LABELS[n][int(rng.integers(len(LABELS[n])))]
            core = pick_core(rng, modes, n // 2)
        elif method.endswith("mixed") and kind == "random":
            M = int(rng.integers(-(-n // 2), n))
            core = pick_core(rng, modes, M)
        else:
            core = pick_core(rng, modes)
        ci = [modes.index(m) for m in core]
        if kind == "random":
            make = lambda: (O_gauss_ket if ket else O_gauss_dm)(rng, n)  # noqa
        else:
            make = lambda: (special_ket if ket else special_dm)(rng, n, ci)  # noqa
        if kind == "few core modes":
            # fewer core modes than others, with correlations of rank one: a pure state with noise on the core modes
            def make():
                cov, mu = O_cov_pure(rng, n)
                for i in ci:
                    cov[i, i] += rng.uniform(.1, .5)
                    cov[n + i, n + i] += rng.uniform(.1, .5)
                return tuple(np.asarray(x) for x in O.triple_from_moments(cov, mu, 1.0))
        shape, t = batch_of(rng, make)
        E.note(modes, core, shape)
        state = getattr(lab, cls).from_bargmann(modes, t)
        with settings(HBAR=float(rng.choice([1.0, 2.0]))):
            try:
                c, T = getattr(state, method)(core)
            except ValueError as e:
                if "not possible" in str(e) and kind != "random":
                    raise Skip()
                raise
            tol = 1e-5 if kind != "random" else 2e-6
            E.true("modes", tuple(T.modes) == tuple(core) and c.modes == state.modes, f"{T.modes} {c.modes}")
            want = {"formal_stellar_decomposition": {"Ket": ("Ket", "Operation"), "DM": ("DM", "Map")}[cls],
                    "physical_stellar_decomposition": {"Ket": ("Ket", "Unitary"), "DM": ("Ket", "Channel")}[cls],
                    "physical_stellar_decomposition_mixed": ("DM", "Channel")}[method]
            E.true("kinds", (type(c).__name__, type(T).__name__) == want, f"{type(c)} {type(T)}")
            block_zero(E, "core", c, core, tol)
            recompose(E, "recomposed", c, T, state, tol)
            if want[1] == "Unitary":
                unitary_native(E, T, tol)
            if want[1] == "Channel":
                channel_native(E, T, tol)
                state_native(E, c, tol)
                E.true("channel reported physical", bool(np.all(T.is_physical))) if not shape else None
            if not shape:
                # finite support: the projection on vacuum of the other modes is the vacuum of the core modes
                others = [m for m in modes if m not in core]
                p = c >> lab.Vacuum(others).dual
                A, b, _ = (np.asarray(x) for x in p.bargmann_triple())
                E.eq("vacuum after projection: A", A, np.zeros(A.shape), tol=tol)
                E.eq("vacuum after projection: b", b, np.zeros(b.shape), tol=tol)
    return fn


def refusals(E):
    """states the decomposition cannot serve are refused, not decomposed wrongly"""
    import mrmustard.lab as lab
    rng = E.rng
    rho = lab.DM.from_bargmann((0, 1, 2), O_gauss_dm(rng, 3))
    E.raises("number of core modes", lambda: rho.physical_stellar_decomposition([0]), ValueError)
    E.raises("rank condition", lambda: rho.physical_stellar_decomposition_mixed([1]), ValueError)


def bigrank(E):
    """the mixed decomposition with more core modes than others, and the rank condition met by construction"""
    return native("physical_stellar_decomposition_mixed", "DM", "few core modes")(E)


def register(R):
    K, D = "mrmustard/lab/states/ket.py:Ket.", "mrmustard/lab/states/dm.py:DM."
    for modes, core in (((0, 1), [0]), ((3, 11), (11,)), ((0, 1, 2), (0, 2)), ((3, 11, 19), [11]), ((0, 1, 2, 3), [1, 3])):
        R.ob(f"formal, ket {modes} core {tuple(core)}", formal_ket(modes, core), [K + "formal_stellar_decomposition"], num=2)
    for modes, core in (((0, 1), [0]), ((3, 11), (11,)), ((3, 11, 19), [11]), ((0, 1, 2), (0, 2)), ((0, 8, 16, 24), (8, 16))):
        R.ob(f"physical, ket {modes} core {tuple(core)}", physical_ket(modes, core), [K + "physical_stellar_decomposition"], num=2, timeout=400)
    for modes, core in (((0, 1), [0]), ((3, 11), (11,)), ((3, 11, 19), [11])):
        R.ob(f"formal, dm {modes} core {tuple(core)}", formal_dm(modes, core), [D + "formal_stellar_decomposition"], num=2)
    for cls, methods in (("Ket", ("formal_stellar_decomposition", "physical_stellar_decomposition")),
                         ("DM", ("formal_stellar_decomposition", "physical_stellar_decomposition", "physical_stellar_decomposition_mixed"))):
        for m in methods:
            short = m.replace("_stellar_decomposition", "").replace("_", " ")
            for kind in ("random", "special") + (("few core modes",) if m.endswith("mixed") else ()):
                R.bounded(f"{short}, {kind} {cls}", native(m, cls, kind), [(K if cls == "Ket" else D) + m], num=12)
    R.bounded("refused states", refusals, [D + "physical_stellar_decomposition", D + "physical_stellar_decomposition_mixed"], num=2)
    R.explanation = ("P21: the Ket decompositions and the formal density-matrix one are executed on free triples (Takagi-parametrised core block, contract of the eigensolver) and recomposed; "
                     "the others natively on random and degenerate states")
