"""P20: measurement samples follow the state's outcome distribution and are reproducible.

The sampler is verified against the contract of numpy's `Generator.choice(a, size, p=p)`: it draws rows of `a` with
probabilities `p`.  The stand-in generator below steers every draw towards a chosen outcome and records the probability
the sampler gave to it: the product along the draws is the law of the sampled outcome, which must be the state's.
"""
import itertools
import numpy as np
import oracle as O
from common import *
from harness import Skip, Undecided


class Steered(np.random.Generator):
    """draws the target outcome, recording the probability assigned to it"""

    def __init__(self, target):
        super().__init__(np.random.PCG64(7))
        self.target = list(target)
        self.i = 0
        self.law = []
        self.totals = []

    def choice(self, a, size=None, replace=True, p=None, axis=0, shuffle=True):
        if isinstance(a, int | np.integer) or p is None or size not in (1, (1,)):
            raise Undecided("draws of another kind")
        rows = [tuple(np.atleast_1d(r)) for r in a]
        k = len(rows[0])
        want = self.target[self.i:self.i + k]
        self.i += k
        hit = [j for j, r in enumerate(rows) if all(x == y for x, y in zip(r, want))]
        if len(hit) != 1:
            raise Undecided("outcome not in the list")
        p = np.asarray(p)
        if p.shape != (len(rows),):
            raise Undecided("draws of another kind")
        self.law.append(p[hit[0]])
        self.totals.append(sum(p[j] for j in range(len(p))))
        return np.asarray(a)[hit]

    def random(self, *a, **k):
        raise Undecided("draws of another kind")
    uniform = integers = multinomial = permutation = normal = random


def steered_law(E, sampler, state, target):
    """the probability that the sampler returns `target` as its only sample"""
    from mrmustard import settings
    g = Steered(target)
    old, dr = settings.rng, np.random.default_rng
    settings.rng = g
    np.random.default_rng = lambda seed=None: seed if isinstance(seed, np.random.Generator) else g
    try:
        s = sampler.sample(state, 1, **({"seed": 3} if E.rng.integers(2) else {}))
    finally:
        settings.rng, np.random.default_rng = old, dr
    return s, g


def law(E, nm, sampler, state, target, want, tol=1e-7):
    s, g = steered_law(E, sampler, state, target)
    m = len(target)
    E.true(nm + ": shape", np.shape(s) == (1, m), str(np.shape(s)))
    E.true(nm + ": the drawn outcome is returned", all(x == y for x, y in zip(np.asarray(s)[0], target)), f"{s} {target}")
    E.true(nm + ": all modes drawn", g.i == m, f"{g.i} of {m}")
    got = 1
    for p in g.law:
        got = got * p
    for t in g.totals:
        E.eq(nm + ": total probability of a draw", E.arr(t) if E.sym else np.asarray(t), 1, shape=False)
    E.eq(nm + ": probability", E.arr(got) if E.sym else np.asarray(got), want, shape=False, tol=tol)


# --------------------------------------------------------------------------- exact: number basis
def sphere(E, n, p):
    """n amplitudes of norm one, free: positive weights over their total, and free phases"""
    d = [E.pos(f"{p}{i}") for i in range(n)]
    tot = 0
    for x in d:
        tot = tot + x
    return [E.sqrt(x) / E.sqrt(tot) * expi(E, E.angle(f"{p}f{i}")) for i, x in enumerate(d)]


def exact_ket(shape, modes, cutoff):
    def fn(E):
        from mrmustard.lab import Ket
        from mrmustard.physics.ansatz import ArrayAnsatz
        from mrmustard.physics.wires import Wires
        from mrmustard.lab.samplers import PNRSampler
        n = int(np.prod(shape))
        a = E.arr(np.array(sphere(E, n, "a"), dtype=object)).reshape(shape) if E.sym else np.array(sphere(E, n, "a")).reshape(shape)
        st = Ket(ansatz=ArrayAnsatz(a, 0), wires=Wires(set(), set(), set(modes), set()))
        for t in itertools.product(*(range(k) for k in shape)):
            law(E, f"outcome {t}", PNRSampler(cutoff), st, t, a[t] * E.conj(a[t]))
    return fn


def exact_dm(shape, modes, cutoff):
    def fn(E):
        from mrmustard.lab import DM
        from mrmustard.physics.ansatz import ArrayAnsatz
        from mrmustard.physics.wires import Wires
        from mrmustard.lab.samplers import PNRSampler
        n = int(np.prod(shape))
        # any Hermitian array of trace one with positive diagonal: x_i^2-weighted diagonal and free coherences
        d = [E.pos(f"d{i}") for i in range(n)]
        tot = 0
        for x in d:
            tot = tot + x
        rho = np.zeros((n, n), dtype=object if E.sym else complex)
        for i in range(n):
            rho[i, i] = d[i] / tot
            for j in range(i):
                z = E.cplx(f"z{i}{j}")
                rho[i, j], rho[j, i] = z, E.conj(z)
        if not E.sym:
            rho = rho.reshape(shape + shape)
        else:
            rho = E.arr(rho).reshape(shape + shape)
        rho_t = np.conj(rho) if not E.sym else E.conj(rho)      # bra indices first
        st = DM(ansatz=ArrayAnsatz(rho_t, 0), wires=Wires(set(modes), set(), set(modes), set()))
        for t in itertools.product(*(range(k) for k in shape)):
            i = int(np.ravel_multi_index(t, shape))
            law(E, f"outcome {t}", PNRSampler(cutoff), st, t, d[i] / tot)
    return fn


# --------------------------------------------------------------------------- native: laws
LABELS = [(0, 1, 2), (3, 11, 19), (2, 5, 9), (1, 9, 33)]


def rstate(rng, m, small=True):
    """a random normalised state on m modes, and its kind"""
    import mrmustard.lab as lab
    from mrmustard.physics.wires import Wires
    from mrmustard.physics.ansatz import ArrayAnsatz
    modes = LABELS[int(rng.integers(len(LABELS)))][:m]
    k = int(rng.integers(7))

    def gauss(r=.4, d=.5):
        st = None
        for q in modes:
            x = lab.SqueezedVacuum(q, float(rng.uniform(0, r)), float(rng.uniform(0, 6))) >> lab.Dgate(q, complex(*rng.normal(size=2)) * d)
            st = x if st is None else st >> x
        for i in range(m - 1):
            st = st >> lab.BSgate((modes[i], modes[i + 1]), float(rng.uniform(0, 3)), float(rng.uniform(0, 6)))
        return st
    if k == 0:
        return "ket", gauss()
    if k == 1:
        st = gauss()
        for q in modes:
            if rng.integers(2):
                st = st >> lab.Attenuator(q, float(rng.uniform(.2, .9)))
        return "dm", st.dm() if isinstance(st, lab.Ket) else st
    if k == 2:
        a, b = gauss(.3), gauss(.3)
        return "superposition", (a + complex(*rng.normal(size=2)) * b).normalize()
    if k == 3:
        a, b = gauss(.3), gauss(.3)
        return "superposition dm", (a + complex(*rng.normal(size=2)) * b).normalize().dm()
    shape = tuple(int(x) for x in rng.integers(1, 4, size=m))
    if k == 4:
        arr = rng.normal(size=shape) + 1j * rng.normal(size=shape)
        if rng.integers(2):
            arr[tuple(int(rng.integers(s)) for s in shape)] = 0
        arr = arr + (1 if not arr.any() else 0)
        return "array ket", lab.Ket(ansatz=ArrayAnsatz(arr / np.linalg.norm(arr), 0), wires=Wires(set(), set(), set(modes), set()))
    n = int(np.prod(shape))
    X = rng.normal(size=(n, n)) + 1j * rng.normal(size=(n, n))
    rho = X @ X.conj().T
    rho = rho / np.trace(rho)
    if k == 5:
        return "array dm", lab.DM(ansatz=ArrayAnsatz(rho.reshape(shape + shape), 0), wires=Wires(set(modes), set(), set(modes), set()))
    st = None
    for q in modes:
        x = lab.Number(q, int(rng.integers(0, 3)))
        st = x if st is None else st >> x
    return "number", st


def number_law(st, cutoff):
    """photon-number distribution, one index per mode, from the number-basis array"""
    import mrmustard.lab as lab
    m = len(st.modes)
    arr = np.asarray(st.fock_array((cutoff,) * (m if isinstance(st, lab.Ket) else 2 * m)))
    if isinstance(st, lab.Ket):
        return np.abs(arr) ** 2
    out = np.zeros((cutoff,) * m)
    for t in itertools.product(range(cutoff), repeat=m):
        out[t] = np.real(arr[t + t])
    return out


def hermite_functions(xs, n, phi, hbar):
    """<x_phi | n>: oscillator functions along the rotated quadrature"""
    from scipy.special import eval_hermite
    from math import factorial
    y = xs / np.sqrt(hbar)
    return np.array([np.exp(-1j * k * phi) * eval_hermite(k, y) * np.exp(-y * y / 2) / np.sqrt(2.0 ** k * factorial(k) * np.sqrt(np.pi * hbar)) for k in range(n)])


def quad_density(st, pts, phi, hbar, cutoff):
    """joint density of the rotated quadratures at one point, from the number-basis array"""
    import mrmustard.lab as lab
    m = len(st.modes)
    ket = isinstance(st, lab.Ket)
    arr = np.asarray(st.fock_array((cutoff,) * (m if ket else 2 * m)))
    h = [hermite_functions(np.array([x]), cutoff, phi, hbar)[:, 0] for x in pts]
    if ket:
        for v in h:
            arr = np.tensordot(v, arr, axes=(0, 0))
        return np.abs(arr) ** 2
    for v in h:
        arr = np.tensordot(np.conj(v), arr, axes=(0, 0))
    for v in h:
        arr = np.tensordot(v, arr, axes=(0, 0))
    return np.real(arr)


def pnr_law(E):
    from mrmustard.lab.samplers import PNRSampler
    rng = E.rng
    m = int(rng.choice([1, 2, 2, 3]))
    k, st = rstate(rng, m)
    cutoff = 14 if m < 3 else 9
    E.note(k, st.modes)
    P = number_law(st, cutoff)
    s = PNRSampler(cutoff)
    if abs(P.sum() - 1) > 5e-5:
        raise Skip()
    # likely outcomes and a few others
    order = np.argsort(-P.ravel())
    picks = [np.unravel_index(int(order[i]), P.shape) for i in range(min(3, P.size))] + [tuple(int(x) for x in rng.integers(0, 4, size=m))]
    for t in picks:
        t = tuple(int(x) for x in t)
        first = P[t[0]].sum()
        if first < 1e-7:
            continue
        law(E, f"{k}", s, st, t, P[t] , tol=3e-4)
    # normalised conditional laws, to high accuracy: ratios of two outcomes that share the first count
    if m > 1:
        t = tuple(int(x) for x in picks[0])
        row = P[t[0]].ravel()
        js = np.argsort(-row)[:2]
        if row[js[1]] > 1e-9 and P[t[0]].sum() > 1e-6:
            ls = []
            for j in js:
                u = (t[0], *(int(x) for x in np.unravel_index(int(j), P.shape[1:])))
                ls.append(np.prod(steered_law(E, s, st, u)[1].law))
            E.eq(f"{k}: ratio of outcomes", np.asarray(ls[1] / ls[0]), row[js[1]] / row[js[0]], tol=1e-3, shape=False)


def homodyne_law(E):
    from mrmustard import settings
    from mrmustard.lab.samplers import HomodyneSampler
    rng = E.rng
    hbar = float(rng.choice([1.0, 2.0, .7]))
    with settings(HBAR=hbar):
        m = int(rng.choice([1, 2, 2, 3]))
        k, st = rstate(rng, m)
        E.note(k, st.modes, hbar)
        phi = float(E.pick(0.0, .7, np.pi / 2, -2.0))
        W = 6.5 * np.sqrt(hbar)
        num = 79
        s = HomodyneSampler(phi=phi, bounds=(-W, W), num=num)
        grid = list(s.meas_outcomes)
        step = grid[1] - grid[0]
        cutoff = 26 if m < 3 else 14
        if m > 1 and k in ("dm", "superposition dm", "array dm"):
            cutoff = 18 if m == 2 else 8
        acc = number_law(st, cutoff).sum() if m < 3 else None
        if acc is None:
            if not (k in ("array ket", "number") or (k == "array dm")):
                raise Skip()
        elif abs(acc - 1) > 1e-7:
            raise Skip()
        for _ in range(3):
            t = tuple(grid[int(i)] for i in rng.integers(num // 4, 3 * num // 4, size=m))
            want = quad_density(st, t, phi, hbar, cutoff) * step ** m
            if want < 1e-9:
                continue
            law(E, k, s, st, t, want, tol=2e-4)


def distribution_test(E):
    """frequencies of many samples (any way of drawing): chi-square at level 1e-10"""
    from scipy.stats import chi2
    from mrmustard.lab.samplers import PNRSampler, HomodyneSampler
    rng = E.rng
    m = int(rng.choice([1, 2, 2]))
    k, st = rstate(rng, m)
    E.note(k, st.modes)
    cutoff = 12
    P = number_law(st, cutoff)
    if abs(P.sum() - 1) > 5e-5:
        raise Skip()
    n = 1500
    seed = int(rng.integers(0, 2 ** 40)) if rng.integers(2) else None
    out = np.asarray(PNRSampler(cutoff).sample(st, n, **({} if seed is None else {"seed": seed})))
    E.true("shape", out.shape == (n, m), str(out.shape))
    E.true("whole numbers inside the cutoff", np.all(out == np.round(out)) and out.min() >= 0 and out.max() < cutoff)
    out = out.astype(int)
    cnt = np.zeros_like(P)
    for t in out:
        cnt[tuple(t)] += 1
    E.true("every sampled outcome is possible", np.all(P[cnt > 0] > 1e-13), str(P[cnt > 0].min()))
    big = P * n >= 5
    o = np.append(cnt[big], cnt[~big].sum())
    e = np.append(P[big] * n, max(P[~big].sum(), 0) * n)
    if e[-1] < 5:
        E.true("rare outcomes are rare", o[-1] < e[-1] + 40, f"{o[-1]} {e[-1]}")
        o, e = o[:-1], e[:-1]
    x = ((o - e) ** 2 / np.maximum(e, 1e-300)).sum()
    E.true("frequencies", chi2.sf(x, max(len(o) - 1, 1)) > 1e-10 or (len(o) == 1 and abs(o[0] - e[0]) <= 40), f"chi2 {x} over {len(o)}")


def homodyne_moments(E):
    """sample means and covariances of Gaussian states, from the symplectic description"""
    from mrmustard import settings
    from mrmustard.lab.samplers import HomodyneSampler
    rng = E.rng
    hbar = float(rng.choice([1.0, 2.0]))
    with settings(HBAR=hbar):
        while True:
            k, st = rstate(rng, 2)
            if k in ("ket", "dm"):
                break
        E.note(k, st.modes)
        phi = float(E.pick(0.0, .7, np.pi / 2))
        cov, mu, _ = (np.asarray(x) for x in st.phase_space(0))
        cov, mu = np.real(cov.reshape(4, 4)), np.real(mu.reshape(4))
        R = np.block([[np.cos(phi) * np.eye(2), np.sin(phi) * np.eye(2)]])
        cq, mq = R @ cov @ R.T, R @ mu
        n = 1200
        s = HomodyneSampler(phi=phi, bounds=(-14 * np.sqrt(hbar), 14 * np.sqrt(hbar)), num=241)
        out = np.asarray(s.sample(st, n, seed=int(rng.integers(1 << 30))))
        E.true("shape", out.shape == (n, 2), str(out.shape))
        Lc = np.linalg.cholesky(cq)
        z = np.linalg.solve(Lc, (out - mq).T)
        E.true("means", np.all(np.abs(z.mean(axis=1)) < 7 / np.sqrt(n)), str(z.mean(axis=1)))
        C = z @ z.T / n
        E.true("covariances", np.all(np.abs(C - np.eye(2)) < 7 * np.sqrt(2 / n) + .01), str(C))


def reproducible(E):
    from mrmustard import settings
    from mrmustard.lab.samplers import PNRSampler, HomodyneSampler
    rng = E.rng
    m = int(rng.choice([1, 2, 3]))
    k, st = rstate(rng, m)
    E.note(k, st.modes)
    if rng.integers(2) and m < 3:
        mk = lambda: HomodyneSampler(.4, (-9, 9), 121)  # noqa
    else:
        c = 12 if m < 3 else 9
        if abs(number_law(st, c).sum() - 1) > 5e-5:
            raise Skip()
        mk = lambda: PNRSampler(c)  # noqa
    s = mk()
    n = int(rng.integers(1, 40))
    seed = [0, 1, 2 ** 40 + 3, np.int64(5), int(rng.integers(0, 1 << 31)), 42][int(rng.integers(6))]
    a = np.asarray(s.sample(st, n, seed=seed))
    E.true("shape", a.shape == (n, m), str(a.shape))
    settings.rng.random(int(rng.integers(1, 5)))     # the global generator moves on
    s.sample(st, 3)
    other = rstate(rng, min(m, 2))[1]
    try:
        s.sample(other, 4, seed=seed)
    except ValueError:
        pass
    b = np.asarray(s.sample(st, n, seed=seed))
    E.true("same seed, same samples", np.array_equal(a, b), f"seed {seed!r}\n{a}\n{b}")
    E.true("same seed, new sampler", np.array_equal(a, np.asarray(mk().sample(st, n, seed=seed))))
    # a given seed does not depend on, nor disturb, the global generator
    settings.SEED = 77
    x = settings.rng.random(3)
    settings.SEED = 77
    c = np.asarray(s.sample(st, n, seed=seed))
    y = settings.rng.random(3)
    E.true("same seed, another global seed", np.array_equal(a, c))
    E.true("the global generator is left alone", np.array_equal(x, y))
    # and without a seed the global one decides
    settings.SEED = int(rng.integers(0, 1000))
    g = settings.SEED
    d = np.asarray(s.sample(st, n))
    settings.SEED = g
    e = np.asarray(s.sample(st, n))
    E.true("global seed", np.array_equal(d, e))
    # single distributions too
    if m == 1:
        p1, q1 = s.sample_prob_dist(st, n, seed=seed)
        p2, q2 = s.sample_prob_dist(st, n, seed=seed)
        E.true("sample_prob_dist", np.array_equal(p1, p2) and np.array_equal(q1, q2))


def seeds_matter(E):
    from mrmustard.lab import Thermal, Vacuum
    from mrmustard.lab.samplers import PNRSampler, HomodyneSampler
    s = HomodyneSampler(0, (-8, 8), 201)
    st = Vacuum(0) >> Vacuum(1)
    outs = [np.asarray(s.sample(st, 6, seed=i)) for i in range(4)]
    E.true("different seeds differ", not all(np.array_equal(outs[0], o) for o in outs[1:]))
    E.true("the two modes are independent draws", not np.array_equal(np.sort(outs[0][:, 0]), np.sort(outs[0][:, 1])))
    o = np.asarray(PNRSampler(40).sample(Thermal(3, 1.0), 30, seed=0))
    E.true("successive samples are independent draws", len(np.unique(o)) > 1)


def prob_dist(E):
    """the probabilities returned with the samples, and counts of samples"""
    from mrmustard.lab.samplers import PNRSampler, HomodyneSampler
    rng = E.rng
    m = int(rng.choice([1, 2]))
    k, st = rstate(rng, m)
    E.note(k, st.modes)
    c = 12
    P = number_law(st, c)
    if abs(P.sum() - 1) > 5e-5:
        raise Skip()
    s = PNRSampler(c)
    probs = np.asarray(s.probabilities(st))
    E.true("one probability per outcome", probs.shape == (c ** m,), str(probs.shape))
    E.eq("probabilities", probs, P.ravel(), tol=1e-4)
    E.eq("total", np.asarray(probs.sum()), 1.0, shape=False)
    n = int(rng.integers(1, 30))
    x, p = s.sample_prob_dist(st, n, seed=int(rng.integers(99)))
    x, p = np.asarray(x), np.asarray(p)
    E.true("counts", x.shape == (n, m) and p.shape == (n,), f"{x.shape} {p.shape}")
    for t, q in zip(x, p):
        E.eq("probability of a sample", np.asarray(q), P[tuple(int(i) for i in t)], tol=1e-4, shape=False)
    for n in (0, 1, 2):
        y = np.asarray(s.sample(st, n))
        E.true(f"{n} samples", y.shape == (n, m), str(y.shape))
    h = HomodyneSampler(.2, (-7, 7), 41)
    if k in ("array ket", "array dm", "number", "ket"):
        try:
            hp = np.asarray(h.probabilities(st))
        except ValueError:
            raise Skip()
        E.true("one probability per grid point", hp.shape == (41 ** m,), str(hp.shape))
        i = [int(v) for v in rng.integers(10, 31, size=m)]
        from mrmustard import settings
        cut = 26 if k == "ket" else 12
        want = quad_density(st, [h.meas_outcomes[j] for j in i], .2, settings.HBAR, cut if m == 1 or k != "array dm" else 6) * (14 / 40) ** m
        E.eq("probability of a grid point", np.asarray(hp[int(np.ravel_multi_index(i, (41,) * m))]), want, tol=2e-3 * max(want, .1), shape=False)


def unnormalised(E):
    """a distribution that misses the outcomes is refused"""
    from mrmustard.lab import Coherent, Number, Thermal
    from mrmustard.lab.samplers import PNRSampler, HomodyneSampler
    rng = E.rng
    E.raises("missing counts", lambda: PNRSampler(3).sample(Coherent(0, 2.0), 5), ValueError)
    E.raises("missing counts", lambda: PNRSampler(2).sample(Number(1, 2), 5), ValueError)
    E.raises("missing range", lambda: HomodyneSampler(0, (-1, 1), 100).sample(Thermal(0, 2.0), 5), ValueError)
    st = Coherent(0, .1)
    E.raises("unnormalised state", lambda: PNRSampler(10).sample(st * .9, 5), ValueError)


def custom(E):
    """samplers defined by a list of measurement operators"""
    from mrmustard.lab import Number
    from mrmustard.lab.samplers import Sampler
    rng = E.rng
    m = int(rng.choice([1, 2, 2, 3]))
    k, st = rstate(rng, m)
    if k not in ("array ket", "array dm", "number"):
        raise Skip()
    E.note(k, st.modes)
    perm = [int(x) for x in rng.permutation(4)]
    names = [10 * p + 1 for p in perm]

    class Labels(Sampler):
        def __init__(self):
            super().__init__(list(names), [Number(0, p, 4) for p in perm])

        def probabilities(self, state, atol=1e-4):
            P = number_law(state, 4)
            for ax in range(P.ndim):
                P = np.take(P, perm, axis=ax)
            return self._validate_probs(P.ravel(), atol)
    P = number_law(st, 4)
    s = Labels()
    for _ in range(4):
        t = tuple(int(x) for x in rng.integers(0, 3, size=m))
        if P[t[0]].sum() < 1e-9 or (m == 3 and P[t[0], t[1]].sum() < 1e-9):
            continue
        law(E, k, s, st, tuple(10 * x + 1 for x in t), P[t], tol=1e-7)


def untouched(E):
    """sampling leaves the state and the sampler as they were"""
    from mrmustard.lab.samplers import PNRSampler
    rng = E.rng
    k, st = rstate(rng, 2)
    c = 12
    if abs(number_law(st, c).sum() - 1) > 5e-5:
        raise Skip()
    s = PNRSampler(c)
    arr = np.array(st.fock_array(5))
    modes, outc = st.modes, list(s.meas_outcomes)
    s.sample(st, 20)
    E.eq("state", np.asarray(st.fock_array(5)), arr, tol=1e-12)
    E.true("modes", st.modes == modes and s.meas_outcomes == outc)


def register(R):
    S = "mrmustard/lab/samplers.py:"
    core = [S + "Sampler.sample", S + "Sampler.sample_prob_dist", S + "Sampler._get_povm", S + "Sampler._validate_probs", S + "PNRSampler.probabilities"]
    hom = [S + "HomodyneSampler.probabilities", S + "HomodyneSampler", S + "Sampler.sample_prob_dist"]
    for shape, modes, cut in (((2,), (3,), 2), ((3,), (0,), 3), ((2, 2), (0, 1), 2), ((2, 2), (3, 11), 3), ((2, 1, 2), (1, 9, 33), 2)):
        R.ob(f"law of photon counts, ket {shape} {modes}", exact_ket(shape, modes, cut), core, num=1, bound=f"amplitude arrays of shape {shape}, all values")
    for shape, modes, cut in (((2,), (3,), 2), ((2, 2), (0, 1), 2), ((2, 2), (3, 11), 2), ((1, 3), (2, 5), 3)):
        R.ob(f"law of photon counts, dm {shape} {modes}", exact_dm(shape, modes, cut), core, num=1, bound=f"density arrays of shape {shape}, all values")
    R.bounded("law of photon counts", pnr_law, core, num=25)
    R.bounded("law of homodyne outcomes", homodyne_law, hom, num=25)
    R.bounded("law of custom samplers", custom, core, num=20)
    R.bounded("frequencies of photon counts", distribution_test, core, num=8)
    R.bounded("moments of homodyne samples", homodyne_moments, hom, num=4)
    R.bounded("reproducible", reproducible, core + hom, num=20)
    R.bounded("seeds matter", seeds_matter, core + hom, num=2)
    R.bounded("probabilities of samples", prob_dist, core + hom, num=20)
    R.bounded("incomplete distributions are refused", unnormalised, core + hom, num=2)
    R.bounded("sampling changes nothing else", untouched, core, num=4)
    R.explanation = ("P20: the samplers are verified against the contract of numpy's Generator.choice: the product of the probabilities they hand to it is the law of the returned "
                     "outcome, which must equal the state's (exactly for free number-basis arrays; natively for every kind of state)")
