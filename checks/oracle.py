"""Independent oracles (no MrMustard code): written from the definitions, usable on exact and native numbers.

Conventions (documented in MrMustard): a component with Bargmann triple (A, b, c) represents
c exp(z A z / 2 + b z); z of an output ket wire <-> creation operator on the ket; measure exp(-|z|^2) d^2z / pi.
"""
from __future__ import annotations
import itertools
import math as pm
import numpy as np


def T(t):
    """plain arrays of a triple"""
    return tuple(np.asarray(x) if not isinstance(x, np.ndarray) else x for x in t)


def integrate(E, A, b, c, pairs):
    """exact Gaussian integral over the pairs (z, z*), one complex variable at a time.
    returns A', b', c' where c' is squared in exact mode (principal roots are compared natively)"""
    A, b = E.arr(A), E.arr(b)
    n = A.shape[-1]
    alive = list(range(n))
    c = c * c if E.sym else c
    pairs = list(pairs)
    while pairs:
        if not E.sym:  # pick the best conditioned pivot
            def piv(p):
                i, j = alive.index(p[0]), alive.index(p[1])
                return -abs((1 - A[i, j]) ** 2 - A[i, i] * A[j, j])
            pairs.sort(key=piv)
        p = pairs.pop(0)
        i, j = alive.index(p[0]), alive.index(p[1])
        M = E.arr([[A[i, i], A[i, j] - 1], [A[i, j] - 1, A[j, j]]])
        det = (A[i, j] - 1) * (A[i, j] - 1) - A[i, i] * A[j, j]   # = -det M
        Mi = E.arr([[-A[j, j] / det, (A[i, j] - 1) / det], [(A[i, j] - 1) / det, -A[i, i] / det]])
        rest = [k for k in range(len(alive)) if k not in (i, j)]
        D = A[np.ix_(rest, [i, j])]
        u = E.arr([b[i], b[j]])
        e = (u @ Mi @ u) * (-0.5 if not E.sym else E._s.Fraction(-1, 2))
        if E.sym:
            c = c * E.exp(e * 2) / det
        else:
            c = c * np.exp(e) / np.sqrt(det + 0j)
        b = b[rest] - D @ (Mi @ u) if rest else np.zeros((0,), dtype=complex)
        A = A[np.ix_(rest, rest)] - D @ Mi @ D.T if rest else np.zeros((0, 0), dtype=complex)
        alive = [alive[k] for k in rest]
    return A, b, c


def eqc(E, label, c_repo, c_oracle, tol=1e-7):
    """compare a scalar coefficient with the oracle's (squared in exact mode)"""
    c_repo = np.asarray(c_repo) if not E.sym else c_repo
    if E.sym:
        x = np.asarray(c_repo, dtype=object)
        x = x.item() if x.ndim == 0 else x
        E.eq(label, x * x, c_oracle, shape=False)
    else:
        E.eq(label, c_repo, c_oracle, tol=tol, shape=False)


def direct_sum(E, t1, t2):
    A1, b1, c1 = t1
    A2, b2, c2 = t2
    n1, n2 = A1.shape[-1], A2.shape[-1]
    dt = object if E.sym else complex
    A = np.zeros((n1 + n2, n1 + n2), dtype=dt)
    if n1:
        A[:n1, :n1] = A1
    if n2:
        A[n1:, n1:] = A2
    return A, np.concatenate([np.asarray(b1), np.asarray(b2)]), c1 * c2


def contract(E, t1, t2, idx1, idx2):
    n1 = t1[0].shape[-1]
    A, b, c = direct_sum(E, t1, t2)
    return integrate(E, A, b, c, [(i, n1 + j) for i, j in zip(idx1, idx2)])


def xmat(m, E=None):
    X = np.zeros((2 * m, 2 * m), dtype=int)
    for i in range(m):
        X[i, m + i] = X[m + i, i] = 1
    return X


def dm_triple(E, t):
    """|psi><psi| : order (bra, ket)"""
    A, b, c = t
    return direct_sum(E, (E.conj(A), E.conj(b), E.conj(c)), t)


def quad_matrix(E, m, hbar):
    """(q,p) = Q (a, a^dagger)"""
    s = E.sqrt(hbar * (E._s.Fraction(1, 2) if E.sym else 0.5))
    I = E._s.Sym.lift(1j) if E.sym else 1j
    Q = np.zeros((2 * m, 2 * m), dtype=object if E.sym else complex)
    for k in range(m):
        Q[k, k] = Q[k, m + k] = s
        Q[m + k, k] = -I * s
        Q[m + k, m + k] = I * s
    return Q


def moments(E, A, b, hbar):
    """means and symmetrised covariance of (q_1..q_m, p_1..p_m) of the (normalised) state with dm triple A,b"""
    m = A.shape[-1] // 2
    M = E.arr(A) - xmat(m)
    Mi = E.inv(M)
    mu = -(Mi @ b)
    h = E._s.Fraction(1, 2) if E.sym else 0.5
    V = -Mi - xmat(m) * h
    Q = quad_matrix(E, m, hbar)
    return Q @ mu, Q @ V @ Q.T


def ef_from_symplectic(E, S):
    """U^dag a U = Ea + F a^dag for U^dag (q,p) U = S (q,p)"""
    m = S.shape[-1] // 2
    h = E._s.Fraction(1, 2) if E.sym else 0.5
    I = E._s.Sym.lift(1j) if E.sym else 1j
    S = E.arr(S)
    qq, qp, pq, pp_ = S[:m, :m], S[:m, m:], S[m:, :m], S[m:, m:]
    Ee = (qq + pp_ + (pq - qp) * I) * h
    F = (qq - pp_ + (pq + qp) * I) * h
    return Ee, F


def unitary_relations(E, label, t, S, delta=None):
    """the operator with triple t (out, in) satisfies a_i U = U (E a + F a^dag + delta)_i"""
    A, b, c = t
    m = A.shape[-1] // 2
    Ee, F = ef_from_symplectic(E, S)
    A, b = E.arr(A), E.arr(b)
    oo, oi, io, ii = A[:m, :m], A[:m, m:], A[m:, :m], A[m:, m:]
    E.eq(label + ": creation part", oo, F @ io)
    E.eq(label + ": annihilation part", oi, Ee + F @ ii)
    d = delta if delta is not None else np.zeros(m, dtype=complex)
    E.eq(label + ": displacement", b[:m], F @ b[m:] + d)


def identity_check(E, label, t, m):
    """t (out,in) is the identity operator"""
    A, b, c = t
    E.eq(label + ": A", A, xmat(m).astype(complex))
    E.eq(label + ": b", b, np.zeros(2 * m, dtype=complex))


def unitarity(E, label, t):
    """U^dag U = 1 and U U^dag = 1"""
    A, b, c = t
    m = A.shape[-1] // 2
    perm = list(range(m, 2 * m)) + list(range(m))
    A, b = E.arr(A), E.arr(b)
    td = (E.conj(A[np.ix_(perm, perm)]), E.conj(b[perm]), E.conj(c))
    for nm, x, y in (("U^dag U", td, (A, b, c)), ("U U^dag", (A, b, c), td)):
        # x after y : in of x (m..2m) with out of y (0..m)
        r = contract(E, x, y, list(range(m, 2 * m)), list(range(m)))
        identity_check(E, f"{label}: {nm}", r, m)
        E.eq(f"{label}: {nm} norm", r[2], 1, shape=False)


# ------------------------------------------------------------------ number basis, by power series
def amplitudes(A, b, c, shape):
    """Taylor coefficients of c exp(zAz/2+bz) times sqrt(n!), by the power series of exp (native, complex or longdouble)"""
    shape = tuple(int(s) for s in shape)
    G = np.zeros(shape, dtype=complex)
    if 0 in shape:
        return G
    n = len(shape)
    A = np.asarray(A, dtype=complex).reshape(n, n)
    b = np.asarray(b, dtype=complex).reshape(n)
    for k in itertools.product(*(range(s) for s in shape)):
        i = next((i for i in range(n) if k[i]), None)
        if i is None:
            G[k] = c
            continue
        # coefficient recursion for exp(Q): k_i t_k = sum_l (dQ)_{l} t_{k-l}, t = G/sqrt(k!)
        p = list(k)
        p[i] -= 1
        v = b[i] * G[tuple(p)]
        for j in range(n):
            if p[j]:
                q = list(p)
                q[j] -= 1
                v = v + A[i, j] * np.sqrt(p[j]) * G[tuple(q)]
        G[k] = v / np.sqrt(k[i])
    return G


def taylor(E, A, b, c, shape):
    """Taylor coefficients of c exp(zAz/2+bz) times sqrt(n!), last available pivot (exact or native)"""
    A, b = E.arr(A), E.arr(b)
    n = len(shape)
    sq = (lambda k: E.sqrt(k)) if E.sym else np.sqrt
    G = np.empty(tuple(shape), dtype=object) if E.sym else np.zeros(tuple(shape), dtype=complex)
    for k in itertools.product(*(range(s) for s in shape)):
        i = next((i for i in reversed(range(n)) if k[i]), None)
        if i is None:
            G[k] = E._s.Sym.lift(c) if E.sym else c
            continue
        p = list(k)
        p[i] -= 1
        v = b[i] * G[tuple(p)]
        for j in range(n):
            if p[j]:
                q = list(p)
                q[j] -= 1
                v = v + A[i, j] * G[tuple(q)] * (sq(p[j]) if p[j] > 1 else 1)
        G[k] = v / sq(k[i]) if k[i] > 1 else v
    return G


def value(E, A, b, c, z):
    """value of one polynomial-times-exponential term at z (exact or native)"""
    if not E.sym:
        return poly_value(A, b, c, z)
    A, b, c = E.arr(A), E.arr(b), E.arr(c)
    n, N = len(z), len(b)
    e = 0
    for i in range(n):
        e = e + b[i] * z[i]
        for j in range(n):
            e = e + A[i, j] * z[i] * z[j] / 2
    e = E.exp(e) if n else 1
    if c.ndim == 0:
        return e * c.item()
    bp = E.arr([b[k] + sum((A[i, k] * z[i] for i in range(n)), 0) for k in range(n, N)])
    G = taylor(E, A[n:, n:], bp, 1, c.shape)
    t = 0
    for k in np.ndindex(*c.shape):
        t = t + c[k] * G[k]
    return e * t


def poly_value(A, b, c, z):
    """value at z of one PolyExp term: A over (core+derived), c tensor over derived"""
    A, b, c, z = (np.asarray(x, dtype=complex) for x in (A, b, c, z))
    n = len(z)
    e = np.exp(0.5 * z @ A[:n, :n] @ z + b[:n] @ z) if n else 1.0
    if c.ndim == 0:
        return e * c
    G = amplitudes(A[n:, n:], A[n:, :n] @ z + b[n:], 1.0, c.shape)
    return e * np.sum(c * G)


def fock_ops(N):
    a = np.diag(np.sqrt(np.arange(1, N)), 1).astype(complex)
    return a, a.conj().T


def expm(M):
    import scipy.linalg
    return scipy.linalg.expm(M)


def rand_unitary(rng, n):
    Z = rng.normal(size=(n, n)) + 1j * rng.normal(size=(n, n))
    Q, R = np.linalg.qr(Z)
    return Q * (np.diag(R) / np.abs(np.diag(R)))


def unitary_to_orth_symplectic(U):
    return np.block([[U.real, -U.imag], [U.imag, U.real]])


def rand_symplectic(rng, n, r=0.6):
    O1 = unitary_to_orth_symplectic(rand_unitary(rng, n))
    O2 = unitary_to_orth_symplectic(rand_unitary(rng, n))
    s = rng.uniform(-r, r, size=n)
    return O1 @ np.diag(np.concatenate([np.exp(-s), np.exp(s)])) @ O2


def omega(n):
    return np.block([[np.zeros((n, n)), np.eye(n)], [-np.eye(n), np.zeros((n, n))]])


def rand_gauss_dm(rng, m, r=0.5, nb=0.6, disp=0.6):
    """independent random Gaussian state: returns cov, means in units hbar=1 (vacuum = 1/2)"""
    S = rand_symplectic(rng, m, r)
    nu = 0.5 + rng.uniform(0, nb, size=m)
    return S @ np.diag(np.concatenate([nu, nu])) @ S.T, rng.normal(size=2 * m) * disp


def triple_from_moments(cov, mu, hbar):
    """dm triple (bra, ket) of a Gaussian state, inverse of `moments` (native)"""
    class _E:
        sym = False
        sqrt = staticmethod(np.sqrt)
    m = len(mu) // 2
    Q = quad_matrix(_E, m, hbar)
    Qi = np.linalg.inv(Q)
    V = Qi @ cov @ Qi.T
    mua = Qi @ mu
    Mi = -(V + 0.5 * xmat(m))
    M = np.linalg.inv(Mi)
    A = M + xmat(m)
    b = -M @ mua
    _, _, c = integrate(_NE, A, b, 1.0 + 0j, [(i, m + i) for i in range(m)])
    return A, b, 1 / c


class _NE:
    sym = False
    arr = staticmethod(lambda x: np.asarray(x, dtype=complex))


def native():
    return _NE
