"""P18: optimisation steps keep orthogonal / unitary / symplectic parameters on their manifold"""
import numpy as np
import oracle as O
from common import *
from harness import Skip


def J(n):
    return np.block([[np.zeros((n, n)), np.eye(n)], [-np.eye(n), np.zeros((n, n))]])


def jax_backend():
    from mrmustard import math
    math.change_backend("jax")
    return math


def updater(kind, lr):
    from mrmustard.training import parameter_update as pu
    return getattr(pu, "update_" + kind)(lr)


def in_group(E, label, kind, M, tol=1e-7):
    n = M.shape[-1]
    M = E.arr(M)
    Mt = np.swapaxes(M, -1, -2)
    if kind == "symplectic":
        w = J(n // 2)
        if not E.sym:
            E.true(label + " (real)", np.all(np.abs(np.imag(M)) < 1e-9))
        E.eq(label, M @ w @ Mt, np.broadcast_to(w, M.shape), tol=tol)
        return
    if kind == "orthogonal" and not E.sym:
        E.true(label + " (real)", np.all(np.abs(np.imag(M)) < 1e-9))
    E.eq(label, M @ (Mt if kind == "orthogonal" else E.conj(Mt)), np.broadcast_to(np.eye(n), M.shape), tol=tol)


def in_algebra(E, label, kind, X):
    n = X.shape[-1]
    Xt = np.swapaxes(E.arr(X), -1, -2)
    if kind == "symplectic":
        w = J(n // 2)
        E.eq(label, w @ X + Xt @ w, np.zeros((n, n)))
    elif kind == "orthogonal":
        E.eq(label, X + Xt, np.zeros((n, n)))
    else:
        E.eq(label, X + E.conj(Xt), np.zeros((n, n)))


def orth2(E, p):
    return rot(E, E.angle(p + "t"))


def orth3(E, p):
    def emb(a, i, j):
        c, s = cs(E, a)
        M = E.arr([[1 if k == l else 0 for l in range(3)] for k in range(3)])
        M = np.array(M, dtype=object)
        M[i, i], M[i, j], M[j, i], M[j, j] = c, -s, s, c
        return M
    return emb(E.angle(p + "a"), 0, 1) @ emb(E.angle(p + "b"), 1, 2) @ emb(E.angle(p + "g"), 0, 1)


def sp2(E, p):
    """a family of two-mode symplectic matrices (Euler form with a general beam splitter on either side)"""
    c, s = cs(E, E.angle(p + "th"))
    bs = E.arr([[c, -s, 0, 0], [s, c, 0, 0], [0, 0, c, -s], [0, 0, s, c]])
    r = [E.squeeze(p + f"r{i}") for i in range(2)]
    d = E.arr([[E.exp(-r[0]), 0, 0, 0], [0, E.exp(-r[1]), 0, 0], [0, 0, E.exp(r[0]), 0], [0, 0, 0, E.exp(r[1])]])
    return bs @ d


def point(E, kind, n, p=""):
    """element of the group, every element for the small sizes"""
    if not E.sym:
        if kind == "orthogonal":
            q, r = np.linalg.qr(E.rng.normal(size=(n, n)))
            return q * np.sign(np.diag(r))
        if kind == "unitary":
            return O.rand_unitary(E.rng, n)
        return O.rand_symplectic(E.rng, n)
    if kind == "orthogonal":
        return {1: lambda: E.arr([[E._s.Sym.lift(1)]]), 2: lambda: orth2(E, p), 3: lambda: orth3(E, p)}[n]()
    if kind == "unitary":
        if n == 1:
            return E.arr([[expi(E, E.angle(p + "t"))]])
        return u2(E, p)
    return euler1(E, p) if n == 1 else sp2(E, p)


def grad(E, kind, n, p="g"):
    d = 2 * n if kind == "symplectic" else n
    if kind == "symplectic":
        return E.rmat(d, d, p)
    return E.arr([[E.cplx(f"{p}{i}{j}") for j in range(d)] for i in range(d)])


def tangent(kind, n):
    """the Riemannian gradient lies in the Lie algebra and is the projection of the Euclidean one"""
    def fn(E):
        from mrmustard import math
        U = point(E, kind, n)
        G = grad(E, kind, n)
        if kind == "symplectic":
            Y = E.arr(math.euclidean_to_symplectic(U, G))
        else:
            if kind == "orthogonal":
                G = E.arr([[(x + E.conj(x)) * half(E) for x in row] for row in G])
                G = G if E.sym else G.real
            Y = E.arr(math.euclidean_to_unitary(U, G))
        in_algebra(E, "in the tangent space", kind, Y)
        # projection: <G, U X> = <Y, X> for every X in the algebra, X generated from an arbitrary matrix
        R = E.rmat(Y.shape[0], Y.shape[0], "x")
        if kind == "symplectic":
            w = J(n)
            X = R + w @ R.T @ w
        elif kind == "orthogonal":
            X = R - R.T
        else:
            R = R + E.rmat(Y.shape[0], Y.shape[0], "y") * I_(E)
            X = R - E.conj(R.T)
        a = np.sum(E.conj(E.arr(G)) * (U @ X))
        b = np.sum(E.conj(Y) * X)
        E.eq("projection of the gradient", a + E.conj(a), b + E.conj(b), shape=False)
        # zero gradient
        Z = G * 0
        Y0 = math.euclidean_to_symplectic(U, Z) if kind == "symplectic" else math.euclidean_to_unitary(U, Z)
        E.eq("zero gradient", Y0, np.zeros(U.shape))
    return fn


def step_contract(kind, n):
    """update_fn composed with the contract of expm: argument in the algebra => result any element of the group"""
    def fn(E):
        from mrmustard import math
        calls = []
        lr = E.real("lr", 0, 1)
        U = point(E, kind, n)
        G = grad(E, kind, n)
        if E.sym:
            def expm(X):
                X = E.arr(X)
                in_algebra(E, "argument of the matrix exponential in the Lie algebra", kind, X)
                calls.append(X)
                return point(E, kind, n, p=f"w{len(calls)}")
            math._backend.expm = expm
        else:
            jax_backend()
        t = updater(kind, lr)
        tree = ({"p": U},) if E.sym else (U,)
        ups, st = t.update(({"p": G},) if E.sym else (G,), t.init(tree), tree)
        new = U + (ups[0]["p"] if E.sym else np.asarray(ups[0]))
        if E.sym and not calls:
            from harness import Undecided
            raise Undecided("matrix exponential not called")
        in_group(E, "updated parameter on the manifold", kind, new)
    return fn


def first_order(kind, n):
    """derivative of the step at learning rate 0 is minus the Riemannian gradient (expm by its Taylor expansion)"""
    def fn(E):
        from mrmustard import math
        U = point(E, kind, n)
        G = grad(E, kind, n)
        if not E.sym:
            jax_backend()
        else:
            def expm(X):
                X = E.arr(X)
                I = E.arr([[1 if i == j else 0 for j in range(X.shape[0])] for i in range(X.shape[0])])
                return I + X if (kind, n) == ("symplectic", 2) else I + X + (X @ X) * half(E)
            math._backend.expm = expm

        def delta(lr):
            t = updater(kind, lr)
            ups, _ = t.update((G,), t.init((U,)), (U,))
            return E.arr(np.asarray(ups[0]))
        if E.sym:
            lr = E.real("lr")
            d = (delta(lr) - delta(-lr)) * half(E)
            d2 = (delta(lr * 2) - delta(-lr * 2)) * half(E)
            if (kind, n) == ("symplectic", 2):      # odd polynomial of degree <= 3
                lin = (d * 8 - d2) * E._s.Fraction(1, 6)
            else:                                   # odd polynomial of degree <= 5
                d3 = (delta(lr * 3) - delta(-lr * 3)) * half(E)
                lin = (d * 45 - d2 * 9 + d3) * E._s.Fraction(1, 30)
            lin = lin / lr if not isinstance(lin, np.ndarray) else E.arr([[x / lr for x in row] for row in lin])
            exact_step = lin
        else:
            h = 1e-4
            exact_step = (delta(h) - delta(-h)) / (2 * h)
        slope = np.sum(E.conj(E.arr(G)) * exact_step)
        slope = (slope + E.conj(slope)) * half(E)
        Gr = G
        if kind == "orthogonal":
            Gr = (G + E.conj(G)) * half(E)
        Z = (U.T if kind != "unitary" else E.conj(U.T)) @ Gr
        Y = (Z + J(n) @ Z.T @ J(n)) * half(E) if kind == "symplectic" else (Z - E.conj(Z.T)) * half(E)
        E.eq("descent direction: minus the Riemannian gradient", exact_step, -(U @ Y), tol=1e-5)
        E.eq("slope of the cost is minus the squared gradient norm", slope, -np.sum(Y * E.conj(Y)), tol=1e-5, shape=False)
        E.eq("no step for learning rate 0", delta(0 if not E.sym else E._s.Sym.lift(0)), np.zeros(U.shape))
    return fn


def native_steps(E):
    """many sizes, stacked parameters, several steps, gradients of very different sizes"""
    jax_backend()
    rng = E.rng
    for kind in ("orthogonal", "unitary", "symplectic"):
        n = int(rng.integers(1, 6))
        U = np.asarray(point(E, kind, n))
        d = U.shape[0]
        lr = float(rng.choice([1e-3, 0.1, 0.5, 1.0]))
        t = updater(kind, lr)
        params = [U, {"x": np.asarray(point(E, kind, int(rng.integers(1, 4))))}]
        st = t.init(params)
        scale = float(rng.choice([1e-4, 1.0, 3.0])) / (1 if kind != "symplectic" else max(1.0, np.linalg.norm(U) * lr * 2))
        for k in range(4):
            def g(M):
                x = rng.normal(size=M.shape) * scale
                return x + 1j * rng.normal(size=M.shape) * scale if kind == "unitary" else x
            grads = [g(params[0]), {"x": g(params[1]["x"])}]
            ups, st = t.update(grads, st, params)
            if kind == "symplectic" and (np.abs(np.asarray(ups[0])).max() > 1e3 or np.abs(np.asarray(ups[1]["x"])).max() > 1e3):
                break
            params = [params[0] + np.asarray(ups[0]), {"x": params[1]["x"] + np.asarray(ups[1]["x"])}]
            in_group(E, f"{kind} {d} after {k + 1} steps", kind, params[0], tol=1e-6)
            in_group(E, f"{kind} second leaf after {k + 1} steps", kind, params[1]["x"], tol=1e-6)
        zero = [0 * params[0], {"x": 0 * params[1]["x"]}]
        ups, st = t.update(zero, st, params)
        E.eq(f"{kind}: zero gradient changes nothing", np.asarray(ups[0]), np.zeros((d, d)), tol=1e-12)
        E.true(f"{kind}: update has the shape of the parameter", np.asarray(ups[1]["x"]).shape == params[1]["x"].shape)


def native_stacked(E):
    """a stack of matrices is updated matrix by matrix"""
    jax_backend()
    rng = E.rng
    for kind in ("orthogonal", "unitary", "symplectic"):
        n, k = int(rng.integers(1, 4)), int(rng.integers(2, 4))
        U = np.stack([np.asarray(point(E, kind, n)) for _ in range(k)])
        G = rng.normal(size=U.shape) * 0.2
        if kind == "unitary":
            G = G + 1j * rng.normal(size=U.shape)
        lr = 0.2
        t = updater(kind, lr)
        ups, _ = t.update((G,), t.init((U,)), (U,))
        for i in range(k):
            u1, _ = t.update((G[i],), t.init((U[i],)), (U[i],))
            E.eq(f"{kind}: stacked update", np.asarray(ups[0])[i], np.asarray(u1[0]))


def random_matrices(E):
    from mrmustard import math, settings
    rng = E.rng
    if rng.uniform() < 0.5:
        jax_backend()
    n = int(rng.integers(1, 9))
    in_group(E, f"random_orthogonal({n})", "orthogonal", np.asarray(math.random_orthogonal(n)), tol=1e-10)
    E.true("shape of random_orthogonal", np.asarray(math.random_orthogonal(n)).shape == (n, n))
    U = np.asarray(math.random_unitary(n))
    E.true("shape of random_unitary", U.shape == (n, n))
    in_group(E, f"random_unitary({n})", "unitary", U, tol=1e-10)
    for mr in (0.0, 0.3, 1.0, 2.5):
        S = np.asarray(math.random_symplectic(n, max_r=mr))
        E.true("shape of random_symplectic", S.shape == (2 * n, 2 * n))
        in_group(E, f"random_symplectic({n}, {mr})", "symplectic", S, tol=1e-9)
        sv = np.linalg.svd(S)[1]
        E.true(f"squeezing of random_symplectic({n}, {mr}) within the range",
               np.all(sv <= np.exp(mr) * (1 + 1e-9)) and np.all(sv >= np.exp(-mr) * (1 - 1e-9)), str(sv))
    seed = int(rng.integers(0, 5))
    a, b = np.asarray(math.random_symplectic(n, seed=seed)), np.asarray(math.random_symplectic(n, seed=seed))
    E.eq(f"random_symplectic(seed={seed}) reproducible", a, b, tol=1e-14)
    c = np.asarray(math.random_symplectic(n, seed=seed + 1))
    E.true("random_symplectic depends on the seed", not np.allclose(a, c))
    O2 = np.asarray(math.unitary_to_orthogonal(U))
    in_group(E, "unitary_to_orthogonal orthogonal", "orthogonal", O2, tol=1e-10)
    in_group(E, "unitary_to_orthogonal symplectic", "symplectic", O2, tol=1e-10)


def u_to_o(n):
    def fn(E):
        from mrmustard import math
        U, V = point(E, "unitary", n), point(E, "unitary", n, "v")
        if E.sym:
            math._backend.block = lambda bl, **k: np.block([[E.arr(x) for x in r] for r in bl])
        W = E.arr(math.unitary_to_orthogonal(U))
        in_group(E, "orthogonal", "orthogonal", W)
        in_group(E, "symplectic", "symplectic", W)
        E.eq("homomorphism", E.arr(math.unitary_to_orthogonal(U @ V)), W @ E.arr(math.unitary_to_orthogonal(V)))
    return fn


def variables(E):
    from mrmustard import math
    from mrmustard.math.parameters import Variable
    rng = E.rng
    if rng.uniform() < 0.5:
        jax_backend()
    n = int(rng.integers(1, 5))
    for kind in ("orthogonal", "unitary", "symplectic"):
        f = getattr(Variable, kind)
        v = f(None, "v", N=n)
        in_group(E, f"Variable.{kind}(None)", kind, np.asarray(v.value), tol=1e-9)
        E.true(f"Variable.{kind}: size", np.asarray(v.value).shape[-1] == (2 * n if kind == "symplectic" else n))
        E.true(f"Variable.{kind}: update rule", v.update_fn == "update_" + kind)
        M = np.asarray(point(E, kind, n))
        v = f(M, "v", bounds=(None, 3))
        E.eq(f"Variable.{kind}(value)", np.asarray(v.value), M, tol=1e-14)
        E.true(f"Variable.{kind}(value): update rule, bounds and name", v.update_fn == "update_" + kind and v.bounds == (None, 3) and v.name == "v")
        w = (2.0 * v) if rng.uniform() < 0.5 else (v * 2.0)
        E.eq("scaled variable", np.asarray(w.value), 2 * M, tol=1e-14)
        E.true("scaled variable keeps its rule", w.update_fn == v.update_fn and w.bounds == v.bounds)


def optimizer_runs(E):
    """a few steps of the real Optimizer over components, circuits and variables with mixed parameters"""
    import jax
    import jax.numpy as jnp
    from mrmustard import math
    jax_backend()
    from mrmustard.lab import (Circuit, Dgate, Ggate, Interferometer, RealInterferometer, Sgate, SqueezedVacuum, Vacuum)
    from mrmustard.math.parameters import Variable
    from mrmustard.training import Optimizer
    rng = E.rng
    opt = Optimizer(euclidean_lr=float(rng.choice([1e-3, 1e-2])), symplectic_lr=float(rng.choice([1e-3, 1e-2, .1])),
                    unitary_lr=float(rng.choice([1e-3, 1e-2, .3])), orthogonal_lr=float(rng.choice([1e-3, 1e-2, .3])))
    from mrmustard import settings
    settings.PROGRESSBAR = False
    m = int(rng.integers(1, 4))
    modes = tuple(sorted(int(x) for x in rng.choice([0, 1, 2, 3, 8, 11, 19], size=m, replace=False)))
    steps = int(rng.integers(1, 4))
    U = O.rand_unitary(rng, m)
    Q = np.asarray(point(E, "orthogonal", m))
    S = np.asarray(O.rand_symplectic(rng, m))
    tr = [bool(x) for x in rng.integers(0, 2, size=3)]
    if not any(tr):
        tr[int(rng.integers(3))] = True
    gates = [Interferometer(modes, U, unitary_trainable=tr[0]) if m > 1 else Dgate(modes, .3 + .2j),
             RealInterferometer(modes, Q, orthogonal_trainable=tr[1]) if m > 1 else Sgate(modes, .2, .1),
             Ggate(modes, S, symplectic_trainable=tr[2] or m == 1)]
    order = rng.permutation(3)
    gates = [gates[i] for i in order]
    disp = [Dgate(q, .3 * rng.normal() + .2j, alpha_trainable=bool(rng.integers(2))) for q in modes]
    sq = [SqueezedVacuum(q, .4, .3, r_trainable=bool(rng.integers(2)), phi_bounds=(0, 6)) for q in modes]
    elements = sq + disp + gates
    target = Vacuum(modes)

    def state(parts):
        out = parts[0]
        for x in parts[1:]:
            out = out >> x
        return out

    form = E.pick("components", "circuit")
    E.note("form", form, "modes", modes, "steps", steps, "trainable", tr, order)

    def value(parts):
        amp = state(parts) >> target.dual
        return -math.abs(amp) ** 2

    if form == "circuit":
        cost = lambda c: value(list(c.components))  # noqa
        before = [Circuit(elements)]
    else:
        cost = lambda *p: value(list(p))  # noqa
        before = list(elements)

    def params(objs):
        comps = list(objs[0].components) if form == "circuit" else list(objs)
        return [(c, n, p) for c in comps for n, p in c.parameters.all_parameters.items()]

    old = [(np.array(p.value), type(p).__name__, getattr(p, "update_fn", None), getattr(p, "bounds", None), n) for _, n, p in params(before)]
    res = opt.minimize(cost, before, max_steps=steps)
    new = params(res)
    E.true("number of recorded steps", len(opt.opt_history) == steps + 1, str(opt.opt_history))
    E.true("same parameters", [n for _, n, _ in new] == [o[4] for o in old])
    moved = False
    for (c, n, p), (v, ty, rule, bounds, _) in zip(new, old):
        E.true(f"parameter {n} keeps kind, rule and bounds", type(p).__name__ == ty and getattr(p, "update_fn", None) == rule and getattr(p, "bounds", None) == bounds)
        w = np.asarray(p.value)
        if ty == "Constant":
            E.true(f"constant {n} untouched", np.array_equal(w, v))
            continue
        E.true(f"shape of {n}", w.shape == v.shape)
        if rule in ("update_orthogonal", "update_unitary", "update_symplectic"):
            in_group(E, f"{n} after {steps} steps", rule[7:], w, tol=1e-6)
            moved = moved or not np.allclose(w, v, atol=1e-13)
    # original objects unchanged
    for (c, n, p), (v, *_r) in zip(params(before), old):
        E.true("the objects passed in are not modified", np.array_equal(np.asarray(p.value), v))
    # one step: to first order the cost goes down
    opt2 = Optimizer(euclidean_lr=1e-9, symplectic_lr=1e-5, unitary_lr=1e-5, orthogonal_lr=1e-5)
    r1 = opt2.minimize(cost, before, max_steps=1)
    c0, c1 = float(np.real(cost(*before)).sum()), float(np.real(cost(*r1)).sum())
    E.eq("cost recorded before the step", float(np.real(opt2.opt_history[1])), c0, tol=1e-6)
    E.true("the cost does not increase to first order", c1 <= c0 + 1e-7, f"{c0} -> {c1}")


def optimizer_mixed_variables(E):
    """plain variables of all rules in one optimisation; linear cost so the gradient is known"""
    import jax.numpy as jnp
    jax_backend()
    from mrmustard import settings
    settings.PROGRESSBAR = False
    from mrmustard.math.parameters import Variable
    from mrmustard.training import Optimizer
    rng = E.rng
    n = int(rng.integers(1, 5))
    kinds = [str(x) for x in rng.permutation(["orthogonal", "unitary", "symplectic", "euclidean"])]
    vs, Gs = [], []
    for k in kinds:
        M = rng.normal(size=(n, n)) if k == "euclidean" else np.asarray(point(E, k, n))
        vs.append(Variable(M, k, update_fn="update_" + k))
        g = rng.normal(size=M.shape)
        if k == "unitary":
            g = g + 1j * rng.normal(size=M.shape)
        Gs.append(g / 3)
    free = int(rng.integers(4))      # this variable does not enter the cost

    def cost(*x):
        return sum(jnp.real(jnp.sum(jnp.conj(g) * v.value)) for i, (g, v) in enumerate(zip(Gs, x)) if i != free)

    lr = 1e-3
    opt = Optimizer(euclidean_lr=lr, symplectic_lr=lr, unitary_lr=lr, orthogonal_lr=lr)
    out = opt.minimize(cost, vs, max_steps=1)
    total = 0.0
    for i, (k, v, o, g) in enumerate(zip(kinds, vs, out, Gs)):
        new, old = np.asarray(o.value), np.asarray(v.value)
        E.true("rule kept", o.update_fn == v.update_fn and o.name == v.name)
        if k == "euclidean":
            continue
        in_group(E, f"{k} variable", k, new, tol=1e-7)
        if i == free:
            E.eq(f"{k} variable outside the cost unchanged", new, old, tol=1e-12)
            continue
        Z = (old.conj().T) @ g
        Y = (Z + J(n) @ Z.T @ J(n)) / 2 if k == "symplectic" else (Z - Z.conj().T) / 2
        nrm = float(np.real(np.sum(Y * Y.conj())))
        slope = float(np.real(np.sum(np.conj(g) * (new - old)))) / lr
        E.true(f"{k} moves downhill to first order", slope <= -nrm + 0.1 * nrm * (1 + np.linalg.norm(old) ** 3) * 1 + 1e-6 and (nrm < 1e-9 or slope < 0),
               f"slope {slope} gradient norm squared {nrm}")


def register(R):
    PU = "mrmustard/training/parameter_update.py:"
    BM = "mrmustard/math/backend_manager.py:"
    for kind, sizes in (("orthogonal", (1, 2, 3)), ("unitary", (1, 2)), ("symplectic", (1, 2))):
        e2 = BM + ("euclidean_to_symplectic" if kind == "symplectic" else "euclidean_to_unitary")
        for n in sizes:
            R.ob(f"tangent projection {kind} {n}", tangent(kind, n), [e2])
            R.ob(f"update stays on the manifold {kind} {n}", step_contract(kind, n), [PU + "update_" + kind, e2])
            R.ob(f"first-order descent {kind} {n}", first_order(kind, n), [PU + "update_" + kind, e2])
    for n in (1, 2):
        R.ob(f"unitary_to_orthogonal {n}", u_to_o(n), [BM + "unitary_to_orthogonal"])
    R.bounded("update steps, sizes 1-5", native_steps, [PU + "update_orthogonal", PU + "update_unitary", PU + "update_symplectic"], num=8)
    R.bounded("stacked parameters", native_stacked, [PU + "update_orthogonal", PU + "update_unitary", PU + "update_symplectic"], num=3)
    R.bounded("random matrices", random_matrices, [BM + "random_symplectic", BM + "random_orthogonal", BM + "random_unitary"], num=16)
    R.bounded("manifold variables", variables, ["mrmustard/math/parameters.py:Variable"], num=6)
    R.bounded("optimizer on components and circuits", optimizer_runs, ["mrmustard/training/optimizer.py:Optimizer"], num=3, timeout=500)
    R.bounded("optimizer on mixed variables", optimizer_mixed_variables, ["mrmustard/training/optimizer.py:Optimizer"], num=4)
    R.trusted += ["contract of the matrix exponential: exp of an element of a Lie algebra lies in its group, exp(0)=1, exp(tX)=1+tX+t^2X^2/2+O(t^3)",
                  "scipy.stats ortho_group/unitary_group return orthogonal/unitary matrices (checked by the bounded contract)"]
    R.explanation = "P18: each update rule under contract: the argument of every matrix exponential is in the Lie algebra for every point and gradient, the composed step is in the group, its first-order change of the cost is minus the squared Riemannian gradient; Optimizer natively."
