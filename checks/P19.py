"""P19: temporary settings restored; saving/loading and flattening are lossless"""
import itertools
import os
import shutil
import tempfile
import warnings
import numpy as np
import oracle as O
from common import *
from harness import Skip

warnings.filterwarnings("ignore")

MODES = [0, 1, 3, 8, 9, 11, 16, 19, 33]


# ------------------------------------------------------------------------------- settings
class Opaque:
    """a value the code may only store and hand back (any other use raises)"""

    def __init__(self, n):
        object.__setattr__(self, "n", n)

    def __repr__(self):
        return f"<opaque {object.__getattribute__(self, 'n')}>"


def setting_names(settings):
    names = [k for k in settings.__dict__ if not k.startswith("_") and k != "rng"]
    names += [k for k, v in type(settings).__dict__.items() if isinstance(v, property)]
    return sorted(set(names))


class Boom(Exception):
    pass


def settings_blocks(E):
    """every subset of the settings, opaque values: on leaving the block (normally, by exception, with other changes of the
    same settings inside) each named setting is what it was on entry, the others are what the body made of them"""
    from mrmustard import settings
    tmp = tempfile.mkdtemp()
    try:
        names = setting_names(settings)
        E.true("settings found", {"HBAR", "SEED", "CACHE_DIR", "ATOL", "AUTOSHAPE_PROBABILITY", "DEFAULT_REPRESENTATION", "STABLE_FOCK_CONVERSION"} <= set(names))
        count = [0]

        def fresh(k):
            count[0] += 1
            if k == "SEED":
                return count[0]
            if k == "CACHE_DIR":
                from pathlib import Path
                return Path(tmp) / f"d{count[0] % 5}"
            return Opaque(count[0])

        def get(k):
            return getattr(settings, k)
        state = {k: fresh(k) for k in names}
        for k, v in state.items():
            setattr(settings, k, v)
        E.true("assigned settings are read back", all(get(k) == v if k == "CACHE_DIR" else get(k) is v or get(k) == v for k, v in state.items()))
        n = len(names)
        light = [k for k in names if k not in ("SEED", "CACHE_DIR")]
        subsets = [s for r in range(len(light) + 1) for s in itertools.combinations(light, r)]
        subsets += [tuple(s) + x for x in (("SEED",), ("CACHE_DIR",), ("SEED", "CACHE_DIR")) for r in (0, 1, len(light)) for s in itertools.combinations(light, r)]
        ok_in = ok_out = ok_frame = True
        for idx, sub in enumerate(subsets):
            new = {k: fresh(k) for k in sub}
            before = {k: get(k) for k in names}
            others = [k for k in names if k not in sub and k != "CACHE_DIR"]
            body = {others[idx % len(others)]: fresh(others[idx % len(others)])} if others else {}
            again = {sub[idx % len(sub)]: fresh(sub[idx % len(sub)])} if sub else {}
            try:
                with settings(**new) as s:
                    ok_in &= s is settings and all(get(k) == v for k, v in new.items()) and all(get(k) == before[k] for k in names if k not in sub)
                    for k, v in {**body, **again}.items():
                        setattr(settings, k, v)
                    if idx % 3 == 0:
                        raise Boom
                swallowed = idx % 3 == 0
            except Boom:
                swallowed = False
            ok_out &= not swallowed and all(get(k) == before[k] for k in sub)
            ok_frame &= all(get(k) == body.get(k, before[k]) for k in names if k not in sub)
        E.true("inside the block the new values are active and the others kept", ok_in)
        E.true("on exit every named setting is restored, exceptions pass through", ok_out)
        E.true("settings not named keep what the body assigned", ok_frame)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def settings_nesting(E):
    """random nesting and overlap histories against a stack of saved values"""
    from mrmustard import settings
    rng = E.rng
    names = [k for k in setting_names(settings) if k not in ("CACHE_DIR",)]
    val = lambda k: int(rng.integers(1, 10 ** 6))  # noqa

    def block(depth):
        sub = [str(x) for x in rng.choice(names, size=int(rng.integers(1, 4)), replace=False)]
        before = {k: getattr(settings, k) for k in names}
        raised = bool(rng.integers(2))
        inner = {}
        try:
            with settings(**{k: val(k) for k in sub}):
                for _ in range(int(rng.integers(0, 3))):
                    if depth and rng.uniform() < .6:
                        try:
                            inner.update(block(depth - 1) or {})
                        except Boom:
                            pass
                    else:
                        k = str(rng.choice(names))
                        v = val(k)
                        setattr(settings, k, v)
                        inner[k] = v
                if raised:
                    raise Boom
        except Boom:
            pass
        after = {k: getattr(settings, k) for k in names}
        for k in sub:
            E.true(f"{k} restored", after[k] == before[k], f"{before[k]} -> {after[k]}")
        changed = {k: v for k, v in inner.items() if k not in sub}
        for k in names:
            if k not in sub:
                E.true(f"{k} as the body left it", after[k] == changed.get(k, before[k]))
        return changed
    for _ in range(3):
        block(3)
    # overlapping, not nested: each block gives back what it found
    k1, k2 = [str(x) for x in rng.choice(names, size=2, replace=False)]
    b1, b2 = getattr(settings, k1), getattr(settings, k2)
    c1 = settings(**{k1: val(k1)})
    c1.__enter__()
    c2 = settings(**{k2: val(k2)})
    c2.__enter__()
    c1.__exit__(None, None, None)
    E.true("first block closed first", getattr(settings, k1) == b1)
    c2.__exit__(None, None, None)
    E.true("second block", getattr(settings, k2) == b2 and getattr(settings, k1) == b1)


def settings_unknown(E):
    from mrmustard import settings
    rng = E.rng
    names = setting_names(settings)
    k = str(rng.choice([n for n in names if n != "CACHE_DIR"]))
    before = {n: getattr(settings, n) for n in names}
    for bad in ("NOT_A_SETTING", k.lower(), k + "S", k[:-1], "_hbar2", " " + k, ""):
        if hasattr(settings, bad):
            continue
        E.raises(f"unknown setting {bad!r} refused on assignment", lambda: setattr(settings, bad, 1), AttributeError)
        E.raises(f"unknown setting {bad!r} refused in a block", lambda: settings(**{bad: 1}), AttributeError)
        E.raises(f"unknown setting {bad!r} refused next to a known one", lambda: settings(**{k: 7, bad: 1}), AttributeError)
        E.raises(f"unknown setting {bad!r} refused before a known one", lambda: settings(**{bad: 1, k: 7}), AttributeError)
        E.true("not added", not hasattr(settings, bad))
    after = {n: getattr(settings, n) for n in names}
    E.true("a refused block changes nothing", before == after, str({n: (before[n], after[n]) for n in names if before[n] != after[n]}))


def settings_seed(E):
    """the seed determines the random stream, and the block gives it back"""
    from mrmustard import settings, math
    rng = E.rng
    s0 = int(rng.choice([0, 1, 5, 2 ** 31 - 1, int(rng.integers(1, 1000))]))
    settings.SEED = s0
    E.true("seed read back", settings.SEED == s0)
    a = settings.rng.normal(size=3)
    settings.SEED = s0
    E.eq("same seed, same stream", settings.rng.normal(size=3), a, tol=1e-15)
    with settings(SEED=s0 + 1):
        b = settings.rng.normal(size=3)
        E.true("seed active in the block", settings.SEED == s0 + 1 and not np.allclose(a, b))
    E.true("seed restored", settings.SEED == s0)
    settings.SEED = None
    s = settings.SEED
    E.true("a seed is drawn when there is none", isinstance(int(s), int) and settings.SEED == s)


# ------------------------------------------------------------------------------- objects
def rmodes(rng, m):
    return tuple(sorted(int(x) for x in rng.choice(MODES, size=m, replace=False)))


def builtin(rng, batch=True):
    """a random built-in component with random parameters, batches, trainability and bounds"""
    import mrmustard.lab as L
    k = str(rng.choice(BUILTINS))
    B = () if not batch or rng.uniform() < .6 else (int(rng.integers(1, 4)),)

    def re(lo=-1, hi=1):
        return rng.uniform(lo, hi, size=B) if B else float(rng.uniform(lo, hi))

    def cx():
        return (rng.normal(size=B) + 1j * rng.normal(size=B)) * .4 if B else complex(*rng.normal(size=2)) * .4
    tr = lambda: bool(rng.integers(2))  # noqa

    def bounds():
        return [(None, None), (-2.5, 3.0), (None, 4), (-1, None), (0.0, 7.25)][int(rng.integers(5))]

    def kw(**p):
        out = dict(p)
        for n in p:
            if tr():
                out[n + "_trainable"] = True
            if tr():
                out[n + "_bounds"] = bounds()
        return out
    m = int(rng.integers(1, 4))
    one, two, many = rmodes(rng, 1)[0], rmodes(rng, 2), rmodes(rng, m)
    if rng.uniform() < .3:
        one = (one,)
    if k == "Dgate":
        return k, L.Dgate(one, **kw(alpha=cx()))
    if k == "Coherent":
        return k, L.Coherent(one, **kw(alpha=cx()))
    if k == "BargmannEigenstate":
        return k, L.BargmannEigenstate(one, **kw(alpha=cx()))
    if k == "DisplacedSqueezed":
        return k, L.DisplacedSqueezed(one, **kw(alpha=cx(), r=re(), phi=re()))
    if k in ("Sgate", "SqueezedVacuum"):
        return k, getattr(L, k)(one, **kw(r=re(0, 1), phi=re()))
    if k in ("S2gate", "TwoModeSqueezedVacuum"):
        return k, getattr(L, k)(two, **kw(r=re(0, 1), phi=re()))
    if k == "BSgate":
        return k, L.BSgate(two, **kw(theta=re(), phi=re()))
    if k == "MZgate":
        return k, L.MZgate(two, **kw(phi_a=re(), phi_b=re()), internal=tr())
    if k in ("CXgate", "CZgate"):
        return k, getattr(L, k)(two, **kw(s=re()))
    if k == "Pgate":
        return k, L.Pgate(one, **kw(shearing=re()))
    if k == "Rgate":
        return k, L.Rgate(one, **kw(theta=re()))
    if k == "FockDamping":
        return k, L.FockDamping(one, **kw(damping=re(0, 1)))
    if k == "Attenuator":
        return k, L.Attenuator(one, **kw(transmissivity=re(.1, 1)))
    if k == "Amplifier":
        return k, L.Amplifier(one, **kw(gain=re(1, 2)))
    if k == "PhaseNoise":
        return k, L.PhaseNoise(one, **kw(phase_stdev=float(rng.uniform(0, 1))))
    if k == "Thermal":
        return k, L.Thermal(one, **kw(nbar=re(0, 2)))
    if k == "Number":
        n = rng.integers(0, 4, size=B) if B else int(rng.integers(0, 4))
        return k, (L.Number(one, n) if tr() else L.Number(one, n, cutoff=int(rng.integers(4, 7))))
    if k == "Sauron":
        return k, L.Sauron(one, int(rng.integers(1, 3)), .2)
    if k == "QuadratureEigenstate":
        return k, L.QuadratureEigenstate(one, **kw(x=re(), phi=re()))
    if k == "Vacuum":
        return k, L.Vacuum(many)
    if k == "Identity":
        return k, L.Identity(many)
    if k == "TraceOut":
        return k, L.TraceOut(many)
    if k == "BtoQ":
        return k, L.BtoQ(many, float(rng.uniform(-1, 1)))
    if k in ("BtoPS", "BtoChar"):
        return k, getattr(L, k)(many, s=float(rng.choice([0, -0.5, -1, .5] if k == "BtoPS" else [0, 1, -1, .5])))
    if k == "GKet":
        return k, L.GKet(many, O.rand_symplectic(rng, m), symplectic_trainable=tr())
    if k == "GDM":
        return k, L.GDM(many, rng.uniform(.3, 2, size=m) if tr() else float(rng.uniform(.3, 2)), O.rand_symplectic(rng, m), symplectic_trainable=tr(), beta_trainable=tr())
    if k == "Ggate":
        return k, L.Ggate(many, O.rand_symplectic(rng, m), symplectic_trainable=tr())
    if k == "Interferometer":
        return k, L.Interferometer(many, O.rand_unitary(rng, m), unitary_trainable=tr())
    if k == "RealInterferometer":
        q, _ = np.linalg.qr(rng.normal(size=(m, m)))
        return k, L.RealInterferometer(many, q, orthogonal_trainable=tr())
    if k == "GaussRandNoise":
        Y = rng.normal(size=(2 * m, 2 * m))
        return k, L.GaussRandNoise(many, Y @ Y.T * .2, Y_trainable=tr())
    raise AssertionError(k)


BUILTINS = ["Dgate", "Coherent", "BargmannEigenstate", "DisplacedSqueezed", "Sgate", "SqueezedVacuum", "S2gate", "TwoModeSqueezedVacuum", "BSgate",
            "MZgate", "CXgate", "CZgate", "Pgate", "Rgate", "FockDamping", "Attenuator", "Amplifier", "PhaseNoise", "Thermal", "Number", "Sauron",
            "QuadratureEigenstate", "Vacuum", "Identity", "TraceOut", "BtoQ", "BtoPS", "BtoChar", "GKet", "GDM", "Ggate", "Interferometer",
            "RealInterferometer", "GaussRandNoise"]


def generic(rng):
    """a component without a parametrised class: superpositions, products, number basis, duals, mixed wires"""
    import mrmustard.lab as L
    from mrmustard.physics.ansatz import ArrayAnsatz, PolyExpAnsatz
    from mrmustard.physics.wires import Wires
    k = int(rng.integers(8))
    a, b = rmodes(rng, 2)
    nm = str(rng.choice(["foo", "My state", "é", "a:b"]))
    if k == 0:
        return "superposition", L.Coherent(a, .4) + L.Coherent(a, -.3j) + 0.5 * L.SqueezedVacuum(a, .3)
    if k == 1:
        return "batched ket", L.Ket.from_bargmann((a, b), (lambda t: tuple(np.stack([x, x * .5]) for x in t))(L.GKet((a, b)).bargmann_triple()), name=nm)
    if k == 2:
        arr = rng.normal(size=(3, 4)) + 1j * rng.normal(size=(3, 4))
        return "fock ket", L.Ket.from_fock((a, b), arr, name=nm)
    if k == 3:
        arr = rng.normal(size=(2, 3, 4, 3)) + 1j * rng.normal(size=(2, 3, 4, 3))
        return "batched fock ket", L.Ket.from_fock((a, b, 40), arr, batch_dims=1)
    if k == 4:
        return "derived variables", L.Ket.random((a, b)) >> L.Number(a, int(rng.integers(1, 3))).dual.to_bargmann()
    if k == 5:
        return "channel on density matrix", L.Coherent(a, .3) >> L.Attenuator(a, .4) >> L.SqueezedVacuum(b, .2).dm()
    if k == 6:
        n = 5
        A = rng.normal(size=(n, n)) * .2
        A = A + A.T + 0j
        w = Wires({b}, {a}, {a, b}, {b})
        return "mixed wires", L.CircuitComponent(PolyExpAnsatz(A, rng.normal(size=n) + 0j, np.array(.3 + .1j)), w, name=nm)
    arr = rng.normal(size=(2, 3, 4))
    return "fock component with mixed wires", L.CircuitComponent(ArrayAnsatz(arr + 0j, 0), Wires({a}, set(), {b}, {a}), name=nm)


def bt(b):
    return None if b is None else tuple(b)


def same_params(E, label, p, q):
    P, Q = p.all_parameters, q.all_parameters
    E.true(label + ": parameter names", set(P) == set(Q), f"{list(P)} {list(Q)}")
    for n in P:
        x, y = P[n], Q[n]
        E.true(f"{label}: {n} trainability", type(x) is type(y), f"{type(x)} {type(y)}")
        a, b = np.asarray(x.value), np.asarray(y.value)
        E.true(f"{label}: {n} value", a.shape == b.shape and a.dtype == b.dtype and np.array_equal(a, b), f"{a!r} {b!r}")
        E.true(f"{label}: {n} name", x.name == y.name)
        if hasattr(x, "bounds"):
            E.true(f"{label}: {n} bounds", x.bounds == y.bounds, f"{x.bounds} {y.bounds}")
            E.true(f"{label}: {n} update rule", x.update_fn == y.update_fn, f"{x.update_fn} {y.update_fn}")
        E.true(f"{label}: attribute {n}", getattr(q, n) is y)


def same_ansatz(E, label, x, y, exact=True):
    from mrmustard.physics.ansatz import ArrayAnsatz
    E.true(label + ": kind of ansatz", type(x) is type(y))
    if x is None:
        return
    E.true(label + ": superposition flag", x._lin_sup == y._lin_sup, f"{x._lin_sup} {y._lin_sup}")
    E.true(label + ": batch shape", tuple(x.batch_shape) == tuple(y.batch_shape) and int(x.batch_dims) == int(y.batch_dims), f"{x.batch_shape} {y.batch_shape}")
    if isinstance(x, ArrayAnsatz):
        pairs = [("array", x.array, y.array)]
    else:
        pairs = list(zip("Abc", x.triple, y.triple))
    for n, a, b in pairs:
        a, b = np.asarray(a), np.asarray(b)
        E.true(f"{label}: {n} type", a.dtype == b.dtype, f"{a.dtype} {b.dtype}")
        E.true(f"{label}: {n}", a.shape == b.shape and (np.array_equal(a, b, equal_nan=True) if exact else np.allclose(a, b)), f"{a!r} {b!r}"[:600])
    E.true(label + ": equal", x == y)


def same_component(E, label, x, y, params=True):
    E.true(label + ": class", type(x) is type(y), f"{type(x)} {type(y)}")
    E.true(label + ": wires", x.wires == y.wires and tuple(x.modes) == tuple(y.modes), f"{x.wires} {y.wires}")
    E.true(label + ": wire modes", tuple(map(set, x.wires.args)) == tuple(map(set, y.wires.args)))
    E.true(label + ": name", x.name == y.name, f"{x.name} {y.name}")
    if params:
        same_params(E, label, x.parameters, y.parameters)
    same_ansatz(E, label, x.ansatz, y.ansatz)
    E.true(label + ": equal", x == y)


def in_scratch(fn):
    def run(E):
        from mrmustard import settings
        tmp = tempfile.mkdtemp()
        old = settings.CACHE_DIR
        try:
            settings.CACHE_DIR = tmp
            return fn(E, tmp)
        finally:
            settings._cache_dir = old
            shutil.rmtree(tmp, ignore_errors=True)
    return run


def check_files(E, tmp, path, removed):
    left = sorted(os.listdir(tmp))
    E.true("files after loading", left == ([] if removed else [os.path.basename(str(path))]), f"left {left}, removed {removed}")


def roundtrip(E, tmp, objs, stem=None, path_edges=None):
    from mrmustard.lab import Circuit
    from mrmustard.utils.serialize import load
    rng = E.rng
    c = Circuit(objs)
    if path_edges is not None:
        c.path = path_edges
    remove = bool(rng.integers(2))
    p = c.serialize(stem) if stem is not None else c.serialize()
    E.true("one file written", os.listdir(tmp) == [os.path.basename(str(p))], str(os.listdir(tmp)))
    p = str(p) if rng.integers(2) else p
    got = load(p, remove_after=remove)
    check_files(E, tmp, p, remove)
    if not remove:
        again = load(p)
        E.true("loading twice gives equal circuits", again == got)
    E.true("number of components", len(got) == len(c))
    E.true("contraction order", [tuple(x) for x in got.path] == [tuple(x) for x in c.path], f"{got.path} {c.path}")
    E.true("equal circuits", got == c)
    return c, got


@in_scratch
def save_builtin(E, tmp):
    rng = E.rng
    n = int(rng.integers(1, 5))
    comps = [builtin(rng) for _ in range(n)]
    E.note([k for k, _ in comps], [x.wires.args for _, x in comps])
    c, got = roundtrip(E, tmp, [x for _, x in comps], stem=E.pick(None, "abc", "x.y.json", "saved.circuit"))
    for (k, x), y in zip(comps, got.components):
        same_component(E, f"{k}", x, y)


@in_scratch
def save_each(E, tmp):
    """every built-in class in turn"""
    global BUILTINS
    rng = E.rng
    every = list(BUILTINS)
    from mrmustard.lab import Circuit
    try:
        for k in every:
            BUILTINS = [k]
            _, x = builtin(rng)
            c, got = roundtrip(E, tmp, [x])
            for f in os.listdir(tmp):
                os.unlink(os.path.join(tmp, f))
            same_component(E, k, x, got.components[0])
    finally:
        BUILTINS = every


@in_scratch
def save_rewired(E, tmp):
    """components moved to other modes"""
    rng = E.rng
    k, x = builtin(rng)
    m = len(x.modes)
    y = x.on(rmodes(rng, m))
    E.note(k, x.modes, y.modes)
    c, got = roundtrip(E, tmp, [y])
    same_component(E, k, y, got.components[0])


@in_scratch
def save_generic(E, tmp):
    rng = E.rng
    n = int(rng.integers(1, 4))
    comps = [generic(rng) for _ in range(n)]
    E.note([k for k, _ in comps])
    c, got = roundtrip(E, tmp, [x for _, x in comps])
    for (k, x), y in zip(comps, got.components):
        same_component(E, k, x, y, params=False)
        # a loaded component computes like the original
        d1, d2 = x.dual, y.dual
        same_ansatz(E, k + " dual", d1.ansatz, d2.ansatz, exact=False)
        if k in ("batched ket", "superposition", "batched fock ket", "fock ket"):
            E.eq(f"{k}: overlap", np.asarray(x >> d1), np.asarray(y >> d2))


@in_scratch
def save_order(E, tmp):
    """contraction order and evaluation of a saved circuit"""
    import mrmustard.lab as L
    rng = E.rng
    a, b = rmodes(rng, 2)
    objs = [L.SqueezedVacuum(a, .3), L.Coherent(b, .2j), L.BSgate((a, b), .4, .2), L.Attenuator(a, .5), L.Number(b, 1).dual]
    idx = list(range(5))
    path = []
    while len(idx) > 1:
        i, j = sorted(int(x) for x in rng.choice(idx, size=2, replace=False))
        path.append((i, j))
        idx.remove(j)
    # keep the order meaningful: default order or a random one kept only for its value
    c, got = roundtrip(E, tmp, objs, path_edges=path)
    c.path = got.path = [(0, i) for i in range(1, 5)]
    x, y = c.contract(), got.contract()
    E.true("same result", x == y)


@in_scratch
def save_manual_paths(E, tmp):
    from mrmustard.lab import Circuit, Vacuum, Dgate
    from mrmustard.utils.serialize import load
    c = Circuit([])
    p = c.serialize()
    E.true("an empty circuit is restored", load(p, remove_after=True) == c)
    c = Circuit([Dgate(0, .1), Dgate(1, .1), Dgate(2, .2)])
    c.path = E.pick([], [(0, 1)], ((0, 2), (0, 1)))
    got = load(c.serialize(), remove_after=True)
    E.true("partial contraction order", [tuple(x) for x in got.path] == [tuple(x) for x in c.path])
    E.true("no file left", os.listdir(tmp) == [])


@in_scratch
def save_duals(E, tmp):
    """parameters of duals and adjoints"""
    rng = E.rng
    k, x = builtin(rng, batch=False)
    if len(x.parameters.all_parameters) == 0:
        raise Skip()
    d = E.pick("dual", "adjoint")
    y = getattr(x, d)
    c, got = roundtrip(E, tmp, [y])
    z = got.components[0]
    same_component(E, "dual", y, z, params=False)
    same_params(E, "dual", y.parameters, z.parameters)


class Thing:
    """an object with its own serialization"""

    def __init__(self, **kw):
        self.kw = kw

    @classmethod
    def deserialize(cls, data):
        return cls(**data)


@in_scratch
def save_plain(E, tmp):
    """save / load themselves: all shapes of data, names, zipped or not"""
    import sys
    from mrmustard.utils.serialize import load, save
    import mrmustard.utils.serialize as ser
    rng = E.rng
    sys.modules.setdefault("P19", sys.modules[__name__])
    zip_ = bool(rng.integers(2))
    arrays = {f"arr{i}": (rng.normal(size=tuple(rng.integers(0, 3, size=int(rng.integers(0, 4))))) + (1j if rng.integers(2) else 0)) for i in range(int(rng.integers(0, 4)))}
    if rng.integers(2):
        arrays["ints"] = rng.integers(0, 5, size=3)
    data = {"x": 3, "name": "n", "nested": {"a": [1, 2.5, None, True]}}
    stem = E.pick(None, "plain", "with.dots", "dir-name.json", "j")
    for k in range(2):
        bystander = os.path.join(tmp, "bystander.npz")
        with open(bystander, "w") as f:
            f.write("keep")
        p = save(Thing, filename=stem, do_zip=zip_, arrays=arrays, **data)
        E.true("file exists at the returned path", os.path.exists(p) and os.path.dirname(str(p)) == tmp)
        remove = bool(rng.integers(2)) or k == 1
        got = load(p, remove_after=remove)
        E.true("class", type(got).__name__ == "Thing")
        E.true("keys", set(got.kw) == set(data) | set(arrays), str(got.kw.keys()))
        for n, v in data.items():
            E.true(f"data {n}", got.kw[n] == v)
        for n, v in arrays.items():
            w = np.asarray(got.kw[n])
            v = np.asarray(v)
            E.true(f"array {n}", w.shape == v.shape and w.dtype == v.dtype and np.array_equal(w, v), f"{w!r} {v!r}")
        left = set(os.listdir(tmp)) - {"bystander.npz"}
        E.true("bystander kept", open(bystander).read() == "keep")
        if remove:
            E.true("nothing left", left == set(), str(left))
        else:
            E.true("file kept", os.path.basename(str(p)) in left and (not (zip_ and arrays) or left == {os.path.basename(str(p))}), str(left))
            if k == 0:
                got = load(p, remove_after=True)
                E.true("nothing left after the second load", set(os.listdir(tmp)) == {"bystander.npz"})
    if arrays:
        E.raises("overlapping names refused", lambda: save(Thing, arrays=arrays, **{next(iter(arrays)): 1}), ValueError)
        E.true("a refused save leaves no file", set(os.listdir(tmp)) == {"bystander.npz"}, str(os.listdir(tmp)))


# ------------------------------------------------------------------------------- trees
def tree_roundtrip(E):
    """flattening and unflattening (in jax) is lossless for every object"""
    from mrmustard import math
    math.change_backend("jax")
    import jax
    from mrmustard.lab import Circuit
    from mrmustard.math.parameters import Variable
    rng = E.rng
    k, x = builtin(rng) if rng.uniform() < .7 else generic(rng)
    E.note(k)
    if rng.uniform() < .5 and k not in ("PhaseNoise",):
        try:
            _ = x.ansatz.batch_shape    # evaluated before flattening or not
        except Exception:
            raise
    leaves, td = jax.tree_util.tree_flatten(x)
    y = jax.tree_util.tree_unflatten(td, leaves)
    same_component(E, k, x, y)
    E.true(k + ": manual shape", x.manual_shape == y.manual_shape, f"{x.manual_shape} {y.manual_shape}")
    values = [np.asarray(v.value) for v in x.parameters.variables.values()]
    E.true(k + ": leaves are values of the variables", bool(leaves) == bool(values) and all(any(np.shape(l) == v.shape and np.array_equal(np.asarray(l), v) for v in values) for l in leaves),
           f"{len(leaves)} {len(values)}") if x.parameters.all_parameters else None
    # new leaf values reach the parameters and the ansatz
    if leaves:
        z = jax.tree_util.tree_unflatten(td, [l * 0.5 for l in leaves])
        for n, p in x.parameters.variables.items():
            E.eq(f"{k}: new value of {n}", np.asarray(z.parameters.variables[n].value), np.asarray(p.value) * .5, tol=1e-12)
            E.eq(f"{k}: old value of {n} kept", np.asarray(x.parameters.variables[n].value), np.asarray(y.parameters.variables[n].value), tol=1e-14)
        if k not in ("Ggate", "GKet", "GDM", "Interferometer", "RealInterferometer", "GaussRandNoise", "Amplifier"):
            ref = type(x)(x.modes, **{**({"internal": x.ansatz._kwargs["internal"]} if k == "MZgate" and "internal" in x.ansatz._kwargs else {}),
                                      **{n: (np.asarray(p.value) * (.5 if isinstance(p, Variable) else 1)) for n, p in x.parameters.all_parameters.items()}})
            same_ansatz(E, k + " with new values", ref.ansatz, z.ansatz, exact=False)
    c = Circuit([x])
    c.path = [(0, 1), (0, 2)]
    l2, t2 = jax.tree_util.tree_flatten(c)
    d = jax.tree_util.tree_unflatten(t2, l2)
    E.true("circuit path", d.path == c.path)
    same_component(E, k + " in a circuit", c.components[0], d.components[0])


def tree_vacuum_shape(E):
    """manual cutoffs survive flattening for every class"""
    from mrmustard import math
    math.change_backend("jax")
    import jax
    rng = E.rng
    k, x = builtin(rng, batch=False)
    if k == "Number":
        raise Skip()
    x.manual_shape = tuple(int(v) for v in rng.integers(2, 9, size=len(x.manual_shape)))
    leaves, td = jax.tree_util.tree_flatten(x)
    y = jax.tree_util.tree_unflatten(td, leaves)
    E.true(f"{k}: manual shape", y.manual_shape == x.manual_shape, f"{x.manual_shape} {y.manual_shape}")


def representation_change(E):
    """re-instantiation through the parameter dictionary keeps every parameter"""
    rng = E.rng
    k, x = builtin(rng, batch=False)
    if k in ("BtoQ", "BtoPS", "BtoChar", "TraceOut", "BargmannEigenstate", "QuadratureEigenstate", "Number", "PhaseNoise", "Sauron"):
        raise Skip()
    E.note(k, x.modes)
    y = x.to_fock(4)
    E.true(f"{k}: class kept", type(y) is type(x))
    same_params(E, k, x.parameters, y.parameters)
    z = y.to_bargmann()
    same_params(E, k + " and back", x.parameters, z.parameters)
    E.true(f"{k}: equal after the round trip", z == x)
    w = x._light_copy()
    same_component(E, k + " light copy", x, w)


def register(R):
    ST, SE, CC, CI = "mrmustard/utils/settings.py:", "mrmustard/utils/serialize.py:", "mrmustard/lab/circuit_components.py:CircuitComponent.", "mrmustard/lab/circuits.py:Circuit."
    R.ob("temporary settings, every subset", settings_blocks, [ST + "Settings.__call__", ST + "_TemporarySettings", ST + "Settings.__setattr__"], num=1,
         bound="every subset of the settings in one block, opaque values; nesting by induction on the block contract")
    R.bounded("nested and overlapping settings", settings_nesting, [ST + "Settings.__call__", ST + "_TemporarySettings"], num=10)
    R.bounded("unknown settings refused", settings_unknown, [ST + "Settings.__setattr__", ST + "Settings.__call__"], num=4)
    R.bounded("random seed", settings_seed, [ST + "Settings.SEED"], num=4)
    R.bounded("save and load plain objects", save_plain, [SE + "save", SE + "load"], num=20)
    R.bounded("save and load every class", save_each, [CC + "_serialize", CC + "_deserialize", CI + "serialize", CI + "deserialize"], num=5)
    R.bounded("save and load random circuits", save_builtin, [CC + "_serialize", CC + "_deserialize", CI + "serialize", CI + "deserialize"], num=25)
    R.bounded("save and load moved components", save_rewired, [CC + "_serialize", CC + "_deserialize"], num=20)
    R.bounded("save and load generic components", save_generic, [CC + "_serialize", CC + "_deserialize", "mrmustard/physics/ansatz:to_dict", "mrmustard/physics/ansatz:from_dict"], num=20)
    R.bounded("save and load contraction order", save_order, [CI + "serialize", CI + "deserialize"], num=5)
    R.bounded("save and load empty circuits and partial orders", save_manual_paths, [CI + "serialize", CI + "deserialize"], num=4)
    R.bounded("save and load duals", save_duals, [CC + "_serialize", CC + "_deserialize"], num=3)
    R.bounded("flatten and unflatten", tree_roundtrip, [CC + "_tree_flatten", CC + "_tree_unflatten"], num=40)
    R.bounded("flatten and unflatten manual cutoffs", tree_vacuum_shape, [CC + "_tree_flatten", CC + "_tree_unflatten"], num=20)
    R.bounded("change of representation keeps the parameters", representation_change, [CC + "to_fock", CC + "to_bargmann", "mrmustard/math/parameter_set.py:ParameterSet.to_dict"], num=30)
    R.explanation = "P19: block contract of temporary settings checked for every subset of settings with opaque values; saving, loading and flattening under round-trip contracts over every built-in class and generic components."
