"""Obligation registry and the two executors (exact / native).

A contract is a function ``fn(E)`` that builds inputs from the environment ``E``, calls the REAL
functions of /repo and states postconditions with ``E.eq(label, lhs, rhs)`` / ``E.true(label, cond)``.

* exact executor  (E.sym is True): inputs are free generators, the primitives are exact
  (symbackend), ``E.eq`` is decided by normal form  -> an identity for ALL parameter values.
* native executor (E.sym is False): same contract, inputs drawn at random (VERIF_SEED) and the
  numeric backend the user runs.  This is the CPython cross-check of the engine, the replay of a
  refutation, and, for functions outside the exact executor's reach, the bounded stand-in.
"""
from __future__ import annotations
import json, os, signal, sys, time, traceback, zlib, contextlib, io
import numpy as np


class ContractFail(Exception):
    def __init__(self, label, info):
        super().__init__(label)
        self.label, self.info = label, info


class Skip(Exception):
    """precondition not met by this sample"""


class Undecided(Exception):
    pass


class Timeout(BaseException):
    pass


def short(x, n=600):
    try:
        s = repr(x)
    except Exception as e:  # pragma: no cover
        s = f"<unprintable {e}>"
    return s if len(s) <= n else s[:n] + "..."


class Env:
    def __init__(self, sym, seed=0):
        self.sym = sym
        self.seed = seed
        self.values = {}
        self.n_checked = 0
        self.n_nontrivial = 0
        self.labels = []
        self.rng = np.random.default_rng(seed)
        self.trace = []
        if sym:
            import sym as _s
            self._s = _s

    # ---- inputs
    def _num(self, name, v):
        self.values[name] = v
        return v

    def real(self, name, lo=-1.5, hi=1.5):
        return self._s.S.real(name) if self.sym else self._num(name, float(self.rng.uniform(lo, hi)))

    def pos(self, name, lo=0.2, hi=2.0):
        return self._s.S.pos(name) if self.sym else self._num(name, float(self.rng.uniform(lo, hi)))

    def cplx(self, name, scale=1.0):
        if self.sym:
            return self._s.S.cplx(name)
        v = complex(self.rng.normal(), self.rng.normal()) * scale * 0.7
        return self._num(name, v)

    def angle(self, name):
        return self._s.S.angle(name) if self.sym else self._num(name, float(self.rng.uniform(-4, 4)))

    def squeeze(self, name, lo=-1.0, hi=1.0):
        return self._s.S.squeeze(name) if self.sym else self._num(name, float(self.rng.uniform(lo, hi)))

    def arr(self, x):
        if self.sym:
            from symbackend import oarr
            return oarr(x)
        return np.array(x)

    def cvec(self, n, name, scale=1.0):
        return self.arr([self.cplx(f"{name}{i}", scale) for i in range(n)]) if n else np.zeros((0,), dtype=complex)

    def csym(self, n, name, scale=0.25):
        if not n:
            return np.zeros((0, 0), dtype=complex)
        e = {}
        for i in range(n):
            for j in range(i, n):
                e[i, j] = e[j, i] = self.cplx(f"{name}{i}{j}", scale)
        return self.arr([[e[i, j] for j in range(n)] for i in range(n)])

    def rmat(self, n, m, name):
        return self.arr([[self.real(f"{name}{i}{j}") for j in range(m)] for i in range(n)])

    @property
    def pi(self):
        return self._s.Sym.lift(np.pi) if self.sym else np.pi

    def exp(self, x):
        return x.exp() if self.sym and hasattr(x, "exp") else np.exp(x)

    def sqrt(self, x):
        if self.sym:
            return self._s.Sym.lift(x).sqrt()
        return np.sqrt(x)

    def conj(self, x):
        if self.sym:
            from symbackend import emap
            if isinstance(x, np.ndarray):
                return emap(lambda s: s.conjugate(), x)
            return self._s.Sym.lift(x).conjugate()
        return np.conj(x)

    def inv(self, m):
        if self.sym:
            from symbackend import inv_sym, oarr
            return inv_sym(oarr(m))
        return np.linalg.inv(m)

    def det(self, m):
        if self.sym:
            from symbackend import det_sym, oarr
            return det_sym(oarr(m))
        return np.linalg.det(m)

    def pick(self, *options):
        return options[int(self.rng.integers(len(options)))]

    # ---- postconditions
    def eq(self, label, lhs, rhs, tol=1e-7, shape=True):
        if self.sym:
            from symbackend import oarr
            from sym import Sym
            L, R = oarr(lhs), oarr(rhs)
            if shape and L.shape != R.shape:
                raise ContractFail(label, f"shape {L.shape} != {R.shape}")
            L, R = np.broadcast_arrays(L, R)
            for i in np.ndindex(L.shape):
                a, b = Sym.lift(L[i]), Sym.lift(R[i])
                if not (a == b):
                    try:
                        same = self._s.numerically_equal(a, b)
                    except Exception as e:
                        raise Undecided(f"{label}: normal forms differ, not evaluated numerically ({type(e).__name__} {e})")
                    if same:
                        raise Undecided(f"{label}: normal forms differ, numerically equal")
                    raise ContractFail(label, f"entry {i}: {short(a)} != {short(b)}")
            self.n_checked += 1
            self.n_nontrivial += int(any(not Sym.lift(v).is_const() for v in L.ravel()) or L.size > 0)
            self.labels.append(label)
            return
        L, R = np.asarray(lhs), np.asarray(rhs)
        if shape and L.shape != R.shape:
            raise ContractFail(label, f"shape {L.shape} != {R.shape}")
        if L.size:
            sc = max(1.0, float(np.max(np.abs(R))) if R.size else 1.0)
            if not np.all(np.isfinite(R)):
                raise Skip("oracle not finite")
            d = np.abs(L - R)
            if not np.all(d <= tol * sc):
                k = np.unravel_index(int(np.nanargmax(np.where(np.isnan(d), np.inf, d))), d.shape)
                Lb, Rb = np.broadcast_arrays(L, R)
                raise ContractFail(label, f"entry {tuple(int(t) for t in k)}: got {Lb[k]!r}, expected {Rb[k]!r}")
        self.n_checked += 1
        self.n_nontrivial += int(L.size > 0 and bool(np.any(np.abs(R) > 1e-12)))
        self.labels.append(label)

    def true(self, label, cond, info=""):
        if not bool(cond):
            raise ContractFail(label, info or "condition is false")
        self.n_checked += 1
        self.n_nontrivial += 1
        self.labels.append(label)

    def raises(self, label, fn, exc=Exception):
        try:
            fn()
        except exc:
            self.true(label, True)
            return
        raise ContractFail(label, "expected an exception, none raised")

    def note(self, *a):
        self.trace.append(" ".join(str(x) for x in a))
        if len(self.trace) > 50:
            del self.trace[0]


class Ob:
    def __init__(self, name, fn, functions, sym, num, bound, timeout, kind):
        self.name, self.fn, self.functions = name, fn, functions
        self.sym, self.num, self.bound, self.timeout, self.kind = sym, num, bound, timeout, kind


class Registry:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.obs = []
        self.assumptions = []
        self.trusted = []
        self.explanation = ""
        self.quick = tier == "quick"

    def ob(self, name, fn, functions=(), sym=True, num=6, bound=None, timeout=None, kind="exact"):
        """bound=None: all inputs of the function's domain; otherwise text of the bound"""
        if timeout is None:
            timeout = 100 if self.quick else 600
        self.obs.append(Ob(name, fn, list(functions), sym, num if self.quick else num * 5, bound, timeout, kind))

    def bounded(self, name, fn, functions=(), num=10, bound="randomised native run-time contract check", timeout=None):
        self.ob(name, fn, functions, sym=False, num=num, bound=bound, kind="bounded", timeout=timeout or (200 if self.quick else 900))

    def vc(self, name, fn, functions=(), bound=None, timeout=None):
        """fn() -> list of (obligation label, status, info); status in proved/refuted/undecided"""
        self.ob(name, fn, functions, sym=True, num=0, bound=bound, kind="vc", timeout=timeout)


# ----------------------------------------------------------------------------------------------
def _alarm(*_a):
    raise Timeout()


def in_repo(tb):
    """does the traceback pass through /repo code?"""
    repo = os.environ.get("VERIF_REPO", "/repo")
    return any(f.filename.startswith(repo + "/mrmustard") for f in traceback.extract_tb(tb))


def run_sym(ob):
    from sym import Unsupported
    t0 = time.time()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(int(ob.timeout))
    out = {"name": ob.name, "mode": "sym", "kind": ob.kind}
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            if ob.kind == "vc":
                res = ob.fn()
                out["vcs"] = res
                st = [s for _, s, _ in res]
                out["status"] = ("refuted" if "refuted" in st else "undecided" if ("undecided" in st or not st) else "proved")
                out["n"] = sum(s == "proved" for s in st)
                out["labels"] = [l for l, _, _ in res][:40]
                out["info"] = "; ".join(f"{l}: {i}" for l, s, i in res if s != "proved")[:3000]
            else:
                E = Env(True, 0)
                ob.fn(E)
                out.update(status="proved" if E.n_checked else "undecided", n=E.n_checked, labels=E.labels[:40])
                if not E.n_checked:
                    out["info"] = "no postcondition evaluated"
    except ContractFail as e:
        out.update(status="refuted", label=e.label, info=short(e.info, 1500))
    except Timeout:
        out.update(status="undecided", info=f"time limit {ob.timeout}s")
    except (Unsupported, Skip, Undecided) as e:
        out.update(status="undecided", info=f"{type(e).__name__}: {e}")
    except RecursionError:
        out.update(status="undecided", info="recursion")
    except Exception as e:
        out.update(status="undecided", info=f"{type(e).__name__}: {e} | " + "".join(traceback.format_exception(e))[-1500:])
    finally:
        signal.alarm(0)
    out["t"] = time.time() - t0
    return out


def run_num(ob, base_seed):
    t0 = time.time()
    signal.signal(signal.SIGALRM, _alarm)
    out = {"name": ob.name, "mode": "num", "kind": ob.kind, "status": "ok", "n": 0, "samples": 0, "nontrivial": 0, "skipped": 0}
    labels = set()
    for k in range(ob.num):
        seed = zlib.crc32(f"{ob.name}/{base_seed}/{k}".encode())
        E = Env(False, seed)
        np.random.seed(seed % (2**32 - 1))
        signal.alarm(int(ob.timeout))
        try:
            from mrmustard import settings
            settings.rng = np.random.default_rng(seed)
            with contextlib.redirect_stdout(io.StringIO()):
                ob.fn(E)
            out["samples"] += 1
            out["n"] += E.n_checked
            out["nontrivial"] += E.n_nontrivial
            labels.update(E.labels)
            if k == 0:
                out["sample"] = {"seed": seed, "values": {a: short(b, 80) for a, b in list(E.values.items())[:12]}, "trace": E.trace[:8]}
        except ContractFail as e:
            out.update(status="fail", label=e.label, info=short(e.info, 3000), seed=seed,
                       values={a: short(b, 200) for a, b in E.values.items()}, trace=E.trace)
        except Skip:
            out["skipped"] += 1
        except Timeout:
            out.update(status="undecided", info=f"time limit {ob.timeout}s (sample {k})")
        except Undecided as e:
            out.update(status="undecided", info=str(e))
        except Exception as e:
            tb = "".join(traceback.format_exception(e))[-3000:]
            if in_repo(e.__traceback__):
                out.update(status="fail", label=f"unexpected {type(e).__name__}", info=tb, seed=seed,
                           values={a: short(b, 200) for a, b in E.values.items()}, trace=E.trace)
            else:
                out.update(status="undecided", info="harness: " + tb)
        finally:
            signal.alarm(0)
        if out["status"] != "ok":
            break
        if time.time() - t0 > ob.timeout:
            break
    out["labels"] = sorted(labels)[:40]
    out["t"] = time.time() - t0
    return out
