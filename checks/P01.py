"""P01: wires algebra against the set definition of connecting components."""
import itertools
import numpy as np
from common import *

SLOTS = ("out bra", "in bra", "out ket", "in ket", "classical out", "classical in")


def register(R):
    from mrmustard.physics.wires import Wires, ReprEnum
    R.explanation = ("the real Wires methods are compared with the set definition (outputs of the left meet inputs of the right, per slot and mode) "
                     "for every pair of the 64 single-mode layouts, and for many random multi-mode layouts and chains")

    # ------------------------------------------------------------ the definition
    def mk(l):
        return Wires(*[set(s) for s in l])

    def std(l):
        """standard order: list of (slot, mode)"""
        return [(k, m) for k in range(6) for m in sorted(l[k])]

    def of(w):
        return tuple(frozenset(s) for s in w.args)

    def listing(w):
        """(slot, mode) of the sorted wires"""
        out = []
        for q in w.sorted_wires:
            if hasattr(q, "is_ket"):
                out.append(((0 if q.is_out else 1) + (2 if q.is_ket else 0), q.mode))
            else:
                out.append((4 if q.is_out else 5, q.mode))
        return out

    def connect(a, b):
        """None when ill formed"""
        r = [None] * 6
        for o, i in ((0, 1), (2, 3), (4, 5)):
            s = a[o] - b[i]
            if s & b[o]:
                return None
            r[o] = b[o] | s
            s = b[i] - a[o]
            if s & a[i]:
                return None
            r[i] = a[i] | s
        return tuple(frozenset(x) for x in r)

    def well_formed(E, nm, w, l):
        E.true(nm + ": content", of(w) == l, f"{of(w)} != {l}")
        E.true(nm + ": standard order", listing(w) == std(l), f"{listing(w)}")
        E.true(nm + ": length", len(w) == sum(map(len, l)))
        E.true(nm + ": modes", set(w.modes) == set().union(*l))

    def check_pair(E, a, b, share=False):
        A = mk(a)
        B = A if share else mk(b)
        ref = connect(a, b)
        if ref is None:
            E.raises(f"ill-formed connection refused {a} @ {b}", lambda: A @ B, ValueError)
            return None
        W, perm = A @ B
        well_formed(E, "connected", W, ref)
        E.true("indices are 0..n-1", tuple(W.indices) == tuple(range(len(W))), str(W.indices))
        # the permutation: leftovers of A then of B
        left = [(k, m) for k, m in std(a) if not (k in (0, 2, 4) and m in b[k + 1])]
        right = [(k, m) for k, m in std(b) if not (k in (1, 3, 5) and m in a[k - 1])]
        lo = left + right
        E.true("permutation is one", sorted(perm) == list(range(len(lo))), f"{a} @ {b}: {perm}")
        E.true("permutation sorts the leftovers", [lo[p] for p in perm] == std(ref), f"{a} @ {b}: {perm}")
        well_formed(E, "left operand unchanged", A, a)
        well_formed(E, "right operand unchanged", B, b)
        # contracted indices / labels
        iA, iB = A.contracted_indices(B)
        sa, sb = std(a), std(b)
        pairs = {(sa[i], sb[j]) for i, j in zip(iA, iB)}
        want = {((k, m), (k + 1, m)) for k in (0, 2, 4) for m in a[k] & b[k + 1]}
        E.true("contracted pairs", pairs == want and len(iA) == len(iB), f"{a} @ {b}: {pairs}")
        ob, ok = A.overlap(B)
        E.true("overlap", set(ob) == a[0] & b[1] and set(ok) == a[2] & b[3])
        if len(std(ref)) >= 0:
            la, lb, lo_ = A.contracted_labels(B)
            E.true("labels: one per wire", len(la) == len(sa) and len(lb) == len(sb) and len(set(la)) == len(la) and len(set(lb)) == len(lb))
            E.true("labels: equal exactly for the joined wires", {(sa[i], sb[j]) for i in range(len(la)) for j in range(len(lb)) if la[i] == lb[j]} == want)
            lab = dict(zip(la, sa))
            lab.update({l: s for l, s in zip(lb, sb) if l not in lab})
            E.true("labels: output order", [lab[l] for l in lo_] == std(ref), f"{a} @ {b}: {la},{lb}->{lo_}")
        return W

    layouts1 = [tuple(frozenset([5]) if (k >> s) & 1 else frozenset() for s in range(6)) for k in range(64)]

    def exhaustive(lo, hi):
        def f(E):
            for x in range(lo, hi):
                for b in layouts1:
                    check_pair(E, layouts1[x], b)
            for x in range(lo, hi):
                check_pair(E, layouts1[x], layouts1[x], share=True)
        return f
    for k in range(4):
        R.bounded(f"every pair of single-mode layouts, part {k}", exhaustive(16 * k, 16 * k + 16), ["Wires.__matmul__", "Wires.contracted_indices", "Wires.contracted_labels", "Wires.overlap"], num=1,
                  bound="one mode: all 64 x 64 layouts, including an object connected with itself")

    def rand_layout(rng, modes, p=0.5, classical=True):
        return tuple(frozenset(m for m in modes if rng.random() < p and (k < 4 or classical)) for k in range(6))

    def univ(rng):
        n = int(rng.integers(1, 6))
        hi = [8, 40, 1000, 30000, 10 ** 7][int(rng.integers(5))]
        return sorted({int(x) for x in rng.integers(0, hi, size=n)})

    def fit(rng, a, modes, classical=True):
        """a layout that can follow a"""
        b = [set(s) for s in rand_layout(rng, modes, 0.5, classical)]
        for o, i in ((0, 1), (2, 3), (4, 5)):
            b[o] -= (a[o] - b[i])
            b[i] -= (a[i] - a[o])
        return tuple(frozenset(s) for s in b)

    def multi(E):
        for _ in range(60):
            md = univ(E.rng)
            cl = bool(E.rng.integers(2))
            a = rand_layout(E.rng, md, E.pick(0.3, 0.6), cl)
            b = fit(E.rng, a, md, cl) if E.rng.random() < 0.8 else rand_layout(E.rng, md, 0.4, cl)
            E.note(a, b)
            check_pair(E, a, b)
    R.bounded("pairs of multi-mode layouts", multi, ["Wires.__matmul__", "Wires.contracted_indices", "Wires.contracted_labels"], num=12, bound="up to 5 modes with labels below 10^7, random layouts")

    def chain(E):
        """associativity and agreement of every bracketing"""
        for _ in range(15):
            md = univ(E.rng)
            a = rand_layout(E.rng, md, 0.5)
            b = fit(E.rng, a, md)
            ab = connect(a, b)
            c = fit(E.rng, ab, md)
            E.note(a, b, c)
            W = (mk(a) @ mk(b))[0]
            L_ = (W @ mk(c))[0]
            well_formed(E, "chain of three", L_, connect(ab, c))
            bc = connect(b, c)
            if bc is not None and connect(a, bc) is not None:
                well_formed(E, "associativity", (mk(a) @ (mk(b) @ mk(c))[0])[0], connect(a, bc))
                E.true("bracketings agree", connect(a, bc) == connect(ab, c))
            # the adjoint of a connection is the connection of the adjoints; the dual reverses the order
            well_formed(E, "adjoint of a connection", (mk(a).adjoint @ mk(b).adjoint)[0], of(W.adjoint))
            well_formed(E, "dual of a connection", (mk(b).dual @ mk(a).dual)[0], of(W.dual))
    R.bounded("chains and bracketings", chain, ["Wires.__matmul__", "Wires.adjoint", "Wires.dual"], num=10, bound="three layouts on up to 5 modes")

    def involutions(E):
        ls = layouts1 + [rand_layout(E.rng, univ(E.rng)) for _ in range(60)]
        for l in ls:
            W = mk(l)
            adj = (l[2], l[3], l[0], l[1], l[4], l[5])
            dua = (l[1], l[0], l[3], l[2], l[5], l[4])
            well_formed(E, "adjoint", W.adjoint, adj)
            well_formed(E, "dual", W.dual, dua)
            well_formed(E, "adjoint twice", W.adjoint.adjoint, l)
            well_formed(E, "dual twice", W.dual.dual, l)
            both = (adj[1], adj[0], adj[3], adj[2], adj[5], adj[4])
            well_formed(E, "dual of adjoint", W.adjoint.dual, both)
            well_formed(E, "adjoint of dual", W.dual.adjoint, both)
            well_formed(E, "operand unchanged", W, l)
            for nm, X, x in (("adjoint", W.adjoint, adj), ("dual", W.dual, dua)):
                E.true(nm + ": indices renumbered", tuple(X.indices) == tuple(range(len(X))))
                E.true(nm + ": equality", X == mk(x) and (X == W) == (x == l))
                # set operations on the mirrored wires see them where they now are
                if any(x):
                    E.raises(nm + ": overlap of equal wires refused", lambda: X + mk(x), ValueError)
                    E.raises(nm + ": overlap of equal wires refused (other side)", lambda: mk(x) + X, ValueError)
                y = tuple(s ^ frozenset([10 ** 6]) for s in [frozenset()] * 6)
                well_formed(E, nm + ": sum with other modes", X + mk(y), tuple(s | t for s, t in zip(x, y)))
            ids = {w.id for w in W}
            E.true("mirrored wires are new wires", not ids & {w.id for w in W.adjoint} and not ids & {w.id for w in W.dual})
    R.bounded("adjoint and dual", involutions, ["Wires.adjoint", "Wires.dual", "Wires.__add__", "Wires.__eq__"], num=3, bound="all 64 single-mode layouts, random layouts on up to 5 modes")

    def selections(E):
        """index queries of every sub-selection agree with the position in the full set"""
        for _ in range(25):
            md = univ(E.rng)
            l = rand_layout(E.rng, md, 0.6)
            W = mk(l)
            if E.rng.random() < 0.3:
                W = W.adjoint
                l = (l[2], l[3], l[0], l[1], l[4], l[5])
            if E.rng.random() < 0.3:
                W = W.dual
                l = (l[1], l[0], l[3], l[2], l[5], l[4])
            if E.rng.random() < 0.3:
                b = fit(E.rng, l, md)
                W, l = (W @ mk(b))[0], connect(l, b)
            full = std(l)
            pos = {s: k for k, s in enumerate(full)}
            E.true("full set", tuple(W.indices) == tuple(range(len(full))))
            sel = {"output": (0, 2, 4), "input": (1, 3, 5), "bra": (0, 1), "ket": (2, 3), "classical": (4, 5), "quantum": (0, 1, 2, 3)}
            for names in [(n,) for n in sel] + [(n, k) for n in sel for k in sel if n != k]:
                keep = set(range(6))
                V = W
                for n in names:
                    V = getattr(V, n)
                    keep &= set(sel[n])
                want = tuple(pos[s] for s in full if s[0] in keep)
                E.true("indices of " + ".".join(names), tuple(V.indices) == want, f"{l}: {V.indices} != {want}")
                E.true("ids of " + ".".join(names), tuple(V.ids) == tuple(W.ids[k] for k in want))
                ms = frozenset(m for m in md if E.rng.random() < 0.5)
                want = tuple(pos[s] for s in full if s[0] in keep and s[1] in ms)
                E.true("indices of modes of " + ".".join(names), tuple(V[tuple(ms)].indices) == want)
            one = md[int(E.rng.integers(len(md)))]
            E.true("indices of one mode", tuple(W[one].indices) == tuple(pos[s] for s in full if s[1] == one))
            # subtraction removes every wire of the named modes
            ms = frozenset(m for m in md if E.rng.random() < 0.5)
            V = W - Wires(ms, set(), set(), set())
            E.true("difference", [s for s in full if s[1] not in ms] == listing(V))
            E.true("copy equal", W.copy() == W and tuple(W.copy().ids) == tuple(W.ids) and tuple(W.copy().indices) == tuple(W.indices))
            E.true("copy with new ids", W.copy(new_ids=True) == W and not set(W.copy(new_ids=True).ids) & set(W.ids))
            c = W.copy()
            E.true("boolean", bool(W) == bool(full))
            for w in c:
                w.index = 77
            E.true("copies are independent", tuple(W.indices) == tuple(range(len(full))))
            E.true("equality", (W == mk(l)) and (hash(mk(l)) is not None))
    R.bounded("sub-selections", selections, ["Wires.input", "Wires.output", "Wires.bra", "Wires.ket", "Wires.classical", "Wires.quantum", "Wires.__getitem__", "Wires.indices", "Wires.__sub__", "Wires.copy"], num=10, bound="up to 5 modes")

    def reprs(E):
        """the representation attached to a wire does not change which wires are joined or refused"""
        for _ in range(40):
            md = univ(E.rng)[:3]
            a = rand_layout(E.rng, md, 0.6, False)
            b = fit(E.rng, a, md, False) if E.rng.random() < 0.6 else rand_layout(E.rng, md, 0.5, False)
            A, B = mk(a), mk(b)
            for w in list(A) + list(B):
                if E.rng.random() < 0.5:
                    w.repr = ReprEnum.FOCK
            ref = connect(a, b)
            if ref is None:
                E.raises("ill-formed connection refused", lambda: A @ B, ValueError)
            else:
                W, perm = A @ B
                well_formed(E, "connected", W, ref)
                E.true("permutation is one", sorted(perm) == list(range(len(W))))
    R.bounded("mixed representations", reprs, ["Wires.__matmul__", "Wires.__add__"], num=6, bound="up to 3 modes")
