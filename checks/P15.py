"""P15: contraction order never changes the result of a network."""
import itertools
import random
import numpy as np
import oracle as O
import lab as L
from common import *
from P02 import rtriple


# ------------------------------------------------------------------------------------------ networks
class Net:
    """operands with labelled axes: (kind, data, batch labels, core labels); every core label is used by two operands or is an output"""

    def __init__(self):
        self.ops, self.out, self.names, self.dims = [], [], [], {}


def random_net(rng, n, kinds, nb, max_extra=2, ints=None, connected=True):
    """a random connected graph of n operands with open legs"""
    N = Net()
    legs = [[] for _ in range(n)]
    pool = list(rng.permutation(ints or range(40))[:30])
    for k in range(1, n):
        j = int(rng.integers(k))
        l = int(pool.pop())
        legs[k].append(l), legs[j].append(l)
    for _ in range(int(rng.integers(0, max_extra + 1))):
        if n > 1:
            j, k = rng.permutation(n)[:2]
            if len(legs[j]) < 3 and len(legs[k]) < 3:
                l = int(pool.pop())
                legs[k].append(l), legs[j].append(l)
    for _ in range(int(rng.integers(0, 3))):
        j = int(rng.integers(n))
        if len(legs[j]) < 3:
            l = int(pool.pop())
            legs[j].append(l)
            N.out.append(l)
    names = ["hello", "b", "z2", "core"][:nb]
    N.size = {x: int(rng.integers(1, 4)) for x in names}
    for k in range(n):
        lg = [int(x) for x in rng.permutation(legs[k])] if legs[k] else []
        bt = [str(x) for x in rng.permutation(names)[:int(rng.integers(0, nb + 1))]] if nb else []
        N.ops.append([kinds[k], None, bt, lg])
    used = [x for x in names if any(x in o[2] for o in N.ops)]
    N.names = [str(x) for x in rng.permutation(used)] if used else []
    N.out = [int(x) for x in rng.permutation(N.out)] if N.out else []
    return N


def merge_orders(rng, n, allowed=None):
    """a random complete contraction order, in SSA / LA / UA form; allowed(set1,set2) filters pairs"""
    ssa, la, ua = [], [], []
    items = [(k, frozenset([k])) for k in range(n)]      # (ssa id, members) in list order (LA)
    nxt = n
    while len(items) > 1:
        pairs = [(a, b) for a, b in itertools.permutations(range(len(items)), 2) if allowed is None or allowed(items[a][1], items[b][1])]
        if not pairs:
            return None
        a, b = pairs[int(rng.integers(len(pairs)))]
        ssa.append((items[a][0], items[b][0]))
        la.append((a, b))
        ua.append((int(rng.choice(sorted(items[a][1]))), int(rng.choice(sorted(items[b][1])))))
        new = (nxt, items[a][1] | items[b][1])
        nxt += 1
        for k in sorted((a, b), reverse=True):
            items.pop(k)
        items.append(new)
    return {"SSA": ssa, "LA": la, "UA": ua}


def register(R):
    from mrmustard import math, settings
    from mrmustard.physics.ansatz import PolyExpAnsatz as PE, ArrayAnsatz as AA
    from mrmustard.physics.mm_einsum import mm_einsum, ua_to_linear
    from mrmustard.lab import Circuit, CircuitComponent, Ket, DM, Operation, Map, Dgate, Sgate, Rgate, BSgate, S2gate, Vacuum, Coherent, SqueezedVacuum, TwoModeSqueezedVacuum, Number, Attenuator, TraceOut, Thermal
    from mrmustard.path import optimal_path, branch_and_bound as bb
    from mrmustard.physics.wires import Wires
    R.explanation = ("the real mm_einsum and Circuit.contract are executed on networks of free arrays / free triples in every contraction order and compared with the reference sum or integral; "
                     "the path optimiser is compared with an exhaustive search over the valid orders")
    F = lambda *n: list(n)
    MM = F("mm_einsum", "ua_to_linear", "get_shapes", "prepare_idx_out", "to_fock", "to_bargmann")

    # ------------------------------------------------------------------------------------ exact: arrays and triples
    def einsum_arrays(E, arrays, labels, out):
        """reference sum by definition"""
        size = {}
        for a, l in zip(arrays, labels):
            for x, s in zip(l, a.shape):
                size[x] = s if x not in size else min(s, size[x])
        summed = [x for x in size if x not in out]
        res = np.empty(tuple(size[x] for x in out), dtype=object)
        for o in np.ndindex(*res.shape):
            t = 0
            env = dict(zip(out, o))
            for s in itertools.product(*(range(size[x]) for x in summed)):
                env.update(zip(summed, s))
                p = 1
                for a, l in zip(arrays, labels):
                    p = p * a[tuple(env[x] for x in l)]
                t = t + p
            res[o] = t
        return res

    ARR = {"two arrays": ([([7, 0], (2, 3)), ([0], (3,))], [7]), "two arrays, other order": ([([0, 7], (3, 2)), ([7, 0], (2, 3))], []),
           "chain of three": ([([5, 1], (2, 2)), ([1, 9], (2, 2)), ([9, 3], (2, 2))], [3, 5]), "star": ([([4], (2,)), ([2], (2,)), ([2, 4, 8], (2, 2, 2))], [8]),
           "triangle": ([([1, 2], (2, 2)), ([3, 2], (2, 2)), ([3, 1], (2, 2))], []), "chain of four": ([([0], (2,)), ([1, 0], (2, 2)), ([2, 1], (2, 2)), ([2, 6], (2, 2))], [6]),
           "unequal cutoffs": ([([5, 1], (2, 3)), ([1, 9], (2, 2)), ([9], (3,))], [5]),
           "batch": ([(["u", 5, 1], (2, 1, 2)), (["v", "u", 1], (2, 2, 2))], ["v", "u", 5]), "batch of three": ([(["u", 1], (2, 2)), (["v", 1, 2], (2, 2, 2)), (["u", "v", 2], (2, 2, 2))], ["v", "u"])}

    def arrays(nm):
        ops, out = ARR[nm]

        def f(E):
            data, an, args = [], [], []
            for k, (l, s) in enumerate(ops):
                a = E.arr([E.cplx(f"a{k}_{j}") for j in range(int(np.prod(s)))]).reshape(s)
                data.append(a)
                args += [AA(a, sum(isinstance(x, str) for x in l)), list(l)]
            ref = einsum_arrays(E, data, [l for l, _ in ops], out)
            ref = ref if E.sym else ref.astype(complex)
            n = len(ops)
            cut = {}
            for l, s in ops:
                for x, d in zip(l, s):
                    if isinstance(x, int):
                        cut[x] = min(d, cut.get(x, 99))
            rng = np.random.default_rng(3 if E.sym else E.seed)
            done = set()
            for _ in range(40 if n > 2 else 6):
                shared = lambda p, q: bool({x for k in p for x in ops[k][0] if isinstance(x, int)} & {x for k in q for x in ops[k][0] if isinstance(x, int)})
                o = merge_orders(rng, n, shared)
                for form in ("LA", "SSA", "UA"):
                    if (form, tuple(o[form])) in done:
                        continue
                    done.add((form, tuple(o[form])))
                    for fd in ({}, cut):
                        r = mm_einsum(*args, output=list(out), fock_dims=dict(fd), contraction_path=list(o[form]), path_type=form)
                        E.eq(f"{form} {o[form]}", E.arr(r.array), ref)
                        E.true("batch dimensions", r.batch_dims == sum(isinstance(x, str) for x in out))
            for a, b in zip(args[::2], data):
                E.eq("operand unchanged", E.arr(a.array), b)
        return f
    for nm in ARR:
        R.ob(f"arrays: {nm}", arrays(nm), MM + ["ArrayAnsatz.contract"], bound="arrays of the listed shapes with free entries, all connected orders", num=3, timeout=200)

    TRI = {"two functions": ([[7, 0], [0]], [7]), "chain of three": ([[5], [1, 5], [1]], []), "chain with open ends": ([[5, 1], [9, 1], [3, 9]], [3, 5]), "star": ([[4], [2], [2, 8, 4]], [8]), "loop of two": ([[1, 2], [2, 1]], [])}

    def triples(nm):
        ops, out = TRI[nm]

        def f(E):
            n = len(ops)
            data, args = [], []
            for k, l in enumerate(ops):
                t = (E.csym(len(l), f"A{k}"), E.cvec(len(l), f"b{k}"), E.arr(E.cplx(f"c{k}"))) if E.sym else rtriple(E.rng, len(l), (), (), .4)
                data.append(t)
                args += [PE(*t), list(l)]
            A, b, c = np.zeros((0, 0), dtype=complex), np.zeros(0, dtype=complex), 1
            for t in data:
                A, b, c = O.direct_sum(E, (A, b, c), t)
            lab = [x for l in ops for x in l]
            pairs = [tuple(i for i, x in enumerate(lab) if x == y) for y in sorted(set(lab)) if lab.count(y) == 2]
            cc = c.item() if hasattr(c, "item") else c
            rA, rb, rc = O.integrate(E, A, b, 1 if E.sym else cc, pairs)
            if E.sym:
                rc = rc * cc * cc
            left = [x for x in lab if lab.count(x) == 1]
            k = [left.index(x) for x in out]
            rA, rb = (rA[np.ix_(k, k)], rb[k]) if k else (rA, rb)
            rng = np.random.default_rng(5 if E.sym else E.seed)
            done = set()
            for _ in range(12 if n > 2 else 2):
                shared = lambda p, q: bool({x for j in p for x in ops[j]} & {x for j in q for x in ops[j]})
                o = merge_orders(rng, n, shared)
                form = ("LA", "SSA", "UA")[len(done) % 3]
                if tuple(o["LA"]) in done:
                    continue
                done.add(tuple(o["LA"]))
                r = mm_einsum(*args, output=list(out), fock_dims={x: 0 for x in set(lab)}, contraction_path=list(o[form]), path_type=form)
                A2, b2, c2 = (E.arr(x) for x in r.triple)
                E.eq(f"{form} {o[form]}: A", A2, rA)
                E.eq(f"{form} {o[form]}: b", b2, rb)
                O.eqc(E, f"{form} {o[form]}: c", c2.item() if E.sym else c2, rc)
        return f
    for nm in TRI:
        R.ob(f"functions: {nm}", triples(nm), MM + ["PolyExpAnsatz.contract"], bound="free triples with the listed indices, connected orders", num=3, timeout=200)

    # ------------------------------------------------------------------------------------ conversions used inside
    def conv(E):
        from mrmustard.physics.mm_einsum import to_fock, to_bargmann
        n = E.pick(1, 2, 3)
        bs = E.pick((), (2,), (2, 3), (1,))
        der = E.pick((), (), (2,), (2, 3))
        ls = bool(E.rng.integers(2)) and bool(bs)
        t = rtriple(E.rng, n, bs, der, .4)
        shape = tuple(int(x) for x in E.rng.integers(1, 4, size=n))
        p = PE(*t, lin_sup=ls)
        want = np.array([amps(E, tuple(x[i] for x in t), n, shape) for i in np.ndindex(*bs)]).reshape(bs + shape)
        if ls:
            want = want.sum(len(bs) - 1)
        E.note(n, bs, der, ls, shape)
        f = to_fock(p, shape)
        E.eq("number basis", np.asarray(f.array), want)
        E.true("batch", tuple(f.batch_shape) == (bs[:-1] if ls else bs), f"{f.batch_shape}")
        g = to_bargmann(f)
        big = tuple(s + 1 for s in shape)
        nb = len(f.batch_shape)
        tt = [np.asarray(x) for x in g.triple]
        bs2 = tuple(f.batch_shape)
        got = np.array([amps(E, tuple(x[i] for x in tt), n, big) for i in np.ndindex(*bs2)]).reshape(bs2 + big)
        E.eq("polynomial", got, np.pad(want, [(0, 0)] * nb + [(0, 1)] * n))
    R.bounded("conversions", conv, F("to_fock", "to_bargmann"), num=40, bound="up to 3 indices, cutoffs 1-3, batches, superpositions, polynomials")

    def amps(E, t, n, shape):
        A, b, c = t
        c = np.asarray(c)
        if c.ndim == 0:
            return O.amplitudes(A, b, c, shape)
        G = O.amplitudes(A, b, 1.0, tuple(shape) + c.shape)
        return np.tensordot(G, c, axes=(tuple(range(n, n + c.ndim)), tuple(range(c.ndim))))

    # ------------------------------------------------------------------------------------ random networks
    def result_amps(E, r, dims, nb):
        """amplitudes of the returned ansatz at the given cutoffs, batch axes first"""
        n = len(dims)
        if isinstance(r, AA):
            a = np.asarray(r.array)
            E.true("batch dimensions of the result", r.batch_dims == nb, f"{r.batch_dims} {nb}")
            return a
        t = [np.asarray(x) for x in r.triple]
        bs = tuple(t[0].shape[:-2])
        v = np.array([amps(E, tuple(x[i] for x in t), n, dims) for i in np.ndindex(*bs)]).reshape(bs + tuple(dims))
        return v.sum(len(bs) - 1) if r._lin_sup else v

    def network(style):
        def f(E):
            rng = E.rng
            n = int(rng.integers(2, 5))
            nb = int(rng.integers(0, 3))
            kinds = ["F" if (style == "number" and rng.random() < .6) or (style == "mixed" and rng.random() < .35) else "B" for _ in range(n)]
            N = random_net(rng, n, kinds, nb)
            labels = sorted({l for o in N.ops for l in o[3]})
            users = {l: [k for k, o in enumerate(N.ops) if l in o[3]] for l in labels}
            dims = {}
            for l in labels:
                z = style == "function" or (style == "mixed" and len(users[l]) == 2 and all(kinds[k] == "B" for k in users[l]) and rng.random() < .6)
                dims[l] = 0 if z else int(rng.integers(1, 4))
            # a pair of operands may only share indices of one type
            for l in labels:
                for m in labels:
                    if len(users[l]) == 2 and users[l] == users[m]:
                        dims[m] = dims[l] if (dims[l] == 0 or dims[m] == 0) else dims[m]
            args, data = [], []
            for k, (kind, _, bt, lg) in enumerate(N.ops):
                bs = tuple(N.size[x] for x in bt)
                ls = kind == "B" and rng.random() < .25
                if kind == "F":
                    s = tuple(int(rng.integers(1, 4)) for _ in lg)
                    a = (rng.normal(size=bs + s) + 1j * rng.normal(size=bs + s)) * .5
                    args += [AA(a, len(bs)), list(bt) + list(lg)]
                    data.append(("F", a))
                else:
                    der = (2,) if rng.random() < .25 else ()
                    t = rtriple(rng, len(lg), bs + ((2,) if ls else ()), der, .35)
                    args += [PE(*t, lin_sup=ls), list(bt) + list(lg)]
                    data.append(("L" if ls else "B", t))
            # clusters of functions joined by integrals, then number-basis sums
            fd = {l: d for l, d in dims.items()}
            undeclared = style == "number" and rng.random() < .5
            if undeclared:
                # F-only indices may be left to the arrays, when no outer product occurs on the way
                for l in labels:
                    if all(kinds[k] == "F" for k in users[l]) and rng.random() < .5:
                        fd.pop(l)
            group = list(range(n))
            for l in labels:
                if dims[l] == 0 and len(users[l]) == 2:
                    a, b = (group[k] for k in users[l])
                    group = [a if g == b else g for g in group]
            if style == "mixed":
                gl = {}
                for l in labels:
                    gs = [group[k] for k in users[l]]
                    if dims[l] and len(gs) == 2 and gs[0] == gs[1]:
                        from harness import Skip
                        raise Skip()          # both kinds of index between the same clusters

            def ok(p, q):
                if style == "number":
                    return not undeclared or bool({l for k in p for l in N.ops[k][3]} & {l for k in q for l in N.ops[k][3]})
                if style == "function":
                    return True
                gp, gq = {group[k] for k in p}, {group[k] for k in q}
                if len(gp) == 1 and len(gq) == 1 and gp == gq:
                    return bool({l for k in p for l in N.ops[k][3] if dims[l] == 0} & {l for k in q for l in N.ops[k][3] if dims[l] == 0})
                # everything of the clusters involved must be merged first
                full = lambda s: all(({j for j in range(n) if group[j] == group[k]} <= set(s)) for k in s)
                sp = {l for k in p for l in N.ops[k][3]} & {l for k in q for l in N.ops[k][3]}
                return full(p) and full(q) and bool(sp)
            order = merge_orders(rng, n, ok)
            if order is None:
                from harness import Skip
                raise Skip()
            form = E.pick("LA", "SSA", "UA")
            # reference: sum over everything in the number basis; integrals as sums with a large cutoff are avoided by the exact cluster integral
            outd = [dims[l] if dims[l] else 2 for l in N.out]
            for l in labels:
                if l not in fd:
                    dims[l] = min(data[k][1].shape[len(N.ops[k][2]) + N.ops[k][3].index(l)] for k in users[l])
            outd = [dims[l] if dims[l] else 2 for l in N.out]
            E.note(style, [(k, o[2], o[3]) for k, o in zip(kinds, N.ops)], "out", N.names + N.out, "dims", fd, form, order[form])
            ref = reference(E, N, data, dims, group, outd)
            r = mm_einsum(*args, output=list(N.names) + list(N.out), fock_dims=fd, contraction_path=order[form], path_type=form)
            got = result_amps(E, r, outd, len(N.names))
            if got.shape != ref.shape and isinstance(r, AA):
                # arrays shorter than the requested cutoff stand for zeros
                got = np.pad(got, [(0, max(0, y - x)) for x, y in zip(got.shape, ref.shape)])[tuple(slice(0, y) for y in ref.shape)]
            E.eq("network", got, ref, tol=1e-6)
        return f

    def reference(E, N, data, dims, group, outd):
        size = N.size
        allb = [x for x in size if any(x in o[2] for o in N.ops)]
        res = np.zeros(tuple(size[x] for x in N.names) + tuple(outd), dtype=complex)
        for bi in np.ndindex(*(size[x] for x in allb)):
            env = dict(zip(allb, bi))
            # terms of the superpositions
            ls = [k for k, (t, _) in enumerate(data) if t == "L"]
            for li in itertools.product(*(range(2) for _ in ls)):
                term = dict(zip(ls, li))
                arrays, labs = [], []
                for g in sorted(set(group)):
                    mem = [k for k in range(len(data)) if group[k] == g]
                    if data[mem[0]][0] == "F" and len(mem) == 1:
                        k = mem[0]
                        a = data[k][1][tuple(env[x] for x in N.ops[k][2])]
                        s = [dims[l] if dims[l] else a.shape[i] for i, l in enumerate(N.ops[k][3])]
                        a = np.pad(a, [(0, max(0, y - x)) for x, y in zip(a.shape, s)])[tuple(slice(0, y) for y in s)]
                        arrays.append(a)
                        labs.append(list(N.ops[k][3]))
                        continue
                    A, b, c = np.zeros((0, 0), dtype=complex), np.zeros(0, dtype=complex), np.array(1.0 + 0j)
                    lab = []
                    nd = 0
                    for k in mem:
                        t, d = data[k]
                        ix = tuple(env[x] for x in N.ops[k][2]) + ((term[k],) if t == "L" else ())
                        a1, b1, c1 = (np.asarray(x)[ix] for x in d) if t != "F" else _poly(d[ix])
                        m = len(N.ops[k][3])
                        q = b1.shape[-1] - m
                        n1 = len(lab)
                        A2, b2, _ = O.direct_sum(E, (A, b, 1), (a1, b1, 1))
                        # order: core..., derived...
                        tot = n1 + nd
                        perm = list(range(n1)) + list(range(tot, tot + m)) + list(range(n1, tot)) + list(range(tot + m, tot + m + q))
                        A, b = A2[np.ix_(perm, perm)], b2[perm]
                        c = np.multiply.outer(c, c1)
                        lab += list(N.ops[k][3])
                        nd += q
                    pairs = [tuple(i for i, x in enumerate(lab) if x == y) for y in sorted(set(lab)) if lab.count(y) == 2]
                    A, b, c0 = O.integrate(E, A, b, 1.0 + 0j, pairs)
                    left = [x for x in lab if lab.count(x) == 1]
                    sh = [dims[l] if dims[l] else outd[N.out.index(l)] for l in left]
                    arrays.append(amps(E, (A, b, c * c0), len(left), sh))
                    labs.append(left)
                every = sorted({x for l in labs for x in l})
                ch_ = {x: chr(97 + i) for i, x in enumerate(every)}
                v = np.einsum(",".join("".join(ch_[x] for x in l) for l in labs) + "->" + "".join(ch_[x] for x in N.out), *arrays)
                res[tuple(env[x] for x in N.names)] += v
        return res

    def _poly(a):
        """array as a polynomial: core and derived variables"""
        n = a.ndim
        return O.xmat(n).astype(complex), np.zeros(2 * n, dtype=complex), a
    for style in ("number", "function", "mixed"):
        R.bounded(f"random networks: {style}", network(style), MM, num=60, bound="2-4 operands of up to 3 indices, cutoffs 1-3, up to 2 named batch axes, superpositions and polynomials, random orders in the three notations", timeout=300 if R.quick else 900)

    def ua(E):
        for n in range(1, 6):
            o = merge_orders(E.rng, n)
            lin = [tuple(sorted(p)) for p in o["LA"]]
            E.true(f"{n} operands", [tuple(sorted(p)) for p in ua_to_linear(o["UA"])] == lin, f"{o} {ua_to_linear(o['UA'])}")
    R.bounded("notations of a path", ua, F("ua_to_linear"), num=60, bound="up to 5 operands")

    # ------------------------------------------------------------------------------------ circuits
    def order_graph(comps):
        """pairs of components that must keep their order (common mode)"""
        return [(i, j) for i in range(len(comps)) for j in range(i + 1, len(comps)) if set(comps[i].modes) & set(comps[j].modes)]

    def valid_orders(comps, connected=True):
        """every complete order of pairwise contractions that keeps components acting on a common mode in order"""
        n = len(comps)
        dep = set(order_graph(comps))
        links = links_of(comps)

        def rec(groups, path):
            if len(groups) == 1:
                yield list(path)
                return
            for a, b in itertools.permutations(groups, 2):
                if connected and not any((i, j) in links for i in a[1] for j in b[1]):
                    continue
                if any((j, i) in dep for i in a[1] for j in b[1]):
                    continue
                # no third group between
                rest = [g for g in groups if g not in (a, b)]
                d = lambda p, q: any((i, j) in dep for i in p[1] for j in q[1])
                reach, todo = [], [g for g in rest if d(a, g)]
                while todo:
                    g = todo.pop()
                    if g in reach:
                        continue
                    reach.append(g)
                    todo += [h for h in rest if d(g, h)]
                if any(d(g, b) for g in reach):
                    continue
                new = (a[0], a[1] | b[1])
                yield from rec(rest + [new], path + [(a[0], b[0])])
        yield from rec([(k, frozenset([k])) for k in range(n)], [])

    def links_of(comps):
        """(i, j): a wire of i is plugged into j"""
        out = set()
        live = {}
        for j, c in enumerate(comps):
            for side, inn in (("b", c.wires.input.bra.modes), ("k", c.wires.input.ket.modes)):
                for m in inn:
                    if (side, m) in live:
                        out.add((live.pop((side, m)), j))
            for side, o in (("b", c.wires.output.bra.modes), ("k", c.wires.output.ket.modes)):
                for m in o:
                    live[(side, m)] = j
        return out

    def rand_comp(E, kind, modes, scale=.3):
        w = {"ket": (0, 0, 1, 0), "bra": (0, 0, 0, 1), "op": (0, 0, 1, 1), "dm": (1, 0, 1, 0), "ddm": (0, 1, 0, 1), "map": (1, 1, 1, 1)}[kind]
        W = Wires(*(set(modes) if x else set() for x in w))
        t = rtriple(E.rng, sum(w) * len(modes), (), (), scale)
        return CircuitComponent(PE(*t), W)

    def rand_circuit(E, fock=None, closed=True, double=False):
        """random circuit, optionally closed by projections (with modes measured and prepared again)"""
        rng = E.rng
        modes = [int(x) for x in rng.permutation([0, 1, 2, 4, 11, 300])[:int(rng.integers(1, 4))]]
        K = ("dm", "map", "ddm") if double else ("ket", "op", "bra")
        scale = .2 if double else .35
        comps, live = [], set()
        todo = list(modes)
        while todo:
            k = min(len(todo), int(rng.integers(1, 3)))
            m, todo = todo[:k], todo[k:]
            comps.append(rand_comp(E, K[0], m, scale))
            live |= set(m)
        for _ in range(int(rng.integers(1, 4 if len(modes) < 3 else 3))):
            x = rng.random()
            k = min(len(live), 1 if double else int(rng.integers(1, 3)))
            m = sorted(rng.permutation(sorted(live))[:k].tolist())
            if x < .25 and len(comps) < 5:                # measure and prepare again
                comps.append(rand_comp(E, K[2], m, scale))
                comps.append(rand_comp(E, K[0], m, scale))
            else:
                comps.append(rand_comp(E, K[1], m, scale))
        if closed:
            todo = [int(x) for x in rng.permutation(sorted(live))]
            while todo:
                k = min(len(todo), int(rng.integers(1, 3)))
                m, todo = todo[:k], todo[k:]
                comps.append(rand_comp(E, K[2], m, scale))
        E.note([c.wires.args for c in comps])
        return comps

    def seq(comps):
        r = comps[0]
        for c in comps[1:]:
            r = r >> c if hasattr(r, "wires") else c >> r
        return r

    def refval(E, comps):
        r = L.of(E, comps[0])
        for c in comps[1:]:
            r = r.contract(L.of(E, c))
        return r

    def same(E, nm, got, ref, tol=1e-6):
        if not ref.labels:
            v = got.ansatz.scalar if hasattr(got, "ansatz") else got
            E.eq(nm, np.asarray(v), ref.triple[2], tol=tol, shape=False)
            return
        E.true(nm + ": wires", hasattr(got, "wires") and L.labels_of(got.wires) == ref.labels, f"{getattr(got, 'wires', None)}")
        for x, y, q in zip(got.ansatz.triple, ref.triple, "Abc"):
            E.eq(f"{nm}: {q}", np.asarray(x), y, tol=tol, shape=False)

    def anyorder(double):
        def f(E):
            comps = rand_circuit(E, closed=bool(E.rng.integers(2)), double=double)
            ref = refval(E, comps)
            c = Circuit(comps)
            orders = list(itertools.islice(valid_orders(comps, connected=False), 3000))
            for k in E.rng.permutation(len(orders))[:12]:
                c.path = orders[int(k)]
                same(E, "order", c.contract(), ref)
            c = Circuit(comps)
            if [(0, i) for i in range(1, len(comps))] == c.path:
                same(E, "default order", c.contract(), ref)
            c.path = c.path[:-1]
            if len(comps) > 1:
                E.raises("incomplete order refused", c.contract, ValueError)
            same(E, "one after the other", seq(comps), ref)
        return f
    R.bounded("circuits in any order", anyorder(False), F("Circuit.contract", "Circuit.__init__", "CircuitComponent.__rshift__"), num=40, bound="1-3 modes, up to 9 components, measurement and new preparation of a mode")
    R.bounded("circuits with both sides in any order", anyorder(True), F("Circuit.contract", "CircuitComponent.__rshift__"), num=25, bound="1-3 modes, up to 9 components")

    def best_cost(comps, graph):
        """least total cost over the valid connected orders, by exhaustive dynamic programming over the repository's cost function"""
        n = len(comps)
        links = links_of(comps)
        dep = set(order_graph(comps))
        best = {}
        memo = {}

        def convex_pairs(groups):
            for a, b in itertools.permutations(groups, 2):
                if not any((i, j) in links for i in a for j in b):
                    continue
                d = lambda p, q: any((i, j) in dep for i in p for j in q)
                rest = [g for g in groups if g not in (a, b)]
                if d(b, a):
                    continue
                reach, todo = set(), [g for g in rest if d(a, g)]
                while todo:
                    g = todo.pop()
                    if g not in reach:
                        reach.add(g)
                        todo += [h for h in rest if d(g, h)]
                if not any(d(g, b) for g in reach):
                    yield a, b

        comp = {frozenset([k]): graph.component(k) for k in range(n)}

        def rec(groups):
            if len(groups) == 1:
                return 0
            if groups in memo:
                return memo[groups]
            m = float("inf")
            for a, b in convex_pairs(sorted(groups, key=sorted)):
                ga, gb = comp[a], comp[b]
                cost = ga.contraction_cost(gb)
                u = a | b
                comp[u] = ga @ gb
                m = min(m, cost + rec(frozenset(g for g in groups if g not in (a, b)) | {u}))
            memo[groups] = m
            return m
        return rec(frozenset(comp))

    def optimise(E):
        comps = rand_circuit(E, closed=True, double=E.rng.random() < .2)
        if len(comps) > 7:
            comps = rand_circuit(E, closed=True)
        links = links_of(comps)
        conn = {0}
        for _ in comps:
            conn |= {j for i, j in links if i in conn} | {i for i, j in links if j in conn}
        ref = refval(E, comps)
        full = 3
        for c in comps:
            c.manual_shape = tuple(int(x) for x in E.rng.integers(2, 6, size=len(L.labels_of(c.wires))))
        random.seed(E.seed)
        circ = Circuit(comps)
        if len(conn) < len(comps):
            E.raises("disconnected circuits refused", lambda: circ.optimize(verbose=False), ValueError)
            return
        circ.optimize(n_init=E.pick(0, 1, 20), with_BF_heuristic=bool(E.rng.integers(2)), verbose=False)
        E.true("complete order", len(circ.path) == len(comps) - 1 and sorted(b for _, b in circ.path) == sorted(set(range(len(comps))) - {circ_last(circ.path)}), f"{circ.path}")
        same(E, "optimised order", circ.contract(), ref)
        g = bb.parse_components(comps)
        bb.assign_costs(g)
        for n_init in (0, 1, 10):
            o = bb.optimal_contraction(bb.parse_components(comps), n_init, (), False)
            E.true("complete", o.number_of_edges() == 0 and len(o.nodes) == 1 and len(o.solution) == len(comps) - 1, f"{o.solution}")
            want = best_cost(comps, g)
            E.true("least cost", o.cost == want, f"{o.cost} {want} {o.solution}")
            # the reported cost is the cost of the reported order
            h, tot = {k: bb.GraphComponent.from_circuitcomponent(c) for k, c in enumerate(comps)}, 0
            for a, b in o.solution:
                tot += h[a].contraction_cost(h[b])
                h[a] = h[a] @ h.pop(b)
            E.true("reported cost", tot == o.cost == sum(o.costs), f"{tot} {o.cost}")
            circ.path = list(o.solution)
            same(E, "branch and bound order", circ.contract(), ref)
        for code in itertools.chain.from_iterable(itertools.combinations(("1BB", "2BB", "1BF", "1FB", "1FF", "2FF", "2BF", "1PP", "2PP", "1PA", "1AP", "1AA", "2AA"), k) for k in (1, 2)):
            if E.rng.random() < .1:
                o = bb.optimal_contraction(bb.parse_components(comps), 2, code, False)
                circ.path = list(o.solution)
                E.true(f"heuristics {code}: complete", len(o.nodes) == 1, f"{o.solution}")
                same(E, f"heuristics {code}", circ.contract(), ref)
    def circ_last(path):
        rest = {x for p in path for x in p} - {b for _, b in path}
        return next(iter(rest)) if rest else 0
    R.bounded("optimised circuits", optimise, F("optimal_path", "optimal_contraction", "parse_components", "contract", "children", "grandchildren", "random_solution", "reduce_first", "heuristic", "Graph"), num=30,
              bound="closed circuits on 1-3 modes, up to 9 components; least cost compared with an exhaustive search", timeout=300 if R.quick else 900)

    def fock(E):
        """number-basis circuits with declared cutoffs: the optimised cutoffs keep the contraction exact"""
        rng = E.rng
        nm = int(rng.integers(2, 4))
        modes = sorted(rng.permutation([0, 1, 2, 5, 40])[:nm].tolist())
        cut = lambda: int(rng.integers(1, 6))
        cin, cend = E.pick((cut, cut), (lambda: int(rng.integers(1, 4)), lambda: 8), (lambda: 8, lambda: int(rng.integers(1, 4))))
        comps = []
        arr = lambda c, s: c.to_fock(tuple(s))
        for m in modes:
            comps.append(arr(Ket(ansatz=PE(*rtriple(rng, 1, (), (), .6)), wires=Wires(set(), set(), {m}, set())), (cin(),)))
        for _ in range(int(rng.integers(1, 4))):
            a, b = sorted(rng.permutation(modes)[:2].tolist())
            x = rng.random()
            if x < .7:
                bs = BSgate((a, b), float(rng.uniform(-3, 3)), float(rng.uniform(-3, 3)))
                s = tuple(int(v) for v in rng.integers(2, 8, size=4))
                if rng.random() < .6:
                    bs = arr(bs, s)
                else:
                    bs.manual_shape = s
                comps.append(bs)
            else:
                comps.append(arr(Sgate(a, .3, .2), (cut(), cut())))
        for m in modes:
            comps.append(arr(CircuitComponent(PE(*rtriple(rng, 1, (), (), .6)), Wires(set(), set(), set(), {m})), (cend(),)))
        E.note([type(c).__name__ for c in comps], [c.auto_shape() for c in comps])
        with settings(DEFAULT_REPRESENTATION="Fock"):
            arrays = []
            for c in comps:
                arrays.append(np.asarray(c.fock_array(c.auto_shape())))
            lab, live, out = [], {}, 0
            for c in comps:
                l = []
                ls = L.labels_of(c.wires)
                tmp = {}
                for s, m in ls:
                    if s == "ik":
                        tmp[("ik", m)] = live.pop(m)
                for s, m in ls:
                    if s == "ok":
                        live[m] = out
                        tmp[("ok", m)] = out
                        out += 1
                lab.append([tmp[x] for x in ls])
            size = {}
            for a, l in zip(arrays, lab):
                for x, s in zip(l, a.shape):
                    size[x] = min(s, size.get(x, 99))
            cutarr = [a[tuple(slice(0, size[x]) for x in l)] for a, l in zip(arrays, lab)]
            ref = np.einsum(",".join("".join(chr(97 + x) for x in l) for l in lab), *cutarr, optimize=True) if len(arrays) else 1
            random.seed(E.seed)
            before = [tuple(c.auto_shape()) for c in comps]
            circ = Circuit(comps)
            for c, s_ in zip(circ.components, before):
                c.manual_shape = s_
            pure = all(isinstance(c.ansatz, AA) for c in comps)
            links = links_of(comps)
            conn = {0}
            for _ in comps:
                conn |= {j for i, j in links if i in conn} | {i for i, j in links if j in conn}
            if len(conn) < len(comps):
                from harness import Skip
                raise Skip()
            g = bb.parse_components(circ.components)
            bb.optimize_fock_shapes(g, 0, False)
            new = [tuple(g.component(k).shape) for k in range(len(comps))]
            E.true("cutoffs are never raised", all(x <= y for p, q in zip(new, before) for x, y in zip(p, q)), f"{before} {new}")
            # contraction with the lowered cutoffs, by definition
            size2 = {}
            for s_, l in zip(new, lab):
                for x, s in zip(l, s_):
                    size2[x] = min(s, size2.get(x, 99))
            low = np.einsum(",".join("".join(chr(97 + x) for x in l) for l in lab), *[a[tuple(slice(0, size2[x]) for x in l)] for a, l in zip(arrays, lab)], optimize=True)
            E.eq("lowered cutoffs are sufficient", low, ref)
            circ.optimize(n_init=E.pick(0, 5), verbose=False)
            v = circ.contract()
            if pure:
                E.eq("optimised number-basis circuit", np.asarray(v), ref, shape=False, tol=1e-6)
    R.bounded("cutoffs", fock, F("optimize_fock_shapes", "Graph.optimize_fock_shapes", "optimal_path", "Circuit.contract"), num=30, bound="2-3 modes, beam splitters and squeezers, cutoffs up to 7")

    def support(E):
        """a lowered beam splitter keeps every amplitude allowed by photon number conservation"""
        bs = BSgate((0, 1), .3, .4)

        def one(m, n, inp):
            r = CircuitComponent(AA(np.ones(n), 0), Wires(set(), set(), set() if inp else {m}, {m} if inp else set()))
            r.manual_shape = (n,)
            return r
        top = 7 if R.quick else 9
        n = 0
        for sh in itertools.product(range(1, top), repeat=4):
            b = bs._light_copy()
            b.manual_shape = tuple(int(E.rng.integers(s, 12)) for s in sh)
            a, c, d, e = sh
            comps = [one(0, d, False), one(1, e, False), b, one(0, a, True), one(1, c, True)]
            g = bb.optimize_fock_shapes(bb.parse_components(comps), 0, False)
            new = next(tuple(g.component(k).shape) for k in range(5) if g.component(k).name == "BSgate")
            lost = [v for v in itertools.product(*(range(s) for s in sh)) if v[0] + v[1] == v[2] + v[3] and any(x >= y for x, y in zip(v, new))]
            if lost:
                E.true(f"no amplitude of a beam splitter of cutoffs {sh} is cut", False, f"{new} {lost[:3]}")
            if not all(x <= y for x, y in zip(new, sh)):
                E.true(f"cutoffs {sh} are never raised", False, f"{new}")
            n += 1
        E.true("cases examined", n > 0)
    R.bounded("beam splitter cutoffs", support, F("optimize_fock_shapes"), num=1, bound="cutoffs up to 5 (thorough 8) at each port")

    def errors(E):
        a, b = rtriple(E.rng, 2, (), (), .4), rtriple(E.rng, 2, (), (), .4)
        x, y = PE(*a), PE(*b)
        E.raises("mixed indices refused", lambda: mm_einsum(x, [0, 1], y, [0, 1], output=[], fock_dims={0: 0, 1: 3}, contraction_path=[(0, 1)]), ValueError)
        E.raises("incomplete order refused", lambda: mm_einsum(x, [0, 1], y, [1, 2], y, [2, 3], output=[0, 3], fock_dims={0: 0, 1: 0, 2: 0, 3: 0}, contraction_path=[(0, 1)]), ValueError)
        E.raises("dangling wires refused", lambda: Circuit([rand_comp(E, "ket", [0]), rand_comp(E, "op", [0])]).optimize(verbose=False), NotImplementedError)
        E.raises("overlapping components refused", lambda: bb.parse_components([rand_comp(E, "ket", [0]), rand_comp(E, "ket", [0])]), ValueError)
    R.bounded("refused requests", errors, MM + ["optimal_path", "parse_components"], num=3)
