"""independent semantics of components: functions of labelled variables (slot, mode)"""
import itertools
import numpy as np
import oracle as O

SLOTS = ("ob", "ib", "ok", "ik")          # standard order
MIRROR = {"ob": "ok", "ok": "ob", "ib": "ik", "ik": "ib"}
DUAL = {"ob": "ib", "ib": "ob", "ok": "ik", "ik": "ok"}


def std(labels):
    return sorted(labels, key=lambda l: (SLOTS.index(l[0]), l[1]))


class Fn:
    """labels (in any order) and a triple whose variables follow the labels"""

    def __init__(self, E, labels, triple):
        self.E, self.labels, self.triple = E, list(labels), triple

    def sorted(self):
        o = std(self.labels)
        k = [self.labels.index(l) for l in o]
        A, b, c = self.triple
        return Fn(self.E, o, (self.E.arr(A)[np.ix_(k, k)], self.E.arr(b)[k], c))

    def conj(self):
        E = self.E
        A, b, c = self.triple
        return (E.conj(E.arr(A)), E.conj(E.arr(b)), E.conj(c))

    @property
    def adjoint(self):
        return Fn(self.E, [(MIRROR[s], m) for s, m in self.labels], self.conj()).sorted()

    @property
    def dual(self):
        return Fn(self.E, [(DUAL[s], m) for s, m in self.labels], self.conj()).sorted()

    def has(self, side):
        return any(s.endswith(side) for s, _ in self.labels)

    def contract(self, o):
        i1, i2 = [], []
        for s, m in self.labels:
            if s in ("ob", "ok") and (DUAL[s], m) in o.labels:
                i1.append(self.labels.index((s, m)))
                i2.append(o.labels.index((DUAL[s], m)))
        left = [l for k, l in enumerate(self.labels) if k not in i1] + [l for k, l in enumerate(o.labels) if k not in i2]
        assert len(set(left)) == len(left), "ill-formed connection"
        return Fn(self.E, left, O.contract(self.E, self.triple, o.triple, i1, i2)).sorted()

    def __rshift__(self, o):
        sk, sb, ok, ob = self.has("k"), self.has("b"), o.has("k"), o.has("b")
        a = self
        if sk != sb and ok and ob:
            a = self.both()
        if ok != ob and sk and sb:
            o = o.both()
        return a.contract(o)

    def both(self):
        ad = self.adjoint
        return Fn(self.E, ad.labels + self.labels, O.direct_sum(self.E, ad.triple, self.triple)).sorted()


def labels_of(wires):
    out = []
    for s, modes in zip(SLOTS, wires.args):
        out += [(s, m) for m in sorted(modes)]
    return out


def of(E, comp, i=()):
    """the labelled function of a Bargmann component without polynomial part (batch element i)"""
    A, b, c = (E.arr(x) for x in comp.ansatz.triple)
    return Fn(E, labels_of(comp.wires), (A[i], b[i], c[i]))
