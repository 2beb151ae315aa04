"""Exact algebra used as the verifier's term language.

A ``Sym`` is  (P/Q) * exp(X)  with P, Q polynomials with integer coefficients over
generators and X another rational function.  Generators are:
  * free real / positive / complex parameters (a complex one comes with its conjugate),
  * exponentials exp(i*theta/4), exp(r/4) of declared angles / real squeezing parameters,
  * algebraic generators: I (I**2 = -1) and square roots S_R (S_R**2 = R).
Identities are decided by normal form: numerator of (lhs - rhs) reduced modulo the
algebraic relations must vanish identically, i.e. the identity holds for ALL values of the
parameters for which both sides are defined.
"""
from __future__ import annotations
from fractions import Fraction
from math import gcd, isqrt
import cmath, math, numbers, random
import numpy as np


class Unsupported(Exception):
    pass


class Blowup(Unsupported):
    pass


MAXTERMS = 60000

# ------------------------------------------------------------------ generators
class Gen:
    __slots__ = ("idx", "name", "kind", "conj", "rel", "pos", "real")
    # kind: 'I','sqrt','real','pos','cplx','exp'

GENS: list = []
_BYNAME: dict = {}
_SQRTS: dict = {}


def new_gen(name, kind, pos=False, real=True):
    if name in _BYNAME:
        return _BYNAME[name]
    g = Gen()
    g.idx = len(GENS)
    g.name, g.kind, g.pos, g.real = name, kind, pos, real
    g.conj, g.rel = None, None
    GENS.append(g)
    _BYNAME[name] = g
    return g


# ------------------------------------------------------------------ polynomials: dict mono->int
def p_const(c):
    return {(): c} if c else {}


def m_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    out = []
    i = j = 0
    la, lb = len(a), len(b)
    while i < la and j < lb:
        x, y = a[i], b[j]
        if x[0] == y[0]:
            e = x[1] + y[1]
            if e:
                out.append((x[0], e))
            i += 1
            j += 1
        elif x[0] < y[0]:
            out.append(x)
            i += 1
        else:
            out.append(y)
            j += 1
    out.extend(a[i:])
    out.extend(b[j:])
    return tuple(out)


def p_add(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + s * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def p_scale(a, k):
    if k == 1:
        return a
    if not k:
        return {}
    return {m: c * k for m, c in a.items()}


def p_mmul(a, mono, k=1):
    return {m_mul(m, mono): c * k for m, c in a.items()}


def p_mul(a, b):
    if not a or not b:
        return {}
    if len(a) > len(b):
        a, b = b, a
    if len(a) * len(b) > 4_000_000:
        raise Blowup("product too large")
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = m_mul(m1, m2)
            v = r.get(m, 0) + c1 * c2
            if v:
                r[m] = v
            else:
                r.pop(m, None)
    return p_reduce(r)


def p_reduce(p):
    """reduce algebraic generators to degree <= 1 (and >= 0)"""
    while True:
        bad = None
        for m in p:
            for g, e in m:
                if (e > 1 or e < 0) and GENS[g].rel is not None:
                    bad = g
                    break
            if bad is not None:
                break
        if bad is None:
            break
        rel = GENS[bad].rel  # polynomial R with S**2 = R
        out = {}
        for m, c in p.items():
            e = 0
            for g, ee in m:
                if g == bad:
                    e = ee
            if 0 <= e <= 1:
                v = out.get(m, 0) + c
                if v:
                    out[m] = v
                else:
                    out.pop(m, None)
                continue
            if e < 0:
                raise Unsupported("negative power of algebraic generator in polynomial")
            q, r = divmod(e, 2)
            base = tuple((g, ee) for g, ee in m if g != bad)
            if r:
                base = m_mul(base, ((bad, 1),))
            t = {base: c}
            for _ in range(q):
                nt = {}
                for m1, c1 in t.items():
                    for m2, c2 in rel.items():
                        mm = m_mul(m1, m2)
                        v = nt.get(mm, 0) + c1 * c2
                        if v:
                            nt[mm] = v
                        else:
                            nt.pop(mm, None)
                t = nt
            out = p_add(out, t)
        p = out
    if len(p) > MAXTERMS:
        raise Blowup("too many terms")
    return p


def p_content(p):
    g = 0
    for c in p.values():
        g = gcd(g, c)
        if g == 1:
            break
    return g or 1


def p_monogcd(p):
    """monomial common factor over non algebraic generators (min exponents)"""
    it = iter(p)
    first = dict(next(it))
    mins = dict(first)
    for m in it:
        d = dict(m)
        for g in list(mins):
            mins[g] = min(mins[g], d.get(g, 0))
        for g in d:
            if g not in mins:
                mins[g] = min(0, d[g])
    return tuple(sorted((g, e) for g, e in mins.items() if e and GENS[g].rel is None))


def m_inv(m):
    return tuple((g, -e) for g, e in m)


def p_key(p):
    return frozenset(p.items())


def p_gens(p):
    s = set()
    for m in p:
        for g, _ in m:
            s.add(g)
    return s


def p_lead(p):
    return max(p, key=_mkey)


def _mkey(m):
    # dense lex key
    return tuple(sorted(((-g, e) for g, e in m), reverse=True))


def p_divexact(a, b, limit=20000):
    """exact division of polynomials (no negative exponents expected in b); None if not exact"""
    if not a:
        return {}
    if len(b) == 1:
        (m, c), = b.items()
        out = {}
        for mm, cc in a.items():
            if cc % c:
                return None
            out[m_mul(mm, m_inv(m))] = cc // c
        return out
    # shift a to be a genuine polynomial
    gens = sorted(p_gens(b) | p_gens(a))
    pos = {g: i for i, g in enumerate(gens)}
    mins = [0] * len(gens)
    for m in a:
        for g, e in m:
            if e < mins[pos[g]]:
                mins[pos[g]] = e

    def dense(m, shift):
        v = [0] * len(gens)
        for g, e in m:
            v[pos[g]] = e
        if shift:
            v = [x - y for x, y in zip(v, mins)]
        return tuple(v)

    A = {dense(m, True): c for m, c in a.items()}
    B = [(dense(m, False), c) for m, c in b.items()]
    B.sort(reverse=True)
    lb, lc = B[0]
    if any(x < 0 for m, _ in B for x in m):
        return None
    import heapq
    heap = [tuple(-x for x in m) for m in A]
    heapq.heapify(heap)
    q = {}
    steps = 0
    while heap:
        m = tuple(-x for x in heapq.heappop(heap))
        c = A.pop(m, 0)
        if not c:
            continue
        steps += 1
        if steps > limit:
            return None
        d = tuple(x - y for x, y in zip(m, lb))
        if any(x < 0 for x in d) or c % lc:
            return None
        k = c // lc
        q[d] = k
        for mb, cb in B[1:]:
            mm = tuple(x + y for x, y in zip(mb, d))
            if mm in A:
                v = A[mm] - k * cb
                if v:
                    A[mm] = v
                else:
                    del A[mm]
            else:
                A[mm] = -k * cb
                heapq.heappush(heap, tuple(-x for x in mm))
    out = {}
    for m, c in q.items():
        out[tuple((gens[i], e + mins[i]) for i, e in enumerate(m) if e + mins[i])] = c
    return out


def p_conj(p):
    out = {}
    for m, c in p.items():
        mm = ()
        for g, e in m:
            gn = GENS[g]
            if gn.kind == "I":
                mm = m_mul(mm, ((g, e),))
                if e % 2:
                    c = -c
            elif gn.conj is None:
                mm = m_mul(mm, ((g, e),))
            else:
                cg, ce = gn.conj
                mm = m_mul(mm, ((cg, e * ce),))
        v = out.get(mm, 0) + c
        if v:
            out[mm] = v
        else:
            out.pop(mm, None)
    return out


# ------------------------------------------------------------------ factor registry
class Factor:
    __slots__ = ("poly", "key", "pos")


_FACTORS: dict = {}


def _is_pos_poly(p):
    return all(c > 0 for c in p.values()) and all(
        GENS[g].pos or e % 2 == 0 and GENS[g].real for m in p for g, e in m
    )


def get_factor(p):
    k = p_key(p)
    f = _FACTORS.get(k)
    if f is None:
        f = Factor()
        f.poly, f.key = p, k
        f.pos = _is_pos_poly(p)
        _FACTORS[k] = f
    return f


_ATOM_CACHE: dict = {}


def sympy_factor(p):
    """list of (poly, exp); p primitive, non-negative exponents, no algebraic gens except sqrt gens absent"""
    import sympy
    gens = sorted(p_gens(p))
    if not gens:
        return [(p, 1)]
    syms = [sympy.Symbol(f"x{g}") for g in gens]
    pos = {g: i for i, g in enumerate(gens)}
    d = {}
    for m, c in p.items():
        v = [0] * len(gens)
        for g, e in m:
            v[pos[g]] = e
        d[tuple(v)] = c
    P = sympy.Poly.from_dict(d, *syms, domain="ZZ")
    cont, fl = P.factor_list()
    out = []
    for f, e in fl:
        fd = {}
        for mm, c in f.as_dict().items():
            fd[tuple((gens[i], int(x)) for i, x in enumerate(mm) if x)] = int(c)
        out.append((fd, int(e)))
    if cont != 1:
        out.append(({(): int(cont)}, 1))
    return out


def atomize(p):
    """p (no algebraic gens) = c * mono * prod f**e ; returns c, mono, {Factor: e}"""
    k = p_key(p)
    r = _ATOM_CACHE.get(k)
    if r is not None:
        return r
    c = p_content(p)
    mono = p_monogcd(p)
    q = {m_mul(m, m_inv(mono)): v // c for m, v in p.items()}
    if q[p_lead(q)] < 0:
        q = {m: -v for m, v in q.items()}
        c = -c
    fac = {}
    if len(q) == 1 and () in q:
        c *= q[()]
    else:
        # try known factors first
        for f in list(_FACTORS.values()):
            if len(f.poly) <= len(q) and p_gens(f.poly) <= p_gens(q):
                while len(q) > 1:
                    d = p_divexact(q, f.poly, 3000)
                    if d is None:
                        break
                    fac[f] = fac.get(f, 0) + 1
                    q = d
        if len(q) == 1 and () in q:
            c *= q[()]
        else:
            if len(q) <= 120:
                fl = sympy_factor(q)
            else:
                fl = [(q, 1)]
            for fp, e in fl:
                if len(fp) == 1 and () in fp:
                    c *= fp[()] ** e
                    continue
                if fp[p_lead(fp)] < 0:
                    fp = {m: -v for m, v in fp.items()}
                    if e % 2:
                        c = -c
                f = get_factor(fp)
                fac[f] = fac.get(f, 0) + e
    r = (c, mono, fac)
    _ATOM_CACHE[k] = r
    return r


# ------------------------------------------------------------------ fractions
class Frac:
    """num / (d * prod f**e)"""
    __slots__ = ("num", "d", "fac")

    def __init__(self, num, d=1, fac=None):
        self.num, self.d, self.fac = num, d, fac or {}
        if not num:
            self.d, self.fac = 1, {}
        elif d != 1:
            g = gcd(p_content(num), d)
            if d < 0:
                g = -abs(g)
            if g != 1:
                self.num = {m: c // g for m, c in num.items()}
                self.d = d // g

    def iszero(self):
        return not self.num

    def is_const(self):
        return not self.fac and all(m == () for m in self.num)


ZERO = Frac({})
ONE = Frac({(): 1})


def f_simpl(f):
    if not f.fac or not f.num:
        return f
    num, fac = f.num, dict(f.fac)
    for k in list(fac):
        while fac.get(k, 0) > 0 and len(num) >= 1:
            if len(num) < 1:
                break
            d = p_divexact(num, k.poly, 20000)
            if d is None:
                break
            num = d
            fac[k] -= 1
            if not fac[k]:
                del fac[k]
    return Frac(num, f.d, fac)


def f_add(a, b, s=1):
    if not a.num:
        return b if s == 1 else Frac(p_scale(b.num, -1), b.d, b.fac)
    if not b.num:
        return a
    if a.fac == b.fac:
        fa = fb = None
        fac = a.fac
        na, nb = a.num, b.num
    else:
        fac = dict(a.fac)
        for k, e in b.fac.items():
            if fac.get(k, 0) < e:
                fac[k] = e
        na, nb = a.num, b.num
        for k, e in fac.items():
            for _ in range(e - a.fac.get(k, 0)):
                na = p_mul(na, k.poly)
            for _ in range(e - b.fac.get(k, 0)):
                nb = p_mul(nb, k.poly)
    g = gcd(a.d, b.d)
    num = p_add(p_scale(na, b.d // g), nb, s * (a.d // g)) if (b.d // g != 1 or a.d // g != 1) else p_add(na, nb, s)
    r = Frac(num, a.d // g * b.d, fac)
    return f_simpl(r) if fac else r


def f_mul(a, b):
    if not a.num or not b.num:
        return ZERO
    # cross cancel
    na, nb = a.num, b.num
    fa, fb = dict(a.fac), dict(b.fac)
    for k in list(fb):
        while fb.get(k):
            d = p_divexact(na, k.poly, 20000)
            if d is None:
                break
            na = d
            fb[k] -= 1
            if not fb[k]:
                del fb[k]
    for k in list(fa):
        while fa.get(k):
            d = p_divexact(nb, k.poly, 20000)
            if d is None:
                break
            nb = d
            fa[k] -= 1
            if not fa[k]:
                del fa[k]
    for k, e in fb.items():
        fa[k] = fa.get(k, 0) + e
    r = Frac(p_mul(na, nb), a.d * b.d, fa)
    return f_simpl(r) if fa and (_has_alg(na) or _has_alg(nb)) else r


def _has_alg(p):
    return any(GENS[g].rel is not None for m in p for g, _ in m)


def f_inv(a):
    if not a.num:
        raise ZeroDivisionError("symbolic zero")
    num = a.num
    mult = {(): 1}
    # rationalise algebraic generators, deepest (largest index) first
    while True:
        alg = [g for g in p_gens(num) if GENS[g].rel is not None]
        if not alg:
            break
        g = max(alg)
        bar = {}
        for m, c in num.items():
            e = dict(m).get(g, 0)
            bar[m] = -c if e % 2 else c
        if len(num) == 1 or all(dict(m).get(g, 0) == 1 for m in num):
            # num = S * rest  -> 1/num = S/(R*rest)
            bar = {((g, 1),): 1}
        mult = p_mul(mult, bar)
        num = p_mul(num, bar)
        if not num:
            raise ZeroDivisionError("symbolic zero divisor")
    c, mono, fac = atomize(num)
    n = p_mul({m_inv(mono): a.d}, mult)
    for k, e in a.fac.items():
        e2 = min(e, fac.get(k, 0))
        # a.fac in the denominator becomes numerator of the inverse
        rem = e - e2
        if e2:
            fac = dict(fac)
            fac[k] -= e2
            if not fac[k]:
                del fac[k]
        for _ in range(rem):
            n = p_mul(n, k.poly)
    if c < 0:
        c = -c
        n = p_scale(n, -1)
    r = Frac(n, c, fac)
    return f_simpl(r) if fac else r


def f_conj(a):
    num = p_conj(a.num)
    r = Frac(num, a.d)
    for k, e in a.fac.items():
        cp = p_conj(k.poly)
        if p_key(cp) == k.key:
            r = Frac(r.num, r.d, {**r.fac, k: r.fac.get(k, 0) + e})
        else:
            inv = f_inv(Frac(cp))
            for _ in range(e):
                r = f_mul(r, inv)
    return r


def f_eq(a, b):
    return not f_add(a, b, -1).num


# ------------------------------------------------------------------ I
gI = new_gen("I", "I", real=False)
gI.rel = {(): -1}
F_I = Frac({((gI.idx, 1),): 1})


def squarefree_int(n):
    """n = s*s*r"""
    s, r, p = 1, 1, 2
    while p * p <= n:
        e = 0
        while n % p == 0:
            n //= p
            e += 1
        s *= p ** (e // 2)
        if e % 2:
            r *= p
        p += 1
        if p > 100000:
            break
    return s, r * n


def sqrt_gen(poly):
    k = p_key(poly)
    g = _SQRTS.get(k)
    if g is None:
        g = new_gen(f"sqrt{len(_SQRTS)}", "sqrt", pos=_is_pos_poly(poly), real=True)
        g.rel = poly
        _SQRTS[k] = g
        cp = p_conj(poly)
        if p_key(cp) != k:
            g.real = False
            cg = sqrt_gen(cp)
            g.conj = (cg.idx, 1)
            cg.conj = (g.idx, 1)
        else:
            # real radicand: sqrt assumed real (principal root of a nonnegative quantity)
            g.conj = None
    return g


def f_sqrt(a):
    """principal square root, positive parts pulled out only for provably positive factors"""
    if not a.num:
        return ZERO
    num = a.num
    if _has_alg(num):
        mono = next(iter(num)) if len(num) == 1 else None
        if mono is None or any(GENS[g].kind == "I" for g, _ in mono):
            # generic algebraic radicand: make it polynomial/den
            den = ONE
            out = ONE
            k_in = {}
            n2 = num
            for k, e in a.fac.items():
                h = (e + 1) // 2
                out = f_mul(out, f_inv(_pow(Frac(k.poly), h)))
                if e % 2:
                    n2 = p_mul(n2, k.poly)
                if not k.pos:
                    raise Unsupported("sqrt with non positive denominator of algebraic radicand")
            s, r = squarefree_int(a.d)
            n2 = p_scale(n2, r)
            g = sqrt_gen(n2)
            return f_mul(Frac({((g.idx, 1),): 1}, s * r), out)
    # radicand without I
    if _has_alg(num):
        (mono, c0), = num.items()
        algm = tuple((g, e) for g, e in mono if GENS[g].rel is not None)
        rest = {tuple((g, e) for g, e in mono if GENS[g].rel is None): c0}
        g = sqrt_gen({algm: 1})
        return f_mul(Frac({((g.idx, 1),): 1}), f_sqrt(Frac(rest, a.d, a.fac)))
    c, mono, fac = atomize(num)
    facd = dict(fac)
    for k, e in a.fac.items():
        facd[k] = facd.get(k, 0) - e
    # integer part c/d
    sign = 1
    if c < 0:
        sign, c = -1, -c
    s1, r1 = squarefree_int(c * a.d)
    res = Frac({(): s1}, a.d)
    radp = {(): r1}
    if sign < 0:
        # sqrt(-x) : try flipping the sign of a non positive odd factor
        cand = [k for k, e in facd.items() if e % 2 and not k.pos]
        if not cand and all(GENS[g].pos for g, e in mono) and all(k.pos for k in facd):
            res = f_mul(res, F_I)
        else:
            radp = p_scale(radp, -1)
    for g, e in mono:
        gn = GENS[g]
        if gn.pos:
            q, r = divmod(e, 2)
            res = f_mul(res, Frac({((g, q),): 1}) if q else ONE)
            if r:
                if gn.rel is None:
                    res = f_mul(res, Frac({((sqrt_gen({((g, 1),): 1}).idx, 1),): 1}))
                else:
                    radp = p_mmul(radp, ((g, 1),))
        else:
            # keep whole even powers inside only when not positive; normalise negative powers
            if e < 0:
                # x^-e = x^{-e}/x^{-2e}; not sign safe unless real
                h = -e if e % 2 == 0 else -e + 1
                if gn.real or gn.kind in ("exp", "cplx"):
                    radp = p_mmul(radp, ((g, e),))
            else:
                radp = p_mmul(radp, ((g, e),))
    for k, e in facd.items():
        if not e:
            continue
        if k.pos:
            q, r = divmod(e, 2)
            res = f_mul(res, _pow(Frac(k.poly), q))
            if r:  # sqrt(p x) = sqrt(p) sqrt(x) for p > 0
                res = f_mul(res, Frac({((sqrt_gen(dict(k.poly)).idx, 1),): 1}))
        else:
            if e < 0 and -e % 2 == 1:
                # 1/k = k/k^2 ; sqrt(k/k^2): |k| ambiguity -> use sqrt(k)/k valid when k>0; keep as root of 1/k
                # sqrt(1/k) = 1/sqrt(k) whenever k is not a negative real: assume principal branch
                g = sqrt_gen(dict(k.poly))
                inv = f_inv(_pow(Frac({((g.idx, 1),): 1}), -e))
                res = f_mul(res, inv)
            elif e > 0 and e % 2 == 1:
                g = sqrt_gen(dict(k.poly))
                res = f_mul(res, _pow(Frac({((g.idx, 1),): 1}), e))
            else:
                g = sqrt_gen(dict(_ppow(k.poly, 2)))
                x = _pow(Frac({((g.idx, 1),): 1}), abs(e) // 2)
                res = f_mul(res, x if e > 0 else f_inv(x))
    if len(radp) == 1:  # sqrt(n x) = prod sqrt(p) sqrt(x): one generator per prime, so that products of integer roots agree
        (mono, c), = radp.items()
        for q in _primes(abs(c)):
            res = f_mul(res, Frac({((sqrt_gen({(): q}).idx, 1),): 1}))
        radp = {mono: 1 if c > 0 else -1}
    if radp == {(): 1}:
        return res
    # negative exponents in radicand: multiply by even power
    negs = {}
    for m in radp:
        for g, e in m:
            if e < 0:
                negs[g] = min(negs.get(g, 0), e)
    if negs:
        # sqrt(x^-n * P) -> generator named on its own, relation allowed Laurent
        pass
    if negs and any(GENS[g].rel is not None for g in negs):
        raise Unsupported("negative algebraic power under root")
    g = sqrt_gen(radp)
    return f_mul(res, Frac({((g.idx, 1),): 1}))


def _primes(n):
    out, q = [], 2
    while n > 1:
        while n % q == 0:
            out.append(q)
            n //= q
        q += 1
        if q * q > n > 1:
            out.append(n)
            break
    return out


def _ppow(p, n):
    r = {(): 1}
    for _ in range(n):
        r = p_mul(r, p)
    return r


def _pow(a, n):
    if n < 0:
        a = f_inv(a)
        n = -n
    r = ONE
    for _ in range(n):
        r = f_mul(r, a)
    return r


# ------------------------------------------------------------------ numeric evaluation
def p_eval(p, env):
    s = 0
    for m, c in p.items():
        t = c
        for g, e in m:
            t = t * g_eval(g, env) ** e
        s = s + t
    return s


def g_eval(g, env):
    if g in env:
        return env[g]
    gn = GENS[g]
    if gn.kind == "I":
        v = 1j
    elif gn.rel is not None:
        v = cmath.sqrt(p_eval(gn.rel, env))
    else:
        raise KeyError(gn.name)
    env[g] = v
    return v


def f_eval(f, env):
    v = p_eval(f.num, env) / f.d
    for k, e in f.fac.items():
        v = v / p_eval(k.poly, env) ** e
    return complex(v)


# ------------------------------------------------------------------ the user level object
_EXPBASIS: dict = {}  # gen idx of the parameter -> (expgen idx, imaginary?)
SCALE = 4
FLOATS_RECOGNISED: set = set()


def _from_number(x):
    if isinstance(x, (bool, np.bool_)):
        return Frac(p_const(int(x)))
    if isinstance(x, (int, np.integer)):
        return Frac(p_const(int(x)))
    if isinstance(x, Fraction):
        return Frac(p_const(x.numerator), x.denominator)
    if isinstance(x, (float, np.floating)):
        return _from_float(float(x))
    if isinstance(x, (complex, np.complexfloating)):
        x = complex(x)
        re = _from_float(x.real) if x.real else ZERO
        im = _from_float(x.imag) if x.imag else ZERO
        return f_add(re, f_mul(im, F_I))
    return None


_FLOATCACHE: dict = {}


def _from_float(x):
    r = _FLOATCACHE.get(x)
    if r is None:
        r = _FLOATCACHE[x] = _from_float0(x)
    return r


def _from_float0(x):
    if math.isnan(x) or math.isinf(x):
        raise Unsupported("nan/inf")
    fr = Fraction(x).limit_denominator(4096)
    if float(fr) == x:
        return Frac(p_const(fr.numerator), fr.denominator)
    for mult in (1, ):
        sq = Fraction(x * x).limit_denominator(4096)
        if sq and abs(float(sq) - x * x) < 4e-16 * max(1.0, x * x) * 2:
            FLOATS_RECOGNISED.add(f"{x!r} = {'-' if x < 0 else ''}sqrt({sq})")
            s = f_sqrt(Frac(p_const(sq.numerator), sq.denominator))
            return s if x > 0 else Frac(p_scale(s.num, -1), s.d, s.fac)
    fr = Fraction(x).limit_denominator(4096)
    if abs(float(fr) - x) < 4e-16 * max(1.0, abs(x)):
        FLOATS_RECOGNISED.add(f"{x!r} = {fr}")
        return Frac(p_const(fr.numerator), fr.denominator)
    if len(repr(x).strip("-").replace(".", "").strip("0")) <= 4 or repr(x).lower().rstrip("0123456789").endswith("e-"):
        fr = Fraction(repr(x))      # a short decimal (tolerances)
        if fr.denominator <= 10 ** 12 and float(fr) == x and abs(fr.numerator) < 100:
            FLOATS_RECOGNISED.add(f"{x!r} = {fr}")
            return Frac(p_const(fr.numerator), fr.denominator)
    # rational multiples of pi
    fr = Fraction(x / math.pi).limit_denominator(64)
    if fr and abs(float(fr) * math.pi - x) < 1e-15 * abs(x) * 4:
        FLOATS_RECOGNISED.add(f"{x!r} = {fr}*pi")
        return f_mul(Frac(p_const(fr.numerator), fr.denominator), Frac({((gPI.idx, 1),): 1}))
    for pw in (2, 3, 4, -1, -2, -3, -4):
        fr = Fraction(x / math.pi ** pw).limit_denominator(64)
        if fr and abs(float(fr) * math.pi ** pw - x) < 1e-15 * abs(x) * 4:
            FLOATS_RECOGNISED.add(f"{x!r} = {fr}*pi^{pw}")
            return Frac({((gPI.idx, pw),): fr.numerator}, fr.denominator)
    sq = Fraction(x * x / math.pi).limit_denominator(64)
    if sq and abs(float(sq) * math.pi - x * x) < 1e-15 * x * x * 4:
        FLOATS_RECOGNISED.add(f"{x!r} = sqrt({sq}*pi)")
        s = f_sqrt(Frac({((gPI.idx, 1),): sq.numerator}, sq.denominator))
        return s if x > 0 else Frac(p_scale(s.num, -1), s.d, s.fac)
    sq = Fraction(x * x * math.pi).limit_denominator(64)
    if sq and abs(float(sq) / math.pi - x * x) < 1e-15 * x * x * 4:
        s = f_sqrt(Frac({((gPI.idx, -1),): sq.numerator}, sq.denominator))
        return s if x > 0 else Frac(p_scale(s.num, -1), s.d, s.fac)
    for pw, pn in ((math.pi, 1), (1 / math.pi, -1), (1.0, 0)):
        q = Fraction(x ** 4 / pw).limit_denominator(64)
        if q and abs(float(q) * pw - x ** 4) < 1e-15 * x ** 4 * 8:
            FLOATS_RECOGNISED.add(f"{x!r} = ({q}*pi^{pn})^(1/4)")
            s = f_sqrt(f_sqrt(Frac({((gPI.idx, pn),) if pn else (): q.numerator}, q.denominator)))
            return s if x > 0 else Frac(p_scale(s.num, -1), s.d, s.fac)
    raise Unsupported(f"machine constant {x!r} not recognised as an exact number")


gPI = new_gen("pi", "pos", pos=True)


class Sym:
    __slots__ = ("f", "x")
    __array_priority__ = 1000

    def __init__(self, f, x=ZERO):
        self.f = f
        self.x = x if f.num else ZERO

    @property
    def dtype(self):
        return np.dtype(object)

    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    # arithmetic
    @staticmethod
    def lift(o):
        if isinstance(o, Sym):
            return o
        if isinstance(o, np.ndarray):
            if o.ndim == 0:
                return Sym.lift(o.item())
            return None
        f = _from_number(o)
        return None if f is None else Sym(f)

    def __add__(self, o):
        b = Sym.lift(o)
        if b is None:
            return NotImplemented
        if not self.f.num:
            return b
        if not b.f.num:
            return self
        if not f_eq(self.x, b.x):
            raise Unsupported("sum of different exponentials")
        return Sym(f_add(self.f, b.f), self.x)

    __radd__ = __add__

    def __neg__(self):
        return Sym(Frac(p_scale(self.f.num, -1), self.f.d, self.f.fac), self.x)

    def __pos__(self):
        return self

    def __sub__(self, o):
        b = Sym.lift(o)
        if b is None:
            return NotImplemented
        return self + (-b)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        b = Sym.lift(o)
        if b is None:
            return NotImplemented
        return Sym(f_mul(self.f, b.f), f_add(self.x, b.x))

    __rmul__ = __mul__

    def inv(self):
        return Sym(f_inv(self.f), f_add(ZERO, self.x, -1))

    def __truediv__(self, o):
        b = Sym.lift(o)
        if b is None:
            return NotImplemented
        return self * b.inv()

    def __rtruediv__(self, o):
        return self.inv() * o

    def __pow__(self, n):
        if isinstance(n, Sym):
            if n.f.is_const() and not n.x.num:
                n = Fraction(n.f.num.get((), 0), n.f.d)
            else:
                raise Unsupported("symbolic exponent")
        if isinstance(n, np.ndarray):
            if n.ndim:
                return NotImplemented
            n = n.item()
        if isinstance(n, complex) and n.imag == 0:
            n = n.real
        fr = Fraction(n).limit_denominator(16)
        if fr.denominator == 1:
            k = int(fr)
            r = Sym(_pow(self.f, k))
            if self.x.num:
                r = Sym(r.f, f_mul(self.x, Frac(p_const(k))))
            return r
        if fr.denominator == 2:
            return self.sqrt() ** fr.numerator
        if fr.denominator == 4:
            return self.sqrt().sqrt() ** fr.numerator
        raise Unsupported("fractional power")

    def __rpow__(self, o):
        raise Unsupported("symbolic exponent")

    def __eq__(self, o):
        b = Sym.lift(o)
        if b is None:
            return NotImplemented
        if not self.f.num or not b.f.num:
            return not self.f.num and not b.f.num
        return f_eq(self.f, b.f) and f_eq(self.x, b.x)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def __hash__(self):
        return id(self)

    def is_const(self):
        return self.f.is_const() and not self.x.num

    def __bool__(self):
        if not self.f.num:
            return False
        if self.is_const():
            return True
        return True  # generic element is non zero in the function field

    def __float__(self):
        if self.is_const():
            return float(Fraction(self.f.num.get((), 0), self.f.d))
        raise Unsupported("float() of symbolic value")

    def __complex__(self):
        if not self.x.num and not self.f.fac and all(all(GENS[g].kind == "I" for g, _ in m) for m in self.f.num):
            return complex(f_eval(self.f, {}))
        raise Unsupported("complex() of symbolic value")

    def __int__(self):
        if self.is_const():
            v = Fraction(self.f.num.get((), 0), self.f.d)
            if v.denominator == 1:
                return int(v)
        raise Unsupported("int() of symbolic value")

    __index__ = None

    def _cmp(self, o):
        if isinstance(o, (float, int)) and o and abs(o) < 1e-6:
            o = 0  # numerical tolerance: read as an exact zero test
        d = self - o
        if not d.f.num:
            return 0
        if d.is_const():
            return 1 if d.f.num[()] > 0 else -1
        if not d.x.num and _is_pos_poly(d.f.num) and all(k.pos for k in d.f.fac):
            return 1
        if not d.x.num and _is_pos_poly(p_scale(d.f.num, -1)) and all(k.pos for k in d.f.fac):
            return -1
        raise Unsupported("comparison of symbolic values")

    def __lt__(self, o):
        return self._cmp(o) < 0

    def __le__(self, o):
        return self._cmp(o) <= 0

    def __gt__(self, o):
        return self._cmp(o) > 0

    def __ge__(self, o):
        return self._cmp(o) >= 0

    # functions
    def conjugate(self):
        return Sym(f_conj(self.f), f_conj(self.x) if self.x.num else ZERO)

    conj = conjugate

    @property
    def real(self):
        c = self.conjugate()
        if self.x.num and not f_eq(self.x, c.x):
            raise Unsupported("real part of exponential")
        return (self + c) * Fraction(1, 2)

    @property
    def imag(self):
        c = self.conjugate()
        if self.x.num and not f_eq(self.x, c.x):
            raise Unsupported("imag part of exponential")
        return (self - c) * Sym(f_mul(F_I, Frac(p_const(-1), 2)))

    def sqrt(self):
        if self.x.num:
            return Sym(f_sqrt(self.f), f_mul(self.x, Frac(p_const(1), 2)))
        return Sym(f_sqrt(self.f))

    def __abs__(self):
        if self.is_const():
            v = self.f.num.get((), 0)
            return self if v >= 0 else -self
        c = self * self.conjugate()
        return c.sqrt()

    def exp(self):
        if self.x.num:
            raise Unsupported("exp of exp")
        mono = ()
        f = self.f
        rest = f
        if not f.fac:
            num = dict(f.num)
            for m in list(num):
                gens = dict(m)
                i = gens.pop(gI.idx, 0)
                if len(gens) == 1:
                    (g, e), = gens.items()
                    if e == 1 and g in _EXPBASIS:
                        eg, imag = _EXPBASIS[g]
                        if bool(i) == imag:
                            co = Fraction(num[m] * SCALE, f.d)
                            if co.denominator == 1:
                                mono = m_mul(mono, ((eg, int(co)),))
                                del num[m]
            # multiples of i*pi/2
                elif not gens and False:
                    pass
            unit = ONE
            mpi = tuple(sorted(((gI.idx, 1), (gPI.idx, 1))))
            if mpi in num:
                co = Fraction(num[mpi] * 2, f.d)
                if co.denominator == 1:
                    unit = _pow(F_I, int(co) % 4)
                    del num[mpi]
            rest = Frac(num, f.d)
            return Sym(f_mul(Frac({mono: 1}), unit), rest)
        return Sym(ONE, rest)

    def cos(self):
        e = (self * 1j).exp()
        return (e + e.inv()) * Fraction(1, 2)

    def sin(self):
        e = (self * 1j).exp()
        return (e - e.inv()) * Sym(f_mul(F_I, Frac(p_const(-1), 2)))

    def tan(self):
        return self.sin() / self.cos()

    def cosh(self):
        e = self.exp()
        return (e + e.inv()) * Fraction(1, 2)

    def sinh(self):
        e = self.exp()
        return (e - e.inv()) * Fraction(1, 2)

    def tanh(self):
        return self.sinh() / self.cosh()

    def log(self):
        return LogSym(self)

    def item(self):
        return self

    def astype(self, *_a, **_k):
        return self

    def eval(self, env):
        v = f_eval(self.f, env)
        if self.x.num:
            v *= cmath.exp(f_eval(self.x, env))
        return v

    def __repr__(self):
        def mono(m):
            return "*".join(GENS[g].name + (f"^{e}" if e != 1 else "") for g, e in m)

        def poly(p):
            return " + ".join(f"{c}" + ("*" + mono(m) if m else "") for m, c in list(p.items())[:12]) + (" + ..." if len(p) > 12 else "")
        s = poly(self.f.num) or "0"
        den = "".join(f"*({poly(k.poly)})^{e}" for k, e in self.f.fac.items())
        if self.f.d != 1 or den:
            s = f"({s})/({self.f.d}{den})"
        if self.x.num:
            s += f" * exp({Sym(self.x)!r})"
        return s


def _lift_arrays(cls, names):
    for n in names:
        f = getattr(cls, n)

        def g(self, o, f=f, n=n):
            if isinstance(o, np.ndarray) and o.ndim:
                out = np.empty(o.shape, dtype=object)
                for i in np.ndindex(o.shape):
                    out[i] = f(self, o[i])
                return out if type(o) is np.ndarray else out.view(type(o))
            if isinstance(o, np.ndarray):
                o = o.item()
            if isinstance(o, LogSym) and not isinstance(self, LogSym):
                if n in ("__add__", "__radd__"):
                    return o + self
                raise Unsupported("log arithmetic")
            return f(self, o)
        setattr(cls, n, g)


_lift_arrays(Sym, ["__add__", "__radd__", "__sub__", "__rsub__", "__mul__", "__rmul__", "__truediv__", "__rtruediv__"])


class AbsSym(Sym):
    """|z|, expanded only when its value is used; compared with a tolerance it is a zero test"""
    __slots__ = ("z", "_v")

    def __init__(self, z):
        self.z, self._v = z, None

    def _val(self):
        if self._v is None:
            self._v = Sym.__abs__(self.z)
        return self._v

    @property
    def f(self):
        return self._val().f

    @property
    def x(self):
        return self._val().x

    def __pow__(self, n):
        if n == 2:
            return self.z * self.z.conjugate()
        return Sym.__pow__(self, n)

    def __gt__(self, o):
        if isinstance(o, (float, int)) and 0 <= o < 1e-6:
            return bool(self.z.f.num)
        return self._val() > o

    def __ge__(self, o):
        return self > o if isinstance(o, (float, int)) and 0 < o < 1e-6 else self._val() >= o

    def __lt__(self, o):
        return not self >= o if isinstance(o, (float, int)) and 0 < o < 1e-6 else self._val() < o

    def __le__(self, o):
        return not self > o if isinstance(o, (float, int)) and 0 < o < 1e-6 else self._val() <= o


class LogSym:
    """log z, only ever added, scaled by integers/halves and exponentiated again (exp(log z) = z)"""
    __slots__ = ("z",)
    __array_priority__ = 1000

    def __init__(self, z):
        self.z = z

    def __add__(self, o):
        if isinstance(o, LogSym):
            return LogSym(self.z * o.z)
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        b = Sym.lift(o)
        return LogSym(self.z * b.exp())

    __radd__ = __add__

    def __neg__(self):
        return LogSym(self.z.inv())

    def __sub__(self, o):
        return self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, k):
        if isinstance(k, np.ndarray) and k.ndim:
            return NotImplemented
        return LogSym(self.z ** k)

    __rmul__ = __mul__

    def exp(self):
        return self.z

    @property
    def real(self):
        return LogSym(AbsSym(self.z))

    def conjugate(self):
        return LogSym(self.z.conjugate())

    def item(self):
        return self


_lift_arrays(LogSym, ["__add__", "__radd__", "__sub__", "__rsub__", "__mul__", "__rmul__"])


# ------------------------------------------------------------------ symbol factory
class Symbols:
    """Declares parameters; remembers numeric values for replay."""

    def real(self, name):
        g = new_gen(name, "real")
        return Sym(Frac({((g.idx, 1),): 1}))

    def pos(self, name):
        g = new_gen(name, "pos", pos=True)
        return Sym(Frac({((g.idx, 1),): 1}))

    def cplx(self, name):
        g = new_gen(name, "cplx", real=False)
        h = new_gen(name + "_c", "cplx", real=False)
        g.conj, h.conj = (h.idx, 1), (g.idx, 1)
        return Sym(Frac({((g.idx, 1),): 1}))

    def angle(self, name):
        g = new_gen(name, "real")
        e = new_gen(f"exp(i*{name}/{SCALE})", "exp", real=False)
        e.conj = (e.idx, -1)
        _EXPBASIS[g.idx] = (e.idx, True)
        return Sym(Frac({((g.idx, 1),): 1}))

    def squeeze(self, name):
        g = new_gen(name, "real")
        e = new_gen(f"exp({name}/{SCALE})", "exp", pos=True)
        _EXPBASIS[g.idx] = (e.idx, False)
        return Sym(Frac({((g.idx, 1),): 1}))


def env_from_values(values):
    """values: parameter name -> number; returns generator environment"""
    env = {gPI.idx: math.pi}
    for name, v in values.items():
        g = _BYNAME.get(name)
        if g is None:
            continue
        env[g.idx] = v
        if g.kind == "cplx":
            env[g.conj[0]] = complex(v).conjugate()
        if g.idx in _EXPBASIS:
            eg, imag = _EXPBASIS[g.idx]
            env[eg] = cmath.exp((1j if imag else 1) * v / SCALE)
    return env


def random_env(seed=0):
    """a random admissible point of all declared parameters"""
    import random
    rng = random.Random(seed)
    vals = {}
    for g in list(GENS):
        if g.rel is not None or g.kind in ("I", "exp"):
            continue
        if g.kind == "cplx":
            if not g.name.endswith("_c"):
                vals[g.name] = complex(rng.uniform(-.6, .6), rng.uniform(-.6, .6))
        elif g.kind == "pos":
            vals[g.name] = rng.uniform(.3, 1.8)
        elif g.kind == "real" and g.idx != gPI.idx:
            vals[g.name] = rng.uniform(-.9, .9)
    return env_from_values(vals)


def numerically_equal(a, b):
    """three random points; used only to tell an incomplete normal form from a refutation"""
    for s in range(3):
        env = random_env(s)
        x, y = complex(a.eval(dict(env))), complex(b.eval(dict(env)))
        if not abs(x - y) <= 1e-8 * (1 + abs(x) + abs(y)):
            return False
    return True


S = Symbols()
