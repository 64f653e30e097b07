"""Quotients of polynomials for the elimination analysis: packed monomials, denominators
kept as products of the factors they were built from, numerators divided by those factors
whenever they are divisible (so that the entries of an elimination stay quotients of minors)."""
import heapq
from fractions import Fraction

BITS = 6
NV = 24
GUARD = sum(1 << (BITS * i + BITS - 1) for i in range(NV))


def pmul(a, b):
    if len(a) > len(b):
        a, b = b, a
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = m1 + m2
            v = r.get(m, 0) + c1 * c2
            if v:
                r[m] = v
            else:
                del r[m]
    return r


def padd(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + s * c
        if v:
            r[m] = v
        else:
            del r[m]
    return r


def pscale(a, c):
    return {m: v * c for m, v in a.items()} if c else {}


def mdiv(a, b):
    """a/b for monomials, or None"""
    d = (a | GUARD) - b
    return d ^ GUARD if d & GUARD == GUARD else None


def pdiv(n, d):
    """exact quotient, or None"""
    if not n:
        return {}
    if len(d) == 1:
        (dm, dc), = d.items()
        r = {}
        for m, c in n.items():
            q = mdiv(m, dm)
            if q is None:
                return None
            r[q] = _q(c, dc)
        return r
    ld, sd = max(d), min(d)
    if mdiv(max(n), ld) is None or mdiv(min(n), sd) is None:
        return None
    lc = d[ld]
    rest = [(m, c) for m, c in d.items() if m != ld]
    rem = dict(n)
    heap = [-m for m in rem]
    heapq.heapify(heap)
    out = {}
    while heap:
        m = -heapq.heappop(heap)
        c = rem.pop(m, 0)
        if not c:
            continue
        q = mdiv(m, ld)
        if q is None:
            return None
        qc = _q(c, lc)
        out[q] = qc
        for m2, c2 in rest:
            k = q + m2
            if k not in rem:
                heapq.heappush(heap, -k)
                rem[k] = -qc * c2
            else:
                rem[k] -= qc * c2
    return out


def _q(a, b):
    if b == 1:
        return a
    if b == -1:
        return -a
    x = Fraction(a) / b
    return int(x) if x.denominator == 1 else x


class Rat:
    __slots__ = ("n", "d", "k", "id")

    def __init__(self, n, d):
        self.n, self.d = n, d          # d: tuple of (factor id, exponent)
        self.k = (frozenset(n.items()), d)
        self.id = None


class Field:
    def __init__(self):
        self.vars = {}
        self.names = []
        self.factors = []
        self.fid = {}
        self.memo = {}

    def var(self, k):
        if k not in self.vars:
            if len(self.names) >= NV:
                raise OverflowError("more than %d unknowns" % NV)
            self.vars[k] = len(self.names)
            self.names.append(k)
        return Rat({1 << (BITS * self.vars[k]): 1}, ())

    def const(self, c):
        c = Fraction(c)
        return Rat({0: int(c) if c.denominator == 1 else c} if c else {}, ())

    def factor(self, p):
        k = frozenset(p.items())
        if k not in self.fid:
            self.fid[k] = len(self.factors)
            self.factors.append(p)
        return self.fid[k]

    def prod(self, d):
        r = {0: 1}
        for f, e in d:
            for _ in range(e):
                r = pmul(r, self.factors[f])
        return r

    def cancel(self, n, d):
        """divide n by the factors of d as often as possible"""
        if not n:
            return n, {}
        out = {}
        for f, e in d.items():
            while e:
                q = pdiv(n, self.factors[f])
                if q is None:
                    break
                n, e = q, e - 1
            if e:
                out[f] = e
        return n, out

    def mk(self, n, d):
        if len(n) > 20000:
            raise OverflowError("polynomial too large")
        return Rat(n, tuple(sorted(d.items())))

    def neg(self, a):
        return Rat(pscale(a.n, -1), a.d)

    def add(self, a, b, s=1):
        if not b.n:
            return a
        if not a.n:
            return b if s == 1 else self.neg(b)
        if a.d == b.d:
            n, d = self.cancel(padd(a.n, b.n, s), dict(a.d))
            return self.mk(n, d)
        da, db = dict(a.d), dict(b.d)
        l = {f: max(da.get(f, 0), db.get(f, 0)) for f in set(da) | set(db)}
        na = pmul(a.n, self.prod([(f, e - da.get(f, 0)) for f, e in l.items()]))
        nb = pmul(b.n, self.prod([(f, e - db.get(f, 0)) for f, e in l.items()]))
        n, d = self.cancel(padd(na, nb, s), l)
        return self.mk(n, d)

    def mul(self, a, b):
        if not a.n or not b.n:
            return self.const(0)
        na, db = self.cancel(a.n, dict(b.d))
        nb, da = self.cancel(b.n, dict(a.d))
        for f, e in db.items():
            da[f] = da.get(f, 0) + e
        return self.mk(pmul(na, nb), da)

    def split(self, p):
        """constant and factors of a polynomial: variables and factors already known are taken out"""
        fs = {}
        for v in range(len(self.names)):
            x = {1 << (BITS * v): 1}
            while True:
                q = pdiv(p, x)
                if q is None:
                    break
                f = self.factor(x)
                fs[f] = fs.get(f, 0) + 1
                p = q
        if len(p) > 1:
            for f in range(len(self.factors)):
                if len(self.factors[f]) == 1:
                    continue
                while len(p) > 1:
                    q = pdiv(p, self.factors[f])
                    if q is None:
                        break
                    fs[f] = fs.get(f, 0) + 1
                    p = q
        if len(p) == 1 and 0 in p:
            return p[0], fs
        c = p[max(p)]
        f = self.factor({m: _q(v, c) for m, v in p.items()})
        fs[f] = fs.get(f, 0) + 1
        return c, fs

    def inv(self, a):
        key = a.k
        if key not in self.memo:
            c, fs = self.split(a.n)
            n, d = self.cancel(pscale(self.prod(a.d), _q(1, c)), fs)
            self.memo[key] = self.mk(n, d)
        return self.memo[key]

    def div(self, a, b):
        return self.mul(a, self.inv(b))

    def same(self, a, b):
        if a.k == b.k:
            return True
        return pmul(a.n, self.prod(b.d)) == pmul(b.n, self.prod(a.d))

    def at(self, p, pt):
        """value of a polynomial at a point (list of numbers by variable)"""
        s = Fraction(0)
        msk = (1 << BITS) - 1
        for m, c in p.items():
            t = Fraction(c)
            i = 0
            while m:
                e = m & msk
                if e:
                    t *= pt[i] ** e
                m >>= BITS
                i += 1
            s += t
        return s

    def value(self, a, pt):
        d = Fraction(1)
        for f, e in a.d:
            d *= self.at(self.factors[f], pt) ** e
        if d == 0:
            return None
        return self.at(a.n, pt) / d

    def degree1(self, p, v):
        """(coefficient, rest) of p as a polynomial of degree 1 in variable v, or None"""
        msk = ((1 << BITS) - 1) << (BITS * v)
        one = 1 << (BITS * v)
        a, b = {}, {}
        for m, c in p.items():
            e = m & msk
            if e == 0:
                b[m] = c
            elif e == one:
                a[m - one] = c
            else:
                return None
        return (a, b) if a else None
