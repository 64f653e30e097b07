"""Value domain of the abstract interpreter.

Numbers are quotients of polynomials over atoms with rational coefficients, kept
in a normal form, so that equal expressions are equal objects however they were
written (commutation, association, distribution, helper functions).  Floating
point is idealised to exact arithmetic, integers to unbounded integers; integer
division is not a quotient but an atom of its own.
"""
import hashlib
from fractions import Fraction

ONE = ()          # the monomial 1


def _mono_mul(a, b):
    d = dict(a)
    for k, e in b:
        d[k] = d.get(k, 0) + e
    return tuple(sorted(((k, e) for k, e in d.items() if e), key=_akey))


_ak = {}


def _akey(ke):
    k = ke[0]
    r = _ak.get(k)
    if r is None:
        r = _ak[k] = okey(k)
    return r


def okey(x):
    """a string that orders and identifies a term; nested terms enter by their digest"""
    if isinstance(x, str):
        return "'" + x
    if isinstance(x, Num):
        return x.okey()
    if isinstance(x, tuple):
        s = "(" + ",".join(map(okey, x)) + ")"
    elif isinstance(x, (frozenset, set)):
        s = "{" + ",".join(sorted(map(okey, x))) + "}"
    elif isinstance(x, list):
        s = "[" + ",".join(map(okey, x)) + "]"
    else:
        s = repr(x)
    return s if len(s) <= 120 else s[:60] + hashlib.md5(s.encode()).hexdigest()


class Poly:
    __slots__ = ("t", "h", "hh")

    def __init__(self, t):
        self.t = t            # dict monomial -> Fraction, no zeros
        self.h = None
        self.hh = None

    def key(self):
        if self.h is None:
            self.h = tuple(sorted(self.t.items(), key=lambda x: okey(x[0])))
        return self.h

    def __eq__(self, o):
        if self is o:
            return True
        if self.hh is not None and o.hh is not None and self.hh != o.hh:
            return False
        return self.t == o.t

    def __hash__(self):
        if self.hh is None:
            self.hh = hash(frozenset(self.t.items()))
        return self.hh

    def __add__(self, o):
        r = dict(self.t)
        for m, c in o.t.items():
            v = r.get(m, 0) + c
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        return Poly(r)

    def scale(self, c):
        if not c:
            return Poly({})
        return Poly({m: v * c for m, v in self.t.items()})

    def __sub__(self, o):
        return self + o.scale(-1)

    def __mul__(self, o):
        r = {}
        sq = False
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = _mono_mul(m1, m2)
                for k, e in m:
                    if e >= 2 and isinstance(k, tuple) and k and k[0] == "sqrt":
                        sq = True
                v = r.get(m, 0) + c1 * c2
                if v:
                    r[m] = v
                else:
                    r.pop(m, None)
        p = Poly(r)
        return _desqrt(p) if sq else p

    def const(self):
        if not self.t:
            return Fraction(0)
        if len(self.t) == 1 and ONE in self.t:
            return self.t[ONE]
        return None

    def __repr__(self):
        if not self.t:
            return "0"
        out = []
        for m, c in self.key():
            s = "*".join("%s%s" % (akstr(k), "" if e == 1 else "^%d" % e) for k, e in m)
            if not s:
                out.append(str(c))
            elif c == 1:
                out.append(s)
            elif c == -1:
                out.append("-" + s)
            else:
                out.append("%s*%s" % (c, s))
        return " + ".join(out).replace("+ -", "- ")


def akstr(k):
    """readable name of an atom"""
    if isinstance(k, str):
        return k
    if isinstance(k, tuple) and k:
        h = k[0]
        if h == ".":
            nm = k[3] if len(k) > 3 else k[2]
            return "%s.%s" % (akstr(k[1]), nm)
        if h == "elem":
            return "%s[%s]" % (akstr(k[1]), akstr(k[2]))
        if h == "*":
            return akstr(k[1])
        if h == "as":
            return "%s as %s" % (akstr(k[1]), k[2])
        global _deep
        if _deep > 3:
            return "%s(..)" % (h,) if isinstance(h, str) else "(..)"
        _deep += 1
        try:
            return "%s(%s)" % (h if isinstance(h, str) else akstr(h), ", ".join(akstr(x) for x in k[1:]))
        finally:
            _deep -= 1
    return repr(k)


_deep = 0


def _desqrt(p):
    """sqrt(e)^2 -> e"""
    while True:
        for m, c in p.t.items():
            hit = None
            for k, e in m:
                if e >= 2 and isinstance(k, tuple) and k and k[0] == "sqrt":
                    hit = (k, e)
                    break
            if hit:
                k, e = hit
                inner = k[1]
                if inner.d.const() != 1:
                    continue
                rest = tuple(x for x in m if x[0] != k)
                if e > 2:
                    rest = tuple(sorted(rest + ((k, e - 2),), key=_akey))
                q = dict(p.t)
                del q[m]
                p = Poly(q) + (Poly({rest: c}) * inner.n)
                break
        else:
            return p


P1 = Poly({ONE: Fraction(1)})
P0 = Poly({})


class Num:
    """n/d, d normalised to leading coefficient 1"""
    __slots__ = ("n", "d", "_h", "_k")

    def __init__(self, n, d=P1):
        if d is not P1:
            c = d.const()
            if c is not None:
                if c == 0:
                    n, d = Poly({(("div0", 1),): Fraction(1)}), P1
                else:
                    n = n.scale(1 / c)
                    d = P1
            else:
                n, d = _cancel(n, d)
        self.n, self.d = n, d
        self._h = None
        self._k = None

    @staticmethod
    def c(v):
        v = Fraction(v)
        return Num(Poly({ONE: v}) if v else P0)

    @staticmethod
    def atom(k):
        return Num(Poly({((k, 1),): Fraction(1)}))

    def __eq__(self, o):
        if self is o:
            return True
        if not isinstance(o, Num):
            return False
        if self.d == o.d:
            return self.n == o.n
        return (self.n * o.d) == (o.n * self.d)

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        if self._h is None:
            # equal quotients may have different representations: hash only the polynomial case finely
            self._h = hash(self.n) if self.d.const() is not None else 7
        return self._h

    def __add__(self, o):
        if self.d == o.d:
            return Num(self.n + o.n, self.d)
        return Num(self.n * o.d + o.n * self.d, self.d * o.d)

    def __sub__(self, o):
        return self + (-o)

    def __neg__(self):
        return Num(self.n.scale(-1), self.d)

    def __mul__(self, o):
        return Num(self.n * o.n, self.d * o.d if (self.d is not P1 or o.d is not P1) else P1)

    def __truediv__(self, o):
        return Num(self.n * o.d, self.d * o.n)

    def const(self):
        if self.d is P1 or self.d.const() is not None:
            return self.n.const()
        return None

    def is_poly(self):
        return self.d.const() is not None

    def atoms(self):
        r = set()
        for p in (self.n, self.d):
            for m in p.t:
                for k, _ in m:
                    r.add(k)
        return r

    def single_atom(self):
        """atom if this is exactly one atom"""
        if self.is_poly() and len(self.n.t) == 1:
            (m, c), = self.n.t.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                return m[0][0]
        return None

    def linear(self):
        """(const, {atom: coeff}) if linear polynomial else None"""
        if not self.is_poly():
            return None
        c = Fraction(0)
        d = {}
        for m, v in self.n.t.items():
            if m == ONE:
                c = v
            elif len(m) == 1 and m[0][1] == 1:
                d[m[0][0]] = v
            else:
                return None
        return c, d

    def okey(self):
        if self._k is None:
            s = "+".join("%s*%s" % (c, okey(m)) for m, c in self.n.key())
            if not self.is_poly():
                s += "/" + "+".join("%s*%s" % (c, okey(m)) for m, c in self.d.key())
            self._k = s if len(s) <= 120 else s[:60] + hashlib.md5(s.encode()).hexdigest()
        return self._k

    def __repr__(self):
        if self.is_poly():
            return repr(self.n)
        return "(%r)/(%r)" % (self.n, self.d)


def _cancel(n, d):
    """normalise leading coefficient; cancel common monomial factors and exact multiples"""
    if not n.t:
        return n, P1
    # common monomial
    com = None
    for p in (n, d):
        for m in p.t:
            dm = dict(m)
            if com is None:
                com = dict(dm)
            else:
                com = {k: min(e, dm.get(k, 0)) for k, e in com.items() if dm.get(k, 0) > 0}
            if not com:
                break
        if not com:
            break
    if com:
        inv = tuple((k, -e) for k, e in com.items())
        n = Poly({_mono_mul(m, inv): c for m, c in n.t.items()})
        d = Poly({_mono_mul(m, inv): c for m, c in d.t.items()})
    m0 = min(d.t, key=repr)
    c0 = d.t[m0]
    if c0 != 1:
        n = n.scale(1 / c0)
        d = d.scale(1 / c0)
    c = d.const()
    if c is not None:
        return n.scale(1 / c), P1
    # exact multiple
    if len(n.t) == len(d.t):
        m0 = min(d.t, key=repr)
        if m0 in n.t:
            r = n.t[m0] / d.t[m0]
            if n == d.scale(r):
                return Poly({ONE: r}), P1
    q = _exact_div(n, d)
    if q is not None:
        return q, P1
    return n, d


def _exact_div(n, d):
    """n/d if d divides n (bounded effort), else None"""
    if len(d.t) > 12 or len(n.t) > 400:
        return None
    atoms = sorted({k for m in d.t for k, _ in m}, key=repr)
    if any(isinstance(k, tuple) and k and k[0] == "sqrt" for k in atoms):
        return None

    allat = sorted({k for p in (n, d) for m in p.t for k, _ in m}, key=repr)

    def order(m):
        dm = dict(m)
        return tuple(dm.get(k, 0) for k in allat)
    ld = max(d.t, key=order)
    cd = d.t[ld]
    q = P0
    r = n
    for _ in range(400):
        if not r.t:
            return q
        lr = max(r.t, key=order)
        dm = dict(lr)
        for k, e in ld:
            dm[k] = dm.get(k, 0) - e
            if dm[k] < 0:
                return None
        m = tuple(sorted(((k, e) for k, e in dm.items() if e), key=_akey))
        t = Poly({m: r.t[lr] / cd})
        q = q + t
        r = r - t * d
    return None


ZERO = Num.c(0)
NONE_ = None
INF = Num.atom("INF")
NAN = Num.atom("NAN")


# ---------------------------------------------------------------- conditions
# True / False / ('A', atomkey) / ('N', c) / ('&', cs) / ('|', cs) / ('I', c, a, b)

def cnot(c):
    if c is True:
        return False
    if c is False:
        return True
    if c[0] == "N":
        return c[1]
    if c[0] == "I":
        return cite(c[1], cnot(c[2]), cnot(c[3]))
    return ("N", c)


def cand(*cs):
    out = []
    for c in cs:
        if c is False:
            return False
        if c is True:
            continue
        if c[0] == "&":
            out += [x for x in c[1] if x not in out]
        elif c not in out:
            out.append(c)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return ("&", tuple(out))


def cor(*cs):
    return cnot(cand(*[cnot(c) for c in cs]))


def cite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if a is b or a == b:
        return a
    if a is True and b is False:
        return c
    if a is False and b is True:
        return cnot(c)
    return ("I", c, a, b)


def lt(a, b):
    """a < b"""
    return lt0(a - b)


def _posnorm(p):
    """scale by a positive constant so that the coefficients are coprime-ish"""
    m0 = min(p.t, key=repr)
    c = abs(p.t[m0])
    return p.scale(1 / c) if c != 1 else p


def lt0(d):
    c = d.const()
    if c is not None:
        return c < 0
    if not d.is_poly():
        return ("A", ("lt0", d))
    return ("A", ("lt0", Num(_posnorm(d.n))))


def le(a, b):
    return cnot(lt(b, a))


def eq(a, b):
    d = a - b
    c = d.const()
    if c is not None:
        return c == 0
    if not d.is_poly():
        return ("A", ("eq0", Num(d.n)))
    p = _posnorm(d.n)
    m0 = min(p.t, key=repr)
    if p.t[m0] < 0:
        p = p.scale(-1)
    return ("A", ("eq0", Num(p)))


def cond_atoms(c, out=None):
    if out is None:
        out = []
    if c is True or c is False:
        return out
    if c[0] == "A":
        if c[1] not in out:
            out.append(c[1])
    elif c[0] == "N":
        cond_atoms(c[1], out)
    elif c[0] in "&|":
        for x in c[1]:
            cond_atoms(x, out)
    elif c[0] == "I":
        for x in c[1:]:
            cond_atoms(x, out)
    return out


def cond_eval(c, f):
    """evaluate with f(atom) -> True/False/None"""
    if c is True or c is False:
        return c
    if c[0] == "A":
        return f(c[1])
    if c[0] == "N":
        r = cond_eval(c[1], f)
        return None if r is None else (not r)
    if c[0] == "&":
        unk = False
        for x in c[1]:
            r = cond_eval(x, f)
            if r is False:
                return False
            if r is None:
                unk = True
        return None if unk else True
    if c[0] == "I":
        r = cond_eval(c[1], f)
        if r is None:
            a = cond_eval(c[2], f)
            b = cond_eval(c[3], f)
            return a if a is not None and a == b else None
        return cond_eval(c[2] if r else c[3], f)
    raise AssertionError(c)
