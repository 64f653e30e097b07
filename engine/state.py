"""Abstract states: memory, facts, entailment."""
import math
from fractions import Fraction
from .terms import Num, cnot, cond_eval, lt0, ZERO, okey
from .values import is_nonneg_atom, subst, is_cond, nonneg_atom
from . import strings, chars


class State:
    __slots__ = ("mem", "facts", "bind", "pc", "unk", "path", "ctl", "aux", "_b")

    def __init__(self):
        self.mem = {}
        self.facts = {}
        self.bind = {}
        self.pc = ()
        self.unk = ()
        self.path = ()
        self.ctl = None
        self.aux = {}
        self._b = None

    def copy(self):
        s = State.__new__(State)
        s.mem = dict(self.mem)
        s.facts = dict(self.facts)
        s.bind = dict(self.bind)
        s.pc = self.pc
        s.unk = self.unk
        s.path = self.path
        s.ctl = None if self.ctl is None else dict(self.ctl)
        s.aux = dict(self.aux)
        s._b = self._b
        return s

    def note(self, why):
        if why not in self.unk:
            self.unk = self.unk + (why,)

    # ------------------------------------------------------------ numbers
    def resolve(self, n):
        if not isinstance(n, Num) or not self.bind:
            return n
        for _ in range(6):
            m = {k: self.bind[k][0] for k in n.atoms() if k in self.bind}
            for k in n.atoms():
                if isinstance(k, tuple) and k and (k[0] == "idiv" or k[0] == "imod") and k not in m:
                    x = self.exact(k)
                    if x is not None:
                        m[k] = x
            if not m:
                return n
            n = subst_top(n, m)
        return n

    def exact(self, k):
        """the quotient or remainder of a number that is known to be divisible"""
        c = k[2].const() if isinstance(k[2], Num) else None
        if c is None or c <= 0 or not isinstance(k[1], Num):
            return None
        l = self.resolve(k[1]).linear()
        if l is None or any((Fraction(x) / c).denominator != 1 for x in [l[0]] + list(l[1].values())):
            return None
        return self.resolve(k[1]) * Num.c(Fraction(1) / c) if k[0] == "idiv" else ZERO

    def bounds(self):
        """list of (linear expr e, b) with e <= b known"""
        k = (len(self.facts), len(self.bind))
        if self._b is not None and self._b[0] == k:
            return self._b[1]
        r = []
        self._b = (k, r, {}, {}, {}, [])
        for a, v in self.facts.items():
            if a[0] == "lt0":
                e = self.resolve(a[1])
                if v:
                    r.append((e, Fraction(-1)))
                else:
                    r.append((-e, Fraction(0)))
            elif a[0] == "eq0" and v:
                e = self.resolve(a[1])
                if e.const() is None:
                    r.append((e, Fraction(0)))
                    r.append((-e, Fraction(0)))
            elif a[0] == "eq0":
                # a natural number that is not zero
                l = self.resolve(a[1]).linear()
                if l is not None and l[1]:
                    for sg in (1, -1):
                        if l[0] * sg >= 0 and all(
                            c * sg > 0 and is_nonneg_atom(k) and Fraction(c).denominator == 1
                            for k, c in l[1].items()
                        ):
                            r.append((self.resolve(a[1]) * Num.c(-sg), Fraction(-1)))
        for i, (e, b) in enumerate(r):
            l = e.linear()
            if l is None or len(l[1]) < 2:
                continue
            vs = [Fraction(v) for v in l[1].values()]
            if all(v.denominator == 1 for v in vs):
                g = math.gcd(*[int(v) for v in vs])
                if g > 1:
                    r[i] = (e, l[0] + g * math.floor((b - l[0]) / g))
        qs = {k for e, _ in r for k in e.atoms() if isinstance(k, tuple) and k and k[0] == "idiv" and is_nonneg_atom(k)}
        for k in sorted(qs, key=repr):
            c = k[2].const() if isinstance(k[2], Num) else None
            if c is not None and c > 0 and isinstance(k[1], Num):
                x, q = self.resolve(k[1]), Num.atom(k) * Num.c(c)
                r.append((q - x, Fraction(0)))
                r.append((x - q, Fraction(c) - 1))
        return r

    def charset(self, k):
        """the characters an atom can be, as a mask"""
        self.bounds()
        cs = self._b[4]
        if not self._b[5]:
            self._b[5].append(True)
            for a, v in self.facts.items():
                if v is not True and v is not False or a[0] not in ("lt0", "eq0", "cp"):
                    continue
                e = a[2] if a[0] == "cp" else a[1]
                t = chars.test(a, self.resolve(e).linear())
                if t is not None:
                    cs[t[0]] = cs.get(t[0], chars.FULL) & (t[1] if v else t[2])
        return cs.get(k, chars.FULL)

    def chartest(self, a, e):
        t = chars.test(a, e.linear())
        if t is None:
            return None
        m = self.charset(t[0])
        if not m & t[2]:
            return True
        if not m & t[1]:
            return False
        return None

    def index(self):
        """the known bounds as linear forms, by the atoms they bound"""
        bnds = self.bounds()
        ix = self._b[2]
        if not ix and bnds:
            for g, b in bnds:
                lg = g.linear()
                if lg is None:
                    continue
                c, d = lg
                for a, v in d.items():
                    ix.setdefault((a, v > 0), []).append((c, d, b))
        return ix

    def ub(self, e, depth=3):
        """an upper bound of the integer expression e, or None"""
        l = e.linear()
        if l is None:
            return None
        c, d = l
        if not d:
            return c
        ix = self.index()
        memo = self._b[3]
        u = self._ub(d, depth, ix, memo)
        return None if u is None else u + c

    def _ub(self, d, depth, ix, memo):
        """an upper bound of the linear form d"""
        if not d:
            return 0
        first = None
        for a, v in d.items():
            if v > 0:
                first = a
                break
        if first is None:
            for a, v in d.items():
                if not is_nonneg_atom(a):
                    first = a
                    break
        best = None
        if first is None:
            if depth < 3:
                return 0
            # every atom is at its best value 0; facts may exclude that
            best = 0
            tries = [k for k in d if not (isinstance(k, tuple) and k and k[0] == "len")]
            if not tries:
                return 0
        else:
            tries = (first,)
        if depth == 0:
            return None
        key = (frozenset(d.items()), depth)
        if key in memo:
            return memo[key]
        for a in tries:
            va = d[a]
            for gc, gd, b in ix.get((a, va > 0), ()):
                lam = va / gd[a]
                r = dict(d)
                for k, v in gd.items():
                    x = r.get(k, 0) - lam * v
                    if x:
                        r[k] = x
                    else:
                        r.pop(k, None)
                u = self._ub(r, depth - 1, ix, memo)
                if u is not None:
                    u = u + lam * (b - gc)
                    if best is None or u < best:
                        best = u
        memo[key] = best
        return best

    # ------------------------------------------------------------ atoms
    def atom(self, a):
        """True / False / None"""
        if a in self.facts:
            return self.facts[a]
        k = a[0]
        if k == "lt0":
            e = self.resolve(a[1])
            c = e.const()
            if c is not None:
                return c < 0
            k2 = lt0(e)
            if k2 is True or k2 is False:
                return k2
            if k2[1] in self.facts:
                return self.facts[k2[1]]
            u = self.ub(e)
            if u is not None and u < 0:
                return True
            u = self.ub(-e)
            if u is not None:
                if u <= 0:
                    return False
                # e >= -u; with e != known small values
            # nonneg with != 0 facts
            if self.facts.get(("eq0", a[1])) is True:
                return False
            # e<0 is false if e>=0; e >= -1 and e != -1
            if u is not None:
                lo = -u
                ok = True
                import math
                v = math.ceil(lo)
                while v < 0 and v > -4:
                    if self.ne_const(e, v):
                        v += 1
                    else:
                        ok = False
                        break
                if ok and v >= 0:
                    return False
            return self.chartest(a, e)
        if k == "eq0":
            e = self.resolve(a[1])
            c = e.const()
            if c is not None:
                return c == 0
            if e is not a[1]:
                from .terms import eq
                k2 = eq(e, ZERO)
                if k2 is True or k2 is False:
                    return k2
                if k2[1] in self.facts:
                    return self.facts[k2[1]]
            u = self.ub(e)
            if u is not None and u < 0:
                return False
            w = self.ub(-e)
            if w is not None and w < 0:
                return False
            if u is not None and w is not None and u <= 0 and w <= 0:
                return True
            return self.chartest(a, e)
        if k == "cp":
            ch = self.resolve(a[2])
            c = ch.const()
            if c is not None:
                return char_pred(a[1], int(c))
            return self.chartest(a, ch)
        if k == "streq":
            for b, v in self.facts.items():
                if v is True and b[0] == "streq" and b[1] == a[1] and b[2] != a[2]:
                    return False
            return self.stringfacts(a)
        if k == "seqeq" or (k == "b" and strings.is_string_atom(a)):
            return self.stringfacts(a)
        if k == "dv":
            s = self.facts.get(("dsc", a[1]))
            if s is not None:
                if s == frozenset((a[2],)):
                    return True
                if a[2] not in s:
                    return False
            return None
        return None

    def stringfacts(self, a):
        """a test of strings, decided by what is known about them"""
        env = {b[1]: b[2] for b, v in self.facts.items() if v is True and b[0] == "streq"}
        r = strings.holds(a, env)
        if r is not None or a[0] != "streq":
            return r
        env = {a[1]: a[2]}
        for b, v in self.facts.items():
            if v in (True, False) and (b[0] in ("lt0", "eq0") or strings.is_string_atom(b)):
                t = strings.holds(b, env)
                if t is not None and t != v:
                    return False
        return None

    def ne_const(self, e, v):
        from .terms import eq
        k = eq(e, Num.c(v))
        return k is False or (k is not True and self.facts.get(k[1]) is False)

    def decide(self, c):
        return cond_eval(c, self.atom)

    def assume_atom(self, a, v):
        """False if contradictory"""
        cur = self.atom(a)
        if cur is not None:
            return cur == v
        if a[0] == "dv":
            s = self.facts.get(("dsc", a[1]))
            full = s if s is not None else frozenset(range(a[3]))
            s2 = full & {a[2]} if v else full - {a[2]}
            if not s2:
                return False
            self.facts[("dsc", a[1])] = frozenset(s2)
            return True
        self.facts[a] = v
        if a[0] == "eq0" and v:
            self._bind(a)
            # contradictions with what is already known
            for b, bv in list(self.facts.items()):
                if b is not a and b[0] in ("lt0", "eq0", "cp"):
                    e = self.resolve(b[-1])
                    c = e.const()
                    if c is None:
                        continue
                    t = c < 0 if b[0] == "lt0" else (c == 0 if b[0] == "eq0" else char_pred(b[1], int(c)))
                    if t != bv:
                        return False
        if a[0] in ("lt0", "cp"):
            pass
        return True

    def _bind(self, a):
        e = self.resolve(a[1])
        l = e.linear()
        if not l:
            return
        c, d = l
        # parity facts
        if len(d) == 1:
            (k, v), = d.items()
            if isinstance(k, tuple) and k[0] == "imod" and c == 0:
                n = k[1].single_atom()
                m = k[2].const()
                if n is not None and m is not None and n not in self.bind:
                    self.bind[n] = (Num.c(m) * nonneg_atom(("half", k)), a)
                    return
                l = self.resolve(k[1]).linear()
                if n is None and m is not None and l is not None and len(l[1]) == 1:
                    (n, x), = l[1].items()
                    if x == 1 and n not in self.bind and is_nonneg_atom(n) and l[0] > 0 and Fraction(l[0]).denominator == 1:
                        h = nonneg_atom(("half", k))
                        self.bind[n] = (Num.c(m) * h - Num.c(l[0]), a)
                        self.facts[lt0(h - Num.c(-(-int(l[0]) // int(m))))[1]] = False
                return
        cands = [k for k, v in d.items() if abs(v) == 1]
        if not cands:
            return
        # bind the most derived atom
        cands.sort(key=lambda k: (0 if isinstance(k, tuple) and k[0] in ("cnt", "ls", "adv") else 1 if isinstance(k, tuple) and k[0] == "el" else 2, okey(k)))
        for k in cands:
            v = d[k]
            rest = (e - Num.atom(k) * Num.c(v)) * Num.c(-1 / v)
            if rest.linear()[1] and any(x < 0 for x in rest.linear()[1].values()):
                continue
            if rest.const() is None and len(d) > 3:
                continue
            self.bind[k] = (rest, a)
            return

    def assume(self, c, v=True):
        """states (self is consumed) in which the condition has value v"""
        if c is True or c is False:
            return [self] if c == v else []
        if c[0] == "N":
            return self.assume(c[1], not v)
        if c[0] == "A":
            return [self] if self.assume_atom(c[1], v) else []
        if c[0] == "&":
            if v:
                cur = [self]
                for x in c[1]:
                    cur = [t for s in cur for t in s.assume(x, True)]
                return cur
            out = []
            cur = [self]
            for x in c[1]:
                nxt = []
                for s in cur:
                    r = s.decide(x)
                    if r is not True:
                        out += s.copy().assume(x, False)
                    if r is not False:
                        nxt += s.assume(x, True)
                cur = nxt
            return out
        if c[0] == "I":
            r = self.decide(c[1])
            out = []
            if r is not False:
                for s in self.copy().assume(c[1], True):
                    out += s.assume(c[2], v)
            if r is not True:
                for s in self.assume(c[1], False):
                    out += s.assume(c[3], v)
            return out
        raise AssertionError(c)


def subst_top(n, m):
    from .values import _psub
    from .terms import P1

    def ps(p):
        r = ZERO
        for mono, c in p.t.items():
            t = Num.c(c)
            for k, e in mono:
                a = m.get(k)
                if a is None:
                    a = Num.atom(k)
                for _ in range(e):
                    t = t * a
            r = r + t
        return r
    if n.d is P1:
        return ps(n.n)
    return ps(n.n) / ps(n.d)


char_pred = chars.pred
