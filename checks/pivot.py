"""C28: elimination with data-dependent pivots.

The loops of the inversion are unrolled; every comparison of two unknown numbers is taken both
ways, and states that agree on all of their live memory are joined, keeping the facts they
share (zero, not zero, not greater in magnitude).  So the branches on magnitudes leave one state
per choice of pivots.  Numbers are quotients of polynomials of the 16 entries.  At each return the
product of the result with the argument must be the identity, at each panic the determinant of
the argument must vanish in the presence of the facts, and a division needs a divisor known not
to be zero.

Where that proof fails, the decision graph (which comparison follows which) is evaluated at
chosen matrices; one that ends in a leaf which is wrong there refutes the property.
"""
import itertools
import random
from fractions import Fraction

from engine.interp import Interp, Limit, Undecided
from engine.state import State
from engine.terms import Num, cond_eval, cond_atoms, ZERO
from .ratfun import Field, pmul, padd, pdiv


class Node:
    __slots__ = ("atom", "t", "f", "to", "leaf")

    def __init__(self):
        self.atom = self.t = self.f = self.to = self.leaf = None


class Pivot(Interp):
    def __init__(self, prog):
        Interp.__init__(self, prog)
        self.F = Field()
        self.tab = {}
        self.rats = {}
        self.panic_leaves = []
        self.forks = 0
        self.mags = {}
        self.reach = {}
        self.joined = 0

    # ------------------------------------------------------------ numbers
    def rat(self, n):
        """quotient denoted by a number of the engine"""
        k = n.single_atom()
        if k is not None:
            return self.atom(k)
        F = self.F
        out = None
        for p in (n.n, n.d):
            s = F.const(0)
            for m, c in p.t.items():
                t = F.const(c)
                for k, e in m:
                    for _ in range(e):
                        t = F.mul(t, self.atom(k))
                s = F.add(s, t)
            out = s if out is None else (out if p.const() == 1 else F.div(out, s))
        return out

    def atom(self, k):
        if isinstance(k, tuple) and k and k[0] == "rat":
            return self.rats[k[1]]
        if isinstance(k, tuple) and k and k[0] in ("mag", "fdiv", "frem", "poison", "sqrt"):
            raise Undecided("arithmetic on %s" % k[0])
        r = self.F.var(k)
        self.tab.setdefault(r.k, Num.atom(k))
        return r

    def num(self, r):
        if not r.n:
            return ZERO
        if not r.d and len(r.n) == 1 and 0 in r.n:
            return Num.c(r.n[0])
        x = self.tab.get(r.k)
        if x is None:
            i = len(self.rats)
            self.rats[i] = r
            x = self.tab[r.k] = Num.atom(("rat", i))
        return x

    def arith(self, op, x, y, tk, st):
        if tk != "float" or not isinstance(x, Num) or not isinstance(y, Num):
            return Interp.arith(self, op, x, y, tk, st)
        if poison(x) or poison(y):
            return Num.atom(("poison",))
        if op == "Div":
            z = self.zero(st, y)
            if z is None:
                # go on as if it were not zero; a return from here needs the refutation
                zk = self.zkey(y)
                st.aux["facts"] = self.facts(st) | {("#", zk)}
                st.aux["unchecked"] = True
            elif z:
                return Num.atom(("poison",))
        if x.const() is not None and y.const() is not None:
            return Interp.arith(self, op, x, y, tk, st)
        a, b = self.rat(x), self.rat(y)
        if op == "Add":
            return self.num(self.F.add(a, b))
        if op == "Sub":
            return self.num(self.F.add(a, b, -1))
        if op == "Mul":
            return self.num(self.F.mul(a, b))
        if op == "Div":
            return self.num(self.F.div(a, b))
        return Interp.arith(self, op, x, y, tk, st)

    def fabs(self, x):
        if poison(x):
            return x
        if x.const() is not None:
            return Num.c(abs(x.const()))
        k = x.single_atom()
        if isinstance(k, tuple) and k[0] == "mag":
            return x
        x = self.num(self.rat(x))
        y = self.num(self.F.neg(self.rat(x)))
        return Num.atom(("mag", min((x, y), key=lambda v: v.okey())))

    # ------------------------------------------------------------ facts
    def facts(self, st):
        return st.aux.get("facts", frozenset())

    def zkey(self, x):
        k = x.single_atom()
        if isinstance(k, tuple) and k and k[0] == "mag":
            x = k[1]
        r = self.rat(x)
        if not r.n:
            return True
        p = r.n
        if len(p) == 1 and 0 in p:
            return False
        c = p[max(p)]
        return frozenset((m, Fraction(v) / c) for m, v in p.items())

    def zero(self, st, x):
        if poison(x):
            return None
        z = self.zkey(x)
        if z is True or z is False:
            return z
        fs = self.facts(st)
        if ("0", z) in fs:
            return True
        if ("#", z) in fs:
            return False
        return None

    def look(self, st, a):
        """decide an atomic condition from the facts"""
        if a[0] == "eq0":
            return self.zero(st, a[1])
        if a[0] == "lt0":
            l = a[1].linear()
            if l is None:
                return None
            c, cs = l
            if cs and all(isinstance(k, tuple) and k and k[0] == "mag" for k in cs):
                if c >= 0 and all(v > 0 for v in cs.values()):
                    return False
                if c < 0 and all(v < 0 for v in cs.values()):
                    return True
                if c == 0 and all(v < 0 for v in cs.values()) and any(self.zero(st, Num.atom(k)) is False for k in cs):
                    return True
                if c == 0 and len(cs) == 2:
                    (k1, v1), (k2, v2) = cs.items()
                    if v1 == -v2:
                        lo, hi = (k1, k2) if v1 > 0 else (k2, k1)
                        # lo < hi ?
                        if ("<=", hi, lo) in self.facts(st):
                            return False
                        if ("<", lo, hi) in self.facts(st):
                            return True
        return None

    def learn(self, st, a, side):
        fs = set(self.facts(st))
        if a[0] == "eq0":
            z = self.zkey(a[1])
            fs.add(("0" if side else "#", z))
        elif a[0] == "lt0":
            l = a[1].linear()
            if l is not None:
                c, cs = l
                if len(cs) == 1 and c == 0:
                    (k, v), = cs.items()
                    if isinstance(k, tuple) and k and k[0] == "mag" and v < 0:
                        # -|x| < 0
                        fs.add(("#" if side else "0", self.zkey(Num.atom(k))))
                    elif side:
                        fs.add(("#", self.zkey(Num.atom(k))))
                if c == 0 and len(cs) == 2 and all(isinstance(k, tuple) and k and k[0] == "mag" for k in cs):
                    (k1, v1), (k2, v2) = cs.items()
                    if v1 == -v2:
                        lo, hi = (k1, k2) if v1 > 0 else (k2, k1)
                        if not side:
                            lo, hi = hi, lo
                        if side:
                            fs.add(("<", lo, hi))
                        for x in [lo] + [f[1] for f in fs if f[0] == "<=" and f[2] == lo]:
                            fs.add(("<=", x, hi))
        st.aux["facts"] = frozenset(fs)

    def forget(self, st):
        """facts about magnitudes that no live value has"""
        live = set()
        todo = list(st.mem.values())
        while todo:
            v = todo.pop()
            if isinstance(v, Num):
                k = v.single_atom()
                if isinstance(k, tuple) and k and k[0] == "mag":
                    live.add(k)
                elif k is not None:
                    if k not in self.mags:
                        self.mags[k] = self.fabs(v).single_atom()
                    live.add(self.mags[k])
            elif isinstance(v, tuple):
                todo.extend(v)
        st.aux["facts"] = frozenset(f for f in self.facts(st) if f[0] in "0#" or f[2] in live)

    # ------------------------------------------------------------ control
    def fork(self, fn, b, st, c):
        r = cond_eval(c, lambda a: self.look(st, a))
        if r is not None:
            return [(st, r)]
        return self.split(st, c, {})

    def split(self, st, c, known):
        r = cond_eval(c, lambda a: known.get(a, self.look(st, a)))
        if r is not None:
            return [(st, r)]
        for a in cond_atoms(c):
            if a not in known and self.look(st, a) is None:
                break
        else:
            raise Undecided("undecided condition")
        if not self.plain(a):
            raise Undecided("branch on %s" % (str(a)[:80],))
        self.forks += 1
        n = st.aux["node"]
        n.atom, n.t, n.f = a, Node(), Node()
        out = []
        for side, nd in ((True, n.t), (False, n.f)):
            s = st.copy()
            s.aux["node"] = nd
            self.learn(s, a, side)
            out += self.split(s, c, {**known, a: side})
        return out

    def plain(self, a):
        if a[0] == "nan":
            return False
        return a[0] in ("lt0", "eq0") and not poison(a[1])

    def state_key(self, st):
        return frozenset(st.mem.items())

    def group(self, sts, key):
        out = {}
        for s in sts:
            k = key(s)
            o = out.get(k)
            if o is None:
                out[k] = s
            else:
                self.joined += 1
                st = s[0] if isinstance(s, tuple) else s
                ot = o[0] if isinstance(o, tuple) else o
                ot.aux["facts"] = self.facts(ot) & self.facts(st)
                if st.aux.get("unchecked"):
                    ot.aux["unchecked"] = True
                ot.unk = ot.unk + tuple(x for x in st.unk if x not in ot.unk)
                n = Node()
                st.aux["node"].to = n
                ot.aux["node"].to = n
                ot.aux["node"] = n
        return list(out.values())

    def dedupe(self, fn, fr, b, sts):
        if not self.returns(fn, b):
            return sts
        for s in sts:
            self.prune(fn, fr, b, s)
            self.forget(s)
        sts = self.group(sts, self.state_key)
        if len(sts) > 4000:
            raise Limit("too many states in %s" % fn.path)
        return sts

    def returns(self, fn, b):
        """is there a way from block b to the end of the function?"""
        r = self.reach.get(fn.id)
        if r is None:
            n = len(fn.body["blocks"])
            r = {x for x in range(n) if fn.body["blocks"][x]["t"][0] == "ret"}
            more = True
            while more:
                new = {x for x in range(n) if x not in r and any(y in r for y in fn.succs(x))}
                r |= new
                more = bool(new)
            self.reach[fn.id] = r
        return b in r

    def merge_outs(self, outs):
        return self.group(outs, lambda x: (self.state_key(x[0]), x[1])) if len(outs) > 1 else outs

    def do_loop(self, fn, fr, head, st):
        blocks = fn.cfg()[1][head]
        self.prune(fn, fr, head, st)
        exits, rets, cur = [], [], [st]
        for it in range(40):
            nxt = []
            for s in cur:
                backs, ex, rt = self.region(fn, fr, blocks, head, [s], head)
                exits += ex
                rets += rt
                nxt += backs
            if not nxt:
                return exits, rets
            cur = self.dedupe(fn, fr, head, nxt)
        raise Undecided("loop in %s (line %d) has no small trip count" % (fn.path, fn.body["blocks"][head]["l"]))

    def panic(self, fn, line, what, st):
        self.panics.append((fn, line, what, st, []))
        st.aux["node"].leaf = ("panic", fn, line)
        self.panic_leaves.append((fn, line, what, st))


def poison(x):
    return isinstance(x, Num) and any(isinstance(k, tuple) and k and k[0] == "poison" for k in x.atoms())


def det_poly(m):
    r = {}
    for p in itertools.permutations(range(4)):
        s = 1
        for i in range(4):
            for j in range(i):
                if p[j] > p[i]:
                    s = -s
        t = {0: s}
        for i in range(4):
            t = pmul(t, m[i][p[i]])
        r = padd(r, t)
    return r


def det_num(m):
    m = [list(r) for r in m]
    d = Fraction(1)
    n = len(m)
    for i in range(n):
        p = next((r for r in range(i, n) if m[r][i]), None)
        if p is None:
            return Fraction(0)
        if p != i:
            m[p], m[i] = m[i], m[p]
            d = -d
        d *= m[i][i]
        for r in range(i + 1, n):
            f = m[r][i] / m[i][i]
            if f:
                m[r] = [a - f * b for a, b in zip(m[r], m[i])]
    return d


def singular(I, st, det):
    """does the determinant vanish in the presence of the facts?"""
    fs = I.facts(st)
    zeros = [dict(f[1]) for f in fs if f[0] == "0"]
    zset = {f[1] for f in fs if f[0] == "0"}
    # magnitudes below one that is zero
    for f in fs:
        if f[0] == "<=" and I.zkey(Num.atom(f[2])) in zset:
            z = I.zkey(Num.atom(f[1]))
            if z not in (True, False) and z not in zset:
                zset.add(z)
                zeros.append(dict(z))
    nonz = [dict(f[1]) for f in fs if f[0] == "#"]
    zeros = [{m: int(c) if Fraction(c).denominator == 1 else c for m, c in z.items()} for z in zeros]

    def isnonzero(p):
        if len(p) == 1 and 0 in p:
            return True
        for q in nonz:
            r = pdiv(p, q)
            while r is not None:
                p = r
                if len(p) == 1 and 0 in p:
                    return True
                r = pdiv(p, q)
        return False
    d = det
    zeros.sort(key=lambda z: (len(z), sorted(z)))
    for z in zeros:
        if pdiv(d, z) is not None:
            return True
    done = set()
    for z in zeros:
        for v in range(len(I.F.names)):
            if v in done:
                continue
            ab = I.F.degree1(z, v)
            if ab is None or not isnonzero(ab[0]):
                continue
            dd = I.F.degree1(d, v)
            done.add(v)
            if dd is None:
                break
            d = padd(pmul(ab[0], dd[1]), pmul(ab[1], dd[0]), -1)
            if not d:
                return True
            break
    return not d


def candidates(ints, rnd):
    """matrices that exercise every order of pivots, ranks below 4, small and large entries, signs"""
    for perm in itertools.permutations(range(4)):
        for sc in itertools.permutations((1009, 211, 47, 11)):
            for noise in (0, 1):
                m = [[(noise * Fraction(16 - 4 * r - c, 16) if not ints else Fraction(noise * ((r * 3 + c * 5 + 1) % 4))) for c in range(4)] for r in range(4)]
                for r in range(4):
                    m[r][perm[r]] = Fraction(sc[r] * (-1 if (r + perm[r] + sc[r]) % 3 == 0 else 1))
                yield m
    for rank in range(4):
        for perm in itertools.permutations(range(4)):
            m = [[Fraction(0)] * 4 for _ in range(4)]
            for r in range(rank):
                m[r][perm[r]] = Fraction(3 + r)
            yield m
            yield m[::-1]
            a = [[Fraction(rnd.randint(-3, 3)) for _ in range(rank)] for _ in range(4)]
            b = [[Fraction(rnd.randint(-3, 3)) for _ in range(4)] for _ in range(rank)]
            yield [[sum((a[r][k] * b[k][c] for k in range(rank)), Fraction(0)) for c in range(4)] for r in range(4)]
    for i in range(1500):
        hi = (1, 2, 5, 40)[i % 4]
        yield [[Fraction(rnd.randint(-hi, hi)) for _ in range(4)] for _ in range(4)]
    if not ints:
        for k in (10 ** 3, 10 ** 7, 10 ** 12):
            yield [[Fraction(1 if r == c else 0, k) for c in range(4)] for r in range(4)]
            yield [[Fraction(1 if r == c else 0) / (k if r == 2 else 1) for c in range(4)] for r in range(4)]


def analyse(R, P, f, key, ints, steps=4000000):
    I = Pivot(P)
    I.max_steps = steps
    st = State()
    root = Node()
    st.aux["node"] = root
    arg = I.mk("a0", f.body["locals"][1], st)
    v = I.strip(st, arg)
    M = matrix(P, I, st, v)
    if M is None:
        raise Undecided("the argument is not a 4 by 4 matrix")
    names = [M[r][c].single_atom() for r in range(4) for c in range(4)]
    for k in names:
        I.atom(k)
    Mr = [[I.rat(M[r][c]) for c in range(4)] for r in range(4)]
    det = det_poly([[Mr[r][c].n for c in range(4)] for r in range(4)])
    outs = I.run_fn(f, [arg], st)
    R.fns |= I.fns_seen
    R.count("blocks", I.steps)
    R.count("branches_on_data", I.forks)
    R.count("states_joined", I.joined)
    R.count("quotients", len(I.rats))
    bad = []
    nret = 0
    for s, r in outs:
        if s.unk:
            raise Undecided("; ".join(s.unk))
        X = matrix(P, I, s, r)
        if X is None:
            raise Undecided("the result is not a 4 by 4 matrix of numbers")
        nret += 1
        if any(poison(X[i][j]) for i in range(4) for j in range(4)):
            s.aux["node"].leaf = ("ret", None, None)
            bad.append("a matrix computed by a division by zero is returned")
            continue
        Xr = [[I.rat(X[i][j]) for j in range(4)] for i in range(4)]
        s.aux["node"].leaf = ("ret", Xr, None)
        if s.aux.get("unchecked"):
            bad.append("returns after dividing by a number that may be zero")
        if not identity(I, Xr, Mr):
            bad.append("the product of the result with the argument is not the identity")
    seen = {}
    for fn, line, what, s in I.panic_leaves:
        if s.aux.get("unchecked"):
            bad.append("%s:%d: refuses after dividing by a number that may be zero" % (fn.path, line))
        k = (line, I.facts(s))
        if k not in seen:
            seen[k] = singular(I, s, det)
            if not seen[k]:
                bad.append("%s:%d: refuses a matrix that was not shown to be singular" % (fn.path, line))
    R.count("return_states", nret)
    R.count("refusal_states", len(seen))
    if not bad:
        R.ok(key + " inverts", "%d return states, all with product identity" % nret)
        R.ok(key + " refuses only singular matrices", "%d refusal states" % len(seen))
        R.sample("%s: %d data-dependent branches, %d states joined, %d quotients" % (f.full, I.forks, I.joined, len(I.rats)))
        return
    w = refute(I, root, names, ints)
    if w is None:
        R.und(key, bad[0])
    else:
        R.viol(key, w)


def identity(I, X, M):
    F = I.F
    for i in range(4):
        for j in range(4):
            s = F.const(0)
            for k in range(4):
                s = F.add(s, F.mul(M[i][k], X[k][j]))
            if not F.same(s, F.const(1 if i == j else 0)):
                return False
    return True


def refute(I, root, names, ints):
    rnd = random.Random(1)
    for m in candidates(ints, rnd):
        pt = [None] * len(I.F.names)
        for i, k in enumerate(names):
            pt[I.F.vars[k]] = m[i // 4][i % 4]
        if None in pt:
            return None
        memo = {}

        def atom(k):
            if k not in memo:
                if isinstance(k, tuple) and k and k[0] == "mag":
                    x = value(k[1])
                    memo[k] = None if x is None else abs(x)
                elif isinstance(k, tuple) and k and k[0] == "rat":
                    memo[k] = I.F.value(I.rats[k[1]], pt)
                else:
                    memo[k] = pt[I.F.vars[k]] if k in I.F.vars else None
            return memo[k]

        def poly(p):
            s = Fraction(0)
            for mono, c in p.t.items():
                t = Fraction(c)
                for k, e in mono:
                    x = atom(k)
                    if x is None:
                        return None
                    t *= x ** e
                s += t
            return s

        def value(n):
            a, b = poly(n.n), poly(n.d)
            return None if a is None or not b else a / b
        n = root
        while n is not None and n.leaf is None:
            if n.to is not None:
                n = n.to
                continue
            if n.atom is None:
                n = None
                break
            x = value(n.atom[1])
            if x is None:
                n = None
                break
            n = n.t if (x < 0 if n.atom[0] == "lt0" else x == 0) else n.f
        if n is None:
            continue
        d = det_num(m)
        if n.leaf[0] == "panic":
            if d != 0:
                return "%s:%d: refuses the invertible matrix %s" % (n.leaf[1].path, n.leaf[2], show(m))
            continue
        X = n.leaf[1]
        if d == 0:
            return "returns a result for the singular matrix %s" % show(m)
        if X is None:
            return "divides by zero for the invertible matrix %s" % show(m)
        xv = [[I.F.value(X[i][j], pt) for j in range(4)] for i in range(4)]
        if any(x is None for r in xv for x in r):
            continue
        for i in range(4):
            for j in range(4):
                s = sum(m[i][k] * xv[k][j] for k in range(4))
                if s != (1 if i == j else 0):
                    return "the result for %s is not its inverse: entry (%d, %d) of the product is %s" % (show(m), i, j, s)
    return None


def show(m):
    return "[" + "; ".join(" ".join(str(x) for x in r) for r in m) + "]"


def matrix(P, I, st, v):
    """entries of a 4 by 4 matrix value"""
    v = I.strip(st, v)
    if isinstance(v, tuple) and v and v[0] == "adt":
        v = v[3][0]
    out = []
    try:
        for r in range(4):
            row = I.index(v, Num.c(r), st)
            out.append([I.index(row, Num.c(c), st) for c in range(4)])
    except (Undecided, TypeError, IndexError, KeyError):
        return None
    if any(not isinstance(x, Num) for r in out for x in r):
        return None
    return out
