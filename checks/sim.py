"""Simulation of the analysed code by a reference transducer.

A reference ("spec") is a deterministic transducer over the symbolic input: a state has a
label, a position p and registers; its step is an ordered list of arms (condition, target).
For every outcome of the abstract interpretation the reference is run under the facts of that
outcome and the results are compared.  Loops are crossed by induction: a loop summary is
matched with the reference state at its entry, and every alternative of the summary has to
take the reference from the state related to its head to the state related to the next head.
"""
import math
import random
from fractions import Fraction
from engine.terms import Num, cnot, cand, lt, le, eq, ZERO, cond_atoms, okey
from engine.values import is_cond, mkseq, seqlen, seglen, subst, contains, ONE_, EMPTY, nonneg_atom, replace
from engine.loops import appended
from engine import strings
from . import ghost


class SS:
    """a state of the reference"""
    __slots__ = ("lab", "p", "r")

    def __init__(self, lab, p, **r):
        self.lab, self.p, self.r = lab, p, r

    def to(self, lab, p=None, **r):
        return SS(lab, self.p if p is None else p, **r)

    def key(self):
        return (self.lab, okey(self.p), okey(sorted(self.r.items(), key=lambda x: x[0])))

    def __repr__(self):
        return "%s@%r" % (self.lab, self.p)


class Und(Exception):
    pass


VAGUE = ("hv", "unk", "unkovf", "?")


def vague(x):
    return contains(x, lambda k: isinstance(k, tuple) and bool(k) and k[0] in VAGUE)


FUNS = ("satcast", "powf", "ipow", "parse", "trunc", "fun", "idiv", "imod", "sqrt", "wrapcast", "floor")


WIDTH = {t + str(w): (w, t == "i") for t in "iu" for w in (8, 16, 32, 64)}
WIDTH["isize"], WIDTH["usize"] = (64, True), (64, False)


class Cmp:
    """equality of values under facts: True, False (there is an input where they differ), None"""

    def __init__(self, I, texts=()):
        self.I = I
        self.prog = I.prog
        self.texts = {t[0]: t for t in texts}

    def num(self, st, a, b):
        if a == b:
            return True
        d = st.resolve(a - b)
        c = d.const()
        if c is not None:
            return c == 0
        if vague(d):
            return None
        if ghost.ghosts(d):
            return None
        u, l = st.ub(d), st.ub(-d)
        if u is not None and l is not None and u <= 0 and l <= 0:
            return True
        if u is not None and u < 0 or l is not None and l < 0:
            return False
        if contains(d, lambda k: isinstance(k, tuple) and bool(k) and k[0] in FUNS):
            return self.sample(st, st.resolve(a), st.resolve(b))
        e = self.deep(st, d)
        if e != d:
            return self.num(st, e, ZERO)
        return False

    def deep(self, st, v):
        """places inside a term replaced by what they are known to be"""
        if isinstance(v, Num):
            m = {}
            for k in v.atoms():
                if isinstance(k, tuple):
                    k2 = self.deep(st, k)
                    if k2 != k:
                        m[k] = Num.atom(k2)
            v = subst(v, m) if m else v
            v = st.resolve(v)
            if v.const() is None and v.linear() is not None:
                u = st.ub(v)
                if u is not None and u == -(st.ub(-v) if st.ub(-v) is not None else -u - 1):
                    v = Num.c(u)
            return v
        if isinstance(v, tuple):
            return tuple(self.deep(st, x) if isinstance(x, (tuple, Num)) else x for x in v)
        return v

    def sample(self, st, a, b):
        """numbers built with functions: compare at sample points"""
        rnd = random.Random(7)
        agree = 0
        for _ in range(60):
            env = {}
            try:
                x, y = self.val(a, env, rnd), self.val(b, env, rnd)
                ok = True
                for f, v in st.facts.items():
                    if f[0] in ("lt0", "eq0") and any(k in env for k in f[1].atoms()):
                        w = self.val(f[1], env, rnd)
                        t = w < 0 if f[0] == "lt0" else w == 0
                        if t != v:
                            ok = False
                            break
                if not ok:
                    continue
            except (OverflowError, ZeroDivisionError, ValueError, KeyError):
                continue
            if abs(x - y) > 1e-6 * (abs(x) + abs(y) + 1e-9):
                return False
            agree += 1
        return None

    def val(self, n, env, rnd):
        l = 0.0
        for mono, c in n.n.t.items():
            t = float(c)
            for k, e in mono:
                t *= self.aval(k, env, rnd) ** e
            l += t
        d = 0.0
        for mono, c in n.d.t.items():
            t = float(c)
            for k, e in mono:
                t *= self.aval(k, env, rnd) ** e
            d += t
        return l / d

    def aval(self, k, env, rnd):
        if isinstance(k, tuple) and k and k[0] in ("powf", "ipow") and len(k) == 3:
            return math.pow(self.val(k[1], env, rnd), self.val(k[2], env, rnd))
        if isinstance(k, tuple) and k and k[0] == "wrapcast" and len(k) == 3 and k[1] in WIDTH:
            x = self.val(k[2], env, rnd)
            w, sg = WIDTH[k[1]]
            x = int(x) % (1 << w)
            return float(x - (1 << w) if sg and x >= 1 << (w - 1) else x)
        if isinstance(k, tuple) and k and k[0] in ("trunc", "floor", "sqrt") and len(k) == 2 and isinstance(k[1], Num):
            x = self.val(k[1], env, rnd)
            return float(math.trunc(x) if k[0] == "trunc" else math.floor(x)) if k[0] != "sqrt" else math.sqrt(x)
        if isinstance(k, tuple) and k and k[0] in ("idiv", "imod", "trunc", "wrapcast", "sqrt", "floor", "fun"):
            raise KeyError(k)
        if k not in env:
            if isinstance(k, tuple) and k[0] == "parse" and k[1][0] in "iu":
                env[k] = float(rnd.choice([0, 1, 2, 3, 5, 7, -1, -2, -4]))
            elif isinstance(k, tuple) and k[0] == "v":
                env[k] = float(rnd.choice([0, 1, 2, 3, -1, -2, 5, 2 ** 40 + 3, -2 ** 33, 300]))
            else:
                env[k] = float(rnd.choice([0, 1, 2, 3, -1, -2, 5])) + (rnd.random() if isinstance(k, tuple) and k[0] == "parse" else 0.0)
            if isinstance(k, tuple) and k[0] == "parse" and (env[k] < 0) != self.minus(k):
                env[k] = -env[k]
        return env[k]

    def minus(self, k):
        """does the text of a number certainly begin with a minus sign"""
        for s in k[2][1] if isinstance(k[2], tuple) and k[2] and k[2][0] == "seq" else ():
            return s[0] == "e" and isinstance(s[1], Num) and s[1].const() == 45
        return False

    def both(self, rs):
        if any(r is False for r in rs):
            return False
        if any(r is None for r in rs):
            return None
        return True

    def split(self, st, c, f):
        rs = []
        for side in (True, False):
            for s in st.copy().assume(c, side):
                rs.append(f(s, side))
        return self.both(rs) if rs else True

    def eq(self, st, a, b, depth=0):
        if a is b:
            return True
        if isinstance(a, tuple) and a and a[0] == "vref":
            return self.eq(st, a[1], b, depth)
        if isinstance(b, tuple) and b and b[0] == "vref":
            return self.eq(st, a, b[1], depth)
        for x, y, sw in ((a, b, False), (b, a, True)):
            if isinstance(x, tuple) and x and x[0] == "ite":
                r = st.decide(x[1])
                if r is not None:
                    x2 = x[2] if r else x[3]
                    return self.eq(st, y, x2, depth) if sw else self.eq(st, x2, y, depth)
                if depth > 12:
                    return None
                return self.split(st, x[1], lambda s, side: self.eq(s, *((y, x[2] if side else x[3]) if sw else (x[2] if side else x[3], y)), depth + 1))
        if isinstance(a, Num) and isinstance(b, Num):
            return self.num(st, a, b)
        if is_cond(a) and is_cond(b):
            if a == b:
                return True
            x, y = st.decide(a), st.decide(b)
            if x is not None and y is not None:
                return x == y
            if depth > 12 or vague(a) or vague(b):
                return None
            if x is None:
                return self.split(st, a, lambda s, side: self.eq(s, side, b, depth + 1))
            return self.split(st, b, lambda s, side: self.eq(s, a, side, depth + 1))
        if not (isinstance(a, tuple) and isinstance(b, tuple) and a and b):
            return None
        if a == b and a[0] not in ("unk", "undef"):
            return True
        if a[0] in ("unk", "undef") or b[0] in ("unk", "undef"):
            return None
        if a[0] == "sym" and b[0] == "adt":
            a = self.expand(st, a)
        if b[0] == "sym" and a[0] == "adt":
            b = self.expand(st, b)
        if a[0] == "sym" and b[0] == "sym":
            if vague(a) or vague(b):
                return None
            return self.deep(st, a) == self.deep(st, b)
        if a[0] == "adt" and b[0] == "adt":
            if a[1] != b[1]:
                return None
            if a[2] != b[2]:
                return False
            if len(a[3]) != len(b[3]):
                return None
            p = self.pospair(st, a, b)
            if p is not NotImplemented:
                return p
            return self.both([self.eq(st, x, y, depth) for x, y in zip(a[3], b[3])])
        if a[0] in ("tup", "arr") and a[0] == b[0]:
            if len(a[1]) != len(b[1]):
                return False
            return self.both([self.eq(st, x, y, depth) for x, y in zip(a[1], b[1])])
        if a[0] in ("seq", "arr") and b[0] in ("seq", "arr"):
            return self.seq(st, a, b, depth)
        if a[0] == "log" or b[0] == "log":
            if a[0] != "log":
                a = ("log", a, EMPTY)
            if b[0] != "log":
                b = ("log", b, EMPTY)
            return self.both([self.eq(st, a[1], b[1], depth), self.eq(st, a[2], b[2], depth)])
        return None

    def expand(self, st, v):
        s = st.facts.get(("dsc", v[1]))
        t = self.prog.tys[v[2]]
        if s is None or len(s) != 1:
            return v
        (i,) = s
        return ("adt", v[2], i, tuple(self.I.step(v, ("vf", i, j), st) for j in range(len(t["v"][i]["f"]))))

    def pospair(self, st, a, b):
        if len(a[3]) == 2 and all(isinstance(x, Num) for x in a[3] + b[3]):
            for x, y in ((a, b), (b, a)):
                g = [ghost.ghosts(z) for z in x[3]]
                if len(g[0]) == 1 and len(g[1]) == 1 and g[0][0][0] == "row" and g[1][0][0] == "col" and g[0][0][1:] == g[1][0][1:] \
                        and x[3] == (Num.atom(g[0][0]), Num.atom(g[1][0])):
                    k, e = g[0][0][1], g[0][0][2]
                    if k in self.texts:
                        if vague(y):
                            return None
                        return ghost.equal_pos(st, self.texts[k], e, y[3][0], y[3][1])
        return NotImplemented

    # ------------------------------------------------------------ sequences
    def segs(self, st, v):
        if v[0] == "arr":
            return [("e", x) for x in v[1]]
        out = []
        for s in v[1]:
            if s[0] == "sl":
                s = ("sl", s[1], s[2], st.resolve(s[3]), st.resolve(s[4]))
            elif s[0] == "map":
                s = ("map", st.resolve(s[1]), s[2], s[3])
            out.append(s)
        out = list(mkseq(out)[1])
        res = []
        for s in out:
            if s[0] == "lit":
                res += [("e", Num.c(ord(ch))) for ch in s[1]]
                continue
            if s[0] in ("sl", "map"):
                n = seglen(s).const()
                if n is not None and 0 <= n <= 40:
                    for i in range(int(n)):
                        if s[0] == "sl":
                            res.append(("e", self.I.elem(s[1], s[2], s[3] + Num.c(i), st)))
                        else:
                            res.append(("e", subst(s[3], {s[2]: Num.c(i)})))
                    continue
            res.append(s)
        return res

    def first(self, st, s):
        """(first element, rest) of a segment known to be non-empty"""
        n = seglen(s)
        if st.decide(lt(ZERO, n)) is not True:
            return None
        if s[0] == "sl":
            return self.I.elem(s[1], s[2], s[3], st), ("sl", s[1], s[2], s[3] + ONE_, s[4])
        if s[0] == "map":
            return subst(s[3], {s[2]: ZERO}), ("map", s[1] - ONE_, s[2], subst(s[3], {s[2]: Num.atom(s[2]) + ONE_}))
        return None

    def free(self, st, v, other):
        """a complete string of the input about which nothing is known and which the other value does not depend on"""
        if not strings.whole(v) or vague(v) or vague(other):
            return False
        k = v[1][0][1]
        if not (isinstance(k, tuple) and k and k[0] in ("v", "el", "word")):
            return False
        hit = lambda x: x == k
        return not contains(other, hit) and not any(contains(a, hit) for a in st.facts) \
            and not any(contains(b, hit) for b in st.bind.values())

    def seq(self, st, a, b, depth):
        if a[0] == "seq" and b[0] == "seq" and (self.free(st, a, b) or self.free(st, b, a)):
            return False
        xs, ys = self.segs(st, a), self.segs(st, b)
        res = True
        while xs and ys:
            x, y = xs[0], ys[0]
            if x == y and x[0] != "e":
                xs.pop(0)
                ys.pop(0)
                continue
            if x[0] == "e" and y[0] == "e":
                r = self.eq(st, x[1], y[1], depth)
                if r is False:
                    return False
                if r is None:
                    res = None
                xs.pop(0)
                ys.pop(0)
                continue
            if x[0] == y[0] == "sl" and x[1] == y[1] and x[3] == y[3]:
                d = y[4] - x[4]
                if st.decide(le(ZERO, d)) is True:
                    xs.pop(0)
                    ys[0] = ("sl", y[1], y[2], x[4], y[4])
                    if ys[0][3] == ys[0][4]:
                        ys.pop(0)
                    continue
                if st.decide(le(d, ZERO)) is True:
                    ys.pop(0)
                    xs[0] = ("sl", x[1], x[2], y[4], x[4])
                    if xs[0][3] == xs[0][4]:
                        xs.pop(0)
                    continue
            if x[0] == y[0] == "map" and (x[1] == y[1] or st.decide(eq(x[1], y[1])) is True):
                r = self.eq(st, x[3], subst(y[3], {y[2]: Num.atom(x[2])}) if y[2] != x[2] else y[3], depth)
                if r is False and st.decide(lt(ZERO, x[1])) is not True:
                    r = None
                if r is False:
                    return False
                if r is None:
                    res = None
                xs.pop(0)
                ys.pop(0)
                continue
            done = False
            if x[0] == "e" and y[0] in ("sl", "map"):
                f = self.first(st, y)
                if f:
                    ys[0:1] = [("e", f[0]), f[1]]
                    done = True
            elif y[0] == "e" and x[0] in ("sl", "map"):
                f = self.first(st, x)
                if f:
                    xs[0:1] = [("e", f[0]), f[1]]
                    done = True
            elif x[0] in ("sl", "map") and y[0] in ("sl", "map"):
                f, g = self.first(st, x), self.first(st, y)
                if f and g and depth < 3:
                    r = self.eq(st, f[0], g[0], depth)
                    if r is False:
                        return False
            if done:
                continue
            return None
        rest = xs or ys
        if rest:
            n = ZERO
            for s in rest:
                n = n + seglen(s)
            if st.decide(lt(ZERO, n)) is True:
                return False
            if st.decide(eq(n, ZERO)) is True:
                return res
            return None
        return res


class Sim:
    def __init__(self, I, spec, texts=()):
        self.I, self.spec = I, spec
        self.cmp = Cmp(I, texts)
        self.memo = {}
        self.fails = {}          # uid -> reason
        self.matched = 0
        self.steps = 0
        self.inprogress = set()

    def same(self, st, a, b):
        d = st.resolve(a - b)
        c = d.const()
        if c is not None:
            return c == 0
        return st.decide(eq(a, b)) is True

    # ------------------------------------------------------------ running the reference
    def run(self, S, st, used, until=None, final=None, budget=7, vocab=None):
        """-> list of ("halt", S, st, verdict, value) | ("pause", S, st) | ("past", S, st) | ("cap", S, st)"""
        out = []
        todo = [(S, st, used, budget)]
        n = 0
        while todo:
            S, st, used, bud = todo.pop()
            while True:
                n += 1
                self.steps += 1
                if n > 4000:
                    raise Und("the reference run does not end")
                m = self.cross(S, st, used)
                if m is not None and m[0] is not None:
                    if len(m[0]) == 1:
                        S, st = m[0][0]
                        used = m[1]
                        continue
                    todo += [(x, y, m[1], bud) for x, y in m[0]]
                    break
                blocked = m is not None       # a loop starts here that could not be matched
                act = self.spec.step(S, st)
                if blocked and act[0] == "switch":
                    t = self.decided(st, act[1])
                    if not (isinstance(t, SS) and self.same(st, t.p, S.p)):
                        m = self.cross(S, st, used, True)
                        if m is not None and m[0] is not None:
                            todo += [(x, y, m[1], bud) for x, y in m[0]]
                            break
                if act[0] == "halt":
                    out.append(("halt", S, st, act[1], act[2]))
                    break
                arms = act[1]
                stop = until is not None and self.same(st, S.p, until)
                fin = final is not None and self.same(st, S.p, final)
                if stop:
                    t = self.decided(st, arms)
                    if t is None or not isinstance(t, SS) or not self.same(st, t.p, S.p):
                        out.append(("pause", S, st))
                        break
                    S = t
                    continue
                if until is not None and st.decide(lt(until, S.p)) is True:
                    out.append(("past", S, st))
                    break
                fk = self.fork(st, arms, vocab)
                nxt = []
                for t, s in fk:
                    if not isinstance(t, SS):
                        out.append(("halt", S, s, t[1], t[2]))
                        continue
                    if not self.same(s, t.p, S.p):
                        if blocked:
                            raise Und(self.fails.get(m[1], "a loop could not be matched"))
                        if fin:
                            out.append(("past", S, s))
                            continue
                    nxt.append((t, s))
                if not nxt:
                    break
                if len(fk) > 1:
                    if bud <= 0:
                        out.append(("cap", S, st))
                        break
                    todo += [(t, s, used, bud - 1) for t, s in nxt]
                    break
                S, st = nxt[0]
        return out

    def decided(self, st, arms):
        for c, t in arms:
            r = c if isinstance(c, bool) else st.decide(c)
            if r is None:
                return None
            if r:
                return t
        return None

    def fork(self, st, arms, vocab):
        out = []
        cur = [st]
        for c, t in arms:
            nxt = []
            for s in cur:
                r = c if isinstance(c, bool) else s.decide(c)
                if r is True:
                    out.append((t, s))
                elif r is False:
                    nxt.append(s)
                else:
                    soft = vocab is not None and not self.hard(c, vocab)
                    for x in s.copy().assume(c, True):
                        if soft:
                            x.aux = dict(x.aux)
                            x.aux["soft"] = True
                        if self.feasible(x):
                            out.append((t, x))
                    for x in s.assume(c, False):
                        if soft:
                            x.aux = dict(x.aux)
                            x.aux["soft"] = True
                        nxt.append(x)
            cur = nxt
        return out

    def feasible(self, st):
        return self.spec.feasible(st)

    def hard(self, c, vocab):
        for a in cond_atoms(c):
            if not self.spec.hard(a, vocab):
                return False
        return True

    # ------------------------------------------------------------ loops
    def cross(self, S, st, used, rot=False):
        """None: no loop starts here; ([(S', st')], used') after a loop; (None, uid) if one starts here unmatched"""
        bad = None
        for ent in st.aux.get("loops", ()):
            uid, key = ent
            if uid in used:
                continue
            rec = self.I.loops.get(uid)
            if rec is None:
                continue
            for m in rec.sm.numlocs():
                v0 = rec.sm.v0(m)
                off = (v0 - S.p).const()
                if off is None and self.same(st, v0, S.p):
                    off = 0
                if off not in (0, 1):
                    continue
                H = self.match(rec, m, Num.c(off), S, rot)
                if H is not None:
                    if not rot:
                        if key in H:
                            return [(H[key], st)], used | {uid}
                    else:
                        moved = lt(v0, rec.sm.cursor(m))
                        outs = []
                        if key == rec.first:
                            outs += [(S, x) for x in self.at_entry(st, rec, m)]
                        later = st.copy().assume(moved, True)
                        if key in H or not later:
                            return outs + [(H[key], x) for x in later], used | {uid}
                if off == 0:
                    bad = uid
        return None if bad is None else (None, bad)

    def match(self, rec, m, off, S, rot=False):
        k = (rec.uid, m, off, S.key(), rot)
        if k in self.memo:
            return self.memo[k]
        if k in self.inprogress:
            return None
        self.inprogress.add(k)
        try:
            r, why = self.match1(rec, m, off, S, rot)
        except Und as e:
            r, why = None, str(e)
        finally:
            self.inprogress.discard(k)
        self.memo[k] = r
        if r is None and rot:
            pass
        elif r is None:
            self.fails[rec.uid] = "loop of %s (line %d): %s" % (rec.fn.path, rec.line, why)
        else:
            self.fails.pop(rec.uid, None)
            self.matched += 1
        return r

    def at_entry(self, st, rec, m):
        """the states of st in which the loop has not advanced yet"""
        d = rec.sm.cursor(m) - rec.sm.v0(m)
        k = [a for a in d.atoms()]
        if len(k) != 1:
            return []
        sub = {k[0]: ZERO}
        s = st.copy()
        s.facts, s.bind, s._b = {}, {}, None
        if not s.assume_atom(eq(Num.atom(k[0]), ZERO)[1], True):
            return []
        cur = [s]
        for a, v in st.facts.items():
            a2 = subst(a, sub)
            nxt = []
            for x in cur:
                if a[0] == "dsc":
                    o = x.facts.get(a2)
                    w = v if o is None else o & v
                    if w:
                        x.facts[a2] = w
                        nxt.append(x)
                elif a2 == a:
                    nxt += [x] if x.assume_atom(a, v) else []
                elif a2[0] in ("lt0", "eq0"):
                    c = lt(a2[1], ZERO) if a2[0] == "lt0" else eq(a2[1], ZERO)
                    nxt += x.assume(c, v)
                else:
                    nxt += [x] if x.assume_atom(a2, v) else []
            cur = nxt
        return cur

    def headsegs(self, rec, loc):
        sm = rec.sm
        c = sm.classes[loc]
        if c[0] == "star":
            return (("star", sm.uid, sm.pathid(loc)),)
        if c[0] == "map":
            return (("map", sm.n, ("kv", sm.uid), c[1]),)
        if c[0] == "slice":
            return (("sl", c[1], c[2], sm.v0(c[3]) + c[4], sm.cursor(c[3]) + c[4]),)
        return None

    def match1(self, rec, m, off, S, rot):
        """heads of the reference for the heads of the loop; with rot, the first iteration is told apart"""
        sm = rec.sm
        cur = sm.cursor(m)
        mid = sm.pathid(m)
        gen = {}
        born = set()           # registers whose value after the first iteration is their start
        why = "no match"
        for rnd in range(6):
            base0 = dict(S.r)

            def general(x):
                r = {}
                for n, v in x.r.items():
                    b = base0.setdefault(n, v)
                    if n in gen and isinstance(b, tuple) and b and b[0] in ("seq", "log"):
                        v = self.extend(b, gen[n])
                    r[n] = v
                return SS(x.lab, cur - off, **r)
            apps = {}          # register -> [(alt, appended segments)]
            moved = lt(sm.v0(m), cur)
            sub0 = {a: ZERO for a in (cur - sm.v0(m)).atoms()}
            if rot:
                H, todo = {}, []
                for alt in rec.alts:
                    new = alt["new"].get(mid)
                    if alt["frm"] != rec.first:
                        continue
                    if new is None:
                        return None, "the cursor is lost"
                    for st0 in self.at_entry(alt["st"], rec, m):
                        for r in self.run(S, st0, frozenset((rec.uid,)), until=new - off):
                            if r[0] != "pause":
                                return None, "the first iteration leaves the reference in %s (%s)" % (r[1], r[0] if r[0] != "halt" else r[3])
                            S2, to = r[1], alt["to"]
                            for n in S2.r:
                                v = S2.r[n]
                                if n not in S.r and isinstance(v, tuple) and v and v[0] == "seq" and n not in born:
                                    base0[n] = EMPTY
                            T = general(S2)
                            if to not in H:
                                H[to] = T
                                todo.append(to)
                            elif H[to].key() != T.key():
                                return None, "first iterations end in different states"
                            for n in S2.r:
                                v = S2.r[n]
                                if n in S.r and isinstance(v, tuple) and v and v[0] in ("seq", "log"):
                                    ap = self.app(S.r[n], v)
                                    if ap is None:
                                        return None, "register %s" % n
                                    apps.setdefault(n, []).append((alt, ap, r[2], sub0))
                                elif n in S.r and self.cmp.eq(r[2], v, S.r[n]) is not True:
                                    return None, "register %s" % n
                                elif n not in S.r and isinstance(v, tuple) and v and v[0] == "seq":
                                    apps.setdefault(n, []).append((alt, () if n in born else v[1], r[2], sub0))
            else:
                H = {rec.first: general(S)}
                todo = [rec.first]
            ok = True
            seen = set()
            while todo and ok:
                k = todo.pop(0)
                if k in seen:
                    continue
                seen.add(k)
                for ai, alt in enumerate(rec.alts):
                    if alt["frm"] != k:
                        continue
                    new = alt["new"].get(mid)
                    if new is None:
                        return None, "the cursor is lost"
                    sts = alt["st"].copy().assume(moved, True) if rot else [alt["st"].copy()]
                    for r in [y for x in sts for y in self.run(H[k], x, frozenset((rec.uid,)), until=new - off)]:
                        if r[0] != "pause":
                            return None, "an iteration leaves the reference in %s (%s)" % (r[1], r[0] if r[0] != "halt" else r[3])
                        S2 = r[1]
                        to = alt["to"]
                        if to not in H:
                            H[to] = general(S2)
                            todo.append(to)
                        T = H[to]
                        if T.lab != S2.lab or set(T.r) != set(S2.r):
                            return None, "reference states %s and %s at one loop head" % (T, S2)
                        for n in T.r:
                            base = T.r[n]
                            if n in H[k].r and isinstance(base, tuple) and base and base[0] in ("seq", "log"):
                                x, y = H[k].r[n], S2.r[n]
                                ap = self.app(x, y)
                                if ap is None:
                                    if self.cmp.eq(r[2], base, y) is not True:
                                        return None, "register %s of %s" % (n, S2)
                                    continue
                                apps.setdefault(n, []).append((alt, ap, r[2], {}))
                            elif self.cmp.eq(r[2], base, S2.r[n]) is not True:
                                return None, "register %s of %s changes" % (n, S2)
            # appended registers need a location that grows in step
            again = False
            for n, l in apps.items():
                if all(not ap for _, ap, _, _ in l) and n not in gen:
                    continue
                hit = None
                for loc in sorted(sm.classes, key=repr):
                    if sm.classes[loc][0] not in ("star", "map", "slice"):
                        continue
                    pid = sm.pathid(loc)
                    if all(alt["app"].get(pid) is not None and self.cmp.eq(s, subst(("seq", tuple(alt["app"][pid])), sub), ("seq", tuple(ap))) is True for alt, ap, s, sub in l):
                        hit = self.headsegs(rec, loc)
                        break
                if hit is None and rot and n not in S.r and n not in born:
                    born.add(n)
                    again = True
                    continue
                if hit is None:
                    return None, "what an iteration adds (%s) differs from the reference" % n
                if gen.get(n) != hit:
                    gen[n] = hit
                    again = True
            if not again:
                return H, ""
        return None, why

    def extend(self, v, segs):
        if v[0] == "log":
            return ("log", v[1], mkseq(v[2][1] + segs))
        return mkseq(v[1] + segs)

    def app(self, x, y):
        if x[0] == "log" and y[0] == "log":
            return appended(x[2], y[2]) if self_eq(x[1], y[1]) else None
        return appended(x, y)


def self_eq(a, b):
    return a == b
