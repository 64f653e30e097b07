"""Instances of abstract lexer states.

A state of the analysis stands for the texts that satisfy its facts.  When a state in which code and
reference disagree mentions only a bounded part of the text, an instance is looked for: characters,
drawn from what the state allows at each place, under which every fact of the state evaluates to what
the state says and the two results evaluate to different things.  A disagreement that has an instance
is not an artefact of the abstraction; the instance is part of the report."""
import math
import random
import re
from fractions import Fraction
from engine.terms import Num
from engine import chars
from engine.values import contains

RANGE = {}
for _w in (8, 16, 32, 64, 128):
    RANGE["u%d" % _w] = (0, 2 ** _w - 1)
    RANGE["i%d" % _w] = (-2 ** (_w - 1), 2 ** (_w - 1) - 1)
RANGE["usize"], RANGE["isize"] = RANGE["u64"], RANGE["i64"]
FLOATRE = re.compile(r"[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?\Z", re.ASCII)


class No(Exception):
    """not an evaluable term"""


def parse(ty, t):
    """str::parse: a number, or None for an error"""
    if ty in RANGE:
        if not re.match(r"[+-]?[0-9]+\Z", t):
            return None
        x = int(t)
        lo, hi = RANGE[ty]
        if lo == 0 and t[0] == "-":
            return None
        return Fraction(x) if lo <= x <= hi else None
    if FLOATRE.match(t):
        return Fraction(t.rstrip(".") if t.endswith(".") else t)
    if t.lstrip("+-").lower() in ("inf", "infinity", "nan"):
        raise No("float word")
    return None


class Env:
    def __init__(self, key, text):
        self.key, self.text = key, text
        self.memo = {}

    def pos(self, e):
        r = c = 1
        for ch in self.text[:e]:
            if ch == 10:
                r, c = r + 1, 1
            else:
                c += 1
        return r, c

    def int(self, n):
        x = self.num(n)
        if isinstance(x, float) or x.denominator != 1:
            raise No("integer")
        return int(x)

    def poly(self, p):
        r = Fraction(0)
        for mono, c in p.t.items():
            t = c
            for k, e in mono:
                t = t * self.atom(k) ** e
            r += t
        return r

    def num(self, n):
        c = n.const()
        if c is not None:
            return c
        a = self.poly(n.n)
        b = self.poly(n.d)
        if b == 0:
            raise No("division")
        return a / b

    def atom(self, k):
        if k in self.memo:
            return self.memo[k]
        r = self.memo[k] = self.atom1(k)
        return r

    def atom1(self, k):
        if not (isinstance(k, tuple) and k):
            raise No(k)
        h = k[0]
        if h == "el" and len(k) == 4 and k[1] == self.key:
            i = self.int(k[2])
            if not 0 <= i < len(self.text):
                raise No("outside")
            return Fraction(self.text[i])
        if h == "len":
            if k[1] == self.key:
                return Fraction(len(self.text))
            raise No(k)
        if h in ("row", "col") and k[1] == self.key:
            i = self.int(k[2])
            if not 0 <= i <= len(self.text):
                raise No("outside")
            return Fraction(self.pos(i)[h == "col"])
        if h == "parse":
            x = parse(k[1], self.str(k[2]))
            if x is None:
                raise No("no number")
            return x
        if h in ("powf", "ipow") and len(k) == 3:
            a, b = self.num(k[1]), self.num(k[2])
            if abs(b) > 4000:
                if h == "ipow" and b > 0 and a > 1:
                    return a ** 4000
                raise No("range")
            if not isinstance(b, float) and b.denominator == 1:
                if a == 0 and b < 0:
                    raise No("range")
                return a ** int(b) if not isinstance(a, float) else a ** int(b)
            return math.pow(float(a), float(b))
        if h == "trunc":
            return Fraction(math.trunc(self.num(k[1])))
        if h == "floor":
            return Fraction(math.floor(self.num(k[1])))
        if h == "wrapcast":
            lo, hi = RANGE[k[1]]
            return Fraction((self.int(k[2]) - lo) % (hi - lo + 1) + lo)
        if h == "satcast":
            lo, hi = RANGE[k[1]]
            return Fraction(max(lo, min(hi, self.int(k[2]))))
        if h in ("idiv", "imod"):
            a, b = self.int(k[1]), self.int(k[2])
            if b == 0:
                raise No("division")
            q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
            return Fraction(q if h == "idiv" else a - q * b)
        raise No(k)

    def seq(self, v):
        """the elements of a sequence"""
        if isinstance(v, tuple) and v and v[0] == "vref":
            return self.seq(v[1])
        if not (isinstance(v, tuple) and v and v[0] in ("seq", "arr")):
            raise No(v)
        if v[0] == "arr":
            return [self.val(x) for x in v[1]]
        out = []
        for s in v[1]:
            if s[0] == "e":
                out.append(self.val(s[1]))
            elif s[0] == "lit":
                out += [Fraction(ord(c)) for c in s[1]]
            elif s[0] == "sl" and s[1] == self.key:
                a, b = self.int(s[3]), self.int(s[4])
                if not 0 <= a <= b <= len(self.text):
                    raise No("outside")
                out += [Fraction(c) for c in self.text[a:b]]
            elif s[0] == "opq" and isinstance(s[1], tuple) and len(s[1]) == 2:
                from engine import strings
                if s[1][0] not in strings.FNS:
                    raise No(s)
                out += [Fraction(ord(c)) for c in strings.FNS[s[1][0]](self.str(s[1][1]))]
            else:
                raise No(s)
        return out

    def str(self, v):
        t = self.seq(v)
        try:
            return "".join(chr(int(c)) for c in t)
        except (TypeError, ValueError):
            raise No("text")

    def val(self, v):
        if isinstance(v, Num):
            return self.num(v)
        if v is True or v is False:
            return v
        if isinstance(v, tuple) and v:
            if v[0] == "adt":
                return ("adt", v[1], v[2], tuple(self.val(x) for x in v[3]))
            if v[0] == "tup":
                return ("tup",) + tuple(self.val(x) for x in v[1])
            if v[0] in ("seq", "arr", "vref"):
                return ("seq",) + tuple(self.seq(v)) if v[0] != "vref" else self.val(v[1])
            if v[0] == "ite":
                return self.val(v[2] if self.cond(v[1]) else v[3])
        raise No(v)

    def cond(self, c):
        if c is True or c is False:
            return c
        if c[0] == "A":
            return self.fact(c[1])
        if c[0] == "N":
            return not self.cond(c[1])
        if c[0] == "&":
            return all(self.cond(x) for x in c[1])
        if c[0] == "I":
            return self.cond(c[2] if self.cond(c[1]) else c[3])
        raise No(c)

    def fact(self, a):
        if a[0] == "lt0":
            return self.num(a[1]) < 0
        if a[0] == "eq0":
            return self.num(a[1]) == 0
        if a[0] == "cp":
            return chars.pred(a[1], self.int(a[2]))
        if a[0] == "ovf" and len(a) == 4 and isinstance(a[2], Num):
            lo, hi = RANGE[a[1]]
            x = self.num(a[2])
            return not lo <= x <= hi
        if a[0] == "b" and isinstance(a[1], tuple) and a[1] and a[1][0] == "parses":
            return parse(a[1][1], self.str(a[1][2])) is not None
        if a[0] == "streq":
            return self.str(a[1]) == a[2]
        if a[0] == "seqeq":
            return self.seq(a[1]) == self.seq(a[2])
        raise No(a)


def same(a, b):
    if isinstance(a, (Fraction, float)) and isinstance(b, (Fraction, float)):
        if not isinstance(a, float) and not isinstance(b, float) and a.denominator == b.denominator == 1 and max(abs(a), abs(b)) < 2 ** 24:
            return a == b
        try:
            x, y = float(a), float(b)
        except OverflowError:
            return a == b
        return x == y or abs(x - y) <= 1e-5 * (abs(x) + abs(y))
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b


def places(st, key):
    """what is known about each character with a fixed index; the smallest possible length"""
    got, top = {}, 0
    st.charset(None)
    cs = st._b[4]
    seen = set()

    def walk(x):
        nonlocal top
        if isinstance(x, Num):
            for k in x.atoms():
                walk(k)
        elif isinstance(x, tuple):
            if x in seen:
                return
            seen.add(x)
            if len(x) == 4 and x[0] == "el" and x[1] == key and isinstance(x[2], Num):
                i = st.resolve(x[2]).const()
                if i is None:
                    raise No("index")
                i = int(i)
                top = max(top, i + 1)
                m = cs.get(x, chars.FULL)
                b = st.bind.get(x)
                if b is not None and b[0].const() is not None:
                    c = int(b[0].const())
                    if c not in chars.DOMAIN:
                        got[i] = (c,)
                        return
                    m &= 1 << chars.DOMAIN.index(c)
                if not isinstance(got.get(i), tuple):
                    got[i] = got.get(i, chars.FULL) & m
                return
            if x == key:
                return
            for y in x:
                if isinstance(y, (tuple, Num)):
                    walk(y)
    for a in st.facts:
        walk(a)
    return got, top


PREFER = [ord(c) for c in "0123456789aenZ.-+_ \n\t\"\\[]#,"] + [0xE9, 0x967, 0xB2]


def instance(st, key, check, tries=400):
    """a text that satisfies every fact and for which check(env) holds, or None"""
    if st.unk:
        return None
    try:
        got, top = places(st, key)
    except No:
        return None
    n = st.resolve(Num.atom(("len", key))).const()
    lens = [int(n)] if n is not None else [top, top + 1]
    if max(lens) > 64:
        return None
    rnd = random.Random(11)
    facts = [(a, v) for a, v in st.facts.items() if v is True or v is False]
    for a, v in st.facts.items():
        if v is not True and v is not False:
            return None
    for n in lens:
        cand = []
        for i in range(n):
            m = got.get(i, chars.FULL)
            if isinstance(m, tuple):
                cand.append(list(m))
                continue
            cs = [c for j, c in enumerate(chars.DOMAIN) if m >> j & 1 and c != 13]
            pf = [c for c in PREFER if c in cs]
            cand.append((pf * 3 + cs) if pf else cs)
        if not all(cand):
            continue
        for t in range(tries if n else 1):
            env = Env(key, [rnd.choice(c) for c in cand])
            try:
                ok = True
                for j, (a, v) in enumerate(facts):
                    if env.fact(a) != v:
                        ok = False
                        if j > 3:
                            # the fact that failed goes first next time
                            facts.insert(0, facts.pop(j))
                        break
                if ok and check(env):
                    return "".join(map(chr, env.text))
            except No as e:
                if ok and t > 40:
                    break
                continue
            except (OverflowError, ZeroDivisionError, ValueError, KeyError):
                continue
    return None
