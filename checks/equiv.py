"""Equality of gated values: proof by case splitting with linear elimination, refutation by a witness point.

A difference is reported only with a witness (values of the inputs at which the two
expressions evaluate differently); equality is accepted only when every feasible case
agrees.  Anything in between is undecided.
"""
import math
import random
from fractions import Fraction
from engine.terms import Num, Poly, cnot, cand, cond_atoms, cond_eval, lt, eq, ZERO, okey
from engine.values import is_cond, ite

ONE = Num.c(1)


class Unevaluable(Exception):
    pass


class DivByZero(Unevaluable):
    pass


# ---------------------------------------------------------------- evaluation at a point
def atoms_of(v, out, seen=None):
    """base atoms (those without an interpretation)"""
    if isinstance(v, Num):
        for k in v.atoms():
            key_atoms(k, out)
    elif is_cond(v):
        for a in cond_atoms(v):
            if a[0] in ("lt0", "eq0"):
                atoms_of(a[1], out)
            elif a[0] == "nan":
                atoms_of(a[1], out)
                out.add(a)
            else:
                out.add(a)
    elif isinstance(v, tuple) and v and v[0] == "ite":
        atoms_of(v[1], out)
        atoms_of(v[2], out)
        atoms_of(v[3], out)


INTERP = {"sqrt", "floor", "ceil", "idiv", "imod", "trunc", "fdiv", "frem", "round", "BitAnd", "BitOr", "BitXor", "Shl", "Shr", "signum",
          "hypot", "div0"}


def opaque(vals):
    """an atom that stands for something outside the model: its value is not free, so no witness may pick one"""
    at = set()
    for v in vals:
        atoms_of(v, at)
    for a in at:
        if isinstance(a, tuple) and not (a and (a[0] == "." or a[0] == "nan")):
            return a
    return None


def key_atoms(k, out):
    if isinstance(k, tuple) and k and k[0] in INTERP:
        for x in k[1:]:
            if isinstance(x, Num):
                atoms_of(x, out)
        return
    out.add(k)


def ev_atom(k, env):
    if isinstance(k, tuple) and k and k[0] in INTERP:
        xs = [ev(x, env) for x in k[1:] if isinstance(x, Num)]
        h = k[0]
        try:
            if h == "sqrt":
                x = xs[0]
                if x < 0:
                    raise Unevaluable
                if isinstance(x, Fraction):
                    n, d = math.isqrt(x.numerator), math.isqrt(x.denominator)
                    if n * n == x.numerator and d * d == x.denominator:
                        return Fraction(n, d)
                return math.sqrt(x)
            if h == "floor":
                return Fraction(math.floor(xs[0]))
            if h == "ceil":
                return Fraction(math.ceil(xs[0]))
            if h == "trunc":
                return Fraction(math.trunc(xs[0]))
            if h in ("idiv", "imod"):
                a, b = xs
                if b == 0:
                    raise Unevaluable
                q = math.trunc(Fraction(a) / Fraction(b))
                return Fraction(q) if h == "idiv" else a - q * b
            if h == "hypot":
                return math.sqrt(xs[0] * xs[0] + xs[1] * xs[1])
            if h in ("BitAnd", "BitOr", "BitXor", "Shl", "Shr"):
                a, b = int(xs[0]), int(xs[1])
                return Fraction({"BitAnd": a & b, "BitOr": a | b, "BitXor": a ^ b}.get(h) if h[0] == "B" else (a << b if h == "Shl" else a >> b))
        except (OverflowError, ValueError):
            raise Unevaluable
        raise Unevaluable
    return env[k]


def ev(v, env):
    if isinstance(v, Num):
        def poly(p):
            r = Fraction(0)
            for m, c in p.t.items():
                t = c
                for k, e in m:
                    x = ev_atom(k, env)
                    t = t * x ** e
                r = r + t
            return r
        n, d = poly(v.n), poly(v.d)
        if d == 0:
            raise DivByZero
        return n if d == 1 else (n / d)
    if is_cond(v):
        return evc(v, env)
    if isinstance(v, tuple) and v and v[0] == "ite":
        return ev(v[2] if evc(v[1], env) else v[3], env)
    raise Unevaluable


def evc(c, env):
    def f(a):
        if a[0] == "lt0":
            return ev(a[1], env) < 0
        if a[0] == "eq0":
            return ev(a[1], env) == 0
        return env[a]
    r = cond_eval(c, f)
    if r is None:
        raise Unevaluable
    return r


def differ(x, y):
    if isinstance(x, bool) or isinstance(y, bool):
        return x != y
    if isinstance(x, float) or isinstance(y, float):
        return abs(float(x) - float(y)) > 1e-9 * max(1.0, abs(float(x)), abs(float(y)))
    return x != y


def consts_of(v, out):
    if isinstance(v, Num):
        c, l = ZERO, v.linear()
        if l:
            out.add(abs(l[0]))
        else:
            for m, c in v.n.t.items():
                if m == ():
                    out.add(abs(c))
    elif is_cond(v):
        for a in cond_atoms(v):
            if a[0] in ("lt0", "eq0"):
                consts_of(a[1], out)
    elif isinstance(v, tuple) and v and v[0] == "ite":
        for x in v[1:]:
            consts_of(x, out)


def points(vals, pre, ints, n=400, seed=1):
    """sample points satisfying pre"""
    at = set()
    for v in vals:
        atoms_of(v, at)
    for c in pre:
        atoms_of(c, at)
    at = sorted(at, key=repr)
    cs = set()
    for v in list(vals) + list(pre):
        consts_of(v, cs)
    pool = [Fraction(i) for i in (-3, -2, -1, 0, 1, 2, 3)]
    extra = []
    if not ints:
        cl = sorted(c for c in cs if c <= 1000)
        mids = [(a + b) / 2 for a, b in zip(cl, cl[1:])]
        for c in cl + mids:
            extra += [c, -c]
            if c > 0:
                extra.append(Fraction(math.sqrt(c)).limit_denominator(10 ** 6))
        extra += [Fraction(1, 2), Fraction(5, 3)]
    else:
        extra = [c for c in cs if c == int(c) and c < 10 ** 6] + [c + 1 for c in cs if c == int(c) and c < 10 ** 6]
    rnd = random.Random(seed)
    got = 0
    for i in range(n * 8):
        env = {}
        mode = i % 4
        p = pool + extra if mode == 1 else ([Fraction(0), Fraction(1), Fraction(-1)] if mode == 2 else pool)
        for a in at:
            if isinstance(a, tuple) and a and a[0] in ("nan", "b", "dv", "streq", "cp", "ovf"):
                env[a] = rnd.random() < (0.15 if a[0] == "nan" else 0.5)
            elif a == "INF":
                env[a] = Fraction(10 ** 9)
            else:
                x = rnd.choice(p)
                if isinstance(a, tuple) and a and a[0] in ("len", "cnt", "ls", "adv") or a in _nonneg():
                    x = Fraction(math.floor(abs(x)))
                env[a] = x
        try:
            if all(evc(c, env) for c in pre):
                got += 1
                yield env
        except (Unevaluable, KeyError, OverflowError):
            pass
        if got >= n:
            return


def _nonneg():
    from engine.values import NONNEG
    return NONNEG


# ---------------------------------------------------------------- feasibility of a conjunction of literals
def lin(n):
    """linear form over monomials: (dict, const) or None"""
    if not n.is_poly():
        return None
    d = {}
    c = Fraction(0)
    for m, v in n.n.t.items():
        if m == ():
            c = v
        else:
            d[m] = v
    return d, c


def _square(m):
    return all(e % 2 == 0 for _, e in m)


def feasible(lits, ints=False):
    """may the conjunction [(atom, truth)] hold?  False only if certainly not"""
    bools = {}
    cons = []          # (dict, const, strict): expr <= 0 or < 0
    for a, v in lits:
        if a[0] == "lt0":
            l = lin(a[1])
            if l is None:
                continue
            d, c = l
            if v:
                if ints:
                    cons.append((d, c + 1, False))
                else:
                    cons.append((d, c, True))
            else:
                cons.append(({k: -x for k, x in d.items()}, -c, False))
        elif a[0] == "eq0":
            l = lin(a[1])
            if l is None:
                continue
            d, c = l
            if v:
                cons.append((d, c, False))
                cons.append(({k: -x for k, x in d.items()}, -c, False))
            else:
                # excluded value: only refutes when the rest forces equality
                pass
        else:
            if bools.get(a, v) != v:
                return False
            bools[a] = v
    vs = set()
    for d, c, s in cons:
        vs |= set(d)
    for m in vs:
        k = m[0][0]
        if len(m) == 1 and (k == "INF"):
            cons.append(({m: Fraction(-1)}, Fraction(0), True))
        elif _square(m) or (len(m) == 1 and (k in _nonneg() or (isinstance(k, tuple) and k[0] in ("len", "sqrt", "cnt", "ls")))):
            cons.append(({m: Fraction(-1)}, Fraction(0), False))
    if _empty_range(lits, ints):
        return False
    sq = [(m, ((m[0][0], 1),)) for m in vs if len(m) == 1 and m[0][1] == 2]

    def sat(cons):
        """with: a variable that cannot be zero has a positive square"""
        if not _fm(cons):
            return False
        more = []
        for m2, m1 in sq:
            if not _fm(cons + [({m1: Fraction(1)}, Fraction(0), False), ({m1: Fraction(-1)}, Fraction(0), False)]):
                more.append(({m2: Fraction(-1)}, Fraction(0), True))
        return _fm(cons + more) if more else True
    if sat(cons):
        for a, v in lits:
            if a[0] == "eq0" and not v:
                l = lin(a[1])
                if l is None:
                    continue
                d, c = l
                if not sat(cons + [(d, c, True)]) and not sat(cons + [({k: -x for k, x in d.items()}, -c, True)]):
                    return False
        return True
    return False


def _empty_range(lits, ints):
    """an integer confined to a finite range all of whose members are excluded"""
    rng = {}
    for a, v in lits:
        if a[0] not in ("lt0", "eq0"):
            continue
        l = a[1].linear()
        if not l or len(l[1]) != 1:
            continue
        (k, c), = l[1].items()
        if not (ints or k in _nonneg()):
            continue
        lo, hi, ex = rng.setdefault(k, [0 if k in _nonneg() else None, None, set()])
        x = -l[0] / c
        r = rng[k]
        if a[0] == "eq0":
            if v:
                r[0] = x if lo is None else max(lo, x)
                r[1] = x if hi is None else min(hi, x)
            else:
                ex.add(x)
        else:
            # c*k + d < 0 (or >= 0)
            up = (c > 0) == v
            strict = v
            if up:
                b = math.ceil(x) - 1 if strict else math.floor(x)
                r[1] = b if hi is None else min(hi, b)
            else:
                b = math.floor(x) + 1 if strict else math.ceil(x)
                r[0] = b if lo is None else max(lo, b)
    for k, (lo, hi, ex) in rng.items():
        if lo is not None and hi is not None and hi - lo < 64 and all(Fraction(i) in ex for i in range(math.ceil(lo), math.floor(hi) + 1)):
            return True
    return False


def _fm(cons):
    """Fourier-Motzkin: True if satisfiable over the rationals (or effort exceeded)"""
    cons = list(cons)
    while True:
        vs = {}
        for d, c, s in cons:
            for k, x in d.items():
                p, n = vs.get(k, (0, 0))
                vs[k] = (p + 1, n) if x > 0 else (p, n + 1)
        for d, c, s in cons:
            if not d and (c > 0 or (s and c >= 0)):
                return False
        if not vs:
            return True
        k = min(vs, key=lambda q: (vs[q][0] * vs[q][1] - vs[q][0] - vs[q][1], okey(q)))
        pos = [x for x in cons if x[0].get(k, 0) > 0]
        neg = [x for x in cons if x[0].get(k, 0) < 0]
        rest = [x for x in cons if not x[0].get(k, 0)]
        for d1, c1, s1 in pos:
            for d2, c2, s2 in neg:
                a, b = d1[k], -d2[k]
                d = {}
                for q, x in d1.items():
                    d[q] = d.get(q, 0) + x / a
                for q, x in d2.items():
                    d[q] = d.get(q, 0) + x / b
                d = {q: x for q, x in d.items() if x}
                rest.append((d, c1 / a + c2 / b, s1 or s2))
        if len(rest) > 3000:
            return True
        seen = {}
        for d, c, s in rest:
            key = (frozenset(d.items()), s)
            if key not in seen or seen[key][1] < c:
                seen[key] = (d, c, s)
        cons = list(seen.values())


# ---------------------------------------------------------------- proof by case splitting
def simp(v, val):
    """value under the partial assignment"""
    if isinstance(v, tuple) and v and v[0] == "ite":
        r = cond_eval(v[1], lambda a: val.get(a))
        if r is None:
            x, y = simp(v[2], val), simp(v[3], val)
            return ite(simpc(v[1], val), x, y)
        return simp(v[2] if r else v[3], val)
    if is_cond(v):
        return simpc(v, val)
    return v


def simpc(c, val):
    from engine.terms import cite
    if c is True or c is False:
        return c
    if c[0] == "A":
        r = val.get(c[1])
        return c if r is None else r
    if c[0] == "N":
        return cnot(simpc(c[1], val))
    if c[0] == "&":
        return cand(*[simpc(x, val) for x in c[1]])
    if c[0] == "I":
        return cite(simpc(c[1], val), simpc(c[2], val), simpc(c[3], val))
    return c


def first_atom(v):
    if isinstance(v, tuple) and v and v[0] == "ite":
        a = first_atom(v[1])
        return a or first_atom(v[2]) or first_atom(v[3])
    if is_cond(v):
        a = cond_atoms(v)
        return a[0] if a else None
    return None


class Prover:
    def __init__(self, ints):
        self.ints = ints
        self.cases = 0

    def prove(self, a, b, pre):
        """True if a == b whenever all of pre hold"""
        self.cases = 0
        try:
            return self.split(a, b, list(pre), {}, 0)
        except RecursionError:
            return False

    def split(self, a, b, pre, val, depth):
        if a is b or a == b:
            return True
        self.cases += 1
        if self.cases > 6000:
            return False
        # discharge pre conditions first
        for i, c in enumerate(pre):
            c = simpc(c, val)
            if c is False:
                return True
            if c is True:
                continue
            at = cond_atoms(c)[0]
            return self.branch(at, a, b, pre[i:], val, depth)
        at = first_atom(a) or first_atom(b)
        if at is not None:
            return self.branch(at, a, b, [], val, depth)
        if isinstance(a, Num) and isinstance(b, Num):
            return self.numeq(a, b, val)
        return False

    def branch(self, at, a, b, pre, val, depth):
        for side in (True, False):
            v2 = dict(val)
            v2[at] = side
            if not feasible(list(v2.items()), self.ints):
                continue
            if not self.split(simp(a, v2), simp(b, v2), [simpc(c, v2) for c in pre], v2, depth + 1):
                return False
        return True

    def numeq(self, a, b, val):
        if a == b:
            return True
        d = a - b
        if not d.is_poly():
            d = Num(d.n)          # equal where defined
            if d.const() == 0:
                return True
        lits = list(val.items())
        if d.const() is not None:
            return d.const() == 0 or not feasible(lits, self.ints)
        x = lt(d, ZERO)
        y = lt(ZERO, d)
        if x not in (True, False) and y not in (True, False):
            if not feasible(lits + [(x[1], True)], self.ints) and not feasible(lits + [(y[1], True)], self.ints):
                return True
        # substitute known equalities
        from engine.values import subst
        for at, v in lits:
            if at[0] == "eq0" and v:
                l = at[1].linear()
                if not l:
                    continue
                for k, c in l[1].items():
                    rest = (at[1] - Num.atom(k) * Num.c(c)) * Num.c(-1 / c)
                    if subst(a, {k: rest}) == subst(b, {k: rest}):
                        return True
        # nonnegative square roots
        if any(isinstance(k, tuple) and k and k[0] == "sqrt" for k in a.atoms() | b.atoms()):
            if a * a == b * b:
                return True       # sign agreement was sampled by the caller
        return False


def compare(a, b, pre, ints, seed=1, n=400):
    """('ok', cases) | ('diff', witness env, va, vb) | ('undecided', why)"""
    if a is b or a == b:
        return ("ok", 0)
    for v in (a, b):
        if _has_unk(v):
            return ("undecided", "value outside the model: %s" % (_unk_of(v),))
    hits = 0
    op = opaque([a, b] + list(pre))
    for env in points([a, b], pre, ints, n, seed) if op is None else ():
        hits += 1
        try:
            y = ev(b, env)
            try:
                x = ev(a, env)
            except DivByZero:
                return ("diff", env, "division by zero", y)
        except (Unevaluable, KeyError, OverflowError, ZeroDivisionError):
            continue
        if differ(x, y):
            return ("diff", env, x, y)
    p = Prover(ints)
    if p.prove(a, b, [c for c in pre]):
        return ("ok", p.cases)
    if op is not None:
        return ("undecided", "depends on %s, which is outside the model" % (str(op)[:120],))
    return ("undecided", "no proof and no witness (%d points)" % hits)


def _has_unk(v):
    if isinstance(v, Num) or is_cond(v):
        return False
    if isinstance(v, tuple) and v and v[0] == "ite":
        return _has_unk(v[2]) or _has_unk(v[3])
    return True


def _unk_of(v):
    if isinstance(v, tuple) and v and v[0] == "ite":
        return _unk_of(v[2]) if _has_unk(v[2]) else _unk_of(v[3])
    return v if not isinstance(v, tuple) or len(repr(v)) < 200 else v[:2]
