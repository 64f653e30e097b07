"""Structured values of the abstract domain and operations on them.

  Num                      numbers, characters (code points)
  True/False/('A'|'N'|'&'|'I',...)   conditions
  ('adt',ty,variant,fields) ('tup',fields) ('arr',elems) ('clo',ty,captures) ('fn',callee)
  ('ref',root,path)        a mutable reference, i.e. a place
  ('vref',value)           a shared reference: what it refers to cannot change while it lives
  ('box',root)             an owned heap cell
  ('seq',segments)         Vec, String, str, slices of unknown length
  ('sym',key,ty)           an unknown enum value, expanded on demand
  ('dsc',key,ty)           its discriminant
  ('ite',c,a,b)            gated value
  ('it',kind,...)          iterators
  ('unk',why)              outside the model
segments:
  ('e',v)  ('lit',text)  ('sl',key,ety,lo,hi)  ('map',n,var,template)  ('star',uid,path)  ('opq',key)
"""
from .terms import Num, Poly, cite, cnot, cand, lt, le, eq, ZERO, ONE, P1

NONNEG = set()
ONE_ = Num.c(1)


def is_cond(v):
    return v is True or v is False or (isinstance(v, tuple) and v and v[0] in ("A", "N", "&", "I"))


def nonneg_atom(k):
    NONNEG.add(k)
    return Num.atom(k)


def is_nonneg_atom(k):
    return k in NONNEG or (isinstance(k, tuple) and k and k[0] in ("len", "ls", "cnt", "adv", "row", "col", "half", "imodn"))


def ite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if a is b or a == b:
        return a
    if is_cond(a) and is_cond(b):
        return cite(c, a, b)
    if isinstance(a, tuple) and isinstance(b, tuple) and a and b and a[0] == b[0]:
        if a[0] == "adt" and a[1] == b[1] and a[2] == b[2]:
            return ("adt", a[1], a[2], tuple(ite(c, x, y) for x, y in zip(a[3], b[3])))
        if a[0] in ("tup", "arr") and len(a[1]) == len(b[1]):
            return (a[0], tuple(ite(c, x, y) for x, y in zip(a[1], b[1])))
        if a[0] == "clo" and a[1] == b[1]:
            return ("clo", a[1], tuple(ite(c, x, y) for x, y in zip(a[2], b[2])))
        if a[0] == "vref":
            return ("vref", ite(c, a[1], b[1]))
        if a[0] == "it" and a[1] == b[1] and len(a) == len(b):
            return ("it", a[1]) + tuple(ite(c, x, y) for x, y in zip(a[2:], b[2:]))
    if isinstance(a, tuple) and a and a[0] == "undef":
        return b
    if isinstance(b, tuple) and b and b[0] == "undef":
        return a
    return ("ite", c, a, b)


def lift1(f, v):
    if isinstance(v, tuple) and v and v[0] == "ite":
        return ite(v[1], lift1(f, v[2]), lift1(f, v[3]))
    return f(v)


def pick(v, c, side):
    """v where the condition c is known to be side"""
    if isinstance(v, tuple) and v and v[0] == "ite":
        if v[1] == c:
            return pick(v[2] if side else v[3], c, side)
        a, b = pick(v[2], c, side), pick(v[3], c, side)
        return v if a is v[2] and b is v[3] else ite(v[1], a, b)
    return v


def lift2(f, a, b):
    if isinstance(a, tuple) and a and a[0] == "ite":
        c = a[1]
        return ite(c, lift2(f, a[2], pick(b, c, True)), lift2(f, a[3], pick(b, c, False)))
    if isinstance(b, tuple) and b and b[0] == "ite":
        return ite(b[1], lift2(f, a, b[2]), lift2(f, a, b[3]))
    return f(a, b)


def is_unk(v):
    return isinstance(v, tuple) and bool(v) and v[0] == "unk"


# ---------------------------------------------------------------- substitution
_sub_memo = {}


def subst(x, m):
    """replace atoms (keys of m) by Nums, everywhere"""
    if isinstance(x, Num):
        hit = False
        for p in (x.n, x.d):
            for mono in p.t:
                for k, _ in mono:
                    if k in m or subst_key(k, m) is not k:
                        hit = True
        if not hit:
            return x
        return _psub(x.n, m) / _psub(x.d, m) if x.d is not P1 else _psub(x.n, m)
    if isinstance(x, tuple):
        if x in m:
            r = m[x]
            return r
        out = None
        for i, e in enumerate(x):
            r = subst(e, m) if isinstance(e, (tuple, Num)) else e
            if r is not e:
                if out is None:
                    out = list(x)
                out[i] = r
        return x if out is None else _fix(tuple(out))
    return x


def _fix(t):
    # re-normalise conditions whose atoms became constant
    if t and t[0] == "A" and isinstance(t[1], tuple) and t[1] and t[1][0] in ("lt0", "eq0"):
        c = t[1][1].const()
        if c is not None:
            return (c < 0) if t[1][0] == "lt0" else (c == 0)
        return t
    if t and t[0] == "N":
        return cnot(t[1])
    if t and t[0] == "&":
        return cand(*t[1])
    if t and t[0] == "I":
        return cite(t[1], t[2], t[3])
    if t and t[0] == "ite":
        return ite(t[1], t[2], t[3])
    if t and t[0] == "seq":
        return mkseq(t[1])
    return t


def subst_key(k, m):
    if isinstance(k, tuple):
        r = subst(k, m)
        if isinstance(r, Num):
            return k
        return r
    return k


def _psub(p, m):
    r = ZERO
    for mono, c in p.t.items():
        t = Num.c(c)
        for k, e in mono:
            if k in m:
                a = m[k]
            else:
                k2 = subst_key(k, m)
                a = atom_num(k2)
            for _ in range(e):
                t = t * a
        r = r + t
    return r


def atom_num(k):
    return Num.atom(k)


def contains(x, pred):
    """does any atom/key/sub-tuple satisfy pred"""
    if isinstance(x, Num):
        for p in (x.n, x.d):
            for mono in p.t:
                for k, _ in mono:
                    if pred(k) or contains(k, pred):
                        return True
        return False
    if isinstance(x, tuple):
        if pred(x):
            return True
        return any(contains(e, pred) for e in x if isinstance(e, (tuple, Num)))
    return False


def replace(x, f):
    """bottom-up rewriting of tuples: f(tuple) -> tuple or None"""
    if isinstance(x, Num):
        return x
    if isinstance(x, tuple):
        out = None
        for i, e in enumerate(x):
            if isinstance(e, tuple):
                r = replace(e, f)
                if r is not e:
                    if out is None:
                        out = list(x)
                    out[i] = r
        y = x if out is None else tuple(out)
        r = f(y)
        return y if r is None else r
    return x


# ---------------------------------------------------------------- sequences
def elem_key(v):
    """(key, idx, ) if v is the idx-th element of a symbolic array"""
    if isinstance(v, Num):
        k = v.single_atom()
        if isinstance(k, tuple) and k and k[0] == "el":
            return k
    elif isinstance(v, tuple) and v and v[0] == "sym":
        k = v[1]
        if isinstance(k, tuple) and k and k[0] == "el":
            return k
    return None


def seglen(s):
    if s[0] == "e":
        return ONE_
    if s[0] == "lit":
        return Num.c(len(s[1]))
    if s[0] == "sl":
        return s[4] - s[3]
    if s[0] == "map":
        return s[1]
    if s[0] == "star":
        return nonneg_atom(("len", s))
    if s[0] == "opq":
        return nonneg_atom(("len", s[1]))
    raise AssertionError(s)


def seqlen(v):
    n = ZERO
    if v[0] == "arr":
        return Num.c(len(v[1]))
    for s in v[1]:
        n = n + seglen(s)
    return n


def mkseq(segs):
    out = []
    for s in segs:
        if s[0] == "e":
            k = elem_key(s[1])
            if k is not None and len(k) == 4:
                s = ("sl", k[1], k[3], k[2], k[2] + ONE_)
        if s[0] == "e" and isinstance(s[1], Num) and s[1].const() is not None and False:
            pass
        if s[0] == "lit" and s[1] == "":
            continue
        if s[0] == "sl" and s[3] == s[4]:
            continue
        if s[0] == "map" and s[1].const() == 0:
            continue
        if out:
            p = out[-1]
            if p[0] == "sl" and s[0] == "sl" and p[1] == s[1] and p[4] == s[3]:
                out[-1] = ("sl", p[1], p[2], p[3], s[4])
                continue
            if p[0] == "lit" and s[0] == "lit":
                out[-1] = ("lit", p[1] + s[1])
                continue
        out.append(s)
    return ("seq", tuple(out))


def seqcat(a, b):
    return mkseq(as_segs(a) + as_segs(b))


def as_segs(v):
    if v[0] == "arr":
        return tuple(("e", x) for x in v[1])
    return v[1]


EMPTY = ("seq", ())
