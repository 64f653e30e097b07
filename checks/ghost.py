"""Positions as functions of the cursor.

row(k, e) and col(k, e) stand for the line and column of element e of the text k, by the
recurrence  row(0) = col(0) = 1;  after a newline (row + 1, 1);  after any other character
(row, col + 1).  A record that holds the text, a cursor and a pair of numbers is rewritten to
these atoms whenever the pair provably has that value.
"""
from engine.terms import Num, eq, ZERO
from engine.values import nonneg_atom, pick, ONE_

MAXSIM = 8


def row(k, e):
    return nonneg_atom(("row", k, e)) if e.const() != 0 else ONE_


def col(k, e):
    return nonneg_atom(("col", k, e)) if e.const() != 0 else ONE_


def ghosts(v):
    out = []
    if isinstance(v, Num):
        for a in v.atoms():
            if isinstance(a, tuple) and a and a[0] in ("row", "col"):
                out.append(a)
    return out


def simulate(st, text, e0, e, r, c):
    """position at e from the position (r, c) at e0; None if a newline test is open"""
    key, ety, base = text
    k = (e - e0).const()
    if k is None or k < 0 or k > MAXSIM:
        return None
    for j in range(int(k)):
        ch = nonneg_atom(("el", key, base + e0 + Num.c(j), ety))
        nl = st.decide(eq(ch, Num.c(10)))
        if nl is None:
            return None
        if nl:
            r, c = r + ONE_, ONE_
        else:
            c = c + ONE_
    return r, c


def base_of(r, c):
    """(text key, e0) on which a pair of numbers is based, or None"""
    g = ghosts(r) + ghosts(c)
    if not g:
        return None
    ks = {a[1] for a in g}
    es = {a[2] for a in g}
    if len(ks) != 1 or len(es) != 1:
        return None
    return next(iter(ks)), next(iter(es))


def equal_pos(st, text, e, r, c):
    """True / False / None: is (r, c) the position of element e of the text"""
    key = text[0]
    if r == row(key, e) and c == col(key, e):
        return True
    e = st.resolve(e)
    r, c = st.resolve(r), st.resolve(c)
    if r == row(key, e) and c == col(key, e):
        return True
    b = base_of(r, c)
    if b is None:
        if r.const() is None or c.const() is None:
            return None
        e0 = ZERO
    else:
        if b[0] != key:
            return None
        e0 = b[1]
    d = (e - e0).const()
    if d is None:
        return None
    if d >= 0:
        s = simulate(st, text, e0, e, row(key, e0), col(key, e0))
        if s is None:
            return None
        if s[0] == r and s[1] == c:
            return True
        return False if (differs(st, s[0], r) or differs(st, s[1], c)) else None
    s = simulate(st, text, e, e0, row(key, e), col(key, e))
    if s is None:
        # the later position is strictly greater in reading order
        if (r, c) == (row(key, e0), col(key, e0)):
            return False
        return None
    m = {("row", key, e0): s[0], ("col", key, e0): s[1]}
    from engine.values import subst
    r, c = subst(r, m), subst(c, m)
    if r == row(key, e) and c == col(key, e):
        return True
    return False if (differs(st, r, row(key, e)) or differs(st, c, col(key, e))) else None


def gated_pos(st, text, e, r, c, depth=0):
    """(r, c), which may be gated, is the position of element e in every case"""
    for x in (r, c):
        if isinstance(x, tuple) and x and x[0] == "ite":
            if depth > 3:
                return False
            for side in (True, False):
                rr, cc = pick(r, x[1], side), pick(c, x[1], side)
                for s in st.copy().assume(x[1], side):
                    if not gated_pos(s, text, e, rr, cc, depth + 1):
                        return False
            return True
        if not isinstance(x, Num):
            return False
    return equal_pos(st, text, e, r, c) is True


def differs(st, a, b):
    """the two numbers are certainly different"""
    d = st.resolve(a - b)
    if d.const() is not None:
        return d.const() != 0
    u = st.ub(d)
    if u is not None and u < 0:
        return True
    u = st.ub(-d)
    return u is not None and u < 0


class Norm:
    """norm_hook: rewrites position pairs next to a cursor"""

    def __init__(self, prog):
        self.prog = prog
        self.types = {}

    def layout(self, ty):
        """(field of the text, fields that are cursors, paths of pairs) of a record type, or None"""
        if ty in self.types:
            return self.types[ty]
        T = self.prog.tys
        t = T[ty]
        r = None
        if t["k"] == "adt" and not t["enum"] and t["v"]:
            text, cur, pairs, nums = None, [], [], []
            for i, f in enumerate(t["v"][0]["f"]):
                ft = T[f[1]]
                if ft["k"] == "adt" and ft["name"] == "std::vec::Vec" and T[ft["args"][0]]["k"] == "char":
                    text = i
                elif ft["k"] == "ref" and T[ft["to"]]["k"] == "slice" and T[T[ft["to"]]["of"]]["k"] == "char":
                    text = i
                elif ft["k"] == "uint":
                    cur.append(i)
                elif ft["k"] == "adt" and not ft["enum"] and ft["v"] and len(ft["v"][0]["f"]) == 2 and all(T[x[1]]["k"] == "uint" for x in ft["v"][0]["f"]):
                    pairs.append((i, "adt"))
                elif ft["k"] == "tuple" and len(ft["of"]) == 2 and all(T[x]["k"] == "uint" for x in ft["of"]):
                    pairs.append((i, "tup"))
            if text is not None and cur and (pairs or len(cur) >= 3):
                r = (text, cur, pairs)
        self.types[ty] = r
        return r

    def __call__(self, I, st):
        for root, v in list(st.mem.items()):
            if isinstance(v, tuple) and v and v[0] == "adt":
                w = self.rec(st, v)
                if w is not v:
                    st.mem[root] = w

    def rec(self, st, v):
        lay = self.layout(v[1])
        if lay is None or len(v[3]) == 0:
            return v
        text, curs, pairs = lay
        tx = v[3][text] if text < len(v[3]) else None
        if isinstance(tx, tuple) and tx and tx[0] == "vref":
            tx = tx[1]
        if not (isinstance(tx, tuple) and tx and tx[0] == "seq" and len(tx[1]) == 1 and tx[1][0][0] == "sl"):
            return v
        s = tx[1][0]
        if s[3] != ZERO:
            return v
        tkey = (s[1], s[2], ZERO)
        fs = list(v[3])
        ch = False
        if pairs and len(curs) == 1:
            e = fs[curs[0]]
            if isinstance(e, Num):
                for i, kind in pairs:
                    if i >= len(fs):
                        continue
                    p = fs[i]
                    f = p[3] if kind == "adt" and isinstance(p, tuple) and p[0] == "adt" else (p[1] if isinstance(p, tuple) and p and p[0] == "tup" else None)
                    if f is None or len(f) != 2:
                        continue
                    w = (row(s[1], e), col(s[1], e))
                    if tuple(f) != w and gated_pos(st, tkey, e, f[0], f[1]):
                        fs[i] = ("adt", p[1], p[2], w) if kind == "adt" else ("tup", w)
                        ch = True
        if not pairs and len(curs) >= 3:
            # row and column kept as separate fields: try the ordered pairs of fields
            for ci in curs:
                for a in curs:
                    for b in curs:
                        if len({ci, a, b}) != 3 or not all(isinstance(fs[x], Num) for x in (ci, a, b)):
                            continue
                        if not (ghosts(fs[a]) or ghosts(fs[b]) or (fs[a] == ONE_ and fs[b] == ONE_ and fs[ci] == ZERO)):
                            continue
                        e = fs[ci]
                        w = (row(s[1], e), col(s[1], e))
                        if (fs[a], fs[b]) != w and equal_pos(st, tkey, e, fs[a], fs[b]) is True:
                            fs[a], fs[b] = w
                            ch = True
        return ("adt", v[1], v[2], tuple(fs)) if ch else v
