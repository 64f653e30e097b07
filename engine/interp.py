"""Abstract interpreter over the dumped MIR.

Two disciplines:
  merge=True   states are joined at every control-flow join into gated values
               (gated value numbering); loops must have a constant trip count.
  merge=False  trace partitioning: states are kept apart by the facts that
               separate them; loops with unknown trip count are summarised by an
               inductive generalisation of the loop-head state.
"""
from fractions import Fraction
import time
from .terms import Num, cnot, cand, cor, cite, lt, le, eq, lt0, ZERO, NAN, cond_atoms, cond_eval, okey
from .values import (is_cond, ite, lift1, lift2, is_unk, subst, contains, replace, mkseq, seqlen, seqcat,
                     as_segs, EMPTY, nonneg_atom, NONNEG, ONE_, elem_key, is_nonneg_atom)
from .state import State
from .mir import float_const


class Limit(Exception):
    pass


class Undecided(Exception):
    pass


RANGES = {}
for _b in (8, 16, 32, 64, 128):
    RANGES["i%d" % _b] = (-(1 << (_b - 1)), (1 << (_b - 1)) - 1)
    RANGES["u%d" % _b] = (0, (1 << _b) - 1)
RANGES["isize"] = RANGES["i64"]
RANGES["usize"] = RANGES["u64"]

INLINE_EXT = ("core::option", "std::option", "std::result", "core::result", "std::ops", "core::ops",
              "std::convert", "core::convert", "std::cmp", "core::cmp", "core::bool", "std::bool",
              "num", "alga", "core::num", "std::char", "core::char", "std::mem", "core::mem", "core::tuple",
              "std::clone", "core::f32", "core::f64", "std::f32", "std::f64", "std::borrow", "approx",
              "core::array::equality", "std::array::equality", "std::tuple", "core::hint", "std::hint", "std::default")


class LoopRec:
    """summary of one loop instance"""

    def __init__(self, uid, fn, line, head):
        self.uid, self.fn, self.line, self.head = uid, fn, line, head
        self.classes = {}
        self.alts = []       # dict(frm,to,facts,delta,app,st)
        self.exits = 0
        self.v0 = {}


class Interp:
    def __init__(self, prog, merge=False, overflow=False):
        self.prog = prog
        self.merge = merge
        self.overflow = overflow
        self.panics = []         # (fn, line, what, state)
        self.loops = {}
        self.looplog = []
        self.peel = {}           # (function, head) -> iterations run exactly instead of summarising
        self.peel_filter = None
        self.peel_default = None        # loops without an entry in peel: at most this many iterations
        self.beam = None                # with it, states beyond this number are dropped
        self.deadline = None
        self.truncated = 0
        self.nonterm = {}
        self.cuts = []           # unbounded recursion etc.
        self.stack = []
        self.deepest = {}        # function -> activations below the innermost one
        self.steps = 0
        self.max_steps = 400000
        self.max_parts = 400
        self.fns_seen = set()
        self.calls_seen = 0
        self.norm_hook = None
        self.unmodelled = {}
        self.maxrec = 6
        from . import models
        self.models = models

    # ------------------------------------------------------------ symbolic values
    def mk(self, key, ty, st):
        T = self.prog.tys
        t = T[ty]
        k = t["k"]
        if k == "bool":
            return ("A", ("b", key))
        if k in ("char", "uint"):
            return nonneg_atom(key)
        if k in ("int", "float"):
            return Num.atom(key)
        if k in ("str", "slice"):
            ety = t.get("of", "char")
            return mkseq([("sl", key, ety, ZERO, nonneg_atom(("len", key)))])
        if k == "ref":
            if t["mut"]:
                root = ("S", key)
                if root not in st.mem:
                    st.mem[root] = self.mk(key, t["to"], st)
                return ("ref", root, ())
            return ("vref", self.mk(key, t["to"], st))
        if k == "tuple":
            return ("tup", tuple(self.mk((".", key, i), x, st) for i, x in enumerate(t["of"])))
        if k == "array":
            return ("arr", tuple(self.mk((".", key, i), t["of"], st) for i in range(t["len"])))
        if k == "fndef":
            return ("fn", fnkey(t))
        if k == "adt":
            n = t["name"]
            if n in ("std::vec::Vec", "std::collections::VecDeque"):
                return mkseq([("sl", key, t["args"][0], ZERO, nonneg_atom(("len", key)))])
            if n in ("std::string::String", "std::path::PathBuf", "std::ffi::OsString"):
                return mkseq([("sl", key, "char", ZERO, nonneg_atom(("len", key)))])
            if n == "std::boxed::Box":
                root = ("S", ("box", key))
                st.mem[root] = self.mk(key, t["args"][0], st)
                return ("box", root)
            if not t["enum"]:
                return ("adt", ty, 0, tuple(self.mk((".", key, i, f[0]), f[1], st) for i, f in enumerate(t["v"][0]["f"])))
            return ("sym", key, ty)
        return ("sym", key, ty)

    def elem(self, key, ety, idx, st):
        k = ("el", key, idx, ety)
        if ety == "char":
            return nonneg_atom(k)
        if ety == "word":
            k = ("word", key, idx)
            return ("vref", mkseq([("sl", k, "char", ZERO, nonneg_atom(("len", k)))]))
        return self.mk(k, ety, st)

    # ------------------------------------------------------------ places
    def load(self, st, root, path):
        v = st.mem.get(root, ("undef",))
        for pe in path:
            v = self.step(v, pe, st)
        return v

    def step(self, v, pe, st):
        if isinstance(v, tuple) and v:
            h = v[0]
            if h == "ite":
                a = self.step(v[2], pe, st)
                b = self.step(v[3], pe, st)
                return ite(v[1], a, b)
            k = pe[0]
            if k == "f" or k == "vf":
                i = pe[1] if k == "f" else pe[2]
                if h == "adt":
                    if k == "vf" and v[2] != pe[1]:
                        return ("undef",)
                    return v[3][i] if i < len(v[3]) else ("undef",)
                if h == "tup":
                    return v[1][i] if i < len(v[1]) else ("undef",)
                if h == "clo":
                    return v[2][i]
                if h == "sym":
                    t = self.prog.tys[v[2]]
                    if t["k"] == "adt" and k == "vf":
                        return self.mk(("v", v[1], pe[1], i), t["v"][pe[1]]["f"][i][1], st)
                    return ("unk", "field of opaque value")
                if h == "box":
                    return ("bx", v[1])
                if h in ("bx",):
                    return v
                if h == "undef":
                    return v
            if k == "x":
                return self.index(v, pe[1], st)
            if h == "undef":
                return v
            if k == "sub":
                return self.subslice(v, pe, st)
        return ("unk", "projection %s" % (pe[0],))

    def subslice(self, v, pe, st):
        if v[0] == "arr":
            n = len(v[1])
            hi = n - pe[2] if pe[3] else pe[2]
            return ("arr", v[1][pe[1]:hi])
        return ("unk", "subslice")

    def index(self, v, idx, st):
        """element idx of an array / sequence; bounds are the caller's business"""
        if isinstance(idx, tuple) and idx and idx[0] == "ite":
            return ite(idx[1], self.index(v, idx[2], st), self.index(v, idx[3], st))
        if isinstance(v, tuple) and v[0] == "ite":
            return ite(v[1], self.index(v[2], idx, st), self.index(v[3], idx, st))
        if not isinstance(idx, Num):
            return ("unk", "index")
        r = st.resolve(idx)
        c = r.const()
        if v[0] == "arr":
            if c is not None:
                c = int(c)
                return v[1][c] if 0 <= c < len(v[1]) else ("undef",)
            out = v[1][-1]
            for i in range(len(v[1]) - 2, -1, -1):
                out = ite(eq(idx, Num.c(i)), v[1][i], out)
            return out
        if v[0] == "seq":
            off = ZERO
            segs = v[1]
            for j, s in enumerate(segs):
                from .values import seglen
                L = seglen(s)
                rel = idx - off
                inside = True if (j == len(segs) - 1) else st.decide(lt(rel, L))
                if inside is None:
                    return ("unk", "index into a concatenation")
                if inside:
                    rr = st.resolve(rel)
                    if s[0] == "e":
                        return s[1]
                    if s[0] == "lit":
                        if rr.const() is not None and 0 <= rr.const() < len(s[1]):
                            return Num.c(ord(s[1][int(rr.const())]))
                        return ("unk", "index into literal")
                    if s[0] == "sl":
                        return self.elem(s[1], s[2], s[3] + rel, st)
                    if s[0] == "map":
                        return subst(s[3], {s[2]: rel})
                    if s[0] == "rep":
                        return s[1]
                    return ("unk", "element of a summarised sequence")
                off = off + L
        return ("unk", "index of %s" % v[0])

    def store(self, st, root, path, val):
        if isinstance(root, tuple) and root[0] == "H" and st.mem.get(root, ("undef",))[0:1] == ("undef",):
            st.mem[root] = val
            return
        old = st.mem.get(root, ("undef",))
        st.mem[root] = self._set(old, path, val, st)

    def _set(self, v, path, val, st):
        if not path:
            return val
        pe = path[0]
        if isinstance(v, tuple) and v:
            h = v[0]
            if h == "ite":
                return ite(v[1], self._set(v[2], path, val, st), self._set(v[3], path, val, st))
            if pe[0] in ("f", "vf"):
                i = pe[1] if pe[0] == "f" else pe[2]
                if h == "sym":
                    t = self.prog.tys[v[2]]
                    if t["k"] == "adt" and pe[0] == "vf":
                        v = ("adt", v[2], pe[1], tuple(self.mk(("v", v[1], pe[1], j), f[1], st) for j, f in enumerate(t["v"][pe[1]]["f"])))
                        h = "adt"
                if h == "adt":
                    f = list(v[3])
                    while len(f) <= i:
                        f.append(("undef",))
                    f[i] = self._set(f[i], path[1:], val, st)
                    return ("adt", v[1], v[2], tuple(f))
                if h == "tup":
                    f = list(v[1])
                    f[i] = self._set(f[i], path[1:], val, st)
                    return ("tup", tuple(f))
                if h == "clo":
                    f = list(v[2])
                    f[i] = self._set(f[i], path[1:], val, st)
                    return ("clo", v[1], tuple(f))
            if pe[0] == "x":
                idx = pe[1]
                if h == "arr":
                    def put(i):
                        f = list(v[1])
                        f[i] = self._set(f[i], path[1:], val, st)
                        return ("arr", tuple(f))
                    if isinstance(idx, tuple) and idx[0] == "ite":
                        return ite(idx[1], self._set(v, (("x", idx[2]),) + path[1:], val, st),
                                   self._set(v, (("x", idx[3]),) + path[1:], val, st))
                    c = st.resolve(idx).const()
                    if c is not None and 0 <= c < len(v[1]):
                        return put(int(c))
                    if isinstance(idx, Num):
                        out = v
                        els = []
                        for i, e in enumerate(v[1]):
                            els.append(ite(eq(idx, Num.c(i)), self._set(e, path[1:], val, st), e))
                        return ("arr", tuple(els))
                if h == "seq":
                    # only element-wise known sequences
                    c = st.resolve(idx).const() if isinstance(idx, Num) else None
                    if c is not None and all(s[0] in ("e",) for s in v[1]) and c < len(v[1]):
                        f = list(v[1])
                        f[int(c)] = ("e", self._set(f[int(c)][1], path[1:], val, st))
                        return ("seq", tuple(f))
            if h == "undef" and pe[0] in ("f", "vf"):
                i = pe[1] if pe[0] == "f" else pe[2]
                f = [("undef",)] * i + [self._set(("undef",), path[1:], val, st)]
                return ("tup", tuple(f))
        st.note("write through an unmodelled place")
        return ("unk", "partial write")

    def place(self, st, fr, pl):
        root, path = (fr, pl[0]), ()
        val = None
        mode = "P"
        variant = None
        for e in pl[1]:
            k = e[0]
            if k == "d":
                v = self.load(st, root, path) if mode == "P" else val
                if isinstance(v, tuple) and v:
                    if v[0] == "ref":
                        mode, root, path = "P", v[1], v[2]
                        continue
                    if v[0] == "vref":
                        mode, val = "V", v[1]
                        continue
                    if v[0] in ("box", "bx"):
                        mode, root, path = "P", v[1], ()
                        continue
                    if v[0] == "ite":
                        mode, val = "V", self.deref(st, v)
                        continue
                mode, val = "V", ("unk", "deref of %s" % (v[0] if isinstance(v, tuple) and v else v,))
                continue
            if k == "v":
                variant = e[1]
                continue
            if k == "f":
                pe = ("f", e[1]) if variant is None else ("vf", variant, e[1])
                variant = None
            elif k == "i":
                pe = ("x", self.load(st, (fr, e[1]), ()))
            elif k == "ci":
                if e[3]:
                    v = self.load(st, root, path) if mode == "P" else val
                    pe = ("x", seqlen(v) - Num.c(e[1]) if isinstance(v, tuple) and v[0] in ("arr", "seq") else Num.atom("?"))
                else:
                    pe = ("x", Num.c(e[1]))
            elif k == "sub":
                pe = tuple(e)
            else:
                pe = ("?",)
            if mode == "P":
                path = path + (pe,)
            else:
                val = self.step(val, pe, st)
        return ("P", root, path) if mode == "P" else ("V", val)

    def deref(self, st, v):
        if isinstance(v, tuple) and v:
            if v[0] == "ref":
                return self.load(st, v[1], v[2])
            if v[0] == "vref":
                return v[1]
            if v[0] in ("box", "bx"):
                return self.load(st, v[1], ())
            if v[0] == "ite":
                return ite(v[1], self.deref(st, v[2]), self.deref(st, v[3]))
        return ("unk", "deref")

    def strip(self, st, v):
        """follow references"""
        while isinstance(v, tuple) and v and v[0] in ("ref", "vref", "box", "bx"):
            v = self.deref(st, v)
        if isinstance(v, tuple) and v and v[0] == "ite":
            return ite(v[1], self.strip(st, v[2]), self.strip(st, v[3]))
        return v

    def read(self, st, fr, pl):
        p = self.place(st, fr, pl)
        return self.load(st, p[1], p[2]) if p[0] == "P" else p[1]

    def write(self, st, fr, pl, v):
        if not pl[1]:
            st.mem[(fr, pl[0])] = v
            return
        p = self.place(st, fr, pl)
        if p[0] == "P":
            self.store(st, p[1], p[2], v)
        else:
            st.note("write through a shared reference")

    # ------------------------------------------------------------ operands
    def const(self, c, st):
        k = c["k"]
        t = self.prog.tys[c["ty"]]
        if k == "int":
            if t["k"] == "bool":
                return bool(c["v"])
            if t["k"] == "float":
                return float_const(c["v"], t["n"])
            return Num.c(c["v"])
        if k == "str":
            return ("vref", mkseq([("lit", c["v"])]))
        if k == "zst":
            if t["k"] == "tuple":
                return ("tup", ())
            if t["k"] == "fndef":
                return ("fn", fnkey(t))
            if t["k"] == "adt":
                if t["name"] in ("std::vec::Vec", "std::string::String"):
                    return EMPTY
                return ("adt", c["ty"], 0, tuple(self.zst(f[1]) for f in t["v"][0]["f"]) if t["v"] else ())
            if t["k"] == "closure":
                return ("clo", c["ty"], ())
            if t["k"] == "array":
                return ("arr", ())
            return ("undef",)
        if k == "slice":
            return ("vref", ("arr", tuple(self.const(e, st) for e in c["e"])))
        if k == "ref":
            return ("vref", self.const(c["to"], st))
        if k == "agg":
            es = tuple(self.const(e, st) for e in c["e"])
            if t["k"] == "tuple":
                return ("tup", es)
            if t["k"] == "array":
                return ("arr", es)
            if t["name"] in ("std::vec::Vec", "std::string::String"):
                return EMPTY
            return ("adt", c["ty"], c["variant"], es)
        return ("unk", "constant of type %s" % t["s"])

    def zst(self, ty):
        t = self.prog.tys[ty]
        if t["k"] == "tuple":
            return ("tup", ())
        if t["k"] == "adt":
            return ("adt", ty, 0, tuple(self.zst(f[1]) for f in t["v"][0]["f"]) if t["v"] else ())
        if t["k"] == "fndef":
            return ("fn", fnkey(t))
        return ("undef",)

    def operand(self, st, fr, o):
        if o[0] in ("c", "m"):
            return self.read(st, fr, o[1])
        if o[0] == "k":
            return self.const(o[1], st)
        if o[0] == "rc":
            return False
        return ("unk", "operand")

    def optype(self, fn, o):
        if o[0] == "k":
            return o[1]["ty"]
        if o[0] == "rc":
            return None
        pl = o[1]
        ty = fn.body["locals"][pl[0]]
        T = self.prog.tys
        for e in pl[1]:
            if e[0] == "f":
                ty = e[2]
            elif e[0] == "d":
                t = T[ty]
                if t["k"] in ("ref", "ptr"):
                    ty = t["to"]
                elif t["k"] == "adt" and t["args"]:
                    ty = t["args"][0]
            elif e[0] in ("i", "ci"):
                ty = T[ty].get("of", ty)
        return ty

    # ------------------------------------------------------------ arithmetic
    def bin(self, op, a, b, ty, st):
        tk = self.prog.tys[ty]["k"] if ty is not None else "int"
        if is_unk(a) or is_unk(b):
            r = ("unk", "arithmetic on an unknown value")
            return ("tup", (r, ("A", ("b", ("unkovf", okey(r)))))) if op.endswith("WithOverflow") else r
        if op.endswith("WithOverflow"):
            r = lift2(lambda x, y: self.arith(op[:3], x, y, tk, st), a, b)
            return ("tup", (r, self.ovf(op[:3], r, a, b, ty, st)))
        if op.endswith("Unchecked"):
            op = op[:-9]
        if op == "Cmp":
            return ("ord", a, b)
        if op in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne"):
            return lift2(lambda x, y: self.compare(op, x, y, tk), a, b)
        if op in ("BitAnd", "BitOr", "BitXor") and is_cond(a) and is_cond(b):
            if op == "BitAnd":
                return cand(a, b)
            if op == "BitOr":
                return cor(a, b)
            return cite(a, cnot(b), b)
        return lift2(lambda x, y: self.arith(op, x, y, tk, st), a, b)

    def compare(self, op, x, y, tk):
        if isinstance(x, tuple) and x and x[0] == "ord" or isinstance(y, tuple) and y and y[0] == "ord":
            return ("unk", "ordering")
        if isinstance(x, Num) and isinstance(y, Num):
            if tk == "float" and x == y and x.const() is None:
                nan = ("A", ("nan", x))
                if op == "Ne":
                    return nan
                if op == "Eq":
                    return cnot(nan)
            if op == "Lt":
                return self.flt(x, y)
            if op == "Gt":
                return self.flt(y, x)
            if op == "Le":
                return cnot(self.flt(y, x))
            if op == "Ge":
                return cnot(self.flt(x, y))
            if op == "Eq":
                return eq(x, y)
            return cnot(eq(x, y))
        if is_cond(x) and is_cond(y):
            e = cite(x, y, cnot(y))
            if op == "Eq":
                return e
            if op == "Ne":
                return cnot(e)
            if op == "Lt":
                return cand(cnot(x), y)
            if op == "Gt":
                return cand(x, cnot(y))
        if isinstance(x, tuple) and isinstance(y, tuple) and x and y and x[0] == "ref" and y[0] == "ref":
            return ("unk", "pointer comparison")
        if isinstance(x, tuple) and x and x[0] == "dsc" or isinstance(y, tuple) and y and y[0] == "dsc":
            if isinstance(y, tuple) and y and y[0] == "dsc" and not (isinstance(x, tuple) and x and x[0] == "dsc"):
                x, y = y, x
            if isinstance(y, Num) and y.const() is not None:
                t = self.prog.tys[x[2]]
                nv = len(t["v"])
                r = False
                for i, v in enumerate(t["v"]):
                    if v["d"] == int(y.const()):
                        r = ("A", ("dv", x[1], i, nv))
                if op in ("Eq", "Ne"):
                    return r if op == "Eq" else cnot(r)
            if isinstance(y, tuple) and y[0] == "dsc" and x[1] == y[1] and op in ("Eq", "Ne"):
                return op == "Eq"
            if isinstance(y, tuple) and y[0] == "dsc" and op in ("Eq", "Ne"):
                r = ("A", ("b", ("dsceq", x[1], y[1])))
                return r if op == "Eq" else cnot(r)
        return ("unk", "comparison")

    def flt(self, x, y):
        return lt(x, y)

    def arith(self, op, x, y, tk, st):
        if not isinstance(x, Num) or not isinstance(y, Num):
            return ("unk", "arithmetic")
        if op == "Add":
            return x + y
        if op == "Sub":
            return x - y
        if op == "Mul":
            return x * y
        if op in ("Div", "Rem"):
            if tk == "float":
                if op == "Div":
                    if y.const() == 0:
                        return Num.atom(("fdiv", x, y))
                    return x / y
                return Num.atom(("frem", x, y))
            cx, cy = st.resolve(x).const(), st.resolve(y).const()
            if cx is not None and cy is not None and cy != 0:
                q = int(cx / cy) if (cx >= 0) == (cy >= 0) else -int(abs(cx) / abs(cy))
                return Num.c(q) if op == "Div" else Num.c(cx - q * cy)
            if cy == 1:
                return x if op == "Div" else ZERO
            k = ("idiv" if op == "Div" else "imod", x, y)
            if tk == "uint":
                NONNEG.add(k)
            return Num.atom(k)
        cx, cy = st.resolve(x).const(), st.resolve(y).const()
        if cx is not None and cy is not None:
            a, b = int(cx), int(cy)
            if op == "BitAnd":
                return Num.c(a & b)
            if op == "BitOr":
                return Num.c(a | b)
            if op == "BitXor":
                return Num.c(a ^ b)
            if op == "Shl":
                return Num.c(a << b)
            if op == "Shr":
                return Num.c(a >> b)
        k = (op, x, y)
        if tk == "uint":
            NONNEG.add(k)
        return Num.atom(k)

    def ovf(self, op, r, a, b, ty, st):
        """overflow condition of a checked operation"""
        if not self.overflow:
            return False
        if not isinstance(r, Num):
            if isinstance(r, tuple) and r and r[0] == "ite":
                return ite(r[1], self.ovf(op, r[2], a, b, ty, st), self.ovf(op, r[3], a, b, ty, st))
            return ("A", ("b", ("ovf", okey(r))))
        t = self.prog.tys[ty]
        if t["k"] not in ("int", "uint"):
            return False
        lo, hi = RANGES[t["n"]]
        r2 = st.resolve(r)
        c = r2.const()
        if c is not None:
            return not (lo <= c <= hi)
        lowok = highok = False
        u = st.ub(-r2)
        if u is not None and -u >= lo:
            lowok = True
        u = st.ub(r2)
        if u is not None and u <= hi:
            highok = True
        if not highok and t["n"] in ("usize", "u64", "isize", "i64"):
            # quantities that count items held in memory (lengths, positions, loop counts)
            l = r2.linear()
            if l and all(v < 0 or self.membound(k, st) for k, v in l[1].items()) and abs(l[0]) < 2 ** 32:
                if all(abs(v) < 64 for v in l[1].values()):
                    highok = True
            if not highok and l:
                # bounded by a length through a fact
                for g, bnd in st.bounds():
                    gl = g.linear()
                    if gl is None:
                        continue
                    d = r2 - g
                    dl = d.linear()
                    if dl and all(v < 0 or self.membound(k, st) for k, v in dl[1].items()) and abs(dl[0]) < 2 ** 32:
                        highok = True
                        break
        if lowok and highok:
            return False
        return ("A", ("ovf", t["n"], r2, "lo" if highok else ("hi" if lowok else "both")))

    def membound(self, k, st):
        return isinstance(k, tuple) and k and k[0] in ("len", "ls", "cnt", "adv", "row", "col", "half", "imod", "idiv") and is_nonneg_atom(k)

    def cast(self, kind, v, frm, to, st):
        T = self.prog.tys
        t = T[to]
        if kind.startswith("PointerCoercion"):
            if "ReifyFnPointer" in kind or "ClosureFnPointer" in kind:
                return v
            if "Unsize" in kind:
                if isinstance(v, tuple) and v and v[0] == "box":
                    return v
                return v
            return v
        if kind == "BoxDerefTransmute":
            if isinstance(v, tuple) and v and v[0] == "bx":
                return ("ref", v[1], ())
            return ("unk", "box pointer")
        if kind in ("PtrToPtr", "FnPtrToPtr"):
            return v
        if isinstance(v, tuple) and v and v[0] == "ite":
            return ite(v[1], self.cast(kind, v[2], frm, to, st), self.cast(kind, v[3], frm, to, st))
        if kind == "Transmute":
            if isinstance(v, tuple) and v and v[0] in ("ref", "vref"):
                return ("ptrint",) if t["k"] in ("uint", "int") else v
            f = T[frm] if frm is not None else None
            if f and f["s"] == t["s"]:
                return v
            if f and isinstance(v, Num) and f["k"] in ("char", "uint") and t["k"] in ("char", "uint"):
                return v
            return ("unk", "transmute")
        if is_cond(v):
            return ite(v, ONE_, ZERO)
        if isinstance(v, tuple) and v and v[0] == "dsc":
            vs = T[v[2]]["v"]
            out = Num.c(vs[-1]["d"])
            for i, x in enumerate(vs[:-1]):
                out = ite(("A", ("dv", v[1], i, len(vs))), Num.c(x["d"]), out)
            return out
        if isinstance(v, Num):
            if kind == "IntToFloat" or kind == "FloatToFloat":
                return v
            if kind == "FloatToInt":
                c = v.const()
                if c is not None:
                    return Num.c(int(c))
                return Num.atom(("trunc", v))
            if kind == "IntToInt":
                if t["k"] in ("char",):
                    return v
                lo, hi = RANGES[t["n"]]
                f = T[frm] if frm is not None else None
                r = st.resolve(v)
                c = r.const()
                if c is not None:
                    w = hi - lo + 1
                    return Num.c((int(c) - lo) % w + lo)
                if f:
                    if f["k"] == "char":
                        flo, fhi = 0, 0x10FFFF
                    elif f["k"] in ("int", "uint"):
                        flo, fhi = RANGES[f["n"]]
                    else:
                        flo, fhi = 0, 255
                    if lo <= flo and fhi <= hi:
                        return v
                u = st.ub(r)
                l = st.ub(-r)
                if all(self.membound(k, st) for k in r.atoms()) and r.linear() and all(c > 0 for c in r.linear()[1].values()) and t["n"] in ("isize", "i64", "usize", "u64"):
                    return v
                if u is not None and l is not None and lo <= -l and u <= hi:
                    return v
                if not self.overflow:
                    return v
                k = ("wrapcast", t["n"], v)
                if t["k"] == "uint":
                    NONNEG.add(k)
                return Num.atom(k)
        return ("unk", "cast %s" % kind)

    # ------------------------------------------------------------ statements
    def rvalue(self, st, fr, fn, r, destty):
        k = r[0]
        if k == "use":
            return self.operand(st, fr, r[1])
        if k == "ref":
            p = self.place(st, fr, r[2])
            if p[0] == "P":
                if r[1]:
                    return ("ref", p[1], p[2])
                return ("vref", self.load(st, p[1], p[2]))
            return ("vref", p[1])
        if k == "ptr":
            p = self.place(st, fr, r[1])
            if p[0] == "P":
                return ("ref", p[1], p[2])
            return ("vref", p[1])
        if k == "cast":
            return self.cast(r[1], self.operand(st, fr, r[2]), self.optype(fn, r[2]), r[3], st)
        if k == "bin":
            a = self.operand(st, fr, r[2])
            b = self.operand(st, fr, r[3])
            ty = self.optype(fn, r[2])
            v = self.bin(r[1], a, b, ty, st)
            if isinstance(v, tuple) and v and v[0] == "ord":
                v = self.ordering(v[1], v[2], destty)
            return v
        if k == "un":
            v = self.operand(st, fr, r[2])
            if r[1] == "Not":
                if is_cond(v):
                    return cnot(v)
                return lift1(lambda x: cnot(x) if is_cond(x) else ("unk", "bitwise not"), v)
            if r[1] == "Neg":
                return lift1(lambda x: -x if isinstance(x, Num) else ("unk", "neg"), v)
            if r[1] == "PtrMetadata":
                w = self.deref(st, v)
                return lift1(lambda x: seqlen(x) if isinstance(x, tuple) and x and x[0] in ("arr", "seq") else ("unk", "len"), w)
            return ("unk", "unop " + r[1])
        if k == "discr":
            v = self.read(st, fr, r[1])
            return lift1(lambda x: self.discr(x), v)
        if k == "agg":
            vs = tuple(self.operand(st, fr, o) for o in r[3])
            if r[1] == "array":
                return ("arr", vs)
            if r[1] == "tuple":
                return ("tup", vs)
            if r[1] == "adt":
                return ("adt", r[2][0], r[2][1], vs)
            if r[1] == "closure":
                return ("clo", r[2], vs)
            return ("unk", "aggregate")
        if k == "rep":
            v = self.operand(st, fr, r[1])
            if r[2] is not None and r[2] <= 4096:
                return ("arr", (v,) * r[2])
            return ("unk", "repeat")
        return ("unk", "rvalue " + k)

    def ordering(self, a, b, ty):
        # std::cmp::Ordering: variants Less, Equal, Greater
        def mk(i):
            return ("adt", ty, i, ())
        return lift2(lambda x, y: ite(lt(x, y), mk(0), ite(eq(x, y), mk(1), mk(2)))
                     if isinstance(x, Num) and isinstance(y, Num) else ("unk", "ordering"), a, b)

    def discr(self, v):
        if isinstance(v, tuple) and v:
            if v[0] == "adt":
                return Num.c(self.prog.tys[v[1]]["v"][v[2]]["d"])
            if v[0] == "sym":
                return ("dsc", v[1], v[2])
        return ("unk", "discriminant of %s" % (v[0] if isinstance(v, tuple) and v else v,))

    # ------------------------------------------------------------ running functions
    def run_fn(self, fn, args, st):
        """-> list of (state, return value)"""
        depth = len(self.stack)
        if depth > 80:
            raise Limit("call depth")
        self.fns_seen.add(fn.id)
        nrec = sum(1 for f, _ in self.stack if f.id == fn.id)
        if nrec > self.deepest.get(fn.id, 0):
            self.deepest[fn.id] = nrec
        if nrec >= self.maxrec:
            self.cuts.append((fn, "recursion of %s is not bounded by a constant" % fn.path, st))
            st.note("recursion cut: " + fn.path)
            return [(st, ("unk", "recursion"))]
        self.stack.append((fn, depth))
        try:
            for i, a in enumerate(args):
                st.mem[(depth, i + 1)] = a
            rpo, loops, live = fn.cfg()
            if fn.irreducible:
                raise Undecided("irreducible control flow in " + fn.path)
            backs, exits, rets = self.region(fn, depth, set(rpo), 0, [st], None)
            out = []
            for s in rets:
                v = s.mem.get((depth, 0), ("tup", ()))
                for k in [k for k in s.mem if isinstance(k, tuple) and k[0] == depth]:
                    del s.mem[k]
                if self.norm_hook:
                    self.norm_hook(self, s)
                out.append((s, v))
            if self.merge and out:
                s, v = out[0]
                for s2, v2 in out[1:]:
                    s.mem[(depth, 0)] = v
                    s2.mem[(depth, 0)] = v2
                    s = self.join(s, s2)
                    v = s.mem.pop((depth, 0))
                out = [(s, v)]
            elif not self.merge:
                out = self.merge_outs(out)
            return out
        finally:
            self.stack.pop()

    def prune(self, fn, fr, b, st):
        live = fn.cfg()[2][b]
        keep = set()
        todo = [(fr, l) for l in live]
        while todo:
            k = todo.pop()
            if k in keep or k not in st.mem:
                continue
            keep.add(k)
            _refs(st.mem[k], todo)
        for k in [k for k in st.mem if isinstance(k, tuple) and k[0] == fr and k not in keep]:
            del st.mem[k]

    def region(self, fn, fr, blocks, entry, states, head):
        rpo, loops, live = fn.cfg()
        pending = {entry: list(states)}
        backs, exits, rets = [], [], []
        first = True
        while pending:
            b = min(pending, key=lambda x: rpo[x])
            sts = pending.pop(b)
            if self.merge and len(sts) > 1:
                for s in sts:
                    self.prune(fn, fr, b, s)
                s = sts[0]
                for s2 in sts[1:]:
                    s = self.join(s, s2)
                sts = [s]
            elif len(sts) > 1:
                sts = self.dedupe(fn, fr, b, sts)
            if b in loops and not (b == head and first):
                for s in sts:
                    ex, rt = self.do_loop(fn, fr, b, s)
                    for (sb, s2) in ex:
                        if sb == head:
                            backs.append(s2)
                        elif sb not in blocks:
                            exits.append((sb, s2))
                        else:
                            pending.setdefault(sb, []).append(s2)
                    rets += rt
                continue
            first = False
            for s in sts:
                for (nb, s2) in self.block(fn, fr, b, s):
                    if nb is None:
                        rets.append(s2)
                    elif nb == head:
                        backs.append(s2)
                    elif nb not in blocks:
                        exits.append((nb, s2))
                    else:
                        pending.setdefault(nb, []).append(s2)
        return backs, exits, rets

    def some(self, sts, n):
        """n of the states, evenly spread (searches for violations only)"""
        if n is None or len(sts) <= n:
            return sts
        self.truncated += len(sts) - n
        return [sts[i * len(sts) // n] for i in range(n)]

    def dedupe(self, fn, fr, b, sts):
        if self.beam is not None:
            return self.some(sts, self.beam)
        if len(sts) > self.max_parts:
            raise Limit("too many partitions in %s" % fn.path)
        return sts

    def block(self, fn, fr, b, st):
        """execute one block; -> [(successor or None, state)]"""
        blk = fn.body["blocks"][b]
        self.steps += 1
        if self.steps > self.max_steps or self.deadline is not None and self.steps % 256 == 0 and time.time() > self.deadline:
            raise Limit("step budget")
        for s in blk["s"]:
            if s[0] == "=":
                dt = None
                if s[2][0] == "bin" and s[2][1] == "Cmp":
                    dt = fn.body["locals"][s[1][0]] if not s[1][1] else None
                v = self.rvalue(st, fr, fn, s[2], dt)
                self.write(st, fr, s[1], v)
            elif s[0] == "sd":
                v = self.read(st, fr, s[1])
                if isinstance(v, tuple) and v and v[0] == "adt":
                    self.write(st, fr, s[1], ("adt", v[1], s[2], v[3]))
                else:
                    st.note("set discriminant")
        t = blk["t"]
        k = t[0]
        if k == "goto":
            return [(t[1], st)]
        if k == "ret":
            return [(None, st)]
        if k == "drop":
            return [(t[2], st)]
        if k == "switch":
            return self.switch(fn, fr, b, st, t)
        if k == "assert":
            return self.do_assert(fn, fr, st, t)
        if k == "call":
            return self.do_call(fn, fr, b, st, t)
        if k in ("unreach", "resume"):
            return []
        st.note("terminator " + k)
        return []

    def panic(self, fn, line, what, st):
        self.panics.append((fn, line, what, st, [f.path for f, _ in self.stack]))

    def do_assert(self, fn, fr, st, t):
        c = self.operand(st, fr, t[1])
        msg = t[3]
        if not is_cond(c):
            if msg[0] == "other":
                return [(t[4], st)]
            if isinstance(c, tuple) and c and c[0] == "ite":
                c = cite(c[1], *[x if is_cond(x) else ("A", ("b", ("unk", okey(x)))) for x in c[2:]])
            else:
                if not self.merge:
                    st.note("assert on an unknown value")
                return [(t[4], st)]
        if msg[0] == "other":
            return [(t[4], st)]
        if self.merge:
            r = cond_eval(c, lambda a: None)
            if r is not None:
                if r != t[2]:
                    self.panic(fn, t[5], msg, st)
                    return []
            elif msg[0] != "overflow":
                self.panic(fn, t[5], msg, self.with_pc(st.copy(), c if not t[2] else cnot(c)))
                st = self.with_pc(st.copy(), c if t[2] else cnot(c))
            return [(t[4], st)]
        r = st.decide(c)
        if r is None or r != t[2]:
            bad = st.copy().assume(c, not t[2])
            for x in bad:
                if msg[0] == "bounds":
                    what = "index %s out of bounds (len %s)" % (self.operand(st, fr, msg[2]), self.operand(st, fr, msg[1]))
                elif msg[0] == "overflow":
                    what = "arithmetic overflow in %s" % msg[1]
                else:
                    what = msg[0]
                self.panic(fn, t[5], what, x)
        return [(t[4], s) for s in st.assume(c, t[2])]

    def with_pc(self, st, c):
        st.pc = st.pc + (c,)
        return st

    def switch(self, fn, fr, b, st, t):
        v = self.operand(st, fr, t[1])
        return self.switch_v(fn, b, st, v, t)

    def switch_v(self, fn, b, st, v, t):
        targets, other = t[2], t[3]
        if isinstance(v, tuple) and v and v[0] == "ite":
            out = []
            for s, side in self.fork(fn, b, st, v[1]):
                out += self.switch_v(fn, b, s, v[2] if side else v[3], t)
            return out
        if is_cond(v):
            out = []
            tm = dict(targets)
            tt = tm.get(1, other)
            tf = tm.get(0, other)
            for s, side in self.fork(fn, b, st, v):
                out.append((tt if side else tf, s))
            return out
        if isinstance(v, Num):
            c = st.resolve(v).const()
            if c is not None:
                self.mark(st, fn, b, True)
                for x, bb in targets:
                    if x == c or (c < 0 and x == c + (1 << 64)) or (c < 0 and x == c + (1 << 8)) or (c < 0 and x == c + (1 << 32)):
                        return [(bb, st)]
                return [(other, st)]
            out = []
            cur = [st]
            for x, bb in targets:
                nxt = []
                for s in cur:
                    for s2, side in self.fork(fn, b, s, eq(v, Num.c(x))):
                        if side:
                            out.append((bb, s2))
                        else:
                            nxt.append(s2)
                cur = nxt
            return out + [(other, s) for s in cur]
        if isinstance(v, tuple) and v and v[0] == "dsc":
            ty = self.prog.tys[v[2]]
            allowed = st.facts.get(("dsc", v[1]))
            if allowed is None:
                allowed = frozenset(range(len(ty["v"])))
            groups = {}
            tm = dict(targets)
            for i in sorted(allowed):
                groups.setdefault(tm.get(ty["v"][i]["d"], other), set()).add(i)
            if self.merge:
                raise Undecided("switch on an unknown enum")
            out = []
            for bb, s in groups.items():
                if len(groups) == 1:
                    self.mark(st, fn, b, True)
                    return [(bb, st)]
                s2 = st.copy()
                s2.facts[("dsc", v[1])] = frozenset(s)
                s2.path = s2.path + ((fn.path, fn.body["blocks"][b]["l"], v[1], tuple(ty["v"][i]["n"] for i in s)),)
                self.mark(s2, fn, b, False)
                out.append((bb, s2))
            return out
        # unknown value: all successors
        st.note("branch on an unknown value (%s) in %s" % (v[1] if isinstance(v, tuple) and len(v) > 1 else v, fn.path))
        if self.merge:
            raise Undecided("branch on an unknown value in %s (%s)" % (fn.path, v[1] if isinstance(v, tuple) and len(v) > 1 else ""))
        out = []
        for bb in dict.fromkeys([x[1] for x in targets] + [other]):
            if fn.body["blocks"][bb]["t"][0] == "unreach":
                continue
            s = st.copy()
            self.mark(s, fn, b, False)
            out.append((bb, s))
        return out

    def mark(self, st, fn, b, concrete):
        if st.ctl is not None:
            k = (len(self.stack), b)
            if concrete:
                st.ctl.setdefault(k, True)
            else:
                st.ctl[k] = False

    def fork(self, fn, b, st, c):
        """[(state, side)]"""
        if self.merge:
            r = cond_eval(c, lambda a: None)
            if r is None:
                r = self.pc_decide(st, c)
            if r is not None:
                self.mark(st, fn, b, True)
                return [(st, r)]
            s2 = st.copy()
            st.pc = st.pc + (c,)
            s2.pc = s2.pc + (cnot(c),)
            return [(st, True), (s2, False)]
        r = st.decide(c)
        if r is not None:
            self.mark(st, fn, b, is_const_cond(c, st))
            return [(st, r)]
        out = []
        for side in (True, False):
            for s in st.copy().assume(c, side):
                self.mark(s, fn, b, False)
                s.path = s.path + ((fn.path, fn.body["blocks"][b]["l"], c, side),)
                out.append((s, side))
        return out

    def pc_decide(self, st, c):
        for p in st.pc:
            if p == c:
                return True
            if p == cnot(c):
                return False
        return None

    # ------------------------------------------------------------ joins (merge mode)
    def join(self, a, b):
        i = 0
        while i < len(a.pc) and i < len(b.pc) and a.pc[i] == b.pc[i]:
            i += 1
        ra, rb = cand(*a.pc[i:]), cand(*b.pc[i:])
        if ra is True and rb is True:
            cnd = True
        else:
            cnd = ra
            # prefer a single separating literal
            if i < len(a.pc) and i < len(b.pc) and a.pc[i] == cnot(b.pc[i]):
                cnd = a.pc[i]
        s = State()
        s.aux = a.aux
        s.unk = a.unk + tuple(x for x in b.unk if x not in a.unk)
        for k in a.mem:
            if k in b.mem:
                s.mem[k] = ite(cnd, a.mem[k], b.mem[k])
            else:
                s.mem[k] = a.mem[k]
        for k in b.mem:
            if k not in s.mem:
                s.mem[k] = b.mem[k]
        rest = simp_or(ra, rb)
        s.pc = a.pc[:i] + (() if rest is True else (rest,))
        if a.ctl is not None and b.ctl is not None:
            s.ctl = {k: a.ctl[k] and b.ctl[k] for k in a.ctl if k in b.ctl}
        return s

    def merge_outs(self, outs):
        """join outcomes that agree on memory and differ in one fact only"""
        if len(outs) < 2:
            return outs
        groups = []
        for o in outs:
            for g in groups:
                if g[0][0].unk == o[0].unk and g[0][0].aux == o[0].aux and g[0][0].mem == o[0].mem:
                    g.append(o)
                    break
            else:
                groups.append([o])
        res = []
        for g in groups:
            res += self.merge_group(g)
        return res

    def merge_group(self, outs):
        todo = list(outs)
        done = []
        while todo:
            x = todo.pop(0)
            for j, y in enumerate(done):
                r = self.try_merge(y, x)
                if r is not None:
                    del done[j]
                    todo.insert(0, r)
                    break
            else:
                done.append(x)
        return done

    def try_merge(self, x, y):
        s, v = x
        t, w = y
        if len(s.facts) != len(t.facts):
            if v == w and s.mem == t.mem and s.aux == t.aux:
                # one set of facts contains the other: the larger is covered
                a, b = (s, t) if len(s.facts) < len(t.facts) else (t, s)
                if all(b.facts.get(k) == f for k, f in a.facts.items()):
                    return (a, v if a is s else w)
            return None
        diff = [k for k in s.facts if t.facts.get(k, k) != s.facts[k]]
        if len(diff) > 1 or any(k not in t.facts for k in diff) or s.unk != t.unk:
            return None
        if s.mem != t.mem or s.aux != t.aux:
            return None
        if v != w:
            if not diff or not same_shape(v, w):
                return None
            k = diff[0]
            if k[0] == "dsc":
                if len(s.facts[k]) != 1:
                    return None
                (i,) = s.facts[k]
                c = ("A", ("dv", k[1], i, 99))
            else:
                c = ("A", k) if s.facts[k] else ("N", ("A", k))
            v = ite(c, v, w)
        if not diff:
            return (s, v)
        k = diff[0]
        s = s.copy()
        if k[0] == "dsc":
            s.facts[k] = s.facts[k] | t.facts[k]
        else:
            del s.facts[k]
            s._b = None
            s._b = None
            for a in [a for a, (_, src) in s.bind.items() if src == k]:
                del s.bind[a]
        n = 0
        while n < len(s.path) and n < len(t.path) and s.path[n] is t.path[n]:
            n += 1
        s.path = s.path[:n]
        return (s, v)

    # ------------------------------------------------------------ calls
    def do_call(self, fn, fr, b, st, t):
        callee, argops, dest, target, line = t[1], t[2], t[3], t[4], t[5]
        args = [self.operand(st, fr, o) for o in argops]
        self.calls_seen += 1
        if "op" in callee:
            fv = self.operand(st, fr, callee["op"])
            outs = self.call_value(st, fv, args, line, fn, b)
        else:
            outs = self.call(st, callee["fn"], callee["path"], callee["targs"], args, line, fn, b, dest)
        res = []
        for s, v in outs:
            if v is None or target is None:
                continue
            self.write(s, fr, dest, v)
            res.append((target, s))
        return res

    def call_value(self, st, fv, args, line, fn, b):
        fv0 = fv
        fv = self.strip(st, fv)
        if isinstance(fv, tuple) and fv:
            if fv[0] == "fn":
                return self.call(st, fv[1][0], fv[1][1], fv[1][2], args, line, fn, b, None)
            if fv[0] == "clo":
                t = self.prog.tys[fv[1]]
                cf = self.prog.fns[t["fn"]]
                ck = t["ck"]
                envty = self.prog.tys[cf.body["locals"][1]] if cf.body else {"k": "?"}
                if envty["k"] == "ref":
                    if envty["mut"]:
                        if isinstance(fv0, tuple) and fv0[0] == "ref":
                            env = fv0
                        else:
                            root = ("C", len(self.stack), b)
                            st.mem[root] = fv
                            env = ("ref", root, ())
                    else:
                        env = ("vref", fv)
                else:
                    env = fv
                return self.run_fn(cf, [env] + list(args), st)
            if fv[0] == "ite":
                out = []
                for s, side in self.fork(fn, b, st, fv[1]):
                    out += self.call_value(s, fv[2] if side else fv[3], args, line, fn, b)
                return out
        return self.unknown_call(st, "call through a function value", args, None)

    def call(self, st, fid, path, targs, args, line, fn, b, dest):
        if fid is None:
            return self.unknown_call(st, path, args, None)
        f = self.prog.fns[fid]
        if f.path in self.nonterm and self.stack:
            return self.nonterm[f.path](self, st, f, args, line)
        site = (fn, b, line)
        r = self.models.model(self, st, f, path, targs, args, site)
        if r is not NotImplemented:
            if not isinstance(r, list):
                r = [(st, r)]
            return r
        if f.body is not None and (f.local or any(f.path.startswith(p) or ("<" in f.path and any(q in f.path for q in INLINE_EXT)) for p in INLINE_EXT)):
            if f.body.get("spread") is None:
                return self.run_fn(f, args, st)
        ret = f.body["locals"][0] if f.body else None
        return self.unknown_call(st, f.path, args, ret)

    def unknown_call(self, st, path, args, ret):
        self.unmodelled[path] = self.unmodelled.get(path, 0) + 1
        st.note("call of %s" % path)
        for a in args:
            self.havoc_refs(st, a, path)
        return [(st, ("unk", path))]

    def havoc_refs(self, st, v, why):
        if isinstance(v, tuple) and v:
            if v[0] == "ref":
                self.store(st, v[1], v[2], ("unk", why))
                return
            if v[0] == "clo":
                for x in v[2]:
                    self.havoc_refs(st, x, why)
            if v[0] in ("tup", "arr"):
                for x in v[1]:
                    self.havoc_refs(st, x, why)
            if v[0] == "adt":
                for x in v[3]:
                    self.havoc_refs(st, x, why)

    # ------------------------------------------------------------ loops
    def do_loop(self, fn, fr, head, st):
        """run the loop from one entry state; -> ([(exit block, state)], [returned states])"""
        rpo, loops, live = fn.cfg()
        blocks = loops[head]
        self.prune(fn, fr, head, st)
        exitsw = set()
        for b in blocks:
            if fn.body["blocks"][b]["t"][0] == "switch" and any(s not in blocks for s in fn.succs(b)):
                exitsw.add(b)
        exits, rets = [], []
        cur = [st]
        fr_k = len(self.stack)
        first = st.copy() if not self.merge else None
        saved = (len(self.panics), len(self.cuts), len(self.looplog))
        it = 0
        pk = self.peel.get((fn.id, head))
        if pk is not None and not self.merge:
            return self.peeled(fn, fr, head, blocks, st, pk)
        while cur:
            it += 1
            nxt = []
            ok = True
            if it > (200 if self.merge else 20) or len(cur) > 24:
                ok = False
            for s in cur if ok else ():
                outer = s.ctl
                s.ctl = {}
                backs, ex, rt = self.region(fn, fr, blocks, head, [s], head)
                # counted: every state that goes round passed an exit branch whose outcome was
                # constant, and nobody left through it
                if backs:
                    common = None
                    for x in backs:
                        c = {k for k, v in x.ctl.items() if v and k[0] == fr_k and k[1] in exitsw}
                        common = c if common is None else common & c
                    left = set()
                    for sb, x in ex:
                        # the switch through which it left: last one recorded not on the common path
                        for k, v in (x.ctl or {}).items():
                            if k[0] == fr_k and k in common and sb in fn.succs(k[1]):
                                left.add(k)
                    common -= left
                    if not common:
                        ok = False
                        break
                for x in backs:
                    self.prune(fn, fr, head, x)
                    x.ctl = outer
                for _, x in ex:
                    x.ctl = outer
                for x in rt:
                    x.ctl = outer
                exits += ex
                rets += rt
                nxt += backs
            if not ok:
                if self.merge:
                    raise Undecided("loop in %s (line %d) has no constant trip count" % (fn.path, fn.body["blocks"][head]["l"]))
                del self.panics[saved[0]:]
                del self.cuts[saved[1]:]
                del self.looplog[saved[2]:]
                if self.peel_default is not None:
                    return self.peeled(fn, fr, head, blocks, first, self.peel_default)
                return self.summarise(fn, fr, head, blocks, first)
            if self.merge and len(nxt) > 1:
                s = nxt[0]
                for s2 in nxt[1:]:
                    s = self.join(s, s2)
                nxt = [s]
            cur = nxt
        return exits, rets

    def peeled(self, fn, fr, head, blocks, st, k):
        """at most k iterations, exactly; longer runs are dropped"""
        outer = st.ctl
        cur, exits, rets = [st], [], []
        for it in range(k + 1):
            nxt = []
            for s in cur:
                s.ctl = None
                if self.norm_hook:
                    self.norm_hook(self, s)
                backs, ex, rt = self.region(fn, fr, blocks, head, [s], head)
                for _, x in ex:
                    x.ctl = outer
                for x in rt:
                    x.ctl = outer
                exits += ex
                rets += rt
                for x in backs:
                    self.prune(fn, fr, head, x)
                nxt += backs
            if not nxt:
                break
            if it == k:
                self.truncated += len(nxt)
                break
            if self.peel_filter is not None:
                nxt = self.peel_filter(self, fn, head, k - it - 1, nxt)
            if self.beam is not None:
                nxt = self.some(nxt, max(8, self.beam // 4))
            cur = nxt
        return exits, rets

    def summarise(self, fn, fr, head, blocks, st):
        from . import loops as L
        return L.summarise(self, fn, fr, head, blocks, st)


def _refs(v, out):
    if isinstance(v, tuple) and v:
        if v[0] == "ref":
            out.append(v[1])
            return
        if v[0] in ("box", "bx"):
            out.append(v[1])
            return
        for x in v:
            if isinstance(x, tuple):
                _refs(x, out)


def same_shape(v, w):
    """same constructors; differing leaves are numbers or conditions"""
    if v == w:
        return True
    if isinstance(v, Num) and isinstance(w, Num):
        return True
    if is_cond(v) and is_cond(w):
        return False
    if isinstance(v, tuple) and isinstance(w, tuple) and v and w and v[0] == w[0]:
        if v[0] == "adt":
            return v[1:3] == w[1:3] and all(same_shape(a, b) for a, b in zip(v[3], w[3]))
        if v[0] in ("tup", "arr"):
            return len(v[1]) == len(w[1]) and all(same_shape(a, b) for a, b in zip(v[1], w[1]))
        if v[0] == "ite" or w[0] == "ite":
            return True
    if isinstance(v, tuple) and v and v[0] == "ite" and isinstance(w, Num):
        return True
    if isinstance(w, tuple) and w and w[0] == "ite" and isinstance(v, Num):
        return True
    return False


def is_const_cond(c, st):
    return c is True or c is False


def condstr(c):
    from .terms import akstr
    if c is True or c is False:
        return str(c)
    if c[0] == "A":
        a = c[1]
        if a[0] == "lt0":
            return "%r < 0" % a[1]
        if a[0] == "eq0":
            return "%r == 0" % a[1]
        if a[0] == "streq":
            return "%s == %r" % (valstr(a[1]), a[2])
        if a[0] == "cp":
            return "%s(%r)" % (a[1], a[2])
        return "%s" % (akstr(a),)
    if c[0] == "N":
        return "not(%s)" % condstr(c[1])
    if c[0] == "&":
        return " and ".join(condstr(x) for x in c[1])
    if c[0] == "I":
        return "(if %s then %s else %s)" % tuple(condstr(x) for x in c[1:])
    return repr(c)


def valstr(v, prog=None):
    from .terms import akstr
    if isinstance(v, Num):
        return repr(v)
    if is_cond(v):
        return condstr(v)
    if isinstance(v, tuple) and v:
        h = v[0]
        if h == "seq":
            out = []
            for s in v[1]:
                if s[0] == "lit":
                    out.append(repr(s[1]))
                elif s[0] == "e":
                    out.append("[%s]" % valstr(s[1], prog))
                elif s[0] == "sl":
                    out.append("%s[%r..%r]" % (akstr(s[1]), s[3], s[4]))
                elif s[0] == "map":
                    out.append("{%s | %s<%r}" % (valstr(s[3], prog), akstr(s[2]), s[1]))
                else:
                    out.append("%s" % (akstr(s),))
            return "+".join(out) or "''"
        if h == "adt":
            n = "adt%d#%d" % (v[1], v[2])
            if prog is not None:
                t = prog.tys[v[1]]
                n = t["name"].split("::")[-1] + (("::" + t["v"][v[2]]["n"]) if t["enum"] else "")
            return "%s(%s)" % (n, ", ".join(valstr(x, prog) for x in v[3]))
        if h in ("tup", "arr"):
            return "(%s)" % ", ".join(valstr(x, prog) for x in v[1])
        if h == "vref":
            return "&" + valstr(v[1], prog)
        if h == "sym":
            return akstr(v[1])
        if h == "ite":
            return "(if %s then %s else %s)" % (condstr(v[1]), valstr(v[2], prog), valstr(v[3], prog))
    return repr(v)


def simp_or(a, b):
    r = cor(a, b)
    if r is True or r is False:
        return r
    ats = cond_atoms(r)
    if len(ats) <= 8:
        for m in range(1 << len(ats)):
            env = {x: bool(m >> i & 1) for i, x in enumerate(ats)}
            if not cond_eval(r, lambda q: env[q]):
                return r
        return True
    return r


def fnkey(t):
    return (t["fn"], t["path"], tuple(t["targs"]))
