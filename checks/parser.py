"""The lexer and the parser: comparison with reference transducers (C01, C02, C04-C12).

Five roots are interpreted, each with the functions it calls inlined except for the
nonterminals named below, whose own root establishes what a call of them does:

  lex     Tokenizer::tokenize
  param   Parser::parse_param_list
  dir     Parser::parse_directive        nonterminals: param, dir
  pre     Parser::parse_predirective     nonterminals: param
  parse   Parser::parse                  nonterminals: lex, dir, pre
"""
import sys
import time
from engine.interp import Interp, Limit, Undecided, valstr, condstr
from engine.state import State
from engine.terms import Num, cand, cor, cnot, eq, lt, le, ZERO, cond_atoms, okey
from engine.values import mkseq, seqlen, nonneg_atom, is_cond, ite, contains, EMPTY, ONE_, subst
from engine.models import seqeq
from engine import strings
from . import common, ghost, concrete, shapes
from .sim import SS, Sim, Und, vague

PROPS = ("C01", "C02", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12")
NAMES = {"lex": "Tokenizer::tokenize", "param": "Parser::parse_param_list", "dir": "Parser::parse_directive",
         "pre": "Parser::parse_predirective", "parse": "Parser::parse"}
DEPTH = 64


class NoRoot(Exception):
    pass


def find(prog, name):
    fs = [f for f in prog.fns.values() if f.local and (f.path == name or f.path.endswith("::" + name))]
    if len(fs) != 1:
        raise NoRoot("%d functions named %s" % (len(fs), name))
    return fs[0]


# ---------------------------------------------------------------- types by name
class Types:
    def __init__(self, prog):
        self.prog = prog
        self.T = prog.tys

    def adt(self, ty):
        t = self.T[ty]
        if t["k"] != "adt":
            raise NoRoot("unexpected type " + t["s"])
        return t

    def fields(self, ty, v=0):
        return self.adt(ty)["v"][v]["f"]

    def field(self, ty, name, v=0):
        for i, f in enumerate(self.fields(ty, v)):
            if f[0] == name:
                return i
        raise NoRoot("type %s has no field %s" % (self.T[ty]["s"], name))

    def variant(self, ty, name):
        for i, v in enumerate(self.adt(ty)["v"]):
            if v["n"] == name:
                return i
        raise NoRoot("type %s has no variant %s" % (self.T[ty]["s"], name))

    def arg(self, ty, i=0):
        return self.adt(ty)["args"][i]

    def build(self, ty, vals, v=0):
        """record from a dict of field values (all fields)"""
        fs = self.fields(ty, v)
        if {f[0] for f in fs} != set(vals):
            raise NoRoot("fields of %s" % self.T[ty]["s"])
        return ("adt", ty, v, tuple(vals[f[0]] for f in fs))

    def enum(self, ty, name, *vals):
        i = self.variant(ty, name)
        if len(self.fields(ty, i)) != len(vals):
            raise NoRoot("arity of %s" % name)
        return ("adt", ty, i, tuple(vals))


# ---------------------------------------------------------------- tokens as symbolic input
class TokIn:
    """a symbolic token array"""

    def __init__(self, I, ts, key, ety, n):
        self.I, self.ts, self.key, self.ety, self.n = I, ts, key, ety, n
        self.fpos = ts.field(ety, "pos")
        self.fty = ts.field(ety, "ty")
        self.tty = ts.fields(ety)[self.fty][1]
        self.posty = ts.fields(ety)[self.fpos][1]
        self.k = {x: ts.variant(self.tty, x) for x in ("Identifier", "Int", "Float", "Str", "LBracket", "RBracket")}
        self.nv = len(ts.adt(self.tty)["v"])

    def avail(self, p):
        return lt(p, self.n)

    def tok(self, p, st):
        return self.I.elem(self.key, self.ety, p, st)

    def pos(self, p, st):
        return self.tok(p, st)[3][self.fpos]

    def kind(self, p, st, *names):
        s = self.tok(p, st)[3][self.fty]
        return cor(*[("A", ("dv", s[1], self.k[n], self.nv)) for n in names])

    def val(self, p, st, name):
        return self.I.step(self.tok(p, st)[3][self.fty], ("vf", self.k[name], 0), st)

    def num(self, p, st):
        """a number where a real is expected"""
        return ite(self.kind(p, st, "Float"), self.val(p, st, "Float"), self.val(p, st, "Int"))


class Spec:
    und = False

    def __init__(self, I, ts):
        self.I, self.ts = I, ts

    def streq(self, st, s, text):
        return seqeq(self.I, st, s, mkseq([("lit", text)]))

    def feasible(self, st):
        return True

    def hard(self, a, vocab):
        """a test the code should have made: tokens, characters and lengths are; the rest if the code looks at it at all"""
        if a[0] in ("dv", "dsc", "cp"):
            return True
        if a[0] == "b" and isinstance(a[1], tuple) and a[1] and a[1][0] == "ntok":
            return True
        if a[0] in ("lt0", "eq0"):
            for k in a[1].atoms():
                if isinstance(k, tuple) and k and k[0] == "len" and contains(k, lambda x: isinstance(x, tuple) and bool(x) and x[0] == "words") and k not in vocab and vocab.reads(a):
                    return False
                if isinstance(k, tuple) and k and k[0] in ("parse", "ipow", "powf", "imod", "idiv", "wrapcast") and k not in vocab:
                    return False
            return True
        if a[0] == "streq":
            return a[1] in vocab or not vocab.reads(a)
        return a in vocab

    def nt(self, st, name, p):
        """the condition "the nonterminal accepts at p", and where it leaves"""
        e = p
        for a in st.facts:
            if a[0] == "b" and isinstance(a[1], tuple) and a[1][0] == "ntok" and a[1][1] == name:
                d = st.resolve(a[1][2] - p)
                if d.const() == 0 or (d.const() is None and st.decide(eq(a[1][2], p)) is True):
                    e = a[1][2]
                    break
        q = e + ONE_ + nonneg_atom(("adv", name, e))
        return ("A", ("b", ("ntok", name, e))), st.resolve(q) if e.const() is not None else q, e

    def excuse(self, S, st, verdict, out):
        return False


REJ = ("halt", "reject", None)


class ParamSpec(Spec):
    """one parameter declaration and its values"""
    SCALAR = {"integer": ("ints", "int"), "float": ("floats", "float"), "bool": ("bools", "bool"), "string": ("strings", "str")}
    PAIR = {"point2": "point2fs", "vector2": "vector2fs"}
    FIXED = {"rgb": ("Rgb", 3), "xyz": ("Xyz", 3), "blackbody": ("Blackbody", 2)}

    def __init__(self, I, ts, inp, pset, psetty):
        super().__init__(I, ts)
        self.inp, self.pset, self.psetty = inp, pset, psetty

    def start(self, p):
        return SS("START", p)

    def elem(self, kind, p, st):
        """arms (condition, values...) for one element; how many tokens it takes"""
        t = self.inp
        if kind == "int":
            return [(t.kind(p, st, "Int"), t.val(p, st, "Int"))], 1
        if kind == "float":
            return [(t.kind(p, st, "Float", "Int"), t.num(p, st))], 1
        if kind == "str":
            return [(t.kind(p, st, "Str"), t.val(p, st, "Str"))], 1
        if kind == "bool":
            s = t.val(p, st, "Str")
            k = t.kind(p, st, "Str")
            return [(cand(k, self.streq(st, s, "true")), True), (cand(k, self.streq(st, s, "false")), False)], 1
        raise AssertionError(kind)

    def coll(self, S, name, st):
        """result: the named collection extended by one parameter"""
        i = self.ts.field(self.psetty, name)
        vec = self.ts.fields(self.psetty)[i][1]
        pty = self.ts.arg(vec)
        par = self.ts.build(pty, {"name": S.r["name"], "pos": self.inp.pos(S.r["at"], st), "values": S.r["values"]})
        fs = list(self.pset[3])
        old = fs[i]
        fs[i] = mkseq(old[1] + (("e", par),))
        return ("halt", "accept", {"index": S.p, "pset": self.pset[:3] + (tuple(fs),)})

    def vty(self, name):
        i = self.ts.field(self.psetty, name)
        pty = self.ts.arg(self.ts.fields(self.psetty)[i][1])
        return self.ts.arg(self.ts.fields(pty)[self.ts.field(pty, "values")][1])

    def step(self, S, st):
        t, p, lab = self.inp, S.p, S.lab
        if lab == "START":
            s = t.val(p, st, "Str")
            wk = ("words", s)
            n = nonneg_atom(("len", wk))
            w = [self.I.strip(st, self.I.elem(wk, "word", Num.c(i), st)) for i in (0, 1)]
            arms = [(cnot(t.avail(p)), REJ), (cnot(t.kind(p, st, "Str")), REJ), (cnot(eq(n, Num.c(2))), REJ)]
            tags = list(self.SCALAR) + list(self.PAIR) + list(self.FIXED) + ["spectrum", "texture"]
            for tag in tags:
                arms.append((self.streq(st, w[0], tag), SS(("V", tag), p + ONE_, at=p, name=w[1])))
            return ("switch", arms + [(True, REJ)])
        h, tag = lab[0], lab[1]
        if h == "V":
            arms = [(cnot(t.avail(p)), REJ)]
            if tag in self.SCALAR:
                arms.append((t.kind(p, st, "LBracket"), S.to(("L", tag), p + ONE_, values=EMPTY, **S.r)))
                ar, w = self.elem(self.SCALAR[tag][1], p, st)
                for c, v in ar:
                    arms.append((c, S.to(("DONE", tag), p + Num.c(w), values=mkseq([("e", v)]), **S.r)))
            elif tag in self.PAIR:
                arms.append((t.kind(p, st, "LBracket"), S.to(("P", tag), p + ONE_, values=EMPTY, **S.r)))
            elif tag in self.FIXED:
                arms.append((t.kind(p, st, "LBracket"), S.to(("N", tag, 0), p + ONE_, **S.r)))
            elif tag == "spectrum":
                arms.append((t.kind(p, st, "LBracket"), S.to(("L", tag), p + ONE_, values=EMPTY, **S.r)))
                arms.append((t.kind(p, st, "Str"), S.to(("DONE", tag), p + ONE_, values=mkseq([("e", self.ts.enum(self.vty("spectra"), "File", t.val(p, st, "Str")))]), **S.r)))
            elif tag == "texture":
                arms.append((t.kind(p, st, "Str"), S.to(("DONE", tag), p + ONE_, values=mkseq([("e", t.val(p, st, "Str"))]), **S.r)))
            return ("switch", arms + [(True, REJ)])
        if h == "L":
            vals = S.r["values"]
            arms = [(cnot(t.avail(p)), REJ)]
            end = ("SPEC" if tag == "spectrum" else "DONE", tag)
            arms.append((t.kind(p, st, "RBracket"), S.to(("CLOSE", tag, end), p, **S.r)))
            ar, w = self.elem(self.SCALAR[tag][1] if tag in self.SCALAR else "float", p, st)
            for c, v in ar:
                arms.append((c, S.to(lab, p + Num.c(w), **dict(S.r, values=mkseq(vals[1] + (("e", v),))))))
            return ("switch", arms + [(True, REJ)])
        if h == "CLOSE":
            vals = S.r["values"]
            return ("switch", [(eq(seqlen(vals), ZERO), REJ), (True, S.to(lab[2], p + ONE_, **S.r))])
        if h == "P":
            vals = S.r["values"]
            ety = self.vty(self.PAIR[tag])
            v = self.ts.build(ety, {"x": t.num(p, st), "y": t.num(p + ONE_, st)})
            return ("switch", [(cnot(t.avail(p)), REJ),
                               (t.kind(p, st, "RBracket"), S.to(("CLOSE", tag, ("DONE", tag)), p, **S.r)),
                               (cnot(t.kind(p, st, "Float", "Int")), REJ), (cnot(t.avail(p + ONE_)), REJ),
                               (cnot(t.kind(p + ONE_, st, "Float", "Int")), REJ),
                               (True, S.to(lab, p + Num.c(2), **dict(S.r, values=mkseq(vals[1] + (("e", v),)))))])
        if h == "N":
            var, n = self.FIXED[tag]
            i = lab[2]
            if i < n:
                return ("switch", [(cnot(t.avail(p)), REJ), (cnot(t.kind(p, st, "Float", "Int")), REJ),
                                   (True, S.to(("N", tag, i + 1), p + ONE_, **dict(S.r, **{"a%d" % i: t.num(p, st)})))])
            r = {k: v for k, v in S.r.items() if k in ("at", "name")}
            v = self.ts.enum(self.vty("spectra"), var, *[S.r["a%d" % j] for j in range(n)])
            return ("switch", [(cnot(t.avail(p)), REJ), (cnot(t.kind(p, st, "RBracket")), REJ),
                               (True, S.to(("DONE", tag), p + ONE_, values=mkseq([("e", v)]), **r))])
        if h == "SPEC":
            vals = S.r["values"]
            n = st.resolve(seqlen(vals)).const()
            odd = cnot(eq(Num.atom(("imod", seqlen(vals), Num.c(2))), ZERO)) if n is None else bool(n % 2)
            return ("switch", [(odd, REJ), (True, S.to(("SPEC2", tag), p, **S.r))])
        if h == "SPEC2":
            v = self.ts.enum(self.vty("spectra"), "Spectrum", self.pairs(st, S.r["values"]))
            return ("switch", [(True, S.to(("DONE", tag), p, **dict(S.r, values=mkseq([("e", v)]))))])
        if h == "DONE":
            if tag in self.SCALAR:
                return self.coll(S, self.SCALAR[tag][0], st)
            if tag in self.PAIR:
                return self.coll(S, self.PAIR[tag], st)
            return self.coll(S, "textures" if tag == "texture" else "spectra", st)
        raise AssertionError(lab)

    def pairs(self, st, vals):
        segs = vals[1]
        if len(segs) == 1 and segs[0][0] == "map":
            _, n, kv, t = segs[0]
            n = st.resolve(n)
            k = Num.atom(kv)
            return mkseq([("map", n * Num.c(1) / Num.c(2), kv, ("tup", (subst(t, {kv: k * Num.c(2)}), subst(t, {kv: k * Num.c(2) + ONE_}))))])
        if all(s[0] == "e" for s in segs) and len(segs) % 2 == 0:
            return mkseq([("e", ("tup", (segs[i][1], segs[i + 1][1]))) for i in range(0, len(segs), 2)])
        raise Und("pairs of an irregular list")


class KeySpec(Spec):
    """statements that start with a keyword"""

    def __init__(self, I, ts, inp, retty):
        super().__init__(I, ts)
        self.inp, self.retty = inp, retty
        self.psetty = None

    def start(self, p):
        return SS("START", p)

    def keywords(self, S, st):
        t, p = self.inp, S.p
        s = t.val(p, st, "Identifier")
        arms = [(cnot(t.avail(p)), REJ), (cnot(t.kind(p, st, "Identifier")), REJ)]
        for kw in self.KW:
            arms.append((self.streq(st, s, kw), SS(("K", kw), p + ONE_, at=p)))
        return ("switch", arms + [(True, REJ)])

    def takestr(self, S, st, reg, lab, kind="Str"):
        t, p = self.inp, S.p
        return ("switch", [(cnot(t.avail(p)), REJ), (cnot(t.kind(p, st, kind)), REJ),
                           (True, S.to(lab, p + ONE_, **dict(S.r, **{reg: t.val(p, st, kind)})))])

    def default_pset(self):
        return ("adt", self.psetty, 0, tuple(EMPTY for _ in self.ts.fields(self.psetty)))

    def params(self, S, st, build):
        t, p = self.inp, S.p
        c, q, e = self.nt(st, "param", p)
        more = cand(t.avail(p), t.kind(p, st, "Str"))
        ps = S.r["ps"]
        return ("switch", [(cnot(more), build(S, st)), (cnot(c), REJ),
                           (True, S.to(S.lab, q, **dict(S.r, ps=("log", ps[1], mkseq(ps[2][1] + (("e", ("plat", e)),))))))])

    def acc(self, S, v):
        return ("halt", "accept", {"index": S.p, "ret": v})


class DirSpec(KeySpec):
    TYPED = ("Material", "Shape", "LightSource", "AreaLightSource")
    BLOCK = {"AttributeBegin": ("AttributeEnd", "Attribute"), "TransformBegin": ("TransformEnd", "Transform"), "WorldBegin": ("WorldEnd", "World")}
    KW = TYPED + tuple(BLOCK) + ("Include", "Texture")

    def step(self, S, st):
        t, p, lab = self.inp, S.p, S.lab
        ts = self.ts
        if lab == "START":
            return self.keywords(S, st)
        kw = lab[1]
        h = lab[0]
        if h == "K":
            if kw in self.TYPED:
                return self.takestr(S, st, "ty", ("PS", kw))
            if kw == "Include":
                return self.takestr(S, st, "path", ("INC", kw))
            if kw == "Texture":
                return self.takestr(S, st, "name", ("T1", kw))
            return ("switch", [(True, S.to(("B", kw), p, ch=EMPTY, **S.r))])
        if h == "T1":
            return self.takestr(S, st, "ty", ("T2", kw))
        if h == "T2":
            return self.takestr(S, st, "class", ("PS", kw))
        if h == "INC":
            return self.acc(S, ts.enum(self.retty, "Include", self.inp.pos(S.r["at"], st), S.r["path"]))
        if h == "PS":
            return ("switch", [(True, S.to(("PL", kw), p, ps=("log", self.default_pset(), EMPTY), **S.r))])
        if h == "PL":
            return self.params(S, st, self.typed)
        if h == "B":
            end, var = self.BLOCK[kw]
            s = t.val(p, st, "Identifier")
            c, q, e = self.nt(st, "dir", p)
            return ("switch", [(cnot(t.avail(p)), REJ), (cnot(t.kind(p, st, "Identifier")), REJ),
                               (self.streq(st, s, end), S.to(("BX", kw), p + ONE_, **S.r)),
                               (cnot(c), REJ),
                               (True, S.to(lab, q, **dict(S.r, ch=mkseq(S.r["ch"][1] + (("e", ("sym", ("ntv", "dir", e), self.retty)),)))))])
        if h == "BX":
            end, var = self.BLOCK[kw]
            bty = ts.fields(self.retty, ts.variant(self.retty, var))[0][1]
            return self.acc(S, ts.enum(self.retty, var, ts.build(bty, {"pos": t.pos(S.r["at"], st), "children": S.r["ch"]})))
        raise AssertionError(lab)

    def typed(self, S, st):
        ts, kw = self.ts, S.lab[1]
        sty = ts.fields(self.retty, ts.variant(self.retty, kw))[0][1]
        d = {"pos": self.inp.pos(S.r["at"], st), "param_set": S.r["ps"], "ty": S.r["ty"]}
        if kw == "Texture":
            d["name"], d["class"] = S.r["name"], S.r["class"]
        return self.acc(S, ts.enum(self.retty, kw, ts.build(sty, d)))

    def excuse(self, S, st, verdict, out):
        # blocks may be refused beyond a nesting limit of at least DEPTH levels
        if verdict == "reject" and out is not None:
            for e in out["counters"]:
                u = st.ub(-e)
                if u is not None and u <= -DEPTH:
                    return True
        return False


class PreSpec(KeySpec):
    TYPED = ("Camera", "Sampler", "Film", "Filter", "Integrator", "Accelerator")
    NUMS = {"Translate": 3, "Scale": 3, "Rotate": 4, "LookAt": 9, "Transform": 9, "ConcatTransform": 9, "TransformTimes": 2}
    STR = {"CoordinateSystem": "Str", "CoordSysTransform": "Str", "ActiveTransform": "Identifier", "Include": "Str"}
    KW = ("Identity",) + tuple(NUMS) + tuple(STR) + TYPED

    def step(self, S, st):
        t, p, lab, ts = self.inp, S.p, S.lab, self.ts
        if lab == "START":
            return self.keywords(S, st)
        h, kw = lab
        if h == "K":
            if kw == "Identity":
                return self.acc(S, ts.enum(self.retty, kw, t.pos(S.r["at"], st)))
            if kw in self.NUMS:
                return ("switch", [(True, S.to(("F", kw), p, vals=EMPTY, **S.r))])
            if kw in self.STR:
                return self.takestr(S, st, "s", ("S", kw), self.STR[kw])
            return self.takestr(S, st, "ty", ("PS", kw))
        if h == "S":
            return self.acc(S, ts.enum(self.retty, kw, t.pos(S.r["at"], st), S.r["s"]))
        if h == "PS":
            return ("switch", [(True, S.to(("PL", kw), p, ps=("log", self.default_pset(), EMPTY), **S.r))])
        if h == "PL":
            return self.params(S, st, self.typed)
        if h == "F":
            vals = S.r["vals"]
            more = cand(t.avail(p), t.kind(p, st, "Float", "Int"))
            return ("switch", [(more, S.to(lab, p + ONE_, **dict(S.r, vals=mkseq(vals[1] + (("e", t.num(p, st)),))))),
                               (cnot(eq(seqlen(vals), Num.c(self.NUMS[kw]))), REJ),
                               (True, S.to(("FX", kw), p, **S.r))])
        if h == "FX":
            return self.acc(S, self.nums(S, st, kw))
        raise AssertionError(lab)

    def nums(self, S, st, kw):
        ts = self.ts
        n = self.NUMS[kw]
        vs = self.I_elems(S.r["vals"], n, st)
        i = ts.variant(self.retty, kw)
        fs = ts.fields(self.retty, i)
        at = self.inp.pos(S.r["at"], st)
        if kw == "TransformTimes":
            return ts.enum(self.retty, kw, at, vs[0], vs[1])
        vec = lambda ty, xs: ts.build(ty, dict(zip("xyz", xs)))
        if kw == "Rotate":
            return ts.enum(self.retty, kw, at, vs[0], vec(fs[2][1], vs[1:]))
        if n == 3:
            return ts.enum(self.retty, kw, at, vec(fs[1][1], vs))
        rows = ("arr", tuple(("arr", tuple(vs[3 * i:3 * i + 3])) for i in range(3)))
        return ts.enum(self.retty, kw, at, ts.build(fs[1][1], {"mat": rows}))

    def I_elems(self, v, n, st):
        from .sim import Cmp
        xs = Cmp(self.I).segs(st, v)
        if len(xs) != n or any(x[0] != "e" for x in xs):
            raise Und("argument list of unknown length")
        return [x[1] for x in xs]

    def typed(self, S, st):
        ts, kw = self.ts, S.lab[1]
        sty = ts.fields(self.retty, ts.variant(self.retty, kw))[0][1]
        d = {"pos": self.inp.pos(S.r["at"], st), "param_set": S.r["ps"], "ty": S.r["ty"]}
        return self.acc(S, ts.enum(self.retty, kw, ts.build(sty, d)))

    def excuse(self, S, st, verdict, out):
        # a number too many may also be left for the next statement, which it cannot start
        if isinstance(S.lab, tuple) and S.lab[0] == "F":
            return st.decide(eq(seqlen(S.r["vals"]), Num.c(self.NUMS[S.lab[1]]))) is True
        return False


class TopSpec(Spec):
    def __init__(self, I, ts, inp, prety, dirty):
        super().__init__(I, ts)
        self.inp, self.prety, self.dirty = inp, prety, dirty

    def start(self, p):
        return SS("LEX", p)

    def step(self, S, st):
        t, p, lab = self.inp, S.p, S.lab
        if lab == "LEX":
            return ("switch", [(cnot(("A", ("b", ("ntok", "lex", ZERO)))), REJ), (True, SS("PRE", p, pre=EMPTY))])
        if lab == "PRE":
            s = t.val(p, st, "Identifier")
            c, q, e = self.nt(st, "pre", p)
            return ("switch", [(cnot(t.avail(p)), REJ), (cnot(t.kind(p, st, "Identifier")), REJ),
                               (self.streq(st, s, "WorldBegin"), S.to("DIR", p, **S.r)), (cnot(c), REJ),
                               (True, S.to("PRE", q, pre=mkseq(S.r["pre"][1] + (("e", ("sym", ("ntv", "pre", e), self.prety)),))))])
        if lab == "DIR":
            c, q, e = self.nt(st, "dir", p)
            return ("switch", [(cnot(c), REJ), (True, S.to("END", q, d=("sym", ("ntv", "dir", e), self.dirty), **S.r))])
        if lab == "END":
            return ("switch", [(t.avail(p), REJ), (True, ("halt", "accept", {"ret": ("tup", (S.r["pre"], S.r["d"]))}))])
        raise AssertionError(lab)


# ---------------------------------------------------------------- witnesses
def string_witness(st):
    """texts for the strings that are tested, as {string: text}; None when none were found"""
    env = {a[1]: a[2] for a, v in st.facts.items() if v is True and a[0] == "streq" and strings.whole(a[1])}
    facts = [(a, v) for a, v in st.facts.items() if strings.is_string_atom(a)]
    hard = [(a, v) for a, v in facts if not (a[0] == "streq" and strings.whole(a[1]))]
    bs = set()
    for a, v in hard:
        strings.bases(a, bs)
    lits = {a[2] for a, _ in facts if a[0] == "streq"}
    for a, v in facts:
        for x in a[1:] if a[0] != "b" else a[1][1:]:
            t = strings.text(x, {}) if isinstance(x, tuple) else None
            if t:
                lits.add(t)
    pool = ["zz", "qq"]
    for t in sorted(lits):
        pool += [t, t.upper(), t.lower(), t.capitalize(), " " + t, t + " ", t + "x", "x" + t, t[:-1], t[1:]]
    free = sorted(bs - set(env), key=repr)
    if len(free) > 2:
        return None
    import itertools
    for c in itertools.product(pool, repeat=len(free)):
        e = dict(env)
        e.update(zip(free, c))
        if all(strings.holds(a, e) == v for a, v in hard) and all(strings.holds(a, e) in (None, v) for a, v in facts):
            return e
    return None


def witness(st, tries=4000):
    """do the numeric and character facts have a model? True, or None when none was found"""
    import random
    from engine.state import char_pred
    cons = []
    for a, v in st.facts.items():
        if a[0] in ("lt0", "eq0"):
            e = st.resolve(a[1])
            if e.const() is None:
                cons.append((a[0], e, v))
        elif a[0] == "cp":
            e = st.resolve(a[2])
            if e.const() is None:
                cons.append(("cp", e, v, a[1]))
    rnd = random.Random(3)
    fixed = string_witness(st)
    if fixed is None:
        return None

    def base(e, out):
        for k in e.atoms():
            if isinstance(k, tuple) and k and k[0] in ("imod", "idiv") and len(k) == 3:
                base(st.resolve(k[1]), out)
            else:
                out.add(k)

    def val(e, env):
        r = 0
        for mono, c in e.n.t.items():
            t = c
            for k, x in mono:
                if k in env:
                    y = env[k]
                else:
                    a, b = val(st.resolve(k[1]), env), val(k[2], env)
                    y = a % b if k[0] == "imod" else a // b
                t = t * y ** x
            r += t
        return r
    groups = []
    for c in cons:
        s = set()
        base(c[1], s)
        m = [g for g in groups if g[0] & s]
        for g in m:
            groups.remove(g)
            s |= g[0]
        groups.append((s, sum((g[1] for g in m), []) + [c]))
    CH = [ord(x) for x in "a0[]\"#\\n- +.e\n_\u00e9E"] + [0x0967]
    lens = {}
    for vs, _ in groups:
        for k in vs:
            n = strings.length(k, fixed)
            if n is not None:
                lens[k] = n
    for vs, cs in groups:
        vs = sorted(vs, key=repr)
        ok = False
        for t in range(tries):
            env = {}
            hi = (2, 4, 12, 130)[t % 4]
            for k in vs:
                if k in lens:
                    env[k] = lens[k]
                elif isinstance(k, tuple) and k[0] == "el" and k[-1] == "char":
                    env[k] = rnd.choice(CH)
                elif isinstance(k, tuple) and k[0] == "parse":
                    env[k] = rnd.choice((0, 1, -1, 2, 3, 40, 5 * 10 ** 9))
                elif isinstance(k, tuple) and k[0] == "len":
                    env[k] = rnd.randint(0, hi * 2)
                else:
                    env[k] = rnd.randint(0, hi)
            try:
                good = True
                for c in cs:
                    x = val(c[1], env)
                    b = x < 0 if c[0] == "lt0" else x == 0 if c[0] == "eq0" else char_pred(c[3], int(x))
                    if b != c[2]:
                        good = False
                        break
            except (ZeroDivisionError, KeyError, TypeError, ValueError, OverflowError):
                good = False
            if good:
                ok = True
                break
        if not ok:
            return None
    return True


FIRST, BUDGET, AFTER, EACH = 320, 640, 40, 15        # seconds for the proof attempt; for it and the searches together; after a violation was found; for one shape


# ---------------------------------------------------------------- one root
class Diff:
    def __init__(self, kind, lab, path, detail):
        self.kind, self.lab, self.path, self.detail = kind, lab, path, detail


class Root:
    def __init__(self, prog, which):
        self.prog, self.which = prog, which
        self.fn = find(prog, NAMES[which])
        self.ts = Types(prog)
        self.obl = []            # (key, props, status, detail)
        self.counts = {}
        self.fns = set()

    # ------------------------------------------------------------ nonterminals
    def parser_fields(self, ty):
        fs = self.ts.fields(ty)
        T = self.prog.tys
        idx = [i for i, f in enumerate(fs) if T[f[1]]["k"] == "uint"]
        named = [i for i in idx if fs[i][0] == "index"]
        if named:
            i = named[0]
        elif len(idx) == 1:
            i = idx[0]
        else:
            raise NoRoot("no cursor field")
        toks = [j for j, f in enumerate(fs) if T[f[1]]["k"] == "adt" and T[f[1]]["name"] == "std::vec::Vec"]
        if len(toks) != 1:
            raise NoRoot("no token array field")
        return toks[0], i, [j for j in idx if j != i]

    def okty(self, name):
        f = find(self.prog, NAMES[name])
        return self.ts.arg(f.body["locals"][0])

    def nonterm(self, name):
        ok_ty = self.okty(name)

        def h(I, st, f, args, line):
            rt = f.body["locals"][0]
            ref = args[0]
            if not (isinstance(ref, tuple) and ref[0] == "ref"):
                return I.unknown_call(st, f.path, args, rt)
            v = I.load(st, ref[1], ref[2])
            if not (isinstance(v, tuple) and v and v[0] == "adt"):
                return I.unknown_call(st, f.path, args, rt)
            tf, xf, cf = self.parser_fields(v[1])
            tk, e = v[3][tf], v[3][xf]
            if not (isinstance(e, Num) and tk[0] == "seq" and len(tk[1]) == 1 and tk[1][0][0] == "sl" and tk[1][0][3] == ZERO):
                return I.unknown_call(st, f.path, args, rt)
            sl = tk[1][0]
            inp = TokIn(I, self.ts, sl[1], sl[2], sl[4])
            if name == self.which:
                self.reentry(I, st, v, cf, line)
            c = ("A", ("b", ("ntok", name, e)))
            out = []
            for side in (True, False):
                for s in st.copy().assume(c, side):
                    if side:
                        q = e + ONE_ + nonneg_atom(("adv", name, e))
                        ss = [s]
                        for cc in (inp.avail(e), inp.kind(e, s, "Str" if name == "param" else "Identifier"), le(q, inp.n)):
                            ss = [y for x in ss for y in x.assume(cc, True)]
                        for x in ss:
                            I.store(x, ref[1], ref[2] + (("f", xf),), q if self.shape is None else x.resolve(q))
                            if name == "param":
                                pr = args[1]
                                old = I.load(x, pr[1], pr[2])
                                it = ("e", ("plat", e))
                                new = ("log", old[1], mkseq(old[2][1] + (it,))) if old[0] == "log" else ("log", old, mkseq([it]))
                                I.store(x, pr[1], pr[2], new)
                                val = ("tup", ())
                            else:
                                val = ("sym", ("ntv", name, e), ok_ty)
                            out.append((x, ("adt", rt, 0, (val,))))
                    else:
                        q = e + nonneg_atom(("errpos", name, e))
                        if self.shape is not None:
                            q = s.resolve(q)
                        I.store(s, ref[1], ref[2] + (("f", xf),), q)
                        ok = s.assume(le(q, inp.n), True)
                        if len(ok) != 1:
                            continue
                        s = ok[0]
                        if name == "param":
                            I.store(s, args[1][1], args[1][2], ("unk", "parameters after an error"))
                        ety = self.ts.arg(rt, 1)
                        out.append((s, ("adt", rt, 1, (("sym", ("nterr", name, e), ety),))))
            return out
        return h

    def reentry(self, I, st, v, cf, line):
        """a nested call has to be bounded by a counter with a constant limit"""
        for j in cf:
            now = v[3][j]
            ent = self.entry[j]
            if isinstance(now, Num) and isinstance(ent, Num) and not vague(now):
                d = (now - ent).const()
                u = st.ub(now)
                if d is not None and d >= 1 and u is not None and u <= 100000:
                    self.note("nesting bound", {"C01", "C02"}, "ok", "call at line %d: nesting counter grows and is at most %s" % (line, u))
                    return
        bad = "nested call of %s at line %d is not limited by any counter of the parser: the stack grows with the nesting of the text" % (NAMES[self.which], line)
        unclear = any(not isinstance(v[3][j], Num) or vague(v[3][j]) for j in cf) or bool(st.unk)
        self.note("nesting bound", {"C01", "C02"}, "und" if unclear else "viol", bad)

    # ------------------------------------------------------------ set-up
    def note(self, key, props, status, detail):
        k = "%s/%s" % (self.which, key)
        self.obl.append((k, frozenset(props), status, detail))

    def interp(self, peel):
        I = Interp(self.prog, merge=False, overflow=True)
        I.max_parts = 4000
        I.maxrec = 3
        I.max_steps = 4000000
        I.peel = peel
        if self.which == "lex":
            I.norm_hook = ghost.Norm(self.prog)
            I.peel_filter = self.atend
        nts = {"dir": ("param", "dir"), "pre": ("param",), "parse": ("lex", "dir", "pre")}.get(self.which, ())
        for n in nts:
            f = find(self.prog, NAMES[n])
            I.nonterm[f.path] = self.lexterm if n == "lex" else self.nonterm(n)
        return I

    def atend(self, I, fn, head, left, states):
        """reruns that unroll the outer loop: only texts that end after the tokens read so far"""
        if len(I.stack) > 2 or left > 0:
            return states
        out = []
        for s in states:
            for v in s.mem.values():
                if isinstance(v, tuple) and v and v[0] == "adt":
                    lay = I.norm_hook.layout(v[1])
                    if lay and len(lay[1]) == 1 and len(v[3]) > max(lay[0], lay[1][0]):
                        tx, c = v[3][lay[0]], v[3][lay[1][0]]
                        if isinstance(tx, tuple) and tx and tx[0] == "vref":
                            tx = tx[1]
                        if isinstance(c, Num) and isinstance(tx, tuple) and tx and tx[0] == "seq" and len(tx[1]) == 1 and tx[1][0][0] == "sl":
                            out += s.assume(eq(c, tx[1][0][4] - tx[1][0][3]), True)
                            break
            else:
                out.append(s)
        return out

    def lexterm(self, I, st, f, args, line):
        rt = f.body["locals"][0]
        okt = self.ts.arg(rt)
        out = []
        c = ("A", ("b", ("ntok", "lex", ZERO)))
        for side in (True, False):
            for s in st.copy().assume(c, side):
                if side:
                    out.append((s, ("adt", rt, 0, (I.mk(("tokens",), okt, s),))))
                else:
                    out.append((s, ("adt", rt, 1, (("sym", ("nterr", "lex", ZERO), self.ts.arg(rt, 1)),))))
        return out

    def prepare(self, I):
        st = State()
        f = self.fn
        args = [I.mk(("arg", i), f.body["locals"][i + 1], st) for i in range(f.body["nargs"])]
        ts = self.ts
        rt = f.body["locals"][0]
        if self.which in ("param", "dir", "pre"):
            v = st.mem[args[0][1]]
            tf, xf, cf = self.parser_fields(v[1])
            sl = v[3][tf][1][0]
            inp = TokIn(I, ts, sl[1], sl[2], sl[4])
            if self.shape is not None:
                v = v[:3] + (tuple(ZERO if i == xf else x for i, x in enumerate(v[3])),)
                st.mem[args[0][1]] = v
            self.entry = v[3]
            self.xf, self.cf = xf, cf
            st.assume(le(v[3][xf], inp.n))
            p0 = v[3][xf]
            if self.which == "param":
                pv = st.mem[args[1][1]]
                spec = ParamSpec(I, ts, inp, pv, pv[1])
                if self.shape is not None:
                    self.declaration(I, st, spec, pv)
            else:
                spec = (DirSpec if self.which == "dir" else PreSpec)(I, ts, inp, ts.arg(rt))
                pf = find(self.prog, NAMES["param"])
                spec.psetty = self.prog.tys[pf.body["locals"][2]]["to"]
                if self.shape is not None:
                    st.assume(eq(inp.n, Num.c(len(self.shape))))
                    self.tokens(st, spec, 0, self.shape)
            S = spec.start(p0)
        elif self.which == "parse":
            lf = find(self.prog, NAMES["lex"])
            ety = ts.arg(ts.arg(lf.body["locals"][0]))
            inp = TokIn(I, ts, ("tokens",), ety, nonneg_atom(("len", ("tokens",))))
            spec = TopSpec(I, ts, inp, self.okty("pre"), self.okty("dir"))
            if self.shape is not None:
                st.assume(eq(inp.n, Num.c(len(self.shape))))
                self.tokens(st, spec, 0, self.shape)
            S = spec.start(ZERO)
        else:
            from .lexspec import LexSpec
            if self.shape is not None and self.raw:
                args[0] = ("vref", mkseq([("lit", self.shape)] if self.shape else []))
            spec = LexSpec(I, ts, ts.arg(ts.arg(rt)), args[0])
            S = spec.start(ZERO)
            if self.shape is not None:
                t = self.shape.replace("\r\n", "\n") if self.raw else self.shape
                st.assume(eq(spec.n, Num.c(len(t))))
                for i, c in enumerate(t):
                    st.assume(("A", ("cp", "a_digit", spec.c(Num.c(i)))) if c == "d" else eq(spec.c(Num.c(i)), Num.c(ord(c))))
        return st, args, spec, S

    # ------------------------------------------------------------ analysis
    def analyse(self):
        """the proof attempt; if it leaves something undecided, searches for a violation along unrolled loops"""
        self.t0 = time.time()
        self.tried = 0
        self.refuting = False
        self.each = None
        self.shape, self.raw, self.deep = None, False, False
        self.I = None
        fails = [set(), set()]
        try:
            fails = self.once({}, 0)
        except (Limit, Undecided) as e:
            self.note("analysis", set(PROPS), "und", str(e))
        if self.settled() or not any(o[2] == "und" for o in self.obl):
            return
        self.refuting = True
        self.scaled()
        self.each = None
        if self.which == "lex":
            return self.shapes()
        if self.settled():
            return
        self.along()
        self.shape = None
        if self.settled():
            return
        peel = {}
        for _ in range(4):
            # first the loops that did not match, then those on the way to an undecided outcome
            for new in fails:
                new = [l for l in new if l not in peel]
                if new:
                    break
            if not new:
                break
            for l in new:
                peel[l] = 1
            fails = self.search(dict(peel))
            if self.settled() or fails is None:
                break
        for rest, beam in ((1, 300), (2, 200), (3, 120), (5, 60)):
            if self.settled() or time.time() - self.t0 > BUDGET:
                return
            self.search({}, rest, beam)

    def shapes(self):
        """the lexer along classes of texts"""
        end = self.t0 + BUDGET
        self.each = EACH
        todo = [(t, True) for t in shapes.RAW] + [None] + [(t, False) for t in shapes.shapes(self.prog, self.fn)]
        n = 0
        for t in todo:
            if t is None:
                self.growing()
                if self.settled():
                    end = min(end, time.time() + AFTER)
                continue
            self.shape, self.raw = t
            n += 1
            mark = len(self.obl)
            self.search({}, len(self.shape) + 2, 60)
            if len(self.obl) > mark:
                end = min(end, time.time() + AFTER)
            if time.time() > end:
                break
        self.counts["shapes"] = n

    def scaled(self):
        """limits too large to reach along unrolled loops: the same functions with the limit read as a small one"""
        fs = shapes.reach(self.prog, self.fn)
        cyc = shapes.cyclic(self.prog, fs)          # nesting limits may be as they like
        sc = shapes.Scaled(self.prog, [f for f in fs if f.id not in cyc])
        if not sc.limits:
            return
        self.each = EACH
        end = time.time() + 90
        n = sc.TO
        if self.which == "lex":
            todo = [pre + unit * k + post for pre, unit, post in shapes.REPEAT for k in (n - 1, n, n + 1, n + 2)]
        else:
            _, words, _ = shapes.constants(self.prog, fs)
            todo = [t for t in shapes.TOKEN_SHAPES[self.which](words, [n]) if len(t[1] if self.which == "param" else t) >= n - 2]
        mark = len(self.obl)
        with sc:
            for self.shape in todo:
                self.raw = False
                self.search({}, 5 + len(self.shape[1] if self.which == "param" else self.shape), 60)
                if len(self.obl) > mark and self.which != "lex" or time.time() > end:
                    break
        self.shape = None
        txt = "; shown for the limit %s of the code read as %d" % (", ".join(map(str, sorted(sc.limits))), n)
        self.obl[mark:] = [o[:3] + (o[3] + txt,) + tuple(o[4:]) for o in self.obl[mark:]]

    def along(self):
        """along sequences of tokens"""
        _, words, sizes = shapes.constants(self.prog, shapes.reach(self.prog, self.fn))
        end = self.t0 + BUDGET
        n = 0
        for self.shape in shapes.TOKEN_SHAPES[self.which](words, sizes):
            n += 1
            mark = len(self.obl)
            self.search({}, 5 + len(self.shape[1] if self.which == "param" else self.shape), 60)
            if len(self.obl) > mark:
                end = min(end, time.time() + AFTER)
            if time.time() > end:
                break
        self.counts["shapes"] = n

    def declaration(self, I, st, spec, pset):
        """a declaration and its values"""
        (nw, tag), vals, old = self.shape
        inp = spec.inp
        for v in pset[3]:
            st.assume(eq(seqlen(v), Num.c(old)))
        st.assume(eq(inp.n, Num.c(1 + len(vals))))
        st.assume(inp.kind(ZERO, st, "Str"))
        wk = ("words", inp.val(ZERO, st, "Str"))
        st.assume(eq(nonneg_atom(("len", wk)), Num.c(nw)))
        st.assume(spec.streq(st, I.strip(st, I.elem(wk, "word", ZERO, st)), tag))
        self.tokens(st, spec, 1, vals)

    def tokens(self, st, spec, at, toks):
        inp = spec.inp
        for i, k in enumerate(toks):
            p = Num.c(at + i)
            k, text, starts = (k + ((),))[:3] if isinstance(k, tuple) else (k, None, ())
            st.assume(inp.kind(p, st, k))
            if text is not None:
                st.assume(spec.streq(st, inp.val(p, st, k), text))
            for name in {"Str": ("param",), "Identifier": ("dir", "pre") if self.which == "parse" else (self.which,)}.get(k, ()):
                # what starts here takes one token
                st.assume(eq(nonneg_atom(("adv", name, p)), ZERO))
                st.assume(eq(nonneg_atom(("errpos", name, p)), ONE_))
            for name, ok in starts:
                st.assume(("A", ("b", ("ntok", name, p))), ok)

    def growing(self):
        """recursion whose depth follows the length of the text"""
        fs = shapes.reach(self.prog, self.fn)
        cyc = shapes.cyclic(self.prog, fs)
        if not cyc:
            return
        # a limit among the constants of the functions would show later than in the texts tried here
        if any(n > 20 for n in shapes.constants(self.prog, [f for f in fs if f.id in cyc], 10 ** 9)[2]):
            return
        self.raw, self.deep = False, True
        stop = time.time() + 60
        for pre, unit, post in shapes.REPEAT:
            if time.time() > stop:
                break
            ds = []
            for n in (5, 10, 20):
                self.shape = pre + unit * n + post
                self.search({}, len(self.shape) + 2, 20)
                ds.append(dict(self.I.deepest) if self.I is not None else {})
            for k in cyc:
                a, b, c = (d.get(k, 0) for d in ds)
                if c - b == 2 * (b - a) and c - b >= 10:
                    f = self.prog.fns[k]
                    self.note("recursion of %s" % f.path, {"C02"}, "viol", "%s (%s:%d) calls itself once more for each repetition of %r: %d, %d and %d nested calls for 5, 10 and 20 of them, so the stack grows with the text" % (
                        f.path, f.file, f.line, unit, a, b, c))
        self.deep = False

    def settled(self):
        return any(o[2] == "viol" for o in self.obl)

    def search(self, peel, rest=None, beam=None):
        """a rerun along unrolled loops; it only adds violations"""
        mark = len(self.obl)
        try:
            return self.once(peel, 1, rest, beam)
        except (Limit, Undecided):
            return None
        finally:
            self.obl[mark:] = [o for o in self.obl[mark:] if o[2] == "viol"]

    def once(self, peel, rnd, rest=None, beam=None):
        t0 = time.time()
        I = self.interp(dict(peel))
        self.I = I
        I.peel_default, I.beam = rest, beam
        if self.deep:
            I.maxrec = 70
        I.deadline = self.t0 + (BUDGET if rnd else FIRST)
        if rnd and self.each is not None:
            I.deadline = min(I.deadline, time.time() + self.each)
        st, args, spec, S0 = self.prepare(I)
        mark = len(self.obl)
        outs = I.run_fn(self.fn, args, st)
        self.t_interp = time.time() - t0
        self.fns |= I.fns_seen
        sim = Sim(I, spec, spec.texts() if hasattr(spec, "texts") else ())
        self.I, self.sim, self.spec = I, sim, spec
        first = rnd == 0
        self.crashes(I, first)
        if first:
            self.loops(I)
        bad = set()
        self.weak = set()
        self.limits = False
        if self.which == "dir":
            cs = {k for j in self.cf for k in self.entry[j].atoms()}
            self.limits = any(self.verdict(v) == "reject" and any(a[0] == "lt0" and cs & set(a[1].atoms()) for a in s.facts) for s, v in outs)
        for s, v in outs:
            if rnd and time.time() > I.deadline:
                break
            self.judge(I, sim, spec, S0, s, v, args, bad, peel)
        self.counts["outcomes"] = self.counts.get("outcomes", 0) + len(outs)
        self.counts["loops matched"] = max(self.counts.get("loops matched", 0), sim.matched)
        self.counts["call_sites"] = self.counts.get("call_sites", 0) + I.calls_seen
        self.t_sim = time.time() - t0 - self.t_interp
        return [{(I.loops[u].fn.id, I.loops[u].head) for u in us if u in I.loops} for us in (bad, self.weak)]

    def crashes(self, I, first):
        seen = set()
        for fn, line, what, st, stack in I.panics:
            key = "no panic: %s: %s" % (fn.path, what if isinstance(what, str) else what[0])
            if key in seen:
                continue
            vg = [a for a in st.facts if vague(a)]
            w = self.instance(st, lambda env: True) if self.which == "lex" and not first else None
            if w is not None:
                seen.add(key)
                self.note(key, {"C01"}, "viol", "line %d of %s panics (%s), for instance on the text %r; call path %s" % (line, fn.path, what, w, " > ".join(stack)))
                continue
            if st.unk or vg or not witness(st):
                if first:
                    self.note(key, {"C01"}, "und", "line %d: %s (not decided: %s)" % (line, what, (st.unk or ("imprecise state",))[0]))
                continue
            seen.add(key)
            self.note(key, {"C01"}, "viol", "line %d of %s panics (%s) when %s; call path %s" % (line, fn.path, what, facts_text(st), " > ".join(stack)))
        if first and not I.panics:
            self.note("no panic reachable", {"C01"}, "ok", "%d functions, %d calls" % (len(I.fns_seen), I.calls_seen))
        for fn, msg, st in I.cuts:
            self.note("recursion: " + fn.path, {"C02"}, "viol" if self.grows(I, fn, st) else "und", msg + ", " + facts_text(st))

    def grows(self, I, fn, st):
        return not st.unk and bool(witness(st)) and not any(vague(a) for a in st.facts)

    def loops(self, I):
        seen = {}
        for rec in I.looplog:
            for a in rec.alts:
                k = "loop of %s ends" % rec.fn.path
                ok = "ok" if a["rank"] else "und"
                d = "line %d: every iteration moves a cursor that is bounded by the input" % rec.line
                if a["stuck"] and not any(vague(f) for f in a["st"].facts) and not a["st"].unk and witness(a["st"]):
                    ok, d = "viol", "line %d: an iteration changes nothing and the loop continues when %s" % (rec.line, facts_text(a["st"]))
                elif not a["rank"]:
                    d = "line %d: no bounded cursor found that every iteration moves" % rec.line
                seen.setdefault((k, ok, d), 0)
                seen[(k, ok, d)] += 1
        for (k, ok, d), n in seen.items():
            self.note(k, {"C02"}, ok, d + " (%d alternatives)" % n)

    # ------------------------------------------------------------ outcomes
    def verdict(self, v):
        if isinstance(v, tuple) and v and v[0] == "adt" and len(v[3]) == 1:
            return "accept" if v[2] == 0 else "reject"
        return None

    def judge(self, I, sim, spec, S0, st, v, args, bad, peel):
        m = len(self.obl)
        self.judge1(I, sim, spec, S0, st, v, args, bad, peel)
        if any(o[2] == "und" for o in self.obl[m:]):
            self.weak |= {e[0] for e in st.aux.get("loops", ())}

    def judge1(self, I, sim, spec, S0, st, v, args, bad, peel):
        vd = self.verdict(v)
        if vd is None or st.unk:
            self.note("outcome", self.allprops(), "und", "outside the model: %s" % (st.unk[0] if st.unk else "unknown result"))
            return
        out = {"counters": [], "v": v}
        final = None
        if self.which in ("param", "dir", "pre"):
            pv = st.mem[args[0][1]]
            final = pv[3][self.xf] if vd == "accept" else None
            out["counters"] = [self.entry[j] for j in self.cf]
            out["parser"] = pv
            if vd == "accept" and (not isinstance(final, Num) or vague(final)):
                self.note("outcome", self.allprops(), "und", "the cursor is not known at the end")
                return
        vocab = Vocab(I, st)
        try:
            rs = sim.run(S0, st.copy(), frozenset(), final=final, vocab=vocab)
        except Und as e:
            us = {u for u, w in sim.fails.items() if w == str(e)}
            bad |= us
            self.note("outcome", self.props_of(None, "und"), "und", str(e))
            return
        n = 0
        for r in rs:
            soft = bool(r[2].aux.get("soft"))
            S = r[1]
            if r[0] == "cap":
                if vd == "accept":
                    self.note("outcome", self.props_of(S.lab, "und"), "und", "too many cases in state %s" % (S,))
                continue
            if r[0] == "past":
                if spec.excuse(S, r[2], vd, out):
                    continue
                self.report(S, r[2], soft, "accept-early", "", "accepts and stops where more belongs to the construct (state %s)" % (S.lab,))
                n += 1
                continue
            want, val = r[3], r[4]
            if want == vd == "reject":
                continue
            if want != vd:
                if spec.excuse(S, r[2], vd, out):
                    continue
                extra = ()
                if self.which == "lex" and self.shape is not None and vd == "reject" and not set(self.shape) & set('"#') and any(s[0] == "e" and self.isnum(s[1]) for s in val["ret"][1]):
                    extra = {"C12"}
                self.report(S, r[2], soft, vd, "", extra=extra, text="the text is %sed but has to be %sed (reference state %s)" % (vd, want, S.lab))
                n += 1
                continue
            n += self.compare(sim, S, r[2], soft, val, out, args)
        if n == 0:
            lab = rs[0][1].lab if rs else None
            self.note("outcome %s" % vd, self.allprops() if vd == "accept" else self.props_of(lab, "accept"), "ok", "")

    def compare(self, sim, S, st, soft, val, out, args):
        n = 0
        self.whole = (out["v"], [st.mem[args[1][1]]] if "pset" in val else [])
        if "index" in val:
            r = sim.cmp.eq(st, out["parser"][3][self.xf], val["index"])
            n += self.result(r, S, st, soft, "index", "index", "stops at token %s, expected %s" % (out["parser"][3][self.xf], val["index"]))
            for j in self.cf:
                r = sim.cmp.eq(st, out["parser"][3][j], self.entry[j])
                if r is False:
                    # a counter that is not restored: harmful only if some outcome depends on it
                    low = bool(st.copy().assume(lt(out["parser"][3][j], self.entry[j]), True))
                    n += self.result(r if self.limits else None, S, st, soft, "counter", "counter", extra={"C02", "C01"} if low else (), text="a nesting counter is left changed: %s" % (out["parser"][3][j],))
                elif r is None:
                    n += self.result(r, S, st, soft, "counter", "counter", "nesting counter unknown")
        if "ret" in val:
            n += self.values(sim, S, st, soft, out["v"][3][0], val["ret"], ())
        if "pset" in val:
            n += self.values(sim, S, st, soft, st.mem[args[1][1]], val["pset"], ())
        return n

    def values(self, sim, S, st, soft, got, want, path):
        r = sim.cmp.eq(st, got, want)
        if r is True:
            return 0
        # find the part that differs
        if isinstance(got, tuple) and isinstance(want, tuple) and got and want and got[0] == want[0]:
            if got[0] == "adt" and got[1:3] == want[1:3] and len(got[3]) == len(want[3]):
                fs = self.ts.fields(got[1], got[2])
                if not (len(fs) == 2 and sim.cmp.pospair(st, got, want) is not NotImplemented):
                    return sum(self.values(sim, S, st, soft, x, y, path + (f[0],)) for x, y, f in zip(got[3], want[3], fs))
            if got[0] in ("tup", "arr") and len(got[1]) == len(want[1]):
                return sum(self.values(sim, S, st, soft, x, y, path + (str(i),)) for i, (x, y) in enumerate(zip(got[1], want[1])))
            if got[0] == "seq" and want[0] == "seq":
                xs, ys = sim.cmp.segs(st, got), sim.cmp.segs(st, want)
                if len(xs) == len(ys) and all(a[0] == b[0] and (a == b or a[0] == "e") for a, b in zip(xs, ys)):
                    return sum(self.values(sim, S, st, soft, a[1], b[1], path + ("[]",)) for a, b in zip(xs, ys) if a[0] == "e")
        extra = {"C04"} if mentions(want) - mentions(self.whole) else set()
        if self.which == "lex" and path == () and got[:1] == want[:1] == ("seq",):
            # the first token that differs
            for a, b in zip(sim.cmp.segs(st, got), sim.cmp.segs(st, want)):
                if a[0] == b[0] == "e" and sim.cmp.eq(st, a[1], b[1]) is True:
                    continue
                if a[0] == b[0] == "e" and any(self.isnum(x[1]) for x in (a, b)):
                    extra |= {"C12"}
                break
        if self.which == "lex" and "[]" not in path[1:]:
            ns = [isinstance(x, Num) or isinstance(x, tuple) and x and x[0] == "adt" and len(x[3]) == 1 and isinstance(x[3][0], Num) for x in (got, want)]
            if all(ns):
                path += ("Num",)
            elif any(ns):
                extra |= {"C12"}
        return self.result(r, S, st, soft, "value", path, extra=extra, text="%s is %s, expected %s" % (".".join(path) or "the result", valstr(got, self.prog)[:300], valstr(want, self.prog)[:300]), vals=(got, want))

    def isnum(self, tok):
        """is the token a number"""
        ty = tok[3][self.spec.fty] if isinstance(tok, tuple) and tok[0] == "adt" and len(tok[3]) == 2 else None
        return isinstance(ty, tuple) and ty[0] == "adt" and len(ty[3]) == 1 and isinstance(ty[3][0], Num)

    def instance(self, st, check):
        if self.which != "lex" or self.tried > 4000:
            return None
        self.tried += 1
        return concrete.instance(st, self.spec.key, check)

    def result(self, r, S, st, soft, kind, path, text, extra=(), vals=None):
        if r is True:
            return 0
        if vals is not None and self.which == "lex" and self.refuting:
            def differ(env):
                return not concrete.same(env.val(vals[0]), env.val(vals[1]))
            w = self.instance(st, differ)
            if w is not None:
                self.confirmed(S, st, kind, path, text, extra, w)
                return 1
        if r is None:
            self.note("value", self.props_of(S.lab, kind, path) | set(extra), "und", text)
            return 1
        self.report(S, st, soft, kind, path, text, extra)
        return 1

    def report(self, S, st, soft, kind, path, text, extra=()):
        props = self.props_of(S.lab, kind, path) | set(extra)
        key = "%s %s in %s" % (kind, ".".join(path) if isinstance(path, tuple) else path, labstr(S.lab))
        if kind in ("accept", "reject", "accept-early") and self.which == "lex" and self.refuting:
            w = self.instance(st, lambda env: True)
            if w is not None:
                self.confirmed(S, st, kind, path, text, extra, w)
                return
        if soft or any(vague(a) for a in st.facts) or not self.spec.feasible(st) or not witness(st):
            self.note(key, props, "und", "not certain: " + text)
            return
        lines = [p for p in st.path][-6:]
        self.note(key, props, "viol", "%s: %s; when %s; decided at %s" % (self.fn.path, text, facts_text(st), ", ".join("%s:%s" % (p[0], p[1]) for p in lines)))

    def confirmed(self, S, st, kind, path, text, extra, example):
        props = self.props_of(S.lab, kind, path) | set(extra)
        key = "%s %s in %s" % (kind, ".".join(path) if isinstance(path, tuple) else path, labstr(S.lab))
        lines = [p for p in st.path][-6:]
        self.note(key, props, "viol", "%s: %s; for instance the text %r; decided at %s" % (
            self.fn.path, text, example, ", ".join("%s:%s" % (p[0], p[1]) for p in lines)))

    # ------------------------------------------------------------ which property a difference belongs to
    def allprops(self):
        return {"lex": {"C10", "C11", "C12"}, "param": {"C04", "C08", "C09", "C10"}, "dir": {"C04", "C05", "C06", "C10"},
                "pre": {"C04", "C07", "C10"}, "parse": {"C04", "C05", "C07"}}[self.which]

    def props_of(self, lab, kind, path=""):
        w = self.which
        pos = isinstance(path, tuple) and ("pos" in path or self.ispos(lab, path))
        if kind == "und":
            return self.allprops()
        if w == "lex":
            if pos:
                return {"C10"}
            h = lab[0] if isinstance(lab, tuple) else lab
            if kind == "value" and isinstance(path, tuple) and "Num" in path:
                return {"C12"}
            r = {"C12"} if str(h).startswith(("N", "E", "F", "X")) else {"C11"}
            return r | {"C04"} if kind == "accept" else r
        if w == "param":
            if pos:
                return {"C08", "C10"}
            if kind == "value" and isinstance(path, tuple) and "values" not in path:
                return {"C08"}
            if kind == "accept" or kind == "accept-early" or kind == "index":
                return {"C04", "C08", "C09"}
            return {"C08", "C09"}
        if w == "dir":
            h, kw = (lab[0], lab[1]) if isinstance(lab, tuple) else (lab, "")
            b = {"C05"} if kw in DirSpec.BLOCK else {"C06"} if kw else {"C05", "C06"}
            if kind == "counter":
                b = {"C05"}
            if pos:
                return b | {"C10"}
            if kind in ("accept", "accept-early", "index"):
                return b | {"C04"}
            return b
        if w == "pre":
            if pos:
                return {"C07", "C10"}
            b = {"C07", "C09"} if isinstance(lab, tuple) and lab[0] == "F" and kind != "value" else {"C07"}
            return b | {"C04"} if kind in ("accept", "accept-early", "index") else b
        if kind in ("accept", "accept-early"):
            return {"C04", "C05", "C07"} if lab != "END" else {"C04"}
        return {"C04", "C07", "C05"}

    def ispos(self, lab, path):
        return path[:1] == ("0",) and self.which == "pre"


def mentions(v, out=None):
    """the tokens (or parts of tokens) a value is made of"""
    out = set() if out is None else out
    if isinstance(v, Num):
        for k in v.atoms():
            if isinstance(k, tuple):
                mentions(k, out)
    elif isinstance(v, (tuple, list)):
        if v and v[0] in ("sl", "el", "plat", "ntv", "star", "map"):
            out.add(okey(v))
        for e in v:
            if isinstance(e, (tuple, list, Num)):
                mentions(e, out)
    return out


def labstr(l):
    return "-".join(str(x) for x in l) if isinstance(l, tuple) else str(l)


class Vocab:
    """what the code looks at on the way to an outcome"""

    def __init__(self, I, st):
        self.items = set()
        self.read, self.st = None, st
        self.walk(st.facts)
        for ent in st.aux.get("loops", ()):
            rec = I.loops.get(ent[0])
            for a in rec.alts if rec else ():
                self.walk(a["facts"])

    def walk(self, facts):
        for a in facts:
            self.add(a)

    def add(self, x):
        if isinstance(x, Num):
            for k in x.atoms():
                self.items.add(k)
                self.add(k)
        elif isinstance(x, tuple):
            self.items.add(x)
            for e in x:
                if isinstance(e, (tuple, Num)):
                    self.add(e)

    def __contains__(self, x):
        return x in self.items

    def reads(self, x):
        """might the code have looked at the contents of the tokens that x is about?"""
        if self.read is None:
            self.read = set()
            for i in self.items:
                if isinstance(i, tuple) and i and i[0] == "v":
                    tokens_of(i, self.read)
        mine = set()
        tokens_of(x, mine)
        for k in mine:
            for q in self.read:
                if k[:2] == q[:2]:
                    d = self.st.resolve(k[2] - q[2]).const()
                    if d is None or d == 0:
                        return True
        return not mine


def tokens_of(x, out):
    if isinstance(x, Num):
        for k in x.atoms():
            tokens_of(k, out)
    elif isinstance(x, tuple):
        if x and x[0] == "el" and len(x) >= 3 and isinstance(x[2], Num):
            out.add(x)
            return
        for e in x:
            if isinstance(e, (tuple, Num)):
                tokens_of(e, out)


def facts_text(st):
    out = []
    for a, v in st.facts.items():
        if a[0] == "dsc":
            out.append("%s in %s" % (condstr(("A", a))[:80], sorted(v)))
        else:
            out.append(("" if v else "not ") + condstr(("A", a))[:110])
    return " and ".join(out[-10:])[:900]


# ---------------------------------------------------------------- the checks
NEEDS = {
    "C01": ("lex", "param", "dir", "pre", "parse"), "C02": ("lex", "param", "dir", "pre", "parse"),
    "C04": ("param", "dir", "pre", "parse", "lex"), "C05": ("dir", "parse"), "C06": ("dir",), "C07": ("pre", "parse"),
    "C08": ("param",), "C09": ("param", "pre"), "C10": ("lex", "param", "dir", "pre"), "C11": ("lex",), "C12": ("lex",),
}
RULE = {
    "C01": "no panicking construct (failed assertion, unwrap, explicit panic, out-of-range access, overflow) is reachable from the parsing entry points",
    "C02": "every loop moves a cursor that is bounded by the input, every recursion is limited by a counter with a constant bound",
}
LIMIT = 700


class Late(Exception):
    pass


def _late(*_):
    raise Late()


def _work(conn, prog, which):
    import signal
    signal.signal(signal.SIGALRM, _late)
    signal.alarm(LIMIT)
    obl, counts, fns, err = [], {}, set(), None
    R = None
    try:
        R = Root(prog, which)
        R.analyse()
    except NoRoot as e:
        err = "the entry point is not recognised: %s" % e
    except Late:
        err = "time limit of the analysis"
    except RecursionError:
        err = "recursion limit of the analysis"
    except MemoryError:
        err = "memory limit of the analysis"
    except Exception as e:      # a construct the analysis does not know is no verdict
        import traceback
        sys.stderr.write(traceback.format_exc())
        err = "analysis failed: %s: %s" % (type(e).__name__, e)
    signal.alarm(0)
    if R is not None:
        obl, counts, fns = R.obl, R.counts, {str(f) for f in R.fns}
    conn.send((obl, counts, fns, err))
    conn.close()


def check(prop, tier):
    import multiprocessing as mp
    R = common.Report(prop, RULE.get(prop, "every path of the parsing entry points is simulated by the reference transducer of the grammar: "
                                           "same verdict, same tokens consumed, same values built"))
    R.assumptions = ["std collections, strings and str::parse behave as documented (models in engine/models.py)",
                     "fewer than 2^63 characters and tokens; real arithmetic for floats",
                     "an entry point that calls another one is checked against the other's own specification (induction on the nesting of calls)"]
    ctx = mp.get_context("fork")
    jobs = []
    for cfg in sorted(common.CONFIGS):
        prog = common.program(cfg)
        for which in NEEDS[prop]:
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_work, args=(b, prog, which))
            p.start()
            b.close()
            jobs.append((cfg, which, a, p))
    for cfg, which, a, p in jobs:
        try:
            obl, counts, fns, err = a.recv()
        except EOFError:
            obl, counts, fns, err = [], {}, set(), "the analysis process ended"
        p.join()
        n = {"ok": 0, "viol": 0, "und": 0}
        agg = {}
        for key, props, status, detail in obl:
            if prop not in props:
                continue
            n[status] += 1
            agg.setdefault((key, status), []).append(detail)
        if err:
            R.und("%s/%s" % (cfg, which), err)
        for (key, status), ds in agg.items():
            k = "%s %s" % (cfg, key)
            if status == "viol":
                R.viol(k, ds[0])
            elif status == "und":
                R.und(k, "%s%s" % (ds[0][:600], " (and %d more)" % (len(ds) - 1) if len(ds) > 1 else ""))
            else:
                for d in ds:
                    R.ok(k, d)
        for c, v in counts.items():
            R.count(c, v)
        R.fns |= fns
        R.sample("%s %s (%s): %d paths/obligations discharged, %d undecided, %d violated" % (cfg, which, NAMES[which], n["ok"], n["und"], n["viol"]))
    return R
