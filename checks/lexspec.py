"""Reference transducer of the lexer (C10, C11, C12)."""
from engine.terms import Num, cand, cor, cnot, eq, lt, le, ZERO
from engine.values import mkseq, seqlen, nonneg_atom, EMPTY, ONE_, as_segs
from engine.state import char_pred
from . import ghost
from .sim import SS, Und, Cmp

REJ = ("halt", "reject", None)
CRLF = (mkseq([("lit", "\r\n")]), mkseq([("lit", "\n")]))


def ch(c):
    return Num.c(ord(c))


class LexSpec:
    def __init__(self, I, ts, tokty, arg):
        self.I, self.ts, self.tokty = I, ts, tokty
        raw = I.strip(None, arg) if not (isinstance(arg, tuple) and arg[0] == "vref") else arg[1]
        self.raw = raw
        self.key = ("replace", raw, CRLF[0], CRLF[1])
        self.n = nonneg_atom(("len", self.key))
        self.fpos, self.fty = ts.field(tokty, "pos"), ts.field(tokty, "ty")
        self.posty = ts.fields(tokty)[self.fpos][1]
        self.tty = ts.fields(tokty)[self.fty][1]
        pf = ts.fields(self.posty)
        self.rc = [f[0] for f in pf]
        if sorted(self.rc) != ["c", "r"]:
            from .parser import NoRoot
            raise NoRoot("fields of the position type")
        T = ts.T
        self.ity = T[ts.fields(self.tty, ts.variant(self.tty, "Int"))[0][1]]["n"]
        self.fty_ = T[ts.fields(self.tty, ts.variant(self.tty, "Float"))[0][1]]["n"]
        self.cmp = Cmp(I)

    def texts(self):
        return [(self.key, "char", ZERO)]

    def start(self, p):
        return SS("TOP", p, toks=EMPTY)

    # ------------------------------------------------------------ pieces
    def c(self, p):
        return nonneg_atom(("el", self.key, p, "char"))

    def pos(self, e):
        d = {"r": ghost.row(self.key, e), "c": ghost.col(self.key, e)}
        return ("adt", self.posty, 0, tuple(d[n] for n in self.rc))

    def token(self, at, kind, *v):
        fs = {self.fpos: self.pos(at), self.fty: self.ts.enum(self.tty, kind, *v)}
        return ("e", ("adt", self.tokty, 0, tuple(fs[i] for i in range(len(self.ts.fields(self.tokty))))))

    def emit(self, S, p, tok):
        return SS("TOP", p, toks=mkseq(S.r["toks"][1] + (tok,)))

    def put(self, S, reg, v):
        return dict(S.r, **{reg: mkseq(S.r[reg][1] + (v,))})

    def avail(self, p):
        return lt(p, self.n)

    def step(self, S, st):
        p, lab = S.p, S.lab
        c = self.c(p)
        q = p + ONE_
        end = cnot(self.avail(p))
        num, alpha = ("A", ("cp", "num", c)), ("A", ("cp", "alpha", c))
        if lab == "TOP":
            return ("switch", [(end, ("halt", "accept", {"ret": S.r["toks"]})),
                               (eq(c, ch("#")), S.to("COMMENT", q, **S.r)),
                               (("A", ("cp", "ws", c)), S.to("TOP", q, **S.r)),
                               (eq(c, ch('"')), S.to("STR", q, at=p, buf=EMPTY, **S.r)),
                               (eq(c, ch("[")), self.emit(S, q, self.token(p, "LBracket"))),
                               (eq(c, ch("]")), self.emit(S, q, self.token(p, "RBracket"))),
                               (eq(c, ch("-")), S.to("NUM0", q, at=p, M=mkseq([("e", c)]), **S.r)),
                               (eq(c, ch("+")), S.to("NUM0", q, at=p, M=EMPTY, **S.r)),
                               (cor(num, eq(c, ch("."))), S.to("NUM0", p, at=p, M=EMPTY, **S.r)),
                               (alpha, S.to("ID", q, at=p, buf=mkseq([("e", c)]), **S.r)),
                               (True, REJ)])
        if lab == "COMMENT":
            return ("switch", [(end, S.to("TOP", p, **S.r)),
                               (eq(c, ch("\n")), S.to("TOP", q, **S.r)), (True, S.to("COMMENT", q, **S.r))])
        if lab == "STR":
            return ("switch", [(end, REJ), (eq(c, ch("\\")), S.to("ESC", q, **S.r)),
                               (eq(c, ch('"')), self.emit(S, q, self.token(S.r["at"], "Str", S.r["buf"]))),
                               (True, S.to("STR", q, **self.put(S, "buf", ("e", c))))])
        if lab == "ESC":
            return ("switch", [(end, REJ), (eq(c, ch("n")), S.to("STR", q, **self.put(S, "buf", ("lit", "\n")))),
                               (True, S.to("STR", q, **self.put(S, "buf", ("e", c))))])
        if lab == "ID":
            more = cand(self.avail(p), cor(alpha, num))
            return ("switch", [(more, S.to("ID", q, **self.put(S, "buf", ("e", c)))),
                               (True, self.emit(S, p, self.token(S.r["at"], "Identifier", S.r["buf"])))])
        if lab in ("NUM0", "NUM1"):
            dot = REJ if lab == "NUM1" else S.to("NUM1", q, **self.put(S, "M", ("e", c)))
            ex = "E0" if lab == "NUM0" else "E1"
            return ("switch", [(end, S.to("FIN" + lab[3], p, **S.r)), (num, S.to(lab, q, **self.put(S, "M", ("e", c)))),
                               (eq(c, ch(".")), dot), (cnot(eq(c, ch("e"))), S.to("FIN" + lab[3], p, **S.r)),
                               (eq(seqlen(S.r["M"]), ZERO), REJ), (True, S.to(ex, q, **S.r))])
        if lab in ("E0", "E1"):
            x = "X" + lab[1]
            return ("switch", [(end, REJ), (eq(c, ch("-")), S.to(x + "0", q, X=mkseq([("e", c)]), **S.r)),
                               (eq(c, ch("+")), S.to(x + "0", q, X=EMPTY, **S.r)), (True, S.to(x + "0", p, X=EMPTY, **S.r))])
        if lab[0] == "X" and len(lab) == 3:
            dot = REJ if lab[2] == "1" else S.to(lab[:2] + "1", q, **self.put(S, "X", ("e", c)))
            return ("switch", [(end, S.to("XF" + lab[1:], p, **S.r)), (num, S.to(lab, q, **self.put(S, "X", ("e", c)))),
                               (eq(c, ch(".")), dot), (eq(c, ch("e")), REJ), (True, S.to("XF" + lab[1:], p, **S.r))])
        if lab in ("FIN0", "FIN1"):
            M = S.r["M"]
            k = "Float" if lab == "FIN1" else "Int"
            ok, v = self.parse(st, M, k)
            return ("switch", [(cnot(ok), REJ), (True, self.emit(S, p, self.token(S.r["at"], k, v)))])
        if lab.startswith("XF"):
            M, X = S.r["M"], S.r["X"]
            at = S.r["at"]
            xk = "Float" if lab[3] == "1" else "Int"
            okx, x = self.parse(st, X, xk)
            okf, mf = self.parse(st, M, "Float")
            real = self.emit(S, p, self.token(at, "Float", mf * Num.atom(("powf", Num.c(10), x))))
            if xk == "Float" or lab[2] == "1":
                return ("switch", [(cnot(okx), REJ), (cnot(okf), REJ), (True, real)])
            # integer exponent of an integer
            return ("switch", [(cnot(okx), REJ), (lt(x, ZERO), S.to("XR", p, **S.r)), (True, S.to("XI", p, **S.r))])
        if lab == "XR":
            okf, mf = self.parse(st, S.r["M"], "Float")
            x = self.parse(st, S.r["X"], "Int")[1]
            return ("switch", [(cnot(okf), REJ), (True, self.emit(S, p, self.token(S.r["at"], "Float", mf * Num.atom(("powf", Num.c(10), x)))))])
        if lab == "XI":
            oki, m = self.parse(st, S.r["M"], "Int")
            x = self.parse(st, S.r["X"], "Int")[1]
            pw = Num.atom(("ipow", Num.c(10), x))
            big = cor(lt(Num.c(2 ** 32 - 1), x), ("A", ("ovf", self.ity, pw, "checked")), ("A", ("ovf", self.ity, m * pw, "checked")))
            return ("switch", [(cnot(oki), REJ),
                               (big, self.emit(S, p, self.token(S.r["at"], "Float", m * Num.atom(("powf", Num.c(10), x))))),
                               (True, self.emit(S, p, self.token(S.r["at"], "Int", m * pw)))])
        raise AssertionError(lab)

    # ------------------------------------------------------------ number text
    def parse(self, st, seq, kind):
        """(condition, value): the text as a number of the kind"""
        ty = self.ity if kind == "Int" else self.fty_
        r = self.shape(st, seq)
        # the code's own text of this number, if it differs only in form
        for a in st.facts:
            if a[0] == "b" and isinstance(a[1], tuple) and a[1][0] == "parses" and a[1][1] == ty and a[1][2] != seq:
                if self.cmp.eq(st, a[1][2], seq) is True:
                    seq = a[1][2]
                    break
        c = ("A", ("b", ("parses", ty, seq)))
        if r is False:
            c = False
        return c, Num.atom(("parse", ty, seq))

    def shape(self, st, seq):
        """False if the text certainly is no number: empty, a sign only, a lone point"""
        segs = self.cmp.segs(st, seq)
        if not segs:
            return False
        if all(s[0] == "e" for s in segs):
            cs = [st.resolve(s[1]).const() if isinstance(s[1], Num) else None for s in segs]
            if all(x is not None for x in cs):
                t = "".join(chr(int(x)) for x in cs).lstrip("+-")
                if t in ("", "."):
                    return False
        return None

    def feasible(self, st):
        """texts without a digit are no numbers"""
        for a, v in st.facts.items():
            if a[0] == "b" and isinstance(a[1], tuple) and a[1][0] == "parses" and v is True:
                if self.shape(st, a[1][2]) is False:
                    return False
        return True

    def hard(self, a, vocab):
        if a[0] in ("cp",):
            return True
        if a[0] in ("lt0", "eq0"):
            for k in a[1].atoms():
                if isinstance(k, tuple) and k and k[0] in ("parse", "ipow", "powf") and k not in vocab:
                    return False
            return True
        return a in vocab

    def excuse(self, S, st, verdict, out):
        return False
