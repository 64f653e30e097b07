"""Loader for the facts written by the mirdump driver, plus CFG utilities."""
import json
import struct
from fractions import Fraction
from .terms import Num, INF, NAN


class Loop:
    __slots__ = ("head", "blocks", "parent")


class Fn:
    def __init__(self, prog, d):
        self.prog = prog
        self.__dict__.update(d)
        self.selfty = d["self"]
        self._cfg = None

    def succs(self, b):
        t = self.body["blocks"][b]["t"]
        k = t[0]
        if k == "goto":
            return [t[1]]
        if k == "switch":
            return list(dict.fromkeys([x[1] for x in t[2]] + [t[3]]))
        if k == "drop":
            return [t[2]]
        if k == "call":
            return [t[4]] if t[4] is not None else []
        if k == "assert":
            return [t[4]]
        return []

    def cfg(self):
        """(rpo index, loops by head, liveness at block entry)"""
        if self._cfg is None:
            n = len(self.body["blocks"])
            succ = [self.succs(b) for b in range(n)]
            order, seen = [], set()
            stack = [(0, iter(succ[0]))]
            seen.add(0)
            while stack:
                b, it = stack[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s)
                        stack.append((s, iter(succ[s])))
                        break
                else:
                    order.append(b)
                    stack.pop()
            order.reverse()
            rpo = {b: i for i, b in enumerate(order)}
            pred = {b: [] for b in order}
            for b in order:
                for s in succ[b]:
                    pred[s].append(b)
            # dominators
            dom = {b: None for b in order}
            dom[0] = 0
            ch = True
            while ch:
                ch = False
                for b in order[1:]:
                    new = None
                    for p in pred[b]:
                        if dom[p] is None:
                            continue
                        if new is None:
                            new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while rpo[x] > rpo[y]:
                                    x = dom[x]
                                while rpo[y] > rpo[x]:
                                    y = dom[y]
                            new = x
                    if dom[b] != new:
                        dom[b] = new
                        ch = True

            def dominates(a, b):
                while True:
                    if a == b:
                        return True
                    if b == 0:
                        return False
                    b = dom[b]
            loops = {}
            self.irreducible = False
            for b in order:
                for s in succ[b]:
                    if rpo[s] <= rpo[b]:
                        if not dominates(s, b):
                            self.irreducible = True
                            continue
                        body = loops.setdefault(s, {s})
                        st = [b]
                        while st:
                            x = st.pop()
                            if x not in body:
                                body.add(x)
                                st += pred[x]
            self.dom = dom
            self._cfg = (rpo, loops, self._live(succ, order))
        return self._cfg

    def _live(self, succ, order):
        blocks = self.body["blocks"]

        def pl_uses(p, out):
            out.add(p[0])
            for e in p[1]:
                if e[0] == "i":
                    out.add(e[1])

        def op_uses(o, out):
            if o[0] in "cm":
                pl_uses(o[1], out)

        def rv_uses(r, out):
            k = r[0]
            if k in ("use", "rep"):
                op_uses(r[1], out)
            elif k == "ref":
                pl_uses(r[2], out)
            elif k in ("ptr", "discr"):
                pl_uses(r[1], out)
            elif k == "cast":
                op_uses(r[2], out)
            elif k == "bin":
                op_uses(r[2], out)
                op_uses(r[3], out)
            elif k == "un":
                op_uses(r[2], out)
            elif k == "agg":
                for o in r[3]:
                    op_uses(o, out)
        # transfer: process backwards
        live = {b: frozenset() for b in range(len(blocks))}

        def transfer(b, out):
            L = set(out)
            t = blocks[b]["t"]
            k = t[0]
            if k == "switch":
                op_uses(t[1], L)
            elif k == "drop":
                pass
            elif k == "call":
                if not t[3][1]:
                    L.discard(t[3][0])
                else:
                    pl_uses(t[3], L)
                if "op" in t[1]:
                    op_uses(t[1]["op"], L)
                for a in t[2]:
                    op_uses(a, L)
            elif k == "assert":
                op_uses(t[1], L)
                if t[3][0] == "bounds":
                    op_uses(t[3][1], L)
                    op_uses(t[3][2], L)
            elif k == "ret":
                L.add(0)
            for s in reversed(blocks[b]["s"]):
                if s[0] == "=":
                    if not s[1][1]:
                        L.discard(s[1][0])
                    else:
                        pl_uses(s[1], L)
                    rv_uses(s[2], L)
                elif s[0] == "sd":
                    pl_uses(s[1], L)
            return frozenset(L)
        ch = True
        while ch:
            ch = False
            for b in reversed(order):
                out = set()
                for s in succ[b]:
                    out |= live[s]
                n = transfer(b, out)
                if n != live[b]:
                    live[b] = n
                    ch = True
        return live


class Program:
    def __init__(self, path):
        d = json.load(open(path))
        self.d = d
        self.tys = d["tys"]
        self.fns = {f["id"]: Fn(self, f) for f in d["fns"]}
        self.roots = [self.fns[r] for r in d["roots"]]

    def ty(self, t):
        return self.tys[t]

    def find(self, name, selfname=None, trait=None, targs=None, selfs=None):
        """root functions by name / self ADT name suffix / trait path suffix"""
        out = []
        for f in self.roots:
            if f.name != name or f.closure:
                continue
            st = self.tys[f.selfty] if f.selfty is not None else None
            if selfname is not None:
                if st is None:
                    continue
                s = st
                byref = False
                while s["k"] == "ref":
                    s = self.tys[s["to"]]
                    byref = True
                if s["k"] != "adt" or s["name"].split("::")[-1] != selfname:
                    continue
            if selfname is None and selfs is None and st is not None and trait is None:
                continue
            if selfs is not None and (st is None or st["s"] != selfs):
                continue
            if trait is not None and (f.trait is None or f.trait.split("::")[-1] != trait):
                continue
            if trait is None and f.trait is not None:
                continue
            out.append(f)
        return out

    def adt_name(self, t):
        x = self.tys[t]
        return x["name"].split("::")[-1] if x["k"] == "adt" else None


def float_const(bits, n):
    if n == "f32":
        v = struct.unpack("<f", struct.pack("<I", bits))[0]
    elif n == "f64":
        v = struct.unpack("<d", struct.pack("<Q", bits))[0]
    else:
        return Num.atom(("floatbits", bits, n))
    if v != v:
        return NAN
    if v in (float("inf"), float("-inf")):
        return INF if v > 0 else -INF
    return Num.c(Fraction(v))
