"""Summaries of loops with an unknown number of iterations.

The state at the loop head is generalised: every location the body changes is given a
class, and the head value of the location is written in terms of the class's atom.

  cnt d      v0 + d*n            n: the number of iterations so far
  ls g       v0 + s              s >= 0 unknown; locations of one group move in step
  ghost      row/col of a cursor location
  slice      v0 ++ input[cursor at entry .. cursor now]
  map        v0 ++ [t(0), .., t(n-1)]
  star       v0 ++ an unknown repetition of what the alternatives append
  key        a constant; one head state per combination of constants
  hv         unknown

The body is then interpreted once from every head; each way round must again be an
instance of a head, otherwise the class is weakened and the whole is repeated.  What
survives is an inductive description of the loop: its heads, the alternatives of one
iteration (with the facts under which each is taken) and the states that leave.
"""
from .terms import Num, lt, le, eq, ZERO, cnot, lt0
from .values import is_cond, nonneg_atom, mkseq, subst, contains, ONE_, EMPTY, elem_key, is_nonneg_atom, NONNEG
from .interp import LoopRec, Limit, _refs

MAXROUND = 14


# ---------------------------------------------------------------- paths into values
def get(v, path):
    for p in path:
        v = v[p]
    return v


def put(v, path, x):
    if not path:
        return x
    l = list(v)
    l[path[0]] = put(l[path[0]], path[1:], x)
    return tuple(l)


def diff(a, b, path, out, stops):
    if path in stops:
        if a != b:
            out.append(path)
        return
    if a is b or a == b:
        return
    if isinstance(a, tuple) and isinstance(b, tuple) and a and b and a[0] == b[0]:
        h = a[0]
        if h == "adt" and a[1:3] == b[1:3] and len(a[3]) == len(b[3]):
            for i in range(len(a[3])):
                diff(a[3][i], b[3][i], path + (3, i), out, stops)
            return
        if h in ("tup", "arr") and len(a[1]) == len(b[1]):
            for i in range(len(a[1])):
                diff(a[1][i], b[1][i], path + (1, i), out, stops)
            return
        if h == "clo" and a[1] == b[1] and len(a[2]) == len(b[2]):
            for i in range(len(a[2])):
                diff(a[2][i], b[2][i], path + (2, i), out, stops)
            return
        if h == "vref":
            diff(a[1], b[1], path + (1,), out, stops)
            return
        if h == "it" and a[1] == b[1] and len(a) == len(b):
            for i in range(2, len(a)):
                diff(a[i], b[i], path + (i,), out, stops)
            return
        if h == "log" and a[1] == b[1]:
            diff(a[2], b[2], path + (2,), out, stops)
            return
    out.append(path)


def appended(h, n):
    """segments by which the sequence n extends h, or None"""
    if not (isinstance(h, tuple) and isinstance(n, tuple) and h and n and h[0] == "seq" and n[0] == "seq"):
        return None
    hs, ns = h[1], n[1]
    if len(ns) >= len(hs) and ns[:len(hs)] == hs:
        return ns[len(hs):]
    if hs and len(ns) >= len(hs) and ns[:len(hs) - 1] == hs[:-1]:
        a, b = hs[-1], ns[len(hs) - 1]
        if a[0] == "sl" and b[0] == "sl" and a[1:4] == b[1:4]:
            return (("sl", a[1], a[2], a[4], b[4]),) + ns[len(hs):]
        if a[0] == "lit" and b[0] == "lit" and b[1].startswith(a[1]):
            return (("lit", b[1][len(a[1]):]),) + ns[len(hs):]
    return None


def const_value(v):
    """a value without symbolic parts"""
    if isinstance(v, Num):
        return v.const() is not None
    if v is True or v is False:
        return True
    if is_cond(v):
        return False
    if isinstance(v, tuple) and v:
        if v[0] == "adt":
            return all(const_value(x) for x in v[3])
        if v[0] == "tup":
            return all(const_value(x) for x in v[1])
        if v[0] in ("undef",):
            return True
        if v[0] == "vref":
            return const_value(v[1])
    return False


def nonneg(st, d):
    c = d.const()
    if c is not None:
        return c >= 0
    u = st.ub(-d)
    return u is not None and u <= 0


def ghost_atom(v):
    """(kind, key, e) if v is a row/col atom"""
    if isinstance(v, Num):
        k = v.single_atom()
        if isinstance(k, tuple) and k and k[0] in ("row", "col"):
            return k
    return None


def fingerprint(I, fn, fr, head, st):
    live = fn.cfg()[2][head]
    seen = []
    todo = [(fr, l) for l in sorted(live)]
    keep = set()
    while todo:
        k = todo.pop(0)
        if k in keep or k not in st.mem:
            continue
        keep.add(k)
        seen.append((k if not (isinstance(k[0], int)) else ("fr", k[0], k[1]), st.mem[k]))
        _refs(st.mem[k], todo)
    return (fn.id, head, fr, tuple(seen)), keep


class Summary:
    def __init__(self, I, fn, fr, head, blocks, st):
        self.I, self.fn, self.fr, self.head, self.blocks = I, fn, fr, head, blocks
        if I.norm_hook:
            I.norm_hook(I, st)
        self.entry = st
        fp, self.reach = fingerprint(I, fn, fr, head, st)
        ids = I.__dict__.setdefault("loop_ids", {})
        self.uid = ids.setdefault(fp, len(ids) + 1)
        self.classes = {}        # loc -> class
        self.line = fn.body["blocks"][head]["l"]
        self.n = nonneg_atom(("cnt", self.uid))
        self.inv = {}            # invariant facts kept at the heads

    # ------------------------------------------------------------ head states
    def v0(self, loc):
        return get(self.entry.mem[loc[0]], loc[1])

    def pathid(self, loc):
        root = loc[0]
        r = ("l", root[1]) if isinstance(root[0], int) and root[0] == self.fr else root
        return (r,) + loc[1]

    def cursor(self, loc):
        """head expression of a numeric location"""
        c = self.classes[loc]
        if c[0] == "cnt":
            return self.v0(loc) + self.n * Num.c(c[1])
        if c[0] == "ls":
            return self.v0(loc) + nonneg_atom(("ls", self.uid, c[1]))
        return None

    def headval(self, loc, keyval):
        c = self.classes[loc]
        v0 = self.v0(loc)
        k = c[0]
        if k in ("cnt", "ls"):
            return self.cursor(loc)
        if k == "ghost":
            cur = self.cursor(c[3])
            if (cur + c[4]).const() == 0:
                return ONE_
            return nonneg_atom((c[1], c[2], cur + c[4]))
        if k == "slice":
            cur = self.cursor(c[3])
            return mkseq(v0[1] + (("sl", c[1], c[2], self.v0(c[3]) + c[4], cur + c[4]),))
        if k == "star":
            return ("seq", v0[1] + (("star", self.uid, self.pathid(loc)),))
        if k == "map":
            return mkseq(v0[1] + (("map", self.n, ("kv", self.uid), c[1]),))
        if k == "key":
            return keyval
        if k == "hv":
            pid = self.pathid(loc)
            if isinstance(v0, Num):
                if c[1]:
                    return nonneg_atom(("hv", self.uid, pid))
                return Num.atom(("hv", self.uid, pid))
            if is_cond(v0):
                return ("A", ("b", ("hv", self.uid, pid)))
            return ("unk", "value carried round the loop at line %d" % self.line)
        raise AssertionError(c)

    def mkhead(self, keys):
        """keys: tuple of (loc, value)"""
        s = self.entry.copy()
        kv = dict(keys)
        for loc in sorted(self.classes, key=lambda l: (repr(l[0]), l[1])):
            v = self.headval(loc, kv.get(loc))
            if isinstance(v, tuple) and v and v[0] == "unk":
                s.note(v[1])
            s.mem[loc[0]] = put(s.mem[loc[0]], loc[1], v)
        for a, v in self.inv.items():
            s.facts[a] = v
        return s

    def keyof(self, st):
        out = []
        for loc, c in self.classes.items():
            if c[0] == "key":
                try:
                    out.append((loc, get(st.mem[loc[0]], loc[1])))
                except (IndexError, TypeError, KeyError):
                    return None
        return tuple(sorted(out, key=lambda x: (repr(x[0]))))

    # ------------------------------------------------------------ one round
    def run(self):
        I = self.I
        start = (len(I.panics), len(I.cuts), len(I.looplog))
        for rnd in range(MAXROUND):
            del I.panics[start[0]:]
            del I.cuts[start[1]:]
            del I.looplog[start[2]:]
            r = self.round()
            if r is not None:
                return r
        raise Limit("loop in %s (line %d) does not stabilise" % (self.fn.path, self.line))

    def round(self):
        I = self.I
        stops = {}
        for (root, path) in self.classes:
            stops.setdefault(root, set()).add(path)
        first = self.keyof(self.entry)
        heads = {}
        todo = [first]
        pairs = []                 # (head key, head state, back state)
        exits, rets = [], []
        while todo:
            k = todo.pop(0)
            if k in heads:
                continue
            if len(heads) > 12:
                for loc, c in list(self.classes.items()):
                    if c[0] == "key":
                        self.classes[loc] = ("hv", False)
                return None
            h = self.mkhead(k)
            if k != first:
                a = lt(ZERO, self.n)
                h.assume_atom(a[1], True)
            heads[k] = h
            s = h.copy()
            s.ctl = None
            backs, ex, rt = I.region(self.fn, self.fr, self.blocks, self.head, [s], self.head)
            if len(backs) > 300:
                raise Limit("too many alternatives in the loop of %s (line %d)" % (self.fn.path, self.line))
            for b in backs:
                I.prune(self.fn, self.fr, self.head, b)
                if I.norm_hook:
                    I.norm_hook(I, b)
                pairs.append((k, h, b))
            exits += [(k, h, e, x) for e, x in ex]
            rets += [(k, h, x) for x in rt]
            # new locations?
            new = {}
            for kk, hh, b in pairs:
                for root, v in hh.mem.items():
                    if root not in b.mem:
                        continue
                    if root in self.reach or not (isinstance(root, tuple) and isinstance(root[0], int) and root[0] < self.fr):
                        out = []
                        diff(v, b.mem[root], (), out, stops.get(root, ()))
                        for p in out:
                            if (root, p) not in self.classes:
                                new.setdefault((root, p), None)
            if new:
                if self.coerce(new, pairs):
                    return None
                for loc in new:
                    # a location above existing ones replaces them
                    for l in [l for l in self.classes if l[0] == loc[0] and l[1][:len(loc[1])] == loc[1]]:
                        del self.classes[l]
                self.classify(list(new), pairs)
                return None
            if not self.verify(pairs):
                return None
            for kk, hh, b in pairs:
                kb = self.keyof(b)
                if kb is not None and kb not in heads and kb not in todo:
                    todo.append(kb)
        if self.upgrade(pairs) or self.invariants(pairs):
            return None
        return self.finish(heads, first, pairs, exits, rets)

    def coerce(self, new, pairs):
        """a record that became a log of applications is one from the start"""
        done = False
        for (root, p) in new:
            for k, h, b in pairs:
                try:
                    x, y = get(h.mem[root], p), get(b.mem[root], p)
                except (IndexError, TypeError):
                    continue
                if isinstance(y, tuple) and y and y[0] == "log" and x == y[1]:
                    self.entry = self.entry.copy()
                    self.entry.mem[root] = put(self.entry.mem[root], p, ("log", x, EMPTY))
                    done = True
                    break
        return done

    def vals(self, loc, pairs):
        out = []
        for k, h, b in pairs:
            try:
                out.append((get(h.mem[loc[0]], loc[1]), get(b.mem[loc[0]], loc[1]), b))
            except (IndexError, TypeError):
                out.append((None, ("unk", "shape"), b))
        return out

    def classify(self, locs, pairs):
        later = []
        groups = {}
        for loc in locs:
            vs = self.vals(loc, pairs)
            o = self.v0(loc)
            if isinstance(o, Num) and all(isinstance(x, Num) and isinstance(y, Num) for x, y, _ in vs):
                if (ghost_atom(o) or o == ONE_) and all(ghost_atom(y) for _, y, _ in vs):
                    later.append(loc)
                    continue
                ds = [y - x for x, y, _ in vs]
                if all(d.const() is not None for d in ds) and all(d == ds[0] for d in ds):
                    self.classes[loc] = ("cnt", ds[0].const())
                elif all(nonneg(b, d) for d, (_, _, b) in zip(ds, vs)):
                    g = groups.setdefault(tuple(ds), self.pathid(loc))
                    self.classes[loc] = ("ls", g)
                else:
                    self.classes[loc] = ("hv", all(_nn(y) for _, y, _ in vs) and _nn(o))
            elif is_cond(o) or (isinstance(o, tuple) and o and o[0] in ("adt", "undef", "vref", "tup")):
                if const_value(o) and all(const_value(y) for _, y, _ in vs):
                    self.classes[loc] = ("key",)
                else:
                    self.classes[loc] = ("hv", False)
            elif isinstance(o, tuple) and o and o[0] == "seq":
                later.append(loc)
            else:
                self.classes[loc] = ("hv", False)
        for loc in later:
            vs = self.vals(loc, pairs)
            o = self.v0(loc)
            if isinstance(o, Num):
                self.classes[loc] = self.ghost_class(loc, o, vs, pairs) or ("hv", True)
                continue
            ap = [appended(x, y) for x, y, _ in vs]
            if any(a is None for a in ap):
                self.classes[loc] = ("hv", False)
                continue
            self.classes[loc] = self.slice_class(ap, pairs) or ("star",)

    def numlocs(self):
        return [l for l, c in sorted(self.classes.items(), key=lambda x: repr(x[0])) if c[0] in ("cnt", "ls")]

    def ghost_class(self, loc, o, vs, pairs):
        # the first element is at line 1, column 1
        kind, key, e0 = ghost_atom(o) or (ghost_atom(vs[0][1])[:2] + (ZERO,))
        for m in self.numlocs():
            off = e0 - self.v0(m)
            if off.const() is None:
                continue
            if all(ghost_atom(y) and ghost_atom(y)[:2] == (kind, key) and ghost_atom(y)[2] == my + off
                   for (_, y, _), (_, my, _) in zip(vs, self.vals(m, pairs))):
                return ("ghost", kind, key, m, off)
        return None

    def slice_class(self, ap, pairs):
        if not ap or not all(len(a) <= 1 and all(s[0] == "sl" for s in a) for a in ap):
            return None
        some = [a[0] for a in ap if a]
        if not some:
            return None
        key, ety = some[0][1], some[0][2]
        for m in self.numlocs():
            mv = self.vals(m, pairs)
            off = None
            for a, (mh, mn, _) in zip(ap, mv):
                if a:
                    off = a[0][3] - mh
                    break
            if off is None or off.const() is None:
                continue
            good = True
            for a, (mh, mn, _) in zip(ap, mv):
                lo, hi = mh + off, mn + off
                want = () if lo == hi else (("sl", key, ety, lo, hi),)
                if tuple(a) != want:
                    good = False
            if good:
                return ("slice", key, ety, m, off)
        return None

    def verify(self, pairs):
        """every way round is an instance of the classes; otherwise weaken and say False"""
        ok = True
        vec = {}
        for loc, c in list(self.classes.items()):
            vs = self.vals(loc, pairs)
            k = c[0]
            if k in ("cnt", "ls"):
                if not all(isinstance(x, Num) and isinstance(y, Num) for x, y, _ in vs):
                    self.classes[loc] = ("hv", False)
                    ok = False
                    continue
                ds = [y - x for x, y, _ in vs]
                if k == "cnt" and not all(d.const() == c[1] for d in ds):
                    if all(nonneg(b, d) for d, (_, _, b) in zip(ds, vs)):
                        self.classes[loc] = ("ls", self.pathid(loc))
                    else:
                        self.classes[loc] = ("hv", all(_nn(y) for _, y, _ in vs) and _nn(self.v0(loc)))
                    ok = False
                elif k == "ls":
                    if not all(nonneg(b, d) for d, (_, _, b) in zip(ds, vs)):
                        self.classes[loc] = ("hv", all(_nn(y) for _, y, _ in vs) and _nn(self.v0(loc)))
                        ok = False
                    else:
                        w = vec.setdefault(c[1], tuple(ds))
                        if w != tuple(ds):
                            # leave the group
                            self.classes[loc] = ("ls", self.pathid(loc) + ("own",))
                            ok = False
            elif k == "ghost":
                m = c[3]
                if self.classes.get(m, ("hv",))[0] not in ("cnt", "ls"):
                    self.classes[loc] = ("hv", True)
                    ok = False
                    continue
                for (x, y, b), (_, my, _) in zip(vs, self.vals(m, pairs)):
                    g = ghost_atom(y)
                    if not (g and g[:2] == (c[1], c[2]) and g[2] == my + c[4]):
                        self.classes[loc] = ("hv", True)
                        ok = False
                        break
            elif k == "slice":
                m = c[3]
                ap = [appended(x, y) for x, y, _ in vs]
                if any(a is None for a in ap):
                    self.classes[loc] = ("hv", False)
                    ok = False
                    continue
                good = self.classes.get(m, ("hv",))[0] in ("cnt", "ls")
                if good:
                    for a, (mh, mn, _) in zip(ap, self.vals(m, pairs)):
                        lo, hi = mh + c[4], mn + c[4]
                        want = () if lo == hi else (("sl", c[1], c[2], lo, hi),)
                        if tuple(a) != want:
                            good = False
                if not good:
                    self.classes[loc] = self.slice_class(ap, pairs) if self.slice_class(ap, pairs) not in (None, c) else ("star",)
                    ok = False
            elif k in ("star", "map"):
                ap = [appended(x, y) for x, y, _ in vs]
                if any(a is None for a in ap):
                    if k == "map":
                        # the appended element coalesces only if it is the next one
                        for x, y, _ in vs:
                            pass
                    self.classes[loc] = ("hv", False)
                    ok = False
                elif k == "map":
                    want = subst(c[1], {("kv", self.uid): self.n})
                    for a in ap:
                        e = single(a)
                        if e is None or e != want:
                            self.classes[loc] = ("star",)
                            ok = False
                            break
            elif k == "key":
                if not all(const_value(y) for _, y, _ in vs):
                    self.classes[loc] = ("hv", False)
                    ok = False
        return ok

    def own(self, x):
        u = self.uid

        def p(k):
            return isinstance(k, tuple) and len(k) > 1 and k[0] in ("ls", "star", "hv") and k[1] == u
        return contains(x, p)

    def upgrade(self, pairs):
        ch = False
        if len(pairs) != 1:
            return False
        for loc, c in list(self.classes.items()):
            if c[0] != "star" or c[1:] == ("no",):
                continue
            (x, y, b), = self.vals(loc, pairs)
            e = single(appended(x, y))
            if e is None or self.own(e):
                continue
            self.classes[loc] = ("map", subst(e, {("cnt", self.uid): Num.atom(("kv", self.uid))}))
            NONNEG.add(("kv", self.uid))
            ch = True
        return ch

    def invariants(self, pairs):
        """upper bounds of cursors that hold on entry and after every way round"""
        cand = {}
        for k, h, b in pairs:
            for a, v in b.facts.items():
                if a in h.facts or a[0] != "lt0" or v is not True:
                    continue
                for m in self.numlocs():
                    cur = self.cursor(m)
                    rest = a[1] - cur          # cur + rest < 0  =>  candidate cur + rest <= 0
                    if self.own(rest) or ("cnt", self.uid) in rest.atoms():
                        continue
                    if rest.linear() is None:
                        continue
                    cand[(m, rest)] = None
        ch = False
        for (m, rest) in cand:
            def c(v):
                return le(v + rest, ZERO)
            head = c(self.cursor(m))
            if head is True or head is False:
                continue
            at = head[1][1] if head[0] == "N" else None
            if at is None or at in self.inv:
                continue
            if self.entry.decide(c(self.v0(m))) is not True:
                continue
            if all(b.decide(c(my)) is True for (mh, my, b) in self.vals(m, pairs)):
                self.inv[at] = False
                ch = True
        return ch

    # ------------------------------------------------------------ result
    def finish(self, heads, first, pairs, exits, rets):
        I = self.I
        rec = LoopRec(self.uid, self.fn, self.line, self.head)
        rec.classes = dict(self.classes)
        rec.entry = self.entry
        rec.heads = heads
        rec.first = first
        rec.stack = tuple(f.path for f, _ in I.stack)
        rec.sm = self
        for k, h, b in pairs:
            alt = {"frm": k, "to": self.keyof(b), "head": h, "st": b,
                   "facts": {a: v for a, v in b.facts.items() if h.facts.get(a, None) != v}, "new": {}, "app": {}, "old": {}}
            changed = False
            for loc, c in self.classes.items():
                try:
                    x, y = get(h.mem[loc[0]], loc[1]), get(b.mem[loc[0]], loc[1])
                except (IndexError, TypeError):
                    continue
                alt["old"][self.pathid(loc)] = x
                alt["new"][self.pathid(loc)] = y
                if x != y and c[0] not in ("star", "slice", "map"):
                    changed = True
                if c[0] in ("star", "map", "slice"):
                    alt["app"][self.pathid(loc)] = appended(x, y)
            alt["stuck"] = not changed and not any(c[0] == "hv" and not isinstance(self.v0(l), Num) for l, c in self.classes.items())
            alt["rank"] = self.ranked(h, b)
            rec.alts.append(alt)
        rec.exits = len(exits) + len(rets)
        old = I.loops.get(self.uid)
        if old is not None and old.classes == rec.classes:
            # entered again under other facts: the alternatives of both
            seen = [(x["frm"], x["facts"], x["new"]) for x in rec.alts]
            rec.alts += [x for x in old.alts if (x["frm"], x["facts"], x["new"]) not in seen]
            for k in old.heads:
                rec.heads.setdefault(k, old.heads[k])
        I.loops[self.uid] = rec
        I.looplog.append(rec)
        if getattr(I, "loop_hook", None):
            I.loop_hook(I, rec)
        oe, orr = [], []
        for k, h, e, x in exits:
            self.mark(x, k, h)
            oe.append((e, x))
        for k, h, x in rets:
            self.mark(x, k, h)
            orr.append(x)
        return oe, orr

    def mark(self, x, k, h):
        x.ctl = None if self.entry.ctl is None else dict(self.entry.ctl)
        x.aux = dict(x.aux)
        x.aux["loops"] = x.aux.get("loops", ()) + ((self.uid, k),)

    def ranked(self, h, b):
        """a cursor that grows by at least one and is bounded by something fixed"""
        for m in self.numlocs():
            x, y = get(h.mem[m[0]], m[1]), get(b.mem[m[0]], m[1])
            d = y - x
            up = b.ub(-d)
            if up is not None and up <= -1:
                # bounded: some fact  x + rest < 0 with rest free of this loop's atoms
                for a, v in b.facts.items():
                    if a[0] != "lt0":
                        continue
                    e = a[1] if v else -a[1]
                    rest = e - x
                    if not self.own(rest) and ("cnt", self.uid) not in rest.atoms():
                        return True
            dn = b.ub(d)
            if dn is not None and dn <= -1:
                # decreasing and bounded below
                for a, v in b.facts.items():
                    if a[0] != "lt0":
                        continue
                    e = a[1] if v else -a[1]
                    rest = e + x
                    if not self.own(rest) and ("cnt", self.uid) not in rest.atoms():
                        return True
                if b.atom(lt0(x)[1] if not isinstance(lt0(x), bool) else ("b", "x")) is False:
                    return True
        return False


def _nn(v):
    if not isinstance(v, Num):
        return False
    l = v.linear()
    return l is not None and l[0] >= 0 and all(c >= 0 and is_nonneg_atom(k) for k, c in l[1].items())


def single(a):
    """the element if the segments are exactly one element"""
    if a is None or len(a) != 1:
        return None
    s = a[0]
    if s[0] == "e":
        return s[1]
    if s[0] == "lit" and len(s[1]) == 1:
        return Num.c(ord(s[1]))
    return None


def summarise(I, fn, fr, head, blocks, st):
    return Summary(I, fn, fr, head, blocks, st).run()
