"""Classes of texts for the refutation of the lexer.

A shape is a text in which "d" stands for any decimal digit; the analysis of a shape covers every text
of that shape.  The shapes lead the reference transducer into each of its states and then append every
short continuation over an alphabet that contains, besides one character of each class the reference
tells apart, the characters, words and small numbers that occur as constants in the analysed code."""
import itertools

ACCESS = ["", " ", "#", '"', '"k', '"\\', "k", "kd", "-", "+", "d", "-d", ".", "d.", "-.", "d.d", "de", "-de", "d.e", ".de", "de-", "de+", "ded",
          "de.", "de-d", "de-.", "ded.", "d.ed", "d.e-", "d.e.", "d.ed.", "ded.d", "[", "]", "k ", "k\n", "d ", '"k" ', "[ ", "#k\n", "\n"]
NUMBERS = ["", "-", "+", "d", ".", "d.", "de", "d.d", "ded", "de-", "d.ed", "ded."]
FULL = ["d", ".", "-", "+", "e", "k", "n", "t", "E", '"', "\\", "#", "[", "]", " ", "\n", "\t", "_", ",", ":", "(", "/", "'", "\0",
        "\u00e9", "\u0967", "\u00b2", "\u3000", "\u00a0", "\u0085", "\ufeff", "r", "0", "u", "x", "\r", "\v", "\f", ";", "=", "@", "\x7f"]
MED = ["d", ".", "-", "e", "k", '"', "\\", "#", "[", " ", "\n", "+", "n"]
TOKENS = ["k", "kd", "d", "-d", "d.d", "ded", '"k"', '""', '"\\n"', '"\n"', "[", "]", "de-d", "+d", '"\\""']
BETWEEN = ["", " ", "\n", "#k\n", "\t", "\n\n", " #\n ", "#\n#\n", "  "]
REPEAT = [("", "#k\n", "k"), ("", " ", "k"), ("", "\n", "k"), ("", "k ", ""), ("", "[", ""), ("", "d ", ""), ("", '"k"', ""), ("", "k", ""), ("", "d", ""),
          ('"', "k", '"'), ('"', "\\k", '"'), ("#", "k", "\n"), ("d.", "d", ""), ("", "\t ", "k"), ("", "]", "")]
RAW = ["\r\n", "\r", "\n\r", "k\r\nk", "k\rk", "\r\r\n", "k\n\rk", '"k\r\nk" k', '"k\rk" k', "#k\r\nk", "#k\rk", "k\r\n\r\nk", "k\r", '"\\\r\n" k',
       " k\r\n\tk", "k\nk\r\nk", "\r\nk", "k \r\n", "\u00e9\r\nk"]


def reach(prog, fn):
    """the local functions reachable from fn"""
    from .effects import calls
    seen, todo = {fn.id: fn}, [fn]
    while todo:
        f = todo.pop()
        new = [g for _, _, g, _ in calls(prog, f) if g is not None and g.body is not None]
        new += [g for g in prog.fns.values() if g.body is not None and g.local and g.path.startswith(f.path + "::")]
        for g in new:
            if g.local and g.id not in seen:
                seen[g.id] = g
                todo.append(g)
    return list(seen.values())


def cyclic(prog, fns):
    """the ids of functions that can call themselves"""
    from .effects import calls
    ids = {f.id for f in fns}
    succ = {f.id: {g.id for _, _, g, _ in calls(prog, f) if g is not None and g.id in ids} for f in fns}
    out = set()
    for f in ids:
        seen, todo = set(), list(succ[f])
        while todo:
            x = todo.pop()
            if x not in seen:
                seen.add(x)
                todo += succ[x]
        if f in seen:
            out.add(f)
    return out


def constants(prog, fns, most=130):
    """(characters, words, small numbers) that occur in the functions"""
    cs, ws, ns = set(), set(), set()
    T = prog.tys

    def scalar(v, ty):
        k = T[ty]["k"]
        if k == "char" and 0 <= v < 0x110000 and not 0xD800 <= v < 0xE000:
            cs.add(chr(v))
        elif k in ("uint", "int") and 2 <= v <= most:
            ns.add(v)

    def walk(x):
        if isinstance(x, dict):
            if x.get("k") == "int" and "ty" in x:
                scalar(x["v"], x["ty"])
            elif x.get("k") == "str" and 1 < len(x["v"]) < 12 and " " not in x["v"]:
                ws.add(x["v"])
            for y in x.values():
                walk(y)
        elif isinstance(x, list):
            if x and x[0] == "switch" and len(x) >= 5 and isinstance(x[4], int):
                for v in x[2]:
                    scalar(v[0], x[4])
            elif x and x[0] == "k" and isinstance(x[1], dict) and x[1].get("k") == "ref":
                return      # format strings
            for y in x:
                walk(y)
    for f in fns:
        walk([[b["s"], b["t"]] for b in f.body["blocks"]])
    return sorted(cs), sorted(ws), sorted(ns)


class Scaled:
    """the functions with their large constants (lengths, positions) read as a small one"""
    TO = 11

    def __init__(self, prog, fns, least=130):
        self.prog, self.least = prog, least
        self.at, self.limits, self.other = [], set(), False
        for f in fns:
            for b in f.body["blocks"]:
                self.walk([b["s"], b["t"]])
        # several limits may depend on each other; a number made from a character is not a length
        if len(self.limits) > 1 or self.other:
            self.at, self.limits = [], set()

    def walk(self, x):
        if isinstance(x, dict):
            t = x.get("ty")
            if x.get("k") == "int" and isinstance(t, int) and self.prog.tys[t]["k"] == "uint" and self.prog.tys[t].get("n") == "usize" and self.least < x["v"] < 1 << 31:
                self.at.append((x, x["v"]))
                self.limits.add(x["v"])
            for y in x.values():
                self.walk(y)
        elif isinstance(x, (list, tuple)):
            if len(x) == 4 and x[0] == "cast" and x[1] == "IntToInt" and isinstance(x[3], int) and self.prog.tys[x[3]].get("n") == "usize":
                self.other = True
            for y in x:
                self.walk(y)

    def __enter__(self):
        for x, _ in self.at:
            x["v"] = self.TO
        return self

    def __exit__(self, *_):
        for x, v in self.at:
            x["v"] = v


def plain(t):
    """not a text the reference never sees"""
    return "\r\n" not in t


def shapes(prog, fn):
    cs, ws, ns = constants(prog, reach(prog, fn))
    extra = [c for c in cs if c not in FULL and not c.isdigit()]
    full = FULL + extra[:40]
    med = MED + extra[:6]

    def gen():
        yield from ACCESS
        for a in ACCESS:
            for b in full:
                yield a + b
        for a, b, c in itertools.product(TOKENS, BETWEEN, TOKENS):
            if c in TOKENS[:3] or b in BETWEEN[:3]:
                yield a + b + c
        for w in ws:
            for pre, post in (("", ""), ("", "k"), ("k ", " k"), ('"', '"'), ("", " d"), ("d ", "\nk"), ("#", "\nk")):
                yield pre + w + post
        for n in ns:
            for k in sorted({n - 1, n, n + 1}):
                for t in ("d" * k, "k" * k, '"' + "k" * k + '"', "-" + "d" * k + ".d", "d." + "d" * k, " " * k + "k", "\n" * k + "k", "[ " * (k // 2 + 1), "d" * k + "ed", "#" + "k" * k + "\nk", "k " * (k // 2 + 1)):
                    yield t
        for t in ("d" * 10, "d" * 19, "d" * 25, "-" + "d" * 19, "dedd", "deddd", "ddedd", "dddded", "d" * 10 + "edd", "d.ded", "d.de-dd", "dd.dde-d", "k" * 20, "d" * 18 + "ed"):
            yield t
            yield t + " k"
            yield "k\n " + t
        nums = ["d", ".", "-", "+", "e", "k", " "]
        strs = ['"', "\\", "n", "k", "\n", " ", "t"]
        for a in NUMBERS:
            for w in itertools.product(nums, repeat=2):
                yield a + "".join(w)
        for a in ('"', '"k', '"\\'):
            for w in itertools.product(strs, repeat=3):
                yield a + "".join(w)
        for a in ("#", "k", "k#", "\n", " "):
            for w in itertools.product(["#", "\n", "k", " ", "d", '"', "\t"], repeat=3):
                yield a + "".join(w)
        for a in ACCESS:
            for b, c in itertools.product(med, med):
                yield a + b + c
        for a in NUMBERS:
            for w in itertools.product(nums, repeat=3):
                yield a + "".join(w)
        for a, b, c, d, e in itertools.product(TOKENS, BETWEEN[1:4], TOKENS[:8], BETWEEN[1:4], TOKENS[:4]):
            yield a + b + c + d + e
        for a in ACCESS:
            for b, c in itertools.product(full, med):
                yield a + b + c
        for a in ("d", "-d", "."):
            for w in itertools.product(nums, repeat=4):
                yield a + "".join(w)
    seen = set()
    for t in gen():
        if t not in seen and plain(t):
            seen.add(t)
            yield t


# ---------------------------------------------------------------- sequences of tokens
NUM, REAL, STR, IDENT, OPEN, CLOSE = "Int", "Float", "Str", "Identifier", "LBracket", "RBracket"
TAGS = ("integer", "float", "bool", "string", "point2", "vector2", "rgb", "xyz", "blackbody", "spectrum", "texture")
TRUE, FALSE = (STR, "true"), (STR, "false")


def param_shapes(words, sizes):
    """declarations (number of words, first word) followed by values; how many parameters there are before"""
    kinds = [NUM, REAL, STR, TRUE, FALSE, IDENT, OPEN, CLOSE]
    ok = {"integer": [NUM], "float": [REAL, NUM], "bool": [TRUE, FALSE], "string": [STR]}
    other = [w for w in words if w not in TAGS][:20]

    def gen():
        for tag in TAGS:
            for n in (1, 2, 3):
                yield (n, tag), (NUM,)
                yield (n, tag), ()
        for tag in other:
            for v in ((NUM,), (REAL,), (STR,), (TRUE,), (OPEN, NUM, CLOSE), (OPEN, NUM, NUM, CLOSE), (OPEN, NUM, NUM, NUM, CLOSE), (OPEN, STR, CLOSE)):
                yield (2, tag), v
        for tag in TAGS:
            for a in kinds:
                yield (2, tag), (a,)
                yield (2, tag), (a, CLOSE)
                yield (2, tag), (a, STR)
            el = ok.get(tag, [REAL, NUM])
            for n in range(0, 8):
                for e in el:
                    yield (2, tag), (OPEN,) + (e,) * n + (CLOSE,)
                    yield (2, tag), (OPEN,) + (e,) * n
                    yield (2, tag), (OPEN,) + (e,) * n + (CLOSE, STR)
                if len(el) > 1 and n > 1:
                    mix = tuple(el[i % 2] for i in range(n))
                    yield (2, tag), (OPEN,) + mix + (CLOSE,)
                    yield (2, tag), (OPEN,) + mix[::-1] + (CLOSE,)
                for bad in kinds:
                    if bad not in el and bad != CLOSE and n < 5:
                        yield (2, tag), (OPEN,) + (el[0],) * n + (bad, CLOSE)
                        yield (2, tag), (OPEN,) + (el[0],) * n + (bad, el[0], CLOSE)
        for n in sizes:
            for tag in TAGS:
                for k in (n - 1, n, n + 1, 2 * n):
                    if 8 <= k <= 140:
                        yield (2, tag), (OPEN,) + (ok.get(tag, [REAL])[0],) * k + (CLOSE,)
        for tag in TAGS:
            for n in (2, 3):
                for w in itertools.product(kinds, repeat=n):
                    yield (2, tag), w
    seen = set()
    for d, v in gen():
        for old in (0, 1, 2):
            if old and len(v) > 4:
                continue
            if (d, v, old) not in seen:
                seen.add((d, v, old))
                yield d, v, old


# an item: kind of token, text, what it starts: {nonterminal: whether it is one (of a single token)}
def par(ok=True):
    return (STR, None, (("param", ok),))


def stm(name, ok=True, text=None):
    return (IDENT, text, ((name, ok),))


def word(text):
    return (IDENT, text, ())


PLAIN = [(NUM, None, ()), (REAL, None, ()), (OPEN, None, ()), (CLOSE, None, ())]
TYPED = ("Material", "Shape", "LightSource", "AreaLightSource")
BLOCKS = {"AttributeBegin": "AttributeEnd", "TransformBegin": "TransformEnd", "WorldBegin": "WorldEnd"}
PRE_TYPED = ("Camera", "Sampler", "Film", "Filter", "Integrator", "Accelerator")
PRE_NUMS = {"Translate": 3, "Scale": 3, "Rotate": 4, "LookAt": 9, "Transform": 9, "ConcatTransform": 9, "TransformTimes": 2}
PRE_STR = ("CoordinateSystem", "CoordSysTransform", "ActiveTransform", "Include")


def typed_tails():
    s, p, x, i, n = par(False), par(), (STR, None, ()), word(None), PLAIN[0]
    for k in range(0, 4):
        for w in itertools.product((p, s, i, n), repeat=k):
            yield w
    for k in (4, 5, 6, 7):
        yield (p,) * k
        yield (p,) * k + (i,)
        yield (p,) * k + (s,)


def dir_shapes(words, sizes):
    known = set(TYPED) | set(BLOCKS) | {"Include", "Texture"}
    other = [w for w in words if w not in known][:40] + ["zz"]
    free = (STR, None, ())

    def gen():
        for kw in TYPED:
            for t in typed_tails():
                yield (word(kw), free) + t
            for t in PLAIN + [word(None)]:
                yield word(kw), t
            yield word(kw),
        for kw in ("Texture",):
            for t in typed_tails():
                yield (word(kw), free, free, free) + t
            for n in (0, 1, 2):
                yield (word(kw),) + (free,) * n
                for t in PLAIN + [word(None)]:
                    yield (word(kw),) + (free,) * n + (t, free, free)
        for t in typed_tails():
            yield (word("Include"), free) + t
        for t in [()] + [(x,) for x in PLAIN + [word(None)]]:
            yield (word("Include"),) + t
        d, dx = stm("dir"), stm("dir", False)
        ends = [word(e) for e in BLOCKS.values()]
        for kw, end in BLOCKS.items():
            al = [d, dx, free] + ends + [PLAIN[0], stm("dir", True, "WorldBegin"), stm("dir", True, "Include")]
            for k in range(0, 4):
                for w in itertools.product(al, repeat=k):
                    yield (word(kw),) + w
            for k in [4, 5, 6, 7] + [n + i for n in sizes if n < 60 for i in (-1, 0, 1)]:
                yield (word(kw),) + (d,) * k + (word(end),)
                yield (word(kw),) + (d,) * k
                yield (word(kw),) + (d,) * k + (word(end), d)
        for w in other:
            for t in ((), (free,), (free, par()), (d, word("WorldEnd")), (PLAIN[0],), (PLAIN[1],) * 3, (word(None),)):
                yield (word(w),) + t
        for t in PLAIN + [free]:
            yield t,
        yield ()
        for n in sizes:
            for k in (n - 1, n, n + 1):
                if 7 < k < 70:
                    yield (word("Material"), free) + (par(),) * k
    return uniq(gen())


def uniq(g):
    seen = set()
    for t in g:
        if t not in seen:
            seen.add(t)
            yield t


def pre_shapes(words, sizes):
    known = set(PRE_TYPED) | set(PRE_NUMS) | set(PRE_STR) | {"Identity"}
    other = [w for w in words if w not in known][:40] + ["zz"]
    free, i, n, r = (STR, None, ()), word(None), PLAIN[0], PLAIN[1]

    def gen():
        for kw, m in PRE_NUMS.items():
            for k in range(0, 14):
                for e in ((n,) * k, (r,) * k, tuple((n, r)[j % 2] for j in range(k)), tuple((r, n)[j % 2] for j in range(k))):
                    for t in ((), (i,), (free,), (PLAIN[2],), (PLAIN[3],), (i, n)):
                        yield (word(kw),) + e + t
            for k in range(m + 1):
                for bad in (i, free, PLAIN[2], PLAIN[3]):
                    yield (word(kw),) + (n,) * k + (bad,) + (n,) * (m - k)
            yield (word(kw), PLAIN[2]) + (n,) * m + (PLAIN[3],)
            yield (word(kw), PLAIN[2]) + (r,) * m + (PLAIN[3], i)
        for kw in PRE_TYPED:
            for t in typed_tails():
                yield (word(kw), free) + t
            for t in PLAIN + [i]:
                yield word(kw), t
            yield word(kw),
        for kw in PRE_STR + ("Identity",):
            for k in range(0, 3):
                for t in itertools.product((free, i, n, r, PLAIN[2], PLAIN[3]), repeat=k):
                    yield (word(kw),) + t
        for w in other:
            for k in range(0, 3):
                for t in itertools.product((free, i, n, PLAIN[2]), repeat=k):
                    yield (word(w),) + t
            yield (word(w),) + (n,) * 3
            yield (word(w),) + (r,) * 3
        for t in PLAIN + [free]:
            yield t,
        yield ()
        for m in sizes:
            for k in (m - 1, m, m + 1):
                if 7 < k < 70:
                    yield (word("Camera"), free) + (par(),) * k
                    yield (word("Translate"),) + (n,) * k
    return uniq(gen())


def parse_shapes(words, sizes):
    p, px, d, dx = stm("pre"), stm("pre", False), stm("dir", True, "WorldBegin"), stm("dir", False, "WorldBegin")
    al = [p, px, d, dx, (STR, None, ()), PLAIN[0], word("WorldEnd"), stm("dir"), word("AttributeBegin"), PLAIN[2], PLAIN[3]]

    def gen():
        for k in range(0, 4):
            yield from itertools.product(al, repeat=k)
        for k in range(4, 8):
            yield (p,) * k + (d,)
            yield (p,) * k
            yield (p,) * k + (d, p)
            yield (p,) * k + (d, d)
        for w in words:
            for t in ((), (d,), (d, word(w)), (p, d)):
                yield (stm("pre", True, w),) + t
                yield (stm("pre", False, w),) + t
            yield d, word(w)
        for n in sizes:
            for k in (n - 1, n, n + 1):
                if 7 < k < 70:
                    yield (p,) * k + (d,)
    return uniq(gen())


TOKEN_SHAPES = {"dir": dir_shapes, "pre": pre_shapes, "parse": parse_shapes, "param": param_shapes}
