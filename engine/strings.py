"""Evaluation of string terms and string tests under an assignment of texts."""
from .terms import Num

FNS = {
    "trim": lambda s: s.strip(), "trim_start": lambda s: s.lstrip(), "trim_end": lambda s: s.rstrip(),
    "to_lowercase": lambda s: s.lower(), "to_uppercase": lambda s: s.upper(),
    "to_ascii_lowercase": lambda s: "".join(c.lower() if c < "\x80" else c for c in s),
    "to_ascii_uppercase": lambda s: "".join(c.upper() if c < "\x80" else c for c in s),
}
PREDS = {
    "starts_with": lambda s, x: s.startswith(x), "ends_with": lambda s, x: s.endswith(x), "contains": lambda s, x: x in s,
    "eq_ignore_ascii_case": lambda s, x: FNS["to_ascii_lowercase"](s) == FNS["to_ascii_lowercase"](x),
}


def whole(v):
    """is v one complete symbolic string?"""
    if not (isinstance(v, tuple) and len(v) == 2 and v[0] == "seq" and len(v[1]) == 1):
        return False
    s = v[1][0]
    return s[0] == "sl" and s[3].const() == 0 and s[4] == Num.atom(("len", s[1]))


def text(v, env):
    if isinstance(v, Num):
        c = v.const()
        return None if c is None else chr(int(c))
    if not (isinstance(v, tuple) and v and v[0] in ("seq", "arr")):
        return None
    if v in env:
        return env[v]
    if v[0] == "arr":
        return None
    out = ""
    for s in v[1]:
        if s[0] == "lit":
            out += s[1]
        elif s[0] == "e" and isinstance(s[1], Num) and s[1].const() is not None:
            out += chr(int(s[1].const()))
        elif s[0] == "opq" and isinstance(s[1], tuple) and len(s[1]) == 2 and s[1][0] in FNS:
            t = text(s[1][1], env)
            if t is None:
                return None
            out += FNS[s[1][0]](t)
        elif ("seq", (s,)) in env:
            out += env[("seq", (s,))]
        else:
            return None
    return out


def length(k, env):
    """value of a length atom"""
    if not (isinstance(k, tuple) and k and k[0] == "len" and len(k) == 2):
        return None
    if isinstance(k[1], tuple) and k[1] and k[1][0] == "bytes":
        t = text(k[1][1], env)
        return None if t is None else len(t.encode())
    if isinstance(k[1], tuple) and k[1] and k[1][0] == "words":
        t = text(k[1][1], env)
        return None if t is None else len(t.split())
    for v, x in env.items():
        if whole(v) and v[1][0][1] == k[1]:
            return len(x)
    return None


def holds(a, env):
    """truth of an atom about strings, None if it is not determined"""
    if a[0] == "streq":
        t = text(a[1], env)
        return None if t is None else t == a[2]
    if a[0] == "seqeq":
        x, y = text(a[1], env), text(a[2], env)
        return None if x is None or y is None else x == y
    if a[0] == "b" and isinstance(a[1], tuple) and a[1] and a[1][0] in PREDS and len(a[1]) == 3:
        x, y = text(a[1][1], env), text(a[1][2], env)
        return None if x is None or y is None else PREDS[a[1][0]](x, y)
    if a[0] in ("lt0", "eq0"):
        m = {}
        for k in a[1].atoms():
            n = length(k, env)
            if n is None:
                return None
            m[k] = Num.c(n)
        from .values import subst
        c = subst(a[1], m).const()
        if c is None:
            return None
        return c < 0 if a[0] == "lt0" else c == 0
    return None


def is_string_atom(a):
    return a[0] in ("streq", "seqeq") or (a[0] == "b" and isinstance(a[1], tuple) and bool(a[1]) and a[1][0] in PREDS)


def bases(x, out):
    """complete symbolic strings a term is made of"""
    if isinstance(x, Num):
        return
    if isinstance(x, tuple):
        if whole(x):
            out.add(x)
            return
        for e in x:
            if isinstance(e, tuple):
                bases(e, out)
