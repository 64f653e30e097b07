"""Models of the standard library: what is known of each external function."""
from .terms import Num, cnot, cand, cor, cite, lt, le, eq, ZERO, NAN
from .values import (is_cond, ite, lift1, lift2, is_unk, subst, mkseq, seqlen, seqcat, as_segs, EMPTY,
                     nonneg_atom, NONNEG, ONE_, seglen, elem_key)
from . import strings

# external functions that never return
DIVERGE = ("core::panicking::", "std::panicking::", "std::rt::begin_panic", "core::option::unwrap_failed",
           "core::option::expect_failed", "core::result::unwrap_failed", "std::process::abort", "std::rt::panic",
           "core::slice::index::slice_", "alloc::raw_vec::handle_error", "core::str::slice_error_fail", "std::process::exit",
           "core::slice::copy_from_slice", "std::intrinsics::abort", "core::intrinsics::abort")


def tys(I):
    return I.prog.tys


def opt(I, ty, v):
    """Some(v)/None of the Option type ty"""
    return ("adt", ty, 1, (v,)) if v is not None else ("adt", ty, 0, ())


def ret_ty(f):
    return f.body["locals"][0] if f.body else None


def model(I, st, f, written, targs, args, site):
    path = f.path
    fn, b, line = site
    for d in DIVERGE:
        if path.startswith(d):
            I.panic(fn, line, "panic via %s" % path, st)
            return []
    if written in ("std::ops::Fn::call", "std::ops::FnMut::call_mut", "std::ops::FnOnce::call_once"):
        return m_call(I, st, f, targs, args, site)
    if f.local and not path.startswith("<"):
        if not (f.trait and f.name in ("clone",)):
            return NotImplemented
    w = WRITTEN.get(written)
    if w is not None:
        r = w(I, st, f, targs, args, site)
        if r is not NotImplemented:
            return r
    n = path
    m = PATHS.get(n)
    if m is not None:
        return m(I, st, f, targs, args, site)
    m = METHODS.get(meth(n))
    if m is not None:
        return m(I, st, f, targs, args, site)
    if not f.local and ("::fmt::" in path or path.startswith("std::fmt") or path.startswith("core::fmt") or path == "std::string::ToString::to_string"
                        or (f.trait or "").startswith("std::fmt")):
        return ("adt_opaque_fmt",) if False else fmt_value(I, st, f, args)
    return NotImplemented


def meth(p):
    """'core::str::<impl str>::trim' -> 'str::trim' ; 'std::vec::Vec::<T, A>::push' -> 'Vec::push'"""
    import re
    m = re.search(r"<impl (\[T\]|[^<>]+)>::(\w+)$", p)
    if m:
        return "%s::%s" % ({"[T]": "slice"}.get(m.group(1), m.group(1)), m.group(2))
    q = re.sub(r"::<[^:]*?>(?=::)", "", p)
    parts = q.split("::")
    return "::".join(parts[-2:])


def fmt_value(I, st, f, args):
    """formatting: an opaque piece of text, no effect"""
    if f.name in ("format", "to_string", "must_use"):
        return mkseq([("opq", ("fmt", f.name, site_args(I, st, args)))])
    rt = ret_ty(f)
    if rt is not None and tys(I)[rt]["k"] == "adt" and tys(I)[rt]["name"] == "std::result::Result":
        return ("adt", rt, 0, (("tup", ()),))
    return ("fmtarg", tuple(I.strip(st, a) for a in args))


def site_args(I, st, args):
    return tuple(I.strip(st, a) for a in args)


# ---------------------------------------------------------------- helpers
def seqof(I, st, v):
    v = I.strip(st, v)
    if isinstance(v, tuple) and v and v[0] in ("seq", "arr"):
        return v
    return None


def prim(I, ty):
    t = tys(I)[ty]
    while t["k"] == "ref":
        t = tys(I)[t["to"]]
    return t["k"] in ("int", "uint", "float", "char", "bool")


def numop(op):
    def m(I, st, f, targs, args, site):
        if not prim(I, targs[0]):
            return NotImplemented
        a, b = I.strip(st, args[0]), I.strip(st, args[1])
        t = targs[0]
        while tys(I)[t]["k"] == "ref":
            t = tys(I)[t]["to"]
        if I.overflow and tys(I)[t]["k"] in ("int", "uint"):
            r = I.bin(op + "WithOverflow", a, b, t, st)
            if r[0] == "tup" and r[1][1] is not False:
                for s in st.copy().assume(r[1][1], True) if st.decide(r[1][1]) is not False else []:
                    I.panic(site[0], site[2], "arithmetic overflow in %s" % op, s)
                return [(s, r[1][0]) for s in st.assume(r[1][1], False)]
            return r[1][0] if r[0] == "tup" else r
        return I.bin(op, a, b, t, st)
    return m


def numassign(op):
    base = numop(op)

    def m(I, st, f, targs, args, site):
        if not prim(I, targs[0]):
            return NotImplemented
        r = base(I, st, f, targs, args, site)
        if isinstance(r, list):
            for s, v in r:
                I.store(s, args[0][1], args[0][2], v)
            return [(s, ("tup", ())) for s, v in r]
        I.store(st, args[0][1], args[0][2], r)
        return ("tup", ())
    return m


def cmpop(op):
    def m(I, st, f, targs, args, site):
        a, b = I.strip(st, args[0]), I.strip(st, args[1])
        if isinstance(a, Num) or isinstance(b, Num) or is_cond(a) or (isinstance(a, tuple) and a and a[0] == "ite" and prim(I, targs[0])):
            t = targs[0]
            while tys(I)[t]["k"] == "ref":
                t = tys(I)[t]["to"]
            return I.bin(op, a, b, t, st)
        if op in ("Eq", "Ne"):
            r = veq(I, st, a, b)
            if r is None:
                return NotImplemented
            return r if op == "Eq" else cnot(r)
        return NotImplemented
    return m


def veq(I, st, a, b):
    """structural equality, or None"""
    a, b = I.strip(st, a), I.strip(st, b)
    if a is b or a == b:
        if isinstance(a, Num):
            return True
        if isinstance(a, tuple) and a and a[0] in ("seq",):
            return True
    if isinstance(a, Num) and isinstance(b, Num):
        return eq(a, b)
    if is_cond(a) and is_cond(b):
        return cite(a, b, cnot(b))
    if isinstance(a, tuple) and isinstance(b, tuple) and a and b:
        if a[0] == "ite":
            x, y = veq(I, st, a[2], b), veq(I, st, a[3], b)
            return None if x is None or y is None else cite(a[1], x, y)
        if b[0] == "ite":
            return veq(I, st, b, a)
        if a[0] == "arr" and b[0] == "arr" and len(a[1]) == len(b[1]) or a[0] == "tup" and b[0] == "tup":
            rs = [veq(I, st, x, y) for x, y in zip(a[1], b[1])]
            return None if any(r is None for r in rs) else cand(*rs)
        if a[0] == "adt" and b[0] == "adt":
            if a[2] != b[2]:
                return False
            rs = [veq(I, st, x, y) for x, y in zip(a[3], b[3])]
            return None if any(r is None for r in rs) else cand(*rs)
        if a[0] == "sym" and b[0] == "adt":
            a, b = b, a
        if a[0] == "adt" and b[0] == "sym":
            t = tys(I)[b[2]]
            c = ("A", ("dv", b[1], a[2], len(t["v"])))
            rs = []
            for i, x in enumerate(a[3]):
                rs.append(veq(I, st, x, I.step(b, ("vf", a[2], i), st)))
            return None if any(r is None for r in rs) else cand(c, *rs)
        if a[0] in ("seq", "arr") and b[0] in ("seq", "arr"):
            return seqeq(I, st, a, b)
    return None


def littext(v):
    out = ""
    for s in as_segs(v):
        if s[0] == "lit":
            out += s[1]
        elif s[0] == "e" and isinstance(s[1], Num) and s[1].const() is not None:
            out += chr(int(s[1].const()))
        else:
            return None
    return out


def seqeq(I, st, a, b):
    la, lb = littext(a) if a[0] == "seq" else None, littext(b) if b[0] == "seq" else None
    if la is not None and lb is not None:
        return la == lb
    if lb is None and la is not None:
        a, b, la, lb = b, a, lb, la
    if lb is not None:
        if lb == "":
            return eq(seqlen(a), ZERO)
        return ("A", ("streq", a, lb))
    if a[0] == b[0] == "seq" and all(s[0] == "e" for s in a[1]) and all(s[0] == "e" for s in b[1]):
        if len(a[1]) != len(b[1]):
            return False
        rs = [veq(I, st, x[1], y[1]) for x, y in zip(a[1], b[1])]
        return None if any(r is None for r in rs) else cand(*rs)
    if a == b:
        return True
    return ("A", ("seqeq",) + tuple(sorted((a, b), key=repr)))


# ---------------------------------------------------------------- clone & conversions
def m_clone(I, st, f, targs, args, site):
    return I.deref(st, args[0])


def m_to_owned(I, st, f, targs, args, site):
    return I.deref(st, args[0])


def m_id(I, st, f, targs, args, site):
    return args[0]


def m_into(I, st, f, targs, args, site):
    return NotImplemented


def m_from(I, st, f, targs, args, site):
    # String/PathBuf from strings, identities, widening of numbers
    t = tys(I)[targs[0]]
    src = tys(I)[targs[1]] if len(targs) > 1 else None
    if t["k"] == "adt" and t["name"] in ("std::string::String", "std::path::PathBuf", "std::vec::Vec", "std::ffi::OsString"):
        s = seqof(I, st, args[0])
        if s is not None:
            return s if s[0] == "seq" else mkseq(as_segs(s))
    if t["k"] in ("int", "uint", "float", "char") and src and src["k"] in ("int", "uint", "float", "char", "bool"):
        v = args[0]
        if is_cond(v):
            return ite(v, ONE_, ZERO)
        return v
    if src is not None and targs[0] == targs[1]:
        return args[0]
    return NotImplemented


def m_as_ref(I, st, f, targs, args, site):
    a = I.strip(st, args[0])
    if isinstance(a, tuple) and a and a[0] in ("seq", "arr"):
        return ("vref", a)
    return NotImplemented


def m_deref(I, st, f, targs, args, site):
    a = I.deref(st, args[0])
    if isinstance(a, tuple) and a and a[0] in ("seq", "arr"):
        return ("vref", a)
    if isinstance(a, tuple) and a and a[0] in ("box",):
        return ("vref", I.deref(st, a))
    if isinstance(a, tuple) and a and a[0] == "ite":
        return ("vref", a)
    return NotImplemented


def m_deref_mut(I, st, f, targs, args, site):
    a = args[0]
    v = I.deref(st, a)
    if isinstance(v, tuple) and v and v[0] in ("seq", "arr"):
        return a
    if isinstance(v, tuple) and v and v[0] == "box":
        return ("ref", v[1], ())
    return NotImplemented


# ---------------------------------------------------------------- Vec / String
def m_vec_new(I, st, f, targs, args, site):
    return EMPTY


def upd(I, st, ref, v):
    if isinstance(ref, tuple) and ref and ref[0] == "ref":
        I.store(st, ref[1], ref[2], v)
        return True
    st.note("update through an unmodelled reference")
    return False


def m_push(I, st, f, targs, args, site):
    v = I.deref(st, args[0])
    if not (isinstance(v, tuple) and v and v[0] in ("seq",)):
        st.note("push onto an unknown vector")
        return ("tup", ())
    upd(I, st, args[0], seqcat(v, ("seq", (("e", args[1]),))))
    return ("tup", ())


def m_push_str(I, st, f, targs, args, site):
    v = I.deref(st, args[0])
    s = seqof(I, st, args[1])
    if not (isinstance(v, tuple) and v[0] == "seq") or s is None:
        return NotImplemented
    upd(I, st, args[0], seqcat(v, s))
    return ("tup", ())


def m_len(I, st, f, targs, args, site):
    v = I.strip(st, args[0])
    return lift1(lambda x: seqlen(x) if isinstance(x, tuple) and x and x[0] in ("seq", "arr") else ("unk", "len"), v)


def m_strlen(I, st, f, targs, args, site):
    # length in bytes: zero exactly when empty, otherwise unrelated to the number of characters
    v = seqof(I, st, args[0])
    if v is None:
        return NotImplemented
    t = littext(v)
    if t is not None:
        return Num.c(len(t.encode()))
    return nonneg_atom(("len", ("bytes", v)))


def m_is_empty(I, st, f, targs, args, site):
    v = I.strip(st, args[0])
    return lift1(lambda x: eq(seqlen(x), ZERO) if isinstance(x, tuple) and x and x[0] in ("seq", "arr") else ("unk", "is_empty"), v)


def m_clear(I, st, f, targs, args, site):
    upd(I, st, args[0], EMPTY)
    return ("tup", ())


def m_pop(I, st, f, targs, args, site):
    v = I.deref(st, args[0])
    rt = ret_ty(f)
    if isinstance(v, tuple) and v[0] == "seq":
        if not v[1]:
            return opt(I, rt, None)
        s = v[1][-1]
        if s[0] == "e":
            upd(I, st, args[0], ("seq", v[1][:-1]))
            return opt(I, rt, s[1])
        if s[0] == "sl":
            out = []
            for s2, side in I.fork(site[0], site[1], st, lt(s[3], s[4])):
                if side:
                    i = s[4] - ONE_
                    e = I.elem(s[1], s[2], i, s2)
                    upd(I, s2, args[0], mkseq(v[1][:-1] + (("sl", s[1], s[2], s[3], i),)))
                    out.append((s2, opt(I, rt, e)))
                elif len(v[1]) == 1:
                    out.append((s2, opt(I, rt, None)))
                else:
                    return NotImplemented
            return out
    return NotImplemented


def m_extend(I, st, f, targs, args, site):
    v = I.deref(st, args[0])
    it = to_iter(I, st, args[1])
    if not (isinstance(v, tuple) and v[0] == "seq") or it is None:
        return NotImplemented
    outs = collect(I, st, it, site)
    if outs is None:
        return NotImplemented
    res = []
    for s, q in outs:
        upd(I, s, args[0], seqcat(v, q))
        res.append((s, ("tup", ())))
    return res


def idx_range(I, st, r, n):
    """(lo, hi) of a range value"""
    t = tys(I)[r[1]]
    nm = t["name"].split("::")[-1]
    if nm == "Range":
        return r[3][0], r[3][1]
    if nm == "RangeFrom":
        return r[3][0], n
    if nm == "RangeTo":
        return ZERO, r[3][0]
    if nm == "RangeFull":
        return ZERO, n
    if nm == "RangeInclusive":
        return r[3][0], r[3][1] + ONE_
    if nm == "RangeToInclusive":
        return ZERO, r[3][0] + ONE_
    return None


def slice_seq(I, st, v, lo, hi):
    """sub-sequence [lo,hi) or None"""
    lo, hi = st.resolve(lo), st.resolve(hi)
    if v[0] == "arr" or all(s[0] == "e" for s in v[1]):
        el = [s[1] for s in as_segs(v)]
        a, b = lo.const(), hi.const()
        if a is not None and b is not None:
            return ("arr", tuple(el[int(a):int(b)]))
        return None
    if len(v[1]) == 1:
        s = v[1][0]
        if s[0] == "sl":
            return mkseq([("sl", s[1], s[2], s[3] + lo, s[3] + hi)])
        if s[0] == "map":
            k = s[2]
            return mkseq([("map", hi - lo, k, subst(s[3], {k: Num.atom(k) + lo}))])
    if lo.const() == 0 and hi == seqlen(v):
        return v
    # prefix / suffix of concatenations
    out = []
    off = ZERO
    for s in v[1]:
        L = seglen(s)
        a = off
        bnd = off + L
        # entirely inside?
        if st.decide(le(lo, a)) and st.decide(le(bnd, hi)):
            out.append(s)
        elif st.decide(le(bnd, lo)) or st.decide(le(hi, a)):
            pass
        elif s[0] == "sl":
            l2 = s[3] + (lo - a) if st.decide(lt(a, lo)) else s[3]
            h2 = s[3] + (hi - a) if st.decide(lt(hi, bnd)) else s[4]
            out.append(("sl", s[1], s[2], l2, h2))
        else:
            return None
        off = bnd
    return mkseq(out)


def m_index(I, st, f, targs, args, site):
    v = I.strip(st, args[0])
    if isinstance(v, tuple) and v and v[0] == "ite":
        return NotImplemented
    if not (isinstance(v, tuple) and v and v[0] in ("seq", "arr")):
        return NotImplemented
    isstr = tys(I)[targs[0]]["s"] in ("str", "std::string::String")
    i = args[1]
    n = seqlen(v)
    if isinstance(i, Num) or (isinstance(i, tuple) and i and i[0] == "ite"):
        sts = bounds_check(I, st, i, n, site)
        mutable = f.name == "index_mut"
        out = []
        for s in sts:
            if mutable and args[0][0] == "ref":
                out.append((s, ("ref", args[0][1], args[0][2] + (("x", i),))))
            else:
                out.append((s, ("vref", I.index(v, i, s))))
        return out
    if isinstance(i, tuple) and i and i[0] == "adt":
        if isstr:
            r = idx_range(I, st, i, n)
            if r is not None and r[0].const() == 0 and r[1] == n:
                return ("vref", v)
            I.panic(site[0], site[2], "string slice by byte position may fall outside or inside a character", st)
            st.note("string slice")
            return ("vref", mkseq([("opq", ("strslice", v, i))]))
        r = idx_range(I, st, i, n)
        if r is None:
            return NotImplemented
        lo, hi = r
        if not (isinstance(lo, Num) and isinstance(hi, Num)):
            return NotImplemented
        sts = require(I, st, cand(le(lo, hi), le(hi, n)), "slice %r..%r out of range (len %r)" % (lo, hi, n), site)
        out = []
        for s in sts:
            w = slice_seq(I, s, v, lo, hi)
            if w is None:
                s.note("slice of a composite sequence")
                w = mkseq([("opq", ("slice", v, lo, hi))])
            out.append((s, ("vref", w)))
        return out
    return NotImplemented


def require(I, st, c, what, site):
    """panic obligation: condition c must hold"""
    if I.merge:
        return [st]
    r = st.decide(c)
    if r is True:
        return [st]
    for s in st.copy().assume(c, False):
        I.panic(site[0], site[2], what, s)
    return st.assume(c, True)


def bounds_check(I, st, i, n, site):
    if not isinstance(i, Num):
        return [st]
    return require(I, st, lt(i, n), "index %r out of bounds (len %r)" % (i, n), site)


def m_get(I, st, f, targs, args, site):
    v = seqof(I, st, args[0])
    rt = ret_ty(f)
    i = args[1]
    if v is None or rt is None:
        return NotImplemented
    if isinstance(i, Num):
        out = []
        for s, side in I.fork(site[0], site[1], st, lt(i, seqlen(v))):
            out.append((s, opt(I, rt, ("vref", I.index(v, i, s)) if side else None)))
        return out
    if isinstance(i, tuple) and i[0] == "adt":
        n = seqlen(v)
        r = idx_range(I, st, i, n)
        if r is None or not (isinstance(r[0], Num) and isinstance(r[1], Num)):
            return NotImplemented
        if tys(I)[targs[0]]["s"] == "str" or f.path.find("str") >= 0 and "slice" not in f.path:
            return NotImplemented
        out = []
        for s, side in I.fork(site[0], site[1], st, cand(le(r[0], r[1]), le(r[1], n))):
            if side:
                w = slice_seq(I, s, v, r[0], r[1])
                if w is None:
                    return NotImplemented
                out.append((s, opt(I, rt, ("vref", w))))
            else:
                out.append((s, opt(I, rt, None)))
        return out
    return NotImplemented


def m_first(I, st, f, targs, args, site, last=False):
    v = seqof(I, st, args[0])
    rt = ret_ty(f)
    if v is None or rt is None:
        return NotImplemented
    n = seqlen(v)
    out = []
    for s, side in I.fork(site[0], site[1], st, lt(ZERO, n)):
        out.append((s, opt(I, rt, ("vref", I.index(v, n - ONE_ if last else ZERO, s)) if side else None)))
    return out


def m_last(I, st, f, targs, args, site):
    return m_first(I, st, f, targs, args, site, True)


def m_contains(I, st, f, targs, args, site):
    v = seqof(I, st, args[0])
    x = I.strip(st, args[1])
    if v is None:
        return NotImplemented
    if v[0] == "arr" or all(s[0] == "e" for s in v[1]):
        rs = [veq(I, st, e[1], x) for e in as_segs(v)]
        if any(r is None for r in rs):
            return NotImplemented
        return cor(*rs) if rs else False
    return ("A", ("b", ("contains", v, x)))


def m_to_vec(I, st, f, targs, args, site):
    v = seqof(I, st, args[0])
    return NotImplemented if v is None else mkseq(as_segs(v))


def m_box_new(I, st, f, targs, args, site):
    root = ("H", len(I.stack), site[0].id, site[1])
    st.mem[root] = args[0]
    return ("box", root)


def m_box_uninit(I, st, f, targs, args, site):
    root = ("H", len(I.stack), site[0].id, site[1])
    st.mem[root] = ("undef",)
    return ("box", root)


def m_box_into_vec(I, st, f, targs, args, site):
    v = I.strip(st, args[0])
    if isinstance(args[0], tuple) and args[0][0] == "box":
        st.mem.pop(args[0][1], None)
    if isinstance(v, tuple) and v and v[0] in ("arr", "seq"):
        return mkseq(as_segs(v))
    return NotImplemented


def m_split_at(I, st, f, targs, args, site):
    return NotImplemented


# ---------------------------------------------------------------- Option/Result helpers kept symbolic
# (the std bodies are inlined)

# ---------------------------------------------------------------- numbers
def m_abs(I, st, f, targs, args, site):
    v = I.strip(st, args[0])
    if hasattr(I, "fabs"):
        return lift1(lambda x: I.fabs(x) if isinstance(x, Num) else ("unk", "abs"), v)
    return lift1(lambda x: ite(lt(x, ZERO), -x, x) if isinstance(x, Num) else ("unk", "abs"), v)


def fun(name):
    def m(I, st, f, targs, args, site):
        vs = [I.strip(st, a) for a in args]

        def g(*xs):
            if not all(isinstance(x, Num) for x in xs):
                return ("unk", name)
            if name == "sqrt":
                c = xs[0].const()
                if c is not None and c >= 0:
                    import math
                    from fractions import Fraction
                    n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
                    if n * n == c.numerator and d * d == c.denominator:
                        return Num.c(Fraction(n, d))
            return Num.atom((name,) + tuple(xs))
        if len(vs) == 1:
            return lift1(g, vs[0])
        return lift2(g, vs[0], vs[1])
    return m


def m_fmin(I, st, f, targs, args, site):
    a, b = I.strip(st, args[0]), I.strip(st, args[1])
    return lift2(lambda x, y: ite(lt(y, x), y, x) if isinstance(x, Num) and isinstance(y, Num) else ("unk", "min"), a, b)


def m_fmax(I, st, f, targs, args, site):
    a, b = I.strip(st, args[0]), I.strip(st, args[1])
    return lift2(lambda x, y: ite(lt(x, y), y, x) if isinstance(x, Num) and isinstance(y, Num) else ("unk", "max"), a, b)


def m_mul_add(I, st, f, targs, args, site):
    a, b, c = [I.strip(st, x) for x in args]
    return lift2(lambda x, y: x + y if isinstance(x, Num) and isinstance(y, Num) else ("unk", "mul_add"),
                 lift2(lambda x, y: x * y if isinstance(x, Num) and isinstance(y, Num) else ("unk", "mul_add"), a, b), c)


def m_powi(I, st, f, targs, args, site):
    a, n = I.strip(st, args[0]), args[1]
    c = n.const() if isinstance(n, Num) else None
    if c is not None and 0 <= c <= 8:
        def p(x):
            if not isinstance(x, Num):
                return ("unk", "pow")
            r = ONE_
            for _ in range(int(c)):
                r = r * x
            return r
        return lift1(p, a)
    if c is not None and -8 <= c < 0:
        def q(x):
            if not isinstance(x, Num):
                return ("unk", "pow")
            r = ONE_
            for _ in range(int(-c)):
                r = r * x
            return ONE_ / r
        return lift1(q, a)
    if isinstance(a, Num) and isinstance(n, Num):
        if f.name == "powi":
            return Num.atom(("powf", a, n))
        return Num.atom(("ipow", a, n))
    return NotImplemented


def m_recip(I, st, f, targs, args, site):
    return lift1(lambda x: ONE_ / x if isinstance(x, Num) else ("unk", "recip"), I.strip(st, args[0]))


def m_is_nan(I, st, f, targs, args, site):
    return lift1(lambda x: ("A", ("nan", x)) if isinstance(x, Num) else ("unk", "is_nan"), I.strip(st, args[0]))


def m_as(I, st, f, targs, args, site):
    # AsPrimitive::as_ : Self -> T
    T = tys(I)
    src, dst = targs[0], targs[1] if len(targs) > 1 else ret_ty(f)
    if dst is None:
        return NotImplemented
    a, b = T[src]["k"], T[dst]["k"]
    kind = {("int", "float"): "IntToFloat", ("uint", "float"): "IntToFloat", ("float", "float"): "FloatToFloat",
            ("float", "int"): "FloatToInt", ("float", "uint"): "FloatToInt"}.get((a, b), "IntToInt")
    return I.cast(kind, args[0], src, dst, st)


def checked(op):
    def m(I, st, f, targs, args, site):
        rt = ret_ty(f)
        a, b = I.strip(st, args[0]), I.strip(st, args[1])
        if rt is not None and not I.merge:
            for i, x in enumerate((a, b)):
                if isinstance(x, tuple) and x and x[0] == "ite":
                    out = []
                    for s, side in I.fork(site[0], site[1], st, x[1]):
                        y = x[2] if side else x[3]
                        r = m(I, s, f, targs, [y, b] if i == 0 else [a, y], site)
                        if r is NotImplemented:
                            return r
                        out += r if isinstance(r, list) else [(s, r)]
                    return out
        if rt is None or not (isinstance(a, Num) and isinstance(b, Num)):
            if rt is not None and (is_unk(a) or is_unk(b)):
                st.note("checked arithmetic on an unknown value")
                return ("unk", "checked arithmetic")
            return NotImplemented
        sty = tys(I)[rt]["args"][0]
        n = tys(I)[sty]["n"]
        if op == "Pow":
            ca, cb = a.const(), st.resolve(b).const()
            r = Num.c(int(ca) ** int(cb)) if ca is not None and cb is not None else Num.atom(("ipow", a, b))
        elif op == "Div" or op == "Rem":
            r = I.arith(op, a, b, tys(I)[sty]["k"], st)
            out = []
            for s, side in I.fork(site[0], site[1], st, eq(b, ZERO)):
                out.append((s, opt(I, rt, None if side else r)))
            return out
        else:
            r = I.arith(op, a, b, tys(I)[sty]["k"], st)
        from .interp import RANGES
        lo, hi = RANGES[n]
        c = st.resolve(r).const()
        if c is not None:
            return opt(I, rt, r if lo <= c <= hi else None)
        if op == "Sub" and lo == 0:
            cond = lt(r, ZERO)
        else:
            cond = ("A", ("ovf", n, r, "checked"))
        out = []
        for s, side in I.fork(site[0], site[1], st, cond):
            out.append((s, opt(I, rt, None if side else r)))
        return out
    return m


def fitting(op, how):
    """wrapping_ and saturating_ operations: the exact result brought into range"""
    def m(I, st, f, targs, args, site):
        from .interp import RANGES
        a, b = I.strip(st, args[0]), I.strip(st, args[1])
        if not (isinstance(a, Num) and isinstance(b, Num)) or f.body is None:
            return NotImplemented
        t = tys(I)[ret_ty(f)]
        if op == "Pow":
            ca, cb = a.const(), st.resolve(b).const()
            r = Num.c(int(ca) ** int(cb)) if ca is not None and cb is not None else Num.atom(("ipow", a, b))
        else:
            r = I.arith(op, a, b, t["k"], st)
        if not isinstance(r, Num):
            return NotImplemented
        lo, hi = RANGES[t["n"]]
        x = st.resolve(r)
        c = x.const()
        if c is not None:
            c = int(c)
            return Num.c((c - lo) % (hi - lo + 1) + lo if how == "wrapcast" else max(lo, min(hi, c)))
        u, l = st.ub(x), st.ub(-x)
        if u is not None and l is not None and lo <= -l and u <= hi:
            return r
        if how == "satcast" and lo == 0 and op == "Sub":
            return ite(lt(a, b), ZERO, r)
        return Num.atom((how, t["n"], r)) if lo < 0 else nonneg_atom((how, t["n"], r))
    return m


def m_max_value(I, st, f, targs, args, site):
    if f.body is None:
        return NotImplemented
    t = tys(I)[ret_ty(f)]
    if t["k"] in ("int", "uint"):
        from .interp import RANGES
        return Num.c(RANGES[t["n"]][1 if f.name == "max_value" else 0])
    return NotImplemented


def known(st, v, most=3):
    """the text of a short sequence of known characters, or None"""
    out = []
    for s in as_segs(v):
        if s[0] == "lit":
            out += s[1]
            continue
        if s[0] == "e":
            es = [s[1]]
        elif s[0] == "sl" and s[2] == "char":
            n = st.resolve(s[4] - s[3]).const()
            if n is None or not 0 <= n <= most:
                return None
            es = [nonneg_atom(("el", s[1], s[3] + Num.c(i), s[2])) for i in range(int(n))]
        else:
            return None
        for e in es:
            c = st.resolve(e).const() if isinstance(e, Num) else None
            if c is None:
                return None
            out.append(chr(int(c)))
        if len(out) > most:
            return None
    return "".join(out)


def m_parse(I, st, f, targs, args, site):
    """str::parse::<T>: Ok(exact value) or Err"""
    rt = ret_ty(f)
    v = seqof(I, st, args[0])
    if rt is None or v is None:
        return NotImplemented
    t = tys(I)[targs[-1]]
    if t["k"] not in ("int", "uint", "float"):
        return NotImplemented
    c = ("A", ("b", ("parses", t["n"], v)))
    k = ("parse", t["n"], v)
    if t["k"] == "uint":
        NONNEG.add(k)
    out = []
    t = known(st, v)
    if t is not None and t.lstrip("+-") in ("", "."):
        # no text of signs and a point is a number
        return [(st, ("adt", rt, 1, (("opaque", "parse error"),)))]
    for s, side in I.fork(site[0], site[1], st, c):
        if side:
            out.append((s, ("adt", rt, 0, (Num.atom(k),))))
        else:
            out.append((s, ("adt", rt, 1, (("opaque", "parse error"),))))
    return out


def m_try_from(I, st, f, targs, args, site):
    T = tys(I)
    if len(targs) < 2 or T[targs[0]]["k"] not in ("int", "uint") or T[targs[1]]["k"] not in ("int", "uint"):
        return NotImplemented
    rt = ret_ty(f)
    v = args[0]
    if rt is None or not isinstance(v, Num):
        return NotImplemented
    from .interp import RANGES
    lo, hi = RANGES[T[targs[0]]["n"]]
    slo, shi = RANGES[T[targs[1]]["n"]]
    c = cand(True if lo <= slo else le(Num.c(lo), v), True if shi <= hi else le(v, Num.c(hi)))
    out = []
    for s, side in I.fork(site[0], site[1], st, c):
        out.append((s, ("adt", rt, 0, (v,)) if side else ("adt", rt, 1, (("opaque", "out of range"),))))
    return out


# ---------------------------------------------------------------- characters
def cpred(name):
    def m(I, st, f, targs, args, site):
        v = I.strip(st, args[0])
        return lift1(lambda x: ("A", ("cp", name, x)) if isinstance(x, Num) else ("unk", name), v)
    return m


def m_alnum(I, st, f, targs, args, site):
    v = I.strip(st, args[0])
    return lift1(lambda x: cor(("A", ("cp", "alpha", x)), ("A", ("cp", "num", x))) if isinstance(x, Num) else ("unk", "alnum"), v)


ASCII = {
    "is_ascii_digit": "digit", "is_ascii_alphabetic": "alpha", "is_ascii_alphanumeric": "alnum", "is_ascii_lowercase": "lower",
    "is_ascii_uppercase": "upper", "is_ascii_whitespace": "ws", "is_ascii": "ascii", "is_ascii_hexdigit": "hex",
    "is_ascii_punctuation": "punct", "is_ascii_graphic": "graphic", "is_ascii_control": "ctrl",
}


def m_is_digit(I, st, f, targs, args, site):
    v = I.strip(st, args[0])
    if isinstance(args[1], Num) and args[1].const() == 10 and isinstance(v, Num):
        return ("A", ("cp", "a_digit", v))
    return NotImplemented


def m_to_string(I, st, f, targs, args, site):
    v = seqof(I, st, args[0])
    if v is not None and tys(I)[targs[0]]["s"] in ("str", "std::string::String", "&str"):
        return v
    x = I.strip(st, args[0])
    if isinstance(x, tuple) and x and x[0] in ("opaque", "sym", "unk"):
        return mkseq([("opq", ("to_string", x))])
    return NotImplemented


# ---------------------------------------------------------------- str
def m_chars(I, st, f, targs, args, site):
    v = seqof(I, st, args[0])
    return NotImplemented if v is None else ("it", "seq", v, ZERO, "val")


def m_replace(I, st, f, targs, args, site):
    v = seqof(I, st, args[0])
    a, b = seqof(I, st, args[1]), seqof(I, st, args[2])
    if isinstance(args[1], Num):
        a = mkseq([("e", args[1])])
    if v is None or a is None or b is None:
        return NotImplemented
    if littext(v) is not None and littext(a) and littext(b) is not None:
        return mkseq([("lit", littext(v).replace(littext(a), littext(b)))])
    k = ("replace", v, a, b)
    return mkseq([("sl", k, "char", ZERO, nonneg_atom(("len", k)))])


def m_split_ws(I, st, f, targs, args, site):
    v = seqof(I, st, args[0])
    if v is None:
        return NotImplemented
    k = ("words", v)
    return ("it", "seq", mkseq([("sl", k, "word", ZERO, nonneg_atom(("len", k)))]), ZERO, "val")


def m_str_eq_ic(I, st, f, targs, args, site):
    return NotImplemented


def strpred(name):
    def m(I, st, f, targs, args, site):
        v = seqof(I, st, args[0])
        x = I.strip(st, args[1])
        if v is None:
            return NotImplemented
        if isinstance(x, Num) and x.const() is not None:
            x = mkseq([("lit", chr(int(x.const())))])
        if not (isinstance(x, tuple) and x and x[0] in ("seq", "arr")):
            return NotImplemented
        r = strings.holds(("b", (name, v, x)), {})
        if r is not None:
            return r
        if name == "eq_ignore_ascii_case" and littext(v) is not None:
            v, x = x, v
        return ("A", ("b", (name, v, x)))
    return m


def m_trim(I, st, f, targs, args, site):
    v = seqof(I, st, args[0])
    if v is None:
        return NotImplemented
    r = mkseq([("opq", (f.name, v))])
    t = strings.text(r, {})
    if t is not None:
        r = mkseq([("lit", t)])
    return ("vref", r) if f.name.startswith("trim") else r


# ---------------------------------------------------------------- iterators
def to_iter(I, st, v):
    """iterator value for something iterable (by value or by reference)"""
    byref = False
    if isinstance(v, tuple) and v and v[0] in ("ref", "vref"):
        inner = I.strip(st, v)
        if isinstance(inner, tuple) and inner and inner[0] == "it":
            return inner
        if isinstance(inner, tuple) and inner and inner[0] in ("seq", "arr"):
            if v[0] == "ref":
                return ("it", "mut", v, ZERO)
            return ("it", "seq", inner, ZERO, "ref")
        if isinstance(inner, tuple) and inner and inner[0] == "adt" and tys(I)[inner[1]]["name"].startswith("std::ops::Range"):
            return to_iter(I, st, inner)
        return None
    if isinstance(v, tuple) and v and v[0] == "it":
        return v
    if isinstance(v, tuple) and v and v[0] in ("seq", "arr"):
        return ("it", "seq", v, ZERO, "val")
    if isinstance(v, tuple) and v and v[0] == "adt":
        t = tys(I)[v[1]]
        nm = t["name"]
        if nm == "std::ops::Range":
            return ("it", "range", v[3][0], v[3][1])
        if nm == "std::ops::RangeInclusive":
            return ("it", "range", v[3][0], lift1(lambda x: x + ONE_, v[3][1]))
        if nm == "std::ops::RangeFrom":
            return ("it", "from", v[3][0])
        if nm == "std::option::Option":
            return ("it", "seq", ("arr", v[3] if v[2] == 1 else ()), ZERO, "val")
    return None


def m_into_iter(I, st, f, targs, args, site):
    if f.local:
        return NotImplemented
    it = to_iter(I, st, args[0])
    if it is None:
        # an iterator already (local Iterator impl): identity
        if f.body is not None and f.path.startswith("<I as") or "IntoIterator for I" in f.full:
            return args[0]
        return NotImplemented
    if isinstance(args[0], tuple) and args[0] and args[0][0] == "ref":
        inner = I.deref(st, args[0])
        if isinstance(inner, tuple) and inner and inner[0] == "it":
            return args[0]          # &mut I is an iterator itself
    return it


def m_iter(I, st, f, targs, args, site):
    v = seqof(I, st, args[0])
    return NotImplemented if v is None else ("it", "seq", v, ZERO, "ref")


def m_iter_mut(I, st, f, targs, args, site):
    if isinstance(args[0], tuple) and args[0][0] == "ref":
        return ("it", "mut", args[0], ZERO)
    return NotImplemented


def m_chunks(I, st, f, targs, args, site):
    v = seqof(I, st, args[0])
    if v is None or not isinstance(args[1], Num) or args[1].const() is None or args[1].const() <= 0:
        if v is not None and isinstance(args[1], Num):
            require(I, st, lt(ZERO, args[1]), "chunk size is zero", site)
        return NotImplemented
    return ("it", "chunks", v, ZERO, args[1], f.name)


def item_ref(mode, x):
    return ("vref", x) if mode == "ref" else x


def it_next(I, st, it, site):
    """-> [(state, item or None, iterator')], or None when not modelled"""
    fn, b, line = site
    k = it[1]
    if k == "seq":
        v, p, mode = it[2], it[3], it[4]
        n = seqlen(v)
        out = []
        for s, side in I.fork(fn, b, st, lt(p, n)):
            if side:
                out.append((s, item_ref(mode, I.index(v, p, s) if not isword(v) else word(I, v, p, s)), ("it", "seq", v, p + ONE_, mode)))
            else:
                out.append((s, None, it))
        return out
    if k == "mut":
        ref, p = it[2], it[3]
        v = I.deref(st, ref)
        if not (isinstance(v, tuple) and v[0] in ("seq", "arr")):
            return None
        n = seqlen(v)
        out = []
        for s, side in I.fork(fn, b, st, lt(p, n)):
            if side:
                out.append((s, ("ref", ref[1], ref[2] + (("x", p),)), ("it", "mut", ref, p + ONE_)))
            else:
                out.append((s, None, it))
        return out
    if k == "range":
        lo, hi = it[2], it[3]
        c = lift2(lambda x, y: lt(x, y), lo, hi)
        if not is_cond(c):
            return None
        out = []
        for s, side in I.fork(fn, b, st, c):
            if side:
                out.append((s, lo, ("it", "range", lift1(lambda x: x + ONE_, lo), hi)))
            else:
                out.append((s, None, it))
        return out
    if k == "from":
        return [(st, it[2], ("it", "from", it[2] + ONE_))]
    if k == "map":
        r = it_next(I, st, it[2], site)
        if r is None:
            return None
        out = []
        for s, x, i2 in r:
            if x is None:
                out.append((s, None, ("it", "map", i2, it[3])))
                continue
            for s2, y in I.call_value(s, it[3], [x], line, fn, b):
                out.append((s2, y, ("it", "map", i2, it[3])))
        return out
    if k == "copied":
        r = it_next(I, st, it[2], site)
        if r is None:
            return None
        return [(s, None if x is None else I.deref(s, x), ("it", "copied", i2)) for s, x, i2 in r]
    if k == "enum":
        r = it_next(I, st, it[2], site)
        if r is None:
            return None
        return [(s, None if x is None else ("tup", (it[3], x)), ("it", "enum", i2, it[3] + ONE_ if x is not None else it[3])) for s, x, i2 in r]
    if k == "rev":
        inner = it[2]
        if inner[1] == "range":
            lo, hi = inner[2], inner[3]
            out = []
            for s, side in I.fork(fn, b, st, lt(lo, hi)):
                if side:
                    out.append((s, hi - ONE_, ("it", "rev", ("it", "range", lo, hi - ONE_))))
                else:
                    out.append((s, None, it))
            return out
        if inner[1] == "seq":
            v, p, mode = inner[2], inner[3], inner[4]
            hi = it[3] if len(it) > 3 else seqlen(v)
            out = []
            for s, side in I.fork(fn, b, st, lt(p, hi)):
                if side:
                    out.append((s, item_ref(mode, I.index(v, hi - ONE_, s)), ("it", "rev", inner, hi - ONE_)))
                else:
                    out.append((s, None, it))
            return out
        return None
    if k == "zip":
        r = it_next(I, st, it[2], site)
        if r is None:
            return None
        out = []
        for s, x, i2 in r:
            if x is None:
                out.append((s, None, ("it", "zip", i2, it[3])))
                continue
            r2 = it_next(I, s, it[3], site)
            if r2 is None:
                return None
            for s2, y, j2 in r2:
                out.append((s2, None if y is None else ("tup", (x, y)), ("it", "zip", i2, j2)))
        return out
    if k == "take":
        out = []
        for s, side in I.fork(fn, b, st, lt(ZERO, it[3])):
            if not side:
                out.append((s, None, it))
                continue
            r = it_next(I, s, it[2], site)
            if r is None:
                return None
            out += [(s2, x, ("it", "take", i2, it[3] - ONE_ if x is not None else it[3])) for s2, x, i2 in r]
        return out
    if k == "skip":
        cur = [(st, it[2])]
        n = it[3].const()
        if n is None or n > 64:
            return None
        for _ in range(int(n)):
            nxt = []
            for s, i in cur:
                r = it_next(I, s, i, site)
                if r is None:
                    return None
                nxt += [(s2, i2) for s2, x, i2 in r]
            cur = nxt
        out = []
        for s, i in cur:
            r = it_next(I, s, i, site)
            if r is None:
                return None
            out += r
        return out
    if k == "chain":
        r = it_next(I, st, it[2], site)
        if r is None:
            return None
        out = []
        for s, x, i2 in r:
            if x is not None:
                out.append((s, x, ("it", "chain", i2, it[3])))
            else:
                r2 = it_next(I, s, it[3], site)
                if r2 is None:
                    return None
                out += [(s2, y, ("it", "chain", i2, j2)) for s2, y, j2 in r2]
        return out
    if k == "filter":
        # at most a few steps for concrete iterators
        cur = [(st, it[2])]
        out = []
        for _ in range(64):
            nxt = []
            for s, i in cur:
                r = it_next(I, s, i, site)
                if r is None:
                    return None
                for s2, x, i2 in r:
                    if x is None:
                        out.append((s2, None, ("it", "filter", i2, it[3])))
                        continue
                    for s3, c in I.call_value(s2, it[3], [("vref", x)], line, fn, b):
                        if not is_cond(c):
                            return None
                        for s4, side in I.fork(fn, b, s3, c):
                            if side:
                                out.append((s4, x, ("it", "filter", i2, it[3])))
                            else:
                                nxt.append((s4, i2))
            cur = nxt
            if not cur:
                return out
        return None
    if k == "takew":
        r = it_next(I, st, it[2], site)
        if r is None:
            return None
        out = []
        for s, x, i2 in r:
            if x is None:
                out.append((s, None, ("it", "takew", i2, it[3])))
                continue
            for s3, c in I.call_value(s, it[3], [("vref", x)], line, fn, b):
                if not is_cond(c):
                    return None
                for s4, side in I.fork(fn, b, s3, c):
                    out.append((s4, x if side else None, ("it", "takew", i2, it[3])))
        return out
    if k == "peek":
        r = it_next(I, st, it[2], site)
        if r is None:
            return None
        return [(s, x, ("it", "peek", i2)) for s, x, i2 in r]
    if k == "chunks":
        v, p, c, nm = it[2], it[3], it[4], it[5]
        n = seqlen(v)
        exact = nm == "chunks_exact"
        out = []
        cnd = le(p + c, n) if exact else lt(p, n)
        for s, side in I.fork(fn, b, st, cnd):
            if not side:
                out.append((s, None, it))
                continue
            full = le(p + c, n)
            for s2, side2 in I.fork(fn, b, s, full):
                hi = p + c if side2 else n
                w = slice_seq(I, s2, v, p, hi)
                if w is None:
                    return None
                if side2 and w[0] == "seq" and c.const() <= 16:
                    w = ("arr", tuple(I.index(v, p + Num.c(i), s2) for i in range(int(c.const()))))
                out.append((s2, ("vref", w), ("it", "chunks", v, p + c, c, nm)))
        return out
    if k == "windows":
        v, p, c = it[2], it[3], it[4]
        n = seqlen(v)
        out = []
        for s, side in I.fork(fn, b, st, le(p + c, n)):
            if not side:
                out.append((s, None, it))
            else:
                w = ("arr", tuple(I.index(v, p + Num.c(i), s) for i in range(int(c.const()))))
                out.append((s, ("vref", w), ("it", "windows", v, p + ONE_, c)))
        return out
    if k == "step":
        inner, c = it[2], it[3]
        if inner[1] == "range":
            lo, hi = inner[2], inner[3]
            out = []
            for s, side in I.fork(fn, b, st, lt(lo, hi)):
                out.append((s, lo if side else None, ("it", "step", ("it", "range", lo + c, hi), c) if side else it))
            return out
        return None
    return None


def isword(v):
    return v[0] == "seq" and any(s[0] == "sl" and s[2] == "word" for s in v[1])


def word(I, v, p, st):
    s = v[1][0]
    k = ("word", s[1], s[3] + p)
    return ("vref", mkseq([("sl", k, "char", ZERO, nonneg_atom(("len", k)))]))


def m_next(I, st, f, targs, args, site):
    r = args[0]
    it = I.deref(st, r)
    if isinstance(it, tuple) and it and it[0] == "ref":      # &mut &mut I
        r = it
        it = I.deref(st, r)
    if isinstance(it, tuple) and it and it[0] == "adt" and tys(I)[it[1]]["name"].startswith("std::ops::Range"):
        it2 = to_iter(I, st, it)
        if it2 is None:
            return NotImplemented
        upd(I, st, r, it2)
        it = it2
    if not (isinstance(it, tuple) and it and it[0] == "it"):
        return NotImplemented
    rt = ret_ty(f)
    if rt is None:
        return NotImplemented
    if I.merge and not concrete_it(it):
        pass
    outs = it_next(I, st, it, site)
    if outs is None:
        return NotImplemented
    res = []
    for s, x, i2 in outs:
        upd(I, s, r, i2)
        res.append((s, opt(I, rt, x)))
    return res


def m_next_back(I, st, f, targs, args, site):
    r = args[0]
    it = I.deref(st, r)
    if isinstance(it, tuple) and it and it[0] == "it" and it[1] in ("range",):
        rt = ret_ty(f)
        out = []
        for s, side in I.fork(site[0], site[1], st, lt(it[2], it[3])):
            if side:
                upd(I, s, r, ("it", "range", it[2], it[3] - ONE_))
                out.append((s, opt(I, rt, it[3] - ONE_)))
            else:
                out.append((s, opt(I, rt, None)))
        return out
    return NotImplemented


def concrete_it(it):
    return True


def m_peek(I, st, f, targs, args, site):
    it = I.deref(st, args[0])
    rt = ret_ty(f)
    if not (isinstance(it, tuple) and it and it[0] == "it" and it[1] == "peek") or rt is None:
        return NotImplemented
    outs = it_next(I, st, it, site)
    if outs is None:
        return NotImplemented
    return [(s, opt(I, rt, None if x is None else ("vref", x))) for s, x, i2 in outs]


def adapter(kind, nargs=1):
    def m(I, st, f, targs, args, site):
        it = to_iter(I, st, args[0])
        if it is None:
            return NotImplemented
        if kind == "peek":
            return ("it", "peek", it)
        if kind == "copied":
            return ("it", "copied", it)
        if kind == "enum":
            return ("it", "enum", it, ZERO)
        if kind == "rev":
            if it[1] not in ("range", "seq"):
                if is_unbounded(I, st, it):
                    return NotImplemented
                r = drain(I, st, it, site)
                if r is None:
                    return NotImplemented
                return [(s, ("it", "seq", listed(xs[::-1]), ZERO, "val")) for s, xs in r]
            return ("it", "rev", it)
        if kind in ("zip", "chain"):
            jt = to_iter(I, st, args[1])
            if jt is None:
                return NotImplemented
            return ("it", kind, it, jt)
        return ("it", kind, it, args[1])
    return m


def is_unbounded(I, st, it):
    """is the number of items unknown"""
    k = it[1]
    if k == "seq":
        return st.resolve(seqlen(it[2]) - it[3]).const() is None
    if k == "mut":
        v = I.deref(st, it[2])
        return st.resolve(seqlen(v) - it[3]).const() is None
    if k == "range":
        try:
            return st.resolve(it[3] - it[2]).const() is None
        except TypeError:
            return True
    if k == "from":
        return True
    if k in ("chunks", "windows"):
        return st.resolve(seqlen(it[2]) - it[3]).const() is None
    if k == "zip":
        return is_unbounded(I, st, it[2]) and is_unbounded(I, st, it[3])
    if k == "chain":
        return is_unbounded(I, st, it[2]) or is_unbounded(I, st, it[3])
    if k == "take":
        return it[3].const() is None and is_unbounded(I, st, it[2])
    return is_unbounded(I, st, it[2])


def drain(I, st, it, site, limit=300):
    """all items of a bounded iterator: [(state, [items])] or None"""
    cur = [(st, it, ())]
    done = []
    for _ in range(limit):
        nxt = []
        for s, i, xs in cur:
            r = it_next(I, s, i, site)
            if r is None:
                return None
            for s2, x, i2 in r:
                if x is None:
                    done.append((s2, xs))
                else:
                    nxt.append((s2, i2, xs + (x,)))
        if not nxt:
            return done
        if len(nxt) > 64:
            return None
        cur = nxt
    return None


def collect(I, st, it, site):
    """[(state, seq)] or None"""
    if not is_unbounded(I, st, it):
        r = drain(I, st, it, site)
        if r is not None:
            return [(s, mkseq([("e", x) for x in xs])) for s, xs in r]
        return None
    k = it[1]
    if k == "seq" and it[3].const() == 0:
        v = it[2]
        if it[4] == "ref":
            return None
        return [(st, v if v[0] == "seq" else mkseq(as_segs(v)))]
    if k == "seq":
        w = slice_seq(I, st, it[2], it[3], seqlen(it[2]))
        if w is not None and it[4] == "val":
            return [(st, w)]
        return None
    if k == "copied":
        inner = it[2]
        if inner[1] == "seq" and inner[4] == "ref":
            return collect(I, st, ("it", "seq", inner[2], inner[3], "val"), site)
    if k == "peek":
        return collect(I, st, it[2], site)
    if k == "map":
        return collect_map(I, st, it, site)
    return None


def collect_map(I, st, it, site):
    """map over an iterator of unknown length whose k-th item has a closed form"""
    src, fv = it[2], it[3]
    kv = ("kv", len(I.stack))
    K = nonneg_atom(kv)
    if src[1] == "chunks" and src[3].const() == 0:
        v, c = src[2], src[4]
        n = st.resolve(seqlen(v))
        cc = c.const()
        # number of chunks: exact when the length is a multiple
        q = n * Num.c(1 / cc)
        l = q.linear()
        exact = l is not None and all(x.denominator == 1 for x in list(l[1].values()) + [l[0]])
        if not exact:
            if src[5] == "chunks_exact":
                cnt = Num.atom(("idiv", n, c))
                NONNEG.add(("idiv", n, c))
            else:
                return chunks_partial(I, st, it, site)
        else:
            cnt = q
        s = st.copy()
        s.assume_atom(lt(K, cnt)[1], True) if not isinstance(lt(K, cnt), bool) else None
        w = ("arr", tuple(I.index(v, K * c + Num.c(i), s) for i in range(int(cc))))
        outs = I.call_value(s, fv, [("vref", w)], site[2], site[0], site[1])
        if len(outs) != 1 or set(outs[0][0].facts) - set(s.facts):
            return None
        return [(st, mkseq([("map", cnt, kv, outs[0][1])]))]
    if src[1] in ("seq", "copied") or src[1] == "range":
        base = src[2] if src[1] == "copied" else src
        if src[1] == "range":
            cnt = src[3] - src[2]
            item = src[2] + K
        else:
            v, p, mode = base[2], base[3], base[4]
            cnt = seqlen(v) - p
            item = None
        s = st.copy()
        c = lt(K, cnt)
        if not isinstance(c, bool):
            s.assume_atom(c[1], True)
        if item is None:
            x = word(I, v, p + K, s) if isword(v) else I.index(v, p + K, s)
            item = x if (mode == "val" or src[1] == "copied") else ("vref", x)
        outs = I.call_value(s, fv, [item], site[2], site[0], site[1])
        if len(outs) != 1:
            return None
        s1, y = outs[0]
        if set(s1.facts) - set(s.facts) or s1.mem != s.mem:
            return None
        return [(st, mkseq([("map", cnt, kv, y)]))]
    return None


def chunks_partial(I, st, it, site):
    """chunks of a length that need not be a multiple: the last chunk may be short"""
    src, fv = it[2], it[3]
    v, c = src[2], src[4]
    # the short chunk: length between 1 and c-1
    for r in range(1, int(c.const())):
        s = st.copy()
        n = seqlen(v)
        k = ("imod", n, c)
        if not s.assume(eq(Num.atom(k), Num.c(r)), True):
            continue
        w = ("arr", tuple(("unk", "chunk element") for i in range(r)))
        I.call_value(s, fv, [("vref", w)], site[2], site[0], site[1])
    s = st.copy()
    ok = s.assume(eq(Num.atom(("imod", seqlen(v), c)), ZERO), True)
    if not ok:
        return []
    n = ok[0].resolve(seqlen(v)).linear()
    if n is None or any((x / c.const()).denominator != 1 for x in list(n[1].values()) + [n[0]]):
        return None
    return collect_map(I, ok[0], it, site)


def m_collect(I, st, f, targs, args, site):
    it = to_iter(I, st, args[0])
    if it is None:
        return NotImplemented
    rt = ret_ty(f)
    t = tys(I)[rt] if rt is not None else tys(I)[targs[-1]]
    if t["k"] != "adt":
        return NotImplemented
    if t["name"] in ("std::vec::Vec", "std::string::String", "std::path::PathBuf", "std::collections::VecDeque"):
        outs = collect(I, st, it, site)
        if outs is None:
            return NotImplemented
        if t["name"] == "std::string::String":
            res = []
            for s, q in outs:
                # items that are strings are concatenated
                segs = ()
                for g in q[1]:
                    if g[0] == "e" and not isinstance(g[1], Num):
                        w = seqof(I, s, g[1])
                        if w is None:
                            return NotImplemented
                        segs += as_segs(w)
                    else:
                        segs += (g,)
                res.append((s, mkseq(segs)))
            return res
        return outs
    if t["name"] in ("std::result::Result", "std::option::Option"):
        inner = tys(I)[t["args"][0]]
        if inner["k"] == "adt" and inner["name"] in ("std::vec::Vec", "std::string::String") and not is_unbounded(I, st, it):
            okv, errv = (0, 1) if t["name"] == "std::result::Result" else (1, 0)
            cur = [(st, it, ())]
            done = []
            for _ in range(64):
                nxt = []
                for s, i, xs in cur:
                    r = it_next(I, s, i, site)
                    if r is None:
                        return NotImplemented
                    for s2, x, i2 in r:
                        if x is None:
                            done.append((s2, ("adt", rt, okv, (mkseq([("e", e) for e in xs]),))))
                        elif isinstance(x, tuple) and x[0] == "adt":
                            if x[2] == okv:
                                nxt.append((s2, i2, xs + (x[3][0],)))
                            else:
                                done.append((s2, ("adt", rt, errv, x[3])))
                        else:
                            return NotImplemented
                if not nxt:
                    return done
                cur = nxt
    return NotImplemented


def m_fold(I, st, f, targs, args, site):
    it = to_iter(I, st, args[0])
    if it is None or is_unbounded(I, st, it):
        return NotImplemented
    r = drain(I, st, it, site)
    if r is None:
        return NotImplemented
    out = []
    for s, xs in r:
        cur = [(s, args[1])]
        for x in xs:
            nxt = []
            for s2, acc in cur:
                nxt += I.call_value(s2, args[2], [acc, x], site[2], site[0], site[1])
            cur = nxt
        out += cur
    return out


def m_sum(I, st, f, targs, args, site, prod=False):
    it = to_iter(I, st, args[0])
    if it is None or is_unbounded(I, st, it):
        return NotImplemented
    r = drain(I, st, it, site)
    if r is None:
        return NotImplemented
    out = []
    for s, xs in r:
        acc = ONE_ if prod else ZERO
        for x in xs:
            x = I.strip(s, x)
            acc = lift2(lambda p, q: (p * q if prod else p + q) if isinstance(p, Num) and isinstance(q, Num) else ("unk", "sum"), acc, x)
        out.append((s, acc))
    return out


def m_product(I, st, f, targs, args, site):
    return m_sum(I, st, f, targs, args, site, True)


def m_all(I, st, f, targs, args, site, any_=False):
    r = args[0]
    it = to_iter(I, st, r)
    if it is None:
        return NotImplemented
    if is_unbounded(I, st, it):
        return ("A", ("b", (f.name, it, args[1])))
    items = drain(I, st, it, site)
    if items is None:
        return NotImplemented
    out = []
    for s, xs in items:
        cs = []
        cur = s
        for x in xs:
            rs = I.call_value(cur, args[1], [x], site[2], site[0], site[1])
            if len(rs) != 1 or not is_cond(rs[0][1]):
                # partitioned: decide item by item
                return all_split(I, s, xs, args[1], site, any_)
            cur, c = rs[0]
            cs.append(c)
        out.append((cur, (cor if any_ else cand)(*cs) if cs else (not any_)))
    return out


def all_split(I, st, xs, fv, site, any_):
    cur = [st]
    out = []
    for x in xs:
        nxt = []
        for s in cur:
            for s2, c in I.call_value(s, fv, [x], site[2], site[0], site[1]):
                if not is_cond(c):
                    return NotImplemented
                for s3, side in I.fork(site[0], site[1], s2, c):
                    if side == any_:
                        out.append((s3, any_))
                    else:
                        nxt.append(s3)
        cur = nxt
    return out + [(s, not any_) for s in cur]


def spent(m):
    """operations that stop somewhere inside the iterator they borrow: what is left of it is not modelled"""
    def w(I, st, f, targs, args, site):
        r = m(I, st, f, targs, args, site)
        a = args[0]
        if r is NotImplemented or not (isinstance(a, tuple) and a and a[0] == "ref"):
            return r
        left = ("unk", "what is left of an iterator")
        if isinstance(r, list):
            for s, _ in r:
                I.store(s, a[1], a[2], left)
        else:
            I.store(st, a[1], a[2], left)
        return r
    return w


def m_any(I, st, f, targs, args, site):
    return m_all(I, st, f, targs, args, site, True)


def m_count(I, st, f, targs, args, site):
    it = to_iter(I, st, args[0])
    if it is None:
        return NotImplemented
    if it[1] == "seq":
        return seqlen(it[2]) - it[3]
    if it[1] in ("map", "copied", "peek", "enum") and it[2][1] == "seq":
        return seqlen(it[2][2]) - it[2][3]
    if not is_unbounded(I, st, it):
        r = drain(I, st, it, site)
        if r is not None:
            return [(s, Num.c(len(xs))) for s, xs in r]
    return NotImplemented


def m_for_each(I, st, f, targs, args, site):
    it = to_iter(I, st, args[0])
    if it is None or is_unbounded(I, st, it):
        return NotImplemented
    r = drain(I, st, it, site)
    if r is None:
        return NotImplemented
    out = []
    for s, xs in r:
        cur = [s]
        for x in xs:
            cur = [s3 for s2 in cur for s3, _ in I.call_value(s2, args[1], [x], site[2], site[0], site[1])]
        out += [(s2, ("tup", ())) for s2 in cur]
    return out


def m_nth(I, st, f, targs, args, site):
    r = args[0]
    it = I.deref(st, r)
    rt = ret_ty(f)
    if not (isinstance(it, tuple) and it and it[0] == "it") or rt is None:
        return NotImplemented
    n = args[1].const() if isinstance(args[1], Num) else None
    if it[1] == "seq" and isinstance(args[1], Num):
        v, p, mode = it[2], it[3], it[4]
        out = []
        q = p + args[1]
        for s, side in I.fork(site[0], site[1], st, lt(q, seqlen(v))):
            if side:
                x = word(I, v, q, s) if isword(v) else I.index(v, q, s)
                upd(I, s, r, ("it", "seq", v, q + ONE_, mode))
                out.append((s, opt(I, rt, item_ref(mode, x))))
            else:
                upd(I, s, r, ("it", "seq", v, seqlen(v), mode))
                out.append((s, opt(I, rt, None)))
        return out
    return NotImplemented


def m_last_it(I, st, f, targs, args, site):
    return NotImplemented


def m_minmax(op):
    def m(I, st, f, targs, args, site):
        return NotImplemented
    return m


def m_array_map(I, st, f, targs, args, site):
    v = I.strip(st, args[0])
    if not (isinstance(v, tuple) and v[0] == "arr"):
        return NotImplemented
    cur = [(st, ())]
    for x in v[1]:
        nxt = []
        for s, xs in cur:
            for s2, y in I.call_value(s, args[1], [x], site[2], site[0], site[1]):
                nxt.append((s2, xs + (y,)))
        cur = nxt
    return [(s, ("arr", xs)) for s, xs in cur]


# ---------------------------------------------------------------- calls of function values
def m_call(I, st, f, targs, args, site):
    tup = args[1]
    if not (isinstance(tup, tuple) and tup and tup[0] == "tup"):
        return NotImplemented
    return I.call_value(st, args[0], list(tup[1]), site[2], site[0], site[1])


# ---------------------------------------------------------------- mem
def m_swap(I, st, f, targs, args, site):
    a, b = args
    if isinstance(a, tuple) and a[0] == "ref" and isinstance(b, tuple) and b[0] == "ref":
        x, y = I.deref(st, a), I.deref(st, b)
        I.store(st, a[1], a[2], y)
        I.store(st, b[1], b[2], x)
        return ("tup", ())
    return NotImplemented


def m_replace_mem(I, st, f, targs, args, site):
    a = args[0]
    if isinstance(a, tuple) and a[0] == "ref":
        x = I.deref(st, a)
        I.store(st, a[1], a[2], args[1])
        return x
    return NotImplemented


def m_take_mem(I, st, f, targs, args, site):
    a = args[0]
    t = tys(I)[targs[0]]
    if isinstance(a, tuple) and a[0] == "ref":
        x = I.deref(st, a)
        if t["k"] == "adt" and t["name"] in ("std::vec::Vec", "std::string::String"):
            I.store(st, a[1], a[2], EMPTY)
            return x
        if t["k"] in ("int", "uint", "float"):
            I.store(st, a[1], a[2], ZERO)
            return x
        if t["k"] == "bool":
            I.store(st, a[1], a[2], False)
            return x
    return NotImplemented


def m_opt_take(I, st, f, targs, args, site):
    a = args[0]
    if isinstance(a, tuple) and a[0] == "ref":
        x = I.deref(st, a)
        rt = ret_ty(f)
        I.store(st, a[1], a[2], ("adt", rt, 0, ()))
        return x
    return NotImplemented


def m_slice_swap(I, st, f, targs, args, site):
    a = args[0]
    v = I.deref(st, a)
    if isinstance(a, tuple) and a[0] == "ref" and isinstance(v, tuple) and v[0] == "arr":
        x, y = I.index(v, args[1], st), I.index(v, args[2], st)
        I.store(st, a[1], a[2] + (("x", args[1]),), y)
        I.store(st, a[1], a[2] + (("x", args[2]),), x)
        return ("tup", ())
    return NotImplemented


def m_unit(I, st, f, targs, args, site):
    return ("tup", ())


def m_default(I, st, f, targs, args, site):
    t = tys(I)[targs[0]]
    if t["k"] == "adt" and t["name"] in ("std::vec::Vec", "std::string::String"):
        return EMPTY
    if t["k"] in ("int", "uint", "float"):
        return ZERO
    if t["k"] == "bool":
        return False
    return NotImplemented


def m_from_str(I, st, f, targs, args, site):
    t = tys(I)[targs[0]]
    if t["k"] in ("int", "uint", "float"):
        return m_parse(I, st, f, targs, args, site)
    return NotImplemented


def m_ord_cmp(I, st, f, targs, args, site):
    a, b = I.strip(st, args[0]), I.strip(st, args[1])
    rt = ret_ty(f)
    if rt is None:
        return NotImplemented
    t = tys(I)[rt]
    if t["k"] == "adt" and t["name"].endswith("Ordering") and prim(I, targs[0]):
        return I.ordering(a, b, rt)
    if t["k"] == "adt" and t["name"].endswith("Option") and prim(I, targs[0]):
        o = I.ordering(a, b, t["args"][0])
        return lift1(lambda x: ("adt", rt, 1, (x,)), o)
    return NotImplemented


def m_ordminmax(name):
    def m(I, st, f, targs, args, site):
        if not prim(I, targs[0]):
            return NotImplemented
        return (m_fmin if name == "min" else m_fmax)(I, st, f, targs, args, site)
    return m


def m_clamp(I, st, f, targs, args, site):
    return NotImplemented


def m_zero(I, st, f, targs, args, site):
    return ZERO


def m_one(I, st, f, targs, args, site):
    return ONE_


def primself(g):
    def m(I, st, f, targs, args, site):
        if targs and tys(I)[targs[0]]["k"] in ("int", "uint", "float"):
            return g(I, st, f, targs, args, site)
        return NotImplemented
    return m


def m_from_chars(I, st, f, targs, args, site):
    return m_collect(I, st, f, targs, args, site)


def m_concat(I, st, f, targs, args, site):
    return NotImplemented


# ---------------------------------------------------------------- sequences of known length
def elements(I, st, v, most=24):
    """the elements of a sequence whose length is known, or None"""
    if not (isinstance(v, tuple) and v and v[0] in ("seq", "arr")):
        return None
    n = st.resolve(seqlen(v)).const()
    if n is None or not 0 <= n <= most:
        return None
    return [I.index(v, Num.c(i), st) for i in range(int(n))]


def listed(xs):
    return mkseq([("e", x) for x in xs])


def m_insert(I, st, f, targs, args, site):
    v = I.deref(st, args[0])
    i = st.resolve(args[1]).const() if isinstance(args[1], Num) else None
    if not (isinstance(v, tuple) and v and v[0] == "seq") or i is None:
        return NotImplemented
    if i == 0:
        upd(I, st, args[0], mkseq((("e", args[2]),) + v[1]))
        return ("tup", ())
    xs = elements(I, st, v)
    if xs is None or i > len(xs):
        return NotImplemented
    xs.insert(int(i), args[2])
    upd(I, st, args[0], listed(xs))
    return ("tup", ())


def m_remove(I, st, f, targs, args, site):
    v = I.deref(st, args[0])
    i = st.resolve(args[1]).const() if isinstance(args[1], Num) else None
    xs = elements(I, st, v)
    if i is None or xs is None or i >= len(xs):
        return NotImplemented
    x = xs[int(i)]
    if f.name == "swap_remove":
        xs[int(i)] = xs[-1]
        xs.pop()
    else:
        xs.pop(int(i))
    upd(I, st, args[0], listed(xs))
    return x


def m_truncate(I, st, f, targs, args, site):
    v = I.deref(st, args[0])
    n = args[1]
    if not (isinstance(v, tuple) and v and v[0] == "seq") or not isinstance(n, Num):
        return NotImplemented
    if st.decide(le(seqlen(v), n)) is True:
        return ("tup", ())
    xs = elements(I, st, v)
    n = st.resolve(n).const()
    if xs is None or n is None:
        return NotImplemented
    upd(I, st, args[0], listed(xs[:int(n)]))
    return ("tup", ())


def m_append(I, st, f, targs, args, site):
    v, w = I.deref(st, args[0]), I.deref(st, args[1])
    if not all(isinstance(x, tuple) and x and x[0] == "seq" for x in (v, w)):
        return NotImplemented
    upd(I, st, args[0], seqcat(v, w))
    upd(I, st, args[1], EMPTY)
    return ("tup", ())


def m_reverse(I, st, f, targs, args, site):
    v = I.deref(st, args[0])
    xs = elements(I, st, v, 64)
    if xs is None:
        return NotImplemented
    xs.reverse()
    upd(I, st, args[0], ("arr", tuple(xs)) if v[0] == "arr" else listed(xs))
    return ("tup", ())


def m_retain(I, st, f, targs, args, site):
    v = I.deref(st, args[0])
    xs = elements(I, st, v)
    if xs is None:
        return NotImplemented
    r = keep(I, st, xs, args[1], site)
    if r is None:
        return NotImplemented
    for s, ys in r:
        upd(I, s, args[0], listed(ys))
    return [(s, ("tup", ())) for s, _ in r]


def keep(I, st, xs, fv, site):
    """[(state, the items for which fv holds)], or None"""
    cur = [(st, ())]
    for x in xs:
        nxt = []
        for s, ys in cur:
            for s2, c in I.call_value(s, fv, [("vref", x)], site[2], site[0], site[1]):
                if not is_cond(c):
                    return None
                for s3, side in I.fork(site[0], site[1], s2, c):
                    nxt.append((s3, ys + (x,) if side else ys))
        cur = nxt
        if len(cur) > 64:
            return None
    return cur


def m_windows(I, st, f, targs, args, site):
    v = seqof(I, st, args[0])
    if v is None or not isinstance(args[1], Num) or not (args[1].const() or 0) > 0:
        return NotImplemented
    return ("it", "windows", v, ZERO, args[1])


def bounded(I, st, r, site):
    it = to_iter(I, st, r)
    if it is None or is_unbounded(I, st, it):
        return None
    return drain(I, st, it, site)


def m_it_last(I, st, f, targs, args, site):
    r = bounded(I, st, args[0], site)
    if r is None or ret_ty(f) is None:
        return NotImplemented
    return [(s, opt(I, ret_ty(f), xs[-1] if xs else None)) for s, xs in r]


def m_it_minmax(name):
    def m(I, st, f, targs, args, site):
        r = bounded(I, st, args[0], site)
        if r is None or ret_ty(f) is None:
            return NotImplemented
        out = []
        for s, xs in r:
            if not all(isinstance(I.strip(s, x), Num) for x in xs):
                return NotImplemented
            acc = None
            for x in xs:
                # the last of equal items for max, the first for min: the same number
                x = I.strip(s, x)
                acc = x if acc is None else ite(lt(x, acc) if name == "min" else lt(acc, x), x, acc)
            t = tys(I)[ret_ty(f)]
            isref = t["k"] == "adt" and t["args"] and tys(I)[t["args"][0]]["k"] == "ref"
            out.append((s, opt(I, ret_ty(f), None if acc is None else ("vref", acc) if isref else acc)))
        return out
    return m


def m_search(kind):
    """find, position, find_map, rposition is not modelled"""
    def m(I, st, f, targs, args, site):
        r = bounded(I, st, args[0], site)
        rt = ret_ty(f)
        if r is None or rt is None:
            return NotImplemented
        out = []
        for s, xs in r:
            cur = [s]
            for i, x in enumerate(xs):
                nxt = []
                for s1 in cur:
                    for s2, c in I.call_value(s1, args[1], [("vref", x) if kind == "find" else x], site[2], site[0], site[1]):
                        if not is_cond(c):
                            return NotImplemented
                        for s3, side in I.fork(site[0], site[1], s2, c):
                            if side:
                                out.append((s3, opt(I, rt, x if kind == "find" else Num.c(i))))
                            else:
                                nxt.append(s3)
                cur = nxt
            out += [(s1, opt(I, rt, None)) for s1 in cur]
        return out
    return m


def m_filter_map(I, st, f, targs, args, site):
    """on a bounded iterator, evaluated at once"""
    r = bounded(I, st, args[0], site)
    if r is None:
        return NotImplemented
    out = []
    for s, xs in r:
        cur = [(s, ())]
        for x in xs:
            nxt = []
            for s1, ys in cur:
                for s2, v in I.call_value(s1, args[1], [x], site[2], site[0], site[1]):
                    if not (isinstance(v, tuple) and v and v[0] == "adt"):
                        return NotImplemented
                    nxt.append((s2, ys + (v[3][0],) if v[2] == 1 else ys))
            cur = nxt
            if len(cur) > 64:
                return NotImplemented
        out += [(s1, ("it", "seq", listed(ys), ZERO, "val")) for s1, ys in cur]
    return out


def m_signum(I, st, f, targs, args, site):
    return lift1(lambda x: ite(lt(x, ZERO), Num.c(-1), ite(eq(x, ZERO), ONE_ if f.path.find("f32") >= 0 or f.path.find("f64") >= 0 else ZERO, ONE_)) if isinstance(x, Num) else ("unk", "signum"), I.strip(st, args[0]))


def m_clamped(I, st, f, targs, args, site):
    xs = [I.strip(st, a) for a in args]
    if not all(isinstance(x, Num) for x in xs):
        return NotImplemented
    x, lo, hi = xs
    return ite(lt(x, lo), lo, ite(lt(hi, x), hi, x))


def m_ascii_case(I, st, f, targs, args, site):
    x = I.strip(st, args[0])
    if not isinstance(x, Num):
        return NotImplemented
    up = f.name == "to_ascii_uppercase"
    return ite(("A", ("cp", "a_lower" if up else "a_upper", x)), x + Num.c(-32 if up else 32), x)


WRITTEN = {
    "std::ops::Add::add": numop("Add"), "std::ops::Sub::sub": numop("Sub"), "std::ops::Mul::mul": numop("Mul"),
    "std::ops::Div::div": numop("Div"), "std::ops::Rem::rem": numop("Rem"),
    "std::ops::AddAssign::add_assign": numassign("Add"), "std::ops::SubAssign::sub_assign": numassign("Sub"),
    "std::ops::MulAssign::mul_assign": numassign("Mul"), "std::ops::DivAssign::div_assign": numassign("Div"),
    "std::ops::Neg::neg": primself(lambda I, st, f, ta, a, s: lift1(lambda x: -x if isinstance(x, Num) else ("unk", "neg"), I.strip(st, a[0]))),
    "std::cmp::PartialEq::eq": cmpop("Eq"), "std::cmp::PartialEq::ne": cmpop("Ne"),
    "std::cmp::PartialOrd::lt": cmpop("Lt"), "std::cmp::PartialOrd::le": cmpop("Le"),
    "std::cmp::PartialOrd::gt": cmpop("Gt"), "std::cmp::PartialOrd::ge": cmpop("Ge"),
    "std::cmp::Ord::cmp": m_ord_cmp, "std::cmp::PartialOrd::partial_cmp": m_ord_cmp,
    "std::cmp::Ord::min": m_ordminmax("min"), "std::cmp::Ord::max": m_ordminmax("max"),
    "std::cmp::min": m_ordminmax("min"), "std::cmp::max": m_ordminmax("max"),
    "std::clone::Clone::clone": m_clone, "std::borrow::ToOwned::to_owned": m_to_owned,
    "std::convert::AsRef::as_ref": m_as_ref, "std::ops::Deref::deref": m_deref, "std::ops::DerefMut::deref_mut": m_deref_mut,
    "std::borrow::Borrow::borrow": m_as_ref,
    "std::convert::From::from": m_from, "std::convert::TryFrom::try_from": m_try_from,
    "std::ops::Index::index": m_index, "std::ops::IndexMut::index_mut": m_index,
    "std::iter::IntoIterator::into_iter": m_into_iter, "std::iter::Iterator::next": m_next,
    "std::iter::DoubleEndedIterator::next_back": m_next_back,
    "std::iter::Iterator::map": adapter("map"), "std::iter::Iterator::rev": adapter("rev"),
    "std::iter::Iterator::enumerate": adapter("enum"), "std::iter::Iterator::zip": adapter("zip"),
    "std::iter::Iterator::chain": adapter("chain"), "std::iter::Iterator::take": adapter("take"),
    "std::iter::Iterator::skip": adapter("skip"), "std::iter::Iterator::filter": adapter("filter"),
    "std::iter::Iterator::cloned": adapter("copied"), "std::iter::Iterator::copied": adapter("copied"),
    "std::iter::Iterator::peekable": adapter("peek"), "std::iter::Iterator::take_while": adapter("takew"),
    "std::iter::Iterator::step_by": adapter("step"),
    "std::iter::Iterator::collect": m_collect, "std::iter::FromIterator::from_iter": m_collect,
    "std::iter::Iterator::fold": m_fold, "std::iter::Iterator::sum": m_sum, "std::iter::Iterator::product": m_product,
    "std::iter::Iterator::all": spent(m_all), "std::iter::Iterator::any": spent(m_any), "std::iter::Iterator::count": m_count,
    "std::iter::Iterator::for_each": m_for_each, "std::iter::Iterator::nth": m_nth, "std::iter::Iterator::by_ref": m_id,
    "std::iter::Extend::extend": m_extend, "std::iter::Iterator::last": m_it_last,
    "std::iter::Iterator::min": m_it_minmax("min"), "std::iter::Iterator::max": m_it_minmax("max"),
    "std::iter::Iterator::find": spent(m_search("find")), "std::iter::Iterator::position": spent(m_search("position")),
    "std::iter::Iterator::filter_map": m_filter_map,
    "std::ops::Fn::call": m_call, "std::ops::FnMut::call_mut": m_call, "std::ops::FnOnce::call_once": m_call,
    "num::traits::AsPrimitive::as_": m_as, "num::Signed::abs": primself(m_abs),
    "num::Zero::zero": primself(m_zero), "num::One::one": primself(m_one),
    "num::Float::sqrt": primself(fun("sqrt")), "num::Float::abs": primself(m_abs),
    "std::default::Default::default": m_default, "std::str::FromStr::from_str": m_from_str,
    "std::string::ToString::to_string": m_to_string,
}
for _c in ("num::traits", "num_traits", "num_traits::sign", "num_traits::identities", "num_traits::cast"):
    WRITTEN[_c + "::Signed::abs"] = primself(m_abs)
    WRITTEN[_c + "::AsPrimitive::as_"] = m_as
    WRITTEN[_c + "::Zero::zero"] = primself(m_zero)
    WRITTEN[_c + "::One::one"] = primself(m_one)

PATHS = {
    "std::boxed::box_assume_init_into_vec_unsafe": m_box_into_vec,
    "std::mem::swap": m_swap, "std::mem::replace": m_replace_mem, "std::mem::take": m_take_mem,
    "core::mem::swap": m_swap, "core::mem::replace": m_replace_mem, "core::mem::take": m_take_mem,
    "std::hint::must_use": m_id, "core::hint::must_use": m_id,
    "std::mem::drop": m_unit, "core::mem::drop": m_unit,
    "std::hint::assert_unchecked": m_unit, "std::hint::black_box": m_id,
}

METHODS = {
    "Vec::new": m_vec_new, "Vec::with_capacity": m_vec_new, "String::new": m_vec_new, "String::with_capacity": m_vec_new,
    "Vec::push": m_push, "String::push": m_push, "String::push_str": m_push_str, "Vec::reserve": m_unit, "String::reserve": m_unit,
    "Vec::len": m_len, "slice::len": m_len, "Vec::is_empty": m_is_empty, "slice::is_empty": m_is_empty,
    "str::is_empty": m_is_empty, "String::is_empty": m_is_empty, "str::len": m_strlen, "String::len": m_strlen,
    "Vec::clear": m_clear, "String::clear": m_clear, "Vec::pop": m_pop, "String::pop": m_pop,
    "Vec::insert": m_insert, "Vec::remove": m_remove, "Vec::swap_remove": m_remove, "Vec::truncate": m_truncate, "Vec::append": m_append,
    "Vec::retain": m_retain, "slice::reverse": m_reverse, "slice::windows": m_windows,
    "f32::signum": m_signum, "f64::signum": m_signum, "f32::clamp": m_clamped, "f64::clamp": m_clamped,
    "char::to_ascii_lowercase": m_ascii_case, "char::to_ascii_uppercase": m_ascii_case,
    "Vec::extend_from_slice": m_push_str, "Vec::as_slice": m_as_ref, "String::as_str": m_as_ref, "String::as_mut_str": m_id,
    "slice::get": m_get, "slice::first": m_first, "slice::last": m_last, "slice::contains": m_contains,
    "slice::to_vec": m_to_vec, "slice::into_vec": m_box_into_vec, "slice::iter": m_iter, "slice::iter_mut": m_iter_mut,
    "slice::chunks": m_chunks, "slice::chunks_exact": m_chunks, "slice::swap": m_slice_swap,
    "Box::new": m_box_new, "Box::new_uninit": m_box_uninit,
    "f32::abs": m_abs, "f64::abs": m_abs, "f32::sqrt": fun("sqrt"), "f64::sqrt": fun("sqrt"),
    "f32::floor": fun("floor"), "f64::floor": fun("floor"), "f32::ceil": fun("ceil"), "f64::ceil": fun("ceil"),
    "f32::powf": fun("powf"), "f64::powf": fun("powf"), "f32::powi": m_powi, "f64::powi": m_powi,
    "f32::min": m_fmin, "f64::min": m_fmin, "f32::max": m_fmax, "f64::max": m_fmax, "f32::recip": m_recip, "f64::recip": m_recip,
    "f32::mul_add": m_mul_add, "f64::mul_add": m_mul_add, "f32::is_nan": m_is_nan, "f64::is_nan": m_is_nan,
    "f32::round": fun("round"), "f64::round": fun("round"), "f32::trunc": fun("ftrunc"), "f64::trunc": fun("ftrunc"),
    "f32::sin": fun("sin"), "f64::sin": fun("sin"), "f32::cos": fun("cos"), "f64::cos": fun("cos"),
    "f32::hypot": fun("hypot"), "f64::hypot": fun("hypot"), "f32::exp": fun("exp"), "f64::exp": fun("exp"),
    "f32::ln": fun("ln"), "f64::ln": fun("ln"), "f32::cbrt": fun("cbrt"), "f64::cbrt": fun("cbrt"),
    "char::is_whitespace": cpred("ws"), "char::is_alphabetic": cpred("alpha"), "char::is_numeric": cpred("num"),
    "char::is_control": cpred("ctrl"), "char::is_uppercase": cpred("upper"), "char::is_lowercase": cpred("lower"),
    "char::is_alphanumeric": m_alnum, "char::is_digit": m_is_digit,
    "str::chars": m_chars, "str::replace": m_replace, "str::split_whitespace": m_split_ws, "str::parse": m_parse,
    "str::starts_with": strpred("starts_with"), "str::ends_with": strpred("ends_with"), "str::contains": strpred("contains"),
    "str::to_lowercase": m_trim, "str::to_uppercase": m_trim, "str::to_ascii_lowercase": m_trim, "str::to_ascii_uppercase": m_trim,
    "str::eq_ignore_ascii_case": strpred("eq_ignore_ascii_case"),
    "str::trim": m_trim, "str::trim_start": m_trim, "str::trim_end": m_trim, "str::to_string": m_to_owned, "str::to_owned": m_to_owned,
    "str::as_bytes": lambda I, st, f, ta, a, s: NotImplemented,
    "Peekable::peek": m_peek, "Option::take": m_opt_take,
    "array::map": m_array_map, "[T; N]::map": m_array_map,
    "PathBuf::new": m_vec_new,
}
for _n, _f in ASCII.items():
    METHODS["char::" + _n] = cpred("a_" + _f)
    METHODS["u8::" + _n] = cpred("a_" + _f)
for _t in ("i8", "i16", "i32", "i64", "isize", "u8", "u16", "u32", "u64", "usize", "i128", "u128"):
    for _o in ("add", "sub", "mul", "div", "rem", "pow"):
        METHODS["%s::checked_%s" % (_t, _o)] = checked(_o.capitalize())
        METHODS["%s::wrapping_%s" % (_t, _o)] = fitting(_o.capitalize(), "wrapcast")
        METHODS["%s::saturating_%s" % (_t, _o)] = fitting(_o.capitalize(), "satcast")
    METHODS["%s::abs" % _t] = m_abs
    METHODS["%s::max_value" % _t] = m_max_value
    METHODS["%s::min_value" % _t] = m_max_value
    METHODS["%s::pow" % _t] = m_powi
