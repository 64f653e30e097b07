"""Properties of the geometry core: gated value numbering of each operation against its definition."""
import signal
import time
from fractions import Fraction
from engine.terms import Num, cnot, cand, cor, lt, le, eq, ZERO, INF, okey
from engine.values import ite, is_cond, lift1, lift2
from engine.interp import Interp, Undecided, Limit, valstr, condstr
from engine.state import State
from . import common, equiv, pivot
from .equiv import compare

C = Num.c
F32 = {}


class O:
    """read-only view of a symbolic argument"""

    def __init__(self, P, v):
        self.__dict__["_P"], self.__dict__["_v"] = P, v

    def __getattr__(self, n):
        return field(self._P, self._v, n)


def field(P, v, n):
    names = [f[0] for f in P.tys[v[1]]["v"][0]["f"]]
    return wrap(P, v[3][names.index(n)])


def wrap(P, v):
    if isinstance(v, tuple) and v:
        if v[0] == "vref":
            return wrap(P, v[1])
        if v[0] == "adt":
            return O(P, v)
        if v[0] in ("arr", "tup"):
            return [wrap(P, x) for x in v[1]]
    return v


class Case:
    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b


class Variant:
    def __init__(self, name, *fs):
        self.name, self.fs = name, fs


class Any_:
    pass


ANY = Any_()


class Entry:
    def __init__(self, prop, what, name, selfty, args, spec, trait=None, pre=None, panics=None, inst=("F", "i64"), consts=None, post=None, ref=False, note=None):
        self.__dict__.update(locals())


def vec(f, *args):
    """component-wise"""
    return {c: f(*[(getattr(a, c) if isinstance(a, O) else a) for a in args]) for c in "xyz"}


def vec2(f, *args):
    return {c: f(*[(getattr(a, c) if isinstance(a, O) else a) for a in args]) for c in "xy"}


def nmin(*xs):
    r = xs[0]
    for x in xs[1:]:
        r = lift2(lambda a, b: ite(lt(b, a), b, a), r, x)
    return r


def nmax(*xs):
    r = xs[0]
    for x in xs[1:]:
        r = lift2(lambda a, b: ite(lt(a, b), b, a), r, x)
    return r


def fsqrt(x):
    return Num.atom(("sqrt", x))


def div(x, y, T):
    return Num.atom(("idiv", x, y)) if T == "i64" else x / y


def dot(a, b):
    return a.x * b.x + a.y * b.y + a.z * b.z


def cross(a, b):
    return {"x": a.y * b.z - a.z * b.y, "y": a.z * b.x - a.x * b.z, "z": a.x * b.y - a.y * b.x}


# ---------------------------------------------------------------- running one function
def tname(P, t):
    x = P.tys[t]
    while x["k"] == "ref":
        x = P.tys[x["to"]]
    if x["k"] == "adt":
        return x["name"].split("::")[-1]
    if x["k"] in ("float", "int", "uint"):
        return "T" if x["k"] in ("float", "int") and x.get("n") in ("f32", "f64", "i64") else x["n"]
    return x["k"]


def elemty(P, f):
    """scalar type of the instance"""
    cand_ = []
    if f.selfty is not None:
        cand_.append(f.selfty)
    cand_ += f.body["locals"][1:1 + f.body["nargs"]]
    for t in cand_:
        x = P.tys[t]
        while x["k"] == "ref":
            x = P.tys[x["to"]]
        if x["k"] == "adt" and x["args"]:
            y = P.tys[x["args"][0]]
            if y["k"] in ("float", "int"):
                return y["n"]
        if x["k"] in ("float", "int") and x["n"] in ("f32", "f64", "i64"):
            return x["n"]
        if x["k"] in ("array", "slice"):
            while x["k"] in ("array", "slice"):
                x = P.tys[x["of"]]
            return x.get("n")
    return None


def find(P, e, flt):
    out = []
    for f in P.roots:
        if f.closure or f.name != e.name:
            continue
        if (e.trait is None) != (f.trait is None):
            continue
        if e.trait and f.trait.split("::")[-1] != e.trait:
            continue
        if e.selfty is not None:
            if f.selfty is None or tname(P, f.selfty) != e.selfty:
                continue
            if (P.tys[f.selfty]["k"] == "ref") != e.ref:
                continue
        elif f.selfty is not None:
            continue
        L = f.body["locals"]
        n = f.body["nargs"]
        if [tname(P, L[i + 1]) for i in range(n)] != list(e.args):
            continue
        T = elemty(P, f)
        T = "F" if T == flt or T is None else T
        if T not in e.inst:
            continue
        out.append((T, f))
    return out


def run(P, f, args=None, st=None, steps=200000):
    I = Interp(P, merge=True)
    I.max_steps = steps
    st = st or State()
    if args is None:
        args = []
        for i in range(f.body["nargs"]):
            nm = "a%d" % i
            args.append(I.mk(nm, f.body["locals"][i + 1], st))
    r = I.run_fn(f, list(args), st)
    return I, args, r


def symargs(P, f, st, consts=None):
    I = Interp(P, merge=True)
    args = []
    for i in range(f.body["nargs"]):
        if consts and i in consts:
            args.append(C(consts[i]))
        else:
            args.append(I.mk("a%d" % i, f.body["locals"][i + 1], st))
    return I, args


def cmp_tree(R, P, key, impl, spec, pre, ints, path=""):
    """compare an abstract value with a specification tree"""
    if spec is ANY:
        return
    if isinstance(spec, O):
        spec = spec._v
    if isinstance(spec, Case):
        cmp_tree(R, P, key, impl, spec.a, pre + [spec.c], ints, path)
        cmp_tree(R, P, key, impl, spec.b, pre + [cnot(spec.c)], ints, path)
        return
    if isinstance(impl, tuple) and impl and impl[0] == "vref":
        return cmp_tree(R, P, key, impl[1], spec, pre, ints, path)
    if isinstance(spec, tuple) and spec and spec[0] in ("vref",):
        return cmp_tree(R, P, key, impl, spec[1], pre, ints, path)
    if isinstance(spec, tuple) and spec and spec[0] == "adt":
        names = [f[0] for f in P.tys[spec[1]]["v"][0]["f"]]
        spec = dict(zip(names, spec[3]))
    if isinstance(spec, tuple) and spec and spec[0] in ("arr", "tup"):
        spec = list(spec[1])
    if isinstance(spec, (dict, list, Variant)) and isinstance(impl, tuple) and impl and impl[0] == "ite":
        cmp_tree(R, P, key, impl[2], spec, pre + [impl[1]], ints, path)
        cmp_tree(R, P, key, impl[3], spec, pre + [cnot(impl[1])], ints, path)
        return
    if isinstance(spec, (dict, list, Variant)):
        feas = any(True for _ in equiv.points([], pre, ints, 1)) if pre else True
        if isinstance(impl, tuple) and impl and impl[0] == "unk":
            R.und(key + path, "value outside the model: %s" % (impl[1],))
            return
        if isinstance(spec, Variant):
            got = P.tys[impl[1]]["v"][impl[2]]["n"] if isinstance(impl, tuple) and impl and impl[0] == "adt" else None
            if got != spec.name:
                if feas:
                    R.viol(key + path, "yields %s where %s is expected (when %s)" % (got, spec.name, " and ".join(condstr(c) for c in pre)))
                elif equiv.Prover(ints).prove(True, False, pre):
                    R.ok(key + path, "infeasible")
                else:
                    R.und(key + path, "cannot decide whether %s is reachable" % got)
                return
            for i, s in enumerate(spec.fs):
                cmp_tree(R, P, key, impl[3][i], s, pre, ints, path + ".%d" % i)
            return
        if isinstance(spec, dict):
            if not (isinstance(impl, tuple) and impl and impl[0] == "adt"):
                R.und(key + path, "value is not a structure: %s" % valstr(impl, P)[:200])
                return
            names = [f[0] for f in P.tys[impl[1]]["v"][0]["f"]]
            for n, s in spec.items():
                if n not in names:
                    R.viol(key + path, "no field %s" % n)
                    continue
                cmp_tree(R, P, key, impl[3][names.index(n)], s, pre, ints, path + "." + n)
            return
        els = impl[1] if isinstance(impl, tuple) and impl and impl[0] in ("arr", "tup") else None
        if els is None and isinstance(impl, tuple) and impl and impl[0] == "adt":
            els = impl[3]
        if els is None or len(els) != len(spec):
            R.und(key + path, "value is not an array of %d: %s" % (len(spec), valstr(impl, P)[:200]))
            return
        for i, s in enumerate(spec):
            cmp_tree(R, P, key, els[i], s, pre, ints, path + "[%d]" % i)
        return
    # leaf
    r = compare(impl, spec, pre, ints)
    if r[0] == "ok":
        R.ok(key + path, "= %s" % valstr(spec, P)[:120])
    elif r[0] == "diff":
        from engine.terms import akstr
        R.viol(key + path, "computes %s, defined as %s; they differ at {%s}: %s instead of %s" % (
            valstr(impl, P)[:300], valstr(spec, P)[:300],
            ", ".join("%s=%s" % (akstr(k), x) for k, x in sorted(r[1].items(), key=repr)), r[2], r[3]))
    else:
        R.und(key + path, r[1])


def panic_conds(I):
    out = []
    for p in I.panics:
        fn, line, what, st = p[0], p[1], p[2], p[3]
        if isinstance(what, list) and what[0] == "overflow" or isinstance(what, tuple) and what[0] == "overflow":
            continue
        out.append((fn, line, what, cand(*st.pc)))
    return out


def check_panics(R, key, I, allowed, pre, ints):
    for fn, line, what, c in panic_conds(I):
        w = what if isinstance(what, str) else " ".join(str(x) for x in what[:1])
        cs = pre + [c, cnot(allowed)]
        if False in cs:
            R.ok(key + " panic in " + fn.name)
            continue
        hit = None
        cs = [x for x in cs if x is not True]
        for env in equiv.points([], cs, ints, 1) if equiv.opaque(cs) is None else ():
            hit = env
        if hit is not None:
            from engine.terms import akstr
            R.viol(key + " panic in " + fn.name, "%s (%s:%d) is reachable when %s, e.g. at {%s}" % (
                w, fn.file, line, condstr(c), ", ".join("%s=%s" % (akstr(k), x) for k, x in sorted(hit.items(), key=repr))))
        elif equiv.Prover(ints).prove(True, False, [x for x in cs if x is not True]):
            R.ok(key + " panic in " + fn.name, "unreachable")
        else:
            R.und(key + " panic in " + fn.name, "cannot decide reachability of %s" % w)


def check_entry(R, P, e, cfg, flt):
    hits = find(P, e, flt)
    have = {t for t, _ in hits}
    for T in e.inst:
        if T not in have:
            R.und("%s [%s,%s]" % (e.what, cfg, T), "operation not found: %s%s(%s)" % ((e.selfty + "::") if e.selfty else "", e.name, ", ".join(e.args)))
    seen = set()
    for T, f in hits:
        if (T, f.full) in seen:
            continue
        seen.add((T, f.full))
        ints = T == "i64"
        for cs in (e.consts or [None]):
            key = "%s [%s,%s]%s" % (e.what, cfg, T, "" if cs is None else " " + ",".join("%s" % (v,) for v in cs.values()))
            try:
                st = State()
                I, args = symargs(P, f, st, cs)
                av = [wrap(P, a) if not (isinstance(a, tuple) and a and a[0] == "ref") else wrap(P, I.deref(st, a)) for a in args]
                R.count("paths_joined", 0)
                outs = I.run_fn(f, list(args), st)
                R.fns |= I.fns_seen
                R.count("call_sites", I.calls_seen)
                R.count("blocks", I.steps)
                pre = e.pre(T, *av) if e.pre else []
                allowed = e.panics(T, *av) if e.panics else False
                check_panics(R, key, I, allowed, pre, ints)
                if not outs:
                    if e.spec is None or allowed is True:
                        R.ok(key, "never returns")
                    else:
                        R.viol(key, "never returns")
                    continue
                s, v = outs[0]
                if s.unk:
                    R.und(key, "; ".join(s.unk))
                    continue
                if e.panics:
                    # must not return where a panic is required
                    cs2 = [c for c in pre + list(s.pc) + [allowed] if c is not True]
                    if False not in cs2:
                        op = equiv.opaque(cs2)
                        hit = op is None and list(equiv.points([], cs2, ints, 1))
                        if op is not None:
                            R.und(key + " rejects", "depends on %s, which is outside the model" % (str(op)[:120],))
                        elif hit:
                            R.viol(key + " rejects", "returns a value when %s" % condstr(allowed))
                        else:
                            R.ok(key + " rejects")
                pre2 = pre + [c for c in s.pc if c is not True]
                if e.post:
                    e.post(R, P, key, T, s, v, av, pre2, ints, I, args)
                if e.spec:
                    R.sample("%s = %s" % (f.full, valstr(v, P)[:200]))
                    cmp_tree(R, P, key, v, e.spec(T, *av), pre2, ints)
            except (Undecided, Limit) as x:
                R.und(key, str(x))


ENTRIES = []


def E(*a, **k):
    ENTRIES.append(Entry(*a, **k))


# ================================================================ C20 component-wise algebra
for S in ("Vector3", "Normal3"):
    E("C20", S + " + " + S, "add", S, [S, S], lambda T, a, b: vec(lambda x, y: x + y, a, b), trait="Add")
    E("C20", S + " - " + S, "sub", S, [S, S], lambda T, a, b: vec(lambda x, y: x - y, a, b), trait="Sub")
    for ref in (False, True):
        E("C20", "-%s%s" % ("&" if ref else "", S), "neg", S, [S], lambda T, a: vec(lambda x: -x, a), trait="Neg", ref=ref)
for S in ("Vector3", "Normal3", "Point3"):
    for ref in (False, True):
        E("C20", "%s%s * scalar" % ("&" if ref else "", S), "mul", S, [S, "T"], lambda T, a, s: vec(lambda x, y: x * y, a, s), trait="Mul", ref=ref)
    E("C20", S + " / scalar", "div", S, [S, "T"], lambda T, a, s: vec(lambda x, y: div(x, y, T), a, s), trait="Div",
      pre=lambda T, a, s: [cnot(eq(s, ZERO))])
    E("C20", S + " == " + S, "eq", S, [S, S], lambda T, a, b: cand(eq(a.x, b.x), eq(a.y, b.y), eq(a.z, b.z)), trait="PartialEq")
    E("C20", S + "::new", "new", S, ["T", "T", "T"], lambda T, x, y, z: {"x": x, "y": y, "z": z})
for S in ("Vector2", "Point2"):
    E("C20", S + " == " + S, "eq", S, [S, S], lambda T, a, b: cand(eq(a.x, b.x), eq(a.y, b.y)), trait="PartialEq")
    E("C20", S + "::new", "new", S, ["T", "T"], lambda T, x, y: {"x": x, "y": y})
E("C20", "Vector2 / scalar", "div", "Vector2", ["Vector2", "T"], lambda T, a, s: vec2(lambda x, y: div(x, y, T), a, s), trait="Div",
  pre=lambda T, a, s: [cnot(eq(s, ZERO))])
E("C20", "Point3 + Vector3", "add", "Point3", ["Point3", "Vector3"], lambda T, a, b: vec(lambda x, y: x + y, a, b), trait="Add")
E("C20", "Point3 - Vector3", "sub", "Point3", ["Point3", "Vector3"], lambda T, a, b: vec(lambda x, y: x - y, a, b), trait="Sub")
for ref in (False, True):
    E("C20", "%sPoint3 - Point3" % ("&" if ref else ""), "sub", "Point3", ["Point3", "Point3"], lambda T, a, b: vec(lambda x, y: x - y, a, b), trait="Sub", ref=ref)

# ================================================================ C21 products and lengths
for S in ("Vector3", "Normal3"):
    E("C21", S + "::dot", "dot", S, [S, S], lambda T, a, b: dot(a, b))
    E("C21", S + "::cross", "cross", S, [S, S], lambda T, a, b: cross(a, b))
    E("C21", S + "::len_sq", "len_sq", S, [S], lambda T, a: dot(a, a))
    E("C21", S + "::len", "len", S, [S], lambda T, a: fsqrt(dot(a, a)))
    E("C21", S + "::face_forward", "face_forward", S, [S, S],
      lambda T, a, b: vec(lambda x: ite(lt(dot(a, b), ZERO), -x, x), a))


def cs_post(R, P, key, T, s, v, av, pre, ints, I, args):
    a, = av
    if not (isinstance(v, tuple) and v[0] == "tup"):
        R.und(key, "result is not a pair")
        return
    v2, v3 = wrap(P, v[1][0]), wrap(P, v[1][1])

    def d(p, q):
        r = ZERO
        for c in "xyz":
            r = lift2(lambda x, y: x + y, r, lift2(lambda x, y: x * y, getattr(p, c), getattr(q, c)))
        return r
    unit = eq(dot(a, a), C(1))
    nz = cnot(cand(eq(a.x, ZERO), eq(a.y, ZERO), eq(a.z, ZERO)))
    cmp_tree(R, P, key + " second ⟂ first", d(a, v2), ZERO, pre + [nz], ints)
    cmp_tree(R, P, key + " |second| = 1", d(v2, v2), C(1), pre + [nz], ints)

    def defined(x):
        """the divisor of a component is not zero"""
        dn = Num(x.d)
        l = dn.linear()
        if l and l[0] == 0 and len(l[1]) == 1:
            k, = l[1]
            if isinstance(k, tuple) and k[0] == "sqrt":
                dn = k[1]
        return cnot(eq(dn, ZERO))
    for c in "xyz":
        cmp_tree(R, P, key + " second.%s is defined" % c, lift1(defined, getattr(v2, c)), True, pre + [nz], ints)

    def cr(i, j):
        return lift2(lambda x, y: x - y, lift2(lambda x, y: x * y, getattr(a, i), getattr(v2, j)),
                     lift2(lambda x, y: x * y, getattr(a, j), getattr(v2, i)))
    cmp_tree(R, P, key + " third = first × second", v3._v, {"x": cr("y", "z"), "y": cr("z", "x"), "z": cr("x", "y")}, pre + [nz], ints)


E("C32", "coordinate_system", "coordinate_system", None, ["Vector3"], None, inst=("F",), post=cs_post)

# ================================================================ C22 selection
for S, cs in (("Vector3", "xyz"), ("Normal3", "xyz"), ("Vector2", "xy")):
    E("C22", S + " index", "index", S, [S, "usize"],
      (lambda cs: lambda T, a, i: getattr(a, cs[int(i.const())]))(cs), trait="Index", consts=[{1: i} for i in range(len(cs))])
    E("C22", S + " index bounds", "index", S, [S, "usize"], lambda T, a, i: ANY, trait="Index",
      panics=(lambda n: lambda T, a, i: le(C(n), i))(len(cs)))
for S in ("Vector3", "Normal3"):
    E("C22", S + "::permute", "permute", S, [S, "usize", "usize", "usize"],
      lambda T, a, i, j, k: {c: getattr(a, "xyz"[int(n.const())]) for c, n in zip("xyz", (i, j, k))},
      consts=[{1: i, 2: j, 3: k} for i in range(3) for j in range(3) for k in range(3)])
    E("C22", S + "::min_component", "min_component", S, [S], lambda T, a: nmin(a.x, a.y, a.z))
    E("C22", S + "::max_component", "max_component", S, [S], lambda T, a: nmax(a.x, a.y, a.z))

    def md_post(R, P, key, T, s, v, av, pre, ints, I, args):
        a, = av
        comp = lift1(lambda i: {0: a.x, 1: a.y, 2: a.z}.get(int(i.const())) if isinstance(i, Num) and i.const() in (0, 1, 2) else ("unk", "dimension"), v)
        cmp_tree(R, P, key, comp, nmax(a.x, a.y, a.z), pre, ints)
    E("C22", S + "::max_dimension names a largest component", "max_dimension", S, [S], None, post=md_post)
for S in ("Vector3", "Normal3", "Point3"):
    E("C22", S + "::min", "min", S, [S, S], lambda T, a, b: vec(nmin, a, b))
    E("C22", S + "::max", "max", S, [S, S], lambda T, a, b: vec(nmax, a, b))
E("C22", "Point3::abs", "abs", "Point3", ["Point3"], lambda T, a: vec(lambda x: ite(lt(x, ZERO), -x, x), a))
E("C22", "Point2::abs", "abs", "Point2", ["Point2"], lambda T, a: vec2(lambda x: ite(lt(x, ZERO), -x, x), a))


# ================================================================ C23 bounds construction
def box(lo, hi):
    return {"p_min": lo, "p_max": hi}


def valid(T, b, *r):
    return [le(getattr(b.p_min, c), getattr(b.p_max, c)) for c in "xyz"]


def valid2(T, b, c, *r):
    return valid(T, b) + valid(T, c)


E("C23", "Bounds3::new", "new", "Bounds3", ["Point3", "Point3"], lambda T, p, q: box(vec(nmin, p, q), vec(nmax, p, q)))
E("C23", "Bounds3::new_pt", "new_pt", "Bounds3", ["Point3"], lambda T, p: box(vec(lambda x: x, p), vec(lambda x: x, p)))
E("C23", "Bounds3::union_pt", "union_pt", "Bounds3", ["Bounds3", "Point3"],
  lambda T, b, p: box(vec(nmin, b.p_min, p), vec(nmax, b.p_max, p)), pre=valid)
E("C23", "Bounds3::union", "union", "Bounds3", ["Bounds3", "Bounds3"],
  lambda T, a, b: box(vec(nmin, a.p_min, b.p_min), vec(nmax, a.p_max, b.p_max)), pre=valid2)
E("C23", "Bounds3::intersect", "intersect", "Bounds3", ["Bounds3", "Bounds3"],
  lambda T, a, b: box(vec(nmax, a.p_min, b.p_min), vec(nmin, a.p_max, b.p_max)), pre=valid2)
E("C23", "Bounds3::expand", "expand", "Bounds3", ["Bounds3", "T"],
  lambda T, b, d: box(vec(lambda x: x - d, b.p_min), vec(lambda x: x + d, b.p_max)), pre=lambda T, b, d: valid(T, b) + [le(ZERO, d)])

# ================================================================ C24 containment
E("C24", "Bounds3::inside", "inside", "Bounds3", ["Bounds3", "Point3"],
  lambda T, b, p: cand(*[cand(le(getattr(b.p_min, c), getattr(p, c)), le(getattr(p, c), getattr(b.p_max, c))) for c in "xyz"]))
E("C24", "Bounds3::inside_exclusive", "inside_exclusive", "Bounds3", ["Bounds3", "Point3"],
  lambda T, b, p: cand(*[cand(le(getattr(b.p_min, c), getattr(p, c)), lt(getattr(p, c), getattr(b.p_max, c))) for c in "xyz"]))
E("C24", "Bounds3::overlaps", "overlaps", "Bounds3", ["Bounds3", "Bounds3"],
  lambda T, a, b: cand(*[cand(le(getattr(b.p_min, c), getattr(a.p_max, c)), le(getattr(a.p_min, c), getattr(b.p_max, c))) for c in "xyz"]), pre=valid2)


# ================================================================ C25 measures
def diag(b):
    return {c: getattr(b.p_max, c) - getattr(b.p_min, c) for c in "xyz"}


E("C25", "Bounds3::diagonal", "diagonal", "Bounds3", ["Bounds3"], lambda T, b: diag(b))
E("C25", "Bounds3::surface_area", "surface_area", "Bounds3", ["Bounds3"],
  lambda T, b: (lambda d: C(2) * (d["x"] * d["y"] + d["x"] * d["z"] + d["y"] * d["z"]))(diag(b)), pre=valid)
E("C25", "Bounds3::volume", "volume", "Bounds3", ["Bounds3"], lambda T, b: (lambda d: d["x"] * d["y"] * d["z"])(diag(b)), pre=valid)


def me_post(R, P, key, T, s, v, av, pre, ints, I, args):
    b, = av
    d = diag(b)
    comp = lift1(lambda i: d["xyz"[int(i.const())]] if isinstance(i, Num) and i.const() in (0, 1, 2) else ("unk", "dimension"), v)
    cmp_tree(R, P, key, comp, nmax(d["x"], d["y"], d["z"]), pre, ints)


E("C25", "Bounds3::maximum_extent names a longest axis", "maximum_extent", "Bounds3", ["Bounds3"], None, post=me_post, pre=valid)
E("C25", "Bounds3::offset", "offset", "Bounds3", ["Bounds3", "Point3"],
  lambda T, b, p: {c: ite(lt(getattr(b.p_min, c), getattr(b.p_max, c)),
                          div(getattr(p, c) - getattr(b.p_min, c), getattr(b.p_max, c) - getattr(b.p_min, c), T),
                          getattr(p, c) - getattr(b.p_min, c)) for c in "xyz"}, pre=valid)


def bs_spec(T, b):
    ctr = {c: (getattr(b.p_min, c) + getattr(b.p_max, c)) / C(2) for c in "xyz"}
    r2 = ZERO
    for c in "xyz":
        e = ctr[c] - getattr(b.p_max, c)
        r2 = r2 + e * e
    return [ctr, fsqrt(r2)]


E("C25", "bounding_sphere", "bounding_sphere", None, ["Bounds3"], bs_spec, pre=valid, inst=("F",))
E("C25", "Bounds3 lerp", "lerp", None, ["Bounds3", "Point3"],
  lambda T, b, t: {c: (C(1) - getattr(t, c)) * getattr(b.p_min, c) + getattr(t, c) * getattr(b.p_max, c) for c in "xyz"}, inst=("F",))

# corners: the eight codes name the eight vertices, each once, and opposite codes are opposite vertices


def corners(R, P, cfg, flt):
    e = Entry("C25", "Bounds3::corner", "corner", "Bounds3", ["Bounds3", "usize"], None)
    hits = find(P, e, flt)
    for T in e.inst:
        if T not in {t for t, _ in hits}:
            R.und("Bounds3::corner [%s,%s]" % (cfg, T), "operation not found")
    for T, f in hits:
        key = "Bounds3::corner [%s,%s]" % (cfg, T)
        got = {}
        try:
            for i in range(8):
                st = State()
                I, args = symargs(P, f, st, {1: i})
                b = wrap(P, args[0])
                outs = I.run_fn(f, args, st)
                R.fns |= I.fns_seen
                if len(outs) != 1 or outs[0][0].unk:
                    R.und(key, "outcome")
                    return
                v = wrap(P, outs[0][1])
                sel = []
                for ax, c in enumerate("xyz"):
                    x = getattr(v, c)
                    if x == getattr(b.p_min, c):
                        sel.append(0)
                    elif x == getattr(b.p_max, c):
                        sel.append(1)
                    else:
                        sel.append(None)
                got[i] = tuple(sel)
        except (Undecided, Limit) as x:
            R.und(key, str(x))
            continue
        bad = [i for i in got if None in got[i]]
        if bad:
            R.viol(key + " vertex", "code %d does not name a vertex of the box (component %d is neither bound)" % (bad[0], got[bad[0]].index(None)))
            continue
        R.ok(key + " vertex", str(got))
        # bit k of the code selects along axis k, always the same way
        for ax in range(3):
            pol = {(got[i][ax], i >> ax & 1) for i in range(8)}
            if len(pol) == 2:
                R.ok(key + " axis %d" % ax)
            else:
                R.viol(key + " axis %d" % ax, "bit %d of the code does not select the bound along axis %d: %s" % (ax, ax, {i: got[i][ax] for i in got}))
        if len(set(got.values())) == 8:
            R.ok(key + " distinct")
        else:
            R.viol(key + " distinct", "two codes name the same vertex: %s" % got)
        if all((got[0][ax] == got[0][0]) for ax in range(3)):
            R.ok(key + " polarity")
        else:
            R.viol(key + " polarity", "code 0 mixes the lower and the upper corner: %s" % (got[0],))


# ================================================================ C31 interpolation, rounding
E("C31", "lerp", "lerp", None, ["T", "T", "T"], lambda T, t, a, b: (C(1) - t) * a + t * b, inst=("F",))
E("C31", "Point3 lerp", "lerp", None, ["T", "Point3", "Point3"], lambda T, t, p, q: vec(lambda a, b: (C(1) - t) * a + t * b, p, q), inst=("F",))
E("C31", "Point3 floor", "floor", None, ["Point3"], lambda T, p: vec(lambda x: Num.atom(("floor", x)), p), inst=("F",))
E("C31", "Point3 ceil", "ceil", None, ["Point3"], lambda T, p: vec(lambda x: Num.atom(("ceil", x)), p), inst=("F",))

# ================================================================ C33 conversions
E("C33", "Vector3::from(Point3)", "from", "Vector3", ["Point3"], lambda T, p: vec(lambda x: x, p), trait="From")
E("C33", "Point3::from(Vector3)", "from", "Point3", ["Vector3"], lambda T, p: vec(lambda x: x, p), trait="From")
E("C33", "Normal3::from(Vector3)", "from", "Normal3", ["Vector3"], lambda T, p: vec(lambda x: x, p), trait="From")


def isnan(x):
    return ("A", ("nan", x))


E("C33", "Point3::has_nan", "has_nan", "Point3", ["Point3"], lambda T, p: cor(isnan(p.x), isnan(p.y), isnan(p.z)), trait="HasNan", inst=("F",))
E("C33", "Point3::has_nan", "has_nan", "Point3", ["Point3"], lambda T, p: False, trait="HasNan", inst=("i64",))
E("C33", "Point2::from(Point3)", "from", "Point2", ["Point3"], lambda T, p: vec2(lambda x: x, p), trait="From", inst=("F",),
  panics=lambda T, p: cor(isnan(p.x), isnan(p.y), isnan(p.z)))
E("C33", "Point2::from(Point3)", "from", "Point2", ["Point3"], lambda T, p: vec2(lambda x: x, p), trait="From", inst=("i64",))


# ================================================================ C26 transforms
def mat(rows):
    return {"mat": rows}


def ident(n=4):
    return [[C(1 if i == j else 0) for j in range(n)] for i in range(n)]


def mmul(a, b):
    n = len(a)
    out = []
    for i in range(n):
        row = []
        for j in range(n):
            r = ZERO
            for k in range(n):
                r = lift2(lambda x, y: x + y, r, lift2(lambda x, y: x * y, a[i][k], b[k][j]))
            row.append(r)
        out.append(row)
    return out


def one(P, name, selfty, args, flt, trait=None):
    h = find(P, Entry("", "", name, selfty, args, None, trait=trait, inst=("F",)), flt)
    return h[0][1] if h else None


def tr_inverse_matrix(R, P, tv, st, flt):
    """the matrix of the inverse of a transform value, through the public operation"""
    f = one(P, "inverse", "Transform", ["Transform"], flt)
    if f is None:
        return None
    I = Interp(P, merge=True)
    outs = I.run_fn(f, [("vref", tv)], st)
    R.fns |= I.fns_seen
    if len(outs) != 1 or outs[0][0].unk:
        return None
    return outs[0][1]


def tr_pair(mk):
    def post(R, P, key, T, s, v, av, pre, ints, I, args):
        flt = "F"
        if mk:
            m = mk(*av)
            cmp_tree(R, P, key + " matrix", v, {"m": mat(m)}, pre, ints)
        else:
            m = wrap(P, v).m.mat
        inv = tr_inverse_matrix(R, P, v, s, common_flt(P))
        if inv is None:
            R.und(key + " inverse", "the inverse operation of a transform was not found or cannot be analysed")
            return
        got = wrap(P, inv).m.mat
        cmp_tree(R, P, key + " matrix × inverse", ("arr", tuple(("arr", tuple(r)) for r in mmul(wrap(P, v).m.mat, got))), ident(), pre, ints)
        back = tr_inverse_matrix(R, P, inv, s, common_flt(P))
        if back is not None:
            cmp_tree(R, P, key + " inverse of inverse", back, {"m": mat(wrap(P, v).m.mat)}, pre, ints)
    return post


def common_flt(P):
    return P.flt


E("C26", "Transform::translate", "translate", "Transform", ["Vector3"], None, inst=("F",),
  post=tr_pair(lambda d: [[C(1), ZERO, ZERO, d.x], [ZERO, C(1), ZERO, d.y], [ZERO, ZERO, C(1), d.z], [ZERO, ZERO, ZERO, C(1)]]))
E("C26", "Transform::scale", "scale", "Transform", ["T", "T", "T"], None, inst=("F",),
  pre=lambda T, x, y, z: [cnot(eq(x, ZERO)), cnot(eq(y, ZERO)), cnot(eq(z, ZERO))],
  post=tr_pair(lambda x, y, z: [[x, ZERO, ZERO, ZERO], [ZERO, y, ZERO, ZERO], [ZERO, ZERO, z, ZERO], [ZERO, ZERO, ZERO, C(1)]]))


def tnew_post(R, P, key, T, s, v, av, pre, ints, I, args):
    a, b = av
    cmp_tree(R, P, key + " matrix", v, {"m": mat(a.mat)}, pre, ints)
    inv = tr_inverse_matrix(R, P, v, s, P.flt)
    if inv is None:
        R.und(key + " inverse", "not found")
        return
    cmp_tree(R, P, key + " inverse matrix", inv, {"m": mat(b.mat)}, pre, ints)
    back = tr_inverse_matrix(R, P, inv, s, P.flt)
    cmp_tree(R, P, key + " inverse of inverse", back, {"m": mat(a.mat)}, pre, ints)
    # transposition transposes both halves
    f = one(P, "transpose", "Transform", ["Transform"], P.flt)
    if f is None:
        R.und(key + " transpose", "not found")
        return
    I2 = Interp(P, merge=True)
    o = I2.run_fn(f, [("vref", v)], s)
    R.fns |= I2.fns_seen
    if len(o) != 1 or o[0][0].unk:
        R.und(key + " transpose", "outcome")
        return
    tv = o[0][1]
    tp = lambda m: [[m[j][i] for j in range(4)] for i in range(4)]
    cmp_tree(R, P, key + " transpose", tv, {"m": mat(tp(a.mat))}, pre, ints)
    cmp_tree(R, P, key + " transpose inverse", tr_inverse_matrix(R, P, tv, s, P.flt), {"m": mat(tp(b.mat))}, pre, ints)


class WithInverse(Interp):
    """calls of the matrix inversion are replaced by what C28 establishes for them"""
    def __init__(self, P, inv):
        Interp.__init__(self, P, merge=True)
        self.inv, self.tab = inv, []

    def run_fn(self, fn, args, st):
        if self.inv is None or fn.id != self.inv.id:
            return Interp.run_fn(self, fn, args, st)
        a = args[0]
        while isinstance(a, tuple) and a and a[0] in ("ref", "vref"):
            a = a[1] if a[0] == "vref" else self.deref(st, a)
        m = wrap(self.prog, a).mat
        if not all(isinstance(x, Num) for r in m for x in r):
            raise Undecided("inversion of a matrix outside the model")
        tp = [[m[j][i] for j in range(4)] for i in range(4)]
        for k, old in enumerate(self.tab):
            at = [[Num.atom("inverse%d[%d][%d]" % (k, i, j)) for j in range(4)] for i in range(4)]
            if m == old:
                return [(st, self.build(a, at))]
            if tp == old:
                return [(st, self.build(a, [[at[j][i] for j in range(4)] for i in range(4)]))]
            if m == at:
                return [(st, self.build(a, old))]
        k = len(self.tab)
        self.tab.append(m)
        return [(st, self.build(a, [[Num.atom("inverse%d[%d][%d]" % (k, i, j)) for j in range(4)] for i in range(4)]))]

    @staticmethod
    def build(a, rows):
        return (a[0], a[1], a[2], (("arr", tuple(("arr", tuple(r)) for r in rows)),))


def gauss(m):
    """exact inverse of a matrix of numbers, None if singular"""
    n = len(m)
    a = [list(r) + [Fraction(int(i == j)) for j in range(n)] for i, r in enumerate(m)]
    for c in range(n):
        p = next((r for r in range(c, n) if a[r][c] != 0), None)
        if p is None:
            return None
        a[c], a[p] = a[p], a[c]
        a[c] = [x / a[c][c] for x in a[c]]
        for r in range(n):
            if r != c and a[r][c]:
                a[r] = [x - a[r][c] * y for x, y in zip(a[r], a[c])]
    return [r[n:] for r in a]


def tfrom(R, P, cfg, flt):
    """a transform made from a matrix alone carries that matrix and its inverse"""
    import random
    key = "Transform::new_ [%s]" % cfg
    f = one(P, "new_", "Transform", ["Matrix4"], flt)
    if f is None:
        R.und(key, "operation not found: Transform::new_(Matrix4)")
        return
    inv = next((g for T, g in find(P, INVERSE, flt) if T == "F"), None)
    I = WithInverse(P, inv)
    st = State()
    arg = I.mk("a0", f.body["locals"][1], st)
    a = wrap(P, arg).mat
    outs = I.run_fn(f, [arg], st)
    R.fns |= I.fns_seen
    R.count("call_sites", I.calls_seen)
    if any(s.unk for s, _ in outs):
        R.und(key, "; ".join(outs[0][0].unk))
        return
    rs = []
    for s, v in outs:
        w = tr_inverse_matrix(R, P, v, s, flt)
        if w is None:
            R.und(key, "the inverse operation of a transform was not found or cannot be analysed")
            return
        rs.append((s, wrap(P, v).m.mat, wrap(P, w).m.mat))
    names = [x.single_atom() for r in a for x in r]
    rnd = random.Random(1)
    mats = [[[Fraction(int(i == j)) for j in range(4)] for i in range(4)]]
    for n in range(60):
        pool = [(-3, -2, -1, 0, 1, 2, 3), (0, 1), (-1, 0, 0, 0, 1)][n % 3]
        m = [[Fraction(rnd.choice(pool)) for _ in range(4)] for _ in range(4)]
        if n % 2:
            m[3] = [Fraction(int(j == 3)) for j in range(4)]
        mats.append(m)
    used = 0
    for m in mats:
        want = gauss(m)
        if want is None:
            continue
        env = dict(zip(names, [x for r in m for x in r]))
        try:
            for k, t in enumerate(I.tab):
                t = gauss([[equiv.ev(x, env) for x in r] for r in t])
                if t is None:
                    raise equiv.Unevaluable("singular")
                for i in range(4):
                    for j in range(4):
                        env["inverse%d[%d][%d]" % (k, i, j)] = t[i][j]
            for fn, line, what, c in panic_conds(I):
                if equiv.evc(c, env) is True:
                    R.viol(key + " panic in " + fn.name, "refuses the invertible matrix %s (%s:%d)" % ([[str(x) for x in r] for r in m], fn.file, line))
                    return
            for s, g, h in rs:
                if not all(equiv.evc(c, env) is True for c in s.pc if c is not True):
                    continue
                used += 1
                for what, x, y in (("matrix", g, m), ("inverse matrix", h, want)):
                    x = [[equiv.ev(e, env) for e in r] for r in x]
                    if any(isinstance(e, float) for r in x for e in r):
                        raise equiv.Unevaluable("rounded")
                    if x != y:
                        R.viol(key + " " + what, "for the matrix %s it carries %s instead of %s" % tuple([[str(e) for e in r] for r in z] for z in (m, x, y)))
                        return
        except (equiv.Unevaluable, KeyError, OverflowError, ZeroDivisionError):
            continue
    atom = [[Num.atom("inverse0[%d][%d]" % (i, j)) for j in range(4)] for i in range(4)]
    at = None
    if I.tab and I.tab[0] == a:
        at = atom
    elif I.tab and I.tab[0] == [[a[j][i] for j in range(4)] for i in range(4)]:
        at = [[atom[j][i] for j in range(4)] for i in range(4)]
    for what, i, want in (("matrix", 1, a), ("inverse matrix", 2, at)):
        if rs and want is not None and all(r[i] == want for r in rs):
            R.ok(key + " " + what, "structurally, on every path")
        else:
            R.und(key + " " + what, "agrees at %d matrices, not proved" % used)
    left = [p for p in panic_conds(I) if p[3] is not False]
    if left:
        R.und(key + " panic", "cannot exclude a refusal")
    else:
        R.ok(key + " panic", "no refusal other than that of the inversion")


E("C26", "Transform::new", "new", "Transform", ["Matrix4", "Matrix4"], None, inst=("F",), post=tnew_post)
E("C26", "Transform::is_identity", "is_identity", "Transform", ["Transform"],
  lambda T, t: cand(*[eq(t.m.mat[i][j], C(1 if i == j else 0)) for i in range(4) for j in range(4)]), inst=("F",))
E("C26", "Transform applied to a vector", "transform", "Vector3", ["Vector3", "Transform"],
  lambda T, v, t: {c: t.m.mat[i][0] * v.x + t.m.mat[i][1] * v.y + t.m.mat[i][2] * v.z for i, c in enumerate("xyz")})


def has_scale_spec(T, t):
    from fractions import Fraction
    import struct
    lo, hi = 0.999, 1.001
    if F32["flt"] == "f32":
        lo, hi = [struct.unpack("<f", struct.pack("<f", x))[0] for x in (lo, hi)]
    lo, hi = C(Fraction(lo)), C(Fraction(hi))
    cs = []
    for j in range(3):
        l2 = ZERO
        for i in range(3):
            l2 = l2 + t.m.mat[i][j] * t.m.mat[i][j]
        cs += [lt(l2, lo), lt(hi, l2)]
    return cor(*cs)


E("C26", "Transform::has_scale", "has_scale", "Transform", ["Transform"], has_scale_spec, inst=("F",))

# ================================================================ C28 inversion (checks/pivot.py)
INVERSE = Entry("C28", "Matrix4::inverse", "inverse", "Matrix4", ["Matrix4"], None)

# ================================================================ C27 matrices
E("C27", "Matrix4::new", "new", "Matrix4", ["array"], lambda T, m: {"mat": m})
E("C27", "Matrix3::new", "new", "Matrix3", ["array"], lambda T, m: {"mat": m})
E("C27", "Matrix4::transpose", "transpose", "Matrix4", ["Matrix4"], lambda T, a: mat([[a.mat[j][i] for j in range(4)] for i in range(4)]))
E("C27", "Matrix4 + Matrix4", "add", "Matrix4", ["Matrix4", "Matrix4"], lambda T, a, b: mat([[a.mat[i][j] + b.mat[i][j] for j in range(4)] for i in range(4)]), trait="Add")
E("C27", "Matrix4 * Matrix4", "mul", "Matrix4", ["Matrix4", "Matrix4"], lambda T, a, b: mat(mmul(a.mat, b.mat)), trait="Mul")
E("C27", "Matrix4 row index", "index", "Matrix4", ["Matrix4", "usize"], lambda T, a, i: a.mat[int(i.const())], trait="Index", consts=[{1: i} for i in range(4)])
E("C27", "Matrix4 row index bounds", "index", "Matrix4", ["Matrix4", "usize"], lambda T, a, i: ANY, trait="Index", panics=lambda T, a, i: le(C(4), i))
for S, n in (("Matrix3", 3), ("Matrix4", 4)):
    E("C27", S + " equality", "eq", S, [S, S], (lambda n: lambda T, a, b: cand(*[eq(a.mat[i][j], b.mat[i][j]) for i in range(n) for j in range(n)]))(n), trait="PartialEq")

# ================================================================ C29 rays
E("C29", "Ray::new", "new", "Ray", ["Point3", "Vector3", "T", "T", "Medium"],
  lambda T, o, d, tm, ti, m: {"o": o, "d": d, "t_max": tm, "time": ti}, inst=("F",))
E("C29", "Ray::new_infinite", "new_infinite", "Ray", ["Point3", "Vector3"],
  lambda T, o, d: {"o": o, "d": d, "t_max": INF, "time": ZERO}, inst=("F",))
E("C29", "Ray::at", "at", "Ray", ["Ray", "T"], lambda T, r, t: vec(lambda a, b: a + b * t, r.o, r.d), inst=("F",))
E("C29", "RayDifferential::new", "new", "RayDifferential", ["Ray"],
  lambda T, r: {"ray": r, "has_differentials": False}, inst=("F",))


def sd_post(R, P, key, T, s, v, av, pre, ints, I, args):
    r, k = av
    after = I.deref(s, args[0])
    spec = {"ray": r.ray, "has_differentials": r.has_differentials}
    for ax in ("rx", "ry"):
        for part, base in (("origin", r.ray.o), ("direction", r.ray.d)):
            old = getattr(r, ax + "_" + part)
            spec[ax + "_" + part] = {c: getattr(base, c) + (getattr(old, c) - getattr(base, c)) * k for c in "xyz"}
    cmp_tree(R, P, key, after, spec, pre, ints)


E("C29", "RayDifferential::scale_differentials", "scale_differentials", "RayDifferential", ["RayDifferential", "T"], None, inst=("F",), post=sd_post)


# ================================================================ C30 iteration over 2D bounds
def bounds2iter(R, P, cfg, flt):
    key = "Bounds2 iteration [%s]" % cfg
    ii = [f for f in P.roots if f.name == "into_iter" and f.selfty is not None and tname(P, f.selfty) == "Bounds2"]
    if not ii:
        R.viol(key, "Bounds2 is not iterable")
        return
    f = ii[0]
    ity = f.body["locals"][0]
    nx = [g for g in P.roots if g.name == "next" and g.selfty == ity]
    if not nx:
        R.und(key, "the iterator is not a type of this crate")
        return
    g = nx[0]
    try:
        st = State()
        I, args = symargs(P, f, st)
        b = wrap(P, args[0])
        outs = I.run_fn(f, args, st)
        R.fns |= I.fns_seen
        s0, it0 = outs[0]
        if s0.unk or it0[0] != "adt":
            R.und(key, "cannot analyse the construction of the iterator")
            return

        def step(itv, pc):
            st = State()
            st.pc = tuple(pc)
            J = Interp(P, merge=True)
            st.mem[("S", "it")] = itv
            o = J.run_fn(g, [("ref", ("S", "it"), ())], st)
            R.fns |= J.fns_seen
            R.count("blocks", J.steps)
            if len(o) != 1 or o[0][0].unk:
                raise Undecided("next()")
            for x in panic_conds(J):
                raise Undecided("next() may panic")
            return o[0][1], o[0][0].mem[("S", "it")]
        x0, y0, x1, y1 = b.p_min.x, b.p_min.y, b.p_max.x, b.p_max.y
        r, it1 = step(it0, ())
        # which parts of the iterator move
        ch = []

        def walk(a, c, path):
            if a == c:
                return
            if isinstance(a, tuple) and a and a[0] == "adt" and isinstance(c, tuple) and c[:3] == a[:3]:
                for i, (p, q) in enumerate(zip(a[3], c[3])):
                    walk(p, q, path + (i,))
            else:
                ch.append(path)
        walk(it0, it1, ())
        cx, cy = Num.atom("cx"), Num.atom("cy")
        kx, ky = x0.single_atom(), y0.single_atom()

        def getp(v, p):
            for i in p:
                v = v[3][i]
            return v

        def setp(v, p, x):
            if not p:
                return x
            fs = list(v[3])
            fs[p[0]] = setp(fs[p[0]], p[1:], x)
            return v[:3] + (tuple(fs),)
        px = [p for p in ch if getp(it0, p) == x0]
        py = [p for p in ch if getp(it0, p) == y0]
        if len(px) != 1 or len(py) != 1 or len(ch) != 2:
            R.und(key, "the iterator does not hold a moving (x, y) cursor starting at the lower corner")
            return

        def S(a, c):
            return setp(setp(it0, px[0], a), py[0], c)
        # base: iterator of empty bounds ends at once, of others yields the lower corner
        ints = True
        nonempty = cand(lt(x0, x1), lt(y0, y1))
        cmp_tree(R, P, key + " first item", r, Case(nonempty, Variant("Some", {"x": x0, "y": y0}), Variant("None")), [], ints)
        # step from any cursor inside
        rr, it2 = step(S(cx, cy), ())
        inv = [nonempty, le(x0, cx), lt(cx, x1), le(y0, cy), le(cy, y1)]
        strict = compare(lift_c(lambda v: lt(v, x1), getp(it2, px[0])), True, inv, True)
        if strict[0] != "ok":
            # the row end is noticed by the following call
            inv[2] = le(cx, x1)
        wrapd = le(x1, cx)                # a cursor past the end of its row stands for the start of the next row
        ex, ey = ite(wrapd, x0, cx), ite(wrapd, cy + C(1), cy)

        def leaf(spec):
            return spec
        more = lift1(lambda y: lt(y, y1), ey)
        more = more if is_cond(more) else ite(more[1], more[2], more[3])
        cmp_tree(R, P, key + " item at the cursor", rr, Case(more, Variant("Some", {"x": ex, "y": ey}), Variant("None")), inv, ints)
        # successor
        rest = setp(setp(it2, px[0], x0), py[0], y0)
        if rest != it0:
            R.und(key + " frame", "the iterator changes more than its cursor")
            return
        R.ok(key + " frame")
        nx_, ny_ = getp(it2, px[0]), getp(it2, py[0])
        nw = lift1(lambda v: le(x1, v), nx_)
        nw = nw if is_cond(nw) else cite_(nw)
        gx = ite(nw, x0, nx_)
        gy = ite(nw, lift1(lambda v: v + C(1), ny_), ny_)
        # expected successor of (ex, ey) in row-major order
        def succ(X, Y):
            last = le(x1, X + C(1))
            return ite(last, x0, X + C(1)), ite(last, Y + C(1), Y)
        sx0, sy0 = succ(cx, cy)
        sx1, sy1 = succ(x0, cy + C(1))
        cmp_tree(R, P, key + " next column", gx, ite(wrapd, sx1, sx0), inv + [more], ints)
        cmp_tree(R, P, key + " next row", gy, ite(wrapd, sy1, sy0), inv + [more], ints)
        # the cursor stays where the invariant says
        for nm, cnd in (("x stays in the row", lift1(lambda v: cand(le(x0, v), le(v, x1)), nx_)),):
            cnd = cnd if is_cond(cnd) else cite_(cnd)
            cmp_tree(R, P, key + " " + nm, cnd, True, inv + [more], ints)
        # exhausted: stays exhausted
        # (checked as: with no more items the cursor does not come back into range)
        back = cand(lift_c(lambda v: lt(v, y1), gy), lift_c(lambda v: lt(v, x1), gx))
        cmp_tree(R, P, key + " fused", back, False, inv + [cnot(more)], ints)
    except (Undecided, Limit) as x:
        R.und(key, str(x))


def cite_(v):
    from engine.terms import cite
    if is_cond(v):
        return v
    if isinstance(v, tuple) and v and v[0] == "ite":
        return cite(v[1], cite_(v[2]), cite_(v[3]))
    return ("A", ("b", okey(v)))


def lift_c(f, v):
    return cite_(lift1(f, v))


RULES = {
    "C20": "each operator's gated value equals its component-wise definition",
    "C21": "each product / length equals its algebraic definition as a normal form",
    "C22": "each selection equals the component (or the least/greatest component) its definition names, in every ordering of the components",
    "C23": "each bounds constructor equals the per-axis min/max definition in every ordering of the coordinates",
    "C24": "each containment predicate is the same Boolean function of the coordinate comparisons as its definition",
    "C25": "each measure equals its algebraic definition; corner codes are a consistent naming of the eight vertices",
    "C26": "the matrix of each constructed transform equals its definition, and matrix times inverse normalises to the identity (for a transform made from a matrix alone, with calls of the inversion replaced by what C28 establishes)",
    "C27": "each matrix operation equals its entry-wise definition",
    "C28": "for every choice of pivots, the product of the returned quotients with the argument is the identity as a rational function, every divisor was compared with zero, and at every refusal the determinant vanishes",
    "C29": "each ray operation equals its definition; scaling keeps every other part",
    "C30": "inductive: from every cursor the iterator yields the cursor's point and moves to its row-major successor",
    "C31": "interpolation and rounding equal their definitions",
    "C32": "the three axes satisfy the orthonormality identities as normal forms, in each branch",
    "C33": "conversions copy each component; NaN detection is the disjunction over the components",
}


ENTRY_S, TOTAL_S = 90, 600


def timed(R, key, f, *args, limit=ENTRY_S):
    """run one analysis under a time limit; past it the obligation is undecided"""
    left = int(min(limit, TOTAL_S - (time.time() - R.t0)))
    if left < 1:
        R.und(key, "out of time")
        return

    def stop(*_):
        raise Limit("out of time")
    old = signal.signal(signal.SIGALRM, stop)
    signal.alarm(left)
    try:
        f(*args)
    except (Limit, Undecided) as x:
        R.und(key, str(x))
    except (RecursionError, MemoryError, KeyError, IndexError, TypeError, AttributeError, ValueError, ArithmeticError, AssertionError) as x:
        R.und(key, "analysis gave up: %s %s" % (type(x).__name__, x))
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def check(prop, tier):
    R = common.Report(prop, RULES[prop])
    R.assumptions = ["floating point is idealised to exact arithmetic (rounding, overflow to infinity and NaN operands outside the NaN property are not modelled)",
                     "integer arithmetic does not overflow", "bodies of the standard library functions listed in engine/models.py behave as documented"]
    for cfg in ("f32", "f64"):
        P = common.program(cfg)
        flt = cfg
        P.flt = flt
        F32["flt"] = flt
        for e in ENTRIES:
            if e.prop == prop:
                timed(R, e.what + " [" + cfg + "]", check_entry, R, P, e, cfg, flt)
        if prop == "C25":
            timed(R, "Bounds3::corner [" + cfg + "]", corners, R, P, cfg, flt)
        if prop == "C26":
            timed(R, "Transform::new_ [" + cfg + "]", tfrom, R, P, cfg, flt)
        if prop == "C28":
            hits = find(P, INVERSE, flt)
            for T in INVERSE.inst:
                key = "Matrix4::inverse [%s,%s]" % (cfg, T)
                fs = [f for t, f in hits if t == T]
                if not fs:
                    R.und(key, "operation not found: Matrix4::inverse(Matrix4)")
                for f in fs[:1]:
                    timed(R, key, pivot.analyse, R, P, f, key, T == "i64", limit=240)
        if prop == "C30":
            timed(R, "Bounds2Iter [" + cfg + "]", bounds2iter, R, P, cfg, flt)
    return R
