"""Who-may-call, ownership-of-state and type-width rules over the resolved program."""
import re
from . import common

DENY = [
    ("std::fs::", "file system"), ("std::env::", "process environment"), ("std::net::", "network"), ("std::process::", "processes"),
    ("std::io::", "input/output"), ("std::time::", "clock"), ("std::thread::", "threads and thread-local state"),
    ("std::os::", "operating system"), ("std::hash::RandomState", "randomised hashing"), ("std::collections::hash", "randomised hashing"),
    ("std::collections::HashMap", "randomised iteration order"), ("std::collections::HashSet", "randomised iteration order"),
    ("std::sync::atomic", "shared state"), ("std::sync::Mutex", "shared state"), ("std::sync::RwLock", "shared state"),
    ("std::sync::mpsc", "threads"), ("core::sync::atomic", "shared state"),
    ("std::path::Path::exists", "file system"), ("std::path::Path::canonicalize", "file system"), ("std::path::Path::metadata", "file system"),
    ("std::path::Path::is_file", "file system"), ("std::path::Path::is_dir", "file system"), ("std::path::Path::read_", "file system"),
    ("std::path::Path::symlink_metadata", "file system"), ("std::path::Path::try_exists", "file system"), ("std::path::absolute", "process environment"),
    ("std::ptr::", "raw memory"), ("core::ptr::", "raw memory"), ("std::intrinsics::", "raw memory"),
    ("std::panic::set_hook", "process-wide state"), ("std::alloc::", "raw memory"),
]
# a hash map may be looked up, only its iteration order is unspecified
MAPOK = re.compile(r"(::new$|::insert|::get|::contains|::entry|::with_capacity|::or_insert|::remove|::len|::is_empty|::or_default|::from$|::hash$|::default|::index)")
INTERIOR = re.compile(r"\b(Cell|RefCell|Mutex|RwLock|Atomic\w+|UnsafeCell)\b")


def calls(P, f):
    for i, b in enumerate(f.body["blocks"]):
        t = b["t"]
        if t[0] == "call" and "fn" in t[1]:
            g = P.fns.get(t[1]["fn"])
            yield t[1]["path"], (g.path if g else t[1]["path"]), g, t[5]


def local_fns(P):
    return [f for f in P.fns.values() if f.local and f.body is not None]


def forbidden(path, written):
    for p in (path, written):
        for d, why in DENY:
            if p.startswith(d) or p.startswith("<" + d):
                if "Hash" in d or "hash" in d:
                    if MAPOK.search(p):
                        continue
                if d.endswith("ptr::") and ("::drop_in_place" in p or "ptr::eq" in p or "NonNull" in p):
                    continue
                if d.startswith("std::intrinsics") and re.search(r"(unlikely|likely|discriminant|cold_path|needs_drop|size_of|saturating|wrapping|abort)", p):
                    continue
                return why
    return None


def check_c13(tier):
    R = common.Report("C13", "no resolved call in the library reaches the file system, environment, clock, processes, threads, randomness or standard streams; no mutable or interior-mutable static; no unsafe code")
    for cfg in ("f32", "f64"):
        P = common.program(cfg)
        n = 0
        bad = {}
        for f in local_fns(P):
            R.fns.add(f.id)
            for w, p, g, line in calls(P, f):
                n += 1
                why = forbidden(p, w)
                if why:
                    bad.setdefault((f.path, p), (why, f.file, line))
        R.count("call_sites", n)
        if n < 300:
            R.und("call sites [%s]" % cfg, "only %d call sites resolved: the analysis saw too little of the library" % n)
        else:
            R.ok("call sites [%s]" % cfg, "%d call sites" % n)
        for (fp, p), (why, file, line) in bad.items():
            R.viol("%s calls %s" % (fp, p), "%s:%d: %s" % (file, line, why))
        if not bad:
            R.ok("no effectful call [%s]" % cfg)
        for s in P.d["statics"]:
            k = "static %s" % s[0]
            if s[1]:
                R.viol(k, "mutable static")
            elif INTERIOR.search(s[2]):
                R.viol(k, "static with interior mutability: %s" % s[2])
            else:
                R.ok(k)
        if P.d["unsafe_blocks"]:
            for u in P.d["unsafe_blocks"]:
                R.viol("unsafe", "unsafe code: %s" % u)
        else:
            R.ok("no unsafe code [%s]" % cfg)
        for f in local_fns(P):
            if f.unsafe:
                R.viol("unsafe fn " + f.path, "%s:%d" % (f.file, f.line))
    # the rule itself must be able to fire
    for p in ("std::fs::File::open", "std::env::var", "std::io::_print", "std::time::Instant::now"):
        assert forbidden(p, p), p
    R.assumptions = ["standard library functions outside the forbidden modules have no effect beyond their arguments and results"]
    return R


F32 = re.compile(r"\bf32\b")
F64 = re.compile(r"\bf64\b")


def public_types(P):
    for i, t in enumerate(P.tys):
        if t["k"] == "adt" and (t["name"].startswith("parser::") or t["name"].startswith("core::")) and not t["args"]:
            yield t


def check_c14(tier):
    R = common.Report("C14", "in the double-precision build no value, constant, conversion or record field of the library has single-precision type; in the default build every record field has single precision")
    for cfg in ("f64", "f32"):
        P = common.program(cfg)
        n = 0
        for t in public_types(P):
            if not (t["name"].startswith("parser::") or t["name"] in ("core::Spectrum", "core::ray::Ray", "core::ray::RayDifferential", "core::transform::Transform")):
                continue
            for v in t["v"]:
                for fl in v["f"]:
                    s = P.tys[fl[1]]["s"]
                    n += 1
                    wrong = (F32 if cfg == "f64" else F64).search(s)
                    key = "%s.%s.%s [%s]" % (t["name"], v["n"], fl[0], cfg)
                    if wrong:
                        R.viol(key, "field has type %s" % s)
                    else:
                        R.ok(key)
        R.count("record_fields", n)
        if n < 60:
            R.viol("record fields [%s]" % cfg, "only %d record fields seen" % n)
        if cfg == "f64":
            k = 0
            for f in local_fns(P):
                if F32.search(f.full) or F32.search(str([P.tys[x]["s"] for x in f.targs if isinstance(x, int)])) or (f.selfty is not None and F32.search(P.tys[f.selfty]["s"])):
                    continue        # an instance of a generic function made for the analysis
                if f.trait is None or not f.trait.endswith(("Debug",)):
                    pass
                k += 1
                R.fns.add(f.id)
                hit = None
                for i, t in enumerate(f.body["locals"]):
                    if F32.search(P.tys[t]["s"]):
                        hit = "a value of type %s" % P.tys[t]["s"]
                        break
                if hit is None:
                    for w, p, g, line in calls(P, f):
                        if g is not None and (F32.search(g.full)):
                            hit = "call of %s (line %d)" % (g.full, line)
                            break
                if hit is None:
                    hit = cast_f32(P, f)
                if hit:
                    R.viol("%s" % f.path, "%s:%d: %s in the double-precision build" % (f.file, f.line, hit))
                else:
                    R.ok("%s" % f.full)
            R.count("bodies", k)
            if k < 150:
                R.viol("bodies", "only %d bodies seen" % k)
    R.assumptions = ["precision is a matter of the types through which a value passes"]
    return R


def cast_f32(P, f):
    for b in f.body["blocks"]:
        for s in b["s"]:
            if s[0] == "=" and s[2][0] == "cast" and F32.search(P.tys[s[2][3]]["s"]):
                return "conversion to %s" % P.tys[s[2][3]]["s"]
    return None
