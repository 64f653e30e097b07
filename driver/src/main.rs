//! mirdump: a rustc driver that compiles one crate exactly as rustc would and
//! writes, as JSON, the type-checked, monomorphised MIR of every function of
//! the crate (each generic function at every element type that satisfies its
//! bounds) and of everything reachable from them whose MIR is available.
//! Nothing of the analysed crate is executed.
#![feature(rustc_private)]
#![allow(rustc::internal)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;
extern crate rustc_trait_selection;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_interface::interface::Compiler;
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, GenericArg, GenericArgsRef, Instance, InstanceKind, ShimKind, Ty, TyCtxt, TypingEnv, EarlyBinder};
use std::collections::HashMap;
use std::fmt::Write as _;

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: HashMap<Ty<'tcx>, usize>,
    ty_out: Vec<String>,
    insts: HashMap<Instance<'tcx>, usize>,
    queue: Vec<Instance<'tcx>>,
    skip: Vec<String>,
}

impl<'tcx> Cx<'tcx> {
    fn env(&self) -> TypingEnv<'tcx> {
        TypingEnv::fully_monomorphized()
    }
    fn path(&self, d: DefId) -> String {
        with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }
    fn norm<T: ty::TypeFoldable<TyCtxt<'tcx>>>(&self, t: T) -> T {
        self.tcx
            .try_normalize_erasing_regions(self.env(), ty::Unnormalized::new_wip(t.clone()))
            .unwrap_or(t)
    }
    fn inst(&mut self, i: Instance<'tcx>) -> usize {
        if let Some(&n) = self.insts.get(&i) {
            return n;
        }
        let n = self.insts.len();
        self.insts.insert(i, n);
        self.queue.push(i);
        n
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(&n) = self.tys.get(&t) {
            return n;
        }
        let n = self.ty_out.len();
        self.tys.insert(t, n);
        self.ty_out.push(String::new());
        let tcx = self.tcx;
        let s = with_no_trimmed_paths!(t.to_string());
        let body = match t.kind() {
            ty::Bool => "\"k\":\"bool\"".to_string(),
            ty::Char => "\"k\":\"char\"".to_string(),
            ty::Int(i) => format!("\"k\":\"int\",\"n\":{}", js(i.name_str())),
            ty::Uint(i) => format!("\"k\":\"uint\",\"n\":{}", js(i.name_str())),
            ty::Float(i) => format!("\"k\":\"float\",\"n\":{}", js(i.name_str())),
            ty::Str => "\"k\":\"str\"".to_string(),
            ty::Never => "\"k\":\"never\"".to_string(),
            ty::Ref(_, x, m) => {
                let x = self.ty(*x);
                format!("\"k\":\"ref\",\"to\":{},\"mut\":{}", x, m.is_mut())
            }
            ty::RawPtr(x, _) => {
                let x = self.ty(*x);
                format!("\"k\":\"ptr\",\"to\":{}", x)
            }
            ty::Slice(x) => {
                let x = self.ty(*x);
                format!("\"k\":\"slice\",\"of\":{}", x)
            }
            ty::Array(x, l) => {
                let x = self.ty(*x);
                let l = l.try_to_target_usize(tcx).map(|v| v.to_string()).unwrap_or("null".into());
                format!("\"k\":\"array\",\"of\":{},\"len\":{}", x, l)
            }
            ty::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|x| self.ty(x).to_string()).collect();
                format!("\"k\":\"tuple\",\"of\":[{}]", v.join(","))
            }
            ty::Adt(def, args) => {
                let name = self.path(def.did());
                let mut targs = vec![];
                for a in args.iter() {
                    if let Some(x) = a.as_type() {
                        targs.push(self.ty(x).to_string());
                    }
                }
                let mut vs = vec![];
                // Field lists only for local types and Option/Result-like enums;
                // the inside of std containers is never looked at.
                let show = def.did().is_local()
                    || (def.is_enum() && def.variants().len() <= 16)
                    || name.starts_with("std::ops::Range")
                    || name.starts_with("core::ops::Range")
                    || name == "std::cmp::Reverse"
                    || name == "std::num::Wrapping";
                if show {
                    for (vi, v) in def.variants().iter_enumerated() {
                        let mut fs = vec![];
                        for f in v.fields.iter() {
                            let fty = f.ty(tcx, args).skip_norm_wip();
                            let fty = self.norm(fty);
                            let id = self.ty(fty);
                            fs.push(format!("[{},{}]", js(f.name.as_str()), id));
                        }
                        let d = if def.is_enum() {
                            t.discriminant_for_variant(tcx, vi).map(|d| d.val.to_string()).unwrap_or("null".into())
                        } else {
                            "0".to_string()
                        };
                        vs.push(format!("{{\"n\":{},\"d\":{},\"f\":[{}]}}", js(v.name.as_str()), d, fs.join(",")));
                    }
                }
                format!(
                    "\"k\":\"adt\",\"name\":{},\"local\":{},\"enum\":{},\"args\":[{}],\"v\":[{}]",
                    js(&name), def.did().is_local(), def.is_enum(), targs.join(","), vs.join(",")
                )
            }
            ty::Closure(d, args) => {
                let i = Instance::resolve_closure(tcx, *d, args, args.as_closure().kind());
                // the plain body, not the FnOnce shim
                let i = match i.def {
                    InstanceKind::Shim(_) => Instance::new_raw(*d, args),
                    _ => i,
                };
                let n = self.inst(i);
                let ups: Vec<String> = args.as_closure().upvar_tys().iter().map(|x| self.ty(x).to_string()).collect();
                format!(
                    "\"k\":\"closure\",\"fn\":{},\"ck\":{},\"up\":[{}]",
                    n, js(&format!("{:?}", args.as_closure().kind())), ups.join(",")
                )
            }
            ty::FnDef(d, args) => {
                let r = self.resolve(*d, args.no_bound_vars().unwrap());
                format!("\"k\":\"fndef\",{}", r)
            }
            ty::FnPtr(..) => "\"k\":\"fnptr\"".to_string(),
            _ => "\"k\":\"other\"".to_string(),
        };
        self.ty_out[n] = format!("{{{},\"s\":{}}}", body, js(&s));
        n
    }
    /// callee description: resolved instance plus the path as written
    fn resolve(&mut self, d: DefId, args: GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let written = self.path(d);
        let mut targs = vec![];
        for a in args.iter() {
            if let Some(x) = a.as_type() {
                targs.push(self.ty(x).to_string());
            }
        }
        let args = self.norm(args);
        let r = Instance::try_resolve(tcx, self.env(), d, args);
        match r {
            Ok(Some(i)) => {
                let n = self.inst(i);
                format!("\"fn\":{},\"path\":{},\"targs\":[{}]", n, js(&written), targs.join(","))
            }
            _ => format!("\"fn\":null,\"path\":{},\"targs\":[{}]", js(&written), targs.join(",")),
        }
    }
    fn place(&mut self, p: &Place<'tcx>) -> String {
        let mut v = vec![];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => "[\"d\"]".to_string(),
                ProjectionElem::Field(f, t) => {
                    let t = self.ty(t);
                    format!("[\"f\",{},{}]", f.index(), t)
                }
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.index()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("[\"ci\",{},{},{}]", offset, min_length, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"sub\",{},{},{}]", from, to, from_end),
                ProjectionElem::Downcast(_, v) => format!("[\"v\",{}]", v.index()),
                _ => "[\"?\"]".to_string(),
            });
        }
        format!("[{},[{}]]", p.local.index(), v.join(","))
    }
    fn cval(&mut self, v: ConstValue, t: Ty<'tcx>, depth: usize) -> String {
        let tcx = self.tcx;
        let tid = self.ty(t);
        if depth > 6 {
            return format!("{{\"k\":\"opaque\",\"ty\":{}}}", tid);
        }
        match (v, t.kind()) {
            (ConstValue::ZeroSized, _) => {
                return format!("{{\"k\":\"zst\",\"ty\":{}}}", tid);
            }
            (ConstValue::Scalar(Scalar::Int(i)), ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_)) => {
                let bits = i.to_bits(i.size());
                let txt = match t.kind() {
                    ty::Int(_) => i.to_int(i.size()).to_string(),
                    _ => bits.to_string(),
                };
                return format!("{{\"k\":\"int\",\"v\":{},\"ty\":{}}}", txt, tid);
            }
            (ConstValue::Slice { alloc_id, meta }, ty::Ref(_, inner, _)) => {
                if let GlobalAlloc::Memory(a) = tcx.global_alloc(alloc_id) {
                    let a = a.inner();
                    if inner.is_str() {
                        let bytes = a.inspect_with_uninit_and_ptr_outside_interpreter(0..meta as usize);
                        return format!("{{\"k\":\"str\",\"v\":{},\"ty\":{}}}", js(&String::from_utf8_lossy(bytes)), tid);
                    }
                    if let ty::Slice(el) = inner.kind() {
                        if let Ok(lay) = tcx.layout_of(self.env().as_query_input(*el)) {
                            let mut es = vec![];
                            for i in 0..meta {
                                es.push(self.cval(
                                    ConstValue::Indirect { alloc_id, offset: lay.size * i },
                                    *el,
                                    depth + 1,
                                ));
                            }
                            return format!("{{\"k\":\"slice\",\"e\":[{}],\"ty\":{}}}", es.join(","), tid);
                        }
                    }
                }
            }
            (ConstValue::Scalar(Scalar::Ptr(p, _)), ty::Ref(_, inner, _)) => {
                let (prov, off) = p.into_raw_parts();
                if let GlobalAlloc::Memory(_) = tcx.global_alloc(prov.alloc_id()) {
                    if inner.is_sized(tcx, self.env()) {
                        let s = self.cval(ConstValue::Indirect { alloc_id: prov.alloc_id(), offset: off }, *inner, depth + 1);
                        return format!("{{\"k\":\"ref\",\"to\":{},\"ty\":{}}}", s, tid);
                    }
                }
            }
            (ConstValue::Indirect { alloc_id, offset }, k) => {
                if let GlobalAlloc::Memory(a) = tcx.global_alloc(alloc_id) {
                    let a = a.inner();
                    match k {
                        ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) => {
                            if let Ok(lay) = tcx.layout_of(self.env().as_query_input(t)) {
                                let r = mir::interpret::alloc_range(offset, lay.size);
                                if let Ok(s) = a.read_scalar(&tcx, r, false) {
                                    return self.cval(ConstValue::Scalar(s), t, depth);
                                }
                            }
                        }
                        ty::Ref(_, inner, _) => {
                            let ps = tcx.data_layout.pointer_size();
                            let r = mir::interpret::alloc_range(offset, ps);
                            if let Ok(Scalar::Ptr(p, n)) = a.read_scalar(&tcx, r, true) {
                                if inner.is_sized(tcx, self.env()) {
                                    return self.cval(ConstValue::Scalar(Scalar::Ptr(p, n)), t, depth);
                                }
                                let r2 = mir::interpret::alloc_range(offset + ps, ps);
                                if let Ok(Scalar::Int(i)) = a.read_scalar(&tcx, r2, false) {
                                    let meta = i.to_bits(i.size()) as u64;
                                    let (prov, off) = p.into_raw_parts();
                                    if off.bytes() == 0 {
                                        return self.cval(ConstValue::Slice { alloc_id: prov.alloc_id(), meta }, t, depth);
                                    }
                                }
                            }
                        }
                        _ => {}
                    }
                }
            }
            _ => {}
        }
        if matches!(t.kind(), ty::Adt(..) | ty::Tuple(..) | ty::Array(..)) {
            if let Some(d) = tcx.try_destructure_mir_constant_for_user_output(v, t) {
                let fs: Vec<String> = d.fields.iter().map(|(v, t)| self.cval(*v, *t, depth + 1)).collect();
                return format!(
                    "{{\"k\":\"agg\",\"variant\":{},\"e\":[{}],\"ty\":{}}}",
                    d.variant.map(|v| v.index().to_string()).unwrap_or("0".into()),
                    fs.join(","),
                    tid
                );
            }
        }
        format!("{{\"k\":\"opaque\",\"ty\":{}}}", tid)
    }
    fn op(&mut self, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(p)),
            Operand::Constant(c) => {
                let t = c.const_.ty();
                let r = c.const_.eval(self.tcx, self.env(), c.span);
                let s = match r {
                    Ok(v) => self.cval(v, t, 0),
                    Err(_) => {
                        let tid = self.ty(t);
                        format!("{{\"k\":\"opaque\",\"ty\":{}}}", tid)
                    }
                };
                format!("[\"k\",{}]", s)
            }
            Operand::RuntimeChecks(_) => "[\"rc\"]".to_string(),
        }
    }
    fn rvalue(&mut self, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.op(o)),
            Rvalue::Repeat(o, n) => {
                let o = self.op(o);
                let n = n.try_to_target_usize(self.tcx).map(|v| v.to_string()).unwrap_or("null".into());
                format!("[\"rep\",{},{}]", o, n)
            }
            Rvalue::Ref(_, k, p) => format!("[\"ref\",{},{}]", matches!(k, BorrowKind::Mut { .. }), self.place(p)),
            Rvalue::RawPtr(_, p) => format!("[\"ptr\",{}]", self.place(p)),
            Rvalue::Reborrow(_, m, p) => format!("[\"ref\",{},{}]", m.is_mut(), self.place(p)),
            Rvalue::Cast(k, o, t) => {
                let o = self.op(o);
                let t = self.ty(*t);
                format!("[\"cast\",{},{},{}]", js(&format!("{:?}", k)), o, t)
            }
            Rvalue::BinaryOp(b, ab) => {
                let x = self.op(&ab.0);
                let y = self.op(&ab.1);
                format!("[\"bin\",{},{},{}]", js(&format!("{:?}", b)), x, y)
            }
            Rvalue::UnaryOp(u, o) => {
                let o = self.op(o);
                format!("[\"un\",{},{}]", js(&format!("{:?}", u)), o)
            }
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let os: Vec<String> = ops.iter().map(|o| self.op(o)).collect();
                let kk = match **k {
                    AggregateKind::Array(t) => {
                        let t = self.ty(t);
                        format!("\"array\",{}", t)
                    }
                    AggregateKind::Tuple => "\"tuple\",0".to_string(),
                    AggregateKind::Adt(d, v, args, _, _) => {
                        let args = self.norm(args);
                        let t = self.tcx.type_of(d).instantiate(self.tcx, args).skip_norm_wip();
                        let t = self.norm(t);
                        let t = self.ty(t);
                        format!("\"adt\",[{},{}]", t, v.index())
                    }
                    AggregateKind::Closure(d, args) => {
                        let t = Ty::new_closure(self.tcx, d, args);
                        let t = self.ty(t);
                        format!("\"closure\",{}", t)
                    }
                    _ => "\"other\",0".to_string(),
                };
                format!("[\"agg\",{},[{}]]", kk, os.join(","))
            }
            _ => "[\"other\"]".to_string(),
        }
    }
    fn span(&self, s: rustc_span::Span) -> (String, usize) {
        let sm = self.tcx.sess.source_map();
        let s = s.source_callsite();
        let l = sm.lookup_char_pos(s.lo());
        (format!("{}", l.file.name.prefer_local_unconditionally()), l.line)
    }
    fn body(&mut self, i: Instance<'tcx>, idx: usize) -> String {
        let tcx = self.tcx;
        let d = i.def_id();
        let path = self.path(d);
        let full = with_no_trimmed_paths!(i.to_string());
        let kind = match i.def {
            InstanceKind::Item(_) => "item",
            InstanceKind::Intrinsic(_) => "intrinsic",
            InstanceKind::Virtual(..) => "virtual",
            InstanceKind::LlvmIntrinsic(..) => "llvm",
            InstanceKind::Shim(ShimKind::DropGlue(..)) => "drop",
            InstanceKind::Shim(ShimKind::Clone(..)) => "cloneshim",
            InstanceKind::Shim(ShimKind::FnPtr(..)) => "fnptrshim",
            InstanceKind::Shim(ShimKind::ClosureOnce { .. }) => "closureonce",
            InstanceKind::Shim(..) => "shim",
        };
        let local = d.is_local();
        let mut targs = vec![];
        for a in i.args.iter() {
            if let Some(x) = a.as_type() {
                targs.push(self.ty(x).to_string());
            }
        }
        let (file, line) = self.span(tcx.def_span(d));
        // method name / self type / trait, for lookup that survives refactoring
        let mut selfty = "null".to_string();
        let mut tr = "null".to_string();
        let mut anc = d;
        while matches!(tcx.def_kind(anc), DefKind::Closure) {
            anc = tcx.parent(anc);
        }
        if matches!(tcx.def_kind(anc), DefKind::AssocFn) {
            let p = tcx.parent(anc);
            if let DefKind::Impl { of_trait } = tcx.def_kind(p) {
                let st = tcx.type_of(p).instantiate(tcx, i.args).skip_norm_wip();
                let st = self.norm(st);
                if kind == "item" {
                    selfty = self.ty(st).to_string();
                }
                if of_trait {
                    tr = js(&self.path(tcx.impl_trait_ref(p).skip_binder().def_id));
                }
            } else if let DefKind::Trait = tcx.def_kind(p) {
                tr = js(&self.path(p));
            }
        }
        let unsafe_ = if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            tcx.fn_sig(d).skip_binder().safety().is_unsafe()
        } else {
            false
        };
        let name = tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default();
        let head = format!(
            "\"id\":{},\"path\":{},\"full\":{},\"name\":{},\"kind\":{},\"local\":{},\"closure\":{},\"targs\":[{}],\"self\":{},\"trait\":{},\"file\":{},\"line\":{},\"unsafe\":{}",
            idx, js(&path), js(&full), js(&name), js(kind), local,
            matches!(tcx.def_kind(d), DefKind::Closure), targs.join(","), selfty, tr, js(&file), line, unsafe_
        );
        let want = match i.def {
            InstanceKind::Item(_) => {
                tcx.is_mir_available(d) && (local || !self.skip.iter().any(|s| path.starts_with(s.as_str()) || full.starts_with(s.as_str())))
            }
            InstanceKind::Shim(ShimKind::ClosureOnce { .. }) | InstanceKind::Shim(ShimKind::FnPtr(..)) => false,
            InstanceKind::Shim(ShimKind::Clone(..)) => false,
            _ => false,
        };
        if !want {
            return format!("{{{},\"body\":null}}", head);
        }
        let b = tcx.instance_mir(i.def);
        let b: Body<'tcx> = i.instantiate_mir_and_normalize_erasing_regions(tcx, self.env(), EarlyBinder::bind(tcx, b.clone()));
        let mut out = String::new();
        let tys: Vec<String> = b.local_decls.iter().map(|l| self.ty(l.ty).to_string()).collect();
        let mut names: HashMap<usize, String> = HashMap::new();
        for v in b.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.insert(p.local.index(), v.name.to_string());
                }
            }
        }
        let mut nm: Vec<String> = names.iter().map(|(k, v)| format!("\"{}\":{}", k, js(v))).collect();
        nm.sort();
        let _ = write!(out, "{{\"nargs\":{},\"spread\":{},\"locals\":[{}],\"names\":{{{}}},\"blocks\":[", b.arg_count,
            b.spread_arg.map(|l| l.index().to_string()).unwrap_or("null".into()), tys.join(","), nm.join(","));
        for (bi, bb) in b.basic_blocks.iter_enumerated() {
            if bi.index() > 0 {
                out.push(',');
            }
            let mut ss = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(a) => {
                        let p = self.place(&a.0);
                        let r = self.rvalue(&a.1);
                        let (_, l) = self.span(s.source_info.span);
                        ss.push(format!("[\"=\",{},{},{}]", p, r, l));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place);
                        ss.push(format!("[\"sd\",{},{}]", p, variant_index.index()));
                    }
                    StatementKind::Intrinsic(i) => {
                        ss.push(format!("[\"intr\",{}]", js(&format!("{:?}", i))));
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let (tf, tl) = self.span(t.source_info.span);
            let _ = tf;
            let ts = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.index()),
                TerminatorKind::FalseEdge { real_target, .. } | TerminatorKind::FalseUnwind { real_target, .. } => {
                    format!("[\"goto\",{}]", real_target.index())
                }
                TerminatorKind::SwitchInt { discr, targets } => {
                    let o = self.op(discr);
                    let t = discr.ty(&b.local_decls, tcx);
                    let t = self.ty(t);
                    let v: Vec<String> = targets.iter().map(|(v, b)| format!("[{},{}]", v, b.index())).collect();
                    format!("[\"switch\",{},[{}],{},{}]", o, v.join(","), targets.otherwise().index(), t)
                }
                TerminatorKind::Return => "[\"ret\"]".to_string(),
                TerminatorKind::Unreachable => "[\"unreach\"]".to_string(),
                TerminatorKind::Drop { place, target, .. } => {
                    let p = self.place(place);
                    format!("[\"drop\",{},{}]", p, target.index())
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = match func {
                        Operand::Constant(c) => match c.const_.ty().kind() {
                            ty::FnDef(d, a) => {
                                let a = a.no_bound_vars().unwrap();
                                let r = self.resolve(*d, a);
                                format!("{{{}}}", r)
                            }
                            _ => format!("{{\"op\":{}}}", self.op(func)),
                        },
                        _ => format!("{{\"op\":{}}}", self.op(func)),
                    };
                    let a: Vec<String> = args.iter().map(|x| self.op(&x.node)).collect();
                    let p = self.place(destination);
                    let tg = target.map(|t| t.index().to_string()).unwrap_or("null".into());
                    format!("[\"call\",{},[{}],{},{},{}]", f, a.join(","), p, tg, tl)
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let o = self.op(cond);
                    let m = match &**msg {
                        AssertKind::BoundsCheck { len, index } => {
                            let l = self.op(len);
                            let x = self.op(index);
                            format!("[\"bounds\",{},{}]", l, x)
                        }
                        AssertKind::Overflow(op, ..) => format!("[\"overflow\",{}]", js(&format!("{:?}", op))),
                        AssertKind::OverflowNeg(_) => "[\"overflow\",\"Neg\"]".to_string(),
                        AssertKind::DivisionByZero(_) => "[\"divzero\"]".to_string(),
                        AssertKind::RemainderByZero(_) => "[\"remzero\"]".to_string(),
                        _ => "[\"other\"]".to_string(),
                    };
                    format!("[\"assert\",{},{},{},{},{}]", o, expected, m, target.index(), tl)
                }
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => "[\"resume\"]".to_string(),
                _ => "[\"other\"]".to_string(),
            };
            let _ = write!(out, "{{\"s\":[{}],\"t\":{},\"cleanup\":{},\"l\":{}}}", ss.join(","), ts, bb.is_cleanup, tl);
        }
        out.push_str("]}");
        format!("{{{},\"body\":{}}}", head, out)
    }
}

struct Cb {
    out: String,
    skip: Vec<String>,
}

fn candidates<'tcx>(tcx: TyCtxt<'tcx>) -> Vec<Ty<'tcx>> {
    vec![tcx.types.f32, tcx.types.f64, tcx.types.i64]
}

impl Callbacks for Cb {
    fn config(&mut self, config: &mut rustc_interface::Config) {
        config.opts.unstable_opts.mir_opt_level = Some(0);
    }
    fn after_analysis<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let mut cx = Cx { tcx, tys: HashMap::new(), ty_out: vec![], insts: HashMap::new(), queue: vec![], skip: self.skip.clone() };
        let mut roots = vec![];
        let mut rootdefs = 0usize;
        let mut unsafe_blocks = vec![];
        let mut statics = vec![];
        for ld in tcx.hir_crate_items(()).definitions() {
            if let DefKind::Static { mutability, .. } = tcx.def_kind(ld) {
                let ty = format!("{:?}", tcx.type_of(ld.to_def_id()).instantiate_identity());
                statics.push(format!("[{},{},{}]", js(&cx.path(ld.to_def_id())), mutability.is_mut(), js(&ty)));
            }
        }
        for &ld in tcx.mir_keys(()) {
            let d = ld.to_def_id();
            if !matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
                continue;
            }
            rootdefs += 1;
            let g = tcx.generics_of(d);
            if (0..g.count()).any(|k| matches!(g.param_at(k, tcx).kind, ty::GenericParamDefKind::Const { .. })) {
                continue; // analysed at the instances that are used
            }
            let n = (0..g.count()).filter(|&k| matches!(g.param_at(k, tcx).kind, ty::GenericParamDefKind::Type { .. })).count();
            let cands = candidates(tcx);
            let combos: Vec<Vec<Ty<'tcx>>> = if n == 0 {
                vec![vec![]]
            } else {
                // the same element type for every type parameter
                cands.iter().map(|c| vec![*c; n]).collect()
            };
            for c in combos {
                let mut k = 0;
                let args = ty::GenericArgs::for_item(tcx, d, |p, _| match p.kind {
                    ty::GenericParamDefKind::Lifetime => GenericArg::from(tcx.lifetimes.re_erased),
                    ty::GenericParamDefKind::Type { .. } => {
                        k += 1;
                        GenericArg::from(c[k - 1])
                    }
                    ty::GenericParamDefKind::Const { .. } => panic!("const generic root"),
                });
                if n > 0 && tcx.instantiate_and_check_impossible_clauses((d, args)) {
                    continue;
                }
                let args = tcx.erase_and_anonymize_regions(args);
                if let Ok(Some(i)) = Instance::try_resolve(tcx, cx.env(), d, args) {
                    roots.push(cx.inst(i));
                }
            }
        }
        // user-written unsafe: HIR blocks
        struct Uv<'a, 'tcx>(TyCtxt<'tcx>, &'a mut Vec<String>);
        impl<'a, 'tcx> rustc_hir::intravisit::Visitor<'tcx> for Uv<'a, 'tcx> {
            type NestedFilter = rustc_middle::hir::nested_filter::All;
            fn maybe_tcx(&mut self) -> TyCtxt<'tcx> {
                self.0
            }
            fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
                if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) = b.rules {
                    if !b.span.from_expansion() {
                        let sm = self.0.sess.source_map();
                        let l = sm.lookup_char_pos(b.span.lo());
                        self.1.push(format!("{}:{}", l.file.name.prefer_local_unconditionally(), l.line));
                    }
                }
                rustc_hir::intravisit::walk_block(self, b);
            }
        }
        tcx.hir_visit_all_item_likes_in_crate(&mut Uv(tcx, &mut unsafe_blocks));
        let mut fns = vec![];
        let mut q = 0;
        while q < cx.queue.len() {
            let i = cx.queue[q];
            let s = cx.body(i, q);
            fns.push(s);
            q += 1;
        }
        let mut o = String::new();
        let _ = write!(
            o,
            "{{\"crate\":{},\"rootdefs\":{},\"roots\":[{}],\"unsafe_blocks\":[{}],\"statics\":[{}],\n\"tys\":[\n{}\n],\n\"fns\":[\n{}\n]}}\n",
            js(tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).as_str()),
            rootdefs,
            roots.iter().map(|r| r.to_string()).collect::<Vec<_>>().join(","),
            unsafe_blocks.iter().map(|r| js(r)).collect::<Vec<_>>().join(","),
            statics.join(","),
            cx.ty_out.join(",\n"),
            fns.join(",\n")
        );
        std::fs::write(&self.out, o).expect("write");
        Compilation::Stop
    }
}

fn main() {
    let out = std::env::var("MIRDUMP_OUT").expect("MIRDUMP_OUT");
    let skip = std::env::var("MIRDUMP_SKIP").unwrap_or_default();
    let skip: Vec<String> = skip.split(';').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect();
    let args: Vec<String> = std::env::args().collect();
    let mut cb = Cb { out, skip };
    rustc_driver::compiler_entrypoint(&args, &mut cb);
}
