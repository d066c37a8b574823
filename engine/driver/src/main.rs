//! rustc driver used as RUSTC_WORKSPACE_WRAPPER: compiles normally and, for the crates named in
//! MIRFACTS_CRATES, writes the type-checked program (MIR with resolved callees, types, ADTs, impls)
//! as JSON lines to $MIRFACTS_OUT/<crate>.jsonl.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_middle::mir::{self, *};
use rustc_middle::ty::{self, GenericArgKind, Instance, InstanceKind, Ty, TyCtxt, TyKind, TypingEnv};
use rustc_span::Span;
use rustc_span::def_id::{DefId, LOCAL_CRATE};
use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write as _;
use std::io::Write as _;

fn q(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: HashMap<Ty<'tcx>, usize>,
    ty_out: Vec<String>,
    names: HashMap<DefId, String>,
    queue: VecDeque<DefId>,
    seen: HashSet<DefId>,
    adts: HashSet<DefId>,
    adt_q: VecDeque<DefId>,
}

impl<'tcx> Cx<'tcx> {
    fn name(&mut self, d: DefId) -> String {
        if let Some(n) = self.names.get(&d) { return n.clone(); }
        let n = self.name_uncached(d);
        self.names.insert(d, n.clone());
        n
    }
    fn tyname(&mut self, t: Ty<'tcx>) -> String {
        match t.kind() {
            TyKind::Adt(a, args) => {
                let mut s = self.name(a.did());
                let parts: Vec<String> = args.iter().filter_map(|g| match g.kind() { GenericArgKind::Type(t) => Some(self.tyname(t)), _ => None }).collect();
                if !parts.is_empty() { s.push('<'); s.push_str(&parts.join(",")); s.push('>'); }
                s
            }
            TyKind::Ref(_, t, m) => format!("&{}{}", if m.is_mut() { "mut " } else { "" }, self.tyname(*t)),
            TyKind::RawPtr(t, m) => format!("*{} {}", if m.is_mut() { "mut" } else { "const" }, self.tyname(*t)),
            TyKind::Slice(t) => format!("[{}]", self.tyname(*t)),
            TyKind::Array(t, n) => format!("[{};{}]", self.tyname(*t), n),
            TyKind::Tuple(ts) => { let p: Vec<String> = ts.iter().map(|t| self.tyname(t)).collect(); format!("({})", p.join(",")) }
            TyKind::Closure(d, _) => format!("closure@{}", self.name(*d)),
            TyKind::FnDef(d, _) => format!("fn@{}", self.name(*d)),
            TyKind::Dynamic(preds, ..) => {
                match preds.principal_def_id() { Some(d) => {
                    let mut s = format!("dyn {}", self.name(d));
                    if let Some(p) = preds.principal() {
                        let args = p.skip_binder().args;
                        let parts: Vec<String> = args.iter().filter_map(|g| match g.kind() { GenericArgKind::Type(t) => Some(self.tyname(t)), _ => None }).collect();
                        if !parts.is_empty() { s.push('<'); s.push_str(&parts.join(",")); s.push('>'); }
                    }
                    s }, None => "dyn".to_string() }
            }
            _ => rustc_middle::ty::print::with_no_trimmed_paths!(format!("{t}")),
        }
    }
    fn name_uncached(&mut self, d: DefId) -> String {
        let tcx = self.tcx;
        let key = tcx.def_key(d);
        let Some(pi) = key.parent else { return tcx.crate_name(d.krate).to_string() };
        let parent = DefId { krate: d.krate, index: pi };
        match tcx.def_kind(d) {
            DefKind::Closure | DefKind::SyntheticCoroutineBody => {
                format!("{}::{{closure#{}}}", self.name(parent), key.disambiguated_data.disambiguator)
            }
            DefKind::Impl { of_trait } => {
                let self_ty = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let base = match self_ty.kind() { TyKind::Adt(a, _) if !of_trait => self.name(a.did()), _ => self.tyname(self_ty) };
                if of_trait {
                    let tr = tcx.impl_trait_ref(d).instantiate_identity().skip_norm_wip();
                    let mut tn = self.name(tr.def_id);
                    let parts: Vec<String> = tr.args.iter().skip(1).filter_map(|g| match g.kind() { GenericArgKind::Type(t) => Some(self.tyname(t)), _ => None }).collect();
                    if !parts.is_empty() { tn.push('<'); tn.push_str(&parts.join(",")); tn.push('>'); }
                    format!("<{base} as {tn}>")
                } else { base }
            }
            _ => {
                let dn = key.disambiguated_data.data.get_opt_name().map(|s| s.to_string()).unwrap_or_else(|| format!("{{{}#{}}}", key.disambiguated_data.data, key.disambiguated_data.disambiguator));
                format!("{}::{}", self.name(parent), dn)
            }
        }
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.tys.get(&t) { return *i; }
        let i = self.ty_out.len();
        self.tys.insert(t, i);
        self.ty_out.push(String::new());
        let s = self.tyname(t);
        let gargs = |cx: &mut Self, args: ty::GenericArgsRef<'tcx>| -> String {
            let v: Vec<String> = args.iter().filter_map(|g| match g.kind() { GenericArgKind::Type(t) => Some(cx.ty(t).to_string()), _ => None }).collect();
            v.join(",")
        };
        let mut extra = String::new();
        match t.kind() {
            TyKind::Adt(a, args) => {
                let a_ = gargs(self, args);
                let n = self.name(a.did());
                if self.adts.insert(a.did()) { self.adt_q.push_back(a.did()); }
                let _ = write!(extra, ",\"k\":\"adt\",\"d\":{},\"a\":[{}]", q(&n), a_);
            }
            TyKind::Ref(_, x, m) => { let x = self.ty(*x); let _ = write!(extra, ",\"k\":\"ref\",\"m\":{},\"a\":[{}]", m.is_mut(), x); }
            TyKind::RawPtr(x, m) => { let x = self.ty(*x); let _ = write!(extra, ",\"k\":\"ptr\",\"m\":{},\"a\":[{}]", m.is_mut(), x); }
            TyKind::Slice(x) => { let x = self.ty(*x); let _ = write!(extra, ",\"k\":\"slice\",\"a\":[{}]", x); }
            TyKind::Array(x, n) => { let x = self.ty(*x); let l = n.try_to_target_usize(self.tcx).map(|v| v.to_string()).unwrap_or("null".into()); let _ = write!(extra, ",\"k\":\"array\",\"n\":{},\"a\":[{}]", l, x); }
            TyKind::Tuple(ts) => { let v: Vec<String> = ts.iter().map(|t| self.ty(t).to_string()).collect(); let _ = write!(extra, ",\"k\":\"tuple\",\"a\":[{}]", v.join(",")); }
            TyKind::Closure(d, args) => {
                let n = self.name(*d);
                let up: Vec<String> = args.as_closure().upvar_tys().iter().map(|t| self.ty(t).to_string()).collect();
                let _ = write!(extra, ",\"k\":\"closure\",\"d\":{},\"a\":[{}]", q(&n), up.join(","));
            }
            TyKind::FnDef(d, args) => { let n = self.name(*d); let a_ = gargs(self, args.skip_binder()); let _ = write!(extra, ",\"k\":\"fndef\",\"d\":{},\"a\":[{}]", q(&n), a_); }
            TyKind::Param(p) => { let _ = write!(extra, ",\"k\":\"param\",\"pi\":{}", p.index); }
            TyKind::Dynamic(..) => { extra.push_str(",\"k\":\"dyn\""); }
            TyKind::FnPtr(..) => { extra.push_str(",\"k\":\"fnptr\""); }
            TyKind::Bool | TyKind::Char | TyKind::Int(_) | TyKind::Uint(_) | TyKind::Float(_) | TyKind::Str | TyKind::Never => { extra.push_str(",\"k\":\"prim\""); }
            _ => { extra.push_str(",\"k\":\"other\""); }
        }
        self.ty_out[i] = format!("{{\"t\":\"ty\",\"i\":{},\"s\":{}{}}}", i, q(&s), extra);
        i
    }
    fn line(&self, sp: Span) -> (String, usize) {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let l = sm.lookup_char_pos(sp.lo());
        (format!("{}", l.file.name.prefer_local_unconditionally()), l.line)
    }
    fn place(&mut self, body: &Body<'tcx>, p: &Place<'tcx>) -> String {
        let tcx = self.tcx;
        let mut o = format!("[{}", p.local.as_usize());
        let mut pt = mir::PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            match e {
                PlaceElem::Deref => o.push_str(",\"*\""),
                PlaceElem::Field(f, fty) => {
                    let nm = match pt.ty.kind() {
                        TyKind::Adt(a, _) => {
                            let v = match pt.variant_index { Some(v) => Some(a.variant(v)), None if a.is_struct() || a.is_union() => Some(a.non_enum_variant()), _ => None };
                            v.map(|v| v.fields[f].name.to_string()).unwrap_or_else(|| f.as_usize().to_string())
                        }
                        _ => f.as_usize().to_string(),
                    };
                    let owner = match pt.ty.kind() { TyKind::Adt(a, _) => { let n = self.name(a.did()); q(&n) } _ => "null".into() };
                    let t = self.ty(fty);
                    let _ = write!(o, ",[\"f\",{},{},{},{}]", f.as_usize(), q(&nm), owner, t);
                }
                PlaceElem::Index(l) => { let _ = write!(o, ",[\"i\",{}]", l.as_usize()); }
                PlaceElem::ConstantIndex { offset, from_end, .. } => { let _ = write!(o, ",[\"ci\",{},{}]", offset, from_end); }
                PlaceElem::Subslice { from, to, from_end } => { let _ = write!(o, ",[\"ss\",{},{},{}]", from, to, from_end); }
                PlaceElem::Downcast(n, v) => {
                    let nm = match n { Some(n) => n.to_string(), None => match pt.ty.kind() { TyKind::Adt(a, _) => a.variant(v).name.to_string(), _ => v.as_usize().to_string() } };
                    let _ = write!(o, ",[\"v\",{},{}]", v.as_usize(), q(&nm));
                }
                _ => {}
            }
            pt = pt.projection_ty(tcx, e);
        }
        o.push(']');
        o
    }
    fn fnref(&mut self, env: TypingEnv<'tcx>, d: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let n = self.name(d);
        let ga: Vec<String> = args.iter().filter_map(|g| match g.kind() { GenericArgKind::Type(t) => Some(self.ty(t).to_string()), _ => None }).collect();
        let mut o = format!("{{\"fn\":{},\"ga\":[{}]", q(&n), ga.join(","));
        if let Some(t) = tcx.trait_of_assoc(d) { let tn = self.name(t); let _ = write!(o, ",\"tr\":{}", q(&tn)); }
        if matches!(tcx.def_kind(d), DefKind::Ctor(..)) {
            let _ = write!(o, ",\"ctor\":1");
        } else if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            match Instance::try_resolve(tcx, env, d, args) {
                Ok(Some(inst)) => {
                    match inst.def {
                        InstanceKind::Item(rd) => {
                            self.want(rd);
                            if rd != d {
                                let rn = self.name(rd);
                                let rga: Vec<String> = inst.args.iter().filter_map(|g| match g.kind() { GenericArgKind::Type(t) => Some(self.ty(t).to_string()), _ => None }).collect();
                                let _ = write!(o, ",\"r\":{},\"rga\":[{}]", q(&rn), rga.join(","));
                            }
                        }
                        InstanceKind::Virtual(..) => o.push_str(",\"dyn\":1"),
                        InstanceKind::Intrinsic(..) => o.push_str(",\"intr\":1"),
                        _ => {
                            // shims: closures called through Fn*, clone shims, drop glue
                            let rd = inst.def_id();
                            let rn = self.name(rd);
                            let _ = write!(o, ",\"shim\":{}", q(&rn));
                        }
                    }
                }
                _ => o.push_str(",\"unres\":1"),
            }
            if tcx.is_foreign_item(d) { o.push_str(",\"ffi\":1"); }
        }
        o.push('}');
        o
    }
    fn want(&mut self, d: DefId) {
        if d.is_local() || self.seen.contains(&d) { return; }
        let cn = self.tcx.crate_name(d.krate).to_string();
        if cn != "core" && cn != "mrp" && cn != "std" && cn != "alloc" { return; }
        let n = self.name(d);
        const PFX: &[&str] = &["core::option::Option::", "core::result::Result::", "<core::option::Option", "<core::result::Result", "<core::ops::control_flow::ControlFlow", "core::ops::control_flow::ControlFlow::", "core::bool::", "mrp::", "<mrp::", "core::mem::take", "core::cmp::PartialOrd::", "core::cmp::Ordering::", "core::cmp::PartialEq::"];
        const STD: &[&str] = &["std::thread::local::LocalKey"];
        if !(PFX.iter().any(|p| n.starts_with(p)) || STD.iter().any(|p| n.starts_with(p)) || n.starts_with("core::bool") || n.contains("bool::then")) { return; }
        if !self.tcx.is_mir_available(d) { return; }
        if !matches!(self.tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Closure) { return; }
        self.seen.insert(d);
        self.queue.push_back(d);
    }
    fn konst(&mut self, env: TypingEnv<'tcx>, c: &ConstOperand<'tcx>) -> String {
        let tcx = self.tcx;
        let t = c.const_.ty();
        if let TyKind::FnDef(d, args) = t.kind() { let f = self.fnref(env, *d, args.skip_binder()); let ti = self.ty(t); return format!("{{\"k\":\"fn\",\"ty\":{},\"f\":{}}}", ti, f); }
        let ti = self.ty(t);
        let mut o = format!("{{\"k\":\"c\",\"ty\":{}", ti);
        if let mir::Const::Unevaluated(u, _) = c.const_ {
            let n = self.name(u.def);
            if let Some(p) = u.promoted { let _ = write!(o, ",\"prom\":{},\"pf\":{}", p.as_usize(), q(&n)); }
            else { let _ = write!(o, ",\"def\":{}", q(&n)); }
        }
        if let mir::Const::Ty(_, ct) = c.const_ { if let ty::ConstKind::Param(p) = ct.kind() { let _ = write!(o, ",\"param\":{}", q(p.name.as_str())); } }
        if let Some(si) = c.const_.try_eval_scalar_int(tcx, env) {
            let bits = si.to_bits_unchecked();
            let v: String = match t.kind() { TyKind::Int(_) => { let sz = si.size(); let s = sz.sign_extend(bits); s.to_string() } _ => bits.to_string() };
            let _ = write!(o, ",\"v\":{}", v);
        } else {
            let ev = c.const_.eval(tcx, env, c.span).ok().map(|v| mir::Const::Val(v, t));
            if let Some(mir::Const::Val(v, _)) = ev {
                let slicey = matches!(v, ConstValue::Slice { .. } | ConstValue::Indirect { .. }) && matches!(t.kind(), TyKind::Ref(_, i, _) if i.is_str() || matches!(i.kind(), TyKind::Slice(x) if *x == tcx.types.u8));
                if let Some(b) = slicey.then(|| v.try_get_slice_bytes_for_diagnostics(tcx)).flatten() {
                    match std::str::from_utf8(b) { Ok(s) => { let _ = write!(o, ",\"str\":{}", q(s)); } Err(_) => { let h: String = b.iter().take(1 << 20).map(|x| format!("{x:02x}")).collect(); let _ = write!(o, ",\"hex\":{}", q(&h)); } }
                } else {
                    let s = rustc_middle::ty::print::with_no_trimmed_paths!(format!("{}", mir::Const::Val(v, t)));
                    if s.len() < 2000 { let _ = write!(o, ",\"s\":{}", q(&s)); }
                }
                if let ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Ptr(p, _)) = v {
                    let id = p.provenance.alloc_id();
                    match tcx.try_get_global_alloc(id) {
                        Some(rustc_middle::mir::interpret::GlobalAlloc::Static(sd)) => { let n = self.name(sd); let _ = write!(o, ",\"static\":{}", q(&n)); }
                        Some(rustc_middle::mir::interpret::GlobalAlloc::Memory(a)) => {
                            if let TyKind::Ref(_, inner, _) = t.kind() { if let TyKind::Array(e, _) = inner.kind() { if *e == tcx.types.u8 {
                                let a = a.inner(); let n = a.len();
                                let b = a.inspect_with_uninit_and_ptr_outside_interpreter(0..n);
                                match std::str::from_utf8(b) { Ok(s) => { let _ = write!(o, ",\"str\":{}", q(s)); } Err(_) => { let h: String = b.iter().take(1 << 20).map(|x| format!("{x:02x}")).collect(); let _ = write!(o, ",\"hex\":{}", q(&h)); } }
                            } } }
                        }
                        _ => {}
                    }
                }
            } else {
                let s = rustc_middle::ty::print::with_no_trimmed_paths!(format!("{}", c.const_));
                let _ = write!(o, ",\"s\":{}", q(&s));
            }
        }
        o.push('}');
        o
    }
    fn op(&mut self, body: &Body<'tcx>, env: TypingEnv<'tcx>, x: &Operand<'tcx>) -> String {
        match x {
            Operand::Copy(p) => { let p = self.place(body, p); format!("{{\"k\":\"p\",\"p\":{p}}}") }
            Operand::Move(p) => { let p = self.place(body, p); format!("{{\"k\":\"m\",\"p\":{p}}}") }
            Operand::Constant(c) => self.konst(env, c),
            _ => "{\"k\":\"rt\"}".into(),
        }
    }
    fn rv(&mut self, body: &Body<'tcx>, env: TypingEnv<'tcx>, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, _) => { let o = self.op(body, env, o); format!("{{\"r\":\"use\",\"o\":{o}}}") }
            Rvalue::Repeat(o, n) => { let o = self.op(body, env, o); let l = n.try_to_target_usize(self.tcx).map(|v| v.to_string()).unwrap_or("null".into()); format!("{{\"r\":\"rep\",\"o\":{o},\"n\":{l}}}") }
            Rvalue::Ref(_, bk, p) => { let p = self.place(body, p); format!("{{\"r\":\"ref\",\"m\":{},\"p\":{p}}}", matches!(bk, BorrowKind::Mut { .. })) }
            Rvalue::RawPtr(k, p) => { let p = self.place(body, p); format!("{{\"r\":\"ref\",\"raw\":1,\"m\":{},\"p\":{p}}}", matches!(k, RawPtrKind::Mut)) }
            Rvalue::Reborrow(_, m, p) => { let p = self.place(body, p); format!("{{\"r\":\"use\",\"o\":{{\"k\":\"p\",\"p\":{p}}},\"rb\":{}}}", m.is_mut()) }
            Rvalue::ThreadLocalRef(d) => { let n = self.name(*d); format!("{{\"r\":\"tls\",\"d\":{}}}", q(&n)) }
            Rvalue::Cast(k, o, t) => { let o = self.op(body, env, o); let t = self.ty(*t); let ks = format!("{k:?}"); format!("{{\"r\":\"cast\",\"ck\":{},\"o\":{o},\"ty\":{t}}}", q(&ks.chars().take(60).collect::<String>())) }
            Rvalue::BinaryOp(b, ops) => { let x = self.op(body, env, &ops.0); let y = self.op(body, env, &ops.1); format!("{{\"r\":\"bin\",\"op\":\"{b:?}\",\"a\":{x},\"b\":{y}}}") }
            Rvalue::UnaryOp(u, o) => { let o = self.op(body, env, o); format!("{{\"r\":\"un\",\"op\":\"{u:?}\",\"o\":{o}}}") }
            Rvalue::Discriminant(p) => { let t = p.ty(body, self.tcx).ty; let t = self.ty(t); let p = self.place(body, p); format!("{{\"r\":\"discr\",\"p\":{p},\"ty\":{t}}}") }
            Rvalue::Aggregate(k, ops) => {
                let os: Vec<String> = ops.iter().map(|o| self.op(body, env, o)).collect();
                let ks = match &**k {
                    AggregateKind::Array(_) => "\"ak\":\"array\"".to_string(),
                    AggregateKind::Tuple => "\"ak\":\"tuple\"".to_string(),
                    AggregateKind::Adt(d, v, args, _, fi) => {
                        let n = self.name(*d);
                        let t = Ty::new_adt(self.tcx, self.tcx.adt_def(*d), args); let t = self.ty(t);
                        let vd = self.tcx.adt_def(*d).variant(*v);
                        let fs: Vec<String> = match fi { Some(i) => vec![q(vd.fields[*i].name.as_str())], None => vd.fields.iter().map(|f| q(f.name.as_str())).collect() };
                        format!("\"ak\":\"adt\",\"d\":{},\"v\":{},\"vn\":{},\"fs\":[{}],\"ty\":{}", q(&n), v.as_usize(), q(vd.name.as_str()), fs.join(","), t)
                    }
                    AggregateKind::Closure(d, _) => { let n = self.name(*d); format!("\"ak\":\"closure\",\"d\":{}", q(&n)) }
                    AggregateKind::RawPtr(..) => "\"ak\":\"rawptr\"".to_string(),
                    _ => "\"ak\":\"other\"".to_string(),
                };
                format!("{{\"r\":\"agg\",{ks},\"os\":[{}]}}", os.join(","))
            }
            Rvalue::CopyForDeref(p) => { let p = self.place(body, p); format!("{{\"r\":\"use\",\"o\":{{\"k\":\"p\",\"p\":{p}}}}}") }
            Rvalue::WrapUnsafeBinder(o, _) => { let o = self.op(body, env, o); format!("{{\"r\":\"use\",\"o\":{o}}}") }
        }
    }
    fn body(&mut self, d: DefId, body: &Body<'tcx>, name: &str, promoted: bool, out: &mut Vec<String>) {
        let tcx = self.tcx;
        let env = TypingEnv::post_analysis(tcx, d);
        let (file, line) = self.line(body.span);
        let mut o = String::new();
        let kind = if promoted { "promoted".to_string() } else { format!("{:?}", tcx.def_kind(d)) };
        let _ = write!(o, "{{\"t\":\"fn\",\"n\":{},\"k\":{},\"file\":{},\"line\":{},\"args\":{}", q(name), q(&kind), q(&file), line, body.arg_count);
        if !promoted {
            if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
                let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip().skip_binder();
                let _ = write!(o, ",\"abi\":{},\"unsafe\":{}", q(&format!("{:?}", sig.abi())), !sig.safety().is_safe());
                let vis = tcx.visibility(d).is_public();
                let _ = write!(o, ",\"pub\":{}", vis);
                if let Some(im) = tcx.impl_of_assoc(d) {
                    let st = tcx.type_of(im).instantiate_identity().skip_norm_wip(); let st = self.ty(st);
                    let _ = write!(o, ",\"self\":{}", st);
                    if tcx.impl_is_of_trait(im) { let tr = tcx.impl_trait_id(im); let tn = self.name(tr); let _ = write!(o, ",\"trait\":{}", q(&tn)); 
                        if tcx.is_automatically_derived(im) { o.push_str(",\"derived\":1"); }
                    }
                }
                let mut gs = Vec::new();
                let mut g = Some(tcx.generics_of(d));
                while let Some(x) = g { for p in x.own_params.iter().rev() { if matches!(p.kind, ty::GenericParamDefKind::Type { .. }) { gs.push(q(p.name.as_str())); } } g = x.parent.map(|p| tcx.generics_of(p)); }
                gs.reverse();
                let _ = write!(o, ",\"g\":[{}]", gs.join(","));
                // index of each type param among all generic params (lifetimes excluded list position)
                let mut gi = Vec::new();
                let mut g = Some(tcx.generics_of(d));
                while let Some(x) = g { for p in x.own_params.iter().rev() { if matches!(p.kind, ty::GenericParamDefKind::Type { .. }) { gi.push(p.index.to_string()); } } g = x.parent.map(|p| tcx.generics_of(p)); }
                gi.reverse();
                let _ = write!(o, ",\"gi\":[{}]", gi.join(","));
            }
            if matches!(tcx.def_kind(d), DefKind::Closure) {
                let root = tcx.typeck_root_def_id(d);
                let rn = self.name(root);
                let _ = write!(o, ",\"root\":{}", q(&rn));
                let mut gi = Vec::new();
                let mut g = Some(tcx.generics_of(root));
                while let Some(x) = g { for p in x.own_params.iter().rev() { if matches!(p.kind, ty::GenericParamDefKind::Type { .. }) { gi.push(p.index.to_string()); } } g = x.parent.map(|p| tcx.generics_of(p)); }
                gi.reverse();
                let _ = write!(o, ",\"gi\":[{}]", gi.join(","));
            }
        }
        // locals
        let ls: Vec<String> = body.local_decls.iter().map(|l| self.ty(l.ty).to_string()).collect();
        let _ = write!(o, ",\"l\":[{}]", ls.join(","));
        let mut vs = Vec::new();
        for v in &body.var_debug_info { if let VarDebugInfoContents::Place(p) = v.value { let pl = self.place(body, &p); vs.push(format!("[{},{}]", q(v.name.as_str()), pl)); } }
        let _ = write!(o, ",\"vars\":[{}]", vs.join(","));
        o.push_str(",\"b\":[");
        for (bi, bb) in body.basic_blocks.iter().enumerate() {
            if bi > 0 { o.push(','); }
            o.push_str("{\"s\":[");
            let mut first = true;
            for s in &bb.statements {
                let txt = match &s.kind {
                    StatementKind::Assign(b) => { let p = self.place(body, &b.0); let r = self.rv(body, env, &b.1); let (_, l) = self.line(s.source_info.span); format!("[{},{},{}]", p, r, l) }
                    StatementKind::SetDiscriminant { place, variant_index } => { let p = self.place(body, place); format!("[{},{{\"r\":\"setd\",\"v\":{}}},0]", p, variant_index.as_usize()) }
                    StatementKind::StorageDead(l) => format!("[[{}],{{\"r\":\"dead\"}},0]", l.as_usize()),
                    StatementKind::Intrinsic(i) => { if let NonDivergingIntrinsic::CopyNonOverlapping(c) = &**i { let a = self.op(body, env, &c.src); let b_ = self.op(body, env, &c.dst); format!("[[0],{{\"r\":\"cpy\",\"a\":{a},\"b\":{b_}}},0]") } else { continue } }
                    _ => continue,
                };
                if !first { o.push(','); }
                first = false;
                o.push_str(&txt);
            }
            let term = bb.terminator();
            let (_, tl) = self.line(term.source_info.span);
            let uw = |u: &UnwindAction| match u { UnwindAction::Cleanup(b) => b.as_usize().to_string(), _ => "null".to_string() };
            let t = match &term.kind {
                TerminatorKind::Goto { target, .. } => format!("{{\"k\":\"goto\",\"t\":{}", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dt = discr.ty(body, tcx); let dti = self.ty(dt);
                    let d_ = self.op(body, env, discr);
                    let sz = dt.is_signed().then(|| tcx.layout_of(env.as_query_input(dt)).map(|l| l.size).ok()).flatten();
                    let ts: Vec<String> = targets.iter().map(|(v, b)| { let vs = match sz { Some(s) => s.sign_extend(v).to_string(), None => v.to_string() }; format!("[{},{}]", vs, b.as_usize()) }).collect();
                    format!("{{\"k\":\"switch\",\"d\":{},\"ty\":{},\"ts\":[{}],\"o\":{}", d_, dti, ts.join(","), targets.otherwise().as_usize())
                }
                TerminatorKind::UnwindResume => "{\"k\":\"resume\"".into(),
                TerminatorKind::UnwindTerminate(_) => "{\"k\":\"abort\"".into(),
                TerminatorKind::Return => "{\"k\":\"ret\"".into(),
                TerminatorKind::Unreachable => "{\"k\":\"unreach\"".into(),
                TerminatorKind::Drop { place, target, unwind, .. } => { let t = place.ty(body, tcx).ty; let ti = self.ty(t); let p = self.place(body, place); format!("{{\"k\":\"drop\",\"p\":{},\"ty\":{},\"t\":{},\"u\":{}", p, ti, target.as_usize(), uw(unwind)) }
                TerminatorKind::Call { func, args, destination, target, unwind, call_source, .. } => {
                    let f = self.op(body, env, func);
                    let a: Vec<String> = args.iter().map(|a| self.op(body, env, &a.node)).collect();
                    let d_ = self.place(body, destination);
                    format!("{{\"k\":\"call\",\"f\":{},\"a\":[{}],\"d\":{},\"t\":{},\"u\":{},\"ovl\":{},\"exp\":{}", f, a.join(","), d_, target.map(|t| t.as_usize().to_string()).unwrap_or("null".into()), uw(unwind), !matches!(call_source, CallSource::Normal), term.source_info.span.from_expansion())
                }
                TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                    let c = self.op(body, env, cond);
                    let (mk, ops): (String, Vec<String>) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => ("bounds".into(), vec![self.op(body, env, len), self.op(body, env, index)]),
                        AssertKind::Overflow(b, x, y) => (format!("overflow:{b:?}"), vec![self.op(body, env, x), self.op(body, env, y)]),
                        AssertKind::OverflowNeg(x) => ("overflow:Neg".into(), vec![self.op(body, env, x)]),
                        AssertKind::DivisionByZero(x) => ("div0".into(), vec![self.op(body, env, x)]),
                        AssertKind::RemainderByZero(x) => ("rem0".into(), vec![self.op(body, env, x)]),
                        _ => ("other".into(), vec![]),
                    };
                    format!("{{\"k\":\"assert\",\"c\":{},\"e\":{},\"m\":{},\"ops\":[{}],\"t\":{},\"u\":{}", c, expected, q(&mk), ops.join(","), target.as_usize(), uw(unwind))
                }
                TerminatorKind::FalseEdge { real_target, .. } => format!("{{\"k\":\"goto\",\"t\":{}", real_target.as_usize()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("{{\"k\":\"goto\",\"t\":{}", real_target.as_usize()),
                TerminatorKind::InlineAsm { targets, .. } => format!("{{\"k\":\"goto\",\"t\":{}", targets.first().map(|b| b.as_usize()).unwrap_or(0)),
                _ => "{\"k\":\"other\"".into(),
            };
            let _ = write!(o, "],\"t\":{},\"line\":{}}},\"c\":{}}}", t, tl, bb.is_cleanup);
        }
        o.push_str("]}");
        out.push(o);
    }
    fn drain(&mut self, out: &mut Vec<String>) {
        let tcx = self.tcx;
        loop {
            if let Some(d) = self.queue.pop_front() {
                let n = self.name(d);
                let b = tcx.optimized_mir(d);
                self.body(d, b, &n, false, out);
                for (i, pb) in tcx.promoted_mir(d).iter().enumerate() { let pn = format!("{n}::{{promoted#{i}}}"); self.body(d, pb, &pn, true, out); }
            } else if let Some(d) = self.adt_q.pop_front() {
                let a = tcx.adt_def(d);
                let n = self.name(d);
                let mut o = format!("{{\"t\":\"adt\",\"n\":{},\"k\":\"{}\",\"repr\":{},\"local\":{},\"vs\":[", q(&n), if a.is_enum() { "enum" } else if a.is_union() { "union" } else { "struct" }, q(&format!("{:?}", a.repr().int)), d.is_local());
                let discrs: Vec<String> = if a.is_enum() { a.discriminants(tcx).map(|(_, x)| if matches!(x.ty.kind(), TyKind::Int(_)) { let sz = tcx.layout_of(TypingEnv::fully_monomorphized().as_query_input(x.ty)).unwrap().size; sz.sign_extend(x.val).to_string() } else { x.val.to_string() }).collect() } else { vec!["0".into()] };
                for (vi, v) in a.variants().iter().enumerate() {
                    if vi > 0 { o.push(','); }
                    let fs: Vec<String> = v.fields.iter().map(|f| { let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip(); let ti = self.ty(t); format!("[{},{},{}]", q(f.name.as_str()), ti, f.vis.is_public()) }).collect();
                    let _ = write!(o, "[{},{},[{}]]", q(v.name.as_str()), discrs.get(vi).cloned().unwrap_or("0".into()), fs.join(","));
                }
                let (file, line) = if d.is_local() { self.line(tcx.def_span(d)) } else { (String::new(), 0) };
                let _ = write!(o, "],\"file\":{},\"line\":{}}}", q(&file), line);
                out.push(o);
            } else { break; }
        }
    }
}

struct Cb;
impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let krate = tcx.crate_name(LOCAL_CRATE).to_string();
        let wanted = std::env::var("MIRFACTS_CRATES").unwrap_or_default();
        if !wanted.split(',').any(|c| c == krate) { return Compilation::Continue; }
        let dir = std::env::var("MIRFACTS_OUT").expect("MIRFACTS_OUT");
        let mut cx = Cx { tcx, tys: HashMap::new(), ty_out: vec![], names: HashMap::new(), queue: VecDeque::new(), seen: HashSet::new(), adts: HashSet::new(), adt_q: VecDeque::new() };
        let mut out: Vec<String> = Vec::new();
        for ld in tcx.mir_keys(()).iter() {
            let d = ld.to_def_id();
            let n = cx.name(d);
            match tcx.def_kind(d) {
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {
                    if tcx.is_coroutine(d) { continue; }
                    let b = tcx.optimized_mir(d);
                    cx.body(d, b, &n, false, &mut out);
                    for (i, pb) in tcx.promoted_mir(d).iter().enumerate() { let pn = format!("{n}::{{promoted#{i}}}"); cx.body(d, pb, &pn, true, &mut out); }
                }
                DefKind::Static { .. } | DefKind::Const { .. } | DefKind::AssocConst { .. } => {
                    // constants and statics: record their value for tables
                    let b = tcx.mir_for_ctfe(d);
                    cx.body(d, b, &n, false, &mut out);
                    // the compiler's own evaluation of plain byte tables
                    let al = if matches!(tcx.def_kind(d), DefKind::Static { .. }) { tcx.eval_static_initializer(d).ok() }
                        else if tcx.generics_of(d).is_empty() { match tcx.const_eval_poly(d) { Ok(ConstValue::Indirect { alloc_id, .. }) => match tcx.try_get_global_alloc(alloc_id) { Some(rustc_middle::mir::interpret::GlobalAlloc::Memory(a)) => Some(a), _ => None }, _ => None } }
                        else { None };
                    if let Some(a) = al {
                        let a = a.inner(); let n2 = a.len();
                        if n2 <= 4096 && a.provenance().ptrs().is_empty() {
                            let b = a.inspect_with_uninit_and_ptr_outside_interpreter(0..n2);
                            let h: String = b.iter().map(|x| format!("{x:02x}")).collect();
                            out.push(format!("{{\"t\":\"data\",\"n\":{},\"hex\":{}}}", q(&n), q(&h)));
                        }
                    }
                    for (i, pb) in tcx.promoted_mir(d).iter().enumerate() { let pn = format!("{n}::{{promoted#{i}}}"); cx.body(d, pb, &pn, true, &mut out); }
                }
                _ => {}
            }
        }
        // trait impls
        for (tr, impls) in tcx.all_local_trait_impls(()).iter() {
            let tn = cx.name(*tr);
            for im in impls {
                let d = im.to_def_id();
                let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let si = cx.ty(st);
                let (file, line) = cx.line(tcx.def_span(d));
                let mut items = Vec::new();
                for it in tcx.associated_items(d).in_definition_order() { let n = cx.name(it.def_id); let tid = it.trait_item_def_id().map(|t| cx.name(t)).unwrap_or_default(); items.push(format!("[{},{}]", q(&n), q(&tid))); }
                let preds: Vec<String> = tcx.param_env(d).caller_bounds().map(|p| q(&format!("{:?}", p))).collect();
                out.push(format!("{{\"t\":\"impl\",\"tr\":{},\"preds\":[{}],\"self\":{},\"derived\":{},\"items\":[{}],\"file\":{},\"line\":{}}}", q(&tn), preds.join(","), si, tcx.is_automatically_derived(d), items.join(","), q(&file), line));
            }
        }
        cx.drain(&mut out);
        let path = format!("{dir}/{krate}.jsonl");
        let mut f = std::io::BufWriter::new(std::fs::File::create(format!("{path}.tmp")).expect("create facts"));
        for t in &cx.ty_out { writeln!(f, "{t}").unwrap(); }
        for l in &out { writeln!(f, "{l}").unwrap(); }
        writeln!(f, "{{\"t\":\"end\",\"fns\":{}}}", out.len()).unwrap();
        f.flush().unwrap();
        drop(f);
        std::fs::rename(format!("{path}.tmp"), path).expect("rename facts");
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    // as RUSTC_WORKSPACE_WRAPPER: argv = [self, rustc, args...]
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) { args.remove(1); }
    args.push("-Zmir-opt-level=0".into());
    args.push("-Zinline-mir=no".into());
    args.push("-Awarnings".into());
    rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb))
}
