// MIR exporter: a rustc driver that runs as RUSTC_WORKSPACE_WRAPPER under `cargo +nightly check`.
// For the crate named by NMEA_MIR_CRATE it writes the monomorphised MIR of every function
// reachable from the crate's non-generic functions (crate bodies, plus generic bodies of
// `core`/`alloc` that are available as MIR) to the file named by NMEA_MIR_OUT, as JSON.
#![feature(rustc_private)]
#![allow(unused)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;
extern crate rustc_trait_selection;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::*;
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::ty::{self, Instance, InstanceKind, Ty, TyCtxt, TypingEnv};
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_span::Span;
use std::collections::HashMap;
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr(v: &[String]) -> String { format!("[{}]", v.join(",")) }

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
    types: Vec<String>,
    type_ids: HashMap<Ty<'tcx>, usize>,
    insts: HashMap<Instance<'tcx>, usize>,
    queue: Vec<Instance<'tcx>>,
    bodies: Vec<String>,
}

fn stable_path(tcx: TyCtxt<'_>, d: DefId) -> String {
    format!("{}{}", tcx.crate_name(d.krate), tcx.def_path(d).to_string_no_crate_verbose())
}
fn pretty(tcx: TyCtxt<'_>, d: DefId) -> String { with_no_trimmed_paths!(tcx.def_path_str(d)) }

impl<'tcx> Cx<'tcx> {
    fn descend(&self, d: DefId) -> bool {
        if d.is_local() { return true; }
        let p = stable_path(self.tcx, d);
        const ALLOW: &[&str] = &["core::option", "core::result", "core::ops", "core::convert", "core::cmp",
            "core::bool", "core::mem", "core::clone", "core::default", "core::iter", "core::tuple",
            "core::num", "core::char", "core::array", "core::borrow", "core::range", "core::any",
            "core::ascii", "core::slice::{impl", "alloc::borrow", "core::hint"];
        ALLOW.iter().any(|a| p.starts_with(a))
    }

    fn inst_id(&mut self, i: Instance<'tcx>) -> usize {
        if let Some(&k) = self.insts.get(&i) { return k; }
        let k = self.insts.len();
        self.insts.insert(i, k);
        self.queue.push(i);
        k
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(&i) = self.type_ids.get(&t) { return i; }
        let id = self.types.len();
        self.type_ids.insert(t, id);
        self.types.push(String::new());
        let tcx = self.tcx;
        let name = with_no_trimmed_paths!(format!("{}", t));
        let mut s = format!("{{\"id\":{},\"s\":{}", id, esc(&name));
        match t.kind() {
            ty::Bool => s += ",\"k\":\"bool\"",
            ty::Char => s += ",\"k\":\"char\"",
            ty::Int(i) => { let _ = write!(s, ",\"k\":\"int\",\"w\":{},\"sg\":true", i.bit_width().unwrap_or(64)); }
            ty::Uint(i) => { let _ = write!(s, ",\"k\":\"int\",\"w\":{},\"sg\":false", i.bit_width().unwrap_or(64)); }
            ty::Float(f) => { let _ = write!(s, ",\"k\":\"float\",\"w\":{}", f.bit_width()); }
            ty::Str => s += ",\"k\":\"str\"",
            ty::Never => s += ",\"k\":\"never\"",
            ty::Slice(e) => { let e = self.ty(*e); let _ = write!(s, ",\"k\":\"slice\",\"e\":{}", e); }
            ty::Array(e, n) => {
                let e = self.ty(*e);
                let n = n.try_to_target_usize(tcx).map(|x| x as i64).unwrap_or(-1);
                let _ = write!(s, ",\"k\":\"array\",\"e\":{},\"n\":{}", e, n);
            }
            ty::Ref(_, e, m) => {
                let e = self.ty(*e);
                let _ = write!(s, ",\"k\":\"ref\",\"e\":{},\"mut\":{}", e, m.is_mut());
            }
            ty::RawPtr(e, m) => {
                let e = self.ty(*e);
                let _ = write!(s, ",\"k\":\"ptr\",\"e\":{},\"mut\":{}", e, m.is_mut());
            }
            ty::Tuple(es) => {
                let v: Vec<String> = es.iter().map(|e| self.ty(e).to_string()).collect();
                let _ = write!(s, ",\"k\":\"tuple\",\"es\":{}", arr(&v));
            }
            ty::Adt(def, args) => {
                let path = pretty(tcx, def.did());
                let local = def.did().is_local();
                let krate = tcx.crate_name(def.did().krate).to_string();
                let targs: Vec<String> = args.types().map(|e| self.ty(e).to_string()).collect();
                let kind = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
                let mut vs = vec![];
                if local || krate == "core" || def.is_enum() {
                    for (vi, v) in def.variants().iter_enumerated() {
                        let d = if def.is_enum() {
                            format!("{}", def.discriminant_for_variant(tcx, vi).val as i128)
                        } else { "0".into() };
                        let mut fs = vec![];
                        for f in v.fields.iter() {
                            let ft = f.ty(tcx, args).skip_norm_wip();
                            let ft = tcx.try_normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(ft)).unwrap_or(ft);
                            fs.push(format!("{{\"n\":{},\"t\":{}}}", esc(f.name.as_str()), self.ty(ft)));
                        }
                        vs.push(format!("{{\"n\":{},\"d\":{},\"f\":{}}}", esc(v.name.as_str()), d, arr(&fs)));
                    }
                }
                let _ = write!(s, ",\"k\":\"adt\",\"path\":{},\"kind\":\"{}\",\"local\":{},\"crate\":{},\"args\":{},\"vs\":{}",
                               esc(&path), kind, local, esc(&krate), arr(&targs), arr(&vs));
            }
            ty::Closure(d, args) => {
                let ups: Vec<String> = args.as_closure().upvar_tys().iter().map(|e| self.ty(e).to_string()).collect();
                let inst = Instance { def: InstanceKind::Item(*d), args };
                let kind = format!("{:?}", args.as_closure().kind());
                let body = self.inst_id(inst);
                let _ = write!(s, ",\"k\":\"closure\",\"ups\":{},\"ck\":{},\"body\":{}", arr(&ups), esc(&kind), body);
            }
            ty::FnDef(d, args) => {
                let a = self.tcx.erase_and_anonymize_regions(*args); let j = self.callee(*d, a.no_bound_vars().expect("bound vars"));
                let _ = write!(s, ",\"k\":\"fndef\",\"f\":{}", j);
            }
            ty::FnPtr(..) => s += ",\"k\":\"fnptr\"",
            ty::Dynamic(..) => s += ",\"k\":\"dyn\"",
            _ => s += ",\"k\":\"other\"",
        }
        s.push('}');
        self.types[id] = s;
        id
    }

    fn callee(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let mut s = format!("{{\"path\":{},\"sp\":{},\"crate\":{}", esc(&pretty(tcx, d)), esc(&stable_path(tcx, d)),
                            esc(tcx.crate_name(d.krate).as_str()));
        let targs: Vec<String> = args.types().map(|e| self.ty(e).to_string()).collect();
        let _ = write!(s, ",\"args\":{}", arr(&targs));
        let _ = write!(s, ",\"name\":{}", esc(tcx.opt_item_name(d).map(|x| x.to_string()).unwrap_or_default().as_str()));
        let kind = tcx.def_kind(d);
        if let Some(tr) = tcx.trait_of_assoc(d) {
            let _ = write!(s, ",\"trait\":{}", esc(&pretty(tcx, tr)));
        }
        if tcx.intrinsic(d).is_some() { s += ",\"intrinsic\":true"; }
        if matches!(kind, DefKind::Ctor(..)) {
            // tuple struct / variant constructor
            let _ = write!(s, ",\"ctor\":true");
        }
        match Instance::try_resolve(tcx, self.env, d, args) {
            Ok(Some(i)) => {
                match i.def {
                    InstanceKind::Item(rd) | InstanceKind::Intrinsic(rd) => {
                        let _ = write!(s, ",\"rpath\":{},\"rsp\":{},\"rcrate\":{},\"rkind\":\"item\"",
                            esc(&pretty(tcx, rd)), esc(&stable_path(tcx, rd)), esc(tcx.crate_name(rd.krate).as_str()));
                        if tcx.codegen_fn_attrs(rd).flags.contains(rustc_middle::middle::codegen_fn_attrs::CodegenFnAttrFlags::TRACK_CALLER) {
                            s += ",\"track_caller\":true";
                        }
                        let has = matches!(i.def, InstanceKind::Item(_)) && tcx.is_mir_available(rd) && self.descend(rd)
                            && !matches!(kind, DefKind::Ctor(..));
                        if has { let k = self.inst_id(i); let _ = write!(s, ",\"body\":{}", k); }
                        if matches!(kind, DefKind::Ctor(..)) { let k = self.inst_id(i); let _ = write!(s, ",\"body\":{}", k); }
                    }
                    InstanceKind::Virtual(..) => s += ",\"rkind\":\"virtual\"",
                    InstanceKind::Shim(sk) => {
                        let n = format!("{:?}", sk);
                        let n = n.split('(').next().unwrap().split(' ').next().unwrap().to_string();
                        let _ = write!(s, ",\"rkind\":\"shim\",\"shim\":{}", esc(&n));
                        match sk {
                            ty::ShimKind::ClosureOnce { .. } | ty::ShimKind::FnPtr(..) => {
                                let k = self.inst_id(i); let _ = write!(s, ",\"body\":{}", k);
                            }
                            _ => {}
                        }
                    }
                    _ => s += ",\"rkind\":\"other\"",
                }
            }
            _ => s += ",\"rkind\":\"unresolved\"",
        }
        s.push('}');
        s
    }

    fn scalar_json(&mut self, sc: rustc_middle::ty::ScalarInt, t: Ty<'tcx>) -> String {
        let bits = sc.to_bits_unchecked();
        let tid = self.ty(t);
        format!("{{\"c\":\"int\",\"t\":{},\"v\":{}}}", tid, bits)
    }

    fn const_val(&mut self, v: ConstValue, t: Ty<'tcx>, depth: usize) -> String {
        let tcx = self.tcx;
        let tid = self.ty(t);
        if depth > 8 { return format!("{{\"c\":\"unk\",\"t\":{}}}", tid); }
        match t.kind() {
            ty::FnDef(d, a) => return format!("{{\"c\":\"fn\",\"t\":{}}}", tid),
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) => {
                if let Some(si) = v.try_to_scalar_int() { return self.scalar_json(si, t); }
                if let ConstValue::Indirect { alloc_id, offset } = v {
                    if let GlobalAlloc::Memory(a) = tcx.global_alloc(alloc_id) {
                        if let Ok(l) = tcx.layout_of(self.env.as_query_input(t)) {
                            let r = rustc_middle::mir::interpret::AllocRange { start: offset, size: l.size };
                            if let Ok(sc) = a.inner().read_scalar(&tcx, r, false) {
                                if let Ok(si) = sc.try_to_scalar_int() { return self.scalar_json(si, t); }
                            }
                        }
                    }
                }
            }
            ty::Ref(_, e, _) | ty::RawPtr(e, _) => {
                match e.kind() {
                    ty::Str => {
                        if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                            return format!("{{\"c\":\"str\",\"t\":{},\"v\":{}}}", tid, esc(&String::from_utf8_lossy(b)));
                        }
                    }
                    ty::Slice(el) => {
                        // locate (alloc, offset, len)
                        let loc = match v {
                            ConstValue::Slice { alloc_id, meta } => Some((alloc_id, rustc_abi::Size::ZERO, meta)),
                            ConstValue::Indirect { alloc_id, offset } => {
                                if let GlobalAlloc::Memory(a) = tcx.global_alloc(alloc_id) {
                                    let ps = tcx.data_layout.pointer_size();
                                    let r1 = rustc_middle::mir::interpret::AllocRange { start: offset, size: ps };
                                    let r2 = rustc_middle::mir::interpret::AllocRange { start: offset + ps, size: ps };
                                    let p = a.inner().read_scalar(&tcx, r1, true).ok();
                                    let n = a.inner().read_scalar(&tcx, r2, false).ok();
                                    match (p, n) {
                                        (Some(Scalar::Ptr(p, _)), Some(n)) => {
                                            let (prov, off) = p.into_raw_parts();
                                            n.to_target_usize(&tcx).discard_err().map(|n| (prov.alloc_id(), off, n))
                                        }
                                        _ => None,
                                    }
                                } else { None }
                            }
                            _ => None,
                        };
                        if let Some((aid, off, n)) = loc {
                            if let Ok(l) = tcx.layout_of(self.env.as_query_input(*el)) {
                                let mut vs = vec![];
                                for i in 0..n.min(4096) {
                                    vs.push(self.const_val(ConstValue::Indirect { alloc_id: aid, offset: off + l.size * i }, *el, depth + 1));
                                }
                                return format!("{{\"c\":\"ref\",\"t\":{},\"v\":{{\"c\":\"seq\",\"t\":{},\"v\":{}}}}}", tid, self.ty(*e), arr(&vs));
                            }
                        }
                    }
                    _ => {
                        let p = match v {
                            ConstValue::Scalar(Scalar::Ptr(p, _)) => Some(p),
                            ConstValue::Indirect { alloc_id, offset } => {
                                if let GlobalAlloc::Memory(a) = tcx.global_alloc(alloc_id) {
                                    let ps = tcx.data_layout.pointer_size();
                                    let r1 = rustc_middle::mir::interpret::AllocRange { start: offset, size: ps };
                                    match a.inner().read_scalar(&tcx, r1, true) { Ok(Scalar::Ptr(p, _)) => Some(p), _ => None }
                                } else { None }
                            }
                            _ => None,
                        };
                        if let Some(p) = p {
                            let (prov, off) = p.into_raw_parts();
                            let aid = prov.alloc_id();
                            match tcx.global_alloc(aid) {
                                GlobalAlloc::Memory(_) => {
                                    let inner = self.const_val(ConstValue::Indirect { alloc_id: aid, offset: off }, *e, depth + 1);
                                    return format!("{{\"c\":\"ref\",\"t\":{},\"v\":{}}}", tid, inner);
                                }
                                GlobalAlloc::Static(d) => {
                                    let tm = tcx.is_mutable_static(d);
                                    let fr = e.is_freeze(tcx, self.env);
                                    let mut inner = "null".to_string();
                                    if d.is_local() && !tm && fr {
                                        if let Ok(a) = tcx.eval_static_initializer(d) {
                                            let aid2 = tcx.reserve_and_set_memory_alloc(a);
                                            inner = self.const_val(ConstValue::Indirect { alloc_id: aid2, offset: off }, *e, depth + 1);
                                        }
                                    }
                                    let init = if d.is_local() && !tm && !tcx.is_thread_local_static(d) { self.inst_id(Instance::mono(tcx, d)).to_string() } else { "null".to_string() };
                                    let et = self.ty(*e);
                                    return format!("{{\"c\":\"static\",\"t\":{},\"path\":{},\"mut\":{},\"freeze\":{},\"et\":{},\"init\":{},\"v\":{}}}",
                                        tid, esc(&pretty(tcx, d)), tm, fr, et, init, inner);
                                }
                                _ => {}
                            }
                        }
                    }
                }
            }
            ty::Adt(..) | ty::Tuple(..) | ty::Array(..) => {
                if let ty::Adt(def, _) = t.kind() {
                    if def.is_union() { return format!("{{\"c\":\"unk\",\"t\":{}}}", tid); }
                }
                if let Some(d) = tcx.try_destructure_mir_constant_for_user_output(v, t) {
                    let vi = d.variant.map(|x| x.as_u32() as i64).unwrap_or(0);
                    let fs: Vec<String> = d.fields.iter().map(|(v, t)| self.const_val(*v, *t, depth + 1)).collect();
                    let c = if matches!(t.kind(), ty::Adt(..)) { "adt" } else { "seq" };
                    return format!("{{\"c\":\"{}\",\"t\":{},\"vi\":{},\"v\":{}}}", c, tid, vi, arr(&fs));
                }
            }
            ty::Closure(..) => { return format!("{{\"c\":\"adt\",\"t\":{},\"vi\":0,\"v\":[]}}", tid); }
            ty::FnPtr(..) => {
                let p = match v {
                    ConstValue::Scalar(Scalar::Ptr(p, _)) => Some(p),
                    ConstValue::Indirect { alloc_id, offset } => {
                        if let GlobalAlloc::Memory(a) = tcx.global_alloc(alloc_id) {
                            let ps = tcx.data_layout.pointer_size();
                            let r1 = rustc_middle::mir::interpret::AllocRange { start: offset, size: ps };
                            match a.inner().read_scalar(&tcx, r1, true) { Ok(Scalar::Ptr(p, _)) => Some(p), _ => None }
                        } else { None }
                    }
                    _ => None,
                };
                if let Some(p) = p {
                    let (prov, _) = p.into_raw_parts();
                    if let GlobalAlloc::Function { instance } = tcx.global_alloc(prov.alloc_id()) {
                        if let InstanceKind::Item(d) = instance.def {
                            if tcx.is_closure_like(d) {
                                let ct = self.ty(Ty::new_closure(tcx, d, instance.args));
                                return format!("{{\"c\":\"adt\",\"t\":{},\"vi\":0,\"v\":[]}}", ct);
                            }
                            let ft = self.ty(Ty::new_fn_def(tcx, d, ty::Binder::dummy(instance.args)));
                            return format!("{{\"c\":\"fn\",\"t\":{}}}", ft);
                        }
                    }
                }
            }
            _ => {}
        }
        format!("{{\"c\":\"unk\",\"t\":{}}}", tid)
    }

    fn place(&mut self, p: &Place<'tcx>) -> String {
        let mut v = vec![];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => "\"*\"".into(),
                ProjectionElem::Field(f, t) => format!("[\"f\",{},{}]", f.as_u32(), self.ty(t)),
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_u32()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => format!("[\"ci\",{},{}]", offset, from_end),
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"ss\",{},{},{}]", from, to, from_end),
                ProjectionElem::Downcast(_, vi) => format!("[\"d\",{}]", vi.as_u32()),
                _ => "\"?\"".into(),
            });
        }
        format!("[{},{}]", p.local.as_u32(), arr(&v))
    }
    fn operand(&mut self, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(p)),
            Operand::Constant(c) => {
                let t = c.const_.ty();
                let tid = self.ty(t);
                match c.const_.eval(self.tcx, self.env, c.span) {
                    Ok(v) => format!("[\"k\",{}]", self.const_val(v, t, 0)),
                    Err(_) => format!("[\"k\",{{\"c\":\"unk\",\"t\":{}}}]", tid),
                }
            }
            Operand::RuntimeChecks(k) => format!("[\"rc\",{}]", esc(&format!("{:?}", k))),
        }
    }
    fn rvalue(&mut self, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.operand(o)),
            Rvalue::Repeat(o, n) => {
                let n = n.try_to_target_usize(self.tcx).map(|x| x as i64).unwrap_or(-1);
                format!("[\"repeat\",{},{}]", self.operand(o), n)
            }
            Rvalue::Ref(_, k, p) => format!("[\"ref\",{},{}]", self.place(p), !matches!(k, BorrowKind::Shared)),
            Rvalue::Reborrow(_, m, p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
            Rvalue::RawPtr(_, p) => format!("[\"ref\",{},true]", self.place(p)),
            Rvalue::Cast(k, o, t) => {
                let ks = format!("{:?}", k);
                format!("[\"cast\",{},{},{}]", esc(&ks), self.operand(o), self.ty(*t))
            }
            Rvalue::BinaryOp(op, b) => format!("[\"bin\",\"{:?}\",{},{}]", op, self.operand(&b.0), self.operand(&b.1)),
            Rvalue::UnaryOp(op, o) => format!("[\"un\",\"{:?}\",{}]", op, self.operand(o)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let v: Vec<String> = ops.iter().map(|o| self.operand(o)).collect();
                let v = arr(&v);
                match &**k {
                    AggregateKind::Array(t) => format!("[\"agg\",\"array\",{},0,{}]", self.ty(*t), v),
                    AggregateKind::Tuple => format!("[\"agg\",\"tuple\",null,0,{}]", v),
                    AggregateKind::Adt(d, vi, a, _, af) => {
                        let t = self.tcx.type_of(*d).instantiate(self.tcx, a).skip_norm_wip();
                        let t = self.tcx.try_normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(t)).unwrap_or(t);
                        format!("[\"agg\",\"adt\",{},{},{}]", self.ty(t), vi.as_u32(), v)
                    }
                    AggregateKind::Closure(d, a) => {
                        let t = Ty::new_closure(self.tcx, *d, a);
                        format!("[\"agg\",\"closure\",{},0,{}]", self.ty(t), v)
                    }
                    _ => format!("[\"agg\",\"other\",null,0,{}]", v),
                }
            }
            _ => format!("[\"unk\",{}]", esc(&format!("{:?}", r))),
        }
    }
    fn span(&self, sp: Span) -> (String, usize) {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(sp.lo());
        (format!("{}", lo.file.name.prefer_local_unconditionally()), lo.line)
    }

    fn body(&mut self, i: Instance<'tcx>, id: usize) -> String {
        let tcx = self.tcx;
        let did = i.def_id();
        let b0: &Body<'tcx> = tcx.instance_mir(i.def);
        let b: Body<'tcx> = i.instantiate_mir_and_normalize_erasing_regions(tcx, self.env, ty::EarlyBinder::bind(tcx, b0.clone()));
        let (file, line) = self.span(b.span);
        let mut s = format!("{{\"id\":{},\"path\":{},\"sp\":{},\"crate\":{},\"local\":{},\"file\":{},\"line\":{},\"argc\":{}",
            id, esc(&pretty(tcx, did)), esc(&stable_path(tcx, did)), esc(tcx.crate_name(did.krate).as_str()), did.is_local(), esc(&file), line, b.arg_count);
        if let Some(sa) = b.spread_arg { let _ = write!(s, ",\"spread\":{}", sa.as_u32()); }
        let vis = did.is_local() && matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn) && tcx.visibility(did).is_public();
        let reach = did.is_local() && tcx.effective_visibilities(()).is_reachable(did.expect_local());
        let _ = write!(s, ",\"pub\":{},\"reach\":{},\"name\":{}", vis, reach, esc(tcx.opt_item_name(did).map(|x| x.to_string()).unwrap_or_default().as_str()));
        if matches!(tcx.def_kind(did), DefKind::AssocFn) {
            if let Some(im) = tcx.impl_of_assoc(did) {
                let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                let _ = write!(s, ",\"self_ty\":{}", esc(&with_no_trimmed_paths!(format!("{}", st))));
                if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                    let _ = write!(s, ",\"impl_trait\":{}", esc(&pretty(tcx, tr.skip_binder().def_id)));
                }
            }
        }
        let lt: Vec<String> = b.local_decls.iter().map(|d| self.ty(d.ty).to_string()).collect();
        let _ = write!(s, ",\"locals\":{}", arr(&lt));
        let mut names = vec![];
        for v in b.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() { names.push(format!("[{},{}]", p.local.as_u32(), esc(v.name.as_str()))); }
            }
        }
        let _ = write!(s, ",\"names\":{}", arr(&names));
        let mut bbs = vec![];
        for bb in b.basic_blocks.iter() {
            let mut st = vec![];
            for x in bb.statements.iter() {
                match &x.kind {
                    StatementKind::Assign(a) => {
                        let (_, l) = self.span(x.source_info.span);
                        st.push(format!("[\"=\",{},{},{}]", self.place(&a.0), self.rvalue(&a.1), l));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        st.push(format!("[\"sd\",{},{}]", self.place(place), variant_index.as_u32()));
                    }
                    StatementKind::StorageDead(l) => { st.push(format!("[\"dead\",{}]", l.as_u32())); }
                    StatementKind::Intrinsic(n) => {
                        if let NonDivergingIntrinsic::Assume(o) = &**n { st.push(format!("[\"assume\",{}]", self.operand(o))); }
                        else { st.push("[\"copynon\"]".into()); }
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let (_, l) = self.span(t.source_info.span);
            let ts = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_u32()),
                TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.as_u32()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_u32()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let v: Vec<String> = targets.iter().map(|(v, t)| format!("[{},{}]", v, t.as_u32())).collect();
                    format!("[\"switch\",{},{},{},{}]", self.operand(discr), arr(&v), targets.otherwise().as_u32(), l)
                }
                TerminatorKind::Return => "[\"return\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    let pt = place.ty(&b.local_decls, tcx).ty;
                    format!("[\"drop\",{},{},{}]", self.place(place), target.as_u32(), self.ty(pt))
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let av: Vec<String> = args.iter().map(|a| self.operand(&a.node)).collect();
                    let ft = func.ty(&b.local_decls, tcx);
                    let f = match ft.kind() {
                        ty::FnDef(d, a) => { let a = tcx.erase_and_anonymize_regions(*a); self.callee(*d, a.no_bound_vars().unwrap_or_else(|| ft_args(ft))) },
                        _ => format!("{{\"path\":\"<indirect>\",\"sp\":\"<indirect>\",\"name\":\"\",\"crate\":\"\",\"args\":[],\"op\":{}}}", self.operand(func)),
                    };
                    let tgt = target.map(|t| t.as_u32().to_string()).unwrap_or("null".into());
                    format!("[\"call\",{},{},{},{},{}]", f, arr(&av), self.place(destination), tgt, l)
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let k = match &**msg {
                        AssertKind::BoundsCheck { .. } => "BoundsCheck".to_string(),
                        AssertKind::Overflow(op, ..) => format!("Overflow({:?})", op),
                        AssertKind::OverflowNeg(_) => "OverflowNeg".into(),
                        AssertKind::DivisionByZero(_) => "DivisionByZero".into(),
                        AssertKind::RemainderByZero(_) => "RemainderByZero".into(),
                        _ => "Other".into(),
                    };
                    format!("[\"assert\",{},{},{},{},{}]", self.operand(cond), expected, esc(&k), target.as_u32(), l)
                }
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => "[\"unwind\"]".into(),
                k => format!("[\"unk\",{}]", esc(&format!("{:?}", k))),
            };
            bbs.push(format!("{{\"s\":{},\"t\":{},\"cleanup\":{}}}", arr(&st), ts, bb.is_cleanup));
        }
        let _ = write!(s, ",\"bbs\":{}}}", arr(&bbs));
        s
    }
}
fn ft_args<'tcx>(t: Ty<'tcx>) -> ty::GenericArgsRef<'tcx> {
    match t.kind() { ty::FnDef(_, a) => a.no_bound_vars().expect("bound vars"), _ => panic!() }
}

struct Cb;
impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let want = std::env::var("NMEA_MIR_CRATE").unwrap_or("nmea_parser".into());
        if tcx.crate_name(LOCAL_CRATE).as_str() != want { return Compilation::Continue; }
        let out = match std::env::var("NMEA_MIR_OUT") { Ok(o) => o, _ => return Compilation::Continue };
        let env = TypingEnv::fully_monomorphized();
        let mut cx = Cx { tcx, env, types: vec![], type_ids: HashMap::new(), insts: HashMap::new(), queue: vec![], bodies: vec![] };
        let mut roots = vec![];
        let mut generic_fns = vec![];
        let mut statics = vec![];
        for ld in tcx.hir_body_owners() {
            let d = ld.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Fn | DefKind::AssocFn => {
                    let g = tcx.generics_of(d);
                    if g.requires_monomorphization(tcx) {
                        generic_fns.push(esc(&pretty(tcx, d)));
                        continue;
                    }
                    let i = Instance::mono(tcx, d);
                    let k = cx.inst_id(i);
                    roots.push(k.to_string());
                }
                DefKind::Static { .. } => {
                    let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    statics.push(format!("{{\"path\":{},\"mut\":{},\"freeze\":{},\"ty\":{}}}", esc(&pretty(tcx, d)),
                        tcx.is_mutable_static(d), t.is_freeze(tcx, env), esc(&with_no_trimmed_paths!(format!("{}", t)))));
                }
                _ => {}
            }
        }
        let mut n = 0;
        while let Some(i) = cx.queue.pop() {
            let id = cx.insts[&i];
            let s = cx.body(i, id);
            cx.bodies.push(s);
            n += 1;
            if n > 6000 { break; }
        }
        // public types and auto traits
        let mut pubs = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let d = id.to_def_id();
            if !matches!(tcx.def_kind(d), DefKind::Struct | DefKind::Enum) { continue; }
            if tcx.generics_of(d).requires_monomorphization(tcx) { continue; }
            let reach = tcx.effective_visibilities(()).is_reachable(id);
            let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
            use rustc_infer::infer::TyCtxtInferExt;
            use rustc_trait_selection::infer::InferCtxtExt;
            let infcx = tcx.infer_ctxt().build(ty::TypingMode::non_body_analysis());
            let chk = |tr: Option<DefId>| -> String {
                match tr { Some(tr) => infcx.type_implements_trait(tr, [t], ty::ParamEnv::empty()).must_apply_modulo_regions().to_string(), None => "null".into() }
            };
            let send = chk(tcx.get_diagnostic_item(rustc_span::sym::Send));
            let sync = chk(tcx.lang_items().sync_trait());
            let (file, line) = cx.span(tcx.def_span(d));
            let tid = cx.ty(t);
            pubs.push(format!("{{\"path\":{},\"reach\":{},\"send\":{},\"sync\":{},\"freeze\":{},\"ty\":{},\"file\":{},\"line\":{}}}",
                esc(&pretty(tcx, d)), reach, send, sync, t.is_freeze(tcx, env), tid, esc(&file), line));
        }
        // types may have queued more closures
        while let Some(i) = cx.queue.pop() {
            let id = cx.insts[&i];
            let s = cx.body(i, id);
            cx.bodies.push(s);
        }
        let j = format!("{{\"crate\":{},\"roots\":{},\"generic\":{},\"statics\":{},\"pubs\":{},\"types\":[\n{}\n],\"bodies\":[\n{}\n]}}\n",
            esc(&want), arr(&roots), arr(&generic_fns), arr(&statics), arr(&pubs), cx.types.join(",\n"), cx.bodies.join(",\n"));
        std::fs::write(&out, j).expect("write MIR export");
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // as a wrapper, argv[1] is the path of rustc
    if args.len() > 1 && args[1].ends_with("rustc") { args.remove(1); }
    args.push("-Zmir-enable-passes=-RemoveStorageMarkers,-CheckAlignment,-CheckNull".into());
    rustc_driver::compiler_entrypoint(&args, &mut Cb);
}
