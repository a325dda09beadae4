//! Compiler driver: type-checks a crate with rustc and writes its monomorphised MIR as JSON.
//!
//! Used as RUSTC_WORKSPACE_WRAPPER; the output path comes from OBDRIVER_OUT.
#![feature(rustc_private)]

extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
extern crate rustc_target;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::interpret::{AllocRange, Allocation, GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, EarlyBinder, Instance, InstanceKind, Ty, TyCtxt, TypeVisitableExt, TypingEnv};
use rustc_span::Span;
use std::collections::{HashMap, VecDeque};
use std::fmt::Write as _;

struct Cb {
    out: String,
}

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct D<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: HashMap<Ty<'tcx>, usize>,
    ty_json: Vec<String>,
    insts: HashMap<Instance<'tcx>, usize>,
    queue: VecDeque<(usize, Instance<'tcx>)>,
    inst_json: Vec<(usize, String)>,
    n_inst: usize,
    files: Vec<String>,
    env: TypingEnv<'tcx>,
}

/// External functions whose MIR is dumped and inlined by the analysis. Everything else external
/// is modelled by name or treated as opaque.
fn ext_ok(path: &str) -> bool {
    const P: &[&str] = &[
        "std::option::", "core::option::", "std::result::", "core::result::", "std::cmp::", "core::cmp::",
        "<std::option::", "<core::option::", "<std::result::", "<core::result::",
        "std::ops::FnOnce", "std::ops::FnMut", "std::ops::Fn", "core::ops::Fn",
        "std::bool::", "core::bool::", "<bool>::", "bool::", "std::mem::take", "std::mem::replace", "std::mem::swap",
        "itertools::", "std::iter::", "core::iter::", "<std::iter::", "<core::iter::", "<std::ops::ControlFlow", "std::ops::ControlFlow", "<std::ops::Range", "<T as std::convert::Into", "<T as std::convert::From", "<T as std::convert::TryInto",
    ];
    P.iter().any(|p| path.starts_with(p)) || path.starts_with('<') && (path.contains(" as std::cmp::") || path.contains(" as std::convert::") || path.contains(" as std::ops::Try"))
}

impl<'tcx> D<'tcx> {
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.tys.get(&t) {
            return *i;
        }
        let i = self.ty_json.len();
        self.tys.insert(t, i);
        self.ty_json.push(String::new());
        let tcx = self.tcx;
        let s = esc(&format!("{}", t));
        let size = match tcx.layout_of(self.env.as_query_input(t)) {
            Ok(l) if l.is_sized() => format!(",\"size\":{}", l.size.bytes()),
            _ => String::new(),
        };
        let body = match t.kind() {
            ty::Adt(def, args) => {
                let mut vs = vec![];
                let layout = tcx.layout_of(self.env.as_query_input(t)).ok();
                if def.is_struct() || def.is_enum() {
                    for (vi, v) in def.variants().iter_enumerated() {
                        let discr = if def.is_enum() {
                            format!("{}", def.discriminant_for_variant(tcx, vi).val)
                        } else {
                            "0".into()
                        };
                        let mut fs = vec![];
                        for (fi, f) in v.fields.iter_enumerated() {
                            let fty = f.ty(tcx, args);
                            let fty = tcx.try_normalize_erasing_regions(self.env, fty).unwrap_or(fty.skip_norm_wip());
                            let fid = self.ty(fty);
                            let off = match (&layout, def.is_struct()) {
                                (Some(l), true) => format!("{}", l.fields.offset(fi.as_usize()).bytes()),
                                _ => "null".into(),
                            };
                            fs.push(format!("[{},{},{}]", esc(f.name.as_str()), fid, off));
                        }
                        vs.push(format!(
                            "{{\"name\":{},\"discr\":\"{}\",\"fields\":[{}]}}",
                            esc(v.name.as_str()),
                            discr,
                            fs.join(",")
                        ));
                    }
                }
                let argt: Vec<String> = args.types().map(|a| self.ty(a).to_string()).collect();
                format!(
                    "\"k\":\"adt\",\"path\":{},\"kind\":\"{}\",\"args\":[{}],\"variants\":[{}],\"repr\":{}",
                    esc(&tcx.def_path_str(def.did())),
                    if def.is_struct() { "struct" } else if def.is_enum() { "enum" } else { "union" },
                    argt.join(","),
                    vs.join(","),
                    esc(&format!("{:?}", def.repr().int))
                )
            }
            ty::Ref(_, x, m) => format!("\"k\":\"ref\",\"mut\":{},\"to\":{}", m.is_mut(), self.ty(*x)),
            ty::RawPtr(x, m) => format!("\"k\":\"ptr\",\"mut\":{},\"to\":{}", m.is_mut(), self.ty(*x)),
            ty::Array(x, n) => format!(
                "\"k\":\"array\",\"of\":{},\"len\":{}",
                self.ty(*x),
                n.try_to_target_usize(tcx).map(|x| x.to_string()).unwrap_or("null".into())
            ),
            ty::Slice(x) => format!("\"k\":\"slice\",\"of\":{}", self.ty(*x)),
            ty::Tuple(xs) => {
                let v: Vec<String> = xs.iter().map(|x| self.ty(x).to_string()).collect();
                format!("\"k\":\"tuple\",\"of\":[{}]", v.join(","))
            }
            ty::Closure(d, args) => {
                let v: Vec<String> = args.as_closure().upvar_tys().iter().map(|x| self.ty(x).to_string()).collect();
                // bodies of closures handed to functions that are not followed are needed as well
                let n = if t.has_param() { "null".to_string() } else { self.inst(Instance::new_raw(*d, args)).to_string() };
                format!("\"k\":\"closure\",\"path\":{},\"of\":[{}],\"inst\":{}", esc(&tcx.def_path_str(*d)), v.join(","), n)
            }
            ty::FnDef(d, args) if d.is_local() && !t.has_param() => {
                let args = args.no_bound_vars().unwrap_or_else(|| tcx.instantiate_bound_regions_with_erased(*args));
                let args = tcx.erase_and_anonymize_regions(args);
                let n = match Instance::try_resolve(tcx, self.env, *d, args) {
                    Ok(Some(i)) if matches!(i.def, InstanceKind::Item(_)) => self.inst(i).to_string(),
                    _ => "null".to_string(),
                };
                format!("\"k\":\"fndef\",\"path\":{},\"inst\":{}", esc(&tcx.def_path_str(*d)), n)
            }
            ty::FnDef(d, _) => format!("\"k\":\"fndef\",\"path\":{}", esc(&tcx.def_path_str(*d))),
            ty::Int(_) => "\"k\":\"int\"".into(),
            ty::Uint(_) => "\"k\":\"uint\"".into(),
            ty::Float(_) => "\"k\":\"float\"".into(),
            ty::Bool => "\"k\":\"bool\"".into(),
            ty::Char => "\"k\":\"char\"".into(),
            ty::Str => "\"k\":\"str\"".into(),
            ty::Never => "\"k\":\"never\"".into(),
            ty::Dynamic(..) => "\"k\":\"dyn\"".into(),
            _ => "\"k\":\"other\"".into(),
        };
        self.ty_json[i] = format!("{{\"s\":{},{}{}}}", s, body, size);
        i
    }

    fn span(&mut self, sp: Span) -> String {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(sp.lo());
        let f = match &lo.file.name {
            rustc_span::FileName::Real(r) => {
                r.local_path().map(|p| p.display().to_string()).unwrap_or_else(|| "?".into())
            }
            _ => "?".to_string(),
        };
        let fi = match self.files.iter().position(|x| *x == f) {
            Some(i) => i,
            None => {
                self.files.push(f);
                self.files.len() - 1
            }
        };
        format!("[{},{}]", fi, lo.line)
    }

    fn inst(&mut self, i: Instance<'tcx>) -> usize {
        if let Some(x) = self.insts.get(&i) {
            return *x;
        }
        let n = self.n_inst;
        self.n_inst += 1;
        self.insts.insert(i, n);
        self.queue.push_back((n, i));
        n
    }

    fn place(&mut self, body: &Body<'tcx>, p: Place<'tcx>) -> String {
        let mut o = format!("[{}", p.local.as_usize());
        let mut pt = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection {
            match e {
                ProjectionElem::Deref => o.push_str(",[\"d\"]"),
                ProjectionElem::Field(f, fty) => {
                    let name = match pt.ty.kind() {
                        ty::Adt(def, _) if !def.is_union() => {
                            let v = match pt.variant_index {
                                Some(v) => def.variant(v),
                                None if def.is_struct() => def.non_enum_variant(),
                                None => def.variant(rustc_abi::VariantIdx::from_u32(0)),
                            };
                            v.fields[f].name.to_string()
                        }
                        _ => f.as_usize().to_string(),
                    };
                    let ft = self.ty(fty);
                    let _ = write!(o, ",[\"f\",{},{},{}]", f.as_usize(), esc(&name), ft);
                }
                ProjectionElem::Index(l) => {
                    let _ = write!(o, ",[\"i\",{}]", l.as_usize());
                }
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    let _ = write!(o, ",[\"ci\",{},{},{}]", offset, min_length, from_end);
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    let _ = write!(o, ",[\"ss\",{},{},{}]", from, to, from_end);
                }
                ProjectionElem::Downcast(_, v) => {
                    let vname = match pt.ty.kind() {
                        ty::Adt(def, _) if def.is_enum() => def.variant(v).name.to_string(),
                        _ => String::new(),
                    };
                    let _ = write!(o, ",[\"v\",{},{}]", v.as_usize(), esc(&vname));
                }
                _ => o.push_str(",[\"cast\"]"),
            }
            pt = pt.projection_ty(self.tcx, e);
        }
        o.push(']');
        o
    }

    fn scalar(&mut self, t: Ty<'tcx>, bits: u128, size: u64) -> String {
        let tcx = self.tcx;
        match t.kind() {
            ty::Int(_) => {
                let sh = 128 - size * 8;
                let v = ((bits << sh) as i128) >> sh;
                format!("{{\"int\":\"{}\"}}", v)
            }
            ty::Uint(_) | ty::Bool | ty::Char => format!("{{\"int\":\"{}\"}}", bits),
            ty::Float(ty::FloatTy::F64) => format!("{{\"float\":{}}}", esc(&format!("{:?}", f64::from_bits(bits as u64)))),
            ty::Float(ty::FloatTy::F32) => format!("{{\"float\":{}}}", esc(&format!("{:?}", f32::from_bits(bits as u32)))),
            ty::Adt(def, args) if def.is_struct() => {
                let mut fs = vec![];
                for f in def.non_enum_variant().fields.iter() {
                    let fty = f.ty(tcx, args);
                    let fty = tcx.try_normalize_erasing_regions(self.env, fty).unwrap_or(fty.skip_norm_wip());
                    let zst = tcx.layout_of(self.env.as_query_input(fty)).map(|l| l.is_zst()).unwrap_or(false);
                    let v = if zst { "{\"zst\":1}".to_string() } else { self.scalar(fty, bits, size) };
                    fs.push(v);
                }
                format!("{{\"agg\":[{}],\"variant\":0}}", fs.join(","))
            }
            ty::Adt(def, _) if def.is_enum() => {
                for (vi, v) in def.variants().iter_enumerated() {
                    let d = def.discriminant_for_variant(tcx, vi).val;
                    let m = if size >= 16 { u128::MAX } else { (1u128 << (size * 8)) - 1 };
                    if d & m == bits && v.fields.is_empty() {
                        return format!("{{\"agg\":[],\"variant\":{},\"vname\":{}}}", vi.as_usize(), esc(v.name.as_str()));
                    }
                }
                format!("{{\"opaque\":{}}}", esc(&format!("{} {}", t, bits)))
            }
            _ => format!("{{\"opaque\":{}}}", esc(&format!("{} {}", t, bits))),
        }
    }

    fn mem(&mut self, a: &Allocation, off: u64, t: Ty<'tcx>, depth: usize) -> String {
        let tcx = self.tcx;
        let t = tcx.erase_and_anonymize_regions(t);
        let Ok(l) = tcx.layout_of(self.env.as_query_input(t)) else { return "{\"opaque\":\"layout\"}".into() };
        if l.is_sized() && l.is_zst() {
            return "{\"zst\":1}".into();
        }
        if depth > 8 {
            return "{\"opaque\":\"deep\"}".into();
        }
        match t.kind() {
            ty::Int(_) | ty::Uint(_) | ty::Bool | ty::Char | ty::Float(_) => {
                let r = AllocRange { start: rustc_abi::Size::from_bytes(off), size: l.size };
                match a.read_scalar(&tcx, r, false) {
                    Ok(Scalar::Int(i)) => self.scalar(t, i.to_bits(i.size()), l.size.bytes()),
                    _ => "{\"opaque\":\"read\"}".into(),
                }
            }
            ty::Array(e, n) => {
                let n = n.try_to_target_usize(tcx).unwrap_or(0);
                if n > 300 {
                    return "{\"opaque\":\"bigarray\"}".into();
                }
                let es = tcx.layout_of(self.env.as_query_input(*e)).map(|l| l.size.bytes()).unwrap_or(0);
                let v: Vec<String> = (0..n).map(|i| self.mem(a, off + i * es, *e, depth + 1)).collect();
                format!("{{\"arr\":[{}]}}", v.join(","))
            }
            ty::Tuple(xs) => {
                let v: Vec<String> =
                    xs.iter().enumerate().map(|(i, x)| self.mem(a, off + l.fields.offset(i).bytes(), x, depth + 1)).collect();
                format!("{{\"agg\":[{}],\"variant\":0}}", v.join(","))
            }
            ty::Adt(def, args) if def.is_struct() => {
                let mut fs = vec![];
                for (i, f) in def.non_enum_variant().fields.iter_enumerated() {
                    let fty = f.ty(tcx, args);
                    let fty = tcx.try_normalize_erasing_regions(self.env, fty).unwrap_or(fty.skip_norm_wip());
                    fs.push(self.mem(a, off + l.fields.offset(i.as_usize()).bytes(), fty, depth + 1));
                }
                format!("{{\"agg\":[{}],\"variant\":0}}", fs.join(","))
            }
            ty::Adt(def, _) if def.is_enum() && l.size.bytes() <= 16 && def.variants().iter().all(|v| v.fields.is_empty()) => {
                let r = AllocRange { start: rustc_abi::Size::from_bytes(off), size: l.size };
                match a.read_scalar(&tcx, r, false) {
                    Ok(Scalar::Int(i)) => self.scalar(t, i.to_bits(i.size()), l.size.bytes()),
                    _ => "{\"opaque\":\"read\"}".into(),
                }
            }
            ty::Ref(_, to, _) | ty::RawPtr(to, _) => {
                let ptr_size = tcx.data_layout.pointer_size();
                let r = AllocRange { start: rustc_abi::Size::from_bytes(off), size: ptr_size };
                match a.read_scalar(&tcx, r, true) {
                    Ok(Scalar::Ptr(p, _)) => {
                        let (prov, o) = p.into_raw_parts();
                        let meta = if to.is_str() || to.is_slice() {
                            let r2 = AllocRange { start: rustc_abi::Size::from_bytes(off) + ptr_size, size: ptr_size };
                            match a.read_scalar(&tcx, r2, false) {
                                Ok(Scalar::Int(i)) => Some(i.to_bits(i.size()) as u64),
                                _ => None,
                            }
                        } else {
                            None
                        };
                        self.deref(prov.alloc_id(), o.bytes(), *to, meta, depth)
                    }
                    _ => "{\"opaque\":\"ptr\"}".into(),
                }
            }
            _ => format!("{{\"opaque\":{}}}", esc(&format!("{}", t))),
        }
    }

    fn deref(&mut self, id: interpret::AllocId, off: u64, to: Ty<'tcx>, meta: Option<u64>, depth: usize) -> String {
        match self.tcx.try_get_global_alloc(id) {
            Some(GlobalAlloc::Memory(m)) => {
                let a = m.inner();
                if to.is_str() || (to.is_slice() && matches!(to.kind(), ty::Slice(e) if *e == self.tcx.types.u8)) {
                    let n = meta.unwrap_or(0) as usize;
                    let b = a.inspect_with_uninit_and_ptr_outside_interpreter(off as usize..off as usize + n);
                    return format!("{{\"ref\":{{\"str\":{}}}}}", esc(&String::from_utf8_lossy(b)));
                }
                if let ty::Slice(e) = to.kind() {
                    let es = self.tcx.layout_of(self.env.as_query_input(*e)).map(|l| l.size.bytes()).unwrap_or(0);
                    let v: Vec<String> = (0..meta.unwrap_or(0)).map(|i| self.mem(a, off + i * es, *e, depth + 1)).collect();
                    return format!("{{\"ref\":{{\"arr\":[{}]}}}}", v.join(","));
                }
                let v = self.mem(a, off, to, depth + 1);
                format!("{{\"ref\":{}}}", v)
            }
            Some(GlobalAlloc::Static(d)) => format!("{{\"ref\":{{\"static\":{}}}}}", esc(&self.tcx.def_path_str(d))),
            Some(GlobalAlloc::Function { instance, .. }) => format!("{{\"fnptr\":{}}}", self.inst(instance)),
            _ => "{\"opaque\":\"alloc\"}".into(),
        }
    }

    fn constant(&mut self, c: Const<'tcx>, sp: Span) -> String {
        let tcx = self.tcx;
        let t = c.ty();
        let tid = self.ty(t);
        let mut name = String::new();
        if let Const::Unevaluated(u, _) = c {
            if u.promoted.is_none() {
                name = format!(",\"name\":{}", esc(&tcx.def_path_str(u.def)));
            }
        }
        if let ty::FnDef(d, args) = t.kind() {
            let r = Instance::try_resolve(tcx, self.env, *d, args.no_bound_vars().unwrap_or_else(|| tcx.instantiate_bound_regions_with_erased(*args)));
            let i = match r {
                Ok(Some(i)) => self.inst(i).to_string(),
                _ => "null".into(),
            };
            return format!("{{\"c\":{},\"fn\":{},\"path\":{}}}", tid, i, esc(&tcx.def_path_str(*d)));
        }
        let v = match c.eval(tcx, self.env, sp) {
            Ok(ConstValue::Scalar(Scalar::Int(i))) => self.scalar(t, i.to_bits(i.size()), i.size().bytes()),
            Ok(ConstValue::Scalar(Scalar::Ptr(p, _))) => {
                let (prov, o) = p.into_raw_parts();
                match t.kind() {
                    ty::Ref(_, to, _) | ty::RawPtr(to, _) => self.deref(prov.alloc_id(), o.bytes(), *to, None, 0),
                    ty::FnPtr(..) => self.deref(prov.alloc_id(), 0, t, None, 0),
                    _ => "{\"opaque\":\"scalarptr\"}".into(),
                }
            }
            Ok(ConstValue::ZeroSized) => "{\"zst\":1}".into(),
            Ok(ConstValue::Slice { alloc_id, meta }) => match t.kind() {
                ty::Ref(_, to, _) => self.deref(alloc_id, 0, *to, Some(meta), 0),
                _ => "{\"opaque\":\"slice\"}".into(),
            },
            Ok(ConstValue::Indirect { alloc_id, offset }) => match tcx.try_get_global_alloc(alloc_id) {
                Some(GlobalAlloc::Memory(m)) => self.mem(m.inner(), offset.bytes(), t, 0),
                _ => "{\"opaque\":\"indirect\"}".into(),
            },
            Err(_) => "{\"opaque\":\"consterr\"}".into(),
        };
        format!("{{\"c\":{},\"v\":{}{}}}", tid, v, name)
    }

    fn operand(&mut self, body: &Body<'tcx>, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"p\":{}}}", self.place(body, *p)),
            Operand::Move(p) => format!("{{\"p\":{},\"m\":1}}", self.place(body, *p)),
            Operand::Constant(c) => self.constant(c.const_, c.span),
            Operand::RuntimeChecks(_) => {
                let b = self.ty(self.tcx.types.bool);
                format!("{{\"c\":{},\"v\":{{\"int\":\"0\"}}}}", b)
            }
        }
    }

    fn rvalue(&mut self, body: &Body<'tcx>, r: &Rvalue<'tcx>) -> String {
        let tcx = self.tcx;
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.operand(body, o)),
            Rvalue::Repeat(o, n) => format!(
                "[\"repeat\",{},{}]",
                self.operand(body, o),
                n.try_to_target_usize(tcx).map(|x| x.to_string()).unwrap_or("null".into())
            ),
            Rvalue::Ref(_, k, p) => format!("[\"ref\",{},{}]", matches!(k, BorrowKind::Mut { .. }), self.place(body, *p)),
            Rvalue::RawPtr(_, p) => format!("[\"ref\",true,{}]", self.place(body, *p)),
            Rvalue::Reborrow(_, m, p) => format!("[\"reborrow\",{},{}]", m.is_mut(), self.place(body, *p)),
            Rvalue::ThreadLocalRef(_) => "[\"other\",\"tls\"]".into(),
            Rvalue::Cast(k, o, t) => {
                let from = o.ty(&body.local_decls, tcx);
                let target = match (k, from.kind()) {
                    (CastKind::PointerCoercion(ty::adjustment::PointerCoercion::ReifyFnPointer(..), _), ty::FnDef(d, args)) => {
                        let args = args.no_bound_vars().unwrap_or_else(|| tcx.instantiate_bound_regions_with_erased(*args));
                        let args = tcx.erase_and_anonymize_regions(args);
                        Instance::try_resolve(tcx, self.env, *d, args).ok().flatten()
                    }
                    (CastKind::PointerCoercion(ty::adjustment::PointerCoercion::ClosureFnPointer(_), _), ty::Closure(d, args)) => {
                        Some(Instance::new_raw(*d, args))
                    }
                    _ => None,
                };
                let target = match target {
                    Some(i) => self.inst(i).to_string(),
                    None => "null".into(),
                };
                format!("[\"cast\",{},{},{},{},{}]", esc(&format!("{:?}", k)), self.operand(body, o), self.ty(from), self.ty(*t), target)
            }
            Rvalue::BinaryOp(op, b) => {
                let t = b.0.ty(&body.local_decls, tcx);
                format!("[\"bin\",\"{:?}\",{},{},{}]", op, self.operand(body, &b.0), self.operand(body, &b.1), self.ty(t))
            }
            Rvalue::UnaryOp(op, a) => {
                let t = a.ty(&body.local_decls, tcx);
                format!("[\"un\",\"{:?}\",{},{}]", op, self.operand(body, a), self.ty(t))
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, tcx).ty;
                format!("[\"discr\",{},{}]", self.place(body, *p), self.ty(t))
            }
            Rvalue::Aggregate(k, fs) => {
                let v: Vec<String> = fs.iter().map(|f| self.operand(body, f)).collect();
                let t = self.ty(r.ty(&body.local_decls, tcx));
                let (kk, var) = match &**k {
                    AggregateKind::Array(_) => ("array", 0),
                    AggregateKind::Tuple => ("tuple", 0),
                    AggregateKind::Adt(_, vi, _, _, act) => (if act.is_some() { "union" } else { "adt" }, vi.as_usize()),
                    AggregateKind::Closure(..) => ("closure", 0),
                    _ => ("other", 0),
                };
                format!("[\"agg\",\"{}\",{},{},[{}]]", kk, t, var, v.join(","))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",{{\"p\":{}}}]", self.place(body, *p)),
            Rvalue::WrapUnsafeBinder(o, _) => format!("[\"use\",{}]", self.operand(body, o)),
        }
    }

    fn callee(&mut self, body: &Body<'tcx>, f: &Operand<'tcx>) -> String {
        let tcx = self.tcx;
        let t = f.ty(&body.local_decls, tcx);
        match t.kind() {
            ty::FnDef(d, args) => {
                let args = args.no_bound_vars().unwrap_or_else(|| tcx.instantiate_bound_regions_with_erased(*args));
                let args = tcx.erase_and_anonymize_regions(args);
                let gen: Vec<String> = args.types().map(|a| self.ty(a).to_string()).collect();
                let (inst, rpath, kind) = match Instance::try_resolve(tcx, self.env, *d, args) {
                    Ok(Some(i)) => {
                        let k = match i.def {
                            InstanceKind::Item(_) => "item",
                            InstanceKind::Intrinsic(_) | InstanceKind::LlvmIntrinsic(_) => "intrinsic",
                            InstanceKind::Virtual(..) => "virtual",
                            InstanceKind::Shim(_) => "shim",
                        };
                        let rd = i.def_id();
                        let rp = with_no_trimmed_paths!(tcx.def_path_str_with_args(rd, i.args));
                        let n = if k == "virtual" || k == "intrinsic" { "null".to_string() } else { self.inst(i).to_string() };
                        (n, rp, k)
                    }
                    _ => ("null".into(), String::new(), "unresolved"),
                };
                format!(
                    "{{\"path\":{},\"full\":{},\"rpath\":{},\"inst\":{},\"kind\":\"{}\",\"gen\":[{}]}}",
                    esc(&tcx.def_path_str(*d)),
                    esc(&with_no_trimmed_paths!(tcx.def_path_str_with_args(*d, args))),
                    esc(&rpath),
                    inst,
                    kind,
                    gen.join(",")
                )
            }
            _ => format!("{{\"path\":\"<indirect>\",\"op\":{},\"inst\":null,\"kind\":\"indirect\",\"gen\":[]}}", self.operand(body, f)),
        }
    }

    fn term(&mut self, body: &Body<'tcx>, t: &Terminator<'tcx>) -> String {
        let sp = self.span(t.source_info.span);
        let s = match &t.kind {
            TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
            TerminatorKind::SwitchInt { discr, targets } => {
                let ty = discr.ty(&body.local_decls, self.tcx);
                let size = self.tcx.layout_of(self.env.as_query_input(ty)).map(|l| l.size.bits()).unwrap_or(128);
                let v: Vec<String> = targets
                    .iter()
                    .map(|(v, b)| {
                        let vs = if matches!(ty.kind(), ty::Int(_)) && size > 0 {
                            let sh = 128 - size;
                            format!("{}", ((v << sh) as i128) >> sh)
                        } else {
                            format!("{}", v)
                        };
                        format!("[\"{}\",{}]", vs, b.as_usize())
                    })
                    .collect();
                format!(
                    "[\"switch\",{},{},[{}],{}]",
                    self.operand(body, discr),
                    self.ty(ty),
                    v.join(","),
                    targets.otherwise().as_usize()
                )
            }
            TerminatorKind::Return => "[\"return\"]".into(),
            TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
            TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => "[\"unwind\"]".into(),
            TerminatorKind::Drop { place, target, .. } => {
                let ty = place.ty(&body.local_decls, self.tcx).ty;
                format!("[\"drop\",{},{},{}]", self.place(body, *place), target.as_usize(), self.ty(ty))
            }
            TerminatorKind::Call { func, args, destination, target, .. } => {
                let a: Vec<String> = args.iter().map(|a| self.operand(body, &a.node)).collect();
                let dt = destination.ty(&body.local_decls, self.tcx).ty;
                format!(
                    "[\"call\",{},[{}],{},{},{}]",
                    self.callee(body, func),
                    a.join(","),
                    self.place(body, *destination),
                    target.map(|t| t.as_usize().to_string()).unwrap_or("null".into()),
                    self.ty(dt)
                )
            }
            TerminatorKind::Assert { cond, expected, target, msg, .. } => format!(
                "[\"assert\",{},{},{},{}]",
                self.operand(body, cond),
                expected,
                target.as_usize(),
                esc(match **msg {
                    AssertKind::BoundsCheck { .. } => "bounds",
                    AssertKind::Overflow(..) | AssertKind::OverflowNeg(..) => "overflow",
                    AssertKind::DivisionByZero(..) | AssertKind::RemainderByZero(..) => "divzero",
                    _ => "other",
                })
            ),
            TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
            TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
            _ => "[\"unreachable\"]".into(),
        };
        format!("[{},{}]", s, sp)
    }

    fn body(&mut self, n: usize, i: Instance<'tcx>) {
        let tcx = self.tcx;
        let did = i.def_id();
        let path = tcx.def_path_str(did);
        let full = with_no_trimmed_paths!(tcx.def_path_str_with_args(did, i.args));
        let local = did.is_local();
        let krate = tcx.crate_name(did.krate).to_string();
        let mut has = match i.def {
            InstanceKind::Item(d) => tcx.is_mir_available(d) && (local || ext_ok(&full)) && matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::Ctor(..)),
            InstanceKind::Shim(s) => match s {
                ty::ShimKind::ClosureOnce { .. } | ty::ShimKind::FnPtr(..) | ty::ShimKind::Reify(..) => true,
                _ => false,
            },
            _ => false,
        };
        if matches!(i.def, InstanceKind::Item(d) if tcx.is_constructor(d)) {
            has = true;
        }
        let gen: Vec<String> = i.args.types().map(|a| self.ty(a).to_string()).collect();
        let mut head = format!(
            "{{\"id\":{},\"path\":{},\"full\":{},\"crate\":{},\"local\":{},\"kind\":{},\"gen\":[{}]",
            n, esc(&path), esc(&full), esc(&krate), local,
            esc(&format!("{:?}", i.def).split('(').next().unwrap_or("").to_string()),
            gen.join(",")
        );
        if !has {
            head.push_str(",\"body\":null}");
            self.inst_json.push((n, head));
            return;
        }
        let raw = tcx.instance_mir(i.def);
        if raw.tainted_by_errors.is_some() {
            head.push_str(",\"body\":null,\"tainted\":true}");
            self.inst_json.push((n, head));
            return;
        }
        let b: Body<'tcx> = i.instantiate_mir_and_normalize_erasing_regions(tcx, self.env, EarlyBinder::bind(tcx, raw.clone()));
        let sp = self.span(b.span);
        let mut locals = vec![];
        let mut names: HashMap<usize, String> = HashMap::new();
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.entry(p.local.as_usize()).or_insert(v.name.to_string());
                }
            }
        }
        for (l, d) in b.local_decls.iter_enumerated() {
            let nm = names.get(&l.as_usize()).map(|s| esc(s)).unwrap_or("null".into());
            locals.push(format!("[{},{}]", self.ty(d.ty), nm));
        }
        let mut blocks = vec![];
        for bb in b.basic_blocks.iter() {
            let mut st = vec![];
            for s in &bb.statements {
                let sp = self.span(s.source_info.span);
                match &s.kind {
                    StatementKind::Assign(a) => {
                        let (p, r) = &**a;
                        st.push(format!("[\"=\",{},{},{}]", self.place(&b, *p), self.rvalue(&b, r), sp));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        st.push(format!("[\"setd\",{},{},{}]", self.place(&b, **place), variant_index.as_usize(), sp));
                    }
                    StatementKind::Intrinsic(x) => {
                        if let NonDivergingIntrinsic::CopyNonOverlapping(_) = **x {
                            st.push(format!("[\"copynonoverlapping\",{}]", sp));
                        }
                    }
                    _ => {}
                }
            }
            let t = match &bb.terminator {
                Some(t) => self.term(&b, t),
                None => "[[\"unreachable\"],[0,0]]".into(),
            };
            blocks.push(format!("{{\"c\":{},\"s\":[{}],\"t\":{}}}", bb.is_cleanup, st.join(","), t));
        }
        let spread = b.spread_arg.map(|l| l.as_usize().to_string()).unwrap_or("null".into());
        let _ = write!(
            head,
            ",\"span\":{},\"nargs\":{},\"spread\":{},\"locals\":[{}],\"body\":[{}]}}",
            sp, b.arg_count, spread, locals.join(","), blocks.join(",")
        );
        self.inst_json.push((n, head));
    }
}

fn dump<'tcx>(tcx: TyCtxt<'tcx>, out: &str) {
    let mut d = D {
        tcx,
        tys: HashMap::new(),
        ty_json: vec![],
        insts: HashMap::new(),
        queue: VecDeque::new(),
        inst_json: vec![],
        n_inst: 0,
        files: vec![],
        env: TypingEnv::fully_monomorphized(),
    };
    let mut generic = vec![];
    for ld in tcx.hir_body_owners() {
        let did: DefId = ld.to_def_id();
        match tcx.def_kind(did) {
            DefKind::Fn | DefKind::AssocFn => {}
            _ => continue,
        }
        if tcx.generics_of(did).requires_monomorphization(tcx) {
            generic.push(esc(&tcx.def_path_str(did)));
            continue;
        }
        let args = ty::GenericArgs::for_item(tcx, did, |p, _| match p.kind {
            ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
            _ => panic!("generic"),
        });
        // methods of trait impls whose trait has lifetime parameters only are fine as they are
        let i = Instance::new_raw(did, args);
        d.inst(i);
    }
    // every named type of the crate, for layout tables
    for ld in tcx.hir_crate_items(()).definitions() {
        let did = ld.to_def_id();
        if matches!(tcx.def_kind(did), DefKind::Struct | DefKind::Enum) && !tcx.generics_of(did).requires_monomorphization(tcx) {
            let t = tcx.type_of(did).instantiate_identity();
            let t = tcx.try_normalize_erasing_regions(d.env, t).unwrap_or(t.skip_norm_wip());
            d.ty(t);
        }
    }
    while let Some((n, i)) = d.queue.pop_front() {
        d.body(n, i);
    }
    let mut consts = vec![];
    for ld in tcx.hir_crate_items(()).definitions() {
        let did = ld.to_def_id();
        if matches!(tcx.def_kind(did), DefKind::Const { .. } | DefKind::AssocConst { .. }) && !tcx.generics_of(did).requires_monomorphization(tcx) && tcx.hir_maybe_body_owned_by(ld).is_some() {
            let name = tcx.def_path_str(did);
            if name.ends_with("::_") { continue; }
            let c = Const::from_unevaluated(tcx, did).instantiate_identity().skip_norm_wip();
            let v = d.constant(c, tcx.def_span(did));
            consts.push(format!("[{},{}]", esc(&name), v));
        }
    }
    while let Some((n, i)) = d.queue.pop_front() {
        d.body(n, i);
    }
    let mut o = String::new();
    let fl: Vec<String> = d.files.iter().map(|f| esc(f)).collect();
    let _ = write!(o, "{{\"crate\":{},\"files\":[{}],\n\"generic\":[{}],\n\"types\":[\n", esc(tcx.crate_name(LOCAL_CRATE).as_str()), fl.join(","), generic.join(","));
    o.push_str(&d.ty_json.join(",\n"));
    o.push_str("],\n\"consts\":[\n");
    o.push_str(&consts.join(",\n"));
    o.push_str("],\n\"insts\":[\n");
    d.inst_json.sort_by_key(|x| x.0);
    let v: Vec<&str> = d.inst_json.iter().map(|x| x.1.as_str()).collect();
    o.push_str(&v.join(",\n"));
    o.push_str("]}\n");
    let tmp = format!("{}.{}", out, std::process::id());
    std::fs::write(&tmp, o).unwrap();
    std::fs::rename(&tmp, out).unwrap();
}

impl Callbacks for Cb {
    fn after_crate_root_parsing(
        &mut self,
        compiler: &rustc_interface::interface::Compiler,
        _k: &mut rustc_ast_crate::Crate,
    ) -> Compilation {
        // The deployed program is built for a target where 16-byte integers are 8-aligned; the
        // account layouts assert that. Lay types out the same way here.
        unsafe {
            let t = &compiler.sess.target as *const rustc_target::spec::Target as *mut rustc_target::spec::Target;
            let s = (*t).data_layout.replace("i128:128", "i128:64");
            (*t).data_layout = s.into();
        }
        Compilation::Continue
    }
    fn after_expansion<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        dump(tcx, &self.out);
        Compilation::Stop
    }
}

extern crate rustc_ast as rustc_ast_crate;

fn main() {
    // argv: [driver, rustc, args...] under RUSTC_WORKSPACE_WRAPPER
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let out = std::env::var("OBDRIVER_OUT").unwrap_or_default();
    let is_target = args.iter().any(|a| a == "openbook_v2" || a == "fixture") && !out.is_empty();
    if !is_target {
        rustc_driver::compiler_entrypoint(&args, &mut rustc_driver::TimePassesCallbacks::default());
        return;
    }
    for a in ["-Zmir-opt-level=0", "-Cpanic=abort", "-Coverflow-checks=on", "-Cdebug-assertions=off", "-Zalways-encode-mir", "--cap-lints=allow"] {
        args.push(a.into());
    }
    rustc_driver::compiler_entrypoint(&args, &mut Cb { out });
}
