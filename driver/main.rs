// MIR fact extractor: a rustc_private driver injected with RUSTC_WORKSPACE_WRAPPER.
// For every fn-like body of the crate being checked it writes, as JSON, the drop-elaborated MIR
// (for coroutines: the MIR before the state transform) with resolved callees and constants.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_index;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypeVisitableExt, TypingEnv};
use rustc_middle::ty::print::with_no_trimmed_paths;
use std::collections::{HashMap, BTreeMap};
use std::fmt::Write as _;
use std::sync::Mutex;

static CORO: Mutex<Vec<(String, String)>> = Mutex::new(Vec::new());

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr<I: IntoIterator<Item = String>>(i: I) -> String {
    let v: Vec<String> = i.into_iter().collect();
    format!("[{}]", v.join(","))
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: HashMap<Ty<'tcx>, usize>,
    type_json: Vec<String>,
    adts: BTreeMap<String, String>,
    adt_queue: Vec<DefId>,
    adt_seen: std::collections::HashSet<DefId>,
    ext_queue: Vec<DefId>,
    ext_seen: std::collections::HashSet<DefId>,
}

// std functions whose own MIR is dumped, so that the analysis needs no model of them
fn ext_wanted(u: &str) -> bool {
    ["core::option::", "core::result::", "core::ops::control_flow::", "core::bool::"].iter().any(|p| u.starts_with(p))
        && !u.contains("expect_failed") && !u.contains("unwrap_failed")
}

fn uid(tcx: TyCtxt<'_>, d: DefId) -> String {
    format!("{}{}", tcx.crate_name(d.krate), tcx.def_path(d).to_string_no_crate_verbose())
}

impl<'tcx> Cx<'tcx> {
    fn new(tcx: TyCtxt<'tcx>) -> Self {
        Cx { tcx, types: HashMap::new(), type_json: vec![], adts: BTreeMap::new(), adt_queue: vec![], adt_seen: Default::default(), ext_queue: vec![], ext_seen: Default::default() }
    }
    fn uid(&self, d: DefId) -> String { uid(self.tcx, d) }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.types.get(&t) { return *i; }
        let idx = self.type_json.len();
        self.types.insert(t, idx);
        self.type_json.push(String::new());
        let s = with_no_trimmed_paths!(format!("{}", t));
        let mut k = String::new();
        match t.kind() {
            ty::Bool => k.push_str("\"k\":\"bool\""),
            ty::Char => k.push_str("\"k\":\"char\""),
            ty::Int(_) => k.push_str("\"k\":\"int\""),
            ty::Uint(_) => k.push_str("\"k\":\"uint\""),
            ty::Float(_) => k.push_str("\"k\":\"float\""),
            ty::Str => k.push_str("\"k\":\"str\""),
            ty::Never => k.push_str("\"k\":\"never\""),
            ty::Adt(def, args) => {
                let did = def.did();
                if self.adt_seen.insert(did) { self.adt_queue.push(did); }
                let a: Vec<String> = args.types().map(|x| self.ty(x).to_string()).collect();
                k = format!("\"k\":\"adt\",\"adt\":{},\"a\":{}", esc(&self.uid(did)), arr(a));
            }
            ty::Foreign(d) => k = format!("\"k\":\"foreign\",\"adt\":{}", esc(&self.uid(*d))),
            ty::Array(x, n) => {
                let n = n.try_to_target_usize(self.tcx).map(|n| n.to_string()).unwrap_or("null".into());
                k = format!("\"k\":\"array\",\"a\":[{}],\"n\":{}", self.ty(*x), n);
            }
            ty::Slice(x) => k = format!("\"k\":\"slice\",\"a\":[{}]", self.ty(*x)),
            ty::RawPtr(x, m) => k = format!("\"k\":\"ptr\",\"a\":[{}],\"mut\":{}", self.ty(*x), m.is_mut()),
            ty::Ref(_, x, m) => k = format!("\"k\":\"ref\",\"a\":[{}],\"mut\":{}", self.ty(*x), m.is_mut()),
            ty::Tuple(xs) => {
                let a: Vec<String> = xs.iter().map(|x| self.ty(x).to_string()).collect();
                k = format!("\"k\":\"tuple\",\"a\":{}", arr(a));
            }
            ty::FnDef(d, _) => k = format!("\"k\":\"fndef\",\"d\":{}", esc(&self.uid(*d))),
            ty::FnPtr(..) => k.push_str("\"k\":\"fnptr\""),
            ty::Dynamic(preds, _) => {
                let p = preds.principal_def_id().map(|d| self.uid(d)).unwrap_or_default();
                k = format!("\"k\":\"dyn\",\"trait\":{}", esc(&p));
            }
            ty::Closure(d, args) => {
                let ups: Vec<String> = args.as_closure().upvar_tys().iter().map(|x| self.ty(x).to_string()).collect();
                k = format!("\"k\":\"closure\",\"d\":{},\"a\":{}", esc(&self.uid(*d)), arr(ups));
            }
            ty::Coroutine(d, args) => {
                let ups: Vec<String> = args.as_coroutine().upvar_tys().iter().map(|x| self.ty(x).to_string()).collect();
                k = format!("\"k\":\"coroutine\",\"d\":{},\"a\":{}", esc(&self.uid(*d)), arr(ups));
            }
            ty::Param(p) => k = format!("\"k\":\"param\",\"name\":{}", esc(p.name.as_str())),
            ty::Alias(..) => {
                k.push_str("\"k\":\"alias\"");
            }
            _ => k.push_str("\"k\":\"other\""),
        }
        self.type_json[idx] = format!("{{\"s\":{},{}}}", esc(&s), k);
        idx
    }

    fn place(&mut self, body: &Body<'tcx>, p: &Place<'tcx>) -> String {
        let mut out = format!("[{}", p.local.as_usize());
        let mut pt = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            match e {
                ProjectionElem::Deref => out.push_str(",\"*\""),
                ProjectionElem::Field(f, fty) => {
                    let name = match pt.ty.kind() {
                        ty::Adt(def, _) => {
                            let v = pt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            if def.is_enum() && pt.variant_index.is_none() { String::new() }
                            else { def.variants().get(v).and_then(|v| v.fields.get(f)).map(|f| f.name.to_string()).unwrap_or_default() }
                        }
                        _ => String::new(),
                    };
                    let _ = fty;
                    let _ = write!(out, ",[\"f\",{},{}]", f.as_usize(), esc(&name));
                }
                ProjectionElem::Index(l) => { let _ = write!(out, ",[\"i\",{}]", l.as_usize()); }
                ProjectionElem::ConstantIndex { offset, from_end, .. } => { let _ = write!(out, ",[\"ci\",{},{}]", offset, from_end); }
                ProjectionElem::Subslice { from, to, from_end } => { let _ = write!(out, ",[\"ss\",{},{},{}]", from, to, from_end); }
                ProjectionElem::Downcast(name, v) => {
                    let n = name.map(|s| s.to_string()).unwrap_or_default();
                    let _ = write!(out, ",[\"v\",{},{}]", v.as_usize(), esc(&n));
                }
                _ => out.push_str(",[\"o\"]"),
            }
            pt = pt.projection_ty(self.tcx, e);
        }
        out.push(']');
        out
    }

    fn const_bytes_json(&self, bytes: &[u8]) -> String {
        match std::str::from_utf8(bytes) {
            Ok(s) => format!("\"s\":{}", esc(s)),
            Err(_) => format!("\"b\":{}", arr(bytes.iter().map(|b| b.to_string()))),
        }
    }

    fn const_value(&mut self, val: Option<ConstValue>, t: Ty<'tcx>) -> String {
        let tcx = self.tcx;
        if let (Some(c), ty::Adt(def, _)) = (val, t.kind()) {
            if t.has_param() && tcx.lang_items().option_type() == Some(def.did()) {
                // a null niche: the absent value of an optional reference
                if let (ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Int(i)), Some(x)) = (c, t.walk().nth(1).and_then(|x| x.as_type())) {
                    if x.is_ref() && i.is_null() { return "\"av\":[0,[]]".to_string(); }
                }
            }
            if (def.is_enum() || def.is_struct()) && !def.is_box() && !matches!(c, ConstValue::ZeroSized) && !t.has_param() {
                if let Some(d) = tcx.try_destructure_mir_constant_for_user_output(c, t) {
                    let vi = d.variant.map(|x| x.as_usize()).unwrap_or(0);
                    let fields: Vec<(ConstValue, Ty<'tcx>)> = d.fields.to_vec();
                    let fs: Vec<String> = fields.into_iter().map(|(fv, ft)| {
                        let id = self.ty(ft);
                        let v = self.const_value(Some(fv), ft);
                        format!("{{\"t\":{},{}}}", id, v)
                    }).collect();
                    return format!("\"av\":[{},[{}]]", vi, fs.join(","));
                }
            }
        }
        match val {
            Some(ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Int(i))) => {
                let bits = i.to_bits(i.size());
                let signed = match t.kind() {
                    ty::Int(_) => {
                        let sz = i.size().bits();
                        let sh = 128 - sz;
                        format!("{}", ((bits << sh) as i128) >> sh)
                    }
                    _ => format!("{}", bits),
                };
                if let ty::Float(f) = t.kind() {
                    let fl = match f {
                        ty::FloatTy::F32 => f32::from_bits(bits as u32) as f64,
                        _ => f64::from_bits(bits as u64),
                    };
                    format!("\"f\":{}", esc(&format!("{:?}", fl)))
                } else {
                    format!("\"i\":{}", if bits > (1u128 << 100) { format!("\"{}\"", signed) } else { signed })
                }
            }
            Some(ConstValue::ZeroSized) => "\"z\":true".to_string(),
            Some(v @ ConstValue::Slice { .. }) => match v.try_get_slice_bytes_for_diagnostics(tcx) {
                Some(b) => { let b = b.to_vec(); self.const_bytes_json(&b) }
                None => "\"u\":true".to_string(),
            },
            Some(ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Ptr(p, _))) => {
                let (prov, off) = p.into_raw_parts();
                match tcx.try_get_global_alloc(prov.alloc_id()) {
                    Some(mir::interpret::GlobalAlloc::Memory(a)) => {
                        let a = a.inner();
                        if a.provenance().ptrs().is_empty() {
                            let len = a.len();
                            let o = off.bytes() as usize;
                            if o <= len && len < 4096 {
                                let b = a.inspect_with_uninit_and_ptr_outside_interpreter(o..len).to_vec();
                                format!("\"p\":true,{}", self.const_bytes_json(&b))
                            } else { "\"u\":true".to_string() }
                        } else if a.len() == 16 && off.bytes() == 0 {
                            // &&str
                            "\"u\":true".to_string()
                        } else { "\"u\":true".to_string() }
                    }
                    Some(mir::interpret::GlobalAlloc::Function { instance, .. }) => format!("\"fnptr\":{}", esc(&self.uid(instance.def_id()))),
                    Some(mir::interpret::GlobalAlloc::Static(d)) => format!("\"static\":{}", esc(&self.uid(d))),
                    _ => "\"u\":true".to_string(),
                }
            }
            Some(ConstValue::Indirect { alloc_id, offset }) => {
                match tcx.try_get_global_alloc(alloc_id) {
                    Some(mir::interpret::GlobalAlloc::Memory(a)) => {
                        let a = a.inner();
                        let o = offset.bytes() as usize;
                        if a.provenance().ptrs().is_empty() && a.len() < 4096 && o <= a.len() {
                            let b = a.inspect_with_uninit_and_ptr_outside_interpreter(o..a.len()).to_vec();
                            format!("\"ind\":{}", arr(b.iter().map(|x| x.to_string())))
                        } else { "\"u\":true".to_string() }
                    }
                    _ => "\"u\":true".to_string(),
                }
            }
            None => "\"u\":true".to_string(),
        }
    }

    fn constant(&mut self, env: TypingEnv<'tcx>, c: &ConstOperand<'tcx>) -> String {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let tid = self.ty(t);
        if let ty::FnDef(d, args) = t.kind() {
            return format!("{{\"t\":{},\"fn\":{}}}", tid, self.callee(env, *d, args.skip_binder()));
        }
        let mut extra = String::new();
        if let Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                return format!("{{\"t\":{},\"promoted\":{},\"owner\":{}}}", tid, p.as_usize(), esc(&self.uid(u.def)));
            }
            extra = format!(",\"def\":{}", esc(&self.uid(u.def)));
        }
        let val = match c.const_ {
            Const::Val(v, _) => Some(v),
            Const::Unevaluated(..) | Const::Ty(..) => c.const_.eval(tcx, env, c.span).ok(),
        };
        let v = self.const_value(val, t);
        format!("{{\"t\":{},{}{}}}", tid, v, extra)
    }

    /// Content of an immutable static of type &str.
    fn static_str(&self, did: DefId) -> Option<String> {
        let tcx = self.tcx;
        if !matches!(tcx.def_kind(did), DefKind::Static { .. }) || tcx.is_mutable_static(did) { return None; }
        match tcx.type_of(did).instantiate_identity().skip_norm_wip().kind() {
            ty::Ref(_, i, _) if i.is_str() => {}
            _ => return None,
        }
        let a = tcx.eval_static_initializer(did).ok()?;
        let a = a.inner();
        if a.len() != 16 { return None; }
        let raw = a.inspect_with_uninit_and_ptr_outside_interpreter(0..16);
        let off = u64::from_le_bytes(raw[0..8].try_into().unwrap()) as usize;
        let len = u64::from_le_bytes(raw[8..16].try_into().unwrap()) as usize;
        let (_, prov) = *a.provenance().ptrs().iter().next()?;
        match tcx.try_get_global_alloc(prov.alloc_id()) {
            Some(mir::interpret::GlobalAlloc::Memory(m)) => {
                let m = m.inner();
                if off + len > m.len() { return None; }
                String::from_utf8(m.inspect_with_uninit_and_ptr_outside_interpreter(off..off + len).to_vec()).ok()
            }
            _ => None,
        }
    }

    fn callee(&mut self, env: TypingEnv<'tcx>, d: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let mut o = format!("{{\"d\":{},\"n\":{}", esc(&self.uid(d)), esc(&tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default()));
        let p = with_no_trimmed_paths!(tcx.def_path_str(d));
        let _ = write!(o, ",\"p\":{}", esc(&p));
        if tcx.is_foreign_item(d) { let _ = write!(o, ",\"ext\":{}", esc(tcx.item_name(d).as_str())); }
        let tys: Vec<String> = args.types().map(|x| self.ty(x).to_string()).collect();
        let _ = write!(o, ",\"ga\":{}", arr(tys));
        if let Some(tr) = tcx.trait_of_assoc(d) {
            let _ = write!(o, ",\"tr\":{}", esc(&self.uid(tr)));
        }
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            let er = tcx.erase_and_anonymize_regions(args);
            if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, d, er) {
                let (kind, rd) = match inst.def {
                    ty::InstanceKind::Virtual(x, _) => ("virtual", x),
                    ty::InstanceKind::Item(x) => ("item", x),
                    ty::InstanceKind::Intrinsic(x) => ("intrinsic", x),
                    other => ("shim", other.def_id()),
                };
                let _ = write!(o, ",\"rk\":\"{}\",\"r\":{}", kind, esc(&self.uid(rd)));
                if !rd.is_local() && kind == "item" && ext_wanted(&self.uid(rd)) && tcx.is_mir_available(rd) && self.ext_seen.insert(rd) {
                    self.ext_queue.push(rd);
                }
                if let Some(im) = tcx.impl_of_assoc(rd) {
                    let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                    let _ = write!(o, ",\"rself\":{}", self.ty(st));
                }
            }
        }
        o.push('}');
        o
    }

    fn operand(&mut self, body: &Body<'tcx>, env: TypingEnv<'tcx>, op: &Operand<'tcx>) -> String {
        match op {
            Operand::Copy(p) => format!("{{\"c\":{}}}", self.place(body, p)),
            Operand::Move(p) => format!("{{\"m\":{}}}", self.place(body, p)),
            Operand::Constant(c) => format!("{{\"k\":{}}}", self.constant(env, c)),
            _ => "{\"rt\":true}".to_string(),
        }
    }

    fn rvalue(&mut self, body: &Body<'tcx>, env: TypingEnv<'tcx>, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(body, env, o)),
            Rvalue::Repeat(o, n) => {
                let n = n.try_to_target_usize(self.tcx).map(|n| n.to_string()).unwrap_or("null".into());
                format!("[\"repeat\",{},{}]", self.operand(body, env, o), n)
            }
            Rvalue::Ref(_, bk, p) => format!("[\"ref\",{},{}]", self.place(body, p), matches!(bk, BorrowKind::Mut { .. })),
            Rvalue::RawPtr(k, p) => format!("[\"ref\",{},{}]", self.place(body, p), matches!(k, RawPtrKind::Mut)),
            Rvalue::Reborrow(_, m, p) => format!("[\"use\",{{\"c\":{}}},{}]", self.place(body, p), m.is_mut()),
            Rvalue::ThreadLocalRef(d) => format!("[\"tls\",{}]", esc(&self.uid(*d))),
            Rvalue::Cast(k, o, t) => {
                let kk = format!("{:?}", k);
                let t = self.ty(*t);
                format!("[\"cast\",{},{},{}]", self.operand(body, env, o), t, esc(&kk))
            }
            Rvalue::BinaryOp(op, b) => format!("[\"bin\",\"{:?}\",{},{}]", op, self.operand(body, env, &b.0), self.operand(body, env, &b.1)),
            Rvalue::UnaryOp(op, o) => format!("[\"un\",\"{:?}\",{}]", op, self.operand(body, env, o)),
            Rvalue::Discriminant(p) => {
                let t = self.ty(p.ty(body, self.tcx).ty);
                format!("[\"disc\",{},{}]", self.place(body, p), t)
            }
            Rvalue::Aggregate(k, ops) => {
                let ops: Vec<String> = ops.iter().map(|o| self.operand(body, env, o)).collect();
                let kind = match &**k {
                    AggregateKind::Array(_) => "[\"array\"]".to_string(),
                    AggregateKind::Tuple => "[\"tuple\"]".to_string(),
                    AggregateKind::Adt(d, v, _, _, active) => {
                        let def = self.tcx.adt_def(*d);
                        if self.adt_seen.insert(*d) { self.adt_queue.push(*d); }
                        let vn = def.variant(*v).name.to_string();
                        let act = active.map(|f| f.as_usize().to_string()).unwrap_or("null".into());
                        format!("[\"adt\",{},{},{},{}]", esc(&self.uid(*d)), v.as_usize(), esc(&vn), act)
                    }
                    AggregateKind::Closure(d, _) => format!("[\"closure\",{}]", esc(&self.uid(*d))),
                    AggregateKind::Coroutine(d, _) => format!("[\"coroutine\",{}]", esc(&self.uid(*d))),
                    AggregateKind::CoroutineClosure(d, _) => format!("[\"coroutine\",{}]", esc(&self.uid(*d))),
                    AggregateKind::RawPtr(..) => "[\"rawptr\"]".to_string(),
                };
                format!("[\"agg\",{},{}]", kind, arr(ops))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",{{\"c\":{}}}]", self.place(body, p)),
            Rvalue::WrapUnsafeBinder(o, _) => format!("[\"use\",{}]", self.operand(body, env, o)),
        }
    }

    fn line(&self, sp: rustc_span::Span) -> String {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let lo = sm.lookup_char_pos(sp.lo());
        lo.line.to_string()
    }
    fn loc(&self, sp: rustc_span::Span) -> String {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let lo = sm.lookup_char_pos(sp.lo());
        let f = match &lo.file.name {
            rustc_span::FileName::Real(r) => r.local_path().map(|p| p.display().to_string()).unwrap_or_default(),
            _ => String::new(),
        };
        format!("{}:{}", f, lo.line)
    }

    fn blocks(&mut self, body: &Body<'tcx>, env: TypingEnv<'tcx>) -> String {
        let mut bl = vec![];
        for (_bb, data) in body.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for s in &data.statements {
                match &s.kind {
                    StatementKind::Assign(b) => {
                        let p = self.place(body, &b.0);
                        let r = self.rvalue(body, env, &b.1);
                        st.push(format!("[\"=\",{},{},{}]", p, r, self.line(s.source_info.span)));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(body, place);
                        st.push(format!("[\"sd\",{},{}]", p, variant_index.as_usize()));
                    }
                    StatementKind::StorageDead(l) => st.push(format!("[\"dead\",{}]", l.as_usize())),
                    _ => {}
                }
            }
            let term = data.terminator();
            let ln = self.line(term.source_info.span);
            let unw = |u: &UnwindAction| match u { UnwindAction::Cleanup(b) => b.as_usize().to_string(), _ => "null".to_string() };
            let t = match &term.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let tv: Vec<String> = targets.iter().map(|(v, b)| format!("[{},{}]", if v > (1u128 << 64) { format!("\"{}\"", v) } else { v.to_string() }, b.as_usize())).collect();
                    let dt = discr.ty(body, self.tcx);
                    let dt = self.ty(dt);
                    format!("[\"switch\",{},{},{},{}]", self.operand(body, env, discr), arr(tv), targets.otherwise().as_usize(), dt)
                }
                TerminatorKind::Return => "[\"return\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::UnwindResume => "[\"resume\"]".into(),
                TerminatorKind::UnwindTerminate(_) => "[\"abort\"]".into(),
                TerminatorKind::Drop { place, target, unwind, .. } => {
                    let t = self.ty(place.ty(body, self.tcx).ty);
                    format!("[\"drop\",{},{},{},{}]", self.place(body, place), t, target.as_usize(), unw(unwind))
                }
                TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                    let f = self.operand(body, env, func);
                    let a: Vec<String> = args.iter().map(|a| self.operand(body, env, &a.node)).collect();
                    let at: Vec<String> = args.iter().map(|a| { let t = a.node.ty(body, self.tcx); self.ty(t).to_string() }).collect();
                    let d = self.place(body, destination);
                    let dt = destination.ty(body, self.tcx).ty;
                    let dt = self.ty(dt);
                    let tg = target.map(|t| t.as_usize().to_string()).unwrap_or("null".into());
                    format!("[\"call\",{},{},{},{},{},{},{},{}]", f, arr(a), d, tg, unw(unwind), ln, arr(at), dt)
                }
                TerminatorKind::TailCall { .. } => "[\"unreachable\"]".into(),
                TerminatorKind::Assert { cond, expected, target, msg, .. } => {
                    let kind = match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds".to_string(),
                        AssertKind::Overflow(op, ..) => format!("overflow:{:?}", op),
                        AssertKind::OverflowNeg(_) => "overflow:Neg".into(),
                        AssertKind::DivisionByZero(_) | AssertKind::RemainderByZero(_) => "div0".into(),
                        _ => "other".into(),
                    };
                    let ops: Vec<String> = match &**msg {
                        AssertKind::BoundsCheck { len, index } => vec![self.operand(body, env, len), self.operand(body, env, index)],
                        AssertKind::Overflow(_, a, b) => vec![self.operand(body, env, a), self.operand(body, env, b)],
                        AssertKind::OverflowNeg(a) => vec![self.operand(body, env, a)],
                        _ => vec![],
                    };
                    format!("[\"assert\",{},{},{},{},{},{}]", self.operand(body, env, cond), expected, target.as_usize(), esc(&kind), ln, arr(ops))
                }
                TerminatorKind::Yield { resume, resume_arg, .. } => format!("[\"yield\",{},{}]", resume.as_usize(), self.place(body, resume_arg)),
                TerminatorKind::CoroutineDrop => "[\"resume\"]".into(),
                TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                TerminatorKind::InlineAsm { .. } => "[\"unreachable\"]".into(),
            };
            bl.push(format!("{{\"s\":{},\"t\":{},\"ln\":{},\"cl\":{}}}", arr(st), t, ln, data.is_cleanup));
        }
        arr(bl)
    }

    fn body(&mut self, did: DefId, body: &Body<'tcx>, promoted: Option<&rustc_middle::mir::Promoted>) -> String {
        let tcx = self.tcx;
        let env = TypingEnv::post_analysis(tcx, did);
        let mut o = String::from("{");
        let _ = write!(o, "\"id\":{}", esc(&self.uid(did)));
        if let Some(p) = promoted { let _ = write!(o, ",\"promoted\":{}", p.as_usize()); }
        let kind = tcx.def_kind(did);
        let _ = write!(o, ",\"kind\":{}", esc(&format!("{:?}", kind)));
        if tcx.is_coroutine(did) { o.push_str(",\"coroutine\":true"); }
        let _ = write!(o, ",\"p\":{}", esc(&with_no_trimmed_paths!(tcx.def_path_str(did))));
        if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
            let _ = write!(o, ",\"n\":{}", esc(tcx.item_name(did).as_str()));
            let vis = tcx.visibility(did);
            let _ = write!(o, ",\"pub\":{}", vis.is_public());
            if let Some(im) = tcx.impl_of_assoc(did) {
                let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                let _ = write!(o, ",\"self\":{}", self.ty(st));
                if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                    let tr = tr.instantiate_identity().skip_norm_wip();
                    let _ = write!(o, ",\"trait\":{}", esc(&self.uid(tr.def_id)));
                    if let Some(ti) = tcx.opt_associated_item(did).and_then(|a| a.trait_item_def_id()) {
                        let _ = write!(o, ",\"titem\":{}", esc(&self.uid(ti)));
                    }
                }
            } else if let Some(tr) = tcx.trait_of_assoc(did) {
                let _ = write!(o, ",\"intrait\":{}", esc(&self.uid(tr)));
            }
        }
        if let Some(par) = tcx.opt_parent(did) {
            if matches!(kind, DefKind::Closure) { let _ = write!(o, ",\"parent\":{}", esc(&self.uid(par))); }
        }
        let _ = write!(o, ",\"loc\":{}", esc(&self.loc(body.span)));
        let _ = write!(o, ",\"argc\":{}", body.arg_count);
        let ls: Vec<String> = body.local_decls.iter().map(|l| self.ty(l.ty).to_string()).collect();
        let _ = write!(o, ",\"locals\":{}", arr(ls));
        let mut names: Vec<String> = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                names.push(format!("[{},{}]", esc(v.name.as_str()), self.place(body, &p)));
            }
        }
        let _ = write!(o, ",\"names\":{}", arr(names));
        let _ = write!(o, ",\"blocks\":{}", self.blocks(body, env));
        o.push('}');
        o
    }

    fn flush_adts(&mut self) {
        while let Some(d) = self.adt_queue.pop() {
            let def = self.tcx.adt_def(d);
            let mut vs = vec![];
            let local = true;
            for (vi, v) in def.variants().iter_enumerated() {
                let disc = if def.is_enum() { def.discriminant_for_variant(self.tcx, vi).val.to_string() } else { "0".into() };
                let fs: Vec<String> = if local { v.fields.iter().map(|f| {
                    let t = self.tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                    let keep = d.is_local() || self.tcx.crate_name(d.krate).as_str().starts_with("polodb") || def.is_enum();
                    if keep { format!("[{},{}]", esc(f.name.as_str()), self.ty(t)) } else { format!("[{},-1]", esc(f.name.as_str())) }
                }).collect() } else { vec![] };
                vs.push(format!("[{},{},{}]", esc(v.name.as_str()), if disc.len() > 18 { format!("\"{}\"", disc) } else { disc }, arr(fs)));
            }
            let dtor = match self.tcx.adt_destructor(d) { Some(x) => esc(&self.uid(x.did)), None => "null".into() };
            let kind = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
            let g: Vec<String> = self.tcx.generics_of(d).own_params.iter().filter(|p| matches!(p.kind, ty::GenericParamDefKind::Type{..})).map(|p| esc(p.name.as_str())).collect();
            let loc = if d.is_local() { self.loc(self.tcx.def_span(d)) } else { String::new() };
            self.adts.insert(self.uid(d), format!("{{\"kind\":\"{}\",\"v\":{},\"drop\":{},\"g\":{},\"local\":{},\"loc\":{}}}", kind, arr(vs), dtor, arr(g), d.is_local(), esc(&loc)));
        }
    }
}

fn wanted(tcx: TyCtxt<'_>) -> bool {
    let n = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE);
    let want = std::env::var("VP_FACTS_CRATES").unwrap_or_default();
    want.split(',').any(|w| w == n.as_str())
}

fn my_mir_promoted<'tcx>(tcx: TyCtxt<'tcx>, def: LocalDefId) -> (
    &'tcx rustc_data_structures::steal::Steal<Body<'tcx>>,
    &'tcx rustc_data_structures::steal::Steal<rustc_index_vec<'tcx>>,
) {
    let r = (rustc_interface::DEFAULT_QUERY_PROVIDERS.queries.mir_promoted)(tcx, def);
    if tcx.is_coroutine(def.to_def_id()) && wanted(tcx) {
        let b = r.0.borrow();
        // keep a clone alive for the analysis phase
        let boxed: Box<Body<'tcx>> = Box::new(b.clone());
        let p = Box::into_raw(boxed) as usize;
        CORO.lock().unwrap().push((uid(tcx, def.to_def_id()), p.to_string()));
    }
    r
}
#[allow(non_camel_case_types)]
type rustc_index_vec<'tcx> = rustc_index::IndexVec<mir::Promoted, Body<'tcx>>;

struct Cb;
impl rustc_driver::Callbacks for Cb {
    fn config(&mut self, config: &mut rustc_interface::Config) {
        config.override_queries = Some(|_s, p| {
            p.queries.mir_promoted = my_mir_promoted;
        });
    }
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if !wanted(tcx) { return Compilation::Continue; }
        let mut cx = Cx::new(tcx);
        let mut bodies = vec![];
        let mut impls = vec![];
        let mut consts = vec![];
        let mut statics = vec![];
        for def in tcx.hir_body_owners() {
            let did = def.to_def_id();
            match tcx.def_kind(did) {
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {}
                DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } => {
                    consts.push(esc(&cx.uid(did)));
                    if let Some(v) = cx.static_str(did) {
                        let u = esc(&cx.uid(did));
                        statics.push(format!("{}:{}", u, esc(&v)));
                    }
                    continue;
                }
                _ => continue,
            }
            if tcx.is_coroutine(did) {
                let u = cx.uid(did);
                let c = CORO.lock().unwrap().iter().find(|(k, _)| *k == u).map(|x| x.1.clone());
                if let Some(p) = c {
                    let p: usize = p.parse().unwrap();
                    let b: &Body<'tcx> = unsafe { &*(p as *const Body<'tcx>) };
                    bodies.push(cx.body(did, b, None));
                }
            } else {
                let b = tcx.optimized_mir(did);
                bodies.push(cx.body(did, b, None));
            }
            for (p, b) in tcx.promoted_mir(did).iter_enumerated() {
                bodies.push(cx.body(did, b, Some(&p)));
            }
        }
        let mut ext = vec![];
        while let Some(d) = cx.ext_queue.pop() {
            let b = tcx.optimized_mir(d);
            ext.push(cx.body(d, b, None));
        }
        // trait impls
        for id in tcx.hir_crate_items(()).definitions() {
            let did = id.to_def_id();
            if let DefKind::Impl { of_trait: true } = tcx.def_kind(did) {
                let tr = tcx.impl_trait_ref(did).instantiate_identity().skip_norm_wip();
                let st = tr.self_ty();
                let st = cx.ty(st);
                let mut ms = vec![];
                for it in tcx.associated_items(did).in_definition_order() {
                    if let Some(t) = it.trait_item_def_id() {
                        ms.push(format!("[{},{}]", esc(&cx.uid(t)), esc(&cx.uid(it.def_id))));
                    }
                }
                impls.push(format!("{{\"trait\":{},\"self\":{},\"m\":{}}}", esc(&cx.uid(tr.def_id)), st, arr(ms)));
            }
        }
        // every local ADT
        for id in tcx.hir_crate_items(()).definitions() {
            let did = id.to_def_id();
            if matches!(tcx.def_kind(did), DefKind::Struct | DefKind::Enum) {
                if cx.adt_seen.insert(did) { cx.adt_queue.push(did); }
            }
        }
        cx.flush_adts();
        let name = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
        let ct: Vec<String> = tcx.crate_types().iter().map(|c| format!("{:?}", c)).collect();
        let mut out = String::new();
        out.push_str("{\"crate\":");
        out.push_str(&esc(&name));
        let _ = write!(out, ",\"ctypes\":{}", esc(&ct.join(",")));
        out.push_str(",\n\"types\":[\n");
        out.push_str(&cx.type_json.join(",\n"));
        out.push_str("],\n\"adts\":{\n");
        let a: Vec<String> = cx.adts.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect();
        out.push_str(&a.join(",\n"));
        out.push_str("},\n\"impls\":[\n");
        out.push_str(&impls.join(",\n"));
        out.push_str("],\n\"statics\":{");
        out.push_str(&statics.join(",\n"));
        out.push_str("},\n\"ext\":[\n");
        out.push_str(&ext.join(",\n"));
        out.push_str("],\n\"bodies\":[\n");
        out.push_str(&bodies.join(",\n"));
        out.push_str("]}\n");
        let dir = std::env::var("VP_FACTS_DIR").unwrap_or_else(|_| ".".into());
        let f = format!("{}/{}.json", dir, name);
        std::fs::write(&f, out).expect("write facts");
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    rustc_driver::install_ice_hook("", |_| ());
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) { args.remove(1); }
    args.push("-Zmir-opt-level=0".into());
    args.push("-Zalways-encode-mir=no".into());
    rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb))
}
