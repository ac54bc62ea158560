//! MIR fact extractor.  Runs as RUSTC_WRAPPER.  For the harness crate it walks every function that is
//! reachable (after monomorphisation) from the entry points `h_*` and writes their MIR, the types and
//! the vtables they use as JSON.  For all other crates it simply execs rustc.
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::adjustment::PointerCoercion;
use rustc_middle::ty::{self, EarlyBinder, Instance, InstanceKind, ShimKind, Ty, TyCtxt, TyKind, TypingEnv};
use rustc_span::{Span, DUMMY_SP};
use rustc_ast::attr::AttributeExt as _;
use std::collections::{HashMap, VecDeque};
use std::fmt::Write as _;

fn q(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr(v: Vec<String>) -> String {
    format!("[{}]", v.join(","))
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: HashMap<Ty<'tcx>, usize>,
    ty_out: Vec<Option<String>>,
    ty_queue: VecDeque<(usize, Ty<'tcx>)>,
    fns: HashMap<Instance<'tcx>, usize>,
    fn_out: Vec<Option<String>>,
    fn_queue: VecDeque<(usize, Instance<'tcx>)>,
    vts: HashMap<(Ty<'tcx>, Ty<'tcx>), usize>,
    vt_out: Vec<Option<String>>,
    models: HashMap<String, DefId>,
    ords: Vec<String>,
}

fn env<'tcx>() -> TypingEnv<'tcx> {
    TypingEnv::fully_monomorphized()
}

const STD: &[&str] = &["core", "alloc", "std"];
// Bodies of these library items are analysed like repository code; everything else in the standard
// library is modelled by the interpreter or is opaque.
const INLINE: &[&str] = &[
    "core::option", "core::result", "core::cmp", "core::ops", "core::pin", "core::task", "core::convert",
    "core::clone", "core::default", "core::iter", "core::future", "core::tuple", "core::bool", "core::hash",
    "core::mem", "core::cell", "core::borrow", "core::marker", "alloc::boxed", "alloc::borrow",
    "core::array", "core::panic::unwind_safe", "core::bool",
];
const OPAQUE_CRATES: &[&str] = &[
    "tracing_core", "tokio", "async_std", "smol", "async_task", "async_executor", "async_global_executor", "log",
    "parking", "wasm_bindgen", "wasm_bindgen_futures", "js_sys", "event_listener", "catty", "spin",
    "atomic_waker", "memchr", "slab", "futures_task", "futures_channel",
];

impl<'tcx> Cx<'tcx> {
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        let t = self.tcx.try_normalize_erasing_regions(env(), ty::Unnormalized::new_wip(t)).unwrap_or(t);
        if let Some(&i) = self.tys.get(&t) {
            return i;
        }
        let i = self.ty_out.len();
        self.tys.insert(t, i);
        self.ty_out.push(None);
        self.ty_queue.push_back((i, t));
        i
    }
    fn func(&mut self, i: Instance<'tcx>) -> usize {
        if let Some(&k) = self.fns.get(&i) {
            return k;
        }
        let k = self.fn_out.len();
        self.fns.insert(i, k);
        self.fn_out.push(None);
        self.fn_queue.push_back((k, i));
        k
    }
    fn crate_name(&self, d: DefId) -> String {
        self.tcx.crate_name(d.krate).to_string()
    }
    /// the path where the item is defined (not where it is re-exported)
    fn def_mod(&self, d: DefId) -> String {
        let mut s = self.crate_name(d);
        for p in self.tcx.def_path(d).data.iter() {
            let n = format!("{}", p.as_sym(false));
            s.push_str("::");
            s.push_str(&n);
        }
        s
    }
    fn norm<T: ty::TypeFoldable<TyCtxt<'tcx>> + Clone>(&self, i: Instance<'tcx>, v: T) -> T {
        i.instantiate_mir_and_normalize_erasing_regions(self.tcx, env(), EarlyBinder::bind(self.tcx, v))
    }

    /// the comparison functions an ordered collection uses on its elements
    fn ordering(&mut self, coll: Ty<'tcx>, elem: Ty<'tcx>) {
        let tcx = self.tcx;
        let mut ms = vec![];
        let po = tcx.lang_items().partial_ord_trait();
        let o = tcx.get_diagnostic_item(rustc_span::Symbol::intern("Ord"));
        for (tr, names) in [(po, vec!["le", "lt", "ge", "gt", "partial_cmp"]), (o, vec!["cmp"])] {
            let Some(tr) = tr else { continue };
            for it in tcx.associated_items(tr).in_definition_order() {
                let n = it.name().to_string();
                if !names.contains(&n.as_str()) {
                    continue;
                }
                let targs = if n == "cmp" { tcx.mk_args(&[elem.into()]) } else { tcx.mk_args(&[elem.into(), elem.into()]) };
                if let Ok(Some(inst)) = Instance::try_resolve(tcx, env(), it.def_id, targs) {
                    let k = self.func(inst);
                    ms.push(format!("{}:{k}", q(&n)));
                }
            }
        }
        let c = self.ty(coll);
        let e = self.ty(elem);
        self.ords.push(format!("{{\"coll\":{c},\"elem\":{e},\"fns\":{{{}}}}}", ms.join(",")));
    }

    fn emit_ty(&mut self, t: Ty<'tcx>) -> String {
        let tcx = self.tcx;
        let name = q(&with_paths(|| t.to_string()));
        if let TyKind::Adt(a, args) = *t.kind() {
            let p = self.def_mod(a.did());
            if STD.contains(&self.crate_name(a.did()).as_str())
                && (p.ends_with("::BinaryHeap") || p.ends_with("::BTreeMap") || p.ends_with("::BTreeSet"))
            {
                self.ordering(t, args.type_at(0));
            }
        }
        match *t.kind() {
            TyKind::Bool => format!("{{\"k\":\"bool\",\"s\":{name}}}"),
            TyKind::Char => format!("{{\"k\":\"int\",\"s\":{name}}}"),
            TyKind::Int(_) | TyKind::Uint(_) => format!("{{\"k\":\"int\",\"s\":{name}}}"),
            TyKind::Float(_) => format!("{{\"k\":\"float\",\"s\":{name}}}"),
            TyKind::Never => format!("{{\"k\":\"never\",\"s\":{name}}}"),
            TyKind::Str => format!("{{\"k\":\"str\",\"s\":{name}}}"),
            TyKind::Ref(_, p, m) => {
                let p = self.ty(p);
                format!("{{\"k\":\"ref\",\"s\":{name},\"p\":{p},\"m\":{}}}", m.is_mut())
            }
            TyKind::RawPtr(p, m) => {
                let p = self.ty(p);
                format!("{{\"k\":\"ptr\",\"s\":{name},\"p\":{p},\"m\":{}}}", m.is_mut())
            }
            TyKind::Slice(p) => {
                let p = self.ty(p);
                format!("{{\"k\":\"slice\",\"s\":{name},\"p\":{p}}}")
            }
            TyKind::Array(p, n) => {
                let p = self.ty(p);
                let n = n.try_to_target_usize(tcx).map(|n| n as i64).unwrap_or(-1);
                format!("{{\"k\":\"array\",\"s\":{name},\"p\":{p},\"n\":{n}}}")
            }
            TyKind::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|t| self.ty(t).to_string()).collect();
                format!("{{\"k\":\"tup\",\"s\":{name},\"f\":{}}}", arr(v))
            }
            TyKind::Dynamic(preds, _) => {
                let p = preds.principal_def_id().map(|d| tcx.def_path_str(d)).unwrap_or_default();
                format!("{{\"k\":\"dyn\",\"s\":{name},\"trait\":{}}}", q(&p))
            }
            TyKind::FnDef(d, args) => {
                let args = args.skip_binder();
                match Instance::try_resolve(tcx, env(), d, args) {
                    Ok(Some(i)) => {
                        let f = self.func(i);
                        format!("{{\"k\":\"fndef\",\"s\":{name},\"fn\":{f}}}")
                    }
                    _ => format!("{{\"k\":\"fndef\",\"s\":{name},\"fn\":-1}}"),
                }
            }
            TyKind::FnPtr(..) => format!("{{\"k\":\"fnptr\",\"s\":{name}}}"),
            TyKind::Closure(d, args) => {
                let v: Vec<String> = args.as_closure().upvar_tys().iter().map(|t| self.ty(t).to_string()).collect();
                let body = self.func(Instance::new_raw(d, args));
                format!("{{\"k\":\"clo\",\"s\":{name},\"def\":{},\"fn\":{body},\"f\":{}}}", q(&self.def_mod(d)), arr(v))
            }
            TyKind::Coroutine(d, args) => {
                let v: Vec<String> = args.as_coroutine().upvar_tys().iter().map(|t| self.ty(t).to_string()).collect();
                let mut variants = vec![];
                if let Ok(layout) = tcx.coroutine_layout(d, args) {
                    for (_vi, fs) in layout.variant_fields.iter_enumerated() {
                        let mut fl = vec![];
                        for &sl in fs.iter() {
                            let fty = layout.field_tys[sl].ty;
                            let fty = tcx.instantiate_and_normalize_erasing_regions(args, env(), EarlyBinder::bind(tcx, fty));
                            fl.push(format!("[{},{}]", sl.as_usize(), self.ty(fty)));
                        }
                        variants.push(arr(fl));
                    }
                }
                let body = self.func(Instance::new_raw(d, args));
                let dg = self.func(Instance::resolve_drop_glue(tcx, t));
                format!(
                    "{{\"k\":\"cor\",\"s\":{name},\"def\":{},\"fn\":{body},\"dropfn\":{dg},\"f\":{},\"variants\":{}}}",
                    q(&self.def_mod(d)),
                    arr(v),
                    arr(variants)
                )
            }
            TyKind::Adt(adt, args) => {
                let targs: Vec<String> = args.types().map(|t| self.ty(t).to_string()).collect();
                let path = self.def_mod(adt.did());
                let kind = if adt.is_enum() { "enum" } else if adt.is_union() { "union" } else { "struct" };
                let krate = self.crate_name(adt.did());
                let mut variants = vec![];
                let opaque_std = STD.contains(&krate.as_str()) && !adt.is_enum() && !INLINE.iter().any(|p| path.starts_with(p));
                if !opaque_std || adt.is_box() {
                    for (vi, v) in adt.variants().iter_enumerated() {
                        let mut fs = vec![];
                        for f in v.fields.iter() {
                            let fty = tcx.normalize_erasing_regions(env(), f.ty(tcx, args));
                            fs.push(format!("[{},{}]", q(f.name.as_str()), self.ty(fty)));
                        }
                        let discr = if adt.is_enum() { adt.discriminant_for_variant(tcx, vi).val.to_string() } else { "0".into() };
                        let inh = v
                            .inhabited_predicate(tcx)
                            .instantiate(tcx, args)
                            .apply_revealing_opaque(tcx, env(), tcx.parent_module_from_def_id(rustc_hir::def_id::CRATE_DEF_ID).into(), &|_| None);
                        variants.push(format!("{{\"n\":{},\"d\":{},\"f\":{},\"inh\":{}}}", q(v.name.as_str()), discr, arr(fs), inh));
                    }
                }
                let mut drop = -1i64;
                if let Some(d) = tcx.adt_destructor(adt.did()) {
                    let i = Instance::new_raw(d.did, args);
                    drop = self.func(i) as i64;
                }
                format!(
                    "{{\"k\":\"adt\",\"s\":{name},\"path\":{},\"crate\":{},\"ak\":\"{kind}\",\"a\":{},\"v\":{},\"drop\":{drop},\"op\":{}}}",
                    q(&path),
                    q(&krate),
                    arr(targs),
                    arr(variants),
                    opaque_std && !adt.is_box()
                )
            }
            _ => format!("{{\"k\":\"other\",\"s\":{name}}}"),
        }
    }

    fn span(&self, s: Span) -> String {
        let sm = self.tcx.sess.source_map();
        let s = s.source_callsite();
        let lo = sm.lookup_char_pos(s.lo());
        let mut f = format!("{}", lo.file.name.prefer_remapped_unconditionally());
        if let Some(p) = f.find("/library/") {
            f = f[p + 1..].to_string();
        }
        format!("{}:{}", f, lo.line)
    }

    fn place(&mut self, i: Instance<'tcx>, p: Place<'tcx>) -> String {
        let mut ps = vec![];
        for e in p.projection.iter() {
            ps.push(match e {
                ProjectionElem::Deref => "[\"*\"]".to_string(),
                ProjectionElem::Field(f, t) => {
                    let t = self.norm(i, t);
                    format!("[\"f\",{},{}]", f.as_usize(), self.ty(t))
                }
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_usize()),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => format!("[\"c\",{},{}]", offset, from_end),
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"s\",{},{},{}]", from, to, from_end),
                ProjectionElem::Downcast(_, v) => format!("[\"d\",{}]", v.as_usize()),
                _ => "[\"o\"]".to_string(),
            });
        }
        format!("[{},{}]", p.local.as_usize(), arr(ps))
    }

    fn cval(&mut self, v: ConstValue, t: Ty<'tcx>, depth: usize) -> String {
        let tcx = self.tcx;
        let tid = self.ty(t);
        match t.kind() {
            TyKind::FnDef(..) | TyKind::Closure(..) => return format!("{{\"t\":{tid},\"k\":\"zst\"}}"),
            _ => {}
        }
        match v {
            ConstValue::Scalar(interpret::Scalar::Int(i)) if t.is_integral() || t.is_bool() || t.is_char() => {
                let n = i.to_bits_unchecked();
                return format!("{{\"t\":{tid},\"k\":\"int\",\"v\":{n}}}");
            }
            ConstValue::Slice { alloc_id, meta } if matches!(t.kind(), TyKind::Ref(_, p, _) if p.is_str()) => {
                if let interpret::GlobalAlloc::Memory(m) = tcx.global_alloc(alloc_id) {
                    let b = m.inner().inspect_with_uninit_and_ptr_outside_interpreter(0..meta as usize);
                    return format!("{{\"t\":{tid},\"k\":\"str\",\"v\":{}}}", q(&String::from_utf8_lossy(b)));
                }
            }
            ConstValue::Scalar(interpret::Scalar::Ptr(p, _)) if depth < 4 => {
                if let TyKind::Ref(_, inner, _) = *t.kind() {
                    let (prov, off) = p.into_raw_parts();
                    if !matches!(inner.kind(), TyKind::Dynamic(..) | TyKind::Slice(..) | TyKind::Str) {
                        if let interpret::GlobalAlloc::Memory(_) = tcx.global_alloc(prov.alloc_id()) {
                            let c = self.cval(ConstValue::Indirect { alloc_id: prov.alloc_id(), offset: off }, inner, depth + 1);
                            return format!("{{\"t\":{tid},\"k\":\"ref\",\"v\":{c}}}");
                        }
                    }
                    let id = prov.alloc_id();
                    if let interpret::GlobalAlloc::Static(d) = tcx.global_alloc(id) {
                        return format!("{{\"t\":{tid},\"k\":\"static\",\"v\":{}}}", q(&tcx.def_path_str(d)));
                    }
                }
                return format!("{{\"t\":{tid},\"k\":\"opaque\"}}");
            }
            _ => {}
        }
        match *t.kind() {
            TyKind::Adt(adt, _) if !adt.is_union() => {
                if let Some(d) = tcx.try_destructure_mir_constant_for_user_output(v, t) {
                    let fs: Vec<String> = d.fields.iter().map(|(v, t)| self.cval(*v, *t, depth + 1)).collect();
                    return format!(
                        "{{\"t\":{tid},\"k\":\"adt\",\"v\":{},\"f\":{}}}",
                        d.variant.map(|v| v.as_usize()).unwrap_or(0),
                        arr(fs)
                    );
                }
                format!("{{\"t\":{tid},\"k\":\"opaque\"}}")
            }
            TyKind::Tuple(..) => {
                if let Some(d) = tcx.try_destructure_mir_constant_for_user_output(v, t) {
                    let fs: Vec<String> = d.fields.iter().map(|(v, t)| self.cval(*v, *t, depth + 1)).collect();
                    return format!("{{\"t\":{tid},\"k\":\"tup\",\"f\":{}}}", arr(fs));
                }
                format!("{{\"t\":{tid},\"k\":\"opaque\"}}")
            }
            TyKind::Uint(_) | TyKind::Int(_) | TyKind::Bool => {
                if let ConstValue::Indirect { alloc_id, offset } = v {
                    if let interpret::GlobalAlloc::Memory(m) = tcx.global_alloc(alloc_id) {
                        if let Ok(l) = tcx.layout_of(env().as_query_input(t)) {
                            let n = l.size.bytes() as usize;
                            let o = offset.bytes() as usize;
                            let b = m.inner().inspect_with_uninit_and_ptr_outside_interpreter(o..o + n);
                            let mut x: u128 = 0;
                            for (i, by) in b.iter().enumerate() {
                                x |= (*by as u128) << (8 * i);
                            }
                            return format!("{{\"t\":{tid},\"k\":\"int\",\"v\":{x}}}");
                        }
                    }
                }
                format!("{{\"t\":{tid},\"k\":\"opaque\"}}")
            }
            _ => match v {
                ConstValue::ZeroSized => format!("{{\"t\":{tid},\"k\":\"zst\"}}"),
                _ => format!("{{\"t\":{tid},\"k\":\"opaque\"}}"),
            },
        }
    }

    fn constant(&mut self, i: Instance<'tcx>, c: &ConstOperand<'tcx>) -> String {
        let k = self.norm(i, c.const_);
        let t = k.ty();
        match k.eval(self.tcx, env(), DUMMY_SP) {
            Ok(v) => self.cval(v, t, 0),
            Err(_) => format!("{{\"t\":{},\"k\":\"opaque\"}}", self.ty(t)),
        }
    }

    fn operand(&mut self, i: Instance<'tcx>, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("[\"cp\",{}]", self.place(i, *p)),
            Operand::Move(p) => format!("[\"mv\",{}]", self.place(i, *p)),
            Operand::Constant(c) => format!("[\"k\",{}]", self.constant(i, c)),
            Operand::RuntimeChecks(_) => "[\"rt\"]".to_string(),
        }
    }

    fn unsize_pair(&self, a: Ty<'tcx>, b: Ty<'tcx>, depth: usize) -> Option<(Ty<'tcx>, Ty<'tcx>)> {
        if depth > 6 {
            return None;
        }
        match (a.kind(), b.kind()) {
            (TyKind::Ref(_, x, _) | TyKind::RawPtr(x, _), TyKind::Ref(_, y, _) | TyKind::RawPtr(y, _)) => {
                let (x, y) = self.tcx.struct_lockstep_tails_for_codegen(*x, *y, env());
                Some((x, y))
            }
            (TyKind::Adt(d1, a1), TyKind::Adt(d2, a2)) if d1 == d2 => {
                for (x, y) in a1.types().zip(a2.types()) {
                    if x != y {
                        if matches!(y.kind(), TyKind::Dynamic(..) | TyKind::Slice(..)) {
                            return Some((x, y));
                        }
                        if let Some(r) = self.unsize_pair(x, y, depth + 1) {
                            return Some(r);
                        }
                        let (x, y) = self.tcx.struct_lockstep_tails_for_codegen(x, y, env());
                        return Some((x, y));
                    }
                }
                None
            }
            _ => None,
        }
    }

    fn vtable(&mut self, conc: Ty<'tcx>, dy: Ty<'tcx>) -> i64 {
        let tcx = self.tcx;
        let TyKind::Dynamic(preds, _) = dy.kind() else { return -1 };
        if matches!(conc.kind(), TyKind::Dynamic(..)) {
            return -1;
        }
        if let Some(&i) = self.vts.get(&(conc, dy)) {
            return i as i64;
        }
        let id = self.vt_out.len();
        self.vts.insert((conc, dy), id);
        self.vt_out.push(None);
        let mut es = vec![];
        if let Some(pr) = preds.principal() {
            let pr = tcx.instantiate_bound_regions_with_erased(pr);
            let tr = pr.with_self_ty(tcx, conc);
            let tr = tcx.erase_and_anonymize_regions(tr);
            let tr = tcx.normalize_erasing_regions(env(), ty::Unnormalized::new_wip(tr));
            for e in tcx.vtable_entries(tr).iter() {
                es.push(match e {
                    ty::VtblEntry::Method(inst) => self.func(*inst).to_string(),
                    _ => "-1".to_string(),
                });
            }
        }
        let c = self.ty(conc);
        let d = self.ty(dy);
        self.vt_out[id] = Some(format!("{{\"c\":{c},\"d\":{d},\"e\":{}}}", arr(es)));
        id as i64
    }

    fn rvalue(&mut self, i: Instance<'tcx>, body: &Body<'tcx>, r: &Rvalue<'tcx>) -> String {
        let tcx = self.tcx;
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(i, o)),
            Rvalue::Repeat(o, _) => format!("[\"repeat\",{}]", self.operand(i, o)),
            Rvalue::Ref(_, _, p) => format!("[\"ref\",{}]", self.place(i, *p)),
            Rvalue::Reborrow(_, _, p) => format!("[\"use\",[\"cp\",{}]]", self.place(i, *p)),
            Rvalue::RawPtr(_, p) => format!("[\"ref\",{}]", self.place(i, *p)),
            Rvalue::ThreadLocalRef(d) => format!("[\"tls\",{}]", q(&tcx.def_path_str(*d))),
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"cp\",{}]]", self.place(i, *p)),
            Rvalue::WrapUnsafeBinder(o, _) => format!("[\"use\",{}]", self.operand(i, o)),
            Rvalue::Cast(k, o, t) => {
                let t = self.norm(i, *t);
                let st = self.norm(i, o.ty(&body.local_decls, tcx));
                let tid = self.ty(t);
                let sid = self.ty(st);
                let op = self.operand(i, o);
                let mut extra = "-1".to_string();
                let kn = match k {
                    CastKind::PointerCoercion(PointerCoercion::Unsize, _) => {
                        if let Some((a, b)) = self.unsize_pair(st, t, 0) {
                            extra = self.vtable(a, b).to_string();
                        }
                        "unsize"
                    }
                    CastKind::PointerCoercion(PointerCoercion::ReifyFnPointer(_), _) => {
                        if let TyKind::FnDef(d, a) = *st.kind() {
                            if let Some(inst) = Instance::resolve_for_fn_ptr(tcx, env(), d, a.skip_binder()) {
                                extra = self.func(inst).to_string();
                            }
                        }
                        "reify"
                    }
                    CastKind::PointerCoercion(PointerCoercion::ClosureFnPointer(_), _) => {
                        if let TyKind::Closure(d, a) = *st.kind() {
                            let inst = Instance::resolve_closure(tcx, d, a, ty::ClosureKind::FnOnce);
                            extra = self.func(inst).to_string();
                        }
                        "reify"
                    }
                    CastKind::IntToInt => "int",
                    CastKind::Transmute | CastKind::BoxDerefTransmute => "transmute",
                    _ => "ptr",
                };
                format!("[\"cast\",\"{kn}\",{op},{tid},{extra},{sid}]")
            }
            Rvalue::BinaryOp(b, ops) => {
                format!("[\"bin\",\"{:?}\",{},{}]", b, self.operand(i, &ops.0), self.operand(i, &ops.1))
            }
            Rvalue::UnaryOp(u, o) => format!("[\"un\",\"{:?}\",{}]", u, self.operand(i, o)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(i, *p)),
            Rvalue::Aggregate(k, ops) => {
                let t = self.norm(i, r.ty(&body.local_decls, tcx));
                let tid = self.ty(t);
                let os: Vec<String> = ops.iter().map(|o| self.operand(i, o)).collect();
                let (kn, v) = match **k {
                    AggregateKind::Array(_) => ("array", 0),
                    AggregateKind::Tuple => ("tup", 0),
                    AggregateKind::Adt(_, v, _, _, None) => ("adt", v.as_usize()),
                    AggregateKind::Adt(_, _, _, _, Some(f)) => ("union", f.as_usize()),
                    AggregateKind::Closure(..) => ("clo", 0),
                    AggregateKind::Coroutine(..) => ("cor", 0),
                    AggregateKind::CoroutineClosure(..) => ("corclo", 0),
                    AggregateKind::RawPtr(..) => ("rawptr", 0),
                };
                format!("[\"agg\",\"{kn}\",{tid},{v},{}]", arr(os))
            }
        }
    }

    fn resolve_call(&mut self, i: Instance<'tcx>, body: &Body<'tcx>, func: &Operand<'tcx>) -> String {
        let tcx = self.tcx;
        let fty = self.norm(i, func.ty(&body.local_decls, tcx));
        if let TyKind::FnDef(d, args) = *fty.kind() {
            let args = args.skip_binder();
            match Instance::try_resolve(tcx, env(), d, args) {
                Ok(Some(inst)) => {
                    // model substitution: library function replaced by an equivalent one written in Rust
                    let rd = inst.def_id();
                    let rk = self.crate_name(rd);
                    if (STD.contains(&rk.as_str()) || OPAQUE_CRATES.contains(&rk.as_str())) && !self.models.is_empty() {
                        let mut key = self.def_mod(rd);
                        let mut margs = inst.args;
                        let mut hit = self.models.get(&key).copied();
                        if hit.is_none() && matches!(tcx.def_kind(rd), DefKind::AssocFn) {
                            if let Some(imp) = tcx.inherent_impl_of_assoc(rd) {
                                if let TyKind::Adt(a, _) = *tcx.type_of(imp).instantiate_identity().skip_norm_wip().kind() {
                                    key = format!("{}::{}", self.def_mod(a.did()), tcx.item_name(rd));
                                    hit = self.models.get(&key).copied();
                                }
                            }
                        }
                        if hit.is_none() {
                            let tm = tcx.trait_item_of(rd).or_else(|| tcx.trait_of_assoc(rd).map(|_| rd));
                            if let Some(tm) = tm {
                                key = self.def_mod(tm);
                                hit = self.models.get(&key).copied();
                                margs = args;
                            }
                        }
                        if let Some(m) = hit {
                            let n = tcx.generics_of(m).count();
                            if n == margs.len() {
                                if let Ok(Some(mi)) = Instance::try_resolve(tcx, env(), m, margs) {
                                    let k = self.func(mi);
                                    return format!("[\"fn\",{k}]");
                                }
                            } else {
                                let tys: Vec<_> = margs.types().map(|t| ty::GenericArg::from(t)).collect();
                                if n == tys.len() {
                                    let a = tcx.mk_args(&tys);
                                    if let Ok(Some(mi)) = Instance::try_resolve(tcx, env(), m, a) {
                                        let k = self.func(mi);
                                        return format!("[\"fn\",{k}]");
                                    }
                                }
                            }
                        }
                    }
                    let k = self.func(inst);
                    format!("[\"fn\",{k}]")
                }
                _ => format!("[\"unresolved\",{}]", q(&tcx.def_path_str(d))),
            }
        } else {
            format!("[\"dyn\",{}]", self.operand(i, func))
        }
    }

    fn emit_fn(&mut self, inst: Instance<'tcx>) -> String {
        let tcx = self.tcx;
        let d = inst.def_id();
        let krate = self.crate_name(d);
        let path = self.def_mod(d);
        let shown = with_paths(|| tcx.def_path_str(d));
        let full = with_paths(|| tcx.def_path_str_with_args(d, inst.args));
        let (kind, extra) = match inst.def {
            InstanceKind::Item(_) => ("item", String::new()),
            InstanceKind::Intrinsic(d) => ("intrinsic", format!(",\"intr\":{}", q(tcx.item_name(d).as_str()))),
            InstanceKind::LlvmIntrinsic(_) => ("llvm", String::new()),
            InstanceKind::Virtual(_, i) => ("virtual", format!(",\"idx\":{i}")),
            InstanceKind::Shim(s) => match s {
                ShimKind::DropGlue(_, Some(t)) => ("drop", format!(",\"dropty\":{}", self.ty(t))),
                ShimKind::DropGlue(_, None) => ("nodrop", String::new()),
                ShimKind::ClosureOnce { .. } => ("clonce", String::new()),
                ShimKind::FnPtr(_, t) => ("fnptrshim", format!(",\"fty\":{}", self.ty(t))),
                ShimKind::Clone(_, t) => ("cloneshim", format!(",\"cty\":{}", self.ty(t))),
                ShimKind::Reify(..) => ("reify", String::new()),
                ShimKind::VTable(..) => ("vtshim", String::new()),
                _ => ("shim", String::new()),
            },
        };
        let dk = tcx.def_kind(d);
        let mut tr = String::new();
        let mut selfty = -1i64;
        if matches!(dk, DefKind::AssocFn) {
            if let Some(tm) = tcx.trait_item_of(d) {
                tr = self.def_mod(tm);
            }
            if tcx.trait_of_assoc(d).is_some() {
                tr = self.def_mod(d);
                selfty = self.ty(inst.args.type_at(0)) as i64;
            } else if let Some(imp) = tcx.impl_of_assoc(d) {
                let st = tcx.type_of(imp).instantiate(tcx, inst.args);
                let st = tcx.normalize_erasing_regions(env(), st);
                selfty = self.ty(st) as i64;
            }
        }
        let targs: Vec<String> = inst.args.types().map(|t| self.ty(t).to_string()).collect();
        let name = tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_else(|| "{closure}".into());
        let is_std = STD.contains(&krate.as_str());
        let inline_std = is_std
            && (INLINE.iter().any(|p| path.starts_with(p))
                || matches!(inst.def, InstanceKind::Shim(_)));
        let opaque = OPAQUE_CRATES.contains(&krate.as_str());
        let want_body = match inst.def {
            InstanceKind::Item(_) => (!is_std || inline_std) && !opaque && (matches!(dk, DefKind::Closure | DefKind::SyntheticCoroutineBody) || tcx.is_mir_available(d)),
            InstanceKind::Shim(ShimKind::DropGlue(_, Some(t))) => t.is_coroutine(),
            InstanceKind::Shim(ShimKind::ClosureOnce { .. }) | InstanceKind::Shim(ShimKind::FnPtr(..)) => true,
            InstanceKind::Shim(ShimKind::Clone(..)) | InstanceKind::Shim(ShimKind::Reify(..)) | InstanceKind::Shim(ShimKind::VTable(..)) => true,
            _ => false,
        };
        let mut sig_ret = -1i64;
        let mut sig_in = vec![];
        let mut is_ctor = false;
        if matches!(dk, DefKind::Fn | DefKind::AssocFn | DefKind::Ctor(..)) {
            let sig = tcx.fn_sig(d).instantiate(tcx, inst.args).skip_norm_wip();
            let sig = tcx.instantiate_bound_regions_with_erased(sig);
            if let Ok(r) = tcx.try_normalize_erasing_regions(env(), ty::Unnormalized::new_wip(sig.output())) {
                sig_ret = self.ty(r) as i64;
            }
            for t in sig.inputs() {
                if let Ok(r) = tcx.try_normalize_erasing_regions(env(), ty::Unnormalized::new_wip(*t)) {
                    sig_in.push(self.ty(r).to_string());
                }
            }
            is_ctor = matches!(dk, DefKind::Ctor(..));
        }
        let mut out = format!(
            "{{\"path\":{},\"show\":{},\"full\":{},\"name\":{},\"crate\":{},\"kind\":\"{kind}\"{extra},\"trait\":{},\"self\":{selfty},\"a\":{},\"ret\":{sig_ret},\"in\":{},\"ctor\":{is_ctor},\"span\":{}",
            q(&path), q(&shown), q(&full), q(&name), q(&krate), q(&tr), arr(targs), arr(sig_in), q(&self.span(tcx.def_span(d)))
        );
        if want_body {
            let body = tcx.instance_mir(inst.def);
            let body: Body<'tcx> = self.norm(inst, body.clone());
            out.push_str(",\"body\":");
            out.push_str(&self.emit_body(inst, &body));
        }
        out.push('}');
        out
    }

    fn emit_body(&mut self, i: Instance<'tcx>, body: &Body<'tcx>) -> String {
        let tcx = self.tcx;
        let locals: Vec<String> = body.local_decls.iter().map(|l| self.ty(l.ty).to_string()).collect();
        let mut names = vec![];
        for v in &body.var_debug_info {
            if let mir::VarDebugInfoContents::Place(p) = v.value {
                names.push(format!("[{},{}]", q(v.name.as_str()), self.place(i, p)));
            }
        }
        let mut blocks = vec![];
        for (_, b) in body.basic_blocks.iter_enumerated() {
            let mut ss = vec![];
            for s in &b.statements {
                let sp = q(&self.span(s.source_info.span));
                match &s.kind {
                    StatementKind::Assign(a) => {
                        let p = self.place(i, a.0);
                        let r = self.rvalue(i, body, &a.1);
                        ss.push(format!("[\"a\",{p},{r},{sp}]"));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(i, **place);
                        ss.push(format!("[\"sd\",{p},{},{sp}]", variant_index.as_usize()));
                    }
                    StatementKind::StorageDead(l) => ss.push(format!("[\"dead\",{}]", l.as_usize())),
                    StatementKind::Intrinsic(_) => {}
                    _ => {}
                }
            }
            let t = b.terminator();
            let sp = q(&self.span(t.source_info.span));
            let term = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
                TerminatorKind::FalseEdge { real_target, .. } | TerminatorKind::FalseUnwind { real_target, .. } => {
                    format!("[\"goto\",{}]", real_target.as_usize())
                }
                TerminatorKind::SwitchInt { discr, targets } => {
                    let o = self.operand(i, discr);
                    let ts: Vec<String> = targets.iter().map(|(v, b)| format!("[{},{}]", v, b.as_usize())).collect();
                    let dt = self.norm(i, discr.ty(&body.local_decls, tcx));
                    format!("[\"switch\",{o},{},{},{sp},{}]", arr(ts), targets.otherwise().as_usize(), self.ty(dt))
                }
                TerminatorKind::Return => "[\"ret\"]".to_string(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".to_string(),
                TerminatorKind::Drop { place, target, .. } => {
                    let t = self.norm(i, place.ty(&body.local_decls, tcx).ty);
                    let tid = self.ty(t);
                    format!("[\"drop\",{},{},{tid},{sp}]", self.place(i, *place), target.as_usize())
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.resolve_call(i, body, func);
                    let a: Vec<String> = args.iter().map(|o| self.operand(i, &o.node)).collect();
                    let dp = self.place(i, *destination);
                    let rt = self.norm(i, destination.ty(&body.local_decls, tcx).ty);
                    let rt = self.ty(rt);
                    let ats: Vec<String> = args
                        .iter()
                        .map(|o| {
                            let t = self.norm(i, o.node.ty(&body.local_decls, tcx));
                            self.ty(t).to_string()
                        })
                        .collect();
                    format!(
                        "[\"call\",{f},{},{dp},{},{sp},{rt},{}]",
                        arr(a),
                        target.map(|t| t.as_usize() as i64).unwrap_or(-1),
                        arr(ats)
                    )
                }
                TerminatorKind::Assert { cond, expected, target, msg, .. } => {
                    let c = self.operand(i, cond);
                    let m = match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds",
                        AssertKind::Overflow(..) => "overflow",
                        AssertKind::ResumedAfterReturn(..) => "resumed",
                        _ => "other",
                    };
                    format!("[\"assert\",{c},{expected},{},\"{m}\",{sp}]", target.as_usize())
                }
                _ => "[\"resume\"]".to_string(),
            };
            blocks.push(format!("[{},{term},{sp},{}]", arr(ss), b.is_cleanup));
        }
        format!(
            "{{\"argc\":{},\"locals\":{},\"names\":{},\"blocks\":{},\"spread\":{}}}",
            body.arg_count,
            arr(locals),
            arr(names),
            arr(blocks),
            body.spread_arg.map(|l| l.as_usize() as i64).unwrap_or(-1)
        )
    }
}

fn with_paths<R>(f: impl FnOnce() -> R) -> R {
    rustc_middle::ty::print::with_no_trimmed_paths!(f())
}

struct Cb;
impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let mut cx = Cx {
            tcx,
            tys: HashMap::new(),
            ty_out: vec![],
            ty_queue: VecDeque::new(),
            fns: HashMap::new(),
            fn_out: vec![],
            fn_queue: VecDeque::new(),
            vts: HashMap::new(),
            vt_out: vec![],
            models: HashMap::new(),
            ords: vec![],
        };
        let mut entries = vec![];
        for ld in tcx.hir_crate_items(()).definitions() {
            let d = ld.to_def_id();
            if !matches!(tcx.def_kind(d), DefKind::Fn) {
                continue;
            }
            let n = tcx.item_name(d).to_string();
            if n.starts_with("h_") && !tcx.generics_of(d).requires_monomorphization(tcx) {
                entries.push((n, d));
            } else if n.starts_with("m_") {
                // model functions carry the path they stand for in #[doc = "models: path"]
                for a in tcx.hir_attrs(tcx.local_def_id_to_hir_id(ld)) {
                    if let Some(s) = a.doc_str() {
                        for line in s.as_str().lines() {
                            if let Some(p) = line.trim().strip_prefix("models: ") {
                                cx.models.insert(p.trim().to_string(), d);
                            }
                        }
                    }
                }
            }
        }
        let mut es = vec![];
        for (n, d) in entries {
            let i = Instance::mono(tcx, d);
            let k = cx.func(i);
            es.push(format!("{}:{}", q(&n), k));
        }
        loop {
            if let Some((k, i)) = cx.fn_queue.pop_front() {
                let s = cx.emit_fn(i);
                cx.fn_out[k] = Some(s);
            } else if let Some((k, t)) = cx.ty_queue.pop_front() {
                let s = cx.emit_ty(t);
                cx.ty_out[k] = Some(s);
            } else {
                break;
            }
        }
        let _ = LOCAL_CRATE;
        let out = format!(
            "{{\"entries\":{{{}}},\n\"types\":[\n{}\n],\n\"fns\":[\n{}\n],\n\"ords\":[{}],\n\"vtables\":[\n{}\n]}}\n",
            es.join(","),
            cx.ty_out.into_iter().map(|s| s.unwrap()).collect::<Vec<_>>().join(",\n"),
            cx.fn_out.into_iter().map(|s| s.unwrap()).collect::<Vec<_>>().join(",\n"),
            cx.ords.join(","),
            cx.vt_out.into_iter().map(|s| s.unwrap_or("null".into())).collect::<Vec<_>>().join(",\n")
        );
        let p = std::env::var("XV_OUT").expect("XV_OUT");
        std::fs::write(&p, out).expect("write facts");
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().skip(1).collect();
    let krate = args.iter().position(|a| a == "--crate-name").map(|p| args[p + 1].clone()).unwrap_or_default();
    if krate == "xv_harness" {
        rustc_driver::compiler_entrypoint(&args, &mut Cb);
        return;
    }
    use std::os::unix::process::CommandExt;
    let rustc = args.remove(0);
    let mut c = std::process::Command::new(rustc);
    if krate == "wasm_bindgen" {
        // the future-incompatibility check of newer compilers keys on this variable
        c.env("CARGO_PKG_VERSION", "0.2.88").env("CARGO_PKG_VERSION_PATCH", "88");
    }
    c.args(&args);
    let e = c.exec();
    eprintln!("exec failed: {e}");
    std::process::exit(101);
}
