//! MIR extractor: runs as RUSTC_WORKSPACE_WRAPPER under `cargo +nightly check`, and after type checking dumps
//! the (monomorphised) MIR of every local function for each sample type, the MIR of everything reachable that has
//! MIR, the call graph, and type facts, as one JSON file.
#![feature(rustc_private)]
#![allow(clippy::all)]

extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
extern crate rustc_trait_selection;

use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
use std::fmt::Write as _;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::interpret::{AllocId, GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths};
use rustc_middle::ty::{self, GenericArg, GenericArgsRef, Instance, InstanceKind, ShimKind, Ty, TyCtxt, TypeVisitableExt, TypingEnv};

#[derive(Clone)]
enum J { S(String), N(String), B(bool), A(Vec<J>), O(Vec<(String, J)>), Null }
impl J {
    fn s<T: ToString>(x: T) -> J { J::S(x.to_string()) }
    fn n<T: ToString>(x: T) -> J { J::N(x.to_string()) }
    fn o(v: Vec<(&str, J)>) -> J { J::O(v.into_iter().map(|(a, b)| (a.to_string(), b)).collect()) }
    fn write(&self, w: &mut String) {
        match self {
            J::S(s) => esc(s, w),
            J::N(s) => w.push_str(s),
            J::B(b) => w.push_str(if *b { "true" } else { "false" }),
            J::Null => w.push_str("null"),
            J::A(v) => { w.push('['); for (i, x) in v.iter().enumerate() { if i > 0 { w.push(','); } x.write(w); } w.push(']'); }
            J::O(v) => { w.push('{'); for (i, (k, x)) in v.iter().enumerate() { if i > 0 { w.push(','); } esc(k, w); w.push(':'); x.write(w); } w.push('}'); }
        }
    }
}
fn esc(s: &str, w: &mut String) {
    w.push('"');
    for c in s.chars() {
        match c {
            '"' => w.push_str("\\\""), '\\' => w.push_str("\\\\"), '\n' => w.push_str("\\n"), '\t' => w.push_str("\\t"), '\r' => w.push_str("\\r"),
            c if (c as u32) < 0x20 => { let _ = write!(w, "\\u{:04x}", c as u32); }
            c => w.push(c),
        }
    }
    w.push('"');
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: BTreeMap<String, J>,
    bodies: BTreeMap<String, J>,
    graph: BTreeMap<String, J>,
    seen: HashSet<Instance<'tcx>>,
    queue: VecDeque<(Instance<'tcx>, u32)>,
    names: HashMap<Instance<'tcx>, String>,
    vtabled: Vec<(String, String)>,
}

fn env<'tcx>() -> TypingEnv<'tcx> { TypingEnv::fully_monomorphized() }

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String { with_no_visible_paths!(with_no_trimmed_paths!(self.tcx.def_path_str(d))) }

    fn loc(&self, sp: rustc_span::Span) -> String {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let lo = sm.lookup_char_pos(sp.lo());
        format!("{}:{}", lo.file.name.prefer_local_unconditionally(), lo.line)
    }

    /// distinguishes closures by the generic arguments of the function they are written in (their printed names do not)
    fn tag(&self, args: GenericArgsRef<'tcx>) -> String {
        use std::hash::{Hash, Hasher};
        let mut h = std::collections::hash_map::DefaultHasher::new();
        let mut any = false;
        for a in args.iter() {
            for g in a.walk() {
                if let Some(t) = g.as_type() {
                    match *t.kind() {
                        ty::Closure(d, _) => { any = true; self.path(d).hash(&mut h); }
                        ty::Adt(d, _) => self.path(d.did()).hash(&mut h),
                        ty::FnDef(d, _) => self.path(d).hash(&mut h),
                        ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) | ty::Str | ty::Never => format!("{}", t).hash(&mut h),
                        ref k => format!("{:?}", std::mem::discriminant(k)).hash(&mut h),
                    }
                }
            }
        }
        if any { format!("#{:x}", h.finish()) } else { String::new() }
    }

    fn key(&mut self, i: Instance<'tcx>) -> String {
        if let Some(k) = self.names.get(&i) { return k.clone(); }
        let base = with_no_visible_paths!(with_no_trimmed_paths!(self.tcx.def_path_str_with_args(i.def_id(), i.args))) + &self.tag(i.args);
        let k = match i.def {
            InstanceKind::Item(_) => base,
            InstanceKind::Intrinsic(_) => format!("intrinsic!{}", base),
            InstanceKind::Shim(ShimKind::DropGlue(_, t)) => format!("dropglue!{:?}", t),
            other => format!("{:?}!{}", std::mem::discriminant(&other), base) + &format!("!{:?}", other).chars().take(80).collect::<String>(),
        };
        let k = if self.tcx.is_closure_like(i.def_id()) { {
            use std::hash::{Hash, Hasher};
            let mut h = std::collections::hash_map::DefaultHasher::new();
            with_no_trimmed_paths!(format!("{:?}", i.args)).hash(&mut h);
            format!("{}#{:x}", k, h.finish())
        } } else { k };
        self.names.insert(i, k.clone());
        k
    }

    fn ty(&mut self, t: Ty<'tcx>) -> J {
        let t = self.tcx.erase_and_anonymize_regions(t);
        let id = with_no_visible_paths!(with_no_trimmed_paths!(format!("{}", t))) + &self.tag(self.tcx.mk_args(&[t.into()]));
        if self.types.contains_key(&id) { return J::S(id); }
        self.types.insert(id.clone(), J::Null);
        let tcx = self.tcx;
        let j = match *t.kind() {
            ty::Bool => J::o(vec![("k", J::s("bool"))]),
            ty::Char => J::o(vec![("k", J::s("char"))]),
            ty::Int(i) => J::o(vec![("k", J::s("int")), ("signed", J::B(true)), ("bits", J::n(i.bit_width().unwrap_or(64)))]),
            ty::Uint(i) => J::o(vec![("k", J::s("int")), ("signed", J::B(false)), ("bits", J::n(i.bit_width().unwrap_or(64)))]),
            ty::Float(f) => J::o(vec![("k", J::s("float")), ("bits", J::n(f.bit_width()))]),
            ty::Str => J::o(vec![("k", J::s("str"))]),
            ty::Never => J::o(vec![("k", J::s("never"))]),
            ty::Ref(_, t, m) => { let x = self.ty(t); J::o(vec![("k", J::s("ref")), ("ty", x), ("mut", J::B(m.is_mut()))]) }
            ty::RawPtr(t, m) => { let x = self.ty(t); J::o(vec![("k", J::s("ptr")), ("ty", x), ("mut", J::B(m.is_mut()))]) }
            ty::Slice(t) => { let x = self.ty(t); J::o(vec![("k", J::s("slice")), ("ty", x)]) }
            ty::Array(t, n) => {
                let x = self.ty(t);
                let n = n.try_to_target_usize(tcx).map(|n| J::n(n)).unwrap_or(J::Null);
                J::o(vec![("k", J::s("array")), ("ty", x), ("len", n)])
            }
            ty::Tuple(ts) => { let v: Vec<J> = ts.iter().map(|t| self.ty(t)).collect(); J::o(vec![("k", J::s("tuple")), ("tys", J::A(v))]) }
            ty::Adt(def, args) => {
                let mut vs = vec![];
                for (vi, v) in def.variants().iter_enumerated() {
                    let mut fs = vec![];
                    for f in v.fields.iter() {
                        let ft = f.ty(tcx, args);
                        let ft = tcx.normalize_erasing_regions(env(), ft);
                        let fj = self.ty(ft);
                        fs.push(J::o(vec![("name", J::s(f.name)), ("ty", fj), ("pub", J::B(f.vis.is_public()))]));
                    }
                    let disc = if def.is_enum() { J::n(def.discriminant_for_variant(tcx, vi).val) } else { J::n(0) };
                    vs.push(J::o(vec![("name", J::s(v.name)), ("disc", disc), ("fields", J::A(fs))]));
                }
                let kind = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
                let targs: Vec<J> = args.types().map(|t| self.ty(t)).collect();
                J::o(vec![("k", J::s("adt")), ("path", J::s(self.path(def.did()))), ("adt", J::s(kind)), ("local", J::B(def.did().is_local())), ("variants", J::A(vs)), ("args", J::A(targs)),
                    ("has_drop", J::B(t.needs_drop(tcx, env())))])
            }
            ty::Closure(d, args) => {
                let ups: Vec<J> = args.as_closure().upvar_tys().iter().map(|t| self.ty(t)).collect();
                J::o(vec![("k", J::s("closure")), ("path", J::s(self.path(d))), ("upvars", J::A(ups))])
            }
            ty::FnDef(d, args) => { let args = args.skip_binder(); let c = self.callee(d, args); J::o(vec![("k", J::s("fndef")), ("fn", c)]) }
            _ => J::o(vec![("k", J::s("other"))]),
        };
        self.types.insert(id.clone(), j);
        J::S(id)
    }

    fn callee(&mut self, d: DefId, args: GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let args = tcx.erase_and_anonymize_regions(args);
        let mut o = vec![("def", J::s(self.path(d))), ("name", J::s(tcx.item_name(d)))];
        if let Some(tr) = tcx.trait_of_assoc(d) {
            o.push(("trait", J::s(self.path(tr))));
            if let Some(t) = args.types().next() { let x = self.ty(t); o.push(("self", x)); }
        }
        let ta: Vec<J> = args.types().map(|t| self.ty(t)).collect();
        o.push(("args", J::A(ta)));
        let ca: Vec<J> = args.consts().map(|c| c.try_to_target_usize(tcx).map(|n| J::n(n)).unwrap_or(J::Null)).collect();
        o.push(("cargs", J::A(ca)));
        match Instance::try_resolve(tcx, env(), d, args) {
            Ok(Some(i)) => {
                let k = self.key(i);
                o.push(("inst", J::s(k)));
                o.push(("path", J::s(self.path(i.def_id()))));
                if let Some(im) = tcx.impl_of_assoc(i.def_id()) {
                    let st = tcx.type_of(im).instantiate(tcx, i.args).skip_norm_wip();
                    let st = tcx.normalize_erasing_regions(env(), ty::Unnormalized::new_wip(st));
                    let x = self.ty(st);
                    o.push(("implself", x));
                }
                let kind = match i.def {
                    InstanceKind::Item(_) => "item", InstanceKind::Intrinsic(_) => "intrinsic", InstanceKind::Virtual(..) => "virtual",
                    InstanceKind::Shim(ShimKind::ClosureOnce { .. }) => "closureonce",
                    InstanceKind::Shim(ShimKind::FnPtr(..)) => "fnptrshim",
                    InstanceKind::Shim(ShimKind::Clone(..)) => "cloneshim",
                    InstanceKind::Shim(ShimKind::DropGlue(..)) => "dropglue",
                    _ => "other",
                };
                o.push(("kind", J::s(kind)));
                o.push(("closure", J::B(tcx.is_closure_like(i.def_id()))));
                o.push(("local", J::B(i.def_id().is_local())));
                if let InstanceKind::Shim(ShimKind::ClosureOnce { .. }) = i.def {
                    // the body of the closure itself
                    if let ty::Closure(cd, cargs) = *i.args.type_at(0).kind() {
                        let ci = Instance::new_raw(cd, cargs);
                        let k = self.key(ci);
                        o.push(("body", J::s(k)));
                        self.push(ci, 0);
                    }
                }
                self.push(i, 0);
                if let InstanceKind::Virtual(_, idx) = i.def { o.push(("vidx", J::n(idx))); }
                // extend and collect: how the source is iterated
                if !i.def_id().is_local() && matches!(tcx.item_name(d).as_str(), "extend" | "from_iter") && tcx.trait_of_assoc(d).map(|tr| self.path(tr).starts_with("core::iter::traits::collect::")).unwrap_or(false) {
                    if let (Some(src), Some(into), Some(next)) = (args.types().last(), tcx.lang_items().into_iter_fn(), tcx.lang_items().next_fn()) {
                        let ia = tcx.mk_args(&[src.into()]);
                        let sig = tcx.fn_sig(into).instantiate(tcx, ia).skip_norm_wip();
                        let sig = tcx.normalize_erasing_regions(env(), ty::Unnormalized::new_wip(tcx.instantiate_bound_regions_with_erased(sig)));
                        let it = sig.output();
                        let a = self.callee(into, ia);
                        let b = self.callee(next, tcx.mk_args(&[it.into()]));
                        let c = self.ty(it);
                        let nsig = tcx.fn_sig(next).instantiate(tcx, tcx.mk_args(&[it.into()])).skip_norm_wip();
                        let nsig = tcx.normalize_erasing_regions(env(), ty::Unnormalized::new_wip(tcx.instantiate_bound_regions_with_erased(nsig)));
                        let e = self.ty(nsig.output());
                        o.push(("src_into", a)); o.push(("src_next", b)); o.push(("src_iter", c)); o.push(("src_item", e));
                    }
                }
                // array::map and array::from_fn: the call of the closure for one element
                let ip = self.path(i.def_id());
                let el: Option<(usize, Option<usize>)> = match ip.as_str() { "core::array::<impl [T; N]>::map" => Some((1, Some(0))), "core::array::from_fn" => Some((1, None)), "alloc::vec::Vec::<T, A>::resize_with" => Some((2, Some(usize::MAX))), _ => None };
                if let Some((fi, ti)) = el {
                    let tys: Vec<Ty<'tcx>> = args.types().collect();
                    if let (Some(f), Some(tr)) = (tys.get(fi), tcx.lang_items().fn_mut_trait()) {
                        let x = match ti { Some(usize::MAX) => None, Some(k) => Some(tys[k]), None => Some(tcx.types.usize) };
                        let m = tcx.associated_items(tr).in_definition_order().find(|m| m.is_fn()).map(|m| m.def_id);
                        if let Some(m) = m {
                            let tup = Ty::new_tup(tcx, &x.into_iter().collect::<Vec<_>>());
                            let c = self.callee(m, tcx.mk_args(&[(*f).into(), tup.into()]));
                            o.push(("elem_call", c));
                        }
                    }
                }
                // a library override of a provided iterator method: the provided body states its meaning
                if let Some(tr) = tcx.trait_of_assoc(d) {
                    if tcx.crate_name(tr.krate).as_str() == "core" && i.def_id() != d && !i.def_id().is_local() && tcx.is_mir_available(d) && self.path(tr).starts_with("core::iter::") {
                        let pi = Instance::new_raw(d, args);
                        let pk = format!("provided!{}", with_no_visible_paths!(with_no_trimmed_paths!(tcx.def_path_str_with_args(d, args)))) + &self.tag(args);
                        self.names.insert(pi, pk.clone());
                        self.push(pi, 0);
                        o.push(("provided", J::S(pk)));
                    }
                }
            }
            _ => { o.push(("kind", J::s("unresolved"))); }
        }
        J::o(o)
    }

    fn push(&mut self, i: Instance<'tcx>, depth: u32) {
        if self.seen.insert(i) { self.queue.push_back((i, depth)); }
    }

    fn place(&mut self, p: &Place<'tcx>) -> J {
        let mut v = vec![J::n(p.local.as_u32())];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => J::s("*"),
                ProjectionElem::Field(f, t) => { let t = self.ty(t); J::o(vec![("f", J::n(f.as_u32())), ("ty", t)]) }
                ProjectionElem::Index(l) => J::o(vec![("i", J::n(l.as_u32()))]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => J::o(vec![("ci", J::n(offset)), ("min", J::n(min_length)), ("end", J::B(from_end))]),
                ProjectionElem::Subslice { from, to, from_end } => J::o(vec![("sub", J::A(vec![J::n(from), J::n(to), J::B(from_end)]))]),
                ProjectionElem::Downcast(_, vi) => J::o(vec![("v", J::n(vi.as_u32()))]),
                _ => J::o(vec![("other", J::s(format!("{:?}", e)))]),
            });
        }
        J::A(v)
    }

    fn scalar(&mut self, s: Scalar, t: Ty<'tcx>) -> J {
        let tcx = self.tcx;
        match s {
            Scalar::Int(i) => {
                let bits = i.to_bits(i.size());
                match *t.kind() {
                    ty::Float(_) => J::o(vec![("float", J::s(format!("{:x}", bits))), ("bits", J::n(i.size().bits()))]),
                    ty::Bool => J::o(vec![("bool", J::B(bits != 0))]),
                    ty::Int(_) => { let v = i.to_int(i.size()); J::o(vec![("int", J::s(v))]) }
                    _ => J::o(vec![("int", J::s(bits))]),
                }
            }
            Scalar::Ptr(p, _) => {
                let (prov, off) = p.prov_and_relative_offset();
                let inner = match *t.kind() { ty::Ref(_, x, _) | ty::RawPtr(x, _) => Some(x), _ => None };
                match (tcx.global_alloc(prov.alloc_id()), inner) {
                    (GlobalAlloc::Memory(_), Some(x)) if x.is_sized(tcx, env()) => { let v = self.alloc(prov.alloc_id(), off.bytes(), x, 0); J::o(vec![("ref", v)]) }
                    // an immutable static without interior mutability is its initial value
                    (GlobalAlloc::Static(d), Some(x)) if !tcx.is_mutable_static(d) && x.is_sized(tcx, env()) && x.is_freeze(tcx, env()) && !tcx.is_foreign_item(d) && tcx.eval_static_initializer(d).is_ok() => {
                        let id = tcx.reserve_and_set_memory_alloc(tcx.eval_static_initializer(d).unwrap());
                        let v = self.alloc(id, off.bytes(), x, 0);
                        J::o(vec![("ref", v)])
                    }
                    (GlobalAlloc::Static(d), _) => J::o(vec![("static", J::s(self.path(d)))]),
                    _ => J::o(vec![("opaque", J::s("ptr"))]),
                }
            }
        }
    }

    fn alloc(&mut self, id: AllocId, off: u64, t: Ty<'tcx>, depth: u32) -> J {
        let tcx = self.tcx;
        let op = |s: &str| J::o(vec![("opaque", J::s(s))]);
        if depth > 8 { return op("depth"); }
        let a = match tcx.global_alloc(id) { GlobalAlloc::Memory(a) => a, _ => return op("alloc") };
        let a = a.inner();
        let layout = match tcx.layout_of(env().as_query_input(t)) { Ok(l) => l, Err(_) => return op("layout") };
        let rd = |off: u64, size: u64, prov: bool| a.read_scalar(&tcx, rustc_middle::mir::interpret::alloc_range(rustc_abi::Size::from_bytes(off), rustc_abi::Size::from_bytes(size)), prov);
        match *t.kind() {
            ty::Float(_) | ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) => match rd(off, layout.size.bytes(), false) { Ok(s) => self.scalar(s, t), Err(_) => op("read") },
            ty::Ref(_, x, _) | ty::RawPtr(x, _) if x.is_sized(tcx, env()) => match rd(off, layout.size.bytes(), true) { Ok(s) => self.scalar(s, t), Err(_) => op("readptr") },
            ty::Ref(_, x, _) => {
                if let ty::Slice(et) = *x.kind() {
                    let p = match rd(off, 8, true) { Ok(Scalar::Ptr(p, _)) => p, _ => return op("slice") };
                    let n = match rd(off + 8, 8, false) { Ok(Scalar::Int(i)) => i.to_bits(i.size()) as u64, _ => return op("slice") };
                    if n > 4096 { return op("big"); }
                    let (prov, o2) = p.prov_and_relative_offset();
                    let es = match tcx.layout_of(env().as_query_input(et)) { Ok(l) => l.size.bytes(), Err(_) => return op("layout") };
                    let v: Vec<J> = (0..n).map(|i| self.alloc(prov.alloc_id(), o2.bytes() + i * es, et, depth + 1)).collect();
                    return J::o(vec![("slice", J::A(v))]);
                }
                op("wide")
            }
            ty::Array(et, n) => {
                let n = match n.try_to_target_usize(tcx) { Some(n) if n <= 4096 => n, _ => return op("array") };
                let es = match tcx.layout_of(env().as_query_input(et)) { Ok(l) => l.size.bytes(), Err(_) => return op("layout") };
                let v: Vec<J> = (0..n).map(|i| self.alloc(id, off + i * es, et, depth + 1)).collect();
                J::o(vec![("array", J::A(v))])
            }
            ty::Tuple(ts) => {
                let v: Vec<J> = ts.iter().enumerate().map(|(i, x)| { let o = layout.fields.offset(i).bytes(); self.alloc(id, off + o, x, depth + 1) }).collect();
                J::o(vec![("tuple", J::A(v))])
            }
            ty::Adt(def, args) if def.is_struct() => {
                let fs: Vec<_> = def.non_enum_variant().fields.iter().map(|f| f.ty(tcx, args)).collect();
                let v: Vec<J> = fs.into_iter().enumerate().map(|(i, x)| { let x = tcx.normalize_erasing_regions(env(), x); let o = layout.fields.offset(i).bytes(); self.alloc(id, off + o, x, depth + 1) }).collect();
                J::o(vec![("struct", J::A(v))])
            }
            ty::Adt(def, _) if def.is_enum() => {
                let cv = ConstValue::Indirect { alloc_id: id, offset: rustc_abi::Size::from_bytes(off) };
                match tcx.try_destructure_mir_constant_for_user_output(cv, t) {
                    Some(dc) if dc.variant.is_some() => {
                        let fs: Vec<J> = dc.fields.iter().map(|(fv, ft)| {
                            let o = ConstOperand { span: rustc_span::DUMMY_SP, user_ty: None, const_: Const::Val(*fv, *ft) };
                            match self.konst(&o) { J::O(v) => v.into_iter().find(|(k, _)| k == "v").unwrap().1, x => x }
                        }).collect();
                        J::o(vec![("variant", J::n(dc.variant.unwrap().as_u32())), ("fields", J::A(fs))])
                    }
                    _ => op("enum"),
                }
            }
            _ => op("kind"),
        }
    }

    /// Evaluate a constant.  A promoted belongs to the very body it is used in: its owner must not be resolved as a trait method again.
    fn eval(&self, c: &ConstOperand<'tcx>) -> Result<ConstValue, rustc_middle::mir::interpret::ErrorHandled> {
        let tcx = self.tcx;
        if let Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                if tcx.promoted_mir(u.def).get(p).is_none() { return Err(rustc_middle::mir::interpret::ErrorHandled::TooGeneric(c.span)); }
                let cid = rustc_middle::mir::interpret::GlobalId { instance: Instance::new_raw(u.def, u.args), promoted: Some(p) };
                return tcx.const_eval_global_id(env(), cid, c.span);
            }
        }
        c.const_.eval(tcx, env(), c.span)
    }

    fn konst(&mut self, c: &ConstOperand<'tcx>) -> J {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let tj = self.ty(t);
        if let ty::FnDef(d, args) = *t.kind() { let args = args.skip_binder(); let f = self.callee(d, args); return J::o(vec![("k", J::s("const")), ("ty", tj), ("v", J::o(vec![("fn", f)]))]); }
        let v = match self.eval(c) {
            Ok(ConstValue::Scalar(s)) => self.scalar(s, t),
            Ok(ConstValue::ZeroSized) => J::o(vec![("zst", J::B(true))]),
            Ok(ConstValue::Slice { alloc_id, meta }) => {
                match *t.kind() {
                    ty::Ref(_, x, _) => match *x.kind() {
                        ty::Slice(et) if meta <= 4096 => {
                            let es = tcx.layout_of(env().as_query_input(et)).map(|l| l.size.bytes()).unwrap_or(1);
                            let v: Vec<J> = (0..meta).map(|i| self.alloc(alloc_id, i * es, et, 0)).collect();
                            J::o(vec![("slice", J::A(v))])
                        }
                        ty::Str => J::o(vec![("str", J::B(true))]),
                        _ => J::o(vec![("opaque", J::s("slice"))]),
                    },
                    _ => J::o(vec![("opaque", J::s("slice"))]),
                }
            }
            Ok(ConstValue::Indirect { alloc_id, offset }) => self.alloc(alloc_id, offset.bytes(), t, 0),
            Err(_) => J::o(vec![("opaque", J::s("err"))]),
        };
        // enum constants without fields (e.g. None, Window::Hann)
        let v = match (&v, t.kind()) {
            (J::O(o), ty::Adt(def, _)) if def.is_enum() => {
                let mut r = v.clone();
                let _ = o;
                if let Ok(cv) = self.eval(c) {
                    if let Some(dc) = tcx.try_destructure_mir_constant_for_user_output(cv, t) {
                        if let Some(vi) = dc.variant {
                            let fs: Vec<J> = dc.fields.iter().map(|(fv, ft)| { let o = ConstOperand { span: c.span, user_ty: None, const_: Const::Val(*fv, *ft) }; match self.konst(&o) { J::O(v) => v.into_iter().find(|(k, _)| k == "v").unwrap().1, x => x } }).collect();
                            r = J::o(vec![("variant", J::n(vi.as_u32())), ("fields", J::A(fs))]);
                        }
                    }
                }
                r
            }
            _ => v,
        };
        J::o(vec![("k", J::s("const")), ("ty", tj), ("v", v)])
    }

    fn operand(&mut self, o: &Operand<'tcx>) -> J {
        match o {
            Operand::Copy(p) => { let x = self.place(p); J::o(vec![("k", J::s("copy")), ("p", x)]) }
            Operand::Move(p) => { let x = self.place(p); J::o(vec![("k", J::s("move")), ("p", x)]) }
            Operand::Constant(c) => self.konst(c),
            Operand::RuntimeChecks(r) => {
                let v = matches!(r, RuntimeChecks::OverflowChecks);
                J::o(vec![("k", J::s("const")), ("ty", J::s("bool")), ("v", J::o(vec![("bool", J::B(v))]))])
            }
        }
    }

    /// the methods behind a coercion to a trait object, in vtable order
    fn vtable(&mut self, src: Ty<'tcx>, dst: Ty<'tcx>) -> Option<J> {
        let tcx = self.tcx;
        let (s, d) = match (*src.kind(), *dst.kind()) {
            (ty::Ref(_, a, _) | ty::RawPtr(a, _), ty::Ref(_, b, _) | ty::RawPtr(b, _)) => (a, b),
            (ty::Adt(x, a), ty::Adt(_, b)) if x.is_box() => (a.type_at(0), b.type_at(0)),
            _ => return None,
        };
        let ty::Dynamic(preds, ..) = *d.kind() else { return None };
        if matches!(s.kind(), ty::Dynamic(..)) { return None; }
        let pr = preds.principal()?;
        let tr = tcx.erase_and_anonymize_regions(tcx.instantiate_bound_regions_with_erased(pr.with_self_ty(tcx, s)));
        let mut out = vec![];
        for e in tcx.vtable_entries(tr) {
            match e {
                ty::vtable::VtblEntry::Method(i) => {
                    let i = *i;
                    self.push(i, 0);
                    let k = self.key(i);
                    let td = tcx.opt_associated_item(i.def_id()).and_then(|a| a.trait_item_def_id()).unwrap_or(i.def_id());
                    self.vtabled.push((self.path(td), k));
                    let im = tcx.impl_of_assoc(i.def_id());
                    let c = match (im, tcx.opt_associated_item(i.def_id()).and_then(|a| a.trait_item_def_id())) {
                        (Some(im), Some(td)) => {
                            let it = tcx.impl_trait_ref(im).instantiate(tcx, i.args).skip_norm_wip();
                            let it = tcx.normalize_erasing_regions(env(), ty::Unnormalized::new_wip(it));
                            self.callee(td, it.args)
                        }
                        _ => self.callee(i.def_id(), i.args),
                    };
                    out.push(c);
                }
                _ => out.push(J::Null),
            }
        }
        Some(J::A(out))
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>, decls: &LocalDecls<'tcx>) -> J {
        match r {
            Rvalue::Use(o, _) => { let x = self.operand(o); J::o(vec![("k", J::s("use")), ("o", x)]) }
            Rvalue::Repeat(o, n) => { let x = self.operand(o); let n = n.try_to_target_usize(self.tcx).map(|n| J::n(n)).unwrap_or(J::Null); J::o(vec![("k", J::s("repeat")), ("o", x), ("n", n)]) }
            Rvalue::Ref(_, b, p) => { let x = self.place(p); J::o(vec![("k", J::s("ref")), ("p", x), ("mut", J::B(matches!(b, BorrowKind::Mut { .. })))]) }
            Rvalue::RawPtr(_, p) => { let x = self.place(p); J::o(vec![("k", J::s("ref")), ("p", x), ("mut", J::B(true)), ("raw", J::B(true))]) }
            Rvalue::Reborrow(_, m, p) => { let x = self.place(p); J::o(vec![("k", J::s("ref")), ("p", x), ("mut", J::B(m.is_mut()))]) }
            Rvalue::Cast(k, o, t) => {
                let x = self.operand(o); let tt = *t; let t = self.ty(tt);
                let mut v = vec![("k", J::s("cast")), ("c", J::s(format!("{:?}", k))), ("o", x), ("ty", t)];
                if let CastKind::PointerCoercion(ty::adjustment::PointerCoercion::Unsize, _) = k {
                    let src = o.ty(decls, self.tcx);
                    if let Some(vt) = self.vtable(src, tt) { v.push(("vt", vt)); }
                }
                if let CastKind::PointerCoercion(ty::adjustment::PointerCoercion::ReifyFnPointer(_) | ty::adjustment::PointerCoercion::ClosureFnPointer(_), _) = k {
                    let src = o.ty(decls, self.tcx);
                    let i = match *src.kind() {
                        ty::FnDef(d, a) => Instance::try_resolve(self.tcx, env(), d, self.tcx.erase_and_anonymize_regions(a.skip_binder())).ok().flatten(),
                        ty::Closure(d, a) => Some(Instance::new_raw(d, a)),
                        _ => None,
                    };
                    let key = match i { Some(i) => { self.push(i, 0); self.key(i) } None => "unresolved!function pointer".into() };
                    self.vtabled.push(("fnptr".into(), key));
                }
                J::o(v)
            }
            Rvalue::BinaryOp(op, ab) => { let a = self.operand(&ab.0); let b = self.operand(&ab.1); J::o(vec![("k", J::s("bin")), ("op", J::s(format!("{:?}", op))), ("a", a), ("b", b)]) }
            Rvalue::UnaryOp(op, a) => { let a = self.operand(a); J::o(vec![("k", J::s("un")), ("op", J::s(format!("{:?}", op))), ("a", a)]) }
            Rvalue::Discriminant(p) => { let x = self.place(p); J::o(vec![("k", J::s("discr")), ("p", x)]) }
            Rvalue::CopyForDeref(p) => { let x = self.place(p); J::o(vec![("k", J::s("use")), ("o", J::o(vec![("k", J::s("copy")), ("p", x)]))]) }
            Rvalue::Aggregate(k, fs) => {
                let v: Vec<J> = fs.iter().map(|f| self.operand(f)).collect();
                let mut o = vec![("k", J::s("agg")), ("fs", J::A(v))];
                match **k {
                    AggregateKind::Array(t) => { let t = self.ty(t); o.push(("a", J::s("array"))); o.push(("ty", t)); }
                    AggregateKind::Tuple => o.push(("a", J::s("tuple"))),
                    AggregateKind::Adt(d, vi, args, _, af) => {
                        o.push(("a", J::s("adt")));
                        let t = Ty::new_adt(self.tcx, self.tcx.adt_def(d), args);
                        let t = self.ty(t);
                        o.push(("ty", t));
                        o.push(("v", J::n(vi.as_u32())));
                        if let Some(f) = af { o.push(("union_field", J::n(f.as_u32()))); }
                    }
                    AggregateKind::Closure(d, args) => { o.push(("a", J::s("closure"))); let t = Ty::new_closure(self.tcx, d, args); let t = self.ty(t); o.push(("ty", t)); }
                    AggregateKind::RawPtr(t, _) => { o.push(("a", J::s("rawptr"))); let t = self.ty(t); o.push(("ty", t)); }
                    _ => o.push(("a", J::s("other"))),
                }
                J::o(o)
            }
            Rvalue::ThreadLocalRef(d) => J::o(vec![("k", J::s("tls")), ("d", J::s(self.path(*d)))]),
            _ => J::o(vec![("k", J::s("other")), ("d", J::s(format!("{:?}", r)))]),
        }
    }

    fn body_of(&mut self, i: Instance<'tcx>) -> Option<Body<'tcx>> {
        let tcx = self.tcx;
        match i.def {
            InstanceKind::Item(d) => {
                if tcx.is_foreign_item(d) || !matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::Ctor(..)) || !tcx.is_mir_available(d) { return None; }
            }
            InstanceKind::Intrinsic(_) | InstanceKind::LlvmIntrinsic(_) | InstanceKind::Virtual(..) => return None,
            InstanceKind::Shim(_) => {}
        }
        let b = tcx.instance_mir(i.def).clone();
        i.try_instantiate_mir_and_normalize_erasing_regions(tcx, env(), ty::EarlyBinder::bind(tcx, b)).ok()
    }

    fn process(&mut self, i: Instance<'tcx>) {
        let tcx = self.tcx;
        let k = self.key(i);
        if self.bodies.contains_key(&k) || self.graph.contains_key(&k) { return; }
        let kind = match i.def { InstanceKind::Item(_) => "item", InstanceKind::Intrinsic(_) | InstanceKind::LlvmIntrinsic(_) => "intrinsic", InstanceKind::Virtual(..) => "virtual", InstanceKind::Shim(ShimKind::DropGlue(..)) => "dropglue", InstanceKind::Shim(_) => "shim" };
        let mut g = vec![("path", J::s(self.path(i.def_id()))), ("kind", J::s(kind)), ("crate", J::s(tcx.crate_name(i.def_id().krate)))];
        let Some(b) = self.body_of(i) else { g.push(("mir", J::B(false))); g.push(("calls", J::A(vec![]))); self.graph.insert(k, J::o(g)); return; };
        g.push(("mir", J::B(true)));
        let mut calls: Vec<J> = vec![];
        let mut blocks = vec![];
        for bb in b.basic_blocks.iter() {
            let mut st = vec![];
            if !bb.is_cleanup {
                for s in &bb.statements {
                    match &s.kind {
                        StatementKind::Assign(x) => { let p = self.place(&x.0); let r = self.rvalue(&x.1, &b.local_decls); st.push(J::o(vec![("k", J::s("=")), ("p", p), ("r", r), ("l", J::s(self.loc(s.source_info.span)))])); }
                        StatementKind::SetDiscriminant { place, variant_index } => { let p = self.place(place); st.push(J::o(vec![("k", J::s("setdiscr")), ("p", p), ("v", J::n(variant_index.as_u32()))])); }
                        StatementKind::Intrinsic(x) => st.push(J::o(vec![("k", J::s("intrinsic")), ("d", J::s(format!("{:?}", x)))])),
                        _ => {}
                    }
                }
            }
            let t = bb.terminator();
            let l = J::s(self.loc(t.source_info.span));
            let term = if bb.is_cleanup { J::o(vec![("k", J::s("cleanup"))]) } else {
                match &t.kind {
                    TerminatorKind::Goto { target, .. } => J::o(vec![("k", J::s("goto")), ("t", J::n(target.as_u32()))]),
                    TerminatorKind::FalseEdge { real_target, .. } | TerminatorKind::FalseUnwind { real_target, .. } => J::o(vec![("k", J::s("goto")), ("t", J::n(real_target.as_u32()))]),
                    TerminatorKind::SwitchInt { discr, targets } => {
                        let d = self.operand(discr);
                        let ty = discr.ty(&b.local_decls, tcx);
                        let ty = self.ty(ty);
                        let v: Vec<J> = targets.iter().map(|(v, t)| J::A(vec![J::s(v), J::n(t.as_u32())])).collect();
                        J::o(vec![("k", J::s("switch")), ("d", d), ("ty", ty), ("ts", J::A(v)), ("else", J::n(targets.otherwise().as_u32()))])
                    }
                    TerminatorKind::Return => J::o(vec![("k", J::s("return"))]),
                    TerminatorKind::Unreachable => J::o(vec![("k", J::s("unreachable"))]),
                    TerminatorKind::Drop { place, target, .. } => {
                        let p = self.place(place);
                        let ty = place.ty(&b.local_decls, tcx).ty;
                        if ty.needs_drop(tcx, env()) {
                            let di = Instance::resolve_drop_glue(tcx, ty);
                            let dk = self.key(di);
                            calls.push(J::S(dk));
                            self.push(di, 0);
                        }
                        let ty = self.ty(ty);
                        J::o(vec![("k", J::s("drop")), ("p", p), ("ty", ty), ("t", J::n(target.as_u32()))])
                    }
                    TerminatorKind::Call { func, args, destination, target, .. } => {
                        let f = self.operand(func);
                        let fty = func.ty(&b.local_decls, tcx);
                        if let ty::FnDef(d, a) = *fty.kind() {
                            {
                                let a = tcx.erase_and_anonymize_regions(a.skip_binder());
                                if target.is_some() {
                                    match Instance::try_resolve(tcx, env(), d, a) { Ok(Some(ci)) => { let ck = self.key(ci); calls.push(J::S(ck)); } _ => { let p = self.path(d); calls.push(J::S(format!("unresolved!{}", p))); } }
                                }
                            }
                        } else if target.is_some() { calls.push(J::s("indirect!")); }
                        let a: Vec<J> = args.iter().map(|x| self.operand(&x.node)).collect();
                        let d = self.place(destination);
                        let rty = destination.ty(&b.local_decls, tcx).ty;
                        let rty = self.ty(rty);
                        J::o(vec![("k", J::s("call")), ("f", f), ("a", J::A(a)), ("d", d), ("rty", rty), ("t", target.map(|t| J::n(t.as_u32())).unwrap_or(J::Null)), ("l", l.clone())])
                    }
                    TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                        let c = self.operand(cond);
                        let m = match &**msg {
                            AssertKind::BoundsCheck { len, index } => { let a = self.operand(len); let b = self.operand(index); J::o(vec![("m", J::s("bounds")), ("len", a), ("index", b)]) }
                            AssertKind::Overflow(op, a, b) => { let a = self.operand(a); let b = self.operand(b); J::o(vec![("m", J::s("overflow")), ("op", J::s(format!("{:?}", op))), ("a", a), ("b", b)]) }
                            AssertKind::OverflowNeg(_) => J::o(vec![("m", J::s("overflowneg"))]),
                            AssertKind::DivisionByZero(_) => J::o(vec![("m", J::s("divzero"))]),
                            AssertKind::RemainderByZero(_) => J::o(vec![("m", J::s("remzero"))]),
                            AssertKind::MisalignedPointerDereference { .. } | AssertKind::NullPointerDereference | AssertKind::NullReferenceConstructed | AssertKind::InvalidEnumConstruction(_) => J::o(vec![("m", J::s("ub"))]),
                            _ => J::o(vec![("m", J::s("other"))]),
                        };
                        J::o(vec![("k", J::s("assert")), ("c", c), ("e", J::B(*expected)), ("m", m), ("t", J::n(target.as_u32())), ("l", l.clone())])
                    }
                    _ => J::o(vec![("k", J::s("other")), ("d", J::s(format!("{:?}", t.kind)))]),
                }
            };
            blocks.push(J::o(vec![("s", J::A(st)), ("t", term), ("c", J::B(bb.is_cleanup))]));
        }
        let locals: Vec<J> = b.local_decls.iter().map(|d| self.ty(d.ty)).collect();
        let mut names = vec![];
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value { if p.projection.is_empty() { names.push(J::A(vec![J::n(p.local.as_u32()), J::s(v.name)])); } }
        }
        g.push(("calls", J::A(calls)));
        self.graph.insert(k.clone(), J::o(g));
        let mut o = vec![("path", J::s(self.path(i.def_id()))), ("local", J::B(i.def_id().is_local())), ("argc", J::n(b.arg_count)), ("locals", J::A(locals)), ("names", J::A(names)), ("span", J::s(self.loc(b.span))), ("blocks", J::A(blocks)),
            ("closure", J::B(tcx.is_closure_like(i.def_id())))];
        if let Some(sa) = b.spread_arg { o.push(("spread", J::n(sa.as_u32()))); }
        self.bodies.insert(k, J::o(o));
    }
}

struct UnsafeFinder<'tcx> { tcx: TyCtxt<'tcx>, found: Vec<rustc_span::Span> }
impl<'tcx> rustc_hir::intravisit::Visitor<'tcx> for UnsafeFinder<'tcx> {
    type NestedFilter = rustc_middle::hir::nested_filter::All;
    fn maybe_tcx(&mut self) -> TyCtxt<'tcx> { self.tcx }
    fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
        if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) = b.rules { self.found.push(b.span); }
        rustc_hir::intravisit::walk_block(self, b);
    }
}

struct Cb;
impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let want = std::env::var("RASPMIR_CRATE").unwrap_or_default();
        if tcx.crate_name(LOCAL_CRATE).as_str() != want { return Compilation::Continue; }
        let Ok(out) = std::env::var("RASPMIR_OUT") else { return Compilation::Continue };
        if tcx.sess.opts.test { return Compilation::Continue; }
        dump(tcx, &out);
        Compilation::Continue
    }
}

fn dump<'tcx>(tcx: TyCtxt<'tcx>, out: &str) {
    let mut cx = Cx { tcx, types: BTreeMap::new(), bodies: BTreeMap::new(), graph: BTreeMap::new(), seen: HashSet::new(), queue: VecDeque::new(), names: HashMap::new(), vtabled: vec![] };
    let mut entries = vec![];
    let mut impls = vec![];
    let floats = [("f32", tcx.types.f32), ("f64", tcx.types.f64)];
    let ev = tcx.effective_visibilities(());
    let send = tcx.get_diagnostic_item(rustc_span::sym::Send);
    let sync = tcx.lang_items().sync_trait();

    let mut fns: Vec<DefId> = vec![];
    let mut impl_defs: Vec<DefId> = vec![];
    let mut statics = vec![];
    let mut adts = vec![];
    let mut unsafes = vec![];
    let mut traits: Vec<DefId> = vec![];
    for id in tcx.hir_crate_items(()).definitions() {
        let d = id.to_def_id();
        match tcx.def_kind(d) {
            DefKind::Fn | DefKind::AssocFn => {
                fns.push(d);
                if tcx.fn_sig(d).skip_binder().skip_binder().safety().is_unsafe() { unsafes.push(J::A(vec![J::s("unsafe fn"), J::s(cx.path(d)), J::s(cx.loc(tcx.def_span(d)))])); }
            }
            DefKind::Impl { of_trait } => {
                impl_defs.push(d);
                if of_trait && tcx.impl_trait_header(d).safety.is_unsafe() { unsafes.push(J::A(vec![J::s("unsafe impl"), J::s(cx.path(d)), J::s(cx.loc(tcx.def_span(d)))])); }
            }
            DefKind::Static { .. } => {
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let fr = t.is_freeze(tcx, TypingEnv::post_analysis(tcx, d));
                statics.push(J::o(vec![("path", J::s(cx.path(d))), ("mut", J::B(tcx.is_mutable_static(d))), ("freeze", J::B(fr)), ("tls", J::B(tcx.is_thread_local_static(d))), ("loc", J::s(cx.loc(tcx.def_span(d))))]));
            }
            DefKind::Struct | DefKind::Enum | DefKind::Union => adts.push(d),
            DefKind::Trait => traits.push(d),
            DefKind::ForeignMod => unsafes.push(J::A(vec![J::s("extern block"), J::s(cx.path(d)), J::s(cx.loc(tcx.def_span(d)))])),
            _ => {}
        }
    }
    {
        let mut v = UnsafeFinder { tcx, found: vec![] };
        tcx.hir_visit_all_item_likes_in_crate(&mut v);
        for s in v.found { let l = cx.loc(s); unsafes.push(J::A(vec![J::s("unsafe block"), J::s(""), J::S(l)])); }
    }

    let mk = |d: DefId, f: Ty<'tcx>| -> GenericArgsRef<'tcx> {
        ty::GenericArgs::for_item(tcx, d, |p, _| -> GenericArg<'tcx> {
            match p.kind {
                ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
                ty::GenericParamDefKind::Type { .. } => f.into(),
                ty::GenericParamDefKind::Const { .. } => ty::Const::from_target_usize(tcx, 4).into(),
            }
        })
    };
    let has_ty = |d: DefId| -> bool { let g = tcx.generics_of(d); g.own_requires_monomorphization() || g.parent.map(|p| tcx.generics_of(p).requires_monomorphization(tcx)).unwrap_or(false) };

    for &d in &fns {
        // trait declarations and their provided methods are handled per impl below
        if tcx.trait_of_assoc(d).is_some() { continue; }
        let generic = has_ty(d);
        for (fname, f) in floats.iter() {
            if !generic && *fname == "f64" { continue; }
            let mut args = mk(d, *f);
            // overridden internal iteration: instantiated with a function pointer that stands for the caller's closure
            let nm = tcx.item_name(d);
            let internal = tcx.impl_of_assoc(d).and_then(|im| tcx.impl_opt_trait_ref(im)).map(|tr| cx.path(tr.skip_binder().def_id) == "core::iter::traits::iterator::Iterator").unwrap_or(false)
                && matches!((nm.as_str(), tcx.generics_of(d).own_params.iter().filter(|p| matches!(p.kind, ty::GenericParamDefKind::Type { .. })).count()), ("fold", 2) | ("for_each", 1));
            if internal {
                let sig = if nm.as_str() == "fold" { tcx.mk_fn_sig_safe_rust_abi([*f, *f], *f) } else { tcx.mk_fn_sig_safe_rust_abi([*f], tcx.types.unit) };
                let fp = Ty::new_fn_ptr(tcx, ty::Binder::dummy(sig));
                let last = args.len() - 1;
                args = tcx.mk_args_from_iter(args.iter().enumerate().map(|(n, a)| if n == last { fp.into() } else { a }));
            }
            if tcx.instantiate_and_check_impossible_clauses((d, args)) { continue; }
            if args.has_non_region_param() { continue; }
            let Ok(Some(i)) = Instance::try_resolve(tcx, env(), d, args) else { continue };
            let k = cx.key(i);
            cx.push(i, 0);
            let mut o = vec![("inst", J::S(k)), ("path", J::s(cx.path(d))), ("name", J::s(tcx.item_name(d))), ("t", J::s(if generic { fname } else { "-" })),
                ("loc", J::s(cx.loc(tcx.def_span(d)))), ("pub", J::B(tcx.visibility(d).is_public())), ("reachable", J::B(ev.is_reachable(d.expect_local())))];
            if let Some(im) = tcx.impl_of_assoc(d) {
                let st = tcx.type_of(im).instantiate(tcx, args).skip_norm_wip();
                let st = tcx.normalize_erasing_regions(env(), ty::Unnormalized::new_wip(st));
                let sj = cx.ty(st);
                o.push(("self", sj));
                if let ty::Adt(ad, _) = st.kind() { o.push(("adt", J::s(cx.path(ad.did())))); }
                if let Some(tr) = tcx.impl_opt_trait_ref(im) { let p = cx.path(tr.skip_binder().def_id); o.push(("trait", J::S(p))); }
            }
            entries.push(J::o(o));
        }
    }
    // local trait impls: every method of the trait, provided ones included
    for &im in &impl_defs {
        let Some(tr) = tcx.impl_opt_trait_ref(im) else { continue };
        let td = tr.skip_binder().def_id;
        for (fname, f) in floats.iter() {
            let generic = has_ty(im);
            if !generic && *fname == "f64" { continue; }
            let iargs = mk(im, *f);
            if tcx.instantiate_and_check_impossible_clauses((im, iargs)) { continue; }
            let tref = tr.instantiate(tcx, iargs).skip_norm_wip();
            let tref = tcx.normalize_erasing_regions(env(), ty::Unnormalized::new_wip(tref));
            let st = tref.self_ty();
            let sj = cx.ty(st);
            let adt = if let ty::Adt(ad, _) = st.kind() { J::s(cx.path(ad.did())) } else { J::Null };
            let tp = cx.path(td);
            impls.push(J::o(vec![("trait", J::s(&tp)), ("self", sj.clone()), ("adt", adt.clone()), ("t", J::s(if generic { fname } else { "-" })), ("loc", J::s(cx.loc(tcx.def_span(im))))]));
            if !td.is_local() { continue; }
            for &m in tcx.associated_item_def_ids(td) {
                if tcx.def_kind(m) != DefKind::AssocFn { continue; }
                let margs = tref.args;
                if tcx.generics_of(m).own_requires_monomorphization() { continue; }
                let Ok(Some(i)) = Instance::try_resolve(tcx, env(), m, margs) else { continue };
                let k = cx.key(i);
                cx.push(i, 0);
                let defaulted = tcx.trait_of_assoc(i.def_id()).is_some();
                if !defaulted { continue; }
                entries.push(J::o(vec![("inst", J::S(k)), ("path", J::s(cx.path(i.def_id()))), ("name", J::s(tcx.item_name(m))), ("t", J::s(if generic { fname } else { "-" })),
                    ("loc", J::s(cx.loc(tcx.def_span(i.def_id())))), ("pub", J::B(true)), ("reachable", J::B(true)), ("self", sj.clone()), ("adt", adt.clone()), ("trait", J::s(&tp)), ("default", J::B(true))]));
            }
        }
    }
    let mut adtj = vec![];
    for &a in &adts {
        for (fname, f) in floats.iter() {
            let generic = has_ty(a);
            if !generic && *fname == "f64" { continue; }
            let args = mk(a, *f);
            let t = Ty::new_adt(tcx, tcx.adt_def(a), args);
            let tj = cx.ty(t);
            let infcx = rustc_infer::infer::TyCtxtInferExt::infer_ctxt(tcx).build(ty::TypingMode::PostAnalysis);
            let chk = |tr: Option<DefId>| -> bool {
                use rustc_trait_selection::infer::InferCtxtExt;
                tr.map(|tr| infcx.type_implements_trait(tr, [t], ty::ParamEnv::empty()).must_apply_modulo_regions()).unwrap_or(false)
            };
            adtj.push(J::o(vec![("path", J::s(cx.path(a))), ("ty", tj), ("t", J::s(if generic { fname } else { "-" })), ("send", J::B(chk(send))), ("sync", J::B(chk(sync))), ("freeze", J::B(t.is_freeze(tcx, env()))), ("reachable", J::B(ev.is_reachable(a.expect_local())))]));
        }
    }
    let mut n = 0usize;
    while let Some((i, _)) = cx.queue.pop_front() {
        n += 1;
        if n > 60000 { break; }
        cx.process(i);
    }
    let trj: Vec<J> = traits.iter().map(|&t| J::s(cx.path(t))).collect();
    let mut w = String::new();
    let types = J::O(cx.types.into_iter().collect());
    let bodies = J::O(cx.bodies.into_iter().collect());
    let graph = J::O(cx.graph.into_iter().collect());
    J::o(vec![("crate", J::s(tcx.crate_name(LOCAL_CRATE))), ("entries", J::A(entries)), ("impls", J::A(impls)), ("adts", J::A(adtj)), ("traits", J::A(trj)), ("statics", J::A(statics)), ("unsafe", J::A(unsafes)), ("processed", J::n(n)), ("types", types), ("bodies", bodies), ("graph", graph), ("vtabled", J::A(cx.vtabled.into_iter().map(|(a, b)| J::A(vec![J::S(a), J::S(b)])).collect()))]).write(&mut w);
    std::fs::write(out, w).expect("write RASPMIR_OUT");
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of rustc
    if args.len() > 1 && args[1].ends_with("rustc") { args.remove(1); }
    if std::env::var("RASPMIR_OUT").is_ok() { args.push("-Zmir-opt-level=0".into()); args.push("-Zalways-encode-mir".into()); }
    std::process::exit(if rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb)) == std::process::ExitCode::SUCCESS { 0 } else { 1 });
}
