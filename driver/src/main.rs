//! Dumps the type-checked program of the crates named in KV_CRATES as JSON:
//! every function body (MIR without optimisation) with resolved callees, the
//! bodies of the generic library functions they reach, types and constants.
#![feature(rustc_private)]
#![allow(unused_imports)]

extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

mod json;
use json::J;

use std::collections::{HashMap, HashSet, VecDeque};

use rustc_driver::Compilation;
use rustc_hir::def::{DefKind, CtorKind};
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::{self, *};
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::ty::{self, Instance, InstanceKind, Ty, TyCtxt, TypingEnv, GenericArgsRef, EarlyBinder};

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
    types: Vec<J>,
    type_ids: HashMap<Ty<'tcx>, usize>,
    adts: HashMap<DefId, ()>,
    adt_out: Vec<(String, J)>,
    seen: HashSet<String>,
    queue: VecDeque<(Instance<'tcx>, TypingEnv<'tcx>)>,
    funcs: Vec<(String, J)>,
    expand: Vec<String>,
    crates: Vec<String>,
}

fn full<T>(f: impl FnOnce() -> T) -> T {
    ty::print::with_no_trimmed_paths!(ty::print::with_resolve_crate_name!(f()))
}

impl<'tcx> Dump<'tcx> {
    fn raw_path(&self, d: DefId) -> String {
        format!("{}{}", self.tcx.crate_name(d.krate),
                self.tcx.def_path(d).to_string_no_crate_verbose())
    }
    fn tystr(&self, t: Ty<'tcx>) -> String {
        full(|| format!("{}", t))
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.type_ids.get(&t) {
            return *i;
        }
        let id = self.types.len();
        self.types.push(J::Null);
        self.type_ids.insert(t, id);
        let mut s = self.tystr(t);
        if s.len() > 500 {
            let mut cut = 300;
            while !s.is_char_boundary(cut) { cut -= 1; }
            s.truncate(cut);
            s.push_str(&format!("...#{}", id));
        }
        let mut o: Vec<(&'static str, J)> = vec![("s", s.into())];
        let k = |x: &str| J::from(x);
        match *t.kind() {
            ty::Bool => o.push(("k", k("bool"))),
            ty::Char => o.push(("k", k("char"))),
            ty::Int(i) => { o.push(("k", k("int"))); o.push(("n", i.name_str().into())); }
            ty::Uint(i) => { o.push(("k", k("uint"))); o.push(("n", i.name_str().into())); }
            ty::Float(i) => { o.push(("k", k("float"))); o.push(("n", i.name_str().into())); }
            ty::Str => o.push(("k", k("str"))),
            ty::Never => o.push(("k", k("never"))),
            ty::Slice(e) => { o.push(("k", k("slice"))); let e = self.ty(e); o.push(("e", e.into())); }
            ty::Array(e, n) => {
                o.push(("k", k("array")));
                let e = self.ty(e);
                o.push(("e", e.into()));
                let n = n.try_to_target_usize(self.tcx).map(|x| J::Num(x as i128)).unwrap_or(J::Null);
                o.push(("n", n));
            }
            ty::Ref(_, e, m) => {
                o.push(("k", k("ref")));
                let e = self.ty(e);
                o.push(("e", e.into()));
                o.push(("m", m.is_mut().into()));
            }
            ty::RawPtr(e, m) => {
                o.push(("k", k("ptr")));
                let e = self.ty(e);
                o.push(("e", e.into()));
                o.push(("m", m.is_mut().into()));
            }
            ty::Tuple(l) => {
                o.push(("k", k("tuple")));
                let v = l.iter().map(|x| self.ty(x).into()).collect::<Vec<J>>();
                o.push(("a", v.into()));
            }
            ty::Adt(def, args) => {
                o.push(("k", k("adt")));
                let p = self.adt(def.did());
                o.push(("p", p.into()));
                let v = args.types().map(|x| self.ty(x).into()).collect::<Vec<J>>();
                o.push(("a", v.into()));
            }
            ty::Closure(def, args) => {
                o.push(("k", k("closure")));
                let p = self.raw_path(def);
                o.push(("p", p.into()));
                let ck = args.as_closure().kind_ty().to_opt_closure_kind();
                o.push(("ck", ck.map(|c| J::from(format!("{:?}", c))).unwrap_or(J::Null)));
                let v = args.as_closure().upvar_tys().iter().map(|x| self.ty(x).into()).collect::<Vec<J>>();
                o.push(("a", v.into()));
            }
            ty::FnDef(..) => o.push(("k", k("fndef"))),
            ty::FnPtr(..) => o.push(("k", k("fnptr"))),
            ty::Param(p) => { o.push(("k", k("param"))); o.push(("n", p.name.as_str().into())); }
            ty::Alias(..) => o.push(("k", k("alias"))),
            ty::Dynamic(..) => o.push(("k", k("dyn"))),
            _ => o.push(("k", k("other"))),
        }
        self.types[id] = J::Obj(o);
        id
    }
    fn adt(&mut self, d: DefId) -> String {
        let p = full(|| self.tcx.def_path_str(d));
        if self.adts.insert(d, ()).is_none() {
            let def = self.tcx.adt_def(d);
            let mut vs = Vec::new();
            for (vi, v) in def.variants().iter_enumerated() {
                let discr = if def.is_enum() {
                    J::Num(def.discriminant_for_variant(self.tcx, vi).val as i128)
                } else { J::Num(0) };
                let mut fs = Vec::new();
                for f in v.fields.iter() {
                    let fty = self.tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                    let fty = full(|| format!("{}", fty));
                    let vis = full(|| format!("{:?}", self.tcx.visibility(f.did)));
                    fs.push(J::Obj(vec![("n", f.name.as_str().into()), ("t", fty.into()), ("v", vis.into())]));
                }
                vs.push(J::Obj(vec![("n", v.name.as_str().into()), ("d", discr), ("f", fs.into())]));
            }
            let kind = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
            self.adt_out.push((p.clone(), J::Obj(vec![("kind", kind.into()), ("v", vs.into()), ("box", def.is_box().into())])));
        }
        p
    }
    /// readable stable name of a function
    fn nice(&self, d: DefId) -> String {
        let tcx = self.tcx;
        if tcx.is_closure_like(d) {
            return self.raw_path(d);
        }
        if let Some(imp) = tcx.impl_of_assoc(d) {
            let name = tcx.item_name(d);
            let st = tcx.type_of(imp).instantiate_identity().skip_norm_wip();
            let st = match st.kind() {
                ty::Adt(a, _) => full(|| tcx.def_path_str(a.did())),
                _ => self.tystr(st),
            };
            if let Some(tr) = tcx.impl_opt_trait_ref(imp) {
                let tr = tr.instantiate_identity().skip_norm_wip();
                return format!("<{} as {}>::{}", st, full(|| tcx.def_path_str(tr.def_id)), name);
            }
            return format!("{}::{}", st, name);
        }
        full(|| tcx.def_path_str(d))
    }
    fn inst_key(&self, i: &Instance<'tcx>) -> String {
        let base = full(|| format!("{}", i));
        let d = i.def_id();
        if self.tcx.is_closure_like(d) {
            let args = full(|| format!("{:?}", i.args));
            return format!("{}|{}|{}", base, self.raw_path(d), args);
        }
        if self.tcx.impl_of_assoc(d).is_some() {
            return format!("{}|{}", base, self.raw_path(d));
        }
        base
    }
    fn should_expand(&self, d: DefId) -> bool {
        if d.is_local() { return true; }
        let cn = self.tcx.crate_name(d.krate).to_string();
        if self.crates.iter().any(|c| *c == cn) { return true; }
        let p = self.raw_path(d);
        self.expand.iter().any(|e| p.starts_with(e.as_str()))
    }
    fn enqueue(&mut self, i: Instance<'tcx>) -> String {
        let key = self.inst_key(&i);
        if self.seen.insert(key.clone()) {
            self.queue.push_back((i, self.env));
        }
        key
    }
    /// callee description
    fn callee(&mut self, d: DefId, args: GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o: Vec<(&'static str, J)> = Vec::new();
        let args = tcx.erase_and_anonymize_regions(args);
        o.push(("decl", self.nice(d).into()));
        let targs = args.types().map(|t| { let i = self.ty(t); J::from(i) }).collect::<Vec<J>>();
        o.push(("targs", targs.into()));
        if let Some(tr) = tcx.trait_of_assoc(d) {
            o.push(("trait", full(|| tcx.def_path_str(tr)).into()));
            let st = self.ty(args.type_at(0));
            o.push(("self", st.into()));
            o.push(("m", tcx.item_name(d).as_str().into()));
        }
        match tcx.def_kind(d) {
            DefKind::Ctor(..) => {
                let parent = tcx.parent(d);
                let (adt, variant) = match tcx.def_kind(parent) {
                    DefKind::Variant => {
                        let adt = tcx.parent(parent);
                        (adt, tcx.adt_def(adt).variant_index_with_ctor_id(d).as_usize())
                    }
                    _ => (parent, 0),
                };
                let p = self.adt(adt);
                o.push(("ctor", J::Arr(vec![p.into(), variant.into()])));
                return J::Obj(o);
            }
            _ => {}
        }
        let res = Instance::try_resolve(tcx, self.env, d, args);
        if let Ok(Some(inst)) = res {
            o.push(("name", self.nice(inst.def_id()).into()));
            o.push(("raw", self.raw_path(inst.def_id()).into()));
            let kind = match inst.def {
                InstanceKind::Item(_) => "item".to_string(),
                InstanceKind::Intrinsic(_) => "intrinsic".to_string(),
                InstanceKind::LlvmIntrinsic(_) => "intrinsic".to_string(),
                InstanceKind::Virtual(..) => "virtual".to_string(),
                InstanceKind::Shim(s) => format!("shim:{}", format!("{:?}", s).split(|c: char| !c.is_alphanumeric()).next().unwrap_or("")),
            };
            let is_item = matches!(inst.def, InstanceKind::Item(_));
            o.push(("kind", kind.into()));
            if is_item && self.should_expand(inst.def_id()) {
                let k = self.enqueue(inst);
                o.push(("key", k.into()));
            }
        } else {
            o.push(("kind", "unresolved".into()));
        }
        J::Obj(o)
    }
    fn place(&mut self, body: &Body<'tcx>, p: &Place<'tcx>) -> J {
        let tcx = self.tcx;
        let mut pt = PlaceTy::from_ty(body.local_decls[p.local].ty);
        let mut proj = Vec::new();
        for e in p.projection.iter() {
            let j = match e {
                ProjectionElem::Deref => J::Arr(vec!["*".into()]),
                ProjectionElem::Field(f, _) => {
                    let name = match pt.ty.kind() {
                        ty::Adt(d, _) => {
                            let vi = pt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            d.variant(vi).fields[f].name.as_str().to_string()
                        }
                        _ => format!("{}", f.as_usize()),
                    };
                    J::Arr(vec!["f".into(), name.into(), f.as_usize().into()])
                }
                ProjectionElem::Index(l) => J::Arr(vec!["i".into(), l.as_usize().into()]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } =>
                    J::Arr(vec!["ci".into(), J::Num(offset as i128), J::Num(min_length as i128), from_end.into()]),
                ProjectionElem::Subslice { from, to, from_end } =>
                    J::Arr(vec!["ss".into(), J::Num(from as i128), J::Num(to as i128), from_end.into()]),
                ProjectionElem::Downcast(_, v) => {
                    let name = match pt.ty.kind() {
                        ty::Adt(d, _) => d.variant(v).name.as_str().to_string(),
                        _ => String::new(),
                    };
                    J::Arr(vec!["d".into(), name.into(), v.as_usize().into()])
                }
                _ => J::Arr(vec!["?".into()]),
            };
            let npt = pt.projection_ty(tcx, e);
            // type after the projection, normalised
            let nty = tcx.try_normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(npt.ty)).unwrap_or(npt.ty);
            pt = PlaceTy { ty: nty, variant_index: npt.variant_index };
            let tid = self.ty(pt.ty);
            if let J::Arr(mut v) = j { v.push(J::Obj(vec![("t", tid.into())])); proj.push(J::Arr(v)); }
        }
        if proj.is_empty() { J::Num(p.local.as_usize() as i128) }
        else { J::Arr(vec![p.local.as_usize().into(), proj.into()]) }
    }
    fn const_value(&mut self, v: ConstValue, t: Ty<'tcx>, depth: usize) -> J {
        let tcx = self.tcx;
        let tid = self.ty(t);
        if depth > 6 {
            return J::Obj(vec![("c", "opaque".into()), ("t", tid.into())]);
        }
        match t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) => {
                if let Some(s) = v.try_to_scalar_int() {
                    let bits = s.to_bits_unchecked();
                    let val = if let ty::Int(_) = t.kind() {
                        s.size().sign_extend(bits) as i128
                    } else { bits as i128 };
                    return J::Obj(vec![("c", "int".into()), ("t", tid.into()), ("v", J::Num(val))]);
                }
            }
            ty::Ref(_, inner, _) if inner.is_str() => {
                if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                    if let Ok(s) = std::str::from_utf8(b) {
                        return J::Obj(vec![("c", "str".into()), ("t", tid.into()), ("v", s.into())]);
                    }
                }
            }
            ty::Ref(_, inner, _) if matches!(inner.kind(), ty::Slice(e) if *e == tcx.types.u8) => {
                if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                    let v = b.iter().map(|x| J::Num(*x as i128)).collect::<Vec<_>>();
                    return J::Obj(vec![("c", "bytes".into()), ("t", tid.into()), ("v", v.into())]);
                }
            }
            ty::Ref(_, inner, _) => {
                // pointer to a sized static allocation
                if let Some(Scalar::Ptr(p, _)) = v.try_to_scalar() {
                    let (prov, off) = p.into_raw_parts();
                    if let Some(GlobalAlloc::Memory(_)) = tcx.try_get_global_alloc(prov.alloc_id()) {
                        if inner.is_sized(tcx, self.env) {
                            let iv = ConstValue::Indirect { alloc_id: prov.alloc_id(), offset: off };
                            let j = self.const_value(iv, *inner, depth + 1);
                            return J::Obj(vec![("c", "ref".into()), ("t", tid.into()), ("v", j)]);
                        }
                    }
                }
            }
            ty::FnDef(d, args) => {
                let j = self.callee((*d).into(), args.skip_binder());
                return J::Obj(vec![("c", "fn".into()), ("t", tid.into()), ("v", j)]);
            }
            ty::Adt(..) | ty::Tuple(_) | ty::Array(..) => {
                let has_param = t.has_param_like();
                if !has_param {
                    if let Some(d) = tcx.try_destructure_mir_constant_for_user_output(v, t) {
                        let fields = d.fields.iter().map(|(fv, ft)| self.const_value(*fv, *ft, depth + 1)).collect::<Vec<_>>();
                        let vi = d.variant.map(|x| x.as_usize()).unwrap_or(0);
                        return J::Obj(vec![("c", "agg".into()), ("t", tid.into()), ("v", J::Num(vi as i128)), ("f", fields.into())]);
                    }
                }
            }
            _ => {}
        }
        if let ConstValue::ZeroSized = v {
            return J::Obj(vec![("c", "zst".into()), ("t", tid.into())]);
        }
        J::Obj(vec![("c", "opaque".into()), ("t", tid.into()), ("v", format!("{:?}", v).into())])
    }
    fn constant(&mut self, c: &Const<'tcx>) -> J {
        let tcx = self.tcx;
        let t = c.ty();
        if let ty::FnDef(d, args) = t.kind() {
            let tid = self.ty(t);
            let j = self.callee((*d).into(), args.skip_binder());
            return J::Obj(vec![("c", "fn".into()), ("t", tid.into()), ("v", j)]);
        }
        match c {
            Const::Val(v, t) => self.const_value(*v, *t, 0),
            Const::Ty(t, ct) => {
                let tid = self.ty(*t);
                if let Some(v) = ct.try_to_target_usize(tcx) {
                    return J::Obj(vec![("c", "int".into()), ("t", tid.into()), ("v", J::Num(v as i128))]);
                }
                if let ty::ConstKind::Value(cv) = ct.kind() {
                    let v = tcx.valtree_to_const_val(cv);
                    return self.const_value(v, *t, 0);
                }
                J::Obj(vec![("c", "param".into()), ("t", tid.into()), ("v", format!("{:?}", ct).into())])
            }
            Const::Unevaluated(u, t) => {
                let tid = self.ty(*t);
                if let Some(p) = u.promoted {
                    if self.should_expand(u.def) || u.def.is_local() {
                        let args = tcx.erase_and_anonymize_regions(u.args);
                        let inst = Instance::new_raw(u.def, args);
                        let key = format!("promoted[{}] of {}", p.as_usize(), self.inst_key(&inst));
                        if self.seen.insert(key.clone()) {
                            let body = tcx.promoted_mir(u.def)[p].clone();
                            let body = inst.instantiate_mir_and_normalize_erasing_regions(tcx, self.env, EarlyBinder::bind(tcx, body));
                            let b = self.body(&body);
                            self.funcs.push((key.clone(), J::Obj(vec![("kind", "promoted".into()), ("name", key.clone().into()), ("body", b)])));
                        }
                        return J::Obj(vec![("c", "promoted".into()), ("t", tid.into()), ("v", key.into())]);
                    }
                }
                if let Ok(v) = c.eval(tcx, self.env, rustc_span::DUMMY_SP) {
                    return self.const_value(v, *t, 0);
                }
                if u.promoted.is_none() && u.def.is_local() && self.should_expand(u.def) {
                    let args = tcx.erase_and_anonymize_regions(u.args);
                    let inst = Instance::new_raw(u.def, args);
                    let key = format!("const {}", self.inst_key(&inst));
                    if self.seen.insert(key.clone()) {
                        let body = tcx.mir_for_ctfe(u.def).clone();
                        let body = inst.instantiate_mir_and_normalize_erasing_regions(tcx, self.env, EarlyBinder::bind(tcx, body));
                        let b = self.body(&body);
                        self.funcs.push((key.clone(), J::Obj(vec![("kind", "const".into()), ("name", key.clone().into()), ("body", b)])));
                    }
                    return J::Obj(vec![("c", "promoted".into()), ("t", tid.into()), ("v", key.into())]);
                }
                let p = full(|| tcx.def_path_str(u.def));
                J::Obj(vec![("c", "opaque".into()), ("t", tid.into()), ("v", p.into())])
            }
        }
    }
    fn operand(&mut self, body: &Body<'tcx>, o: &Operand<'tcx>) -> J {
        match o {
            Operand::Copy(p) => J::Arr(vec!["cp".into(), self.place(body, p)]),
            Operand::Move(p) => J::Arr(vec!["mv".into(), self.place(body, p)]),
            Operand::Constant(c) => J::Arr(vec!["k".into(), self.constant(&c.const_)]),
            Operand::RuntimeChecks(_) => {
                let t = self.ty(self.tcx.types.bool);
                J::Arr(vec!["k".into(), J::Obj(vec![("c", "int".into()), ("t", t.into()), ("v", J::Num(0))])])
            }
        }
    }
    fn rvalue(&mut self, body: &Body<'tcx>, r: &Rvalue<'tcx>) -> J {
        let tcx = self.tcx;
        match r {
            Rvalue::Use(o, _) => J::Arr(vec!["use".into(), self.operand(body, o)]),
            Rvalue::Repeat(o, c) => {
                let n = c.try_to_target_usize(tcx).map(|x| J::Num(x as i128)).unwrap_or(J::Null);
                J::Arr(vec!["rep".into(), self.operand(body, o), n])
            }
            Rvalue::Ref(_, k, p) => {
                let m = matches!(k, BorrowKind::Mut { .. });
                J::Arr(vec!["ref".into(), m.into(), self.place(body, p)])
            }
            Rvalue::RawPtr(_, p) => J::Arr(vec!["ref".into(), true.into(), self.place(body, p)]),
            Rvalue::Reborrow(_, m, p) => J::Arr(vec!["use".into(), J::Arr(vec!["cp".into(), self.place(body, p)]), m.is_mut().into()]),
            Rvalue::CopyForDeref(p) => J::Arr(vec!["use".into(), J::Arr(vec!["cp".into(), self.place(body, p)])]),
            Rvalue::Cast(k, o, t) => {
                let t2 = self.ty(*t);
                let from = o.ty(&body.local_decls, tcx);
                let from = self.ty(from);
                // closures/fn items coerced to fn pointers keep their identity
                J::Arr(vec!["cast".into(), format!("{:?}", k).into(), self.operand(body, o), t2.into(), from.into()])
            }
            Rvalue::BinaryOp(op, ab) => {
                let t = ab.0.ty(&body.local_decls, tcx);
                let t = self.ty(t);
                J::Arr(vec!["bin".into(), format!("{:?}", op).into(), self.operand(body, &ab.0), self.operand(body, &ab.1), t.into()])
            }
            Rvalue::UnaryOp(op, a) => {
                let t = a.ty(&body.local_decls, tcx);
                let t = self.ty(t);
                J::Arr(vec!["un".into(), format!("{:?}", op).into(), self.operand(body, a), t.into()])
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, tcx).ty;
                let t = self.ty(t);
                J::Arr(vec!["discr".into(), self.place(body, p), t.into()])
            }
            Rvalue::Aggregate(k, ops) => {
                let f = ops.iter().map(|o| self.operand(body, o)).collect::<Vec<_>>();
                let kj = match &**k {
                    AggregateKind::Array(t) => { let t = self.ty(*t); J::Arr(vec!["array".into(), t.into()]) }
                    AggregateKind::Tuple => J::Arr(vec!["tuple".into()]),
                    AggregateKind::Adt(d, vi, _, _, af) => {
                        let p = self.adt(*d);
                        let v = tcx.adt_def(*d).variant(*vi);
                        J::Arr(vec!["adt".into(), p.into(), vi.as_usize().into(), v.name.as_str().into(),
                            v.fields.iter().map(|f| J::from(f.name.as_str())).collect::<Vec<_>>().into(),
                            af.map(|x| J::from(x.as_usize())).unwrap_or(J::Null)])
                    }
                    AggregateKind::Closure(d, args) => {
                        let args = tcx.erase_and_anonymize_regions(*args);
                        let inst = Instance::new_raw(*d, args);
                        let key = self.enqueue(inst);
                        let ck = args.as_closure().kind_ty().to_opt_closure_kind();
                        J::Arr(vec!["closure".into(), key.into(), ck.map(|c| J::from(format!("{:?}", c))).unwrap_or(J::Null)])
                    }
                    AggregateKind::RawPtr(..) => J::Arr(vec!["rawptr".into()]),
                    _ => J::Arr(vec!["other".into()]),
                };
                J::Arr(vec!["agg".into(), kj, f.into()])
            }
            Rvalue::ThreadLocalRef(_) => J::Arr(vec!["other".into(), "tls".into()]),
            _ => J::Arr(vec!["other".into(), format!("{:?}", r).into()]),
        }
    }
    fn line(&self, s: rustc_span::Span) -> J {
        let sm = self.tcx.sess.source_map();
        let s = s.source_callsite();
        let loc = sm.lookup_char_pos(s.lo());
        J::Str(format!("{}:{}", loc.file.name.prefer_local_unconditionally(), loc.line))
    }
    fn body(&mut self, body: &Body<'tcx>) -> J {
        let tcx = self.tcx;
        let mut locals = Vec::new();
        for d in body.local_decls.iter() {
            locals.push(J::from(self.ty(d.ty)));
        }
        let mut names: Vec<(String, J)> = Vec::new();
        for v in body.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = &v.value {
                names.push((v.name.as_str().to_string(), self.place(body, p)));
            }
        }
        let mut blocks = Vec::new();
        for (_, bb) in body.basic_blocks.iter_enumerated() {
            let mut st = Vec::new();
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(b) => {
                        let pl = self.place(body, &b.0);
                        let rv = self.rvalue(body, &b.1);
                        st.push(J::Arr(vec!["=".into(), pl, rv]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let pl = self.place(body, place);
                        st.push(J::Arr(vec!["setd".into(), pl, variant_index.as_usize().into()]));
                    }
                    StatementKind::Intrinsic(i) => {
                        if let NonDivergingIntrinsic::Assume(_) = &**i {} else { st.push(J::Arr(vec!["intr".into()])); }
                    }
                    _ => {}
                }
            }
            let term = bb.terminator();
            let line = self.line(term.source_info.span);
            let t = match &term.kind {
                TerminatorKind::Goto { target, .. } => J::Arr(vec!["goto".into(), target.as_usize().into()]),
                TerminatorKind::FalseEdge { real_target, .. } => J::Arr(vec!["goto".into(), real_target.as_usize().into()]),
                TerminatorKind::FalseUnwind { real_target, .. } => J::Arr(vec!["goto".into(), real_target.as_usize().into()]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dty = discr.ty(&body.local_decls, tcx);
                    let t = self.ty(dty);
                    let bits = |v: u128| -> i128 {
                        match dty.kind() {
                            ty::Int(i) => {
                                let b = i.bit_width().unwrap_or(64) as u32;
                                if b >= 128 { v as i128 } else {
                                    let sh = 128 - b;
                                    ((v << sh) as i128) >> sh
                                }
                            }
                            _ => v as i128,
                        }
                    };
                    let vs = targets.iter().map(|(v, b)| J::Arr(vec![J::Num(bits(v)), b.as_usize().into()])).collect::<Vec<_>>();
                    J::Arr(vec!["sw".into(), self.operand(body, discr), vs.into(), targets.otherwise().as_usize().into(), t.into()])
                }
                TerminatorKind::Return => J::Arr(vec!["ret".into()]),
                TerminatorKind::Unreachable => J::Arr(vec!["unreach".into()]),
                TerminatorKind::Drop { target, .. } => J::Arr(vec!["goto".into(), target.as_usize().into()]),
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = match func {
                        Operand::Constant(c) => self.constant(&c.const_),
                        o => J::Obj(vec![("c", "dynfn".into()), ("v", self.operand(body, o))]),
                    };
                    let a = args.iter().map(|x| self.operand(body, &x.node)).collect::<Vec<_>>();
                    let dty = destination.ty(&body.local_decls, tcx).ty;
                    let dty = self.ty(dty);
                    let d = self.place(body, destination);
                    J::Arr(vec!["call".into(), f, a.into(), d,
                        target.map(|t| J::from(t.as_usize())).unwrap_or(J::Null), line.clone(), dty.into()])
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match &**msg {
                        AssertKind::BoundsCheck { len, index } => J::Arr(vec!["bounds".into(), self.operand(body, len), self.operand(body, index)]),
                        AssertKind::Overflow(op, a, b) => {
                            let t = a.ty(&body.local_decls, tcx);
                            let t = self.ty(t);
                            J::Arr(vec!["overflow".into(), format!("{:?}", op).into(), self.operand(body, a), self.operand(body, b), t.into()])
                        }
                        o => J::Arr(vec![format!("{:?}", o).split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").into()]),
                    };
                    J::Arr(vec!["assert".into(), self.operand(body, cond), (*expected).into(), m, target.as_usize().into(), line.clone()])
                }
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => J::Arr(vec!["unwind".into()]),
                o => J::Arr(vec!["other".into(), format!("{:?}", o).into()]),
            };
            blocks.push(J::Obj(vec![("s", st.into()), ("t", t), ("l", line)]));
        }
        J::Obj(vec![
            ("args", body.arg_count.into()),
            ("locals", locals.into()),
            ("names", J::Map(names)),
            ("spread", body.spread_arg.map(|l| J::from(l.as_usize())).unwrap_or(J::Null)),
            ("blocks", blocks.into()),
        ])
    }
    fn run_queue(&mut self) {
        let tcx = self.tcx;
        while let Some((inst, env)) = self.queue.pop_front() {
            self.env = env;
            let d = inst.def_id();
            let key = self.inst_key(&inst);
            let mut o: Vec<(&'static str, J)> = Vec::new();
            o.push(("name", self.nice(d).into()));
            o.push(("raw", self.raw_path(d).into()));
            o.push(("kind", (if tcx.is_closure_like(d) { "closure" } else { "fn" }).into()));
            o.push(("local", d.is_local().into()));
            o.push(("span", self.line(tcx.def_span(d))));
            if let Some(imp) = tcx.impl_of_assoc(d) {
                if let Some(tr) = tcx.impl_opt_trait_ref(imp) {
                    let tr = tr.instantiate(tcx, inst.args).skip_norm_wip();
                    o.push(("trait", full(|| tcx.def_path_str(tr.def_id)).into()));
                    let st = tcx.try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(tr.self_ty())).unwrap_or(tr.self_ty());
                    let st = self.ty(st);
                    o.push(("self", st.into()));
                    let ta = tr.args.types().skip(1).map(|t| { let i = self.ty(t); J::from(i) }).collect::<Vec<_>>();
                    o.push(("traitargs", ta.into()));
                }
            }
            if tcx.is_closure_like(d) {
                let p = tcx.parent(d);
                o.push(("parent", self.raw_path(p).into()));
            } else {
                let vis = full(|| format!("{:?}", tcx.visibility(d)));
                o.push(("vis", vis.into()));
                o.push(("m", tcx.item_name(d).as_str().into()));
            }
            let avail = tcx.is_mir_available(d);
            if avail {
                let body = tcx.instance_mir(inst.def).clone();
                let body = inst.instantiate_mir_and_normalize_erasing_regions(tcx, env, EarlyBinder::bind(tcx, body));
                let b = self.body(&body);
                o.push(("body", b));
            } else {
                o.push(("body", J::Null));
            }
            self.funcs.push((key, J::Obj(o)));
        }
    }
}

trait HasParamLike { fn has_param_like(&self) -> bool; }
impl<'tcx> HasParamLike for Ty<'tcx> {
    fn has_param_like(&self) -> bool {
        use rustc_middle::ty::TypeVisitableExt;
        self.has_param()
    }
}

fn place_of(tcx: TyCtxt<'_>, d: DefId) -> String {
    let lo = tcx.sess.source_map().lookup_char_pos(tcx.def_span(d).lo());
    format!("{}:{}:{}", lo.file.name.prefer_local_unconditionally(), lo.line, lo.col.0)
}

fn text<'tcx>(b: &Body<'tcx>) -> String {
    use std::fmt::Write;
    full(|| {
        let mut s = String::new();
        for l in b.local_decls.iter() { let _ = writeln!(s, "{}", l.ty); }
        for bb in b.basic_blocks.iter() {
            for st in bb.statements.iter() {
                if !matches!(st.kind, StatementKind::StorageLive(_) | StatementKind::StorageDead(_) | StatementKind::Nop) {
                    let _ = writeln!(s, "{:?}", st.kind);
                }
            }
            if let Some(t) = &bb.terminator { let _ = writeln!(s, "{:?}", t.kind); }
        }
        s
    })
}

/// the code of every body of this crate as text, with where it is and whose it is
fn index<'tcx>(tcx: TyCtxt<'tcx>, dump: &Dump<'tcx>) -> Vec<J> {
    let mut out = Vec::new();
    for ld in tcx.hir_body_owners() {
        let d = ld.to_def_id();
        let kind = tcx.def_kind(d);
        let mut s = String::new();
        match kind {
            DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {
                if !tcx.is_mir_available(d) { continue; }
                s.push_str(&text(tcx.optimized_mir(d)));
                for p in tcx.promoted_mir(d).iter() { s.push_str("promoted\n"); s.push_str(&text(p)); }
            }
            DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } => {
                s.push_str(&text(tcx.mir_for_ctfe(d)));
                for p in tcx.promoted_mir(d).iter() { s.push_str("promoted\n"); s.push_str(&text(p)); }
            }
            _ => continue,
        }
        // the item or implementation it belongs to
        let mut o = d;
        while tcx.is_closure_like(o) { o = tcx.parent(o); }
        let imp = tcx.impl_of_assoc(o).map(|i| impl_name(tcx, i)).unwrap_or_default();
        out.push(J::Obj(vec![
            ("n", full(|| tcx.def_path_str(o)).into()), ("nice", dump.nice(o).into()), ("at", place_of(tcx, d).into()), ("impl", imp.into()),
            ("kind", format!("{:?}", kind).split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").into()),
            ("code", s.into()),
        ]));
    }
    out
}

/// what a body uses from outside of its arguments: functions of other crates,
/// statics, thread locals, addresses as numbers, unsafe blocks
struct Uses<'tcx> { tcx: TyCtxt<'tcx>, env: TypingEnv<'tcx>, out: Vec<J> }

impl<'tcx> Uses<'tcx> {
    fn add(&mut self, kind: &str, what: String, extra: String, sp: rustc_span::Span) {
        let sp = sp.source_callsite();
        let lo = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
        let at = format!("{}:{}", lo.file.name.prefer_local_unconditionally(), lo.line);
        self.out.push(J::Arr(vec![kind.into(), what.into(), extra.into(), at.into()]));
    }
    fn func(&mut self, d: DefId, args: GenericArgsRef<'tcx>, sp: rustc_span::Span) {
        let tcx = self.tcx;
        let (mut d, mut args) = (d, args);
        if tcx.trait_of_assoc(d).is_some() {
            if let Ok(Some(i)) = Instance::try_resolve(tcx, self.env, d, tcx.erase_and_anonymize_regions(args)) {
                d = i.def_id(); args = i.args;
            }
        }
        if d.is_local() { return; }
        let own = tcx.impl_of_assoc(d).map(|i| impl_name(tcx, i)).unwrap_or_default();
        let a = full(|| format!("{}", args.iter().map(|x| match x.as_type().map(|t| t.kind()) {
            Some(ty::Closure(_, ca)) if !ca.as_closure().upvar_tys().is_empty() => format!("{}#captures", x),
            _ => format!("{}", x),
        }).collect::<Vec<_>>().join(", ")));
        let p = full(|| tcx.def_path_str(d));
        self.add("fn", if own.is_empty() { p } else { format!("{} :: {}", own, tcx.item_name(d)) }, a, sp);
    }
}

impl<'tcx> rustc_middle::mir::visit::Visitor<'tcx> for Uses<'tcx> {
    fn visit_const_operand(&mut self, c: &ConstOperand<'tcx>, l: Location) {
        let tcx = self.tcx;
        if let Some(d) = c.check_static_ptr(tcx) {
            let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
            let m = tcx.is_mutable_static(d) || !t.is_freeze(tcx, self.env);
            self.add(if m { "state" } else { "static" }, full(|| tcx.def_path_str(d)), full(|| format!("{}", t)), c.span);
        }
        if let ty::FnDef(d, args) = c.const_.ty().kind() {
            self.func((*d).into(), args.skip_binder(), c.span);
        }
        self.super_const_operand(c, l);
    }
    fn visit_rvalue(&mut self, r: &Rvalue<'tcx>, l: Location) {
        match r {
            Rvalue::ThreadLocalRef(d) => {
                let p = full(|| self.tcx.def_path_str(*d));
                self.add("state", p, String::new(), rustc_span::DUMMY_SP);
            }
            Rvalue::Cast(CastKind::PointerExposeProvenance, _, t) => {
                let t = full(|| format!("{}", t));
                self.add("address", t, String::new(), rustc_span::DUMMY_SP);
            }
            _ => {}
        }
        self.super_rvalue(r, l);
    }
    fn visit_terminator(&mut self, t: &Terminator<'tcx>, l: Location) {
        if let TerminatorKind::InlineAsm { .. } = t.kind { self.add("asm", String::new(), String::new(), t.source_info.span); }
        self.super_terminator(t, l);
    }
}

struct Unsafes<'tcx> { tcx: TyCtxt<'tcx>, at: Vec<rustc_span::Span> }

impl<'tcx> rustc_hir::intravisit::Visitor<'tcx> for Unsafes<'tcx> {
    fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
        if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) = b.rules {
            if !b.span.in_external_macro(self.tcx.sess.source_map()) { self.at.push(b.span); }
        }
        rustc_hir::intravisit::walk_block(self, b);
    }
}

fn effects<'tcx>(tcx: TyCtxt<'tcx>, dump: &Dump<'tcx>) -> Vec<J> {
    use rustc_middle::mir::visit::Visitor as _;
    use rustc_hir::intravisit::Visitor as _;
    let mut out = Vec::new();
    for ld in tcx.hir_body_owners() {
        let d = ld.to_def_id();
        let kind = tcx.def_kind(d);
        let body = match kind {
            DefKind::Fn | DefKind::AssocFn | DefKind::Closure if tcx.is_mir_available(d) => tcx.optimized_mir(d),
            DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } => tcx.mir_for_ctfe(d),
            _ => continue,
        };
        let mut o = d;
        while tcx.is_closure_like(o) { o = tcx.parent(o); }
        let mut u = Uses { tcx, env: TypingEnv::post_analysis(tcx, o), out: Vec::new() };
        u.visit_body(body);
        for p in tcx.promoted_mir(d).iter() { u.visit_body(p); }
        let mut h = Unsafes { tcx, at: Vec::new() };
        h.visit_body(tcx.hir_body_owned_by(ld));
        for sp in h.at { u.add("unsafe", String::new(), String::new(), sp); }
        let imp = tcx.impl_of_assoc(o).map(|i| impl_name(tcx, i)).unwrap_or_default();
        out.push(J::Obj(vec![
            ("n", dump.nice(o).into()), ("impl", imp.into()), ("at", place_of(tcx, d).into()),
            ("kind", format!("{:?}", kind).split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").into()),
            ("uses", J::Arr(u.out)),
        ]));
    }
    out
}

fn impl_name(tcx: TyCtxt<'_>, d: DefId) -> String {
    let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
    match tcx.impl_opt_trait_ref(d) {
        Some(t) => { let t = t.instantiate_identity().skip_norm_wip(); full(|| format!("{:?}", t)) }
        None => full(|| format!("{}", st)),
    }
}

fn impls(tcx: TyCtxt<'_>) -> Vec<J> {
    let mut out = Vec::new();
    for id in tcx.hir_crate_items(()).definitions() {
        let d = id.to_def_id();
        if matches!(tcx.def_kind(d), DefKind::Impl { .. }) {
            let preds = full(|| format!("{:?}", tcx.param_env(d).caller_bounds().collect::<Vec<_>>()));
            out.push(J::Arr(vec![impl_name(tcx, d).into(), place_of(tcx, d).into(), preds.into()]));
        }
    }
    out
}

/// what the crate lets others name: path, kind, what it is, its type
fn exports(tcx: TyCtxt<'_>) -> Vec<J> {
    let mut out = Vec::new();
    let mut todo = vec![("".to_string(), LOCAL_CRATE.as_def_id())];
    let mut seen = HashSet::new();
    while let Some((path, m)) = todo.pop() {
        if !seen.insert((path.clone(), m)) || path.matches("::").count() > 8 { continue; }
        let Some(lm) = m.as_local() else { continue };
        for c in tcx.module_children_local(lm).iter() {
            if !c.vis.is_public() { continue; }
            let p = format!("{}::{}", path, c.ident.name);
            let Some(d) = c.res.opt_def_id() else { continue };
            let kind = tcx.def_kind(d);
            let sig = match kind {
                DefKind::Fn => full(|| format!("{}", tcx.fn_sig(d).instantiate_identity().skip_norm_wip())),
                _ => String::new(),
            };
            out.push(J::Arr(vec![p.clone().into(), format!("{:?}", kind).into(), full(|| tcx.def_path_str(d)).into(), sig.into()]));
            if matches!(kind, DefKind::Mod) { todo.push((p, d)); }
        }
    }
    for id in tcx.hir_crate_items(()).definitions() {
        let d = id.to_def_id();
        if !matches!(tcx.def_kind(d), DefKind::AssocFn) { continue; }
        let Some(imp) = tcx.impl_of_assoc(d) else { continue };
        if tcx.impl_opt_trait_ref(imp).is_some() || !tcx.visibility(d).is_public() { continue; }
        let sig = full(|| format!("{}", tcx.fn_sig(d).instantiate_identity().skip_norm_wip()));
        out.push(J::Arr(vec![format!("{}::{}", impl_name(tcx, imp), tcx.item_name(d)).into(), "Method".into(), "".into(), sig.into()]));
    }
    out
}

struct Cb;

impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let name = tcx.crate_name(LOCAL_CRATE).to_string();
        let crates: Vec<String> = std::env::var("KV_CRATES").unwrap_or_default().split(',').map(|s| s.to_string()).collect();
        let out = match std::env::var("KV_OUT") { Ok(o) => o, Err(_) => return Compilation::Continue };
        let roots: Vec<String> = std::env::var("KV_ROOTS").unwrap_or_else(|_| name.clone()).split(',').map(|s| s.to_string()).collect();
        if !roots.contains(&name) || tcx.sess.opts.test {
            return Compilation::Continue;
        }
        let expand: Vec<String> = std::env::var("KV_EXPAND").unwrap_or_default().split(',').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect();
        let mut d = Dump {
            tcx,
            env: TypingEnv::fully_monomorphized(),
            types: Vec::new(), type_ids: HashMap::new(), adts: HashMap::new(), adt_out: Vec::new(),
            seen: HashSet::new(), queue: VecDeque::new(), funcs: Vec::new(),
            expand, crates,
        };
        let mut root_keys = Vec::new();
        for ld in tcx.hir_body_owners() {
            let def = ld.to_def_id();
            if !matches!(tcx.def_kind(def), DefKind::Fn | DefKind::AssocFn) { continue; }
            let args = ty::GenericArgs::identity_for_item(tcx, def);
            let args = tcx.erase_and_anonymize_regions(args);
            let inst = Instance::new_raw(def, args);
            d.env = TypingEnv::post_analysis(tcx, def);
            let k = d.enqueue(inst);
            root_keys.push(J::from(k));
            d.run_queue();
        }
        let index = index(tcx, &d);
        let effects = effects(tcx, &d);
        let (exports, impls) = (exports(tcx), impls(tcx));
        // all types defined here, reachable or not
        for id in tcx.hir_crate_items(()).definitions() {
            if matches!(tcx.def_kind(id), DefKind::Struct | DefKind::Enum) { d.adt(id.to_def_id()); }
        }
        let j = J::Obj(vec![
            ("crate", name.clone().into()),
            ("roots", root_keys.into()),
            ("index", index.into()), ("effects", effects.into()), ("exports", exports.into()), ("impls", impls.into()),
            ("types", J::Arr(std::mem::take(&mut d.types))),
            ("adts", J::Map(std::mem::take(&mut d.adt_out))),
            ("funcs", J::Map(std::mem::take(&mut d.funcs))),
        ]);
        let mut s = String::new();
        j.write(&mut s);
        std::fs::write(format!("{}/{}.json", out, name), s).expect("write dump");
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].ends_with("rustc.exe")) {
        args.remove(1);
    }
    rustc_driver::catch_with_exit_code(|| {
        rustc_driver::compiler_entrypoint(&args, &mut Cb)
    })
}
