//! mirfacts: a rustc wrapper that type-checks the crate exactly as cargo asks and
//! additionally dumps, for the crate(s) named in MIRFACTS_CRATES, every local MIR body,
//! type, constant, item signature and impl table as JSON.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_driver_impl;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

mod json;
use json::J;

use rustc_driver_impl::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_interface::interface::{Compiler, Config};
use rustc_middle::mir::*;
use rustc_middle::ty::{self, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::collections::HashMap;

struct Cb {
    out: Option<String>,
}

impl Callbacks for Cb {
    fn config(&mut self, config: &mut Config) {
        if self.out.is_some() {
            config.opts.unstable_opts.mir_opt_level = Some(0);
            config.opts.cg.overflow_checks = Some(false);
            config.opts.debug_assertions = false;
        }
    }
    fn after_analysis<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if let Some(path) = &self.out {
            let mut cx = Cx::new(tcx);
            let j = cx.dump();
            let mut s = String::new();
            j.write(&mut s);
            let tmp = format!("{path}.tmp");
            std::fs::write(&tmp, s).expect("write facts");
            std::fs::rename(&tmp, path).expect("rename facts");
        }
        Compilation::Continue
    }
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<J>,
    tymap: HashMap<Ty<'tcx>, usize>,
    adts: Vec<(String, J)>,
    adtseen: HashMap<DefId, ()>,
    env: TypingEnv<'tcx>,
    defs: std::cell::RefCell<HashMap<String, String>>,
}

impl<'tcx> Cx<'tcx> {
    fn new(tcx: TyCtxt<'tcx>) -> Self {
        Cx {
            tcx,
            types: vec![],
            tymap: HashMap::new(),
            adts: vec![],
            adtseen: HashMap::new(),
            env: TypingEnv::fully_monomorphized(),
            defs: Default::default(),
        }
    }

    fn path(&self, d: DefId) -> String {
        let krate = self.tcx.crate_name(d.krate);
        let p = self.tcx.def_path(d).to_string_no_crate_verbose();
        let id = format!("{krate}{p}");
        if !self.defs.borrow().contains_key(&id) {
            let n = self.nice(d);
            self.defs.borrow_mut().insert(id.clone(), n);
        }
        id
    }

    fn nice(&self, d: DefId) -> String {
        rustc_middle::ty::print::with_no_trimmed_paths!(
            rustc_middle::ty::print::with_no_visible_paths!(self.tcx.def_path_str(d))
        )
    }

    fn loc(&self, sp: Span) -> (String, usize) {
        let sp = sp.source_callsite();
        let l = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
        let f = format!(
            "{}",
            l.file.name.prefer_local_unconditionally()
        );
        (f, l.line)
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.tymap.get(&t) {
            return *i;
        }
        let id = self.types.len();
        self.types.push(J::Null);
        self.tymap.insert(t, id);
        let s = rustc_middle::ty::print::with_no_trimmed_paths!(format!("{t}"));
        let mut o: Vec<(&'static str, J)> = vec![("s", J::S(s))];
        match t.kind() {
            ty::Bool => o.push(("k", J::s("bool"))),
            ty::Char => o.push(("k", J::s("char"))),
            ty::Int(i) => {
                o.push(("k", J::s("int")));
                o.push(("n", J::s(i.name_str())));
            }
            ty::Uint(i) => {
                o.push(("k", J::s("int")));
                o.push(("n", J::s(i.name_str())));
            }
            ty::Float(f) => {
                o.push(("k", J::s("float")));
                o.push(("n", J::s(f.name_str())));
            }
            ty::Str => o.push(("k", J::s("str"))),
            ty::Never => o.push(("k", J::s("never"))),
            ty::Adt(def, args) => {
                o.push(("k", J::s("adt")));
                o.push(("d", J::S(self.path(def.did()))));
                let a: Vec<J> = args.types().map(|t| J::i(self.ty(t) as i128)).collect();
                o.push(("a", J::A(a)));
                self.adt(*def);
            }
            ty::Array(t2, len) => {
                o.push(("k", J::s("array")));
                let i = self.ty(*t2);
                o.push(("t", J::i(i)));
                let l = len.try_to_target_usize(self.tcx);
                o.push(("len", l.map(|l| J::i(l)).unwrap_or(J::Null)));
            }
            ty::Slice(t2) => {
                o.push(("k", J::s("slice")));
                let i = self.ty(*t2);
                o.push(("t", J::i(i)));
            }
            ty::RawPtr(t2, m) => {
                o.push(("k", J::s("ptr")));
                o.push(("mut", J::B(m.is_mut())));
                let i = self.ty(*t2);
                o.push(("t", J::i(i)));
            }
            ty::Ref(_, t2, m) => {
                o.push(("k", J::s("ref")));
                o.push(("mut", J::B(m.is_mut())));
                let i = self.ty(*t2);
                o.push(("t", J::i(i)));
            }
            ty::Tuple(ts) => {
                o.push(("k", J::s("tuple")));
                let a: Vec<J> = ts.iter().map(|t| J::i(self.ty(t))).collect();
                o.push(("a", J::A(a)));
            }
            ty::Closure(d, _) => {
                o.push(("k", J::s("closure")));
                o.push(("d", J::S(self.path(*d))));
            }
            ty::FnDef(d, args) => {
                o.push(("k", J::s("fndef")));
                let d: DefId = (*d).into();
                o.push(("d", J::S(self.path(d))));
                let args = args.skip_binder();
                let a: Vec<J> = args.types().map(|t| J::i(self.ty(t))).collect();
                o.push(("a", J::A(a)));
                if let Some(r) = self.resolve(d, args) {
                    o.push(("res", J::S(r)));
                }
            }
            ty::FnPtr(sig, _) => {
                o.push(("k", J::s("fnptr")));
                let tys = sig.skip_binder().inputs_and_output;
                let a: Vec<J> = tys.iter().map(|t| J::i(self.ty(t))).collect();
                o.push(("a", J::A(a)));
            }
            ty::Dynamic(preds, _) => {
                o.push(("k", J::s("dyn")));
                let mut v = vec![];
                if let Some(p) = preds.principal_def_id() {
                    v.push(J::S(self.path(p)));
                }
                for d in preds.auto_traits() {
                    v.push(J::S(self.path(d)));
                }
                o.push(("d", J::A(v)));
            }
            ty::Param(p) => {
                o.push(("k", J::s("param")));
                o.push(("n", J::s(p.name.as_str())));
            }
            _ => o.push(("k", J::s("other"))),
        }
        self.types[id] = J::O(o);
        id
    }

    fn adt(&mut self, def: ty::AdtDef<'tcx>) {
        let did = def.did();
        if self.adtseen.insert(did, ()).is_some() {
            return;
        }
        let tcx = self.tcx;
        let mut variants = vec![];
        for (vi, v) in def.variants().iter_enumerated() {
            let discr = if def.is_enum() {
                let d = def.discriminant_for_variant(tcx, vi);
                let bits = d.val;
                let signed = matches!(d.ty.kind(), ty::Int(_));
                if signed {
                    let size = tcx.layout_of(self.env.as_query_input(d.ty)).map(|l| l.size).ok();
                    size.map(|s| J::I(s.sign_extend(bits))).unwrap_or(J::Null)
                } else {
                    J::i(bits)
                }
            } else {
                J::Null
            };
            let mut fields = vec![];
            if did.is_local() || self.path(did).starts_with("core::option") || self.path(did).starts_with("core::result") || def.is_enum() {
                for f in v.fields.iter() {
                    let ft = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                    let ti = self.ty(ft);
                    fields.push(J::O(vec![
                        ("n", J::s(f.name.as_str())),
                        ("t", J::i(ti)),
                        ("pub", J::B(f.vis.is_public())),
                    ]));
                }
            } else {
                for f in v.fields.iter() {
                    fields.push(J::O(vec![("n", J::s(f.name.as_str()))]));
                }
            }
            variants.push(J::O(vec![
                ("n", J::s(v.name.as_str())),
                ("discr", discr),
                ("f", J::A(fields)),
            ]));
        }
        let (file, line) = self.loc(tcx.def_span(did));
        let r = def.repr();
        let o = J::O(vec![
            ("kind", J::s(if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" })),
            ("v", J::A(variants)),
            ("local", J::B(did.is_local())),
            ("repr_c", J::B(r.c())),
            ("repr_int", r.int.map(|i| J::s(format!("{i:?}"))).unwrap_or(J::Null)),
            ("file", J::S(file)),
            ("line", J::i(line)),
        ]);
        let p = self.path(did);
        self.adts.push((p, o));
    }

    fn resolve(&self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> Option<String> {
        let tcx = self.tcx;
        match tcx.def_kind(d) {
            DefKind::Fn | DefKind::AssocFn => {}
            _ => return None,
        }
        let args = tcx.erase_and_anonymize_regions(args);
        match ty::Instance::try_resolve(tcx, self.env, d, args) {
            Ok(Some(inst)) => Some(match inst.def {
                ty::InstanceKind::Virtual(..) => format!("virtual:{}", self.path(d)),
                other => self.path(other.def_id()),
            }),
            _ => None,
        }
    }

    // ---- constants -------------------------------------------------------

    fn cval(&mut self, v: ConstValue, t: Ty<'tcx>, depth: usize) -> Option<J> {
        let tcx = self.tcx;
        if depth > 12 {
            return None;
        }
        match t.kind() {
            ty::Bool => return v.try_to_bool().map(J::B),
            ty::Char | ty::Uint(_) => {
                if let ConstValue::Indirect { .. } = v {
                    return self.indirect_int(v, t);
                }
                return v.try_to_bits_for_ty(tcx, self.env, t).map(|b| {
                    if b > i128::MAX as u128 { J::S(format!("{b}")) } else { J::i(b) }
                });
            }
            ty::Int(_) => {
                if let ConstValue::Indirect { .. } = v {
                    return self.indirect_int(v, t);
                }
                let size = tcx.layout_of(self.env.as_query_input(t)).ok()?.size;
                return v.try_to_bits_for_ty(tcx, self.env, t).map(|b| J::I(size.sign_extend(b)));
            }
            ty::Float(f) => {
                let b = v.try_to_bits_for_ty(tcx, self.env, t)?;
                let s = match f.name_str() {
                    "f32" => format!("{}", f32::from_bits(b as u32)),
                    "f64" => format!("{}", f64::from_bits(b as u64)),
                    _ => format!("{b}"),
                };
                return Some(J::O(vec![("float", J::S(s))]));
            }
            ty::Ref(_, inner, _) => {
                match inner.kind() {
                    ty::Str => {
                        let b = self.slice_bytes(v)?;
                        return Some(match std::str::from_utf8(&b) {
                            Ok(s) => J::O(vec![("str", J::s(s))]),
                            Err(_) => J::Null,
                        });
                    }
                    ty::Slice(el) => {
                        let (aid, off, len) = self.slice_parts(v)?;
                        let arr = Ty::new_array(tcx, *el, len);
                        if len == 0 {
                            return Some(J::O(vec![("ref", J::O(vec![("arr", J::A(vec![]))]))]));
                        }
                        let cv = ConstValue::Indirect { alloc_id: aid, offset: off };
                        return self.cval(cv, arr, depth + 1).map(|x| J::O(vec![("ref", x)]));
                    }
                    ty::Dynamic(..) => return None,
                    _ => {
                        let sc = match v {
                            ConstValue::Scalar(s) => s,
                            ConstValue::Indirect { alloc_id, offset } => {
                                let a = tcx.global_alloc(alloc_id).unwrap_memory();
                                a.inner()
                                    .read_scalar(
                                        &tcx,
                                        interpret::alloc_range(offset, tcx.data_layout.pointer_size()),
                                        true,
                                    )
                                    .ok()?
                            }
                            _ => return None,
                        };
                        let ptr = sc.to_pointer(&tcx);
                        let (prov, off) = ptr.into_raw_parts();
                        let prov = prov?;
                        match tcx.try_get_global_alloc(prov.alloc_id())? {
                            interpret::GlobalAlloc::Static(d) => {
                                return Some(J::O(vec![("static", J::S(self.path(d)))]));
                            }
                            interpret::GlobalAlloc::Memory(_) => {
                                let lay = tcx.layout_of(self.env.as_query_input(*inner)).ok()?;
                                let cv = if lay.is_zst() {
                                    ConstValue::ZeroSized
                                } else {
                                    ConstValue::Indirect { alloc_id: prov.alloc_id(), offset: off }
                                };
                                return self.cval(cv, *inner, depth + 1).map(|x| J::O(vec![("ref", x)]));
                            }
                            _ => return None,
                        }
                    }
                }
            }
            ty::RawPtr(..) => {
                if let ConstValue::Scalar(interpret::Scalar::Int(i)) = v {
                    return Some(J::O(vec![("rawptr", J::i(i.to_bits(i.size())))]));
                }
                if let ConstValue::Scalar(s) = v {
                    let ptr = s.to_pointer(&tcx);
                    let (prov, off) = ptr.into_raw_parts();
                    let prov = prov?;
                    match tcx.try_get_global_alloc(prov.alloc_id())? {
                        interpret::GlobalAlloc::Static(d) => {
                            return Some(J::O(vec![("static", J::S(self.path(d)))]));
                        }
                        interpret::GlobalAlloc::Memory(a) => {
                            let a = a.inner();
                            let n = a.len();
                            let o = off.bytes() as usize;
                            if n - o > 4096 { return None; }
                            let b = a.inspect_with_uninit_and_ptr_outside_interpreter(o..n);
                            return Some(J::O(vec![("rawbytes", J::A(b.iter().map(|x| J::i(*x)).collect()))]));
                        }
                        _ => return None,
                    }
                }
                return None;
            }
            ty::Adt(..) | ty::Array(..) | ty::Tuple(..) => {
                if let ty::Array(el, len) = t.kind() {
                    if len.try_to_target_usize(tcx)? == 0 {
                        return Some(J::O(vec![("arr", J::A(vec![]))]));
                    }
                    if let (ty::Uint(ty::UintTy::U8), ConstValue::Indirect { alloc_id, offset }) = (el.kind(), v) {
                        let n = len.try_to_target_usize(tcx)? as usize;
                        let a = tcx.global_alloc(alloc_id).unwrap_memory();
                        let o = offset.bytes() as usize;
                        let b = a.inner().inspect_with_uninit_and_ptr_outside_interpreter(o..o + n);
                        return Some(J::O(vec![("arr", J::A(b.iter().map(|x| J::i(*x)).collect()))]));
                    }
                }
                if let ty::Adt(d, _) = t.kind() {
                    if d.is_union() { return None; }
                    if d.is_enum() && d.variants().is_empty() { return None; }
                }
                let d = tcx.try_destructure_mir_constant_for_user_output(v, t)?;
                let mut fs = vec![];
                for (fv, ft) in d.fields.iter() {
                    fs.push(self.cval(*fv, *ft, depth + 1).unwrap_or(J::Null));
                }
                return Some(match t.kind() {
                    ty::Array(..) => J::O(vec![("arr", J::A(fs))]),
                    ty::Tuple(..) => J::O(vec![("tup", J::A(fs))]),
                    ty::Adt(def, _) => {
                        let vi = d.variant.unwrap_or(rustc_abi::VariantIdx::from_u32(0));
                        J::O(vec![
                            ("adt", J::S(self.path(def.did()))),
                            ("v", J::i(vi.as_u32())),
                            ("n", J::s(def.variant(vi).name.as_str())),
                            ("f", J::A(fs)),
                        ])
                    }
                    _ => unreachable!(),
                });
            }
            _ => None,
        }
    }

    fn indirect_int(&mut self, v: ConstValue, t: Ty<'tcx>) -> Option<J> {
        let tcx = self.tcx;
        if let ConstValue::Indirect { alloc_id, offset } = v {
            let size = tcx.layout_of(self.env.as_query_input(t)).ok()?.size;
            let a = tcx.global_alloc(alloc_id).unwrap_memory();
            let s = a
                .inner()
                .read_scalar(&tcx, interpret::alloc_range(offset, size), false)
                .ok()?;
            let b = s.to_bits(size).discard_err()?;
            return Some(if matches!(t.kind(), ty::Int(_)) { J::I(size.sign_extend(b)) } else { J::i(b) });
        }
        None
    }

    fn slice_parts(&self, v: ConstValue) -> Option<(interpret::AllocId, rustc_abi::Size, u64)> {
        let tcx = self.tcx;
        match v {
            ConstValue::Slice { alloc_id, meta } => Some((alloc_id, rustc_abi::Size::ZERO, meta)),
            ConstValue::Indirect { alloc_id, offset } => {
                let a = tcx.global_alloc(alloc_id).unwrap_memory();
                let ps = tcx.data_layout.pointer_size();
                let p = a
                    .inner()
                    .read_scalar(&tcx, interpret::alloc_range(offset, ps), true)
                    .ok()?;
                let ptr = p.to_pointer(&tcx);
                let l = a
                    .inner()
                    .read_scalar(&tcx, interpret::alloc_range(offset + ps, ps), false)
                    .ok()?;
                let len = l.to_target_usize(&tcx).discard_err()?;
                let (prov, off) = ptr.into_raw_parts();
                if len == 0 {
                    return Some((alloc_id, rustc_abi::Size::ZERO, 0));
                }
                let prov = prov?;
                match tcx.try_get_global_alloc(prov.alloc_id())? {
                    interpret::GlobalAlloc::Memory(_) => Some((prov.alloc_id(), off, len)),
                    _ => None,
                }
            }
            _ => None,
        }
    }

    fn slice_bytes(&self, v: ConstValue) -> Option<Vec<u8>> {
        let (aid, off, len) = self.slice_parts(v)?;
        if len == 0 {
            return Some(vec![]);
        }
        let a = self.tcx.global_alloc(aid).unwrap_memory();
        let o = off.bytes() as usize;
        Some(
            a.inner()
                .inspect_with_uninit_and_ptr_outside_interpreter(o..o + len as usize)
                .to_vec(),
        )
    }

    fn konst(&mut self, c: &ConstOperand<'tcx>) -> J {
        let t = c.const_.ty();
        let ti = self.ty(t);
        let mut o: Vec<(&'static str, J)> = vec![("k", J::s("const")), ("t", J::i(ti))];
        if let ty::FnDef(..) = t.kind() {
            return J::O(o);
        }
        if let Const::Unevaluated(u, _) = c.const_ {
            o.push(("def", J::S(self.path(u.def))));
            if let Some(p) = u.promoted {
                o.push(("promoted", J::i(p.as_u32())));
            }
        }
        if !ty::TypeVisitableExt::has_param(&c.const_) {
            if let Ok(v) = c.const_.eval(self.tcx, self.env, c.span) {
                if let Some(j) = self.cval(v, t, 0) {
                    o.push(("v", j));
                }
            }
        }
        J::O(o)
    }

    // ---- bodies ----------------------------------------------------------

    fn place(&mut self, p: &Place<'tcx>) -> J {
        let mut pr = vec![];
        for e in p.projection.iter() {
            pr.push(match e {
                ProjectionElem::Deref => J::s("*"),
                ProjectionElem::Field(f, t) => {
                    let t = self.ty(t);
                    J::A(vec![J::s("f"), J::i(f.as_u32()), J::i(t)])
                }
                ProjectionElem::Index(l) => J::A(vec![J::s("i"), J::i(l.as_u32())]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => J::A(vec![
                    J::s("ci"),
                    J::i(offset),
                    J::i(min_length),
                    J::B(from_end),
                ]),
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::A(vec![J::s("sub"), J::i(from), J::i(to), J::B(from_end)])
                }
                ProjectionElem::Downcast(n, v) => J::A(vec![
                    J::s("dc"),
                    J::i(v.as_u32()),
                    n.map(|n| J::s(n.as_str())).unwrap_or(J::Null),
                ]),
                _ => J::A(vec![J::s("other")]),
            });
        }
        J::A(vec![J::i(p.local.as_u32()), J::A(pr)])
    }

    fn operand(&mut self, op: &Operand<'tcx>) -> J {
        match op {
            Operand::Copy(p) => J::O(vec![("k", J::s("copy")), ("p", self.place(p))]),
            Operand::Move(p) => J::O(vec![("k", J::s("move")), ("p", self.place(p))]),
            Operand::Constant(c) => self.konst(c),
            _ => J::O(vec![("k", J::s("rtcheck"))]),
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>) -> J {
        match r {
            Rvalue::Use(op, _) => J::O(vec![("k", J::s("use")), ("o", self.operand(op))]),
            Rvalue::Repeat(op, n) => {
                let o = self.operand(op);
                J::O(vec![
                    ("k", J::s("repeat")),
                    ("o", o),
                    ("n", n.try_to_target_usize(self.tcx).map(|l| J::i(l)).unwrap_or(J::Null)),
                ])
            }
            Rvalue::Ref(_, bk, p) => {
                let m = matches!(bk, BorrowKind::Mut { .. });
                J::O(vec![("k", J::s("ref")), ("mut", J::B(m)), ("p", self.place(p))])
            }
            Rvalue::Reborrow(_, m, p) => {
                J::O(vec![("k", J::s("ref")), ("mut", J::B(m.is_mut())), ("p", self.place(p))])
            }
            Rvalue::RawPtr(k, p) => J::O(vec![
                ("k", J::s("rawptr")),
                ("mut", J::s(format!("{k:?}"))),
                ("p", self.place(p)),
            ]),
            Rvalue::ThreadLocalRef(d) => J::O(vec![("k", J::s("tls")), ("d", J::S(self.path(*d)))]),
            Rvalue::Cast(k, op, t) => {
                let o = self.operand(op);
                let ti = self.ty(*t);
                J::O(vec![("k", J::s("cast")), ("c", J::s(format!("{k:?}"))), ("o", o), ("t", J::i(ti))])
            }
            Rvalue::BinaryOp(b, ops) => {
                let a = self.operand(&ops.0);
                let c = self.operand(&ops.1);
                J::O(vec![("k", J::s("bin")), ("op", J::s(format!("{b:?}"))), ("a", a), ("b", c)])
            }
            Rvalue::UnaryOp(u, op) => {
                let o = self.operand(op);
                J::O(vec![("k", J::s("un")), ("op", J::s(format!("{u:?}"))), ("o", o)])
            }
            Rvalue::Discriminant(p) => J::O(vec![("k", J::s("discr")), ("p", self.place(p))]),
            Rvalue::CopyForDeref(p) => J::O(vec![
                ("k", J::s("use")),
                ("o", J::O(vec![("k", J::s("copy")), ("p", self.place(p))])),
            ]),
            Rvalue::Aggregate(k, ops) => {
                let v: Vec<J> = ops.iter().map(|o| self.operand(o)).collect();
                let mut o: Vec<(&'static str, J)> = vec![("k", J::s("agg"))];
                match &**k {
                    AggregateKind::Array(t) => {
                        let t = self.ty(*t);
                        o.push(("ak", J::s("array")));
                        o.push(("t", J::i(t)));
                    }
                    AggregateKind::Tuple => o.push(("ak", J::s("tuple"))),
                    AggregateKind::Adt(d, vi, _, _, _) => {
                        o.push(("ak", J::s("adt")));
                        o.push(("d", J::S(self.path(*d))));
                        o.push(("v", J::i(vi.as_u32())));
                        let def = self.tcx.adt_def(*d);
                        o.push(("n", J::s(def.variant(*vi).name.as_str())));
                        self.adt(def);
                    }
                    AggregateKind::Closure(d, _) => {
                        o.push(("ak", J::s("closure")));
                        o.push(("d", J::S(self.path(*d))));
                    }
                    AggregateKind::RawPtr(..) => o.push(("ak", J::s("rawptr"))),
                    _ => o.push(("ak", J::s("other"))),
                }
                o.push(("ops", J::A(v)));
                J::O(o)
            }
            _ => J::O(vec![("k", J::s("other"))]),
        }
    }

    /// Names of the type parameters of an item, its parents' first.
    fn type_params(&self, did: DefId) -> Vec<J> {
        let tcx = self.tcx;
        let d = if tcx.is_closure_like(did) { tcx.typeck_root_def_id(did) } else { did };
        let g = tcx.generics_of(d);
        (0..g.count())
            .map(|i| g.param_at(i, tcx))
            .filter(|p| matches!(p.kind, ty::GenericParamDefKind::Type { .. }))
            .map(|p| J::S(p.name.to_string()))
            .collect()
    }

    fn body(&mut self, id: String, did: DefId, kind: &str, body: &Body<'tcx>) -> (String, J) {
        let tcx = self.tcx;
        let mut names: HashMap<Local, String> = HashMap::new();
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    names.entry(p.local).or_insert_with(|| v.name.to_string());
                }
            }
        }
        let mut locals = vec![];
        for (l, d) in body.local_decls.iter_enumerated() {
            let t = self.ty(d.ty);
            locals.push(J::A(vec![
                J::i(t),
                names.get(&l).map(|s| J::s(s.as_str())).unwrap_or(J::Null),
            ]));
        }
        let mut blocks = vec![];
        for bb in body.basic_blocks.iter() {
            let mut st = vec![];
            for s in &bb.statements {
                let (_, line) = self.loc(s.source_info.span);
                match &s.kind {
                    StatementKind::Assign(b) => {
                        let p = self.place(&b.0);
                        let r = self.rvalue(&b.1);
                        st.push(J::O(vec![("k", J::s("=")), ("p", p), ("r", r), ("l", J::i(line))]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place);
                        st.push(J::O(vec![
                            ("k", J::s("setdiscr")),
                            ("p", p),
                            ("v", J::i(variant_index.as_u32())),
                            ("l", J::i(line)),
                        ]));
                    }
                    StatementKind::StorageDead(l) => {
                        st.push(J::O(vec![("k", J::s("dead")), ("local", J::i(l.as_u32()))]));
                    }
                    StatementKind::Intrinsic(_) => {
                        st.push(J::O(vec![("k", J::s("intrinsic")), ("l", J::i(line))]));
                    }
                    _ => {}
                }
            }
            let term = bb.terminator();
            let (file, line) = self.loc(term.source_info.span);
            let exp = term.source_info.span.from_expansion();
            let mut t: Vec<(&'static str, J)> = vec![("l", J::i(line))];
            if exp {
                t.push(("exp", {
                    let e = term.source_info.span.ctxt().outer_expn_data();
                    J::s(match e.kind {
                        rustc_span::ExpnKind::Macro(_, n) => format!("macro:{n}"),
                        rustc_span::ExpnKind::Desugaring(d) => format!("desugar:{d:?}"),
                        _ => "other".to_string(),
                    })
                }));
            }
            let _ = file;
            let bbi = |b: BasicBlock| J::i(b.as_u32());
            match &term.kind {
                TerminatorKind::Goto { target, .. } => {
                    t.push(("k", J::s("goto")));
                    t.push(("t", bbi(*target)));
                }
                TerminatorKind::FalseEdge { real_target, .. } | TerminatorKind::FalseUnwind { real_target, .. } => {
                    t.push(("k", J::s("goto")));
                    t.push(("t", bbi(*real_target)));
                }
                TerminatorKind::SwitchInt { discr, targets } => {
                    t.push(("k", J::s("switch")));
                    t.push(("d", self.operand(discr)));
                    let dty = discr.ty(&body.local_decls, tcx);
                    let size = tcx.layout_of(self.env.as_query_input(dty)).ok().map(|l| l.size);
                    let signed = matches!(dty.kind(), ty::Int(_));
                    let v: Vec<J> = targets
                        .iter()
                        .map(|(v, b)| {
                            let val = match (signed, size) {
                                (true, Some(s)) => J::I(s.sign_extend(v)),
                                _ => J::i(v),
                            };
                            J::A(vec![val, bbi(b)])
                        })
                        .collect();
                    t.push(("v", J::A(v)));
                    t.push(("o", bbi(targets.otherwise())));
                }
                TerminatorKind::Return => t.push(("k", J::s("return"))),
                TerminatorKind::Unreachable => t.push(("k", J::s("unreachable"))),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => {
                    t.push(("k", J::s("resume")))
                }
                TerminatorKind::Drop { place, target, .. } => {
                    t.push(("k", J::s("drop")));
                    t.push(("p", self.place(place)));
                    let dt = place.ty(&body.local_decls, tcx).ty;
                    let ti = self.ty(dt);
                    t.push(("ty", J::i(ti)));
                    t.push(("t", bbi(*target)));
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    t.push(("k", J::s("call")));
                    let fty = func.ty(&body.local_decls, tcx);
                    if let ty::FnDef(d, a) = fty.kind() {
                        let d: DefId = (*d).into();
                        t.push(("f", J::S(self.path(d))));
                        if !fty.fn_sig(tcx).skip_binder().safety().is_safe() {
                            t.push(("u", J::B(true)));
                        }
                        let a = a.skip_binder();
                        let tys: Vec<J> = a.types().map(|t| J::i(self.ty(t))).collect();
                        t.push(("ta", J::A(tys)));
                        let env = TypingEnv::post_analysis(tcx, did);
                        let mut ra: Option<Vec<J>> = None;
                        let r = match ty::Instance::try_resolve(
                            tcx,
                            env,
                            d,
                            tcx.erase_and_anonymize_regions(a),
                        ) {
                            Ok(Some(inst)) => match inst.def {
                                ty::InstanceKind::Virtual(..) => Some("virtual".to_string()),
                                other => {
                                    ra = Some(
                                        inst.args.types().map(|t| J::i(self.ty(t))).collect(),
                                    );
                                    Some(self.path(other.def_id()))
                                }
                            },
                            _ => None,
                        };
                        t.push(("res", J::opt(r.map(J::S))));
                        if let Some(ra) = ra {
                            t.push(("ra", J::A(ra)));
                        }
                        if let Some(tr) = tcx.trait_of_assoc(d) {
                            t.push(("trait", J::S(self.path(tr))));
                        }
                    } else {
                        t.push(("fp", self.operand(func)));
                    }
                    let ar: Vec<J> = args.iter().map(|a| self.operand(&a.node)).collect();
                    t.push(("a", J::A(ar)));
                    t.push(("d", self.place(destination)));
                    t.push(("t", J::opt(target.map(bbi))));
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    t.push(("k", J::s("assert")));
                    t.push(("c", self.operand(cond)));
                    t.push(("e", J::B(*expected)));
                    let (mk, ops): (String, Vec<&Operand<'tcx>>) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => ("bounds".into(), vec![len, index]),
                        AssertKind::Overflow(b, x, y) => (format!("overflow:{b:?}"), vec![x, y]),
                        AssertKind::OverflowNeg(x) => ("overflow:neg".into(), vec![x]),
                        AssertKind::DivisionByZero(x) => ("div".into(), vec![x]),
                        AssertKind::RemainderByZero(x) => ("rem".into(), vec![x]),
                        _ => ("other".into(), vec![]),
                    };
                    t.push(("m", J::S(mk)));
                    let ops: Vec<J> = ops.into_iter().map(|o| self.operand(o)).collect();
                    t.push(("ops", J::A(ops)));
                    t.push(("t", bbi(*target)));
                }
                other => {
                    t.push(("k", J::s("other")));
                    t.push(("s", J::s(format!("{other:?}"))));
                }
            }
            let mut b: Vec<(&'static str, J)> = vec![("s", J::A(st)), ("t", J::O(t))];
            if bb.is_cleanup {
                b.push(("cleanup", J::B(true)));
            }
            blocks.push(J::O(b));
        }
        let (file, line) = self.loc(body.span);
        let o = J::O(vec![
            ("kind", J::s(kind)),
            ("nice", J::S(self.nice(did))),
            ("file", J::S(file)),
            ("line", J::i(line)),
            ("argc", J::i(body.arg_count)),
            ("g", J::A(self.type_params(did))),
            ("locals", J::A(locals)),
            ("blocks", J::A(blocks)),
        ]);
        (id, o)
    }

    fn attrs(&mut self, d: LocalDefId, o: &mut Vec<(&'static str, J)>) {
        let tcx = self.tcx;
        let did = d.to_def_id();
        let ev = tcx.effective_visibilities(());
        o.push(("reach", J::B(ev.is_reachable(d))));
        o.push(("export", J::B(ev.is_exported(d))));
        if matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn) {
            let ca = tcx.codegen_fn_attrs(did);
            let nm = ca.flags.contains(rustc_middle::middle::codegen_fn_attrs::CodegenFnAttrFlags::NO_MANGLE);
            let sym = if nm {
                Some(tcx.item_name(did).to_string())
            } else {
                ca.symbol_name.map(|s| s.to_string())
            };
            o.push(("sym", J::opt(sym.map(J::S))));
            let sig = tcx.fn_sig(did).instantiate_identity().skip_norm_wip().skip_binder();
            o.push(("abi", J::s(format!("{:?}", sig.abi()))));
            o.push(("unsafe", J::B(!sig.safety().is_safe())));
            let ins: Vec<J> = sig.inputs().iter().map(|t| J::i(self.ty(*t))).collect();
            o.push(("in", J::A(ins)));
            let out = self.ty(sig.output());
            o.push(("out", J::i(out)));
            // lifetimes of the result that no argument has
            let regions = |t: Ty<'tcx>| {
                t.walk()
                    .filter_map(|g| match g.kind() {
                        ty::GenericArgKind::Lifetime(r) => Some(r),
                        _ => None,
                    })
                    .collect::<Vec<_>>()
            };
            let given: Vec<_> = sig.inputs().iter().flat_map(|t| regions(*t)).collect();
            if regions(sig.output()).iter().any(|r| !given.contains(r)) {
                o.push(("free_lt", J::B(true)));
            }
        }
        if let Some(imp) = tcx.impl_of_assoc(did) {
            let st = tcx.type_of(imp).instantiate_identity().skip_norm_wip();
            let ti = self.ty(st);
            o.push(("self", J::i(ti)));
            if let Some(tr) = tcx.impl_opt_trait_ref(imp) {
                let tr = tr.instantiate_identity().skip_norm_wip();
                o.push(("trait", J::S(self.path(tr.def_id))));
                let ai = tcx.associated_item(did);
                if let Some(t) = ai.trait_item_def_id() {
                    o.push(("trait_item", J::S(self.path(t))));
                }
            }
        } else if let Some(tr) = tcx.trait_of_assoc(did) {
            o.push(("in_trait", J::S(self.path(tr))));
        }
    }

    fn dump(&mut self) -> J {
        let tcx = self.tcx;
        let mut bodies: Vec<(String, J)> = vec![];
        let mut fns: Vec<(String, J)> = vec![];
        let mut consts: Vec<(String, J)> = vec![];
        for &ld in tcx.mir_keys(()).iter() {
            let did = ld.to_def_id();
            let id = self.path(did);
            let kind = tcx.def_kind(did);
            match kind {
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {
                    let b = tcx.optimized_mir(did);
                    let k = if kind == DefKind::Closure { "closure" } else { "fn" };
                    bodies.push(self.body(id.clone(), did, k, b));
                    let mut o = vec![];
                    if kind != DefKind::Closure {
                        self.attrs(ld, &mut o);
                    } else {
                        let p = tcx.typeck_root_def_id(did);
                        o.push(("root", J::S(self.path(p))));
                    }
                    let (file, line) = self.loc(tcx.def_span(did));
                    o.push(("file", J::S(file)));
                    o.push(("line", J::i(line)));
                    o.push(("nice", J::S(self.nice(did))));
                    fns.push((id.clone(), J::O(o)));
                }
                DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } => {
                    let b = tcx.mir_for_ctfe(did);
                    bodies.push(self.body(id.clone(), did, "const", b));
                    let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    let ti = self.ty(t);
                    let (file, line) = self.loc(tcx.def_span(did));
                    let mut o = vec![
                        ("t", J::i(ti)),
                        ("file", J::S(file)),
                        ("line", J::i(line)),
                        ("static", J::B(matches!(kind, DefKind::Static { .. }))),
                        (
                            "mut",
                            J::B(matches!(kind, DefKind::Static { mutability: rustc_hir::Mutability::Mut, .. })),
                        ),
                    ];
                    if matches!(kind, DefKind::Static { .. }) {
                        if let Ok(a) = tcx.eval_static_initializer(did) {
                            let aid = tcx.reserve_and_set_memory_alloc(a);
                            let lay = tcx.layout_of(self.env.as_query_input(t));
                            let zst = lay.map(|l| l.is_zst()).unwrap_or(true);
                            if !zst {
                                let cv = ConstValue::Indirect { alloc_id: aid, offset: rustc_abi::Size::ZERO };
                                let cv = self.scalarize(cv, t);
                                if let Some(j) = self.cval(cv, t, 0) {
                                    o.push(("v", j));
                                }
                            }
                        }
                    } else if !tcx.generics_of(did).requires_monomorphization(tcx) {
                        if let Ok(v) = tcx.const_eval_poly(did) {
                            if let Some(j) = self.cval(v, t, 0) {
                                o.push(("v", j));
                            }
                        }
                    }
                    consts.push((id.clone(), J::O(o)));
                }
                DefKind::Ctor(..) => continue,
                _ => continue,
            }
            let pm = tcx.promoted_mir(did);
            for (p, b) in pm.iter_enumerated() {
                let pid = format!("{id}::promoted[{}]", p.as_u32());
                bodies.push(self.body(pid, did, "promoted", b));
            }
        }
        let mut impls = vec![];
        for (tr, v) in tcx.all_local_trait_impls(()).iter() {
            for imp in v {
                let did = imp.to_def_id();
                let st = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let ti = self.ty(st);
                let mut ms = vec![];
                for ai in tcx.associated_items(did).in_definition_order() {
                    ms.push(J::A(vec![
                        J::s(ai.name().as_str()),
                        J::S(self.path(ai.def_id)),
                        J::opt(ai.trait_item_def_id().map(|d| J::S(self.path(d)))),
                    ]));
                }
                impls.push(J::O(vec![
                    ("trait", J::S(self.path(*tr))),
                    ("self", J::i(ti)),
                    ("items", J::A(ms)),
                ]));
            }
        }
        let mut traits = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let did = id.to_def_id();
            match tcx.def_kind(did) {
                DefKind::Trait => {
                    let mut ms = vec![];
                    for ai in tcx.associated_items(did).in_definition_order() {
                        ms.push(J::A(vec![
                            J::s(ai.opt_name().map(|n| n.to_string()).unwrap_or_default()),
                            J::S(self.path(ai.def_id)),
                            J::B(ai.defaultness(tcx).has_value()),
                        ]));
                    }
                    traits.push((self.path(did), J::A(ms)));
                }
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    self.adt(tcx.adt_def(did));
                }
                _ => {}
            }
        }
        let types = std::mem::take(&mut self.types);
        let adts = std::mem::take(&mut self.adts);
        J::O(vec![
            ("crate", J::s(tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).as_str())),
            ("types", J::A(types)),
            ("adts", J::M(adts)),
            ("fns", J::M(fns)),
            ("consts", J::M(consts)),
            ("impls", J::A(impls)),
            ("traits", J::M(traits)),
            ("bodies", J::M(bodies)),
            ("defs", J::M({
                let mut v: Vec<(String, J)> =
                    self.defs.borrow().iter().map(|(k, v)| (k.clone(), J::s(v.as_str()))).collect();
                v.sort_by(|a, b| a.0.cmp(&b.0));
                v
            })),
        ])
    }

    /// Indirect constants of scalar type must be presented as scalars.
    fn scalarize(&self, v: ConstValue, t: Ty<'tcx>) -> ConstValue {
        let tcx = self.tcx;
        if let ConstValue::Indirect { alloc_id, offset } = v {
            if t.is_integral() || t.is_bool() || t.is_char() || t.is_floating_point() {
                if let Ok(l) = tcx.layout_of(self.env.as_query_input(t)) {
                    let a = tcx.global_alloc(alloc_id).unwrap_memory();
                    if let Some(s) = a
                        .inner()
                        .read_scalar(&tcx, interpret::alloc_range(offset, l.size), false)
                        .ok()
                    {
                        return ConstValue::Scalar(s);
                    }
                }
            }
        }
        v
    }
}

fn main() {
    // cargo runs us as: mirfacts <rustc> <args...>
    let args: Vec<String> = std::env::args().skip(1).collect();
    let mut name = None;
    let mut is_lib = true;
    let mut it = args.iter();
    while let Some(a) = it.next() {
        if a == "--crate-name" {
            name = it.next().cloned();
        } else if a == "--crate-type" {
            if let Some(t) = it.next() {
                if t == "bin" {
                    is_lib = false;
                }
            }
        } else if a == "--test" {
            is_lib = false;
        }
    }
    let wanted = std::env::var("MIRFACTS_CRATES").unwrap_or_default();
    let dir = std::env::var("MIRFACTS_OUT").unwrap_or_default();
    let out = match name {
        Some(n) if !dir.is_empty() && wanted.split(',').any(|w| w == n) => {
            Some(format!("{dir}/{n}{}.json", if is_lib { "" } else { ".bin" }))
        }
        _ => None,
    };
    let mut cb = Cb { out };
    let code = rustc_driver_impl::catch_with_exit_code(|| {
        rustc_driver_impl::compiler_entrypoint(&args, &mut cb)
    });
    std::process::exit(if code == std::process::ExitCode::SUCCESS { 0 } else { 1 });
}
