//! Compiler driver that type-checks one crate and writes the facts the static
//! analyses work on: typed MIR of every local body with resolved callees, the
//! layout of local ADTs, trait impls, auto-trait facts and evaluated constants.
//! It never runs any code of the analysed crate except what rustc's own
//! constant evaluation does for `const`/`static` items.
#![feature(rustc_private)]
#![allow(clippy::all)]

extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;
extern crate rustc_trait_selection;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_infer::infer::TyCtxtInferExt;
use rustc_middle::mir::interpret::{AllocId, GlobalAlloc, Scalar};
use rustc_middle::mir::{
    self, AggregateKind, BasicBlock, Body, Const, ConstValue, Operand, Place, PlaceElem, Rvalue,
    StatementKind, TerminatorKind,
};
use rustc_middle::ty::{self, GenericArgKind, GenericArgsRef, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use rustc_trait_selection::infer::InferCtxtExt;
use std::collections::HashMap;
use std::fmt::Write as _;

enum J {
    Null,
    B(bool),
    N(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}

impl J {
    fn s(x: impl Into<String>) -> J {
        J::S(x.into())
    }
    fn write(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::N(n) => {
                let _ = write!(o, "{}", n);
            }
            J::S(s) => {
                o.push('"');
                for c in s.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        '\n' => o.push_str("\\n"),
                        '\r' => o.push_str("\\r"),
                        '\t' => o.push_str("\\t"),
                        c if (c as u32) < 0x20 => {
                            let _ = write!(o, "\\u{:04x}", c as u32);
                        }
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.write(o);
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    let _ = write!(o, "\"{}\":", k);
                    x.write(o);
                }
                o.push('}');
            }
        }
    }
}

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: Vec<J>,
    tymap: HashMap<Ty<'tcx>, usize>,
    adts: Vec<J>,
    adtmap: HashMap<DefId, ()>,
}

struct Ctx<'tcx> {
    env: TypingEnv<'tcx>,
}

impl<'tcx> Dump<'tcx> {
    fn key(&self, d: DefId) -> String {
        format!(
            "{}{}",
            self.tcx.crate_name(d.krate),
            self.tcx.def_path(d).to_string_no_crate_verbose()
        )
    }

    fn span(&self, sp: Span) -> J {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let lo = sm.lookup_char_pos(sp.lo());
        let name = match &lo.file.name {
            rustc_span::FileName::Real(r) => r
                .local_path()
                .map(|p| p.display().to_string())
                .unwrap_or_else(|| "?".into()),
            _ => "?".to_string(),
        };
        J::A(vec![J::s(name), J::N(lo.line as i128)])
    }

    fn args(&mut self, a: GenericArgsRef<'tcx>) -> J {
        let mut v = Vec::new();
        for g in a.iter() {
            match g.kind() {
                GenericArgKind::Type(t) => v.push(J::N(self.ty(t) as i128)),
                GenericArgKind::Const(c) => v.push(J::s(format!("{}", c))),
                _ => {}
            }
        }
        J::A(v)
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.tymap.get(&t) {
            return *i;
        }
        let idx = self.tys.len();
        self.tymap.insert(t, idx);
        self.tys.push(J::Null);
        let tcx = self.tcx;
        let j = match t.kind() {
            ty::Bool => J::O(vec![("k", J::s("bool"))]),
            ty::Char => J::O(vec![("k", J::s("char"))]),
            ty::Str => J::O(vec![("k", J::s("str"))]),
            ty::Never => J::O(vec![("k", J::s("never"))]),
            ty::Int(i) => {
                let b = i.bit_width().unwrap_or(64);
                J::O(vec![("k", J::s("int")), ("bits", J::N(b as i128)), ("n", J::s(i.name_str()))])
            }
            ty::Uint(i) => {
                let b = i.bit_width().unwrap_or(64);
                J::O(vec![("k", J::s("uint")), ("bits", J::N(b as i128)), ("n", J::s(i.name_str()))])
            }
            ty::Float(f) => J::O(vec![("k", J::s("float")), ("n", J::s(f.name_str()))]),
            ty::Adt(def, args) => {
                let did = def.did();
                self.adt(did);
                let a = self.args(args);
                J::O(vec![("k", J::s("adt")), ("d", J::s(self.key(did))), ("n", J::s(tcx.def_path_str(did))), ("a", a)])
            }
            ty::Array(e, n) => {
                let len = n.try_to_target_usize(tcx).map(|x| J::N(x as i128)).unwrap_or(J::Null);
                let e = self.ty(*e);
                J::O(vec![("k", J::s("array")), ("e", J::N(e as i128)), ("len", len)])
            }
            ty::Slice(e) => {
                let e = self.ty(*e);
                J::O(vec![("k", J::s("slice")), ("e", J::N(e as i128))])
            }
            ty::RawPtr(e, m) => {
                let e = self.ty(*e);
                J::O(vec![("k", J::s("ptr")), ("e", J::N(e as i128)), ("m", J::B(m.is_mut()))])
            }
            ty::Ref(_, e, m) => {
                let e = self.ty(*e);
                J::O(vec![("k", J::s("ref")), ("e", J::N(e as i128)), ("m", J::B(m.is_mut()))])
            }
            ty::FnDef(d, a) => {
                let a = self.args(a.skip_binder());
                J::O(vec![("k", J::s("fndef")), ("d", J::s(self.key(*d))), ("a", a)])
            }
            ty::Closure(d, a) => {
                let ups: Vec<J> = a
                    .as_closure()
                    .upvar_tys()
                    .iter()
                    .map(|t| J::N(self.ty(t) as i128))
                    .collect();
                J::O(vec![("k", J::s("closure")), ("d", J::s(self.key(*d))), ("up", J::A(ups))])
            }
            ty::Tuple(ts) => {
                let v = ts.iter().map(|t| J::N(self.ty(t) as i128)).collect();
                J::O(vec![("k", J::s("tuple")), ("e", J::A(v))])
            }
            ty::Param(p) => J::O(vec![("k", J::s("param")), ("n", J::s(p.name.to_string()))]),
            ty::FnPtr(..) => J::O(vec![("k", J::s("fnptr"))]),
            _ => J::O(vec![("k", J::s("other")), ("n", J::s(format!("{}", t)))]),
        };
        let mut j = j;
        if let J::O(v) = &mut j {
            v.push(("s", J::s(format!("{}", t))));
        }
        self.tys[idx] = j;
        idx
    }

    fn adt(&mut self, did: DefId) {
        if self.adtmap.contains_key(&did) {
            return;
        }
        self.adtmap.insert(did, ());
        let tcx = self.tcx;
        let def = tcx.adt_def(did);
        let path = tcx.def_path_str(did);
        let keep = did.is_local()
            || path.ends_with("option::Option")
            || path.ends_with("result::Result")
            || path.ends_with("ops::ControlFlow")
            || path.starts_with("std::ops::Range")
            || path.starts_with("std::cmp::Ordering");
        if !keep {
            return;
        }
        let mut vars = Vec::new();
        let discrs: HashMap<_, _> = if def.is_enum() {
            def.discriminants(tcx).map(|(v, d)| (v, d.val)).collect()
        } else {
            HashMap::new()
        };
        for (vi, v) in def.variants().iter_enumerated() {
            let mut fs = Vec::new();
            for f in v.fields.iter() {
                let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                let t = if did.is_local() {
                    let env = TypingEnv::post_analysis(tcx, did);
                    tcx.try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(t)).unwrap_or(t)
                } else {
                    t
                };
                let ti = self.ty(t);
                fs.push(J::O(vec![
                    ("n", J::s(f.name.to_string())),
                    ("t", J::N(ti as i128)),
                    ("pub", J::B(f.vis.is_public())),
                ]));
            }
            vars.push(J::O(vec![
                ("n", J::s(v.name.to_string())),
                ("discr", discrs.get(&vi).map(|d| J::N(*d as i128)).unwrap_or(J::Null)),
                ("f", J::A(fs)),
            ]));
        }
        // auto traits
        let mut autos = Vec::new();
        if did.is_local() {
            let env = TypingEnv::post_analysis(tcx, did);
            let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
            for (n, tr) in [
                ("Send", tcx.get_diagnostic_item(rustc_span::sym::Send)),
                ("Sync", tcx.lang_items().sync_trait()),
                ("Copy", tcx.lang_items().copy_trait()),
                ("Clone", tcx.lang_items().clone_trait()),
            ] {
                if let Some(tr) = tr {
                    let (infcx, pe) = tcx.infer_ctxt().build_with_typing_env(env);
                    let r = infcx.type_implements_trait(tr, [t], pe);
                    autos.push((n, J::B(r.must_apply_modulo_regions())));
                }
            }
        }
        let sp = self.span(tcx.def_span(did));
        let gens: Vec<J> = tcx
            .generics_of(did)
            .own_params
            .iter()
            .filter(|p| !matches!(p.kind, ty::GenericParamDefKind::Lifetime))
            .map(|p| J::s(p.name.to_string()))
            .collect();
        let j = J::O(vec![
            ("d", J::s(self.key(did))),
            ("n", J::s(path)),
            ("local", J::B(did.is_local())),
            ("pub", J::B(tcx.visibility(did).is_public())),
            ("reach", J::B(did.as_local().map_or(false, |l| tcx.effective_visibilities(()).is_reachable(l)))),
            ("kind", J::s(if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" })),
            ("vars", J::A(vars)),
            ("autos", J::O(autos)),
            ("span", sp),
            ("gen", J::A(gens)),
        ]);
        self.adts.push(j);
    }

    // ---- constants ---------------------------------------------------------

    fn read_uint(&self, bytes: &[u8], signed: bool) -> i128 {
        let mut v: u128 = 0;
        for (i, b) in bytes.iter().enumerate() {
            v |= (*b as u128) << (8 * i);
        }
        if signed && bytes.len() < 16 && bytes.last().map_or(false, |b| b & 0x80 != 0) {
            v |= !0u128 << (8 * bytes.len());
        }
        v as i128
    }

    fn decode_alloc(&mut self, aid: AllocId, off: u64, t: Ty<'tcx>, env: TypingEnv<'tcx>, depth: usize) -> J {
        let tcx = self.tcx;
        if depth > 12 {
            return J::Null;
        }
        let alloc = match tcx.try_get_global_alloc(aid) {
            Some(GlobalAlloc::Memory(a)) => a,
            Some(GlobalAlloc::Static(d)) => {
                return J::O(vec![("static", J::s(self.key(d)))]);
            }
            _ => return J::Null,
        };
        let a = alloc.inner();
        let layout = match tcx.layout_of(env.as_query_input(t)) {
            Ok(l) => l,
            Err(_) => return J::Null,
        };
        let size = layout.size.bytes();
        let rd = |o: u64, n: u64| -> Option<Vec<u8>> {
            if o + n > a.len() as u64 {
                return None;
            }
            Some(a.inspect_with_uninit_and_ptr_outside_interpreter(o as usize..(o + n) as usize).to_vec())
        };
        match t.kind() {
            ty::Uint(_) | ty::Bool | ty::Char => rd(off, size).map_or(J::Null, |b| J::N(self.read_uint(&b, false))),
            ty::Int(_) => rd(off, size).map_or(J::Null, |b| J::N(self.read_uint(&b, true))),
            ty::Array(e, _) => {
                let el = match tcx.layout_of(env.as_query_input(*e)) {
                    Ok(l) => l.size.bytes(),
                    Err(_) => return J::Null,
                };
                let n = if el == 0 { 0 } else { size / el };
                let mut v = Vec::new();
                for i in 0..n {
                    v.push(self.decode_alloc(aid, off + i * el, *e, env, depth + 1));
                }
                J::A(v)
            }
            ty::Tuple(ts) => {
                let mut v = Vec::new();
                for (i, t2) in ts.iter().enumerate() {
                    let fo = layout.fields.offset(i).bytes();
                    v.push(self.decode_alloc(aid, off + fo, t2, env, depth + 1));
                }
                J::A(v)
            }
            ty::Adt(def, args) if def.is_struct() => {
                let mut v = Vec::new();
                for (i, f) in def.non_enum_variant().fields.iter().enumerate() {
                    let fo = layout.fields.offset(i).bytes();
                    let ft = f.ty(tcx, args).skip_norm_wip();
                    v.push(self.decode_alloc(aid, off + fo, ft, env, depth + 1));
                }
                J::O(vec![("adt", J::s(tcx.def_path_str(def.did()))), ("f", J::A(v))])
            }
            ty::Ref(_, inner, _) | ty::RawPtr(inner, _) => {
                let ps = tcx.data_layout.pointer_size();
                let prov = a.provenance().ptrs().iter().find(|(o, _)| o.bytes() == off).map(|(_, p)| *p);
                let Some(p) = prov else { return J::Null };
                let poff = match rd(off, ps.bytes()) {
                    Some(b) => self.read_uint(&b, false) as u64,
                    None => return J::Null,
                };
                match inner.kind() {
                    ty::Slice(e) => {
                        let n = match rd(off + ps.bytes(), ps.bytes()) {
                            Some(b) => self.read_uint(&b, false) as u64,
                            None => return J::Null,
                        };
                        self.decode_slice(p.alloc_id(), poff, *e, n, env, depth + 1)
                    }
                    ty::Str => {
                        let n = match rd(off + ps.bytes(), ps.bytes()) {
                            Some(b) => self.read_uint(&b, false) as u64,
                            None => return J::Null,
                        };
                        self.decode_str(p.alloc_id(), poff, n)
                    }
                    _ => {
                        let x = self.decode_alloc(p.alloc_id(), poff, *inner, env, depth + 1);
                        J::O(vec![("ref", x)])
                    }
                }
            }
            _ => J::Null,
        }
    }

    fn decode_str(&mut self, aid: AllocId, off: u64, n: u64) -> J {
        match self.tcx.try_get_global_alloc(aid) {
            Some(GlobalAlloc::Memory(a)) => {
                let a = a.inner();
                let b = a.inspect_with_uninit_and_ptr_outside_interpreter(off as usize..(off + n) as usize);
                J::O(vec![("str", J::s(String::from_utf8_lossy(b).to_string()))])
            }
            _ => J::Null,
        }
    }

    fn decode_slice(&mut self, aid: AllocId, off: u64, e: Ty<'tcx>, n: u64, env: TypingEnv<'tcx>, depth: usize) -> J {
        let el = match self.tcx.layout_of(env.as_query_input(e)) {
            Ok(l) => l.size.bytes(),
            Err(_) => return J::Null,
        };
        let mut v = Vec::new();
        for i in 0..n {
            v.push(self.decode_alloc(aid, off + i * el, e, env, depth + 1));
        }
        J::O(vec![("ref", J::A(v))])
    }

    fn const_value(&mut self, v: ConstValue, t: Ty<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        match v {
            ConstValue::ZeroSized => J::O(vec![("zst", J::B(true))]),
            ConstValue::Scalar(Scalar::Int(i)) => {
                let signed = matches!(t.kind(), ty::Int(_));
                let bits = i.to_bits(i.size());
                let n = if signed { i.size().sign_extend(bits) as i128 } else { bits as i128 };
                match t.kind() {
                    ty::Adt(def, _) if def.is_enum() => J::O(vec![("rawenum", J::N(n))]),
                    _ => J::N(n),
                }
            }
            ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                let (prov, off) = p.into_raw_parts();
                match t.kind() {
                    ty::Ref(_, inner, _) | ty::RawPtr(inner, _) => {
                        let x = self.decode_alloc(prov.alloc_id(), off.bytes(), *inner, env, 0);
                        J::O(vec![("ref", x)])
                    }
                    _ => J::Null,
                }
            }
            ConstValue::Slice { alloc_id, meta } => match t.kind() {
                ty::Ref(_, inner, _) => match inner.kind() {
                    ty::Str => self.decode_str(alloc_id, 0, meta),
                    ty::Slice(e) => self.decode_slice(alloc_id, 0, *e, meta, env, 0),
                    _ => J::Null,
                },
                _ => J::Null,
            },
            ConstValue::Indirect { alloc_id, offset } => {
                let _ = tcx;
                self.decode_alloc(alloc_id, offset.bytes(), t, env, 0)
            }
        }
    }

    fn constant(&mut self, c: &Const<'tcx>, cx: &Ctx<'tcx>, sp: Span) -> J {
        let tcx = self.tcx;
        let t = c.ty();
        let ti = self.ty(t);
        let mut o = vec![("k", J::s("const")), ("t", J::N(ti as i128))];
        if let ty::FnDef(d, a) = t.kind() {
            o.push(("fn", self.callee(*d, a.skip_binder(), cx)));
            return J::O(o);
        }
        if let Const::Unevaluated(u, _) = c {
            o.push(("def", J::s(self.key(u.def))));
            if let Some(p) = u.promoted {
                o.push(("prom", J::N(p.as_usize() as i128)));
            }
        }
        if let Const::Ty(_, tc) = c {
            o.push(("tyconst", J::s(format!("{}", tc))));
        }
        let generic = match c {
            Const::Unevaluated(u, _) => {
                use rustc_middle::ty::TypeVisitableExt;
                u.args.has_param() && u.promoted.is_none() && false
            }
            _ => false,
        };
        if !generic {
            if let Ok(v) = c.eval(tcx, cx.env, sp) {
                let j = self.const_value(v, t, cx.env);
                o.push(("v", j));
            }
        }
        J::O(o)
    }

    fn callee(&mut self, d: DefId, a: GenericArgsRef<'tcx>, cx: &Ctx<'tcx>) -> J {
        let tcx = self.tcx;
        let args = self.args(a);
        let mut o = vec![
            ("d", J::s(self.key(d))),
            ("n", J::s(tcx.def_path_str(d))),
            ("name", J::s(tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default())),
            ("a", args),
        ];
        if let Some(tr) = tcx.trait_of_assoc(d) {
            o.push(("trait", J::s(self.key(tr))));
            o.push(("tname", J::s(tcx.item_name(tr).to_string())));
        } else if let Some(im) = tcx.inherent_impl_of_assoc(d) {
            let st = tcx.type_of(im).instantiate(tcx, a).skip_norm_wip();
            let sti = self.ty(st);
            o.push(("self", J::N(sti as i128)));
        }
        let ea = tcx.try_normalize_erasing_regions(cx.env, ty::Unnormalized::new_wip(a)).unwrap_or(a);
        if let Ok(Some(inst)) = Instance::try_resolve(tcx, cx.env, d, ea) {
            let rd = inst.def_id();
            let ra = self.args(inst.args);
            let mut r = vec![
                ("d", J::s(self.key(rd))),
                ("n", J::s(tcx.def_path_str(rd))),
                ("a", ra),
                ("local", J::B(rd.is_local())),
                ("kind", J::s(match inst.def {
                    ty::InstanceKind::Item(_) => "item",
                    ty::InstanceKind::Intrinsic(_) => "intrinsic",
                    ty::InstanceKind::Virtual(..) => "virtual",
                    _ => "shim",
                })),
            ];
            if tcx.def_kind(rd) == DefKind::Closure {
                r.push(("closure", J::B(true)));
            }
            if let Some(im) = tcx.impl_of_assoc(rd) {
                let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                let sti = self.ty(st);
                r.push(("iself", J::N(sti as i128)));
            }
            o.push(("r", J::O(r)));
        }
        J::O(o)
    }

    // ---- bodies ------------------------------------------------------------

    fn place(&mut self, p: &Place<'tcx>) -> J {
        let mut v = vec![J::N(p.local.as_usize() as i128)];
        for e in p.projection.iter() {
            v.push(match e {
                PlaceElem::Deref => J::s("*"),
                PlaceElem::Field(f, t) => {
                    let t = self.ty(t);
                    J::A(vec![J::s("f"), J::N(f.as_usize() as i128), J::N(t as i128)])
                }
                PlaceElem::Index(l) => J::A(vec![J::s("i"), J::N(l.as_usize() as i128)]),
                PlaceElem::ConstantIndex { offset, min_length, from_end } => {
                    J::A(vec![J::s("ci"), J::N(offset as i128), J::N(min_length as i128), J::B(from_end)])
                }
                PlaceElem::Subslice { from, to, from_end } => {
                    J::A(vec![J::s("sub"), J::N(from as i128), J::N(to as i128), J::B(from_end)])
                }
                PlaceElem::Downcast(n, vi) => J::A(vec![
                    J::s("dc"),
                    J::N(vi.as_usize() as i128),
                    n.map_or(J::Null, |n| J::s(n.to_string())),
                ]),
                _ => J::s("cast"),
            });
        }
        J::A(v)
    }

    fn operand(&mut self, o: &Operand<'tcx>, cx: &Ctx<'tcx>) -> J {
        match o {
            Operand::Copy(p) => {
                let p = self.place(p);
                J::O(vec![("k", J::s("copy")), ("p", p)])
            }
            Operand::Move(p) => {
                let p = self.place(p);
                J::O(vec![("k", J::s("move")), ("p", p)])
            }
            Operand::Constant(c) => self.constant(&c.const_, cx, c.span),
            Operand::RuntimeChecks(_) => J::O(vec![("k", J::s("rtcheck"))]),
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>, cx: &Ctx<'tcx>) -> J {
        match r {
            Rvalue::Use(o, _) => {
                let o = self.operand(o, cx);
                J::A(vec![J::s("use"), o])
            }
            Rvalue::Repeat(o, n) => {
                let o = self.operand(o, cx);
                let n = n.try_to_target_usize(self.tcx).map_or(J::Null, |x| J::N(x as i128));
                J::A(vec![J::s("repeat"), o, n])
            }
            Rvalue::Ref(_, k, p) => {
                let p = self.place(p);
                J::A(vec![J::s("ref"), J::B(matches!(k, mir::BorrowKind::Mut { .. })), p])
            }
            Rvalue::Reborrow(_, m, p) => {
                let p = self.place(p);
                J::A(vec![J::s("ref"), J::B(m.is_mut()), p])
            }
            Rvalue::RawPtr(k, p) => {
                let p = self.place(p);
                J::A(vec![J::s("rawptr"), J::B(matches!(k, mir::RawPtrKind::Mut)), p])
            }
            Rvalue::Cast(k, o, t) => {
                let o = self.operand(o, cx);
                let t = self.ty(*t);
                J::A(vec![J::s("cast"), J::s(format!("{:?}", k)), o, J::N(t as i128)])
            }
            Rvalue::BinaryOp(op, b) => {
                let (x, y) = (self.operand(&b.0, cx), self.operand(&b.1, cx));
                J::A(vec![J::s("bin"), J::s(format!("{:?}", op)), x, y])
            }
            Rvalue::UnaryOp(op, o) => {
                let o = self.operand(o, cx);
                J::A(vec![J::s("un"), J::s(format!("{:?}", op)), o])
            }
            Rvalue::Discriminant(p) => {
                let p = self.place(p);
                J::A(vec![J::s("discr"), p])
            }
            Rvalue::Aggregate(k, ops) => {
                let mut v = Vec::new();
                for o in ops.iter() {
                    v.push(self.operand(o, cx));
                }
                let kk = match &**k {
                    AggregateKind::Array(t) => {
                        let t = self.ty(*t);
                        J::A(vec![J::s("array"), J::N(t as i128)])
                    }
                    AggregateKind::Tuple => J::A(vec![J::s("tuple")]),
                    AggregateKind::Adt(d, vi, _, _, f) => {
                        self.adt(*d);
                        J::A(vec![
                            J::s("adt"),
                            J::s(self.key(*d)),
                            J::N(vi.as_usize() as i128),
                            f.map_or(J::Null, |f| J::N(f.as_usize() as i128)),
                        ])
                    }
                    AggregateKind::Closure(d, _) => J::A(vec![J::s("closure"), J::s(self.key(*d))]),
                    AggregateKind::RawPtr(..) => J::A(vec![J::s("rawptr")]),
                    _ => J::A(vec![J::s("other")]),
                };
                J::A(vec![J::s("agg"), kk, J::A(v)])
            }
            Rvalue::CopyForDeref(p) => {
                let p = self.place(p);
                J::A(vec![J::s("use"), J::O(vec![("k", J::s("copy")), ("p", p)])])
            }
            _ => J::A(vec![J::s("other"), J::s(format!("{:?}", r))]),
        }
    }

    fn body(&mut self, b: &Body<'tcx>, did: DefId) -> Vec<(&'static str, J)> {
        let tcx = self.tcx;
        let cx = Ctx { env: TypingEnv::post_analysis(tcx, did) };
        let mut names: HashMap<usize, String> = HashMap::new();
        let mut upnames = Vec::new();
        for v in b.var_debug_info.iter() {
            if let mir::VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    names.entry(p.local.as_usize()).or_insert(v.name.to_string());
                } else {
                    let pj = self.place(p);
                    upnames.push(J::A(vec![J::s(v.name.to_string()), pj]));
                }
            }
        }
        let mut locals = Vec::new();
        for (l, d) in b.local_decls.iter_enumerated() {
            let t = self.ty(d.ty);
            locals.push(J::A(vec![
                J::N(t as i128),
                names.get(&l.as_usize()).map_or(J::Null, |n| J::s(n.clone())),
            ]));
        }
        let bbn = |x: &BasicBlock| J::N(x.as_usize() as i128);
        let mut blocks = Vec::new();
        for (_, blk) in b.basic_blocks.iter_enumerated() {
            let mut st = Vec::new();
            for s in blk.statements.iter() {
                let line = match self.span(s.source_info.span) {
                    J::A(mut v) => v.pop().unwrap(),
                    x => x,
                };
                match &s.kind {
                    StatementKind::Assign(b) => {
                        let (p, r) = (self.place(&b.0), self.rvalue(&b.1, &cx));
                        st.push(J::A(vec![J::s("="), p, r, line]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place);
                        st.push(J::A(vec![J::s("setd"), p, J::N(variant_index.as_usize() as i128), line]));
                    }
                    StatementKind::StorageDead(l) => {
                        st.push(J::A(vec![J::s("dead"), J::N(l.as_usize() as i128)]));
                    }
                    StatementKind::Intrinsic(b) => {
                        st.push(J::A(vec![J::s("intr"), J::s(format!("{:?}", b)), line]));
                    }
                    _ => {}
                }
            }
            let t = blk.terminator();
            let sp = self.span(t.source_info.span);
            let term = match &t.kind {
                TerminatorKind::Goto { target, .. } => J::A(vec![J::s("goto"), bbn(target)]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let d = self.operand(discr, &cx);
                    let dt = discr.ty(&b.local_decls, tcx);
                    let dti = self.ty(dt);
                    let mut v = Vec::new();
                    for (val, bb) in targets.iter() {
                        v.push(J::A(vec![J::N(val as i128), bbn(&bb)]));
                    }
                    J::A(vec![J::s("switch"), d, J::A(v), bbn(&targets.otherwise()), J::N(dti as i128)])
                }
                TerminatorKind::Return => J::A(vec![J::s("return")]),
                TerminatorKind::Unreachable => J::A(vec![J::s("unreachable")]),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => J::A(vec![J::s("resume")]),
                TerminatorKind::Drop { place, target, .. } => {
                    let p = self.place(place);
                    J::A(vec![J::s("drop"), p, bbn(target)])
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(func, &cx);
                    let a: Vec<J> = args.iter().map(|a| self.operand(&a.node, &cx)).collect();
                    let d = self.place(destination);
                    J::A(vec![
                        J::s("call"),
                        f,
                        J::A(a),
                        d,
                        target.as_ref().map_or(J::Null, |t| bbn(t)),
                    ])
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.operand(cond, &cx);
                    let m = match &**msg {
                        mir::AssertKind::BoundsCheck { len, index } => {
                            J::A(vec![J::s("bounds"), self.operand(len, &cx), self.operand(index, &cx)])
                        }
                        mir::AssertKind::Overflow(op, x, y) => J::A(vec![
                            J::s("overflow"),
                            J::s(format!("{:?}", op)),
                            self.operand(x, &cx),
                            self.operand(y, &cx),
                        ]),
                        mir::AssertKind::OverflowNeg(x) => J::A(vec![J::s("neg"), self.operand(x, &cx)]),
                        mir::AssertKind::DivisionByZero(x) => J::A(vec![J::s("div0"), self.operand(x, &cx)]),
                        mir::AssertKind::RemainderByZero(x) => J::A(vec![J::s("rem0"), self.operand(x, &cx)]),
                        _ => J::A(vec![J::s("other")]),
                    };
                    J::A(vec![J::s("assert"), c, J::B(*expected), m, bbn(target)])
                }
                TerminatorKind::FalseEdge { real_target, .. } => J::A(vec![J::s("goto"), bbn(real_target)]),
                TerminatorKind::FalseUnwind { real_target, .. } => J::A(vec![J::s("goto"), bbn(real_target)]),
                k => J::A(vec![J::s("other"), J::s(format!("{:?}", k))]),
            };
            blocks.push(J::O(vec![
                ("s", J::A(st)),
                ("t", term),
                ("sp", sp),
                ("c", J::B(blk.is_cleanup)),
            ]));
        }
        vec![
            ("argc", J::N(b.arg_count as i128)),
            ("locals", J::A(locals)),
            ("upnames", J::A(upnames)),
            ("blocks", J::A(blocks)),
        ]
    }

    fn run(&mut self) -> J {
        let tcx = self.tcx;
        let mut fns = Vec::new();
        let mut consts = Vec::new();
        let mut keys: Vec<_> = tcx.mir_keys(()).iter().copied().collect();
        keys.sort_by_key(|k| self.key(k.to_def_id()));
        for k in keys {
            let did = k.to_def_id();
            let kind = tcx.def_kind(did);
            let fnlike = matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Closure);
            let constlike = matches!(kind, DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. });
            if constlike {
                let generics = tcx.generics_of(did);
                let sp = self.span(tcx.def_span(did));
                let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let ti = self.ty(t);
                let mut o = vec![
                    ("d", J::s(self.key(did))),
                    ("n", J::s(tcx.def_path_str(did))),
                    ("t", J::N(ti as i128)),
                    ("span", sp),
                ];
                let env = TypingEnv::fully_monomorphized();
                if let DefKind::Static { .. } = kind {
                    if let Ok(a) = tcx.eval_static_initializer(did) {
                        let aid = tcx.reserve_and_set_memory_alloc(a);
                        let v = self.decode_alloc(aid, 0, t, env, 0);
                        o.push(("v", v));
                    }
                } else if !generics.requires_monomorphization(tcx) {
                    if let Ok(v) = tcx.const_eval_poly(did) {
                        let j = self.const_value(v, t, env);
                        o.push(("v", j));
                    }
                }
                consts.push(J::O(o));
                continue;
            }
            if !fnlike {
                continue;
            }
            let body = tcx.optimized_mir(did);
            let mut o = vec![
                ("d", J::s(self.key(did))),
                ("n", J::s(tcx.def_path_str(did))),
                ("name", J::s(tcx.opt_item_name(did).map(|s| s.to_string()).unwrap_or_default())),
                ("kind", J::s(if kind == DefKind::Closure { "closure" } else { "fn" })),
                ("span", self.span(tcx.def_span(did))),
            ];
            let root = tcx.typeck_root_def_id(did);
            let mut names = Vec::new();
            let mut cur = Some(root);
            while let Some(g) = cur {
                let gs = tcx.generics_of(g);
                let own: Vec<String> = gs
                    .own_params
                    .iter()
                    .filter(|p| !matches!(p.kind, ty::GenericParamDefKind::Lifetime))
                    .map(|p| p.name.to_string())
                    .collect();
                names.splice(0..0, own);
                cur = gs.parent;
            }
            o.push(("gen", J::A(names.into_iter().map(J::s).collect())));
            if kind != DefKind::Closure {
                o.push(("pub", J::B(tcx.visibility(did).is_public())));
                o.push(("reach", J::B(tcx.effective_visibilities(()).is_reachable(k))));
                let sig = tcx.fn_sig(did).instantiate_identity().skip_norm_wip().skip_binder();
                let ins: Vec<J> = sig.inputs().iter().map(|t| J::N(self.ty(*t) as i128)).collect();
                let out = self.ty(sig.output());
                o.push(("in", J::A(ins)));
                o.push(("out", J::N(out as i128)));
                o.push(("unsafe", J::B(!sig.safety().is_safe())));
                if let Some(im) = tcx.impl_of_assoc(did) {
                    let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                    let sti = self.ty(st);
                    o.push(("self", J::N(sti as i128)));
                    if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                        let tr = tr.instantiate_identity().skip_norm_wip();
                        o.push(("trait", J::s(self.key(tr.def_id))));
                        o.push(("tname", J::s(tcx.item_name(tr.def_id).to_string())));
                    }
                    o.push(("derived", J::B(tcx.is_automatically_derived(im))));
                }
                if let Some(tr) = tcx.trait_of_assoc(did) {
                    o.push(("intrait", J::s(self.key(tr))));
                }
            } else {
                o.push(("parent", J::s(self.key(tcx.parent(did)))));
            }
            let b = self.body(body, did);
            o.extend(b);
            fns.push(J::O(o));
            // promoteds
            let proms = tcx.promoted_mir(did);
            for (i, p) in proms.iter_enumerated() {
                let mut o = vec![
                    ("d", J::s(format!("{}#p{}", self.key(did), i.as_usize()))),
                    ("kind", J::s("promoted")),
                    ("parent", J::s(self.key(did))),
                    ("n", J::s("")),
                    ("name", J::s("")),
                    ("span", self.span(tcx.def_span(did))),
                ];
                let b = self.body(p, did);
                o.extend(b);
                fns.push(J::O(o));
            }
        }
        // all local ADTs and impls
        let mut impls = Vec::new();
        for id in tcx.hir_crate_items(()).definitions() {
            let did = id.to_def_id();
            match tcx.def_kind(did) {
                DefKind::Struct | DefKind::Enum | DefKind::Union => self.adt(did),
                DefKind::Impl { of_trait } => {
                    let st = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    let sti = self.ty(st);
                    let mut o = vec![("self", J::N(sti as i128)), ("span", self.span(tcx.def_span(did)))];
                    if of_trait {
                        let tr = tcx.impl_trait_ref(did).instantiate_identity().skip_norm_wip();
                        o.push(("trait", J::s(self.key(tr.def_id))));
                        o.push(("tname", J::s(tcx.item_name(tr.def_id).to_string())));
                        let pol = tcx.impl_polarity(did);
                        o.push(("pol", J::s(format!("{:?}", pol))));
                        o.push(("unsafe", J::B(tcx.trait_def(tr.def_id).safety.is_unsafe())));
                    }
                    let its: Vec<J> = tcx
                        .associated_item_def_ids(did)
                        .iter()
                        .map(|d| J::s(self.key(*d)))
                        .collect();
                    o.push(("items", J::A(its)));
                    impls.push(J::O(o));
                }
                _ => {}
            }
        }
        J::O(vec![
            ("crate", J::s(tcx.crate_name(LOCAL_CRATE).to_string())),
            ("fns", J::A(fns)),
            ("consts", J::A(consts)),
            ("impls", J::A(impls)),
            ("adts", J::A(std::mem::take(&mut self.adts))),
            ("tys", J::A(std::mem::take(&mut self.tys))),
        ])
    }
}

struct Cb {
    out: String,
}

impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let mut d = Dump { tcx, tys: vec![], tymap: HashMap::new(), adts: vec![], adtmap: HashMap::new() };
        let j = d.run();
        let mut s = String::with_capacity(16 << 20);
        j.write(&mut s);
        std::fs::write(&self.out, s).expect("write facts");
        Compilation::Stop
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    let out = std::env::var("MIRFACTS_OUT").expect("MIRFACTS_OUT");
    args.push("-Zmir-opt-level=0".into());
    rustc_driver::catch_with_exit_code(|| {
        rustc_driver::compiler_entrypoint(&args, &mut Cb { out });
    })
}
