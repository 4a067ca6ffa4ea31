//! rustc driver: dumps resolved, monomorphic MIR facts of the workspace crates as JSON lines.
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_index;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::{self, Instance, InstanceKind, ShimKind, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::collections::{HashSet, VecDeque};
use std::fmt::Write as _;
use std::io::Write as _;

#[derive(Clone)]
enum J {
    N,
    B(bool),
    I(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::N => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::I(i) => write!(o, "{i}").unwrap(),
            J::S(s) => {
                o.push('"');
                for c in s.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        '\n' => o.push_str("\\n"),
                        c if (c as u32) < 0x20 || c as u32 == 0x7f => write!(o, "\\u{:04x}", c as u32).unwrap(),
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.w(o);
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    write!(o, "\"{k}\":").unwrap();
                    x.w(o);
                }
                o.push('}');
            }
        }
    }
}
fn s(x: impl Into<String>) -> J {
    J::S(x.into())
}
macro_rules! a { ($($e:expr),* $(,)?) => { J::A(vec![$($e),*]) } }
macro_rules! o { ($($k:literal : $e:expr),* $(,)?) => { J::O(vec![$(($k, $e)),*]) } }

fn names<T>(f: impl FnOnce() -> T) -> T {
    ty::print::with_no_visible_paths!(ty::print::with_no_trimmed_paths!(
        ty::print::with_resolve_crate_name!(f())
    ))
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    queue: VecDeque<(Instance<'tcx>, bool)>,
    seen: HashSet<(Instance<'tcx>, bool)>,
    adts: HashSet<DefId>,
    out: Vec<J>,
    coro: std::collections::HashMap<DefId, Body<'tcx>>,
}

struct Fx<'a, 'tcx> {
    cx: &'a mut Cx<'tcx>,
    env: TypingEnv<'tcx>,
    body: Body<'tcx>,
}

fn inline_std(path: &str) -> bool {
    const P: &[&str] = &[
        "core::option::", "core::result::", "<core::option::", "<core::result::", "core::ops::", "core::convert::",
        "core::bool::", "core::mem::take", "core::mem::replace", "core::mem::swap", "core::cmp::impls",
        "<T as core::convert", "<core::ops", "core::cmp::PartialOrd", "core::cmp::Ord", "core::tuple", "core::array::equality",
    ];
    P.iter().any(|p| path.starts_with(p)) || (path.starts_with('<') && (path.contains(" as core::convert::") || path.contains(" as core::ops::try_trait") ))
}

impl<'tcx> Cx<'tcx> {
    fn span(&self, sp: Span) -> J {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let l = sm.lookup_char_pos(sp.lo());
        let f = format!("{}", l.file.name.prefer_local_unconditionally());
        s(format!("{}:{}", f, l.line))
    }
    fn ty(&self, t: Ty<'tcx>) -> J {
        s(names(|| format!("{t}")))
    }
    fn path(&self, d: DefId) -> String {
        names(|| self.tcx.def_path_str(d))
    }
    fn key(&self, i: Instance<'tcx>) -> String {
        let d = i.def_id();
        let base = names(|| self.tcx.def_path_str_with_args(d, i.args));
        match i.def {
            InstanceKind::Item(_) => base,
            InstanceKind::Virtual(..) => format!("virtual {base}"),
            InstanceKind::Intrinsic(..) | InstanceKind::LlvmIntrinsic(..) => format!("intrinsic {base}"),
            InstanceKind::Shim(ShimKind::ClosureOnce { .. }) => base,
            InstanceKind::Shim(k) => {
                let k = format!("{k:?}");
                let k: String = k.chars().take_while(|c| c.is_alphanumeric()).collect();
                format!("shim:{k} {base}")
            }
        }
    }
    fn want(&self, i: Instance<'tcx>) -> bool {
        let d = i.def_id();
        if !matches!(i.def, InstanceKind::Item(_)) {
            return false;
        }
        let kr = self.tcx.crate_name(d.krate);
        let kr = kr.as_str();
        if d.is_local() || kr == "csvp" || kr == "csvpp" {
            return self.tcx.is_mir_available(d);
        }
        if !matches!(kr, "core" | "alloc" | "std") {
            return false;
        }
        inline_std(&self.path(d)) && self.tcx.is_mir_available(d)
    }
    fn push(&mut self, i: Instance<'tcx>, poly: bool) {
        if self.want(i) && self.seen.insert((i, poly)) {
            self.queue.push_back((i, poly));
        }
    }
    fn note_adt(&mut self, d: DefId) {
        if !self.adts.insert(d) {
            return;
        }
        let adt = self.tcx.adt_def(d);
        let mut vs = vec![];
        for (vi, v) in adt.variants().iter_enumerated() {
            let discr = if adt.is_enum() { adt.discriminant_for_variant(self.tcx, vi).val as i128 } else { 0 };
            let fs: Vec<J> = v
                .fields
                .iter()
                .map(|f| {
                    let t = self.tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                    a![s(f.name.as_str()), self.ty(t), J::B(f.vis.is_public())]
                })
                .collect();
            vs.push(a![s(v.name.as_str()), J::I(discr), J::A(fs)]);
        }
        let j = o! {"adt": s(self.path(d)), "kind": s(if adt.is_enum() {"enum"} else if adt.is_struct() {"struct"} else {"union"}),
            "local": J::B(d.is_local()), "span": self.span(self.tcx.def_span(d)), "variants": J::A(vs)};
        self.out.push(j);
    }
}

impl<'a, 'tcx> Fx<'a, 'tcx> {
    fn place(&mut self, p: Place<'tcx>) -> J {
        let tcx = self.cx.tcx;
        let mut pj = vec![];
        for (base, el) in p.iter_projections() {
            let bt = base.ty(&self.body.local_decls, tcx);
            let e = match el {
                ProjectionElem::Deref => a![s("*")],
                ProjectionElem::Field(f, _) => {
                    if let ty::Adt(def, _) = bt.ty.kind() {
                        let n = tcx.item_name(def.did());
                        let n = n.as_str();
                        if def.is_box() || ((n == "Unique" || n == "NonNull") && !def.did().is_local() && tcx.crate_name(def.did().krate).as_str() == "core") {
                            pj.push(a![s("bx")]);
                            continue;
                        }
                        if def.is_struct() && !inline_std(&self.cx.path(def.did())) {
                            let d = def.did();
                            self.cx.note_adt(d);
                        }
                    }
                    let nm = match bt.ty.kind() {
                        ty::Adt(def, _) => {
                            let v = match bt.variant_index {
                                Some(v) => def.variant(v),
                                None => def.non_enum_variant(),
                            };
                            v.fields[f].name.to_string()
                        }
                        ty::Closure(..) | ty::Coroutine(..) => format!("up{}", f.as_usize()),
                        _ => format!("{}", f.as_usize()),
                    };
                    a![s("f"), s(nm)]
                }
                ProjectionElem::Index(l) => a![s("i"), J::I(l.as_usize() as i128)],
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    a![s("ci"), J::I(offset as i128), J::B(from_end), J::I(min_length as i128)]
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    a![s("sub"), J::I(from as i128), J::I(to as i128), J::B(from_end)]
                }
                ProjectionElem::Downcast(_, v) => {
                    let nm = match bt.ty.kind() {
                        ty::Adt(def, _) => def.variant(v).name.to_string(),
                        _ => format!("v{}", v.as_usize()),
                    };
                    a![s("v"), s(nm)]
                }
                _ => a![s("cast")],
            };
            pj.push(e);
        }
        if pj.is_empty() {
            J::I(p.local.as_usize() as i128)
        } else {
            a![J::I(p.local.as_usize() as i128), J::A(pj)]
        }
    }
    fn constval(&mut self, v: ConstValue, t: Ty<'tcx>, depth: usize) -> J {
        let tcx = self.cx.tcx;
        if depth > 6 {
            return o! {"k": s("deep")};
        }
        match t.kind() {
            ty::FnDef(d, args) => {
                return self.fndef(*d, args.no_bound_vars().unwrap());
            }
            ty::Closure(d, args) => {
                let i = Instance::new_raw(*d, args);
                self.cx.push(i, false);
                return o! {"clo": s(self.cx.key(i)), "f": J::A(vec![])};
            }
            _ => {}
        }
        match v {
            ConstValue::ZeroSized => match t.kind() {
                ty::Tuple(_) => o! {"tup": J::A(vec![])},
                ty::Adt(def, _) => {
                    self.cx.note_adt(def.did());
                    o! {"adt": s(self.cx.path(def.did())), "v": s(if def.is_struct() { def.non_enum_variant().name.to_string() } else { "?".into() }), "f": J::A(vec![])}
                }
                _ => o! {"k": s("zst"), "t": self.cx.ty(t)},
            },
            ConstValue::Scalar(Scalar::Int(i)) => match t.kind() {
                ty::Bool => o! {"b": J::B(i.try_to_bool().unwrap_or(false))},
                ty::Char => o! {"ch": J::I(i.to_bits(i.size()) as i128)},
                ty::Int(_) => {
                    let sz = i.size();
                    o! {"i": J::I(i.to_int(sz)), "t": self.cx.ty(t)}
                }
                ty::Uint(_) => o! {"i": J::I(i.to_bits(i.size()) as i128), "t": self.cx.ty(t)},
                ty::Float(_) => o! {"fl": s(format!("{i:?}")), "t": self.cx.ty(t)},
                _ => self.destructure(v, t, depth),
            },
            ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                let (prov, off) = p.prov_and_relative_offset();
                match tcx.global_alloc(prov.alloc_id()) {
                    GlobalAlloc::Static(d) => o! {"static": s(self.cx.path(d))},
                    GlobalAlloc::Function { instance } => {
                        self.cx.push(instance, false);
                        o! {"fn": s(self.cx.key(instance))}
                    }
                    GlobalAlloc::Memory(al) => {
                        if let ty::Ref(_, inner, _) = t.kind() {
                            if let ty::Array(et, _) = inner.kind() {
                                if matches!(et.kind(), ty::Uint(ty::UintTy::U8)) {
                                    let n = al.inner().len();
                                    let b = al.inner().inspect_with_uninit_and_ptr_outside_interpreter(off.bytes_usize()..n);
                                    return o! {"bytes": J::A(b.iter().map(|x| J::I(*x as i128)).collect())};
                                }
                            }
                            if inner.is_sized(tcx, self.env) {
                                return self.constval(ConstValue::Indirect { alloc_id: prov.alloc_id(), offset: off }, *inner, depth + 1);
                            }
                        }
                        o! {"k": s("ptr"), "t": self.cx.ty(t)}
                    }
                    _ => o! {"k": s("ptr"), "t": self.cx.ty(t)},
                }
            }
            ConstValue::Slice { .. } => {
                if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                    match t.kind() {
                        ty::Ref(_, i, _) if i.is_str() => o! {"s": s(String::from_utf8_lossy(b).to_string())},
                        _ => o! {"bytes": J::A(b.iter().map(|x| J::I(*x as i128)).collect())},
                    }
                } else {
                    o! {"k": s("slice"), "t": self.cx.ty(t)}
                }
            }
            ConstValue::Indirect { alloc_id, offset } => {
                // a pointer-typed constant stored in memory: read through it
                if let ty::Ref(_, inner, _) = t.kind() {
                    if inner.is_str() || matches!(inner.kind(), ty::Slice(_)) {
                        if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                            if inner.is_str() {
                                return o! {"s": s(String::from_utf8_lossy(b).to_string())};
                            }
                        }
                        if let Some(x) = self.indirect_slice(alloc_id, offset, *inner, depth) {
                            return x;
                        }
                    } else if let GlobalAlloc::Memory(al) = tcx.global_alloc(alloc_id) {
                        if let Some(prov) = al.inner().provenance().get_ptr(offset) {
                            return self.constval(ConstValue::Indirect { alloc_id: prov.alloc_id(), offset: rustc_abi::Size::ZERO }, *inner, depth + 1);
                        }
                    }
                }
                self.destructure(v, t, depth)
            }
        }
    }
    fn indirect_slice(&mut self, alloc_id: interpret::AllocId, offset: rustc_abi::Size, inner: Ty<'tcx>, depth: usize) -> Option<J> {
        let tcx = self.cx.tcx;
        let GlobalAlloc::Memory(al) = tcx.global_alloc(alloc_id) else { return None };
        let al = al.inner();
        let prov = al.provenance().get_ptr(offset)?;
        let o = offset.bytes_usize();
        if al.len() < o + 16 {
            return None;
        }
        let b = al.inspect_with_uninit_and_ptr_outside_interpreter(o + 8..o + 16);
        let n = u64::from_le_bytes(b.try_into().ok()?);
        let po = {
            let b = al.inspect_with_uninit_and_ptr_outside_interpreter(o..o + 8);
            u64::from_le_bytes(b.try_into().ok()?)
        };
        if inner.is_str() {
            let GlobalAlloc::Memory(d) = tcx.global_alloc(prov.alloc_id()) else { return None };
            let b = d.inner().inspect_with_uninit_and_ptr_outside_interpreter(po as usize..(po + n) as usize);
            return Some(o! {"s": s(String::from_utf8_lossy(b).to_string())});
        }
        let ty::Slice(et) = inner.kind() else { return None };
        let lay = tcx.layout_of(self.env.as_query_input(*et)).ok()?;
        let mut v = vec![];
        for i in 0..n {
            let off = rustc_abi::Size::from_bytes(po + i * lay.size.bytes());
            v.push(self.constval(ConstValue::Indirect { alloc_id: prov.alloc_id(), offset: off }, *et, depth + 1));
        }
        Some(o! {"arr": J::A(v)})
    }
    fn destructure(&mut self, v: ConstValue, t: Ty<'tcx>, depth: usize) -> J {
        let tcx = self.cx.tcx;
        let ok = match t.kind() {
            ty::Array(..) | ty::Tuple(_) => true,
            ty::Adt(d, _) => !d.is_union(),
            _ => false,
        };
        if !ok {
            if let ConstValue::Indirect { alloc_id, offset } = v {
                if let GlobalAlloc::Memory(al) = tcx.global_alloc(alloc_id) {
                    if let Ok(lay) = tcx.layout_of(self.env.as_query_input(t)) {
                        let n = lay.size.bytes_usize();
                        let o = offset.bytes_usize();
                        if n > 0 && n <= 16 && al.inner().len() >= o + n && al.inner().provenance().get_ptr(offset).is_none() {
                            let b = al.inner().inspect_with_uninit_and_ptr_outside_interpreter(o..o + n);
                            let mut x: u128 = 0;
                            for (i, y) in b.iter().enumerate() {
                                x |= (*y as u128) << (8 * i);
                            }
                            return match t.kind() {
                                ty::Bool => o! {"b": J::B(x != 0)},
                                ty::Char => o! {"ch": J::I(x as i128)},
                                ty::Int(_) => {
                                    let sh = 128 - 8 * n as u32;
                                    o! {"i": J::I(((x << sh) as i128) >> sh), "t": self.cx.ty(t)}
                                }
                                ty::Uint(_) => o! {"i": J::I(x as i128), "t": self.cx.ty(t)},
                                _ => o! {"k": s(format!("{x}")), "t": self.cx.ty(t)},
                            };
                        }
                    }
                }
            }
            return o! {"k": s("opaque"), "t": self.cx.ty(t)};
        }
        match tcx.try_destructure_mir_constant_for_user_output(v, t) {
            Some(d) => {
                let fs: Vec<J> = d.fields.iter().map(|(cv, ct)| self.constval(*cv, *ct, depth + 1)).collect();
                match t.kind() {
                    ty::Adt(def, _) => {
                        self.cx.note_adt(def.did());
                        let vn = match d.variant {
                            Some(v) => def.variant(v).name.to_string(),
                            None => def.non_enum_variant().name.to_string(),
                        };
                        o! {"adt": s(self.cx.path(def.did())), "v": s(vn), "f": J::A(fs)}
                    }
                    ty::Tuple(_) => o! {"tup": J::A(fs)},
                    _ => o! {"arr": J::A(fs)},
                }
            }
            None => o! {"k": s("opaque"), "t": self.cx.ty(t)},
        }
    }
    fn fndef(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> J {
        let tcx = self.cx.tcx;
        let raw = self.cx.path(d);
        // constructors used as functions
        if let DefKind::Ctor(of, _) = tcx.def_kind(d) {
            let (adt, vn) = match of {
                rustc_hir::def::CtorOf::Struct => (tcx.parent(d), None),
                rustc_hir::def::CtorOf::Variant => (tcx.parent(tcx.parent(d)), Some(tcx.item_name(tcx.parent(d)).to_string())),
            };
            self.cx.note_adt(adt);
            return o! {"ctor": s(self.cx.path(adt)), "v": s(vn.unwrap_or_else(|| tcx.item_name(adt).to_string()))};
        }
        let r = Instance::try_resolve(tcx, self.env, d, args);
        let targs = J::A(args.types().map(|t| self.cx.ty(t)).collect());
        match r {
            Ok(Some(i)) => {
                self.cx.push(i, false);
                let path = self.cx.path(i.def_id());
                let mut v = vec![("fn", s(self.cx.key(i))), ("p", s(path)), ("raw", s(raw)), ("ta", targs)];
                if let InstanceKind::Virtual(..) = i.def {
                    v.push(("virt", J::B(true)));
                }
                v.push(("kr", s(tcx.crate_name(i.def_id().krate).as_str())));
                J::O(v)
            }
            _ => o! {"fn": s(names(|| tcx.def_path_str_with_args(d, args))), "p": s(raw.clone()), "raw": s(raw), "ta": targs, "kr": s(tcx.crate_name(d.krate).as_str()), "unres": J::B(true)},
        }
    }
    fn operand(&mut self, op: &Operand<'tcx>) -> J {
        match op {
            Operand::Copy(p) => {
                let p = self.place(*p);
                a![s("c"), p]
            }
            Operand::Move(p) => {
                let p = self.place(*p);
                a![s("m"), p]
            }
            Operand::Constant(c) => {
                let k = self.konst(&c.const_);
                a![s("k"), k]
            }
            #[allow(unreachable_patterns)]
            _ => a![s("k"), o! {"k": s("rtcheck")}],
        }
    }
    fn konst(&mut self, c: &Const<'tcx>) -> J {
        let tcx = self.cx.tcx;
        let t = c.ty();
        if let ty::FnDef(d, args) = t.kind() {
            return self.fndef(*d, args.no_bound_vars().unwrap());
        }
        if let Const::Unevaluated(u, _) = c {
            if let Some(p) = u.promoted {
                let i = Instance::new_raw(u.def, u.args);
                return o! {"prom": s(self.cx.key(i)), "n": J::I(p.as_usize() as i128)};
            }
        }
        let nm = match c {
            Const::Unevaluated(u, _) => Some(names(|| tcx.def_path_str_with_args(u.def, u.args))),
            _ => None,
        };
        match c.eval(tcx, self.env, rustc_span::DUMMY_SP) {
            Ok(v) => {
                let mut j = self.constval(v, t, 0);
                if let (Some(n), J::O(v)) = (nm, &mut j) {
                    v.push(("named", s(n)));
                }
                j
            }
            Err(_) => o! {"k": s("uneval"), "t": self.cx.ty(t), "named": nm.map(s).unwrap_or(J::N)},
        }
    }
    fn rvalue(&mut self, r: &Rvalue<'tcx>) -> J {
        let tcx = self.cx.tcx;
        match r {
            Rvalue::Use(o, _) => {
                let o = self.operand(o);
                a![s("use"), o]
            }
            Rvalue::Repeat(o, n) => {
                let o = self.operand(o);
                a![s("rep"), o, s(names(|| format!("{n}")))]
            }
            Rvalue::Ref(_, k, p) => {
                let p = self.place(*p);
                let m = matches!(k, BorrowKind::Mut { .. });
                a![s("ref"), J::B(m), p]
            }
            Rvalue::RawPtr(_, p) => {
                let p = self.place(*p);
                a![s("ref"), J::B(true), p]
            }
            Rvalue::Reborrow(_, m, p) => {
                let p = self.place(*p);
                a![s("use"), a![s("c"), p], J::B(m.is_mut())]
            }
            Rvalue::Cast(k, o, t) => {
                let from = o.ty(&self.body.local_decls, tcx);
                let oj = self.operand(o);
                let k = format!("{k:?}");
                // reification of closures/fn items keeps the value
                a![s("cast"), s(k), oj, self.cx.ty(*t), self.cx.ty(from)]
            }
            Rvalue::BinaryOp(op, b) => {
                let t = b.0.ty(&self.body.local_decls, tcx);
                let x = self.operand(&b.0);
                let y = self.operand(&b.1);
                a![s("bin"), s(format!("{op:?}")), x, y, self.cx.ty(t)]
            }
            Rvalue::UnaryOp(op, x) => {
                let x = self.operand(x);
                a![s("un"), s(format!("{op:?}")), x]
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(&self.body.local_decls, tcx).ty;
                let pj = self.place(*p);
                let an = if let ty::Adt(def, _) = t.kind() {
                    self.cx.note_adt(def.did());
                    s(self.cx.path(def.did()))
                } else {
                    J::N
                };
                a![s("disc"), pj, an]
            }
            Rvalue::Aggregate(k, fs) => {
                let f: Vec<J> = fs.iter().map(|x| self.operand(x)).collect();
                let kd = match &**k {
                    AggregateKind::Array(_) => o! {"k": s("arr")},
                    AggregateKind::Tuple => o! {"k": s("tup")},
                    AggregateKind::Adt(d, v, _, _, _) => {
                        self.cx.note_adt(*d);
                        let def = tcx.adt_def(*d);
                        let vn = def.variant(*v).name.to_string();
                        o! {"k": s("adt"), "adt": s(self.cx.path(*d)), "v": s(vn)}
                    }
                    AggregateKind::Closure(d, args) => {
                        let i = Instance::new_raw(*d, args);
                        self.cx.push(i, false);
                        o! {"k": s("clo"), "key": s(self.cx.key(i))}
                    }
                    AggregateKind::Coroutine(d, args) => {
                        let i = Instance::new_raw(*d, args);
                        self.cx.push(i, false);
                        o! {"k": s("clo"), "key": s(self.cx.key(i))}
                    }
                    AggregateKind::RawPtr(..) => o! {"k": s("rawptr")},
                    _ => o! {"k": s("other")},
                };
                a![s("agg"), kd, J::A(f)]
            }
            Rvalue::CopyForDeref(p) => {
                let p = self.place(*p);
                a![s("use"), a![s("c"), p]]
            }
            Rvalue::ThreadLocalRef(d) => a![s("tls"), s(self.cx.path(*d))],
            _ => a![s("other"), s(format!("{r:?}"))],
        }
    }
    fn blocks(&mut self) -> J {
        let tcx = self.cx.tcx;
        let bbs = self.body.basic_blocks.clone();
        let mut out = vec![];
        for (_, bb) in bbs.iter_enumerated() {
            let mut st = vec![];
            for x in &bb.statements {
                let sp = self.cx.span(x.source_info.span);
                match &x.kind {
                    StatementKind::Assign(b) => {
                        let p = self.place(b.0);
                        let r = self.rvalue(&b.1);
                        st.push(a![s("="), p, r, sp]);
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let t = place.ty(&self.body.local_decls, tcx).ty;
                        let vn = if let ty::Adt(def, _) = t.kind() { def.variant(*variant_index).name.to_string() } else { "?".into() };
                        let p = self.place(**place);
                        st.push(a![s("setd"), p, s(vn), sp]);
                    }
                    StatementKind::StorageDead(l) => st.push(a![s("dead"), J::I(l.as_usize() as i128)]),
                    StatementKind::StorageLive(l) => st.push(a![s("live"), J::I(l.as_usize() as i128)]),
                    _ => {}
                }
            }
            let term = bb.terminator();
            let sp = self.cx.span(term.source_info.span);
            let t = match &term.kind {
                TerminatorKind::Goto { target, .. } => a![s("goto"), J::I(target.as_usize() as i128)],
                TerminatorKind::SwitchInt { discr, targets } => {
                    let ty_ = discr.ty(&self.body.local_decls, tcx);
                    let d = self.operand(discr);
                    let v: Vec<J> = targets.iter().map(|(v, b)| {
                        let v = match ty_.kind() {
                            ty::Int(it) => { let bits = it.bit_width().unwrap_or(64) as u32; let sh = 128 - bits; (((v << sh) as i128) >> sh) as i128 }
                            _ => v as i128,
                        };
                        a![J::I(v), J::I(b.as_usize() as i128)]
                    }).collect();
                    a![s("switch"), d, J::A(v), J::I(targets.otherwise().as_usize() as i128), self.cx.ty(ty_), sp]
                }
                TerminatorKind::Yield { resume, .. } => a![s("goto"), J::I(resume.as_usize() as i128)],
                TerminatorKind::Return => a![s("ret")],
                TerminatorKind::Unreachable => a![s("unreach")],
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => a![s("resume")],
                TerminatorKind::Drop { place, target, unwind, .. } => {
                    let t = place.ty(&self.body.local_decls, tcx).ty;
                    let p = self.place(*place);
                    a![s("drop"), p, J::I(target.as_usize() as i128), self.cx.ty(t), self.unwind(unwind), sp]
                }
                TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                    let f = self.operand(func);
                    let ar: Vec<J> = args.iter().map(|x| {
                        let t = x.node.ty(&self.body.local_decls, tcx);
                        let oj = self.operand(&x.node);
                        a![oj, self.cx.ty(t)]
                    }).collect();
                    let dt = destination.ty(&self.body.local_decls, tcx).ty;
                    let d = self.place(*destination);
                    a![s("call"), f, J::A(ar), d, target.map(|t| J::I(t.as_usize() as i128)).unwrap_or(J::N), self.cx.ty(dt), self.unwind(unwind), sp]
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.operand(cond);
                    let m = format!("{msg:?}");
                    let m: String = m.chars().take_while(|c| c.is_alphanumeric() || *c == '(').collect();
                    a![s("assert"), c, J::B(*expected), s(m), J::I(target.as_usize() as i128), sp]
                }
                TerminatorKind::FalseEdge { real_target, .. } => a![s("goto"), J::I(real_target.as_usize() as i128)],
                TerminatorKind::FalseUnwind { real_target, .. } => a![s("goto"), J::I(real_target.as_usize() as i128)],
                k => a![s("other"), s(format!("{k:?}"))],
            };
            out.push(a![J::A(st), t, J::B(bb.is_cleanup)]);
        }
        J::A(out)
    }
    fn unwind(&self, u: &UnwindAction) -> J {
        match u {
            UnwindAction::Cleanup(b) => J::I(b.as_usize() as i128),
            _ => J::N,
        }
    }
    fn locals(&mut self) -> J {
        let v: Vec<J> = self.body.local_decls.iter().map(|d| self.cx.ty(d.ty)).collect();
        J::A(v)
    }
    fn vars(&mut self) -> J {
        let vs = self.body.var_debug_info.clone();
        let mut out = vec![];
        for v in vs.iter() {
            if let VarDebugInfoContents::Place(p) = v.value {
                let p = self.place(p);
                out.push(a![s(v.name.as_str()), p]);
            }
        }
        J::A(out)
    }
}

fn dump_instance<'tcx>(cx: &mut Cx<'tcx>, i: Instance<'tcx>, poly: bool) {
    let tcx = cx.tcx;
    let d = i.def_id();
    let env = if poly { TypingEnv::post_analysis(tcx, d) } else { TypingEnv::fully_monomorphized() };
    let raw = match cx.coro.get(&d) {
        Some(b) => b.clone(),
        None => tcx.instance_mir(i.def).clone(),
    };
    let body = if poly {
        raw
    } else {
        i.instantiate_mir_and_normalize_erasing_regions(tcx, env, ty::EarlyBinder::bind(tcx, raw))
    };
    let nargs = body.arg_count;
    let key = cx.key(i);
    let path = cx.path(d);
    let span = cx.span(tcx.def_span(d));
    let fsp = tcx.def_span(d);
    let derive = fsp.in_derive_expansion() || {
        let p = tcx.impl_of_assoc(tcx.typeck_root_def_id(d));
        p.is_some_and(|p| tcx.def_span(p).in_derive_expansion() || tcx.def_span(p).from_expansion() || tcx.is_automatically_derived(p))
    };
    let root = tcx.typeck_root_def_id(d);
    let (tr, slf) = match tcx.impl_of_assoc(root) {
        Some(im) => {
            let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
            let trr = tcx.impl_opt_trait_ref(im).map(|t| names(|| format!("{}", ty::print::PrintTraitRefExt::print_only_trait_path(t.instantiate_identity().skip_norm_wip()))));
            (trr.map(s).unwrap_or(J::N), cx.ty(st))
        }
        None => (J::N, J::N),
    };
    let name = tcx.opt_item_name(root).map(|x| s(x.as_str())).unwrap_or(J::N);
    let vis = d.is_local() && matches!(tcx.def_kind(root), DefKind::Fn | DefKind::AssocFn) && tcx.visibility(root).is_public();
    let mut fx = Fx { cx, env, body };
    let blocks = fx.blocks();
    let locals = fx.locals();
    let vars = fx.vars();
    let mut proms = vec![];
    if matches!(i.def, InstanceKind::Item(_)) {
        let pm = tcx.promoted_mir(d).clone();
        for pb in pm {
            let b = if poly { pb } else { i.instantiate_mir_and_normalize_erasing_regions(tcx, env, ty::EarlyBinder::bind(tcx, pb)) };
            fx.body = b;
            let bl = fx.blocks();
            let lo = fx.locals();
            proms.push(o! {"b": bl, "l": lo});
        }
    }
    let kr = tcx.crate_name(d.krate).to_string();
    let j = o! {"body": s(key), "path": s(path), "kr": s(kr), "poly": J::B(poly), "span": span, "derive": J::B(derive),
        "trait": tr, "self": slf, "name": name, "pub": J::B(vis), "closure": J::B(tcx.is_closure_like(d)), "nargs": J::I(nargs as i128),
        "locals": locals, "vars": vars, "blocks": blocks, "proms": J::A(proms)};
    cx.out.push(j);
}

struct Held(Body<'static>);
unsafe impl Send for Held {}
static CORO: std::sync::Mutex<Vec<(DefId, Held)>> = std::sync::Mutex::new(Vec::new());
type Steal<'tcx> = &'tcx rustc_data_structures::steal::Steal<Body<'tcx>>;
type Prom<'tcx> = &'tcx rustc_data_structures::steal::Steal<rustc_index::IndexVec<Promoted, Body<'tcx>>>;
type Made = for<'tcx> fn(TyCtxt<'tcx>, rustc_hir::def_id::LocalDefId) -> (Steal<'tcx>, Prom<'tcx>);
static MADE: std::sync::OnceLock<Made> = std::sync::OnceLock::new();

fn made<'tcx>(tcx: TyCtxt<'tcx>, d: rustc_hir::def_id::LocalDefId) -> (Steal<'tcx>, Prom<'tcx>) {
    let r = MADE.get().unwrap()(tcx, d);
    if tcx.is_coroutine(d.to_def_id()) {
        let b: Body<'static> = unsafe { std::mem::transmute::<Body<'tcx>, Body<'static>>(r.0.borrow().clone()) };
        CORO.lock().unwrap().push((d.to_def_id(), Held(b)));
    }
    r
}

struct Cb;
impl rustc_driver::Callbacks for Cb {
    fn config(&mut self, c: &mut rustc_interface::interface::Config) {
        c.override_queries = Some(|_s, p| {
            let _ = MADE.set(p.queries.mir_promoted);
            p.queries.mir_promoted = made;
        });
    }
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let name = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
        let dir = match std::env::var("FACTS_DIR") {
            Ok(d) => d,
            Err(_) => return Compilation::Continue,
        };
        let is_bin = tcx.entry_fn(()).is_some();
        let mut cx = Cx { tcx, queue: VecDeque::new(), seen: HashSet::new(), adts: HashSet::new(), out: vec![], coro: Default::default() };
        // bodies of async functions as they are before they become state machines
        for (d, b) in CORO.lock().unwrap().iter() {
            let b: Body<'tcx> = unsafe { std::mem::transmute::<Body<'static>, Body<'tcx>>(b.0.clone()) };
            cx.coro.insert(*d, b);
        }
        for d in tcx.hir_crate_items(()).definitions() {
            let d = d.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Struct | DefKind::Enum => cx.note_adt(d),
                _ => {}
            }
        }
        for &ld in tcx.mir_keys(()).iter() {
            let d = ld.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Fn | DefKind::AssocFn => {}
                _ => continue,
            }
            let g = tcx.generics_of(d);
            if g.requires_monomorphization(tcx) {
                let args = ty::GenericArgs::identity_for_item(tcx, d);
                cx.push(Instance::new_raw(d, args), true);
            } else {
                let args = ty::GenericArgs::for_item(tcx, d, |p, _| match p.kind {
                    ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
                    _ => unreachable!(),
                });
                cx.push(Instance::new_raw(d, args), false);
            }
        }
        while let Some((i, poly)) = cx.queue.pop_front() {
            dump_instance(&mut cx, i, poly);
        }
        // trait impls of the crate, for "which types implement what"
        let mut buf = String::new();
        for j in &cx.out {
            j.w(&mut buf);
            buf.push('\n');
        }
        let f = format!("{dir}/{name}.{}.jsonl", if is_bin { "bin" } else { "lib" });
        let tmp = format!("{f}.tmp");
        std::fs::File::create(&tmp).unwrap().write_all(buf.as_bytes()).unwrap();
        std::fs::rename(&tmp, &f).unwrap();
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].ends_with("rustc.exe")) {
        args.remove(1);
    }
    let target = args.windows(2).any(|w| w[0] == "--crate-name" && !w[1].starts_with("build_script"));
    if target {
        args.push("-Zalways-encode-mir".into());
        args.push("-Zmir-opt-level=0".into());
        args.push("--cap-lints=allow".into());
    }
    if target && !args.iter().any(|a| a == "-vV" || a.starts_with("--print")) {
        rustc_driver::compiler_entrypoint(&args, &mut Cb);
    } else {
        struct No;
        impl rustc_driver::Callbacks for No {}
        rustc_driver::compiler_entrypoint(&args, &mut No);
    }
}
