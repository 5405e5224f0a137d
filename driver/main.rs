//! rustc driver: type checks the crate as usual and dumps the MIR of every body of the crate as
//! JSON into $SEIREN_MIR_OUT/<crate>-<kind>.json. Nothing of the crate is run.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver::Compilation;
use rustc_hir::def::{CtorKind, DefKind};
use rustc_hir::def_id::DefId;
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths, with_crate_prefix};
use rustc_middle::ty::{self, Ty, TyCtxt, TypingEnv};
use std::collections::HashMap;
use std::fmt::Write as _;

enum J {
    N,
    B(bool),
    I(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}
fn s(x: impl Into<String>) -> J {
    J::S(x.into())
}
fn i(x: usize) -> J {
    J::I(x as i128)
}
impl J {
    fn write(&self, o: &mut String) {
        match self {
            J::N => o.push_str("null"),
            J::B(b) => write!(o, "{}", b).unwrap(),
            J::I(n) => write!(o, "{}", n).unwrap(),
            J::S(x) => {
                o.push('"');
                for c in x.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        c if (c as u32) < 32 => write!(o, "\\u{:04x}", c as u32).unwrap(),
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::A(v) => {
                o.push('[');
                for (k, x) in v.iter().enumerate() {
                    if k > 0 {
                        o.push(',');
                    }
                    x.write(o);
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (k, (n, x)) in v.iter().enumerate() {
                    if k > 0 {
                        o.push(',');
                    }
                    write!(o, "\"{}\":", n).unwrap();
                    x.write(o);
                }
                o.push('}');
            }
        }
    }
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: Vec<J>,
    ty_ids: HashMap<Ty<'tcx>, usize>,
    adts: HashMap<DefId, J>,
    adt_order: Vec<DefId>,
    /// Functions and closures with the types of their parameters filled in
    work: Vec<(String, ty::Instance<'tcx>)>,
    seen: HashMap<String, ()>,
    mono: bool,
}

/// The number that the bits `v` of a type stand for
fn signed(ty: Ty<'_>, v: u128) -> i128 {
    match ty.kind() {
        ty::Int(n) => {
            let unused = 128 - n.bit_width().unwrap_or(64) as u32;
            ((v << unused) as i128) >> unused
        }
        _ => v as i128,
    }
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        with_no_trimmed_paths!(with_no_visible_paths!(with_crate_prefix!(self.tcx.def_path_str(d))))
    }
    fn key(&self, d: DefId) -> String {
        format!(
            "{}{}",
            self.tcx.crate_name(d.krate),
            self.tcx.def_path(d).to_string_no_crate_verbose()
        )
    }
    fn span(&self, sp: rustc_span::Span) -> String {
        let sp = sp.source_callsite();
        let l = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
        let n = format!("{}", l.file.name.prefer_local_unconditionally());
        format!("{}:{}", n, l.line)
    }
    /// The key of a generic function or closure of the crate with known types, None if it has nothing to fill in
    fn instance(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> Option<String> {
        use rustc_middle::ty::TypeVisitableExt;
        let tcx = self.tcx;
        if !d.is_local() && tcx.crate_name(d.krate) != tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE) {
            return None;
        }
        let closure = tcx.def_kind(d) == DefKind::Closure;
        if !closure && !matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            return None;
        }
        let args = tcx.erase_and_anonymize_regions(args);
        let own: Vec<String> = if closure { args.as_closure().parent_args() } else { args.as_slice() }
            .iter()
            .filter(|a| a.as_region().is_none())
            .map(|a| with_no_trimmed_paths!(with_no_visible_paths!(with_crate_prefix!(a.to_string()))))
            .collect();
        if own.is_empty() || args.has_param() || args.has_infer() || args.has_escaping_bound_vars() || self.seen.len() > 2000 {
            return None;
        }
        let key = format!("{}<{}>", self.key(d), own.join(", "));
        if key.len() > 20000 || !tcx.is_mir_available(d) {
            return None;
        }
        if self.seen.insert(key.clone(), ()).is_none() {
            self.work.push((key.clone(), ty::Instance { def: ty::InstanceKind::Item(d), args }));
        }
        Some(key)
    }
    fn ty(&mut self, t: Ty<'tcx>) -> J {
        i(self.ty_id(t))
    }
    fn ty_id(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(x) = self.ty_ids.get(&t) {
            return *x;
        }
        let text = with_no_trimmed_paths!(with_no_visible_paths!(with_crate_prefix!(t.to_string())));
        let mut o = match t.kind() {
            ty::Adt(d, a) => {
                self.adt(d.did());
                let a: Vec<J> = a.types().map(|x| self.ty(x)).collect();
                vec![("k", s("adt")), ("n", s(self.path(d.did()))), ("e", J::B(d.is_enum())), ("a", J::A(a))]
            }
            ty::Ref(_, x, m) => vec![("k", s("ref")), ("m", J::B(m.is_mut())), ("t", self.ty(*x))],
            ty::RawPtr(x, m) => vec![("k", s("ptr")), ("m", J::B(m.is_mut())), ("t", self.ty(*x))],
            ty::Tuple(v) => {
                let a: Vec<J> = v.iter().map(|x| self.ty(x)).collect();
                vec![("k", s("tup")), ("a", J::A(a))]
            }
            ty::Array(x, n) => {
                let n = n.try_to_target_usize(self.tcx);
                vec![("k", s("arr")), ("t", self.ty(*x)), ("len", n.map_or(J::N, |n| J::I(n as i128)))]
            }
            ty::Slice(x) => vec![("k", s("slice")), ("t", self.ty(*x))],
            ty::Closure(d, a) => {
                let up: Vec<J> = a.as_closure().upvar_tys().iter().map(|x| self.ty(x)).collect();
                let mut o = vec![("k", s("clo")), ("n", s(self.key(*d))), ("a", J::A(up))];
                if let Some(k) = self.instance(*d, a) {
                    o.push(("ik", s(k)));
                }
                o
            }
            ty::FnDef(..) => vec![("k", s("fn")), ("f", self.fn_def(t, None))],
            ty::Param(p) => vec![("k", s("param")), ("n", s(p.name.to_string()))],
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) | ty::Str | ty::Never => {
                vec![("k", s("prim"))]
            }
            _ => vec![("k", s("other"))],
        };
        o.push(("s", s(text)));
        // Interning may have happened while the parts were converted.
        if let Some(x) = self.ty_ids.get(&t) {
            return *x;
        }
        self.tys.push(J::O(o));
        let id = self.tys.len() - 1;
        self.ty_ids.insert(t, id);
        id
    }
    fn adt(&mut self, d: DefId) {
        if self.adts.contains_key(&d) {
            return;
        }
        self.adts.insert(d, J::N);
        self.adt_order.push(d);
        let def = self.tcx.adt_def(d);
        let mut vs = vec![];
        for (vi, v) in def.variants().iter_enumerated() {
            let discr = if def.is_enum() {
                let d = def.discriminant_for_variant(self.tcx, vi);
                signed(d.ty, d.val)
            } else {
                0
            };
            let fs: Vec<J> = v
                .fields
                .iter()
                .map(|f| {
                    let fty = self.tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                    // Only the types of local fields are needed (lazy expansion of unknown values).
                    let t = if d.is_local() { self.ty(fty) } else { J::N };
                    J::O(vec![("n", s(f.name.to_string())), ("t", t)])
                })
                .collect();
            vs.push(J::O(vec![
                ("n", s(v.name.to_string())),
                ("d", J::I(discr)),
                ("ctor", s(match v.ctor_kind() { Some(CtorKind::Fn) => "fn", Some(CtorKind::Const) => "const", None => "" })),
                ("f", J::A(fs)),
            ]));
        }
        let j = J::O(vec![
            ("n", s(self.path(d))),
            ("e", J::B(def.is_enum())),
            ("local", J::B(d.is_local())),
            ("v", J::A(vs)),
        ]);
        self.adts.insert(d, j);
    }
    fn fn_def(&mut self, t: Ty<'tcx>, env: Option<TypingEnv<'tcx>>) -> J {
        let ty::FnDef(d, args) = *t.kind() else { return J::N };
        let tcx = self.tcx;
        let args = args.no_bound_vars().expect("late bound fn args");
        let targs: Vec<J> = args.types().map(|x| self.ty(x)).collect();
        let mut o = vec![("p", s(self.path(d))), ("k", s(self.key(d))), ("a", J::A(targs)), ("local", J::B(d.is_local()))];
        if let DefKind::Ctor(..) = tcx.def_kind(d) {
            let v = tcx.parent(d);
            let (adt, vn) = if tcx.def_kind(v) == DefKind::Variant { (tcx.parent(v), tcx.item_name(v)) } else { (v, tcx.item_name(v)) };
            self.adt(adt);
            let vi = tcx.adt_def(adt).variants().iter().position(|x| x.name == vn).unwrap_or(0);
            o.push(("ctor", J::O(vec![("n", s(self.path(adt))), ("v", i(vi))])));
        }
        if let Some(tr) = tcx.trait_of_assoc(d) {
            o.push(("trait", s(self.path(tr))));
            if let Some(env) = env {
                if let Ok(Some(inst)) = ty::Instance::try_resolve(tcx, env, d, args) {
                    let rd = inst.def_id();
                    if rd != d {
                        o.push(("rp", s(self.path(rd))));
                        o.push(("rk", s(self.key(rd))));
                        o.push(("rlocal", J::B(rd.is_local())));
                    }
                    // Closures called through Fn* traits.
                    if let ty::InstanceKind::Item(rd) = inst.def {
                        if let Some(k) = self.instance(rd, inst.args) {
                            o.push(("ik", s(k)));
                        }
                    } else {
                        o.push(("shim", s(format!("{:?}", inst.def).chars().take(60).collect::<String>())));
                    }
                }
            }
        } else if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            if let Some(k) = self.instance(d, args) {
                o.push(("ik", s(k)));
            }
        }
        J::O(o)
    }
    fn scalar(&self, t: Ty<'tcx>, sc: Scalar) -> Option<J> {
        let tcx = self.tcx;
        match sc {
            Scalar::Int(n) => {
                let bits = n.to_bits(n.size());
                Some(match t.kind() {
                    ty::Bool => J::O(vec![("v", J::B(bits != 0))]),
                    ty::Char => J::O(vec![("char", J::I(bits as i128))]),
                    ty::Int(_) => J::O(vec![("int", s(n.to_int(n.size()).to_string()))]),
                    ty::Uint(_) => J::O(vec![("int", s(bits.to_string()))]),
                    ty::Float(f) => {
                        let v = match f {
                            ty::FloatTy::F32 => f32::from_bits(bits as u32) as f64,
                            ty::FloatTy::F64 => f64::from_bits(bits as u64),
                            _ => return None,
                        };
                        // Exact value as a ratio is rebuilt from the bits of the f64.
                        J::O(vec![("float", s(format!("{:?}", v))), ("bits", s(v.to_bits().to_string()))])
                    }
                    _ => J::O(vec![("raw", s(bits.to_string()))]),
                })
            }
            Scalar::Ptr(p, _) => {
                let (prov, off) = p.prov_and_relative_offset();
                if let GlobalAlloc::Memory(m) = tcx.global_alloc(prov.alloc_id()) {
                    let a = m.inner();
                    if let ty::Ref(_, inner, _) = t.kind() {
                        let ok = match inner.kind() {
                            ty::Array(e, _) => *e == tcx.types.u8,
                            _ => false,
                        };
                        if ok && a.provenance().ptrs().is_empty() {
                            let b = a.inspect_with_uninit_and_ptr_outside_interpreter(off.bytes() as usize..a.len());
                            return Some(J::O(vec![("bytes", J::A(b.iter().map(|x| i(*x as usize)).collect()))]));
                        }
                    }
                }
                None
            }
        }
    }
    fn konst(&mut self, c: &ConstOperand<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let mut o = vec![("ty", self.ty(t))];
        if let Const::Val(ConstValue::Scalar(Scalar::Ptr(p, _)), _) = c.const_ {
            if let GlobalAlloc::Static(d) = tcx.global_alloc(p.prov_and_relative_offset().0.alloc_id()) {
                let frozen = tcx.type_of(d).instantiate_identity().skip_norm_wip().is_freeze(tcx, env);
                o.push(("static", s(self.key(d))));
                o.push(("smut", J::B(tcx.is_mutable_static(d) || !frozen)));
                o.push(("opaque", s(format!("{}", c.const_))));
                return J::O(o);
            }
        }
        if let ty::FnDef(..) = t.kind() {
            o.push(("fn", self.fn_def(t, Some(env))));
            return J::O(o);
        }
        if let Const::Unevaluated(u, _) = c.const_ {
            let mut d = u.def;
            if u.promoted.is_none() && tcx.trait_of_assoc(d).is_some() {
                if let Ok(Some(inst)) = ty::Instance::try_resolve(tcx, env, d, u.args) {
                    d = inst.def_id();
                }
            }
            if d.is_local() {
                let k = match u.promoted {
                    Some(p) => format!("{}::promoted[{}]", self.key(d), p.as_usize()),
                    None => self.key(d),
                };
                o.push(("body", s(k)));
                o.push(("p", s(self.path(u.def))));
                return J::O(o);
            }
            o.push(("p", s(self.path(u.def))));
        }
        match c.const_.eval(tcx, env, c.span) {
            Ok(v) => {
                match v {
                    ConstValue::Scalar(sc) => {
                        if let Some(J::O(x)) = self.scalar(t, sc) {
                            o.extend(x);
                        } else {
                            o.push(("opaque", s(format!("{}", c.const_))));
                        }
                    }
                    ConstValue::ZeroSized => o.push(("zst", J::B(true))),
                    ConstValue::Slice { .. } => {
                        let b = v.try_get_slice_bytes_for_diagnostics(tcx);
                        match (b, t.builtin_deref(true).map(|x| x.is_str())) {
                            (Some(b), Some(true)) => o.push(("str", s(String::from_utf8_lossy(b).to_string()))),
                            (Some(b), _) => o.push(("bytes", J::A(b.iter().map(|x| i(*x as usize)).collect()))),
                            _ => o.push(("opaque", s(format!("{}", c.const_)))),
                        }
                    }
                    ConstValue::Indirect { .. } => o.push(("opaque", s(format!("{}", c.const_)))),
                }
            }
            Err(_) => o.push(("opaque", s(format!("{}", c.const_)))),
        }
        J::O(o)
    }
    fn place(&mut self, body: &Body<'tcx>, p: &Place<'tcx>) -> J {
        let tcx = self.tcx;
        let mut pr = vec![];
        for (base, e) in p.iter_projections() {
            let pt = base.ty(&body.local_decls, tcx);
            pr.push(match e {
                ProjectionElem::Deref => J::A(vec![s("*")]),
                ProjectionElem::Field(f, t) => {
                    let name = match pt.ty.kind() {
                        ty::Adt(d, _) => {
                            let v = match pt.variant_index {
                                Some(v) => v,
                                None => rustc_abi::VariantIdx::from_usize(0),
                            };
                            if d.is_union() { s(f.as_usize().to_string()) } else { s(d.variant(v).fields[f].name.to_string()) }
                        }
                        _ => s(f.as_usize().to_string()),
                    };
                    let t = self.ty(t);
                    J::A(vec![s("f"), i(f.as_usize()), name, t])
                }
                ProjectionElem::Index(l) => J::A(vec![s("i"), i(l.as_usize())]),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    J::A(vec![s("ci"), J::I(offset as i128), J::B(from_end)])
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::A(vec![s("ss"), J::I(from as i128), J::I(to as i128), J::B(from_end)])
                }
                ProjectionElem::Downcast(n, v) => J::A(vec![s("d"), i(v.as_usize()), n.map_or(J::N, |n| s(n.to_string()))]),
                _ => J::A(vec![s("?")]),
            });
        }
        J::A(vec![i(p.local.as_usize()), J::A(pr)])
    }
    fn operand(&mut self, body: &Body<'tcx>, o: &Operand<'tcx>, env: TypingEnv<'tcx>) -> J {
        match o {
            Operand::Copy(p) => J::O(vec![("c", self.place(body, p))]),
            Operand::Move(p) => J::O(vec![("m", self.place(body, p))]),
            Operand::Constant(c) => J::O(vec![("k", self.konst(c, env))]),
            _ => J::O(vec![("rt", s(format!("{:?}", o)))]),
        }
    }
    fn rvalue(&mut self, body: &Body<'tcx>, r: &Rvalue<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        match r {
            Rvalue::Use(o, ..) => J::O(vec![("r", s("use")), ("o", self.operand(body, o, env))]),
            Rvalue::Repeat(o, n) => J::O(vec![
                ("r", s("repeat")),
                ("o", self.operand(body, o, env)),
                ("n", n.try_to_target_usize(tcx).map_or(J::N, |n| J::I(n as i128))),
            ]),
            Rvalue::Ref(_, k, p) => {
                let m = matches!(k, BorrowKind::Mut { .. });
                J::O(vec![("r", s("ref")), ("mut", J::B(m)), ("p", self.place(body, p)), ("t", { let t = p.ty(&body.local_decls, tcx).ty; self.ty(t) })])
            }
            Rvalue::RawPtr(k, p) => J::O(vec![
                ("r", s("ref")),
                ("raw", J::B(true)),
                ("mut", J::B(matches!(k, RawPtrKind::Mut))),
                ("p", self.place(body, p)),
                ("t", { let t = p.ty(&body.local_decls, tcx).ty; self.ty(t) }),
            ]),
            Rvalue::Reborrow(_, m, p) => J::O(vec![
                ("r", s("ref")),
                ("mut", J::B(m.is_mut())),
                ("p", self.place(body, p)),
                ("t", { let t = p.ty(&body.local_decls, tcx).ty; self.ty(t) }),
            ]),
            Rvalue::Cast(k, o, t) => J::O(vec![
                ("r", s("cast")),
                ("k", s(format!("{:?}", k))),
                ("o", self.operand(body, o, env)),
                ("from", { let f = o.ty(&body.local_decls, tcx); self.ty(f) }),
                ("t", self.ty(*t)),
            ]),
            Rvalue::BinaryOp(op, x) => J::O(vec![
                ("r", s("bin")),
                ("op", s(format!("{:?}", op))),
                ("a", self.operand(body, &x.0, env)),
                ("b", self.operand(body, &x.1, env)),
                ("t", { let f = x.0.ty(&body.local_decls, tcx); self.ty(f) }),
            ]),
            Rvalue::UnaryOp(op, x) => J::O(vec![
                ("r", s("un")),
                ("op", s(format!("{:?}", op))),
                ("a", self.operand(body, x, env)),
                ("t", { let f = x.ty(&body.local_decls, tcx); self.ty(f) }),
            ]),
            Rvalue::Discriminant(p) => J::O(vec![
                ("r", s("discr")),
                ("p", self.place(body, p)),
                ("t", { let t = p.ty(&body.local_decls, tcx).ty; self.ty(t) }),
            ]),
            Rvalue::Aggregate(k, ops) => {
                let ops_j: Vec<J> = ops.iter().map(|o| self.operand(body, o, env)).collect();
                let mut o = vec![("r", s("agg")), ("ops", J::A(ops_j))];
                match &**k {
                    AggregateKind::Array(_) => o.push(("k", s("arr"))),
                    AggregateKind::Tuple => o.push(("k", s("tup"))),
                    AggregateKind::Adt(d, v, ..) => {
                        self.adt(*d);
                        o.push(("k", s("adt")));
                        o.push(("n", s(self.path(*d))));
                        o.push(("v", i(v.as_usize())));
                    }
                    AggregateKind::Closure(d, a) => {
                        o.push(("k", s("clo")));
                        o.push(("n", s(self.key(*d))));
                        if let Some(k) = self.instance(*d, *a) {
                            o.push(("ik", s(k)));
                        }
                    }
                    _ => o.push(("k", s("other"))),
                }
                J::O(o)
            }
            Rvalue::CopyForDeref(p) => {
                let p = self.place(body, p);
                J::O(vec![("r", s("use")), ("o", J::O(vec![("c", p)]))])
            }
            _ => J::O(vec![("r", s("other")), ("text", s(format!("{:?}", r)))]),
        }
    }
    fn unwind(&self, u: &UnwindAction) -> J {
        match u {
            UnwindAction::Cleanup(b) => i(b.as_usize()),
            _ => J::N,
        }
    }
    fn body(&mut self, d: DefId, key: String, body: &Body<'tcx>, kind: &str) -> J {
        let tcx = self.tcx;
        let env = if self.mono { TypingEnv::fully_monomorphized() } else { body.typing_env(tcx) };
        let mut names: HashMap<usize, String> = HashMap::new();
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.insert(p.local.as_usize(), v.name.to_string());
                }
            }
        }
        let locals: Vec<J> = body
            .local_decls
            .iter_enumerated()
            .map(|(l, x)| {
                let t = self.ty(x.ty);
                let n = names.get(&l.as_usize()).map_or(J::N, |n| s(n.clone()));
                J::A(vec![t, n])
            })
            .collect();
        let mut blocks = vec![];
        for b in body.basic_blocks.iter() {
            let mut st = vec![];
            for x in &b.statements {
                match &x.kind {
                    StatementKind::Assign(a) => {
                        let p = self.place(body, &a.0);
                        let r = self.rvalue(body, &a.1, env);
                        let sp = self.span(x.source_info.span);
                        st.push(J::A(vec![s("="), p, r, s(sp)]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(body, place);
                        st.push(J::A(vec![s("setd"), p, i(variant_index.as_usize())]));
                    }
                    StatementKind::Intrinsic(x) => st.push(J::A(vec![s("intr"), s(format!("{:?}", x))])),
                    _ => {}
                }
            }
            let t = b.terminator();
            let sp = self.span(t.source_info.span);
            let mut o = match &t.kind {
                TerminatorKind::Goto { target, .. } => vec![("t", s("goto")), ("to", i(target.as_usize()))],
                TerminatorKind::SwitchInt { discr, targets } => {
                    let ty = discr.ty(&body.local_decls, tcx);
                    let vals: Vec<J> = targets
                        .iter()
                        .map(|(v, b)| J::A(vec![s(signed(ty, v).to_string()), i(b.as_usize())]))
                        .collect();
                    vec![
                        ("t", s("switch")),
                        ("o", self.operand(body, discr, env)),
                        ("ty", { let t = discr.ty(&body.local_decls, tcx); self.ty(t) }),
                        ("vals", J::A(vals)),
                        ("else", i(targets.otherwise().as_usize())),
                    ]
                }
                TerminatorKind::Return => vec![("t", s("ret"))],
                TerminatorKind::Unreachable => vec![("t", s("unreachable"))],
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => vec![("t", s("resume"))],
                TerminatorKind::Drop { place, target, unwind, .. } => vec![
                    ("t", s("drop")),
                    ("p", self.place(body, place)),
                    ("ty", { let t = place.ty(&body.local_decls, tcx).ty; self.ty(t) }),
                    ("to", i(target.as_usize())),
                    ("unwind", self.unwind(unwind)),
                ],
                TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                    let f = self.operand(body, func, env);
                    let a: Vec<J> = args.iter().map(|x| self.operand(body, &x.node, env)).collect();
                    let at: Vec<J> = args.iter().map(|x| { let t = x.node.ty(&body.local_decls, tcx); self.ty(t) }).collect();
                    vec![
                        ("t", s("call")),
                        ("f", f),
                        ("args", J::A(a)),
                        ("aty", J::A(at)),
                        ("d", self.place(body, destination)),
                        ("rty", { let t = destination.ty(&body.local_decls, tcx).ty; self.ty(t) }),
                        ("to", target.map_or(J::N, |b| i(b.as_usize()))),
                        ("unwind", self.unwind(unwind)),
                    ]
                }
                TerminatorKind::Assert { cond, expected, msg, target, unwind } => vec![
                    ("t", s("assert")),
                    ("o", self.operand(body, cond, env)),
                    ("exp", J::B(*expected)),
                    ("msg", s(format!("{:?}", msg).chars().take(40).collect::<String>())),
                    ("to", i(target.as_usize())),
                    ("unwind", self.unwind(unwind)),
                ],
                TerminatorKind::FalseEdge { real_target, .. } => vec![("t", s("goto")), ("to", i(real_target.as_usize()))],
                TerminatorKind::FalseUnwind { real_target, .. } => vec![("t", s("goto")), ("to", i(real_target.as_usize()))],
                x => vec![("t", s("other")), ("text", s(format!("{:?}", x)))],
            };
            o.push(("sp", s(sp)));
            blocks.push(J::O(vec![("s", J::A(st)), ("t", J::O(o)), ("cleanup", J::B(b.is_cleanup))]));
        }
        let impl_of = tcx.impl_of_assoc(d);
        let self_ty = impl_of.map(|im| {
            let t = tcx.type_of(im).instantiate_identity().skip_norm_wip();
            with_no_trimmed_paths!(with_no_visible_paths!(with_crate_prefix!(t.to_string())))
        });
        let trait_ = impl_of.and_then(|im| tcx.impl_opt_trait_ref(im)).map(|t| self.path(t.skip_binder().def_id));
        let derived = impl_of.is_some_and(|im| tcx.is_automatically_derived(im));
        J::O(vec![
            ("key", s(key)),
            ("path", s(self.path(d))),
            ("name", s(tcx.opt_item_name(d).map_or(String::new(), |n| n.to_string()))),
            ("kind", s(kind)),
            ("self", self_ty.map_or(J::N, s)),
            ("trait", trait_.map_or(J::N, s)),
            ("derived", J::B(derived)),
            ("pub", J::B(matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) && tcx.visibility(d).is_public())),
            ("span", s(self.span(tcx.def_span(d)))),
            ("argc", i(body.arg_count)),
            ("spread", body.spread_arg.map_or(J::N, |l| i(l.as_usize()))),
            ("locals", J::A(locals)),
            ("blocks", J::A(blocks)),
        ])
    }
}

struct Cb;
impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let Ok(out) = std::env::var("SEIREN_MIR_OUT") else { return Compilation::Continue };
        let mut cx = Cx { tcx, tys: vec![], ty_ids: HashMap::new(), adts: HashMap::new(), adt_order: vec![], work: vec![], seen: HashMap::new(), mono: false };
        let mut bodies = vec![];
        for ld in tcx.mir_keys(()) {
            let d = ld.to_def_id();
            let kind = tcx.def_kind(d);
            let k = cx.key(d);
            match kind {
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {
                    let b = tcx.optimized_mir(d);
                    bodies.push(cx.body(d, k.clone(), b, if kind == DefKind::Closure { "closure" } else { "fn" }));
                }
                DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } | DefKind::AnonConst => {
                    let b = tcx.mir_for_ctfe(d);
                    bodies.push(cx.body(d, k.clone(), b, if matches!(kind, DefKind::Static { .. }) { "static" } else { "const" }));
                }
                _ => continue,
            }
            for (p, b) in tcx.promoted_mir(d).iter_enumerated() {
                let pk = format!("{}::promoted[{}]", k, p.as_usize());
                bodies.push(cx.body(d, pk, b, "promoted"));
            }
        }
        // Generic functions and closures as they are used
        let mut insts = vec![];
        while let Some((k, inst)) = cx.work.pop() {
            let d = inst.def_id();
            let b = tcx.instance_mir(inst.def).clone();
            let b = inst.instantiate_mir_and_normalize_erasing_regions(tcx, TypingEnv::fully_monomorphized(), ty::EarlyBinder::bind(tcx, b));
            let kind = if tcx.def_kind(d) == DefKind::Closure { "closure" } else { "fn" };
            let key = cx.key(d);
            cx.mono = true;
            let J::O(mut o) = cx.body(d, key, &b, kind) else { continue };
            cx.mono = false;
            o.push(("ik", s(k)));
            insts.push(J::O(o));
        }
        let adts: Vec<J> = cx.adt_order.clone().iter().map(|d| cx.adts.remove(d).unwrap()).collect();
        let tys = std::mem::take(&mut cx.tys);
        let kind = if tcx.crate_types().iter().any(|t| format!("{:?}", t) == "Executable") { "bin" } else { "lib" };
        let name = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
        let j = J::O(vec![("crate", s(name.clone())), ("kind", s(kind)), ("types", J::A(tys)), ("adts", J::A(adts)), ("bodies", J::A(bodies)), ("insts", J::A(insts))]);
        let mut o = String::new();
        j.write(&mut o);
        std::fs::write(format!("{}/{}-{}.json", out, name, kind), o).expect("cannot write the MIR dump");
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    // As RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of the real rustc.
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    rustc_driver::catch_with_exit_code(move || rustc_driver::compiler_entrypoint(&args, &mut Cb))
}
