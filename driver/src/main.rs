#![feature(rustc_private)]
//! MIR exporter: a rustc wrapper that type-checks the crate exactly as cargo would, and then
//! writes the borrow-checked MIR of every function, closure and promoted constant, the item
//! signatures, the ADT definitions and the trait impls of the crate as JSON.
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir::*;
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::fmt::Write as _;

/// A tiny JSON value.
enum J {
    Null,
    B(bool),
    N(String),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}
impl J {
    fn s<T: Into<String>>(t: T) -> J {
        J::S(t.into())
    }
    fn n<T: std::fmt::Display>(t: T) -> J {
        J::N(t.to_string())
    }
    fn write(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::N(n) => o.push_str(n),
            J::S(s) => {
                o.push('"');
                for c in s.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        c if (c as u32) < 0x20 => {
                            let _ = write!(o, "\\u{:04x}", c as u32);
                        }
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.write(o);
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    let _ = write!(o, "\"{}\":", k);
                    x.write(o);
                }
                o.push('}');
            }
        }
    }
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
    #[allow(dead_code)]
    owner: DefId,
    body: Option<&'tcx Body<'tcx>>,
}

fn path(tcx: TyCtxt<'_>, d: DefId) -> String {
    ty::print::with_no_trimmed_paths!(tcx.def_path_str(d))
}

fn span_s(tcx: TyCtxt<'_>, s: Span) -> J {
    let s = s.source_callsite();
    let lo = tcx.sess.source_map().lookup_char_pos(s.lo());
    let name = format!("{}", lo.file.name.prefer_local_unconditionally());
    J::S(format!("{}:{}", name, lo.line))
}

fn args_j<'tcx>(tcx: TyCtxt<'tcx>, args: ty::GenericArgsRef<'tcx>) -> J {
    J::A(args.iter().filter_map(|a| match a.kind() {
        ty::GenericArgKind::Type(t) => Some(ty_j(tcx, t)),
        ty::GenericArgKind::Const(c) => Some(J::O(vec![("k", J::s("const")), ("s", J::S(format!("{:?}", c)))])),
        _ => None,
    }).collect())
}

fn ty_j<'tcx>(tcx: TyCtxt<'tcx>, t: Ty<'tcx>) -> J {
    let k = |k: &str, mut v: Vec<(&'static str, J)>| {
        let mut o = vec![("k", J::s(k))];
        o.append(&mut v);
        J::O(o)
    };
    match t.kind() {
        ty::Bool => k("bool", vec![]),
        ty::Char => k("char", vec![]),
        ty::Int(i) => k("int", vec![("n", J::s(i.name_str()))]),
        ty::Uint(i) => k("uint", vec![("n", J::s(i.name_str()))]),
        ty::Float(f) => k("float", vec![("n", J::s(f.name_str()))]),
        ty::Str => k("str", vec![]),
        ty::Never => k("never", vec![]),
        ty::Adt(d, a) => k("adt", vec![("p", J::S(path(tcx, d.did()))), ("a", args_j(tcx, a))]),
        ty::Array(e, n) => k("array", vec![("t", ty_j(tcx, *e)), ("n", J::S(format!("{}", n)))]),
        ty::Slice(e) => k("slice", vec![("t", ty_j(tcx, *e))]),
        ty::RawPtr(e, _) => k("rawptr", vec![("t", ty_j(tcx, *e))]),
        ty::Ref(_, e, m) => k("ref", vec![("mut", J::B(m.is_mut())), ("t", ty_j(tcx, *e))]),
        ty::FnDef(d, a) => k("fndef", vec![("p", J::S(path(tcx, (*d).into()))), ("a", args_j(tcx, a.skip_binder()))]),
        ty::FnPtr(..) => k("fnptr", vec![]),
        ty::Dynamic(p, _) => {
            let names: Vec<J> = p.iter().map(|b| J::S(match b.skip_binder() {
                ty::ExistentialPredicate::Trait(t) => path(tcx, t.def_id.into()),
                ty::ExistentialPredicate::AutoTrait(d) => path(tcx, d.into()),
                ty::ExistentialPredicate::Projection(_) => "<projection>".to_string(),
            })).collect();
            k("dyn", vec![("p", J::A(names))])
        }
        ty::Closure(d, _) => k("closure", vec![("p", J::S(path(tcx, (*d).into())))]),
        ty::Tuple(ts) => k("tuple", vec![("a", J::A(ts.iter().map(|t| ty_j(tcx, t)).collect()))]),
        ty::Param(p) => k("param", vec![("n", J::s(p.name.as_str()))]),
        ty::Alias(_, a) => {
            let mut v = vec![("s", J::S(format!("{}", t)))];
            if let ty::AliasTyKind::Projection { def_id } = a.kind {
                v.push(("trait", J::S(path(tcx, tcx.parent({ let x: DefId = def_id.into(); x })))));
                v.push(("name", J::s({ let x: DefId = def_id.into(); tcx.item_name(x) }.as_str())));
                v.push(("a", args_j(tcx, a.args)));
            }
            k("alias", v)
        }
        _ => k("other", vec![("s", J::S(format!("{}", t)))]),
    }
}

impl<'tcx> Cx<'tcx> {
    fn place(&self, p: &Place<'tcx>) -> J {
        let tcx = self.tcx;
        let pr = p.as_ref().iter_projections().map(|(base, e)| match e {
            ProjectionElem::Deref => J::s("*"),
            ProjectionElem::Field(f, t) => {
                let mut o = vec![("f", J::n(f.as_usize())), ("t", ty_j(tcx, t))];
                if let Some(body) = self.body {
                    let pt = base.ty(body, tcx);
                    match pt.ty.kind() {
                        ty::Adt(d, _) => {
                            let vi = pt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            let v = d.variant(vi);
                            o.push(("ad", J::S(path(tcx, d.did()))));
                            o.push(("v", J::n(vi.as_usize())));
                            o.push(("n", J::n(v.fields.len())));
                            o.push(("name", J::s(v.fields[f].name.as_str())));
                        }
                        ty::Tuple(ts) => {
                            o.push(("ad", J::s("()")));
                            o.push(("v", J::n(0)));
                            o.push(("n", J::n(ts.len())));
                        }
                        ty::Closure(d, a) => {
                            o.push(("ad", J::S(path(tcx, *d))));
                            o.push(("v", J::n(0)));
                            o.push(("n", J::n(a.as_closure().upvar_tys().len())));
                        }
                        _ => {}
                    }
                }
                J::O(o)
            }
            ProjectionElem::Index(l) => J::O(vec![("i", J::n(l.as_usize()))]),
            ProjectionElem::ConstantIndex { offset, from_end, min_length } => J::O(vec![
                ("ci", J::n(offset)), ("fe", J::B(from_end)), ("min", J::n(min_length))]),
            ProjectionElem::Subslice { from, to, from_end } => J::O(vec![
                ("sub", J::A(vec![J::n(from), J::n(to)])), ("fe", J::B(from_end))]),
            ProjectionElem::Downcast(n, v) => J::O(vec![
                ("dc", J::n(v.as_usize())), ("n", n.map_or(J::Null, |n| J::s(n.as_str())))]),
            _ => J::s("?"),
        }).collect();
        J::A(vec![J::n(p.local.as_usize()), J::A(pr)])
    }

    fn fn_j(&self, def: DefId, args: ty::GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o = vec![("fn", J::S(path(tcx, def))), ("a", args_j(tcx, args)), ("local", J::B(def.is_local()))];
        o.push(("crate", J::s(tcx.crate_name(def.krate).as_str())));
        if matches!(tcx.def_kind(def), DefKind::AssocFn) {
            if let Some(tr) = tcx.trait_of_assoc(def) {
                o.push(("trait", J::S(path(tcx, tr))));
                o.push(("name", J::s(tcx.item_name(def).as_str())));
                o.push(("self", ty_j(tcx, args.type_at(0))));
                o.push(("default", J::B(tcx.defaultness(def).has_value())));
            }
        }
        if matches!(tcx.def_kind(def), DefKind::Fn | DefKind::AssocFn | DefKind::Ctor(..)) {
            let args = tcx.erase_and_anonymize_regions(args);
            if let Ok(Some(inst)) = Instance::try_resolve(tcx, self.env, def, args) {
                let rd = inst.def_id();
                o.push(("res", J::S(path(tcx, rd))));
                o.push(("rlocal", J::B(rd.is_local())));
                o.push(("rself", match tcx.impl_of_assoc(rd) {
                    Some(i) => ty_j(tcx, tcx.type_of(i).skip_binder()),
                    None => J::Null,
                }));
            }
        }
        if let DefKind::Ctor(..) = tcx.def_kind(def) {
            o.push(("ctor", J::B(true)));
        }
        J::O(o)
    }

    fn constant(&self, c: &ConstOperand<'tcx>) -> J {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let mut o = vec![("ty", ty_j(tcx, t))];
        if let ty::FnDef(d, a) = t.kind() {
            o.push(("callee", self.fn_j((*d).into(), a.skip_binder())));
            return J::O(vec![("c", J::O(o))]);
        }
        if let Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                o.push(("promoted", J::n(p.as_usize())));
                o.push(("of", J::S(path(tcx, u.def))));
                return J::O(vec![("c", J::O(o))]);
            }
            o.push(("uneval", J::S(path(tcx, u.def))));
        }
        match t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) => {
                if let Some(s) = c.const_.try_eval_scalar_int(tcx, self.env) {
                    let size = s.size();
                    let bits = s.to_bits(size);
                    let v = match t.kind() {
                        ty::Int(_) => J::S(format!("{}", size.sign_extend(bits))),
                        ty::Float(ty::FloatTy::F64) => J::S(format!("{:?}", f64::from_bits(bits as u64))),
                        ty::Float(ty::FloatTy::F32) => J::S(format!("{:?}", f32::from_bits(bits as u32))),
                        _ => J::S(format!("{}", bits)),
                    };
                    o.push(("v", v));
                }
            }
            _ => {}
        }
        if let Const::Val(rustc_middle::mir::ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Ptr(p, _)), _) = c.const_ {
            let (prov, off) = p.prov_and_relative_offset();
            if off.bytes() == 0 {
                if let Some(rustc_middle::mir::interpret::GlobalAlloc::Static(d)) = tcx.try_get_global_alloc(prov.alloc_id()) {
                    o.push(("static", J::S(path(tcx, d))));
                }
            }
        }
        let dbg = ty::print::with_no_trimmed_paths!(format!("{}", c.const_));
        o.push(("s", J::S(dbg)));
        J::O(vec![("c", J::O(o))])
    }

    fn operand(&self, op: &Operand<'tcx>) -> J {
        match op {
            Operand::Copy(p) => J::O(vec![("cp", self.place(p))]),
            Operand::Move(p) => J::O(vec![("mv", self.place(p))]),
            Operand::Constant(c) => self.constant(c),
            _ => J::O(vec![("rt", J::S(format!("{:?}", op)))]),
        }
    }

    fn rvalue(&self, r: &Rvalue<'tcx>) -> J {
        let tcx = self.tcx;
        let k = |k: &str, mut v: Vec<(&'static str, J)>| {
            let mut o = vec![("r", J::s(k))];
            o.append(&mut v);
            J::O(o)
        };
        match r {
            Rvalue::Use(o, ..) => k("use", vec![("o", self.operand(o))]),
            Rvalue::Repeat(o, n) => k("repeat", vec![("o", self.operand(o)), ("n", J::S(format!("{}", n)))]),
            Rvalue::Ref(_, b, p) => k("ref", vec![
                ("m", J::B(matches!(b, BorrowKind::Mut { .. }))), ("p", self.place(p))]),
            Rvalue::RawPtr(_, p) => k("raw", vec![("p", self.place(p))]),
            Rvalue::CopyForDeref(p) => k("use", vec![("o", J::O(vec![("cp", self.place(p))]))]),
            Rvalue::Cast(c, o, t) => k("cast", vec![
                ("c", J::S(format!("{:?}", c))), ("o", self.operand(o)), ("ty", ty_j(tcx, *t))]),
            Rvalue::BinaryOp(b, ab) => k("bin", vec![
                ("op", J::S(format!("{:?}", b))), ("ty", self.body.map_or(J::Null, |bd| ty_j(tcx, ab.0.ty(bd, tcx)))), ("a", self.operand(&ab.0)), ("b", self.operand(&ab.1))]),
            Rvalue::UnaryOp(u, a) => k("un", vec![("op", J::S(format!("{:?}", u))), ("ty", self.body.map_or(J::Null, |bd| ty_j(tcx, a.ty(bd, tcx)))), ("a", self.operand(a))]),
            Rvalue::Discriminant(p) => k("discr", vec![("p", self.place(p)), ("ty", self.body.map_or(J::Null, |bd| ty_j(tcx, p.ty(bd, tcx).ty)))]),
            Rvalue::Aggregate(a, os) => {
                let os = J::A(os.iter().map(|o| self.operand(o)).collect());
                let kind = match &**a {
                    AggregateKind::Array(_) => vec![("kind", J::s("array"))],
                    AggregateKind::Tuple => vec![("kind", J::s("tuple"))],
                    AggregateKind::Adt(d, v, _, _, _) => {
                        let ad = tcx.adt_def(*d);
                        vec![("kind", J::s("adt")), ("adt", J::S(path(tcx, *d))), ("variant", J::n(v.as_usize())),
                             ("vname", J::s(ad.variant(*v).name.as_str()))]
                    }
                    AggregateKind::Closure(d, _) => vec![("kind", J::s("closure")), ("closure", J::S(path(tcx, *d)))],
                    _ => vec![("kind", J::s("other"))],
                };
                let mut v = kind;
                v.push(("os", os));
                k("agg", v)
            }
            _ => k("other", vec![("s", J::S(format!("{:?}", r)))]),
        }
    }

    fn body(&self, body: &Body<'tcx>) -> Vec<(&'static str, J)> {
        let tcx = self.tcx;
        let mut names: Vec<Option<String>> = vec![None; body.local_decls.len()];
        let mut upv = vec![];
        for vdi in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = vdi.value {
                if p.projection.is_empty() {
                    names[p.local.as_usize()] = Some(vdi.name.to_string());
                } else {
                    upv.push(J::A(vec![J::s(vdi.name.as_str()), self.place(&p)]));
                }
            }
        }
        let locals = body.local_decls.iter_enumerated().map(|(l, d)| J::O(vec![
            ("ty", ty_j(tcx, d.ty)),
            ("n", names[l.as_usize()].clone().map_or(J::Null, J::S)),
        ])).collect();
        let blocks = body.basic_blocks.iter().map(|bb| {
            let mut ss = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(pr) => ss.push(J::O(vec![
                        ("p", self.place(&pr.0)), ("v", self.rvalue(&pr.1)), ("sp", span_s(tcx, s.source_info.span))])),
                    StatementKind::SetDiscriminant { place, variant_index } => ss.push(J::O(vec![
                        ("setdiscr", self.place(place)), ("variant", J::n(variant_index.as_usize()))])),
                    StatementKind::Intrinsic(i) => ss.push(J::O(vec![("intrinsic", J::S(format!("{:?}", i)))])),
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = span_s(tcx, t.source_info.span);
            let tgt = |b: BasicBlock| J::n(b.as_usize());
            let k = |k: &str, mut v: Vec<(&'static str, J)>| {
                let mut o = vec![("k", J::s(k)), ("sp", sp)];
                o.append(&mut v);
                J::O(o)
            };
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => k("goto", vec![("t", tgt(*target))]),
                TerminatorKind::SwitchInt { discr, targets } => k("switch", vec![
                    ("o", self.operand(discr)),
                    ("ty", ty_j(tcx, discr.ty(body, tcx))),
                    ("ts", J::A(targets.iter().map(|(v, b)| J::A(vec![J::S(v.to_string()), tgt(b)])).collect())),
                    ("else", tgt(targets.otherwise())),
                ]),
                TerminatorKind::Return => k("return", vec![]),
                TerminatorKind::Unreachable => k("unreachable", vec![]),
                TerminatorKind::Drop { place, target, .. } => k("drop", vec![
                    ("p", self.place(place)), ("ty", ty_j(tcx, place.ty(body, tcx).ty)), ("t", tgt(*target))]),
                TerminatorKind::Call { func, args, destination, target, .. } => k("call", vec![
                    ("f", self.operand(func)),
                    ("fty", ty_j(tcx, func.ty(body, tcx))),
                    ("args", J::A(args.iter().map(|a| self.operand(&a.node)).collect())),
                    ("tys", J::A(args.iter().map(|a| ty_j(tcx, a.node.ty(body, tcx))).collect())),
                    ("d", self.place(destination)),
                    ("dty", ty_j(tcx, destination.ty(body, tcx).ty)),
                    ("t", target.map_or(J::Null, tgt)),
                ]),
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let (kind, ops): (String, Vec<J>) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => ("bounds".into(), vec![self.operand(len), self.operand(index)]),
                        AssertKind::Overflow(op, a, b) => (format!("overflow:{:?}", op), vec![self.operand(a), self.operand(b)]),
                        AssertKind::OverflowNeg(a) => ("overflow:Neg".into(), vec![self.operand(a)]),
                        AssertKind::DivisionByZero(a) => ("divzero".into(), vec![self.operand(a)]),
                        AssertKind::RemainderByZero(a) => ("remzero".into(), vec![self.operand(a)]),
                        _ => ("other".into(), vec![]),
                    };
                    k("assert", vec![("o", self.operand(cond)), ("exp", J::B(*expected)),
                        ("msg", J::S(kind)), ("ops", J::A(ops)), ("t", tgt(*target))])
                }
                TerminatorKind::FalseEdge { real_target, .. } => k("goto", vec![("t", tgt(*real_target))]),
                TerminatorKind::FalseUnwind { real_target, .. } => k("goto", vec![("t", tgt(*real_target))]),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => k("unwind", vec![]),
                x => k("other", vec![("s", J::S(format!("{:?}", x)))]),
            };
            J::O(vec![("s", J::A(ss)), ("t", tj), ("cleanup", J::B(bb.is_cleanup))])
        }).collect();
        vec![
            ("argc", J::n(body.arg_count)),
            ("spread", body.spread_arg.map_or(J::Null, |l| J::n(l.as_usize()))),
            ("locals", J::A(locals)),
            ("upv", J::A(upv)),
            ("blocks", J::A(blocks)),
        ]
    }
}

fn vis_s(tcx: TyCtxt<'_>, d: DefId) -> J {
    match tcx.visibility(d) {
        ty::Visibility::Public => J::s("pub"),
        ty::Visibility::Restricted(m) => {
            if m.is_crate_root() { J::s("crate") } else { J::S(format!("in {}", path(tcx, m.to_def_id()))) }
        }
    }
}

fn generics_j(tcx: TyCtxt<'_>, d: DefId) -> J {
    let mut out = vec![];
    let g = tcx.generics_of(d);
    for i in 0..g.count() {
        let p = g.param_at(i, tcx);
        if matches!(p.kind, ty::GenericParamDefKind::Type { .. }) {
            out.push(J::s(p.name.as_str()));
        }
    }
    J::A(out)
}

fn preds_j<'tcx>(tcx: TyCtxt<'tcx>, d: DefId) -> J {
    let mut out = vec![];
    let preds = tcx.clauses_of(d).instantiate_identity(tcx);
    for p in preds.clauses.iter() {
        let p = (*p).skip_norm_wip();
        if let ty::ClauseKind::Trait(t) = p.kind().skip_binder() {
            out.push(J::A(vec![
                ty_j(tcx, t.self_ty()),
                J::S(path(tcx, t.def_id().into())),
                J::S(format!("{}", t.trait_ref)),
            ]));
        }
    }
    J::A(out)
}

struct Cb {
    out: String,
}

impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let eff = tcx.effective_visibilities(());
        let mut fns = vec![];
        let keys: Vec<LocalDefId> = tcx.mir_keys(()).iter().copied().collect();
        for ld in keys {
            let d = ld.to_def_id();
            let kind = tcx.def_kind(d);
            let is_fn = matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Closure);
            if !is_fn && !matches!(kind, DefKind::Const { .. } | DefKind::Static { .. } | DefKind::AssocConst { .. }) {
                continue;
            }
            let mk = |b: &'tcx Body<'tcx>| Cx { tcx, env: TypingEnv::post_analysis(tcx, ld), owner: d, body: Some(b) };
            let mut o = vec![
                ("path", J::S(path(tcx, d))),
                ("kind", J::S(format!("{:?}", kind))),
                ("span", span_s(tcx, tcx.def_span(d))),
            ];
            if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
                o.push(("name", J::s(tcx.item_name(d).as_str())));
                o.push(("vis", vis_s(tcx, d)));
                o.push(("reach", J::B(eff.is_reachable(ld))));
                o.push(("exported", J::B(eff.is_exported(ld))));
                o.push(("generics", generics_j(tcx, d)));
                o.push(("preds", preds_j(tcx, d)));
                let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip().skip_binder();
                o.push(("unsafe", J::B(!sig.safety().is_safe())));
                o.push(("inputs", J::A(sig.inputs().iter().map(|t| ty_j(tcx, *t)).collect())));
                o.push(("output", ty_j(tcx, sig.output())));
                if let Some(i) = tcx.impl_of_assoc(d) {
                    o.push(("impl_self", ty_j(tcx, tcx.type_of(i).skip_binder())));
                    if let Some(tr) = tcx.impl_opt_trait_id(i) {
                        o.push(("impl_trait", J::S(path(tcx, tr.into()))));
                    }
                }
                if let Some(tr) = tcx.trait_of_assoc(d) {
                    o.push(("in_trait", J::S(path(tcx, tr))));
                }
            } else if kind == DefKind::Closure {
                o.push(("parent", J::S(path(tcx, tcx.typeck_root_def_id(d)))));
            }
            let body: &Body<'tcx> = if is_fn { tcx.optimized_mir(d) } else { tcx.mir_for_ctfe(d) };
            o.append(&mut mk(body).body(body));
            let proms = tcx.promoted_mir(d);
            o.push(("promoted", J::A(proms.iter().map(|b| J::O(mk(b).body(b))).collect())));
            fns.push(J::O(o));
        }
        // ADTs, impls, unsafe
        let mut adts = vec![];
        let mut impls = vec![];
        let mut traits = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let d = id.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    let a = tcx.adt_def(d);
                    let vs = a.variants().iter().map(|v| J::O(vec![
                        ("name", J::s(v.name.as_str())),
                        ("fields", J::A(v.fields.iter().map(|f| J::O(vec![
                            ("name", J::s(f.name.as_str())),
                            ("vis", vis_s(tcx, f.did)),
                            ("ty", ty_j(tcx, tcx.type_of(f.did).skip_binder())),
                        ])).collect())),
                    ])).collect();
                    adts.push(J::O(vec![
                        ("path", J::S(path(tcx, d))),
                        ("kind", J::S(format!("{:?}", tcx.def_kind(d)))),
                        ("span", span_s(tcx, tcx.def_span(d))),
                        ("vis", vis_s(tcx, d)),
                        ("reach", J::B(eff.is_reachable(id))),
                        ("preds", preds_j(tcx, d)),
                        ("variants", J::A(vs)),
                    ]));
                }
                DefKind::Impl { .. } => {
                    let tr = tcx.impl_opt_trait_id(d).map_or(J::Null, |t| J::S(path(tcx, t.into())));
                    let safety = if let Some(h) = tcx.impl_opt_trait_ref(d).map(|_| tcx.impl_trait_header(d)) {
                        J::B(!h.safety.is_safe())
                    } else { J::B(false) };
                    impls.push(J::O(vec![
                        ("trait", tr),
                        ("self", ty_j(tcx, tcx.type_of(d).skip_binder())),
                        ("self_s", J::S(format!("{}", tcx.type_of(d).skip_binder()))),
                        ("unsafe", safety),
                        ("span", span_s(tcx, tcx.def_span(d))),
                        ("items", J::A(tcx.associated_item_def_ids(d).iter().map(|i| J::S(path(tcx, *i))).collect())),
                        ("types", J::A(tcx.associated_items(d).in_definition_order().filter(|i| i.is_type()).map(|i| J::A(vec![
                            J::s(i.name().as_str()), ty_j(tcx, tcx.type_of(i.def_id).skip_binder())])).collect())),
                    ]));
                }
                DefKind::Trait => {
                    traits.push(J::O(vec![
                        ("path", J::S(path(tcx, d))),
                        ("preds", preds_j(tcx, d)),
                        ("reach", J::B(eff.is_reachable(id))),
                        ("items", J::A(tcx.associated_items(d).in_definition_order().map(|i| J::O(vec![
                            ("name", J::s(i.name().as_str())),
                            ("path", J::S(path(tcx, i.def_id))),
                            ("default", J::B(tcx.defaultness(i.def_id).has_value())),
                        ])).collect())),
                    ]));
                }
                _ => {}
            }
        }
        // unsafe blocks
        struct V<'tcx> { tcx: TyCtxt<'tcx>, out: Vec<J> }
        impl<'tcx> rustc_hir::intravisit::Visitor<'tcx> for V<'tcx> {
            type NestedFilter = rustc_middle::hir::nested_filter::All;
            fn maybe_tcx(&mut self) -> TyCtxt<'tcx> { self.tcx }
            fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
                if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) = b.rules {
                    self.out.push(span_s(self.tcx, b.span));
                }
                rustc_hir::intravisit::walk_block(self, b);
            }
        }
        let mut v = V { tcx, out: vec![] };
        tcx.hir_walk_toplevel_module(&mut v);
        let files: Vec<J> = tcx.sess.source_map().files().iter()
            .filter(|f| f.cnum == rustc_hir::def_id::LOCAL_CRATE)
            .map(|f| J::S(format!("{}", f.name.prefer_local_unconditionally()))).collect();
        let root = J::O(vec![
            ("crate", J::s(tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).as_str())),
            ("files", J::A(files)),
            ("fns", J::A(fns)),
            ("adts", J::A(adts)),
            ("impls", J::A(impls)),
            ("traits", J::A(traits)),
            ("unsafe_blocks", J::A(v.out)),
        ]);
        let mut s = String::new();
        root.write(&mut s);
        let tmp = format!("{}.tmp{}", self.out, std::process::id());
        std::fs::write(&tmp, s).expect("write dump");
        std::fs::rename(&tmp, &self.out).expect("rename dump");
        Compilation::Continue
    }
}

struct Plain;
impl Callbacks for Plain {}

fn main() -> std::process::ExitCode {
    rustc_driver::catch_with_exit_code(real_main)
}

fn real_main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].ends_with("rustc.exe")) {
        args.remove(1);
    }
    let name = args.windows(2).find(|w| w[0] == "--crate-name").map(|w| w[1].clone());
    let want = std::env::var("MIRDUMP_CRATE").unwrap_or_default();
    let test = args.iter().any(|a| a == "--test");
    match (name, std::env::var("MIRDUMP_OUT")) {
        (Some(n), Ok(out)) if n == want && !test => {
            args.push("-Zmir-opt-level=0".into());
            args.push("-Zalways-encode-mir=yes".into());
            args.push("-Coverflow-checks=on".into());
            args.push("-Adeprecated".into());
            if std::env::var("MIRDUMP_RELEASE").is_ok() {
                args.push("-Cdebug-assertions=off".into());
            }
            rustc_driver::compiler_entrypoint(&args, &mut Cb { out });
        }
        _ => {
            rustc_driver::compiler_entrypoint(&args, &mut Plain);
        }
    }
}
