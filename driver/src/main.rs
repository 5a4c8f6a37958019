//! rustc driver: type-checks the crate exactly as the real build does and, for the crate named in
//! SA_CRATE, writes the built MIR of every body (callees resolved through type information),
//! the ADT table, trait impls and field attributes to SA_OUT as JSON.
//! It is injected with RUSTC_WORKSPACE_WRAPPER, so argv[1] is the rustc path.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

mod json;
use json::J;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_interface::interface;
use rustc_middle::mir::*;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::{ExpnKind, Span};
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};

struct Cb {
    out: String,
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: std::collections::BTreeMap<usize, J>,
    type_ix: HashMap<Ty<'tcx>, usize>,
    adts: BTreeMap<String, J>,
    foreign: VecDeque<DefId>,
    foreign_seen: HashSet<DefId>,
}

fn key(tcx: TyCtxt<'_>, d: DefId) -> String {
    format!("{}{}", tcx.crate_name(d.krate), tcx.def_path(d).to_string_no_crate_verbose())
}
fn path(tcx: TyCtxt<'_>, d: DefId) -> String {
    let p = with_no_trimmed_paths!(tcx.def_path_str(d));
    if d.is_local() {
        format!("crate::{p}")
    } else {
        p
    }
}

const FOREIGN_OK: &[&str] = &[
    "core::option::",
    "core::result::",
    "core::bool::",
    "core::cmp::",
    "core::num::",
    "core::mem::take",
    "core::mem::replace",
    "core::mem::swap",
    "core::convert::",
    "core::tuple::",
    "core::ops::",
];

impl<'tcx> Cx<'tcx> {
    fn ty(&mut self, t: Ty<'tcx>) -> J {
        J::I(self.ty_ix(t) as i128)
    }
    fn ty_ix(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(&i) = self.type_ix.get(&t) {
            return i;
        }
        // the index is a hash of the type's name, so that it does not depend on the other types
        let name = with_no_trimmed_paths!(t.to_string());
        let mut h: u64 = 0xcbf29ce484222325;
        for b in name.bytes() {
            h = (h ^ b as u64).wrapping_mul(0x100000001b3);
        }
        let i = (h & 0xffff_ffff_ffff) as usize;
        self.type_ix.insert(t, i);
        if self.types.contains_key(&i) {
            return i;
        }
        self.types.insert(i, J::Null);
        let tcx = self.tcx;
        let mut o = vec![("s", J::S(name))];
        match t.kind() {
            ty::Adt(def, args) => {
                o.push(("k", J::s("adt")));
                o.push(("adt", J::S(path(tcx, def.did()))));
                let a: Vec<J> = args.types().map(|t| self.ty(t)).collect();
                o.push(("args", J::A(a)));
                self.adt(def.did());
            }
            ty::Ref(_, inner, m) => {
                o.push(("k", J::s("ref")));
                o.push(("mut", J::B(m.is_mut())));
                let x = self.ty(*inner);
                o.push(("inner", x));
            }
            ty::RawPtr(inner, _) => {
                o.push(("k", J::s("ptr")));
                let x = self.ty(*inner);
                o.push(("inner", x));
            }
            ty::Slice(inner) | ty::Array(inner, _) => {
                o.push(("k", J::s("slice")));
                let x = self.ty(*inner);
                o.push(("inner", x));
            }
            ty::Tuple(ts) => {
                o.push(("k", J::s("tuple")));
                let a: Vec<J> = ts.iter().map(|t| self.ty(t)).collect();
                o.push(("args", J::A(a)));
            }
            ty::Closure(d, args) => {
                o.push(("k", J::s("closure")));
                o.push(("def", J::S(key(tcx, *d))));
                let a: Vec<J> = args.as_closure().upvar_tys().iter().map(|t| self.ty(t)).collect();
                o.push(("args", J::A(a)));
            }
            ty::Coroutine(d, args) => {
                o.push(("k", J::s("coroutine")));
                o.push(("def", J::S(key(tcx, *d))));
                let a: Vec<J> = args.as_coroutine().upvar_tys().iter().map(|t| self.ty(t)).collect();
                o.push(("args", J::A(a)));
            }
            ty::FnDef(d, args) => {
                o.push(("k", J::s("fn")));
                let c = self.callee(*d, args.no_bound_vars().unwrap(), None);
                o.push(("callee", c));
            }
            ty::Dynamic(preds, ..) => {
                o.push(("k", J::s("dyn")));
                if let Some(d) = preds.principal_def_id() {
                    o.push(("trait", J::S(path(tcx, d))));
                }
            }
            ty::Alias(..) => o.push(("k", J::s("alias"))),
            ty::Param(_) => o.push(("k", J::s("param"))),
            _ => o.push(("k", J::s("prim"))),
        }
        self.types.insert(i, J::O(o));
        i
    }

    fn adt(&mut self, d: DefId) {
        let tcx = self.tcx;
        let p = path(tcx, d);
        if self.adts.contains_key(&p) {
            return;
        }
        self.adts.insert(p.clone(), J::Null);
        let def = tcx.adt_def(d);
        let mut vs = vec![];
        for (vi, v) in def.variants().iter_enumerated() {
            let discr = if def.is_enum() {
                J::I(def.discriminant_for_variant(tcx, vi).val as i128)
            } else {
                J::Null
            };
            let fields: Vec<J> = v
                .fields
                .iter()
                .map(|f| {
                    let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                    J::O(vec![
                        ("n", J::S(f.name.to_string())),
                        ("t", J::S(with_no_trimmed_paths!(t.to_string()))),
                        ("vis", J::S(format!("{:?}", f.vis))),
                    ])
                })
                .collect();
            vs.push(J::O(vec![
                ("n", J::S(v.name.to_string())),
                ("d", discr),
                ("f", J::A(fields)),
            ]));
        }
        let kind = if def.is_enum() {
            "enum"
        } else if def.is_union() {
            "union"
        } else {
            "struct"
        };
        let o = J::O(vec![
            ("kind", J::s(kind)),
            ("local", J::B(d.is_local())),
            ("span", self.line(tcx.def_span(d))),
            ("variants", J::A(vs)),
        ]);
        self.adts.insert(p, o);
    }

    fn callee(
        &mut self,
        d: DefId,
        args: ty::GenericArgsRef<'tcx>,
        env: Option<TypingEnv<'tcx>>,
    ) -> J {
        let tcx = self.tcx;
        let mut o = vec![
            ("p", J::S(path(tcx, d))),
            ("key", J::S(key(tcx, d))),
            ("kr", J::S(tcx.crate_name(d.krate).to_string())),
        ];
        if let Some(name) = tcx.opt_item_name(d) {
            o.push(("n", J::S(name.to_string())));
        }
        if let Some(tr) = tcx.trait_of_assoc(d) {
            o.push(("tr", J::S(path(tcx, tr))));
            if let Some(st) = args.types().next() {
                o.push(("st", J::I(self.ty_ix_guard(st))));
            }
        } else if matches!(tcx.def_kind(d), DefKind::AssocFn) {
            if let Some(im) = tcx.impl_of_assoc(d) {
                let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                o.push(("im", J::S(with_no_trimmed_paths!(st.to_string()))));
            }
        }
        let targs: Vec<J> = args
            .types()
            .map(|t| J::S(with_no_trimmed_paths!(t.to_string())))
            .collect();
        o.push(("ta", J::A(targs)));
        if let Some(env) = env {
            if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
                let args = tcx.erase_and_anonymize_regions(args);
                if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, d, args) {
                    let rd = inst.def_id();
                    if rd != d {
                        o.push(("rp", J::S(path(tcx, rd))));
                        o.push(("rkey", J::S(key(tcx, rd))));
                    }
                    if matches!(inst.def, ty::InstanceKind::Virtual(..)) {
                        o.push(("virt", J::B(true)));
                    } else {
                        self.want_foreign(rd);
                    }
                    if rd.is_local() && tcx.is_automatically_derived(tcx.parent(rd)) {
                        o.push(("derived", J::B(true)));
                    }
                } else {
                    self.want_foreign(d);
                }
            }
        }
        J::O(o)
    }
    fn ty_ix_guard(&mut self, t: Ty<'tcx>) -> i128 {
        self.ty_ix(t) as i128
    }
    fn want_foreign(&mut self, d: DefId) {
        if d.is_local() || self.foreign_seen.contains(&d) {
            return;
        }
        let k = key(self.tcx, d);
        if FOREIGN_OK.iter().any(|p| k.starts_with(p)) && self.tcx.is_mir_available(d) {
            self.foreign_seen.insert(d);
            self.foreign.push_back(d);
        }
    }

    fn line(&self, sp: Span) -> J {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        if sp.is_dummy() {
            return J::Null;
        }
        let lo = sm.lookup_char_pos(sp.lo());
        let f = match &lo.file.name {
            rustc_span::FileName::Real(r) => match r.local_path() {
                Some(p) => p.display().to_string(),
                None => String::from("?"),
            },
            _ => String::from("?"),
        };
        J::S(format!("{}:{}", f, lo.line))
    }
    /// Outermost expansion of the span: "crate::macro" for a macro, "~kind" for a desugaring.
    fn mx(&self, sp: Span) -> Option<String> {
        let mut out = None;
        for e in sp.macro_backtrace() {
            match e.kind {
                ExpnKind::Macro(_, name) => {
                    let c = e
                        .macro_def_id
                        .map(|d| self.tcx.crate_name(d.krate).to_string())
                        .unwrap_or_default();
                    out = Some(format!("{c}::{name}"));
                }
                ExpnKind::Desugaring(k) => {
                    out = Some(format!("~{}", k.descr()));
                }
                _ => {}
            }
        }
        out
    }

    fn konst(&mut self, c: &Const<'tcx>, env: TypingEnv<'tcx>, sp: Span) -> J {
        let tcx = self.tcx;
        let t = c.ty();
        let mut o = vec![];
        let ti = self.ty(t);
        o.push(("t", ti));
        if let ty::FnDef(d, args) = t.kind() {
            let ce = self.callee(*d, args.no_bound_vars().unwrap(), Some(env));
            o.push(("fn", ce));
            return J::O(o);
        }
        if let Const::Unevaluated(u, _) = c {
            o.push(("path", J::S(path(tcx, u.def))));
            if let Some(p) = u.promoted {
                o.push(("promoted", J::I(p.as_usize() as i128)));
                o.push(("pkey", J::S(key(tcx, u.def))));
                return J::O(o);
            }
        }
        let v = c.eval(tcx, env, sp);
        match v {
            Ok(ConstValue::Scalar(interpret::Scalar::Int(i))) => {
                let bits = i.to_bits(i.size());
                match t.kind() {
                    ty::Bool => o.push(("b", J::B(bits != 0))),
                    ty::Int(_) => {
                        let sz = i.size();
                        o.push(("i", J::I(sz.sign_extend(bits))))
                    }
                    ty::Uint(_) | ty::Char => o.push(("i", J::Raw(bits.to_string()))),
                    _ => o.push(("x", J::Raw(format!("\"{bits}\"")))),
                }
            }
            Ok(v @ ConstValue::Slice { .. }) => {
                if let Some(bytes) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                    match std::str::from_utf8(bytes) {
                        Ok(s) => o.push(("str", J::S(s.to_string()))),
                        Err(_) => o.push(("hex", J::S(bytes.iter().take(4096).map(|b| format!("{b:02x}")).collect()))),
                    }
                }
            }
            Ok(ConstValue::Scalar(interpret::Scalar::Ptr(p, _)))
                if matches!(t.kind(), ty::Ref(_, a, _) if matches!(a.kind(), ty::Array(e, _) if *e == tcx.types.u8)) =>
            {
                let (prov, off) = p.into_raw_parts();
                if let interpret::GlobalAlloc::Memory(m) = tcx.global_alloc(prov.alloc_id()) {
                    let a = m.inner();
                    let bytes = a.inspect_with_uninit_and_ptr_outside_interpreter(off.bytes_usize()..a.len());
                    o.push(("hex", J::S(bytes.iter().take(4096).map(|b| format!("{b:02x}")).collect())));
                }
            }
            Ok(ConstValue::ZeroSized) => {
                o.push(("zst", J::B(true)));
            }
            _ => {
                o.push(("dbg", J::S(with_no_trimmed_paths!(format!("{c:?}")))));
            }
        }
        J::O(o)
    }

    fn operand(&mut self, b: &Body<'tcx>, op: &Operand<'tcx>, env: TypingEnv<'tcx>) -> J {
        match op {
            Operand::Copy(p) => J::A(vec![J::s("c"), self.place(b, p)]),
            Operand::Move(p) => J::A(vec![J::s("m"), self.place(b, p)]),
            Operand::Constant(c) => J::A(vec![J::s("k"), self.konst(&c.const_, env, c.span)]),
            _ => J::A(vec![J::s("rt")]),
        }
    }

    fn place(&mut self, b: &Body<'tcx>, p: &Place<'tcx>) -> J {
        let tcx = self.tcx;
        let mut out = vec![J::I(p.local.as_usize() as i128)];
        let mut pt = PlaceTy::from_ty(b.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let j = match e {
                ProjectionElem::Deref => J::s("*"),
                ProjectionElem::Field(f, _) => {
                    let owner = match pt.ty.kind() {
                        ty::Adt(def, _) => {
                            self.adt(def.did());
                            let vi = pt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            let v = def.variant(vi);
                            let fname = v.fields[f].name.to_string();
                            let o = path(tcx, def.did());
                            if def.is_enum() {
                                format!("{o}::{}.{fname}", v.name)
                            } else {
                                format!("{o}.{fname}")
                            }
                        }
                        ty::Tuple(_) => format!("({})", f.as_usize()),
                        ty::Closure(d, _) | ty::Coroutine(d, _) => {
                            format!("^{}.{}", key(tcx, *d), f.as_usize())
                        }
                        _ => format!("?{}", f.as_usize()),
                    };
                    J::A(vec![J::s("f"), J::I(f.as_usize() as i128), J::S(owner)])
                }
                ProjectionElem::Index(l) => J::A(vec![J::s("ix"), J::I(l.as_usize() as i128)]),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => J::A(vec![
                    J::s("ci"),
                    J::I(offset as i128),
                    J::B(from_end),
                ]),
                ProjectionElem::Subslice { from, to, from_end } => J::A(vec![
                    J::s("sub"),
                    J::I(from as i128),
                    J::I(to as i128),
                    J::B(from_end),
                ]),
                ProjectionElem::Downcast(_, vi) => {
                    let n = match pt.ty.kind() {
                        ty::Adt(def, _) => def.variant(vi).name.to_string(),
                        _ => format!("{}", vi.as_usize()),
                    };
                    J::A(vec![J::s("d"), J::I(vi.as_usize() as i128), J::S(n)])
                }
                _ => J::s("o"),
            };
            out.push(j);
            pt = pt.projection_ty(tcx, e);
        }
        J::A(out)
    }

    fn rvalue(&mut self, b: &Body<'tcx>, r: &Rvalue<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        match r {
            Rvalue::Use(op, _) => J::A(vec![J::s("use"), self.operand(b, op, env)]),
            Rvalue::Repeat(op, _) => J::A(vec![J::s("rep"), self.operand(b, op, env)]),
            Rvalue::Ref(_, k, p) => {
                let m = matches!(k, BorrowKind::Mut { .. });
                J::A(vec![J::s("ref"), J::B(m), self.place(b, p)])
            }
            Rvalue::RawPtr(_, p) => J::A(vec![J::s("ref"), J::B(true), self.place(b, p)]),
            Rvalue::Reborrow(_, _, p) => J::A(vec![J::s("use"), J::A(vec![J::s("c"), self.place(b, p)])]),
            Rvalue::ThreadLocalRef(d) => J::A(vec![J::s("tls"), J::S(path(tcx, *d))]),
            Rvalue::Cast(k, op, t) => {
                let o = self.operand(b, op, env);
                let t = self.ty(*t);
                J::A(vec![J::s("cast"), J::S(format!("{k:?}")), o, t])
            }
            Rvalue::BinaryOp(op, ab) => {
                let x = self.operand(b, &ab.0, env);
                let y = self.operand(b, &ab.1, env);
                J::A(vec![J::s("bin"), J::S(format!("{op:?}")), x, y])
            }
            Rvalue::UnaryOp(op, a) => {
                let x = self.operand(b, a, env);
                J::A(vec![J::s("un"), J::S(format!("{op:?}")), x])
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(b, tcx).ty;
                let ti = self.ty(t);
                J::A(vec![J::s("discr"), self.place(b, p), ti])
            }
            Rvalue::Aggregate(k, ops) => {
                let ops: Vec<J> = ops.iter().map(|o| self.operand(b, o, env)).collect();
                let head = match &**k {
                    AggregateKind::Array(_) => vec![J::s("arr")],
                    AggregateKind::Tuple => vec![J::s("tup")],
                    AggregateKind::Adt(d, vi, _, _, _) => {
                        self.adt(*d);
                        let def = tcx.adt_def(*d);
                        let v = def.variant(*vi);
                        let names: Vec<J> =
                            v.fields.iter().map(|f| J::S(f.name.to_string())).collect();
                        vec![
                            J::s("adt"),
                            J::S(path(tcx, *d)),
                            J::S(v.name.to_string()),
                            J::B(def.is_enum()),
                            J::A(names),
                        ]
                    }
                    AggregateKind::Closure(d, _) => vec![J::s("clo"), J::S(key(tcx, *d))],
                    AggregateKind::Coroutine(d, _) => vec![J::s("cor"), J::S(key(tcx, *d))],
                    AggregateKind::CoroutineClosure(d, _) => {
                        vec![J::s("corclo"), J::S(key(tcx, *d))]
                    }
                    AggregateKind::RawPtr(..) => vec![J::s("rawptr")],
                };
                J::A(vec![J::s("agg"), J::A(head), J::A(ops)])
            }
            Rvalue::CopyForDeref(p) => {
                J::A(vec![J::s("use"), J::A(vec![J::s("c"), self.place(b, p)])])
            }
            Rvalue::WrapUnsafeBinder(op, _) => J::A(vec![J::s("use"), self.operand(b, op, env)]),
        }
    }

    fn body(&mut self, d: DefId, b: &Body<'tcx>) -> J {
        let tcx = self.tcx;
        let env = TypingEnv::post_analysis(tcx, d);
        let mut blocks = vec![];
        for (_, bb) in b.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for s in &bb.statements {
                let j = match &s.kind {
                    StatementKind::Assign(pr) => {
                        let p = self.place(b, &pr.0);
                        let r = self.rvalue(b, &pr.1, env);
                        vec![J::s("="), p, r]
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(b, place);
                        vec![J::s("sd"), p, J::I(variant_index.as_usize() as i128)]
                    }
                    _ => continue,
                };
                let mut j = j;
                j.push(self.line(s.source_info.span));
                j.push(match self.mx(s.source_info.span) {
                    Some(m) => J::S(m),
                    None => J::Null,
                });
                st.push(J::A(j));
            }
            let t = bb.terminator();
            let mut o: Vec<(&'static str, J)> = vec![];
            let bbj = |x: BasicBlock| J::I(x.as_usize() as i128);
            match &t.kind {
                TerminatorKind::Goto { target, .. } => {
                    o.push(("k", J::s("goto")));
                    o.push(("t", bbj(*target)));
                }
                TerminatorKind::SwitchInt { discr, targets } => {
                    o.push(("k", J::s("switch")));
                    let x = self.operand(b, discr, env);
                    o.push(("d", x));
                    let ti = self.ty(discr.ty(b, tcx));
                    o.push(("ty", ti));
                    let v: Vec<J> = targets
                        .iter()
                        .map(|(v, t)| J::A(vec![J::Raw(v.to_string()), bbj(t)]))
                        .collect();
                    o.push(("v", J::A(v)));
                    o.push(("o", bbj(targets.otherwise())));
                }
                TerminatorKind::Return => o.push(("k", J::s("ret"))),
                TerminatorKind::Unreachable => o.push(("k", J::s("unreachable"))),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => {
                    o.push(("k", J::s("resume")))
                }
                TerminatorKind::Drop { place, target, .. } => {
                    o.push(("k", J::s("drop")));
                    let x = self.place(b, place);
                    o.push(("p", x));
                    o.push(("t", bbj(*target)));
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    o.push(("k", J::s("call")));
                    let f = self.operand(b, func, env);
                    o.push(("f", f));
                    let a: Vec<J> = args.iter().map(|x| self.operand(b, &x.node, env)).collect();
                    o.push(("a", J::A(a)));
                    let dd = self.place(b, destination);
                    o.push(("d", dd));
                    let dt = destination.ty(b, tcx).ty;
                    let dt = self.ty(dt);
                    o.push(("dt", dt));
                    o.push(("t", target.map(bbj).unwrap_or(J::Null)));
                }
                TerminatorKind::Assert { cond, expected, target, .. } => {
                    o.push(("k", J::s("assert")));
                    let c = self.operand(b, cond, env);
                    o.push(("c", c));
                    o.push(("e", J::B(*expected)));
                    o.push(("t", bbj(*target)));
                }
                TerminatorKind::Yield { value, resume, resume_arg, .. } => {
                    o.push(("k", J::s("yield")));
                    let v = self.operand(b, value, env);
                    o.push(("v", v));
                    o.push(("t", bbj(*resume)));
                    let p = self.place(b, resume_arg);
                    o.push(("p", p));
                }
                TerminatorKind::FalseEdge { real_target, .. } => {
                    o.push(("k", J::s("goto")));
                    o.push(("t", bbj(*real_target)));
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    o.push(("k", J::s("goto")));
                    o.push(("t", bbj(*real_target)));
                }
                _ => o.push(("k", J::s("other"))),
            }
            o.push(("ln", self.line(t.source_info.span)));
            if let Some(m) = self.mx(t.source_info.span) {
                o.push(("mx", J::S(m)));
            }
            blocks.push(J::O(vec![
                ("s", J::A(st)),
                ("t", J::O(o)),
                ("cl", J::B(bb.is_cleanup)),
            ]));
        }
        let mut names: Vec<J> = vec![];
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                let p = self.place(b, p);
                names.push(J::A(vec![J::S(v.name.to_string()), p]));
            }
        }
        let locals: Vec<J> = b.local_decls.iter().map(|l| self.ty(l.ty)).collect();
        let kind = if tcx.is_closure_like(d) {
            if tcx.is_coroutine(d) { "coroutine" } else { "closure" }
        } else {
            "fn"
        };
        let mut o = vec![
            ("key", J::S(key(tcx, d))),
            ("path", J::S(path(tcx, d))),
            ("kind", J::s(kind)),
            ("parent", tcx.opt_parent(d).map(|p| J::S(key(tcx, p))).unwrap_or(J::Null)),
            ("span", self.line(tcx.def_span(d))),
            ("nargs", J::I(b.arg_count as i128)),
            ("locals", J::A(locals)),
            ("names", J::A(names)),
            ("blocks", J::A(blocks)),
        ];
        if kind == "fn" {
            o.push(("vis", J::S(format!("{:?}", tcx.visibility(d)))));
            if let Some(im) = tcx.trait_impl_of_assoc(d) {
                let tr = tcx.impl_trait_ref(im);
                let tr = tr.instantiate_identity().skip_norm_wip();
                o.push(("trait", J::S(path(tcx, tr.def_id))));
                let st = with_no_trimmed_paths!(tr.self_ty().to_string());
                o.push(("self_ty", J::S(st)));
                if tcx.is_automatically_derived(im) {
                    o.push(("derived", J::B(true)));
                }
            } else if let Some(im) = tcx.impl_of_assoc(d) {
                let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                o.push(("self_ty", J::S(with_no_trimmed_paths!(st.to_string()))));
            }
        }
        J::O(o)
    }
}

impl Callbacks for Cb {
    fn config(&mut self, config: &mut interface::Config) {
        config.opts.unstable_opts.always_encode_mir = true;
    }
    fn after_expansion<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let mut cx = Cx {
            tcx,
            types: Default::default(),
            type_ix: HashMap::new(),
            adts: BTreeMap::new(),
            foreign: VecDeque::new(),
            foreign_seen: HashSet::new(),
        };
        let mut bodies = vec![];
        let mut missed = vec![];
        // First take a copy of every built body: resolving callees below reveals opaque types,
        // which runs the borrow checker and consumes the built bodies.
        // Type-checking a spawn consumes the bodies of the spawned coroutines, so leaves go first.
        let mut built = vec![];
        let mut owners: Vec<_> = tcx.hir_body_owners().collect();
        owners.sort_by_key(|ld| {
            let k = key(tcx, ld.to_def_id());
            (!k.contains("::generated::"), !k.contains("::communicator::"))
        });
        for ld in owners {
            let d = ld.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {}
                _ => continue,
            }
            let st = tcx.mir_built(ld);
            if st.is_stolen() {
                missed.push(J::S(path(tcx, d)));
                continue;
            }
            built.push((d, st.borrow().clone()));
        }
        for (d, b) in &built {
            bodies.push(cx.body(*d, b));
        }
        // Struct definitions even if no body touches them.
        for id in tcx.hir_crate_items(()).definitions() {
            if matches!(tcx.def_kind(id), DefKind::Struct | DefKind::Enum) {
                cx.adt(id.to_def_id());
            }
        }
        let mut foreign = vec![];
        while let Some(d) = cx.foreign.pop_front() {
            let b = tcx.optimized_mir(d);
            if b.basic_blocks.len() > 60 {
                continue;
            }
            foreign.push(cx.body(d, b));
        }
        let adts: Vec<(String, J)> = std::mem::take(&mut cx.adts).into_iter().collect();
        let out = J::O(vec![
            ("crate", J::S(tcx.crate_name(LOCAL_CRATE).to_string())),
            ("bodies", J::A(bodies)),
            ("foreign", J::A(foreign)),
            ("missed", J::A(missed)),
            ("types", J::A(std::mem::take(&mut cx.types).into_iter().map(|(i, t)| J::A(vec![J::I(i as i128), t])).collect())),
            ("adts", J::M(adts)),
        ]);
        let mut s = String::new();
        out.write(&mut s);
        std::fs::write(&self.out, s).expect("write SA_OUT");
        Compilation::Continue
    }
}

struct Plain;
impl Callbacks for Plain {}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv = [driver, rustc, args...]
    args.remove(0);
    let name = args
        .iter()
        .position(|a| a == "--crate-name")
        .and_then(|i| args.get(i + 1).cloned());
    let want = std::env::var("SA_CRATE").unwrap_or_default();
    let out = std::env::var("SA_OUT").unwrap_or_default();
    let is_lib = args.iter().any(|a| a == "lib" || a == "--crate-type=lib");
    if name.as_deref() == Some(want.as_str()) && is_lib && !out.is_empty() {
        rustc_driver::compiler_entrypoint(&args, &mut Cb { out });
    } else {
        rustc_driver::compiler_entrypoint(&args, &mut Plain);
    }
}
