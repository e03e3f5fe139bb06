#![feature(rustc_private)]
//! rustc driver: acts as rustc (RUSTC_WORKSPACE_WRAPPER) and, for the crates named in
//! MIRDUMP_CRATES, writes the type-checked program (MIR, resolved callees, ADTs, constants)
//! as JSON to $MIRDUMP_OUT/<crate>.json.  It never runs the code it inspects.
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_driver_impl;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_interface::interface::Compiler;
use rustc_middle::mir::{self, *};
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths, with_resolve_crate_name};
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use serde_json::{json, Map, Value};

struct Cb;

impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let name = tcx.crate_name(LOCAL_CRATE).to_string();
        let want = std::env::var("MIRDUMP_CRATES").unwrap_or_default();
        if want.split(',').any(|w| w == name) {
            let out = std::env::var("MIRDUMP_OUT").expect("MIRDUMP_OUT");
            let v = with_no_trimmed_paths!(dump(tcx, &name));
            std::fs::write(format!("{out}/{name}.json"), serde_json::to_string(&v).unwrap()).unwrap();
        }
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].ends_with("rustc.exe")) {
        args.remove(1);
    }
    args.push("-Zmir-opt-level=0".into());
    args.push("-Zinline-mir=no".into());
    args.push("-Cdebug-assertions=off".into());
    args.push("-Coverflow-checks=on".into());
    rustc_driver_impl::compiler_entrypoint(&args, &mut Cb);
}

fn span(tcx: TyCtxt<'_>, s: Span) -> Value {
    let s = s.source_callsite();
    let lo = tcx.sess.source_map().lookup_char_pos(s.lo());
    let f = lo.file.name.prefer_local_unconditionally().to_string();
    json!([f, lo.line])
}

/// the name of an item: as rustc prints it, or (MIRDUMP_KEYS) a name that is the same in every crate
fn nm(tcx: TyCtxt<'_>, did: DefId) -> String {
    static KEYS: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();
    let ks = KEYS.get_or_init(|| {
        std::env::var("MIRDUMP_KEYS").unwrap_or_default().split(',').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect()
    });
    if !ks.is_empty() && ks.iter().any(|k| *k == tcx.crate_name(did.krate).as_str()) {
        return with_no_visible_paths!(with_resolve_crate_name!(tcx.def_path_str(did)));
    }
    tcx.def_path_str(did)
}

fn tys(t: Ty<'_>) -> String {
    format!("{t}")
}

fn dump<'tcx>(tcx: TyCtxt<'tcx>, name: &str) -> Value {
    let mut fns = Vec::new();
    let mut adts = Map::new();
    for id in tcx.hir_body_owners() {
        let did = id.to_def_id();
        let kind = tcx.def_kind(did);
        let body = match kind {
            DefKind::Fn | DefKind::AssocFn | DefKind::Closure => tcx.optimized_mir(did),
            DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } | DefKind::AnonConst => {
                tcx.mir_for_ctfe(did)
            }
            _ => continue,
        };
        fns.push(dump_body(tcx, did, kind, body));
    }
    for id in tcx.hir_crate_items(()).definitions() {
        let did = id.to_def_id();
        if matches!(tcx.def_kind(did), DefKind::Struct | DefKind::Enum | DefKind::Union) {
            let adt = tcx.adt_def(did);
            adts.insert(nm(tcx, did), dump_adt(tcx, adt));
        }
    }
    json!({"crate": name, "fns": fns, "adts": adts})
}

fn dump_adt<'tcx>(tcx: TyCtxt<'tcx>, adt: ty::AdtDef<'tcx>) -> Value {
    let mut vs = Vec::new();
    let discrs: Vec<String> = if adt.is_enum() {
        adt.discriminants(tcx).map(|(_, d)| format!("{}", d.val)).collect()
    } else {
        vec!["0".into()]
    };
    for (i, v) in adt.variants().iter_enumerated() {
        let fs: Vec<Value> = v
            .fields
            .iter()
            .map(|f| json!([f.name.to_string(), tys(tcx.type_of(f.did).instantiate_identity().skip_norm_wip())]))
            .collect();
        vs.push(json!({"name": v.name.to_string(), "discr": discrs[i.as_usize()], "fields": fs}));
    }
    json!({"kind": if adt.is_enum() {"enum"} else if adt.is_union() {"union"} else {"struct"}, "variants": vs})
}

fn dump_body<'tcx>(tcx: TyCtxt<'tcx>, did: DefId, kind: DefKind, body: &Body<'tcx>) -> Value {
    let path = nm(tcx, did);
    let mut o = one_body(tcx, did, body);
    let m = o.as_object_mut().unwrap();
    m.insert("path".into(), json!(path));
    m.insert("kind".into(), json!(format!("{kind:?}")));
    m.insert("span".into(), span(tcx, tcx.def_span(did)));
    let vis = match kind {
        DefKind::Fn | DefKind::AssocFn => tcx.visibility(did).is_public(),
        _ => false,
    };
    m.insert("pub".into(), json!(vis));
    let is_test = tcx
        .hir_attrs(tcx.local_def_id_to_hir_id(did.expect_local()))
        .iter()
        .any(|a| format!("{a:?}").contains("Test"));
    m.insert("test".into(), json!(is_test));
    if matches!(kind, DefKind::AssocFn) {
        if let Some(imp) = tcx.impl_of_assoc(did) {
            m.insert("impl_self".into(), json!(tys(tcx.type_of(imp).instantiate_identity().skip_norm_wip())));
            if let Some(t) = tcx.impl_opt_trait_ref(imp) {
                m.insert("impl_trait".into(), json!(nm(tcx, t.skip_binder().def_id)));
                m.insert("impl_args".into(), json!(t.skip_binder().args.iter().map(|a| format!("{a}")).collect::<Vec<_>>()));
            }
        }
    }
    if matches!(kind, DefKind::Closure) {
        m.insert("parent".into(), json!(nm(tcx, tcx.typeck_root_def_id(did))));
    }
    let promoted: Vec<Value> = match kind {
        DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {
            tcx.promoted_mir(did).iter().map(|b| one_body(tcx, did, b)).collect()
        }
        DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } => {
            tcx.promoted_mir(did).iter().map(|b| one_body(tcx, did, b)).collect()
        }
        _ => vec![],
    };
    m.insert("promoted".into(), json!(promoted));
    o
}

struct Cx<'tcx, 'a> {
    tcx: TyCtxt<'tcx>,
    did: DefId,
    body: &'a Body<'tcx>,
    env: TypingEnv<'tcx>,
}

fn one_body<'tcx>(tcx: TyCtxt<'tcx>, did: DefId, body: &Body<'tcx>) -> Value {
    let env = TypingEnv::post_analysis(tcx, did);
    let cx = Cx { tcx, did, body, env };
    let mut names: Vec<Value> = vec![];
    for v in &body.var_debug_info {
        let val = match &v.value {
            VarDebugInfoContents::Place(p) => cx.place(p),
            VarDebugInfoContents::Const(c) => cx.cnst(c),
        };
        names.push(json!([v.name.to_string(), val]));
    }
    let locals: Vec<Value> = body.local_decls.iter().map(|d| json!(tys(d.ty))).collect();
    let mut blocks = Vec::new();
    for (_bb, data) in body.basic_blocks.iter_enumerated() {
        let stmts: Vec<Value> = data.statements.iter().filter_map(|s| cx.stmt(s)).collect();
        blocks.push(json!({"s": stmts, "t": cx.term(data.terminator()), "c": data.is_cleanup}));
    }
    json!({"argc": body.arg_count, "locals": locals, "names": names, "blocks": blocks})
}

impl<'tcx, 'a> Cx<'tcx, 'a> {
    fn place(&self, p: &Place<'tcx>) -> Value {
        let mut pr = Vec::new();
        let mut pty = mir::PlaceTy::from_ty(self.body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let v = match e {
                ProjectionElem::Deref => json!("*"),
                ProjectionElem::Field(f, _) => {
                    let mut n = Value::Null;
                    if let ty::Adt(adt, _) = pty.ty.kind() {
                        let vi = pty.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                        if (adt.is_struct() || adt.is_enum()) && vi.as_usize() < adt.variants().len() {
                            let vd = adt.variant(vi);
                            if f.as_usize() < vd.fields.len() {
                                n = json!(vd.fields[f].name.to_string());
                            }
                        }
                    }
                    json!(["f", f.as_usize(), n])
                }
                ProjectionElem::Index(l) => json!(["i", l.as_usize()]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => json!(["ci", offset, min_length, from_end]),
                ProjectionElem::Subslice { from, to, from_end } => json!(["ss", from, to, from_end]),
                ProjectionElem::Downcast(n, v) => json!(["d", v.as_usize(), n.map(|s| s.to_string())]),
                other => json!(["x", format!("{other:?}")]),
            };
            pr.push(v);
            pty = pty.projection_ty(self.tcx, e);
        }
        json!({"l": p.local.as_usize(), "p": pr})
    }

    fn op(&self, o: &Operand<'tcx>) -> Value {
        match o {
            Operand::Copy(p) => json!(["cp", self.place(p)]),
            Operand::Move(p) => json!(["mv", self.place(p)]),
            Operand::Constant(c) => json!(["k", self.cnst(c)]),
            #[allow(unreachable_patterns)]
            other => json!(["k", {"ty": "?", "dbg": format!("{other:?}")}]),
        }
    }

    fn fnref(&self, def: DefId, args: ty::GenericArgsRef<'tcx>) -> Value {
        let tcx = self.tcx;
        let mut m = Map::new();
        m.insert("fn".into(), json!(nm(tcx, def)));
        m.insert("ga".into(), json!(args.iter().map(|a| format!("{a}")).collect::<Vec<_>>()));
        m.insert("local".into(), json!(def.is_local()));
        let r = Instance::try_resolve(tcx, self.env, def, args);
        if let Ok(Some(i)) = r {
            let rd = i.def_id();
            if rd != def {
                m.insert("rfn".into(), json!(nm(tcx, rd)));
                m.insert("rlocal".into(), json!(rd.is_local()));
            }
        }
        // `x.into()` through the blanket impl: the `From::from` it means
        if m["fn"] == "std::convert::Into::into" && args.len() == 2 {
            if let Some(from) = tcx.get_diagnostic_item(rustc_span::sym::From) {
                if let Some(meth) = tcx.associated_items(from).in_definition_order().next() {
                    let a = tcx.mk_args(&[args[1], args[0]]);
                    if let Ok(Some(i)) = Instance::try_resolve(tcx, self.env, meth.def_id, a) {
                        m.insert("from".into(), json!(nm(tcx, i.def_id())));
                    }
                }
            }
        }
        Value::Object(m)
    }

    fn cnst(&self, c: &ConstOperand<'tcx>) -> Value {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let mut m = Map::new();
        m.insert("ty".into(), json!(tys(t)));
        if let ty::FnDef(def, args) = t.kind() {
            let args = args.skip_binder();
            m.insert("fnref".into(), self.fnref(*def, args));
            return Value::Object(m);
        }
        if let Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                m.insert("promoted".into(), json!(p.as_usize()));
                m.insert("of".into(), json!(nm(tcx, u.def)));
                return Value::Object(m);
            }
            m.insert("item".into(), json!(nm(tcx, u.def)));
        }
        m.insert("dbg".into(), json!(format!("{}", c.const_)));
        if let Some(s) = c.const_.try_eval_scalar_int(tcx, self.env) {
            let bits = s.to_bits(s.size());
            let v = if t.is_signed() {
                let sz = s.size().bits() as u32;
                let sh = 128 - sz;
                format!("{}", ((bits << sh) as i128) >> sh)
            } else {
                format!("{bits}")
            };
            m.insert("int".into(), json!(v));
            return Value::Object(m);
        }
        if let Ok(val) = c.const_.eval(tcx, self.env, c.span) {
            if let ty::Ref(_, inner, _) = t.kind() {
                if inner.is_str() || matches!(inner.kind(), ty::Slice(e) if *e == tcx.types.u8) {
                    if let Some(b) = val.try_get_slice_bytes_for_diagnostics(tcx) {
                        m.insert(if inner.is_str() { "str" } else { "bytes" }.into(),
                            if inner.is_str() { json!(String::from_utf8_lossy(b)) } else { json!(b.to_vec()) });
                    }
                }
            }
        }
        Value::Object(m)
    }

    fn stmt(&self, s: &Statement<'tcx>) -> Option<Value> {
        let line = span(self.tcx, s.source_info.span)[1].clone();
        match &s.kind {
            StatementKind::Assign(b) => {
                let (p, r) = &**b;
                Some(json!(["=", self.place(p), self.rv(r), line]))
            }
            StatementKind::SetDiscriminant { place, variant_index } => {
                Some(json!(["sd", self.place(place), variant_index.as_usize(), line]))
            }
            _ => None,
        }
    }

    fn rv(&self, r: &Rvalue<'tcx>) -> Value {
        match r {
            Rvalue::Use(o, ..) => json!(["use", self.op(o)]),
            Rvalue::Repeat(o, n) => json!(["rep", self.op(o), format!("{n}")]),
            Rvalue::Ref(_, k, p) => json!(["ref", matches!(k, BorrowKind::Mut { .. }), self.place(p)]),
            Rvalue::RawPtr(_, p) => json!(["ref", true, self.place(p)]),
            Rvalue::Cast(k, o, t) => {
                let from = o.ty(&self.body.local_decls, self.tcx);
                json!(["cast", format!("{k:?}"), self.op(o), tys(*t), tys(from)])
            }
            Rvalue::BinaryOp(b, ops) => {
                let (x, y) = &**ops;
                json!(["bin", format!("{b:?}"), self.op(x), self.op(y), tys(x.ty(&self.body.local_decls, self.tcx))])
            }
            Rvalue::UnaryOp(u, o) => json!(["un", format!("{u:?}"), self.op(o)]),
            Rvalue::Discriminant(p) => {
                let t = p.ty(&self.body.local_decls, self.tcx).ty;
                let mut vs = Vec::new();
                let mut adtp = Value::Null;
                if let ty::Adt(adt, _) = t.kind() {
                    adtp = json!(nm(self.tcx, adt.did()));
                    if adt.is_enum() {
                        for (vi, d) in adt.discriminants(self.tcx) {
                            vs.push(json!([format!("{}", d.val), vi.as_usize(), adt.variant(vi).name.to_string()]));
                        }
                    }
                }
                json!(["discr", self.place(p), vs, adtp])
            }
            Rvalue::Aggregate(k, ops) => {
                let os: Vec<Value> = ops.iter().map(|o| self.op(o)).collect();
                let kd = match &**k {
                    AggregateKind::Array(_) => json!(["array"]),
                    AggregateKind::Tuple => json!(["tuple"]),
                    AggregateKind::Adt(d, vi, _, _, _) => {
                        let adt = self.tcx.adt_def(*d);
                        let v = adt.variant(*vi);
                        json!(["adt", nm(self.tcx, *d), vi.as_usize(), v.name.to_string(),
                               v.fields.iter().map(|f| f.name.to_string()).collect::<Vec<_>>(), adt.is_enum()])
                    }
                    AggregateKind::Closure(d, _) => json!(["closure", nm(self.tcx, *d)]),
                    other => json!(["other", format!("{other:?}")]),
                };
                json!(["agg", kd, os])
            }
            Rvalue::CopyForDeref(p) => json!(["use", ["cp", self.place(p)]]),
            other => json!(["x", format!("{other:?}")]),
        }
    }

    fn term(&self, t: &Terminator<'tcx>) -> Value {
        let sp = span(self.tcx, t.source_info.span);
        match &t.kind {
            TerminatorKind::Goto { target, .. } => json!(["goto", target.as_usize()]),
            TerminatorKind::SwitchInt { discr, targets } => {
                let ty = discr.ty(&self.body.local_decls, self.tcx);
                let ts: Vec<Value> = targets.iter().map(|(v, b)| json!([format!("{v}"), b.as_usize()])).collect();
                json!(["switch", self.op(discr), ts, targets.otherwise().as_usize(), tys(ty), sp])
            }
            TerminatorKind::Return => json!(["ret"]),
            TerminatorKind::UnwindResume => json!(["resume"]),
            TerminatorKind::UnwindTerminate(_) => json!(["abort"]),
            TerminatorKind::Unreachable => json!(["unreachable"]),
            TerminatorKind::Drop { place, target, .. } => {
                let ty = place.ty(&self.body.local_decls, self.tcx).ty;
                json!(["drop", self.place(place), target.as_usize(), tys(ty), sp])
            }
            TerminatorKind::Call { func, args, destination, target, .. } => {
                let f = match func {
                    Operand::Constant(c) => self.cnst(c),
                    o => json!({"dyn": self.op(o)}),
                };
                let as_: Vec<Value> = args.iter().map(|a| self.op(&a.node)).collect();
                let at: Vec<Value> = args.iter().map(|a| json!(tys(a.node.ty(&self.body.local_decls, self.tcx)))).collect();
                json!(["call", f, as_, self.place(destination), target.map(|t| t.as_usize()), sp, at])
            }
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                let (k, ops): (String, Vec<Value>) = match &**msg {
                    AssertKind::BoundsCheck { len, index } => ("bounds".into(), vec![self.op(len), self.op(index)]),
                    AssertKind::Overflow(b, x, y) => (format!("overflow_{b:?}"), vec![self.op(x), self.op(y)]),
                    AssertKind::OverflowNeg(x) => ("overflow_Neg".into(), vec![self.op(x)]),
                    AssertKind::DivisionByZero(x) => ("div0".into(), vec![self.op(x)]),
                    AssertKind::RemainderByZero(x) => ("rem0".into(), vec![self.op(x)]),
                    other => (format!("{other:?}"), vec![]),
                };
                json!(["assert", self.op(cond), expected, k, ops, target.as_usize(), sp])
            }
            TerminatorKind::FalseEdge { real_target, .. } => json!(["goto", real_target.as_usize()]),
            TerminatorKind::FalseUnwind { real_target, .. } => json!(["goto", real_target.as_usize()]),
            other => json!(["x", format!("{other:?}")]),
        }
    }
}
