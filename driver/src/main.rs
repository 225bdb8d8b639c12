//! RUSTC_WORKSPACE_WRAPPER that dumps the type-checked, resolved MIR of the
//! crate being compiled as JSON (one file, path in $MIRDUMP_OUT).
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_hir::def::DefKind;
use rustc_middle::mir::interpret::GlobalAlloc;
use rustc_middle::mir::*;
use rustc_middle::ty::{self, Ty, TyCtxt, TypingEnv};
use rustc_span::def_id::{DefId, LocalDefId};
use rustc_span::Span;
use std::fmt::Write as _;

struct Cb;

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
    body: &'tcx Body<'tcx>,
    owner: DefId,
}

fn path(tcx: TyCtxt<'_>, d: DefId) -> String {
    tcx.def_path_str(d)
}

/// Stable unique path of a definition: crate name + def path with disambiguators.
fn upath(tcx: TyCtxt<'_>, d: DefId) -> String {
    format!("{}{}", tcx.crate_name(d.krate), tcx.def_path(d).to_string_no_crate_verbose())
}

impl<'tcx> Dump<'tcx> {
    fn span(&self, s: Span) -> String {
        let sm = self.tcx.sess.source_map();
        let s = s.source_callsite();
        let lo = sm.lookup_char_pos(s.lo());
        let f = format!("{}", lo.file.name.prefer_local_unconditionally());
        js(&format!("{}:{}:{}", f, lo.line, lo.col.0 + 1))
    }

    fn ty(&self, t: Ty<'tcx>) -> String {
        js(&format!("{}", t))
    }

    fn place(&self, p: &Place<'tcx>) -> String {
        let mut o = format!("{{\"l\":{},\"p\":[", p.local.as_u32());
        let mut pt = PlaceTy::from_ty(self.body.local_decls[p.local].ty);
        for (i, e) in p.projection.iter().enumerate() {
            if i > 0 {
                o.push(',');
            }
            match e {
                ProjectionElem::Deref => o.push_str("[\"*\"]"),
                ProjectionElem::Field(f, _) => {
                    let name = match pt.ty.kind() {
                        ty::Adt(def, _) => {
                            let v = match pt.variant_index {
                                Some(v) => def.variant(v),
                                None if !def.is_enum() => def.non_enum_variant(),
                                None => panic!("field of enum without downcast"),
                            };
                            v.fields[f].name.to_string()
                        }
                        _ => f.as_u32().to_string(),
                    };
                    let _ = write!(o, "[\"f\",{}]", js(&name));
                }
                ProjectionElem::Index(l) => {
                    let _ = write!(o, "[\"i\",{}]", l.as_u32());
                }
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    let _ = write!(o, "[\"c\",{},{}]", offset, from_end);
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    let _ = write!(o, "[\"s\",{},{},{}]", from, to, from_end);
                }
                ProjectionElem::Downcast(_, v) => {
                    let name = match pt.ty.kind() {
                        ty::Adt(def, _) => def.variant(v).name.to_string(),
                        _ => v.as_u32().to_string(),
                    };
                    let _ = write!(o, "[\"v\",{}]", js(&name));
                }
                _ => o.push_str("[\"?\"]"),
            }
            pt = pt.projection_ty(self.tcx, e);
        }
        o.push_str("]");
        let _ = write!(o, ",\"t\":{}}}", self.ty(pt.ty));
        o
    }

    fn fndef(&self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let mut o = format!(
            "{{\"path\":{},\"u\":{},\"local\":{}",
            js(&path(tcx, d)),
            js(&upath(tcx, d)),
            d.is_local()
        );
        let gs: Vec<String> = args.iter().map(|a| js(&format!("{}", a))).collect();
        let _ = write!(o, ",\"args\":[{}]", gs.join(","));
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            let erased = tcx.erase_and_anonymize_regions(args);
            if let Ok(Some(inst)) = ty::Instance::try_resolve(tcx, self.env, d, erased) {
                let rd = inst.def_id();
                if rd != d || !matches!(inst.def, ty::InstanceKind::Item(_)) {
                    let rgs: Vec<String> =
                        inst.args.iter().map(|a| js(&format!("{}", a))).collect();
                    let _ = write!(
                        o,
                        ",\"res\":{{\"path\":{},\"u\":{},\"local\":{},\"kind\":{},\"args\":[{}]}}",
                        js(&path(tcx, rd)),
                        js(&upath(tcx, rd)),
                        rd.is_local(),
                        js(&format!("{:?}", inst.def).split('(').next().unwrap_or("").to_string()),
                        rgs.join(",")
                    );
                }
            }
        }
        o.push('}');
        o
    }

    fn konst(&self, c: &ConstOperand<'tcx>) -> String {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let mut o = format!("{{\"k\":1,\"t\":{}", self.ty(t));
        if let ty::FnDef(d, args) = t.kind() {
            let _ = write!(o, ",\"fn\":{}}}", self.fndef(*d, args.skip_binder()));
            return o;
        }
        if let ty::Closure(d, _) = t.kind() {
            let _ = write!(o, ",\"closure\":{}}}", js(&upath(tcx, *d)));
            return o;
        }
        if let Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                let _ = write!(o, ",\"promoted\":{},\"of\":{}", p.as_u32(), js(&upath(tcx, u.def)));
            } else {
                let _ = write!(o, ",\"name\":{}", js(&path(tcx, u.def)));
            }
        }
        match t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) => {
                if let Some(b) = c.const_.try_eval_bits(tcx, self.env) {
                    let v: i128 = match t.kind() {
                        ty::Int(_) => {
                            let size = tcx
                                .layout_of(self.env.as_query_input(t))
                                .unwrap()
                                .size
                                .bits();
                            let sh = 128 - size as u32;
                            ((b << sh) as i128) >> sh
                        }
                        _ => b as i128,
                    };
                    let _ = write!(o, ",\"int\":{}", v);
                }
            }
            _ => {
                if let Ok(v) = c.const_.eval(tcx, self.env, c.span) {
                    match v {
                        ConstValue::Slice { alloc_id, meta } => {
                            if let GlobalAlloc::Memory(m) = tcx.global_alloc(alloc_id) {
                                let a = m.inner();
                                let b = a.inspect_with_uninit_and_ptr_outside_interpreter(
                                    0..(meta as usize).min(a.len()),
                                );
                                let v: Vec<String> = b.iter().map(|x| x.to_string()).collect();
                                let _ = write!(o, ",\"bytes\":[{}]", v.join(","));
                            }
                        }
                        ConstValue::Scalar(interpret::Scalar::Ptr(p, _)) => {
                            if let ty::Ref(_, inner, _) = t.kind() {
                                if let ty::Array(el, n) = inner.kind() {
                                    if *el == tcx.types.u8 {
                                        let (prov, off) = p.into_raw_parts();
                                        if let GlobalAlloc::Memory(m) =
                                            tcx.global_alloc(prov.alloc_id())
                                        {
                                            let a = m.inner();
                                            let n = n.try_to_target_usize(tcx).unwrap_or(0) as usize;
                                            let s = off.bytes() as usize;
                                            let b = a
                                                .inspect_with_uninit_and_ptr_outside_interpreter(
                                                    s..s + n,
                                                );
                                            let v: Vec<String> =
                                                b.iter().map(|x| x.to_string()).collect();
                                            let _ = write!(o, ",\"bytes\":[{}]", v.join(","));
                                        }
                                    }
                                }
                            }
                        }
                        ConstValue::ZeroSized => o.push_str(",\"zst\":true"),
                        _ => {}
                    }
                }
            }
        }
        let _ = write!(o, ",\"s\":{}}}", js(&format!("{}", c.const_)));
        o
    }

    fn op(&self, op: &Operand<'tcx>) -> String {
        match op {
            Operand::Copy(p) => self.place(p),
            Operand::Move(p) => {
                let mut s = self.place(p);
                s.pop();
                s.push_str(",\"mv\":true}");
                s
            }
            Operand::Constant(c) => self.konst(c),
            _ => "{\"k\":1,\"t\":\"bool\",\"int\":0,\"s\":\"runtime-check\"}".to_string(),
        }
    }

    fn opty(&self, op: &Operand<'tcx>) -> String {
        self.ty(op.ty(&self.body.local_decls, self.tcx))
    }

    fn rvalue(&self, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(op, _) => format!("[\"use\",{}]", self.op(op)),
            Rvalue::Repeat(op, n) => format!("[\"repeat\",{},{}]", self.op(op), js(&format!("{}", n))),
            Rvalue::Ref(_, k, p) => {
                let m = matches!(k, BorrowKind::Mut { .. });
                format!("[\"ref\",{},{}]", m, self.place(p))
            }
            Rvalue::RawPtr(_, p) => format!("[\"ref\",true,{}]", self.place(p)),
            Rvalue::ThreadLocalRef(d) => format!("[\"tls\",{}]", js(&path(self.tcx, *d))),
            Rvalue::Cast(k, op, t) => {
                let ks = format!("{:?}", k);
                format!("[\"cast\",{},{},{},{}]", js(&ks), self.op(op), self.opty(op), self.ty(*t))
            }
            Rvalue::BinaryOp(b, ab) => format!(
                "[\"bin\",{},{},{},{}]",
                js(&format!("{:?}", b)),
                self.op(&ab.0),
                self.op(&ab.1),
                self.opty(&ab.0)
            ),
            Rvalue::UnaryOp(u, a) => {
                format!("[\"un\",{},{},{}]", js(&format!("{:?}", u)), self.op(a), self.opty(a))
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(&self.body.local_decls, self.tcx).ty;
                let mut vs: Vec<String> = vec![];
                if let ty::Adt(def, _) = t.kind() {
                    if def.is_enum() {
                        for (vi, d) in def.discriminants(self.tcx) {
                            vs.push(format!(
                                "[{},{}]",
                                d.val,
                                js(&def.variant(vi).name.to_string())
                            ));
                        }
                    }
                }
                format!("[\"disc\",{},[{}]]", self.place(p), vs.join(","))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",{}]", self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let os: Vec<String> = ops.iter().map(|x| self.op(x)).collect();
                let kind = match &**k {
                    AggregateKind::Array(_) => "[\"array\"]".to_string(),
                    AggregateKind::Tuple => "[\"tuple\"]".to_string(),
                    AggregateKind::Adt(d, v, _, _, _) => {
                        let def = self.tcx.adt_def(*d);
                        let var = def.variant(*v);
                        let fs: Vec<String> =
                            var.fields.iter().map(|f| js(&f.name.to_string())).collect();
                        format!(
                            "[\"adt\",{},{},[{}],{}]",
                            js(&path(self.tcx, *d)),
                            js(&var.name.to_string()),
                            fs.join(","),
                            def.is_enum()
                        )
                    }
                    AggregateKind::Closure(d, _) => {
                        format!("[\"closure\",{}]", js(&upath(self.tcx, *d)))
                    }
                    AggregateKind::RawPtr(..) => "[\"rawptr\"]".to_string(),
                    _ => "[\"other\"]".to_string(),
                };
                format!("[\"agg\",{},[{}]]", kind, os.join(","))
            }
            _ => format!("[\"unknown\",{}]", js(&format!("{:?}", r))),
        }
    }

    fn unwind(&self, u: &UnwindAction) -> String {
        match u {
            UnwindAction::Cleanup(b) => b.as_u32().to_string(),
            _ => "null".to_string(),
        }
    }

    fn body_json(&self, name: &str, upath_s: &str, kind: &str) -> String {
        let b = self.body;
        let mut o = format!(
            "{{\"name\":{},\"u\":{},\"kind\":{},\"span\":{},\"argc\":{}",
            js(name),
            js(upath_s),
            js(kind),
            self.span(b.span),
            b.arg_count
        );
        // locals
        let mut names: Vec<Option<String>> = vec![None; b.local_decls.len()];
        let mut upv = String::new();
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    names[p.local.as_usize()] = Some(v.name.to_string());
                } else {
                    if !upv.is_empty() {
                        upv.push(',');
                    }
                    let _ = write!(upv, "[{},{}]", js(&v.name.to_string()), self.place(p));
                }
            }
        }
        let _ = write!(o, ",\"dbg\":[{}]", upv);
        let ls: Vec<String> = b
            .local_decls
            .iter_enumerated()
            .map(|(i, d)| {
                format!(
                    "[{},{}]",
                    self.ty(d.ty),
                    names[i.as_usize()].as_ref().map(|n| js(n)).unwrap_or("null".to_string())
                )
            })
            .collect();
        let _ = write!(o, ",\"locals\":[{}],\"bbs\":[", ls.join(","));
        for (bi, bb) in b.basic_blocks.iter_enumerated() {
            if bi.as_u32() > 0 {
                o.push(',');
            }
            let _ = write!(o, "{{\"cl\":{},\"st\":[", bb.is_cleanup);
            let mut first = true;
            for s in &bb.statements {
                let t = match &s.kind {
                    StatementKind::Assign(pr) => format!(
                        "[\"=\",{},{},{}]",
                        self.place(&pr.0),
                        self.rvalue(&pr.1),
                        self.span(s.source_info.span)
                    ),
                    StatementKind::SetDiscriminant { place, variant_index } => format!(
                        "[\"setdisc\",{},{}]",
                        self.place(place),
                        variant_index.as_u32()
                    ),
                    StatementKind::Intrinsic(i) => format!("[\"intr\",{}]", js(&format!("{:?}", i))),
                    _ => continue,
                };
                if !first {
                    o.push(',');
                }
                first = false;
                o.push_str(&t);
            }
            o.push_str("],\"tm\":");
            let term = bb.terminator();
            let sp = self.span(term.source_info.span);
            let t = match &term.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_u32()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let ts: Vec<String> = targets
                        .iter()
                        .map(|(v, t)| format!("[{},{}]", v, t.as_u32()))
                        .collect();
                    // variant names when switching on a discriminant are resolved by the reader
                    format!(
                        "[\"switch\",{},{},[{}],{}]",
                        self.op(discr),
                        self.opty(discr),
                        ts.join(","),
                        targets.otherwise().as_u32()
                    )
                }
                TerminatorKind::Return => "[\"return\"]".to_string(),
                TerminatorKind::UnwindResume => "[\"resume\"]".to_string(),
                TerminatorKind::UnwindTerminate(_) => "[\"abort\"]".to_string(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".to_string(),
                TerminatorKind::Drop { place, target, unwind, .. } => format!(
                    "[\"drop\",{},{},{}]",
                    self.place(place),
                    target.as_u32(),
                    self.unwind(unwind)
                ),
                TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                    let asx: Vec<String> = args.iter().map(|a| self.op(&a.node)).collect();
                    format!(
                        "[\"call\",{},[{}],{},{},{},{}]",
                        self.op(func),
                        asx.join(","),
                        self.place(destination),
                        target.map(|t| t.as_u32().to_string()).unwrap_or("null".to_string()),
                        self.unwind(unwind),
                        sp
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                    let (k, ops): (&str, Vec<&Operand>) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => ("bounds", vec![len, index]),
                        AssertKind::Overflow(_, a, b) => ("overflow", vec![a, b]),
                        AssertKind::OverflowNeg(a) => ("overflow", vec![a]),
                        AssertKind::DivisionByZero(a) => ("div0", vec![a]),
                        AssertKind::RemainderByZero(a) => ("div0", vec![a]),
                        _ => ("other", vec![]),
                    };
                    let os: Vec<String> = ops.iter().map(|x| self.op(x)).collect();
                    format!(
                        "[\"assert\",{},{},{},[{}],{},{},{}]",
                        self.op(cond),
                        expected,
                        js(k),
                        os.join(","),
                        target.as_u32(),
                        self.unwind(unwind),
                        sp
                    )
                }
                TerminatorKind::FalseEdge { real_target, .. } => {
                    format!("[\"goto\",{}]", real_target.as_u32())
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    format!("[\"goto\",{}]", real_target.as_u32())
                }
                k => format!("[\"other\",{}]", js(&format!("{:?}", k))),
            };
            o.push_str(&t);
            o.push('}');
        }
        o.push_str("]}");
        let _ = self.owner;
        o
    }
}

fn dump(tcx: TyCtxt<'_>, out: &str) {
    let mut items: Vec<String> = vec![];
    let mut keys: Vec<LocalDefId> = tcx.mir_keys(()).iter().copied().collect();
    keys.sort_by_key(|k| upath(tcx, k.to_def_id()));
    for k in keys {
        let d = k.to_def_id();
        let kind = tcx.def_kind(d);
        let (body, kn): (&Body<'_>, &str) = match kind {
            DefKind::Fn => (tcx.optimized_mir(d), "fn"),
            DefKind::AssocFn => (tcx.optimized_mir(d), "method"),
            DefKind::Closure => (tcx.optimized_mir(d), "closure"),
            DefKind::Const { .. } | DefKind::AssocConst { .. } => (tcx.mir_for_ctfe(d), "const"),
            DefKind::Static { .. } => (tcx.mir_for_ctfe(d), "static"),
            _ => continue,
        };
        let env = TypingEnv::post_analysis(tcx, d);
        let du = Dump { tcx, env, body, owner: d };
        let mut s = du.body_json(&path(tcx, d), &upath(tcx, d), kn);
        // trait / impl info
        if let Some(imp) = tcx.impl_of_assoc(d) {
            let st = tcx.type_of(imp).instantiate_identity().skip_norm_wip();
            s.pop();
            let _ = write!(s, ",\"self_ty\":{}", js(&format!("{}", st)));
            if let Some(tr) = tcx.impl_opt_trait_ref(imp) {
                let tr = tr.instantiate_identity().skip_norm_wip();
                let _ = write!(s, ",\"trait\":{}", js(&path(tcx, tr.def_id)));
            }
            s.push('}');
        }
        items.push(s);
        if matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::Const { .. }) {
            for (pi, pb) in tcx.promoted_mir(d).iter_enumerated() {
                let du = Dump { tcx, env, body: pb, owner: d };
                items.push(du.body_json(
                    &format!("{}::promoted[{}]", path(tcx, d), pi.as_u32()),
                    &format!("{}#promoted{}", upath(tcx, d), pi.as_u32()),
                    "promoted",
                ));
            }
        }
    }
    // local type definitions
    let mut types: Vec<String> = vec![];
    let mut impls: Vec<String> = vec![];
    for id in tcx.hir_free_items() {
        let d = id.owner_id.to_def_id();
        match tcx.def_kind(d) {
            DefKind::Struct | DefKind::Enum => {
                let def = tcx.adt_def(d);
                let vs: Vec<String> = def
                    .variants()
                    .iter()
                    .map(|v| {
                        let fs: Vec<String> = v
                            .fields
                            .iter()
                            .map(|f| {
                                format!(
                                    "[{},{}]",
                                    js(&f.name.to_string()),
                                    js(&format!(
                                        "{}",
                                        tcx.type_of(f.did).instantiate_identity().skip_norm_wip()
                                    ))
                                )
                            })
                            .collect();
                        format!("[{},[{}]]", js(&v.name.to_string()), fs.join(","))
                    })
                    .collect();
                types.push(format!(
                    "{{\"path\":{},\"enum\":{},\"variants\":[{}]}}",
                    js(&path(tcx, d)),
                    def.is_enum(),
                    vs.join(",")
                ));
            }
            DefKind::Impl { .. } => {
                let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let tr = tcx.impl_opt_trait_ref(d).map(|t| {
                    let t = t.instantiate_identity().skip_norm_wip();
                    path(tcx, t.def_id)
                });
                let sm = tcx.sess.source_map();
                let lo = sm.lookup_char_pos(tcx.def_span(d).lo());
                impls.push(format!(
                    "{{\"self\":{},\"trait\":{},\"derived\":{},\"span\":{}}}",
                    js(&format!("{}", st)),
                    tr.map(|t| js(&t)).unwrap_or("null".into()),
                    tcx.is_automatically_derived(d),
                    js(&format!("{}:{}", lo.file.name.prefer_local_unconditionally(), lo.line))
                ));
            }
            _ => {}
        }
    }
    let s = format!(
        "{{\"crate\":{},\"bodies\":[\n{}\n],\"types\":[\n{}\n],\"impls\":[\n{}\n]}}\n",
        js(tcx.crate_name(rustc_span::def_id::LOCAL_CRATE).as_str()),
        items.join(",\n"),
        types.join(",\n"),
        impls.join(",\n")
    );
    std::fs::write(out, s).expect("write mirdump output");
}

impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> rustc_driver::Compilation {
        if let Ok(out) = std::env::var("MIRDUMP_OUT") {
            dump(tcx, &out);
        }
        rustc_driver::Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    // argv: wrapper, rustc path, rustc args...
    let args: Vec<String> = std::env::args().collect();
    let args: Vec<String> = args[1..].to_vec();
    let is_target = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == "mapeditr");
    struct Plain;
    impl rustc_driver::Callbacks for Plain {}
    rustc_driver::catch_with_exit_code(|| {
        if is_target {
            rustc_driver::compiler_entrypoint(&args, &mut Cb)
        } else {
            rustc_driver::compiler_entrypoint(&args, &mut Plain)
        }
    })
}
