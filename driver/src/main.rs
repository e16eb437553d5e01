//! Fact extractor: runs inside `cargo check` as RUSTC_WORKSPACE_WRAPPER, lets rustc
//! type-check the crate, and writes the resolved program (ADTs, impls, MIR bodies with
//! resolved callees and evaluated constants) as JSON.  It decides nothing itself.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

mod json;
use json::J;
use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId, LOCAL_CRATE};
use rustc_middle::mir::interpret::GlobalAlloc;
use rustc_middle::mir::{self, *};
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;

struct Cb;

impl rustc_driver::Callbacks for Cb {
    fn config(&mut self, c: &mut rustc_interface::interface::Config) {
        c.opts.unstable_opts.mir_opt_level = Some(0);
        c.opts.unstable_opts.ub_checks = Some(false);
        c.opts.cg.overflow_checks = Some(false);
        c.opts.cg.debug_assertions = Some(false);
    }
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        let out = std::env::var("MIRFACTS_OUT").expect("MIRFACTS_OUT");
        let name = tcx.crate_name(LOCAL_CRATE).to_string();
        let j = dump(tcx);
        let mut s = String::new();
        j.write(&mut s);
        std::fs::write(format!("{out}/{name}.json"), s).unwrap();
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    args.remove(0);
    let is_primary = std::env::var("CARGO_PRIMARY_PACKAGE").is_ok();
    let is_query = args.iter().any(|a| a == "-vV" || a.starts_with("--print")) || !args.iter().any(|a| a == "--crate-name");
    if is_query || !is_primary || args.iter().any(|a| a == "build_script_build") {
        let st = std::process::Command::new(&args[0]).args(&args[1..]).status().unwrap();
        std::process::exit(st.code().unwrap_or(1));
    }
    rustc_driver::compiler_entrypoint(&args, &mut Cb);
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
}

fn s(x: impl Into<String>) -> J {
    J::S(x.into())
}

fn last_seg<'tcx>(tcx: TyCtxt<'tcx>, d: DefId) -> String {
    tcx.opt_item_name(d).map(|x| x.to_string()).unwrap_or_else(|| format!("{:?}", d))
}

fn mod_path<'tcx>(tcx: TyCtxt<'tcx>, d: DefId) -> String {
    // path without generics
    let dp = tcx.def_path(d);
    let mut v = vec![];
    if !d.is_local() {
        v.push(tcx.crate_name(d.krate).to_string());
    }
    for e in dp.data.iter() {
        v.push(match e.data.get_opt_name() {
            Some(n) => n.to_string(),
            None => format!("{:?}", e.data),
        });
    }
    v.join("::")
}

fn ty_short<'tcx>(tcx: TyCtxt<'tcx>, t: Ty<'tcx>, depth: usize) -> String {
    if depth > 6 {
        return "..".into();
    }
    let r = |t| ty_short(tcx, t, depth + 1);
    match t.kind() {
        ty::Adt(a, args) => {
            let tys: Vec<String> = args.types().map(r).collect();
            let mut n = last_seg(tcx, a.did());
            if !a.did().is_local() && (n == "Iter" || n == "IterMut" || n == "IntoIter" || n == "Drain") {
                let mp = mod_path(tcx, a.did());
                let k = tcx.crate_name(a.did().krate).to_string();
                if k == "core" || k == "alloc" {
                    if mp.contains("::slice::") {
                        n = format!("slice::{n}");
                    } else if mp.contains("::vec::") {
                        n = format!("vec::{n}");
                    }
                }
            }
            if tys.is_empty() {
                n
            } else {
                format!("{}<{}>", n, tys.join(","))
            }
        }
        ty::Ref(_, t, m) => format!("&{}{}", if m.is_mut() { "mut " } else { "" }, r(*t)),
        ty::RawPtr(t, m) => format!("*{} {}", if m.is_mut() { "mut" } else { "const" }, r(*t)),
        ty::Slice(t) => format!("[{}]", r(*t)),
        ty::Array(t, n) => format!("[{};{}]", r(*t), n),
        ty::Tuple(ts) => format!("({})", ts.iter().map(r).collect::<Vec<_>>().join(",")),
        ty::Param(p) => p.name.to_string(),
        ty::Dynamic(preds, ..) => {
            let mut v = vec![];
            for p in preds.iter() {
                match p.skip_binder() {
                    ty::ExistentialPredicate::Trait(tr) => v.insert(0, last_seg(tcx, tr.def_id)),
                    ty::ExistentialPredicate::AutoTrait(d) => v.push(last_seg(tcx, d)),
                    _ => {}
                }
            }
            format!("dyn {}", v.join("+"))
        }
        ty::Closure(d, _) => format!("{{closure:{}}}", fn_name(tcx, *d)),
        ty::FnDef(d, _) => format!("fn:{}", fn_name(tcx, *d)),
        ty::Alias(..) => {
            let x = rustc_middle::ty::print::with_no_trimmed_paths!(t.to_string());
            x
        }
        _ => rustc_middle::ty::print::with_no_trimmed_paths!(t.to_string()),
    }
}

fn ty_head<'tcx>(tcx: TyCtxt<'tcx>, t: Ty<'tcx>) -> String {
    match t.kind() {
        ty::Adt(a, _) => last_seg(tcx, a.did()),
        _ => ty_short(tcx, t, 0),
    }
}

fn fn_name<'tcx>(tcx: TyCtxt<'tcx>, d: DefId) -> String {
    match tcx.def_kind(d) {
        DefKind::Closure => {
            let p = tcx.parent(d);
            let n = tcx.def_key(d).disambiguated_data.disambiguator;
            format!("{}::{{closure#{}}}", fn_name(tcx, p), n)
        }
        DefKind::AssocFn | DefKind::AssocConst { .. } => {
            let p = tcx.parent(d);
            let n = last_seg(tcx, d);
            match tcx.def_kind(p) {
                DefKind::Trait => format!("{}::{}", last_seg(tcx, p), n),
                DefKind::Impl { of_trait } => {
                    let st = tcx.type_of(p).instantiate_identity().skip_norm_wip();
                    if of_trait {
                        let tr = tcx.impl_trait_ref(p).instantiate_identity().skip_norm_wip();
                        format!("<{} as {}>::{}", ty_head(tcx, st), last_seg(tcx, tr.def_id), n)
                    } else {
                        format!("{}::{}", ty_head(tcx, st), n)
                    }
                }
                _ => mod_path(tcx, d),
            }
        }
        DefKind::Ctor(..) => format!("ctor:{}", mod_path(tcx, tcx.parent(d))),
        _ => {
            // nested fn inside fn: keep path
            mod_path(tcx, d)
        }
    }
}

fn span_s<'tcx>(tcx: TyCtxt<'tcx>, sp: Span) -> String {
    let sp = sp.source_callsite();
    let loc = tcx.sess.source_map().lookup_char_pos(sp.lo());
    format!("{}:{}", loc.file.name.prefer_local_unconditionally(), loc.line)
}

fn dump<'tcx>(tcx: TyCtxt<'tcx>) -> J {
    let cx = Cx { tcx };
    let mut fns = vec![];
    let mut adts = vec![];
    let mut impls = vec![];
    let mut traits = vec![];
    let mut consts = vec![];
    let mut statics = vec![];
    for id in tcx.hir_crate_items(()).definitions() {
        let d = id.to_def_id();
        match tcx.def_kind(d) {
            DefKind::Struct | DefKind::Enum | DefKind::Union => adts.push(cx.adt(d)),
            DefKind::Impl { of_trait } => impls.push(cx.imp(d, of_trait)),
            DefKind::Trait => traits.push(cx.trt(d)),
            DefKind::Static { mutability, .. } => {
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                statics.push(J::O(vec![
                    ("path", s(mod_path(tcx, d))),
                    ("ty", s(ty_short(tcx, t, 0))),
                    ("mut", J::B(mutability.is_mut())),
                    ("span", s(span_s(tcx, tcx.def_span(d)))),
                ]));
            }
            DefKind::Const { .. } => {
                if tcx.generics_of(d).count() == 0 {
                    let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let c = mir::Const::Unevaluated(
                        mir::UnevaluatedConst::new(d, ty::List::empty()),
                        t,
                    );
                    consts.push(J::O(vec![
                        ("path", s(mod_path(tcx, d))),
                        ("ty", s(ty_short(tcx, t, 0))),
                        ("val", cx.const_val(&c, TypingEnv::fully_monomorphized())),
                    ]));
                }
            }
            _ => {}
        }
    }
    for id in tcx.hir_body_owners() {
        let d = id.to_def_id();
        match tcx.def_kind(d) {
            DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {
                if tcx.is_mir_available(d) {
                    fns.push(cx.func(id));
                }
            }
            DefKind::Const { .. } | DefKind::AssocConst { .. } => {
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                if !t.is_unit() && !t.is_integral() && !t.is_bool() {
                    fns.push(cx.constant(id));
                }
            }
            _ => {}
        }
    }
    J::O(vec![
        ("crate", s(tcx.crate_name(LOCAL_CRATE).to_string())),
        ("fns", J::A(fns)),
        ("adts", J::A(adts)),
        ("impls", J::A(impls)),
        ("traits", J::A(traits)),
        ("consts", J::A(consts)),
        ("statics", J::A(statics)),
    ])
}

impl<'tcx> Cx<'tcx> {
    fn adt(&self, d: DefId) -> J {
        let tcx = self.tcx;
        let a = tcx.adt_def(d);
        let mut vs = vec![];
        for (i, v) in a.variants().iter_enumerated() {
            let discr = if a.is_enum() { a.discriminant_for_variant(tcx, i).val as i128 } else { 0 };
            let fs = v
                .fields
                .iter()
                .map(|f| {
                    let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                    J::O(vec![
                        ("n", s(f.name.to_string())),
                        ("ty", s(ty_short(tcx, t, 0))),
                        ("pub", J::B(f.vis.is_public())),
                    ])
                })
                .collect();
            vs.push(J::O(vec![("n", s(v.name.to_string())), ("d", J::I(discr)), ("f", J::A(fs))]));
        }
        J::O(vec![
            ("path", s(mod_path(tcx, d))),
            ("name", s(last_seg(tcx, d))),
            ("enum", J::B(a.is_enum())),
            ("variants", J::A(vs)),
            ("span", s(span_s(tcx, tcx.def_span(d)))),
        ])
    }
    fn imp(&self, d: DefId, of_trait: bool) -> J {
        let tcx = self.tcx;
        let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
        let tr = if of_trait {
            let t = tcx.impl_trait_ref(d).instantiate_identity().skip_norm_wip();
            s(last_seg(tcx, t.def_id))
        } else {
            J::Null
        };
        let items: Vec<J> = tcx
            .associated_items(d)
            .in_definition_order()
            .filter(|i| i.is_fn())
            .map(|i| s(i.name().to_string()))
            .collect();
        let derived = tcx.is_automatically_derived(d);
        let unsafe_ = of_trait && tcx.impl_trait_header(d).safety.is_unsafe();
        J::O(vec![
            ("self", s(ty_short(tcx, st, 0))),
            ("head", s(ty_head(tcx, st))),
            ("trait", tr),
            ("items", J::A(items)),
            ("derived", J::B(derived)),
            ("unsafe", J::B(unsafe_)),
            ("span", s(span_s(tcx, tcx.def_span(d)))),
        ])
    }
    fn trt(&self, d: DefId) -> J {
        let tcx = self.tcx;
        let items: Vec<J> = tcx
            .associated_items(d)
            .in_definition_order()
            .filter(|i| i.is_fn())
            .map(|i| {
                J::A(vec![
                    s(i.name().to_string()),
                    J::B(i.defaultness(tcx).has_value()),
                    J::B(tcx.generics_of(i.def_id).own_params.iter().any(|p| !matches!(p.kind, ty::GenericParamDefKind::Lifetime))),
                ])
            })
            .collect();
        J::O(vec![("name", s(last_seg(tcx, d))), ("path", s(mod_path(tcx, d))), ("items", J::A(items))])
    }
    fn func(&self, id: LocalDefId) -> J {
        let tcx = self.tcx;
        let d = id.to_def_id();
        let body: &Body<'tcx> = tcx.optimized_mir(d);
        let env = TypingEnv::post_analysis(tcx, d);
        let mut o = vec![("name", s(fn_name(tcx, d))), ("span", s(span_s(tcx, tcx.def_span(d))))];
        let kind = tcx.def_kind(d);
        o.push(("closure", J::B(matches!(kind, DefKind::Closure))));
        o.push(("mod", s(mod_path(tcx, tcx.parent_module_from_def_id(id).to_def_id()))));
        if matches!(kind, DefKind::AssocFn) {
            let p = tcx.parent(d);
            if let DefKind::Impl { of_trait } = tcx.def_kind(p) {
                let st = tcx.type_of(p).instantiate_identity().skip_norm_wip();
                o.push(("self", s(ty_short(tcx, st, 0))));
                o.push(("derived", J::B(tcx.is_automatically_derived(p))));
                if of_trait {
                    let t = tcx.impl_trait_ref(p).instantiate_identity().skip_norm_wip();
                    o.push(("trait", s(last_seg(tcx, t.def_id))));
                }
            } else {
                o.push(("trait_default", s(last_seg(tcx, p))));
            }
        }
        if !matches!(kind, DefKind::Closure) {
            o.push(("pub", J::B(tcx.visibility(d).is_public())));
            o.push(("unsafe", J::B(tcx.fn_sig(d).skip_binder().safety().is_unsafe())));
        } else {
            let up: Vec<J> = tcx
                .closure_captures(id)
                .iter()
                .map(|c| s(c.to_string(tcx)))
                .collect();
            o.push(("upvars", J::A(up)));
        }
        self.body(&mut o, body, env);
        let pr = tcx.promoted_mir(d);
        let ps = pr
            .iter()
            .map(|b| {
                let mut o = vec![];
                self.body(&mut o, b, env);
                J::O(o)
            })
            .collect();
        o.push(("promoted", J::A(ps)));
        J::O(o)
    }
    fn constant(&self, id: LocalDefId) -> J {
        let tcx = self.tcx;
        let d = id.to_def_id();
        let n = match tcx.def_kind(d) {
            DefKind::AssocConst { .. } => fn_name(tcx, d),
            _ => mod_path(tcx, d),
        };
        let mut o = vec![
            ("name", s(format!("const {}", n))),
            ("span", s(span_s(tcx, tcx.def_span(d)))),
            ("closure", J::B(false)),
            ("mod", s(mod_path(tcx, tcx.parent_module_from_def_id(id).to_def_id()))),
            ("pub", J::B(tcx.visibility(d).is_public())),
            ("unsafe", J::B(false)),
        ];
        self.body(&mut o, tcx.mir_for_ctfe(d), TypingEnv::post_analysis(tcx, d));
        let ps = tcx
            .promoted_mir(d)
            .iter()
            .map(|b| {
                let mut o = vec![];
                self.body(&mut o, b, TypingEnv::post_analysis(tcx, d));
                J::O(o)
            })
            .collect();
        o.push(("promoted", J::A(ps)));
        J::O(o)
    }
    fn body(&self, o: &mut Vec<(&'static str, J)>, body: &Body<'tcx>, env: TypingEnv<'tcx>) {
        let tcx = self.tcx;
        o.push(("nargs", J::I(body.arg_count as i128)));
        let mut names: Vec<Option<String>> = vec![None; body.local_decls.len()];
        for v in body.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names[p.local.as_usize()] = Some(v.name.to_string());
                }
            }
        }
        let locals = body
            .local_decls
            .iter_enumerated()
            .map(|(l, d)| {
                J::A(vec![
                    s(ty_short(tcx, d.ty, 0)),
                    match &names[l.as_usize()] {
                        Some(n) => s(n.clone()),
                        None => J::Null,
                    },
                ])
            })
            .collect();
        o.push(("locals", J::A(locals)));
        let mut bbs = vec![];
        for (_, bb) in body.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for x in bb.statements.iter() {
                match &x.kind {
                    StatementKind::Assign(b) => {
                        let (p, r) = &**b;
                        st.push(J::A(vec![
                            self.place(body, p),
                            self.rvalue(body, r, env),
                            s(span_s(tcx, x.source_info.span)),
                        ]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        st.push(J::A(vec![
                            self.place(body, place),
                            J::A(vec![s("setdiscr"), J::I(variant_index.as_u32() as i128)]),
                            s(span_s(tcx, x.source_info.span)),
                        ]));
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let tj = self.term(body, t, env);
            bbs.push(J::O(vec![
                ("s", J::A(st)),
                ("t", tj),
                ("sp", s(span_s(tcx, t.source_info.span))),
                ("cl", J::B(bb.is_cleanup)),
            ]));
        }
        o.push(("bbs", J::A(bbs)));
    }
    fn place(&self, body: &Body<'tcx>, p: &Place<'tcx>) -> J {
        let tcx = self.tcx;
        let mut v = vec![J::I(p.local.as_u32() as i128)];
        let mut pt = mir::PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            match e {
                ProjectionElem::Deref => {
                    let raw = pt.ty.is_raw_ptr();
                    v.push(s(if raw { "*raw" } else { "*" }))
                }
                ProjectionElem::Field(f, _) => {
                    let name = match pt.ty.kind() {
                        ty::Adt(a, _) => {
                            let vi = pt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            Some((
                                a.variant(vi).fields[f].name.to_string(),
                                last_seg(tcx, a.did()),
                            ))
                        }
                        _ => None,
                    };
                    match name {
                        Some((n, a)) => v.push(J::A(vec![s("f"), s(n), s(a)])),
                        None => v.push(J::A(vec![s("f"), s(f.as_usize().to_string()), J::Null])),
                    }
                }
                ProjectionElem::Index(l) => v.push(J::A(vec![s("i"), J::I(l.as_u32() as i128)])),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => v.push(J::A(vec![
                    s("ci"),
                    J::I(offset as i128),
                    J::B(from_end),
                ])),
                ProjectionElem::Subslice { from, to, from_end } => v.push(J::A(vec![
                    s("ss"),
                    J::I(from as i128),
                    J::I(to as i128),
                    J::B(from_end),
                ])),
                ProjectionElem::Downcast(_, vi) => {
                    let n = match pt.ty.kind() {
                        ty::Adt(a, _) => a.variant(vi).name.to_string(),
                        _ => vi.as_u32().to_string(),
                    };
                    v.push(J::A(vec![s("v"), s(n)]))
                }
                _ => v.push(s("?")),
            }
            pt = pt.projection_ty(tcx, e);
        }
        J::A(v)
    }
    fn const_val(&self, c: &mir::Const<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let t = c.ty();
        if t.is_integral() || t.is_bool() || t.is_char() {
            if let Some(si) = c.try_eval_scalar_int(tcx, env) {
                let v = if t.is_signed() {
                    si.to_int(si.size())
                } else {
                    si.to_uint(si.size()) as i128
                };
                return J::I(v);
            }
        }
        if let ty::Ref(_, inner, _) = t.kind() {
            if inner.is_str() {
                if let Ok(cv) = c.eval(tcx, env, rustc_span::DUMMY_SP) {
                    if let Some(bytes) = cv.try_get_slice_bytes_for_diagnostics(tcx) {
                        return J::O(vec![("str", s(String::from_utf8_lossy(bytes).to_string()))]);
                    }
                }
            }
        }
        // pointer to static?
        if let mir::Const::Val(mir::ConstValue::Scalar(mir::interpret::Scalar::Ptr(p, _)), _) = c {
            if let GlobalAlloc::Static(d) = tcx.global_alloc(p.provenance.alloc_id()) {
                return J::O(vec![("static", s(mod_path(tcx, d)))]);
            }
        }
        J::O(vec![("txt", s(rustc_middle::ty::print::with_no_trimmed_paths!(format!("{}", c))))])
    }
    fn operand(&self, body: &Body<'tcx>, op: &Operand<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        match op {
            Operand::Copy(p) => J::A(vec![s("c"), self.place(body, p)]),
            Operand::Move(p) => J::A(vec![s("m"), self.place(body, p)]),
            Operand::Constant(c) => {
                let t = c.const_.ty();
                if let ty::FnDef(d, _) = t.kind() {
                    return J::A(vec![s("k"), J::O(vec![("fn", s(fn_name(tcx, *d)))]), s("fn")]);
                }
                if let mir::Const::Unevaluated(u, _) = c.const_ {
                    if let Some(p) = u.promoted {
                        return J::A(vec![s("p"), J::I(p.as_u32() as i128), s(ty_short(tcx, t, 0))]);
                    }
                    let v = self.const_val(&c.const_, env);
                    let kn = match tcx.def_kind(u.def) {
                        DefKind::AssocConst { .. } => fn_name(tcx, u.def),
                        _ => mod_path(tcx, u.def),
                    };
                    return J::A(vec![s("k"), v, s(ty_short(tcx, t, 0)), s(kn)]);
                }
                J::A(vec![s("k"), self.const_val(&c.const_, env), s(ty_short(tcx, t, 0))])
            }
            _ => J::A(vec![s("k"), J::O(vec![("txt", s("rtcheck"))]), s("bool")]),
        }
    }
    fn rvalue(&self, body: &Body<'tcx>, r: &Rvalue<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let op = |o: &Operand<'tcx>| self.operand(body, o, env);
        match r {
            Rvalue::Use(o, ..) => J::A(vec![s("use"), op(o)]),
            Rvalue::Repeat(o, n) => J::A(vec![s("rep"), op(o), s(n.to_string())]),
            Rvalue::Ref(_, k, p) => J::A(vec![
                s("ref"),
                self.place(body, p),
                J::B(matches!(k, BorrowKind::Mut { .. })),
            ]),
            Rvalue::Reborrow(_, m, p) => J::A(vec![s("ref"), self.place(body, p), J::B(m.is_mut())]),
            Rvalue::RawPtr(_, p) => J::A(vec![s("raw"), self.place(body, p)]),
            Rvalue::Cast(k, o, t) => J::A(vec![
                s("cast"),
                op(o),
                s(ty_short(tcx, *t, 0)),
                s(format!("{:?}", k)),
                s(ty_short(tcx, o.ty(body, tcx), 0)),
            ]),
            Rvalue::BinaryOp(b, x) => J::A(vec![s("bin"), s(format!("{:?}", b)), op(&x.0), op(&x.1)]),
            Rvalue::UnaryOp(u, o) => J::A(vec![s("un"), s(format!("{:?}", u)), op(o)]),
            Rvalue::Discriminant(p) => {
                let t = p.ty(body, tcx).ty;
                let mut m = vec![];
                let mut name = String::new();
                if let ty::Adt(a, _) = t.kind() {
                    name = last_seg(tcx, a.did());
                    if a.is_enum() {
                        for (i, v) in a.variants().iter_enumerated() {
                            m.push(J::A(vec![
                                J::I(a.discriminant_for_variant(tcx, i).val as i128),
                                s(v.name.to_string()),
                            ]));
                        }
                    }
                }
                J::A(vec![s("discr"), self.place(body, p), s(name), J::A(m)])
            }
            Rvalue::Aggregate(k, ops) => {
                let mut fields: Vec<J> = ops.iter().map(|o| op(o)).collect();
                let (kk, extra) = match &**k {
                    AggregateKind::Array(_) => ("array", J::Null),
                    AggregateKind::Tuple => ("tuple", J::Null),
                    AggregateKind::Adt(d, vi, _, _, _) => {
                        let a = tcx.adt_def(*d);
                        let v = a.variant(*vi);
                        let names: Vec<J> = v.fields.iter().map(|f| s(f.name.to_string())).collect();
                        (
                            "adt",
                            J::A(vec![
                                s(last_seg(tcx, *d)),
                                if a.is_enum() { s(v.name.to_string()) } else { J::Null },
                                J::A(names),
                            ]),
                        )
                    }
                    AggregateKind::Closure(d, _) => ("closure", s(fn_name(tcx, *d))),
                    _ => ("other", J::Null),
                };
                J::A(vec![s("agg"), s(kk), extra, J::A(std::mem::take(&mut fields))])
            }
            Rvalue::CopyForDeref(p) => J::A(vec![s("use"), J::A(vec![s("c"), self.place(body, p)])]),
            Rvalue::ThreadLocalRef(d) => J::A(vec![s("tls"), s(mod_path(tcx, *d))]),
            _ => J::A(vec![s("other"), s(format!("{:?}", r))]),
        }
    }
    fn callee(&self, body: &Body<'tcx>, f: &Operand<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let t = f.ty(body, tcx);
        if let ty::FnDef(d, args) = t.kind() {
            let args = args.no_bound_vars().unwrap_or_else(|| args.skip_binder());
            let mut o = vec![("n", s(fn_name(tcx, *d)))];
            let tys: Vec<J> = args.types().map(|t| s(ty_short(tcx, t, 0))).collect();
            o.push(("ta", J::A(tys)));
            if let Some(tr) = tcx.trait_of_assoc(*d) {
                o.push(("tr", s(last_seg(tcx, tr))));
            }
            o.push(("unsafe", J::B(tcx.fn_sig(*d).skip_binder().safety().is_unsafe())));
            let eargs = tcx.erase_and_anonymize_regions(args);
            if matches!(tcx.def_kind(*d), DefKind::Fn | DefKind::AssocFn) {
                if let Ok(Some(i)) = Instance::try_resolve(tcx, env, *d, eargs) {
                    let rd = i.def_id();
                    let virt = matches!(i.def, ty::InstanceKind::Virtual(..));
                    o.push(("r", s(fn_name(tcx, rd))));
                    o.push(("local", J::B(rd.is_local())));
                    if virt {
                        o.push(("virt", J::B(true)));
                    }
                    if let ty::InstanceKind::Item(_) = i.def {
                        if tcx.def_kind(rd) == DefKind::Closure {
                            o.push(("cl", J::B(true)));
                        }
                    }
                }
            }
            return J::O(o);
        }
        J::O(vec![("ptr", self.operand(body, f, env)), ("ty", s(ty_short(tcx, t, 0)))])
    }
    fn term(&self, body: &Body<'tcx>, t: &Terminator<'tcx>, env: TypingEnv<'tcx>) -> J {
        let op = |o: &Operand<'tcx>| self.operand(body, o, env);
        let b = |x: &BasicBlock| J::I(x.as_u32() as i128);
        match &t.kind {
            TerminatorKind::Goto { target, .. } => J::A(vec![s("goto"), b(target)]),
            TerminatorKind::FalseEdge { real_target, .. } => J::A(vec![s("goto"), b(real_target)]),
            TerminatorKind::FalseUnwind { real_target, .. } => J::A(vec![s("goto"), b(real_target)]),
            TerminatorKind::SwitchInt { discr, targets } => {
                let dt = discr.ty(body, self.tcx);
                let arms: Vec<J> = targets
                    .iter()
                    .map(|(v, t)| {
                        let v = if dt.is_signed() {
                            let sz = match dt.kind() {
                                ty::Int(i) => i.bit_width().unwrap_or(64),
                                _ => 64,
                            };
                            let sh = 128 - sz as u32;
                            ((v as i128) << sh) >> sh
                        } else {
                            v as i128
                        };
                        J::A(vec![J::I(v), b(&t)])
                    })
                    .collect();
                J::A(vec![
                    s("switch"),
                    op(discr),
                    J::A(arms),
                    b(&targets.otherwise()),
                    s(ty_short(self.tcx, dt, 0)),
                ])
            }
            TerminatorKind::Return => J::A(vec![s("return")]),
            TerminatorKind::Unreachable => J::A(vec![s("unreachable")]),
            TerminatorKind::Drop { place, target, .. } => {
                let t = place.ty(body, self.tcx).ty;
                J::A(vec![
                    s("drop"),
                    self.place(body, place),
                    b(target),
                    s(ty_short(self.tcx, t, 0)),
                ])
            }
            TerminatorKind::Call { func, args, destination, target, .. } => J::A(vec![
                s("call"),
                self.callee(body, func, env),
                J::A(args.iter().map(|a| op(&a.node)).collect()),
                self.place(body, destination),
                match target {
                    Some(t) => b(t),
                    None => J::Null,
                },
            ]),
            TerminatorKind::Assert { target, cond, expected, .. } => {
                J::A(vec![s("assert"), op(cond), J::B(*expected), b(target)])
            }
            _ => J::A(vec![s("dead")]),
        }
    }
}
