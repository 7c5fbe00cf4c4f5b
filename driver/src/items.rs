//! Facts about the items of the analysed crate: unsafe operations, statics, types, functions.
extern crate rustc_ast;
extern crate rustc_trait_selection;
extern crate rustc_infer;
use crate::{arr, q};
use rustc_hir as hir;
use rustc_hir::def::{DefKind, Res};
use rustc_hir::def_id::{DefId, LocalDefId, LOCAL_CRATE};
use rustc_hir::intravisit::{self, Visitor};
use rustc_infer::infer::TyCtxtInferExt;
use rustc_middle::mir::{self, visit::Visitor as MirVisitor};
use rustc_middle::ty::{self, GenericArgs, Ty, TyCtxt, TypeVisitableExt};
use rustc_span::Span;
use rustc_trait_selection::infer::InferCtxtExt;
use std::collections::{BTreeSet, HashSet};

fn at(tcx: TyCtxt, s: Span) -> String {
    let s = s.source_callsite();
    let l = tcx.sess.source_map().lookup_char_pos(s.lo());
    let f = l.file.name.prefer_local_unconditionally().to_string();
    format!("{}:{}", f, l.line)
}
/// Written by this crate (or by one of its own macros), not by an expansion of another crate's macro.
fn ours(s: Span) -> bool {
    if !s.from_expansion() { return true; }
    match s.ctxt().outer_expn_data().macro_def_id { Some(d) => d.is_local(), None => false }
}

struct Ops<'tcx> { tcx: TyCtxt<'tcx>, tck: &'tcx ty::TypeckResults<'tcx>, owner: String, exprs: usize, calls: usize, out: Vec<String> }
impl<'tcx> Ops<'tcx> {
    fn hit(&mut self, what: &str, s: Span) {
        if ours(s) { self.out.push(format!(r#"{{"what":{},"fn":{},"at":{}}}"#, q(what), q(&self.owner), q(&at(self.tcx, s)))); }
    }
}
impl<'tcx> Visitor<'tcx> for Ops<'tcx> {
    fn visit_expr(&mut self, e: &'tcx hir::Expr<'tcx>) {
        self.exprs += 1;
        let tcx = self.tcx;
        match e.kind {
            hir::ExprKind::Call(c, _) => {
                self.calls += 1;
                let t = self.tck.expr_ty_adjusted(c);
                match t.kind() {
                    ty::FnDef(d, _) => {
                        if !matches!(tcx.def_kind(*d), DefKind::Ctor(..)) && !tcx.fn_sig(*d).skip_binder().skip_binder().safety().is_safe() { self.hit(&format!("call of unsafe {}", tcx.def_path_str(*d)), e.span) }
                    }
                    ty::FnPtr(..) => if !t.fn_sig(tcx).skip_binder().safety().is_safe() { self.hit("call of an unsafe function pointer", e.span) },
                    _ => {}
                }
            }
            hir::ExprKind::MethodCall(..) => {
                self.calls += 1;
                if let Some(d) = self.tck.type_dependent_def_id(e.hir_id) {
                    if !tcx.fn_sig(d).skip_binder().skip_binder().safety().is_safe() { self.hit(&format!("call of unsafe {}", tcx.def_path_str(d)), e.span) }
                }
            }
            hir::ExprKind::Unary(hir::UnOp::Deref, x) => if self.tck.expr_ty_adjusted(x).is_raw_ptr() { self.hit("dereference of a raw pointer", e.span) },
            hir::ExprKind::Path(ref p) => match self.tck.qpath_res(p, e.hir_id) {
                Res::Def(DefKind::Static { mutability: hir::Mutability::Mut, .. }, _) => self.hit("use of a static mut", e.span),
                Res::Def(DefKind::Static { .. }, d) if tcx.is_foreign_item(d) => self.hit("use of a foreign static", e.span),
                _ => {}
            },
            hir::ExprKind::Field(x, _) => if self.tck.expr_ty_adjusted(x).is_union() { self.hit("access to a union field", e.span) },
            hir::ExprKind::InlineAsm(_) => self.hit("inline assembly", e.span),
            _ => {}
        }
        intravisit::walk_expr(self, e)
    }
}

fn cells<'tcx>(tcx: TyCtxt<'tcx>, t: Ty<'tcx>, path: String, seen: &mut HashSet<Ty<'tcx>>, out: &mut Vec<String>, depth: usize) {
    if depth > 40 || !seen.insert(t) { return; }
    match t.kind() {
        ty::Adt(d, args) => {
            if d.is_unsafe_cell() { out.push(path); return; }
            for a in args.types() { cells(tcx, a, path.clone(), seen, out, depth + 1) }
            for f in d.all_fields() {
                let ft = f.ty(tcx, args).skip_norm_wip();
                cells(tcx, ft, format!("{}.{}", path, f.name), seen, out, depth + 1);
            }
        }
        ty::Ref(_, x, _) | ty::RawPtr(x, _) | ty::Slice(x) | ty::Array(x, _) => cells(tcx, *x, path, seen, out, depth + 1),
        ty::Tuple(ts) => for (i, x) in ts.iter().enumerate() { cells(tcx, x, format!("{}.{}", path, i), seen, out, depth + 1) },
        _ => {}
    }
}

struct Flow<'a, 'tcx> { tcx: TyCtxt<'tcx>, body: &'a mir::Body<'tcx>, mutates: Vec<String>, calls: BTreeSet<String>, builds: BTreeSet<String>, span: Span }
impl<'a, 'tcx> Flow<'a, 'tcx> {
    fn touched(&mut self, p: &mir::Place<'tcx>, how: &str, s: Span) {
        for (b, e) in p.as_ref().iter_projections() {
            if let mir::ProjectionElem::Field(f, _) = e {
                let bt = b.ty(&self.body.local_decls, self.tcx);
                if let ty::Adt(d, _) = bt.ty.kind() {
                    if d.did().is_local() && d.is_struct() {
                        let n = d.non_enum_variant().fields[f].name.to_string();
                        self.mutates.push(format!(r#"{{"adt":{},"field":{},"how":{},"at":{}}}"#, q(&self.tcx.def_path_str(d.did())), q(&n), q(how), q(&at(self.tcx, s))));
                    }
                }
            }
        }
    }
}
impl<'a, 'tcx> MirVisitor<'tcx> for Flow<'a, 'tcx> {
    fn visit_assign(&mut self, p: &mir::Place<'tcx>, r: &mir::Rvalue<'tcx>, l: mir::Location) {
        let s = self.body.source_info(l).span;
        self.touched(p, "assigned", s);
        match r {
            mir::Rvalue::Ref(_, mir::BorrowKind::Mut { .. }, x) => self.touched(x, "mutably borrowed", s),
            mir::Rvalue::RawPtr(k, x) if format!("{:?}", k).contains("Mut") => self.touched(x, "mutably borrowed", s),
            mir::Rvalue::Aggregate(k, _) => if let mir::AggregateKind::Adt(d, ..) = **k { self.builds.insert(q(&self.tcx.def_path_str(d))); },
            _ => {}
        }
        self.super_assign(p, r, l)
    }
    fn visit_terminator(&mut self, t: &mir::Terminator<'tcx>, l: mir::Location) {
        if let mir::TerminatorKind::Call { destination, .. } = &t.kind { self.touched(destination, "assigned", t.source_info.span) }
        self.span = t.source_info.span;
        self.super_terminator(t, l)
    }
    fn visit_const_operand(&mut self, c: &mir::ConstOperand<'tcx>, _l: mir::Location) {
        if let ty::FnDef(d, _) = c.const_.ty().kind() {
            let ours = ours(c.span);
            self.calls.insert(format!(r#"{{"def":{},"krate":{},"local":{},"ours":{},"at":{}}}"#, q(&self.tcx.def_path_str(*d)), q(self.tcx.crate_name(d.krate).as_str()), d.is_local(), ours, q(&at(self.tcx, c.span))));
        }
    }
}

fn contains<'tcx>(tcx: TyCtxt<'tcx>, t: Ty<'tcx>, value: &mut BTreeSet<String>, mutref: &mut BTreeSet<String>, shared: &mut BTreeSet<String>) {
    fn go<'tcx>(tcx: TyCtxt<'tcx>, t: Ty<'tcx>, mode: u8, v: &mut BTreeSet<String>, m: &mut BTreeSet<String>, s: &mut BTreeSet<String>, depth: usize) {
        if depth > 30 { return; }
        match t.kind() {
            ty::Ref(_, x, k) => go(tcx, *x, if k.is_mut() && mode != 2 { 1 } else { 2 }, v, m, s, depth + 1),
            ty::Adt(d, args) => {
                if d.did().is_local() { let n = q(&tcx.def_path_str(d.did())); match mode { 0 => v.insert(n), 1 => m.insert(n), _ => s.insert(n) }; }
                for a in args.types() { go(tcx, a, mode, v, m, s, depth + 1) }
            }
            ty::Slice(x) | ty::Array(x, _) | ty::RawPtr(x, _) => go(tcx, *x, mode, v, m, s, depth + 1),
            ty::Tuple(ts) => for x in ts.iter() { go(tcx, x, mode, v, m, s, depth + 1) },
            _ => {}
        }
    }
    go(tcx, t, 0, value, mutref, shared, 0)
}

pub fn dump(tcx: TyCtxt, out: &str) {
    let vis = tcx.effective_visibilities(());
    let mut ops = vec![];
    let (mut exprs, mut calls, mut bodies) = (0usize, 0usize, 0usize);
    let mut fns = vec![];
    for owner in tcx.hir_body_owners() {
        let Some(body) = tcx.hir_maybe_body_owned_by(owner) else { continue };
        bodies += 1;
        let mut v = Ops { tcx, tck: tcx.typeck(owner), owner: tcx.def_path_str(owner.to_def_id()), exprs: 0, calls: 0, out: vec![] };
        v.visit_body(body);
        exprs += v.exprs; calls += v.calls; ops.extend(v.out);
        let did = owner.to_def_id();
        let kind = tcx.def_kind(did);
        if !matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Closure) { continue; }
        let b = tcx.optimized_mir(did);
        let mut fl = Flow { tcx, body: b, mutates: vec![], calls: BTreeSet::new(), builds: BTreeSet::new(), span: b.span };
        fl.visit_body(b);
        let root = tcx.typeck_root_def_id(did);
        let (mut iv, mut im, mut is) = (BTreeSet::new(), BTreeSet::new(), BTreeSet::new());
        let (mut ov, mut om, mut os) = (BTreeSet::new(), BTreeSet::new(), BTreeSet::new());
        let mut ins = vec![];
        let mut ret = String::new();
        if !matches!(kind, DefKind::Closure) {
            let sig = tcx.fn_sig(did).instantiate_identity().skip_norm_wip().skip_binder();
            // Self of an impl is the implementing type already; Self of a trait stays a parameter
            for t in sig.inputs() { ins.push(q(&format!("{}", t))); contains(tcx, *t, &mut iv, &mut im, &mut is); }
            ret = format!("{}", sig.output());
            contains(tcx, sig.output(), &mut ov, &mut om, &mut os);
        }
        let imp = tcx.impl_of_assoc(root);
        let tr = imp.and_then(|i| tcx.impl_opt_trait_ref(i)).map(|t| tcx.def_path_str(t.skip_binder().def_id));
        let assoc = tr.clone().map(|t| format!("{}::{}", t, tcx.item_name(root)));
        let set = |s: BTreeSet<String>| arr(s);
        fns.push(format!(r#"{{"name":{},"root":{},"at":{},"closure":{},"exported":{},"trait":{},"implements":{},"inputs":{},"ret":{},"in_value":{},"in_mut":{},"in_shared":{},"out_value":{},"out_mut":{},"mutates":{},"builds":{},"calls":{}}}"#,
            q(&tcx.def_path_str(did)), q(&tcx.def_path_str(root)), q(&at(tcx, tcx.def_span(did))), matches!(kind, DefKind::Closure),
            root.as_local().map_or(false, |l| vis.is_reachable(l)) || tr.is_some(), tr.map_or("null".into(), |t| q(&t)), assoc.map_or("null".into(), |t| q(&t)), arr(ins), q(&ret),
            set(iv), set(im), set(is), set(ov), set(om), arr(fl.mutates), set(fl.builds), set(fl.calls)));
    }
    let mut statics = vec![];
    let mut adts = vec![];
    let mut macros = vec![];
    let mut unsafe_items = vec![];
    let send = tcx.get_diagnostic_item(rustc_span::sym::Send);
    let sync = tcx.lang_items().sync_trait();
    for id in tcx.hir_crate_items(()).free_items() {
        let item = tcx.hir_item(id);
        let did: LocalDefId = item.owner_id.def_id;
        let name = tcx.def_path_str(did.to_def_id());
        let w = at(tcx, item.span);
        match item.kind {
            hir::ItemKind::Static(m, ..) => {
                let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let freeze = t.is_freeze(tcx, ty::TypingEnv::fully_monomorphized());
                statics.push(format!(r#"{{"name":{},"at":{},"mut":{},"freeze":{},"ty":{}}}"#, q(&name), q(&w), m.is_mut(), freeze, q(&format!("{}", t))));
            }
            hir::ItemKind::Macro(_, def, _) => {
                let text = rustc_ast_pretty_tokens(&def.body.tokens);
                let exported = tcx.hir_attrs(item.hir_id()).iter().any(|a| format!("{:?}", a).contains("MacroExport"));
                macros.push(format!(r#"{{"name":{},"at":{},"exported":{},"unsafe":{},"tokens":{}}}"#, q(&name), q(&w), exported, text.iter().filter(|x| *x == "unsafe").count(), text.len()));
            }
            hir::ItemKind::ForeignMod { .. } => unsafe_items.push(format!(r#"{{"what":"extern block","name":{},"at":{}}}"#, q(&name), q(&w))),
            hir::ItemKind::GlobalAsm { .. } => unsafe_items.push(format!(r#"{{"what":"global assembly","name":{},"at":{}}}"#, q(&name), q(&w))),
            hir::ItemKind::Impl(i) => if let Some(t) = i.of_trait {
                if !t.safety.is_safe() && ours(item.span) { unsafe_items.push(format!(r#"{{"what":"unsafe impl","name":{},"at":{}}}"#, q(&name), q(&w))) }
            },
            hir::ItemKind::Struct(..) | hir::ItemKind::Enum(..) | hir::ItemKind::Union(..) => {
                let d = tcx.adt_def(did);
                let self_ty = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let mut cs = vec![];
                let mut fs = vec![];
                for f in d.all_fields() {
                    let ft = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                    cells(tcx, ft, f.name.to_string(), &mut HashSet::new(), &mut cs, 0);
                    fs.push(format!(r#"{{"name":{},"ty":{},"public":{}}}"#, q(f.name.as_str()), q(&format!("{}", ft)), f.did.as_local().map_or(false, |l| vis.is_reachable(l))));
                }
                let args = GenericArgs::for_item(tcx, did.to_def_id(), |p, _| match p.kind {
                    ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
                    ty::GenericParamDefKind::Type { .. } => tcx.types.u8.into(),
                    ty::GenericParamDefKind::Const { .. } => ty::Const::from_bits(tcx, 1, ty::TypingEnv::fully_monomorphized(), tcx.types.usize).into(),
                });
                let conc = tcx.type_of(did).instantiate(tcx, args).skip_norm_wip();
                let ask = |tr: Option<DefId>| -> &'static str {
                    let Some(tr) = tr else { return "\"unknown\"" };
                    if conc.has_param() { return "\"unknown\""; }
                    let (infcx, env) = tcx.infer_ctxt().build_with_typing_env(ty::TypingEnv::fully_monomorphized());
                    let r = infcx.type_implements_trait(tr, [conc], env);
                    if r.must_apply_modulo_regions() { "\"yes\"" } else if r.may_apply() { "\"unknown\"" } else { "\"no\"" }
                };
                let mut traits = vec![];
                for &tr in tcx.traits(LOCAL_CRATE) {
                    if tcx.non_blanket_impls_for_ty(tr, self_ty).next().is_some() { traits.push(q(&tcx.def_path_str(tr))) }
                }
                adts.push(format!(r#"{{"name":{},"at":{},"public":{},"kind":"{}","types":{},"fields":{},"cells":{},"send":{},"sync":{},"traits":{}}}"#,
                    q(&name), q(&w), vis.is_reachable(did), if d.is_union() { "union" } else if d.is_enum() { "enum" } else { "struct" },
                    tcx.generics_of(did).own_params.iter().filter(|p| matches!(p.kind, ty::GenericParamDefKind::Type { .. })).count(),
                    arr(fs), arr(cs.iter().map(|x| q(x))), ask(send), ask(sync), arr(traits)));
            }
            _ => {}
        }
    }
    // symbol attributes which can collide with foreign code
    for owner in tcx.hir_body_owners() {
        let did = owner.to_def_id();
        if matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn | DefKind::Static { .. }) {
            let a = tcx.codegen_fn_attrs(did);
            if a.flags.contains(rustc_middle::middle::codegen_fn_attrs::CodegenFnAttrFlags::NO_MANGLE) || a.link_section.is_some() || a.symbol_name.is_some() {
                unsafe_items.push(format!(r#"{{"what":"symbol attribute","name":{},"at":{}}}"#, q(&tcx.def_path_str(did)), q(&at(tcx, tcx.def_span(did)))));
            }
        }
    }
    let s = format!("{{\"bodies\":{},\"exprs\":{},\"calls\":{},\"unsafe_ops\":{},\"unsafe_items\":{},\"statics\":{},\"macros\":{},\"adts\":{},\"fns\":{}}}",
        bodies, exprs, calls, arr(ops), arr(unsafe_items), arr(statics), arr(macros), arr(adts), format!("[{}]", fns.join(",\n")));
    std::fs::write(format!("{}/items.json", out), s).unwrap();
}

fn rustc_ast_pretty_tokens(t: &rustc_ast::tokenstream::TokenStream) -> Vec<String> {
    let mut v = vec![];
    for x in t.iter() {
        match x {
            rustc_ast::tokenstream::TokenTree::Token(t, _) => v.push(match t.ident() { Some((i, _)) => i.name.to_string(), None => "?".into() }),
            rustc_ast::tokenstream::TokenTree::Delimited(_, _, _, s) => v.extend(rustc_ast_pretty_tokens(s)),
        }
    }
    v
}
