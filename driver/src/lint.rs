//! Lists every use of `unsafe` in the crate being compiled, from HIR.
use rustc_hir as hir;
use rustc_hir::intravisit::{self, Visitor};
use rustc_middle::hir::nested_filter;
use rustc_middle::ty::TyCtxt;
use std::io::Write;

struct V<'tcx> {
    tcx: TyCtxt<'tcx>,
    out: Vec<String>,
}

impl<'tcx> V<'tcx> {
    fn loc(&self, sp: rustc_span::Span) -> String {
        self.tcx.sess.source_map().span_to_diagnostic_string(sp)
    }
    fn owner(&self, id: hir::HirId) -> String {
        self.tcx.def_path_str(id.owner.to_def_id())
    }
    fn op(&mut self, kind: &str, d: rustc_hir::def_id::DefId, e: &hir::Expr<'_>) {
        let k = format!("{} {}", kind, self.tcx.def_path_str(d));
        self.push(&k, e.hir_id, e.span);
    }
    fn push(&mut self, kind: &str, id: hir::HirId, sp: rustc_span::Span) {
        let exp = sp.from_expansion();
        self.out.push(format!(
            "{{\"kind\":{},\"owner\":{},\"at\":{},\"expansion\":{}}}",
            crate::esc(kind),
            crate::esc(&self.owner(id)),
            crate::esc(&self.loc(sp)),
            exp
        ));
    }
}

impl<'tcx> Visitor<'tcx> for V<'tcx> {
    type NestedFilter = nested_filter::All;
    fn maybe_tcx(&mut self) -> TyCtxt<'tcx> {
        self.tcx
    }
    fn visit_block(&mut self, b: &'tcx hir::Block<'tcx>) {
        if let hir::BlockCheckMode::UnsafeBlock(_) = b.rules {
            self.push("block", b.hir_id, b.span);
        }
        intravisit::walk_block(self, b);
    }
    fn visit_item(&mut self, i: &'tcx hir::Item<'tcx>) {
        match &i.kind {
            hir::ItemKind::Fn { sig, .. } => {
                if !sig.header.is_safe() {
                    self.push("fn", i.hir_id(), i.span);
                }
            }
            hir::ItemKind::Impl(im) => {
                if let Some(tr) = im.of_trait {
                    if matches!(tr.safety, hir::Safety::Unsafe) {
                        self.push("impl", i.hir_id(), i.span);
                    }
                }
            }
            hir::ItemKind::Static(m, ..) => {
                if matches!(m, hir::Mutability::Mut) {
                    self.push("static mut", i.hir_id(), i.span);
                }
            }
            _ => {}
        }
        intravisit::walk_item(self, i);
    }
    fn visit_expr(&mut self, e: &'tcx hir::Expr<'tcx>) {
        let owner = e.hir_id.owner.def_id;
        if self.tcx.has_typeck_results(owner) {
            let tck = self.tcx.typeck(owner);
            let callee = match &e.kind {
                hir::ExprKind::Path(q) => match tck.qpath_res(q, e.hir_id) {
                    hir::def::Res::Def(hir::def::DefKind::Fn | hir::def::DefKind::AssocFn, d) => Some(d),
                    hir::def::Res::Def(hir::def::DefKind::Static { mutability: hir::Mutability::Mut, .. }, d) => {
                        self.op("static mut", d, e);
                        None
                    }
                    _ => None,
                },
                hir::ExprKind::MethodCall(..) => tck.type_dependent_def_id(e.hir_id),
                hir::ExprKind::Unary(hir::UnOp::Deref, x) => {
                    if tck.expr_ty_adjusted(x).is_raw_ptr() {
                        self.push("deref", e.hir_id, e.span);
                    }
                    None
                }
                _ => None,
            };
            if let Some(d) = callee {
                if !self.tcx.fn_sig(d).skip_binder().safety().is_safe() {
                    self.op("call", d, e);
                }
            }
        }
        intravisit::walk_expr(self, e);
    }
    fn visit_impl_item(&mut self, i: &'tcx hir::ImplItem<'tcx>) {
        if let hir::ImplItemKind::Fn(sig, _) = &i.kind {
            if !sig.header.is_safe() {
                self.push("fn", i.hir_id(), i.span);
            }
        }
        intravisit::walk_impl_item(self, i);
    }
}

pub fn run(tcx: TyCtxt<'_>, path: &str) {
    let mut v = V { tcx, out: vec![] };
    tcx.hir_visit_all_item_likes_in_crate(&mut v);
    let mut f = std::fs::File::create(path).unwrap();
    for l in &v.out {
        writeln!(f, "{}", l).unwrap();
    }
    writeln!(f, "{{\"kind\":\"end\"}}").unwrap();
}
