//! What the type-checked source says beyond MIR: unsafe code, statics, foreign crates, visibility.
use rustc_hir as hir;
use rustc_hir::intravisit::{self, Visitor};
use rustc_middle::hir::nested_filter;
use rustc_middle::ty::TyCtxt;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, Default)]
pub struct StaticInfo {
    pub name: String,
    pub span: String,
    pub ty: String,
    pub mutable: bool,
    pub freeze: bool,
    pub thread_local: bool,
}
#[derive(Clone, Debug, Default)]
pub struct Source {
    /// unsafe blocks, functions, implementations and foreign blocks written in this crate
    pub unsafe_sites: Vec<(String, String)>,
    pub statics: Vec<StaticInfo>,
    /// crates that are no part of the toolchain
    pub foreign_crates: Vec<String>,
    /// functions that can be named from outside the crate (by span), or called through a trait
    pub public: BTreeSet<String>,
    /// functions written by a derive
    pub derived: BTreeSet<String>,
    pub bodies: usize,
    pub names: BTreeMap<String, String>,
}

thread_local! {
    static SOURCE: std::cell::RefCell<Source> = Default::default();
}
pub fn get() -> Source {
    SOURCE.with(|s| s.borrow().clone())
}

struct V<'tcx> {
    tcx: TyCtxt<'tcx>,
    out: Source,
}
impl<'tcx> V<'tcx> {
    fn span(&self, s: rustc_span::Span) -> String {
        let l = self.tcx.sess.source_map().lookup_char_pos(s.lo());
        format!("{}:{}:{}", l.file.name.prefer_local_unconditionally(), l.line, l.col.0 + 1)
    }
    fn unsafe_site(&mut self, s: rustc_span::Span, what: &str) {
        if !s.allows_unsafe() && !s.in_derive_expansion() {
            let t = self.span(s);
            self.out.unsafe_sites.push((t, what.to_string()));
        }
    }
}
impl<'tcx> Visitor<'tcx> for V<'tcx> {
    type NestedFilter = nested_filter::All;
    fn maybe_tcx(&mut self) -> TyCtxt<'tcx> {
        self.tcx
    }
    fn visit_block(&mut self, b: &'tcx hir::Block<'tcx>) {
        if let hir::BlockCheckMode::UnsafeBlock(hir::UnsafeSource::UserProvided) = b.rules {
            self.unsafe_site(b.span, "an unsafe block");
        }
        intravisit::walk_block(self, b);
    }
    fn visit_fn(&mut self, k: intravisit::FnKind<'tcx>, d: &'tcx hir::FnDecl<'tcx>, b: hir::BodyId, s: rustc_span::Span, id: rustc_span::def_id::LocalDefId) {
        if let Some(h) = k.header() {
            if h.is_unsafe() {
                self.unsafe_site(s, "an unsafe function");
            }
        }
        intravisit::walk_fn(self, k, d, b, id);
    }
    fn visit_item(&mut self, i: &'tcx hir::Item<'tcx>) {
        match &i.kind {
            hir::ItemKind::ForeignMod { .. } => self.unsafe_site(i.span, "a foreign block"),
            hir::ItemKind::GlobalAsm { .. } => self.unsafe_site(i.span, "global assembly"),
            hir::ItemKind::Impl(im) => {
                if let Some(t) = im.of_trait {
                    if t.safety.is_unsafe() {
                        self.unsafe_site(i.span, "an unsafe implementation");
                    }
                }
            }
            hir::ItemKind::Static(m, ..) => {
                let id = i.owner_id.to_def_id();
                let ty = self.tcx.type_of(id).instantiate_identity().skip_normalization();
                let env = rustc_middle::ty::TypingEnv::non_body_analysis(self.tcx, id);
                let s = StaticInfo {
                    name: self.tcx.def_path_str(id),
                    span: self.span(i.span),
                    ty: format!("{}", ty),
                    mutable: m.is_mut(),
                    freeze: ty.is_freeze(self.tcx, env),
                    thread_local: self.tcx.is_thread_local_static(id),
                };
                self.out.statics.push(s);
            }
            _ => {}
        }
        intravisit::walk_item(self, i);
    }
}

pub fn gather(tcx: TyCtxt<'_>) {
    let mut v = V { tcx, out: Source::default() };
    tcx.hir_visit_all_item_likes_in_crate(&mut v);
    let sysroot = tcx.sess.opts.sysroot.path().to_path_buf();
    for c in tcx.crates(()) {
        let src = tcx.used_crate_source(*c);
        let inside = src.paths().any(|p| p.starts_with(&sysroot));
        if !inside {
            v.out.foreign_crates.push(tcx.crate_name(*c).to_string());
        }
    }
    let vis = tcx.effective_visibilities(());
    for d in tcx.hir_body_owners() {
        v.out.bodies += 1;
        let id = d.to_def_id();
        let name = tcx.def_path_str(id);
        if vis.is_reachable(d) {
            v.out.public.insert(v.span(tcx.def_span(id)));
        }
        let k = tcx.def_kind(id);
        if matches!(k, hir::def::DefKind::AssocFn) {
            if let Some(im) = tcx.impl_of_assoc(id) {
                if tcx.is_automatically_derived(im) {
                    v.out.derived.insert(v.span(tcx.def_span(id)));
                }
            }
        }
    }
    SOURCE.with(|s| *s.borrow_mut() = v.out);
}
