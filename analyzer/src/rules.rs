//! Rules over the type-checked crate itself (run as its compiler): what outside
//! code can reach of the representation, and how every public function that
//! makes or changes a guarded value can be called.
use rustc_ast::attr::AttributeExt;
use crate::jstr;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::ty::print::{PrintTraitRefExt, with_no_trimmed_paths, with_resolve_crate_name};
use rustc_middle::ty::{self, GenericArg, GenericArgKind, Ty, TyCtxt, TypeVisitableExt, Unnormalized};
use rustc_infer::infer::TyCtxtInferExt;
use rustc_trait_selection::infer::InferCtxtExt;
use std::collections::{BTreeMap, BTreeSet};
use std::ops::ControlFlow;

struct R<'t> {
    tcx: TyCtxt<'t>,
    guarded: Vec<DefId>,
    parts: Vec<DefId>,
    reports: Vec<(String, String, String)>,
    incomplete: BTreeSet<String>,
    checks: BTreeMap<String, u64>,
    calls: Vec<String>,
    inputs: BTreeSet<String>,
    harnesses: BTreeMap<String, String>,
    /// call every public function, whatever it is about
    all: bool,
    skipped: BTreeSet<String>,
}

/// What is known of one function's generic parameters.
enum Param<'t> {
    Elem,
    Seq(Ty<'t>),
    Func(Vec<Ty<'t>>, Ty<'t>),
    Other,
}

pub fn show<T: std::fmt::Display>(t: T) -> String {
    let s = with_resolve_crate_name!(with_no_trimmed_paths!(t.to_string()));
    s.replace("crate::", "normalize_interval::")
}
fn word(s: &str, from: &str, to: &str) -> String {
    let id = |c: char| c.is_alphanumeric() || c == '_';
    let mut out = String::new();
    let mut rest = s;
    while let Some(i) = rest.find(from) {
        let before = rest[..i].chars().next_back().or(out.chars().next_back());
        let after = rest[i + from.len()..].chars().next();
        out.push_str(&rest[..i]);
        let part = |c: Option<char>| c.map_or(false, id);
        if part(before) || part(after) || before == Some('\'') {
            out.push_str(from);
        } else {
            out.push_str(to);
        }
        rest = &rest[i + from.len()..];
    }
    out + rest
}

impl<'t> R<'t> {
    fn count(&mut self, k: &str) {
        *self.checks.entry(k.into()).or_insert(0) += 1;
    }
    fn at(&self, d: DefId) -> String {
        self.tcx.sess.source_map().span_to_diagnostic_string(self.tcx.def_span(d))
    }
    fn report(&mut self, key: &str, what: &str, text: String) {
        self.reports.push((key.into(), what.into(), text));
    }
    fn adt(&self, name: &str) -> Option<DefId> {
        let mut found = self.tcx.hir_crate_items(()).definitions().map(|d| d.to_def_id()).filter(|d| {
            matches!(self.tcx.def_kind(*d), DefKind::Struct | DefKind::Enum | DefKind::Union)
                && self.tcx.opt_item_name(*d).is_some_and(|n| n.as_str() == name)
        });
        let f = found.next();
        if found.next().is_some() { None } else { f }
    }
    fn is_adt(&self, t: Ty<'t>, of: &[DefId]) -> bool {
        matches!(t.kind(), ty::Adt(d, _) if of.contains(&d.did()))
    }
    /// every type the given one mentions; for unnamed types, their bounds too
    fn mentions(&self, t: Ty<'t>) -> Vec<Ty<'t>> {
        let mut out = vec![];
        let mut todo = vec![t];
        let mut seen = BTreeSet::new();
        while let Some(t) = todo.pop() {
            for a in GenericArg::from(t).walk() {
                let GenericArgKind::Type(x) = a.kind() else { continue };
                if !seen.insert(format!("{:?}", x)) {
                    continue;
                }
                out.push(x);
                let bounds: Vec<ty::Clause<'t>> = match x.kind() {
                    ty::Alias(_, al) => match al.kind {
                        ty::AliasTyKind::Opaque { def_id } => self
                            .tcx
                            .explicit_item_bounds(def_id)
                            .iter_instantiated_copied(self.tcx, al.args)
                            .map(|c| c.skip_normalization().0)
                            .collect(),
                        _ => vec![],
                    },
                    _ => vec![],
                };
                for c in bounds {
                    self.clause_types(c, &mut todo);
                }
                if let ty::Dynamic(preds, ..) = x.kind() {
                    for p in preds.iter() {
                        if let ty::ExistentialPredicate::Projection(p) = p.skip_binder() {
                            todo.extend(p.term.as_type());
                        }
                    }
                }
            }
        }
        out
    }
    fn clause_types(&self, c: ty::Clause<'t>, todo: &mut Vec<Ty<'t>>) {
        match c.kind().skip_binder() {
            ty::ClauseKind::Projection(p) => todo.extend(p.term.as_type()),
            ty::ClauseKind::Trait(p) => todo.extend(p.trait_ref.args.types().skip(1)),
            _ => {}
        }
    }
    fn holds(&self, t: Ty<'t>, of: &[DefId]) -> bool {
        self.mentions(t).iter().any(|x| self.is_adt(*x, of))
    }
    fn iter_item(&self, env: ty::TypingEnv<'t>, t: Ty<'t>, name: &str) -> Option<Ty<'t>> {
        let tcx = self.tcx;
        let tr = self.trait_named(name)?;
        let (infcx, penv) = tcx.infer_ctxt().build_with_typing_env(env);
        if t.has_escaping_bound_vars() || !infcx.type_implements_trait(tr, [t], penv).must_apply_modulo_regions() {
            return None;
        }
        let base = self.trait_named("Iterator")?;
        let item = tcx.associated_items(base).in_definition_order().find(|i| i.name().as_str() == "Item")?.def_id;
        let p = Ty::new_projection(tcx, ty::IsRigid::No, item, [GenericArg::from(t)]);
        tcx.try_normalize_erasing_regions(env, Unnormalized::new_wip(p)).ok()
    }
    fn trait_named(&self, name: &str) -> Option<DefId> {
        self.tcx.get_diagnostic_item(rustc_span::Symbol::intern(name))
    }

    // ---- the representation ------------------------------------------------------
    fn representation(&mut self) {
        let tcx = self.tcx;
        for g in self.guarded.clone() {
            let def = tcx.adt_def(g);
            let name = tcx.item_name(g);
            self.count("guarded types");
            if !def.is_struct() {
                self.report(
                    &format!("{} variants", name),
                    &format!("{} can be put together outside: the parts of an enum or union are public", name),
                    format!("at {}", self.at(g)),
                );
            }
            for f in def.all_fields() {
                self.count("fields of guarded types");
                if f.vis.is_public() {
                    self.report(
                        &format!("{}.{} public", name, f.name),
                        &format!("field {}.{} is public: outside code can replace the representation", name, f.name),
                        format!("at {}", self.at(f.did)),
                    );
                }
            }
            // shared references must not allow changes
            let mut todo: Vec<(Ty<'t>, String)> =
                def.all_fields().map(|f| (tcx.type_of(f.did).instantiate_identity().skip_normalization(), format!("{}.{}", name, f.name))).collect();
            let mut seen = BTreeSet::new();
            while let Some((t, path)) = todo.pop() {
                for a in GenericArg::from(t).walk() {
                    let GenericArgKind::Type(x) = a.kind() else { continue };
                    if !seen.insert(format!("{:?}", x)) {
                        continue;
                    }
                    self.count("types inside guarded types");
                    if let Some(w) = self.shared_mutable(x) {
                        self.report(
                            &format!("{} {}", path, w),
                            &format!("{} holds {}: shared references would allow changes", path, w),
                            format!("at {}", self.at(g)),
                        );
                    }
                    if let ty::Adt(d, args) = x.kind() {
                        if d.did().is_local() {
                            if !self.parts.contains(&d.did()) {
                                self.parts.push(d.did());
                            }
                            for f in d.all_fields() {
                                todo.push((f.ty(tcx, args).skip_normalization(), format!("{}.{}", path, f.name)));
                            }
                        }
                    }
                }
            }
        }
    }
    fn shared_mutable(&self, x: Ty<'t>) -> Option<String> {
        match x.kind() {
            ty::Adt(d, _) => {
                let p = self.tcx.def_path_str(d.did());
                let last = p.rsplit("::").next().unwrap_or("");
                let cell = ["UnsafeCell", "SyncUnsafeCell", "Cell", "RefCell", "OnceCell", "LazyCell", "Mutex", "RwLock", "OnceLock", "LazyLock", "LocalKey", "ReentrantLock"];
                (!d.did().is_local() && (cell.contains(&last) || last.starts_with("Atomic"))).then(|| format!("a {}", p))
            }
            ty::RawPtr(..) => Some("a raw pointer".into()),
            _ => None,
        }
    }
    fn globals(&mut self) {
        let tcx = self.tcx;
        for d in tcx.hir_crate_items(()).definitions() {
            let id = d.to_def_id();
            match tcx.def_kind(id) {
                DefKind::Static { mutability, .. } => {
                    self.count("global variables");
                    let t = tcx.type_of(id).instantiate_identity().skip_normalization();
                    let bad = mutability.is_mut() || self.mentions(t).iter().any(|x| self.shared_mutable(*x).is_some());
                    if bad {
                        self.report(&format!("static {}", tcx.def_path_str(id)), "global state that can change", format!("{} at {}", tcx.def_path_str(id), self.at(id)));
                    }
                }
                DefKind::Const { .. } => {
                    let t = tcx.type_of(id).instantiate_identity().skip_normalization();
                    self.count("constants");
                    if self.mentions(t).iter().any(|x| self.shared_mutable(*x).is_some()) {
                        self.report(&format!("const {}", tcx.def_path_str(id)), "global state that can change", format!("{} at {}", tcx.def_path_str(id), self.at(id)));
                    }
                }
                DefKind::Impl { of_trait: true } => {
                    let h = tcx.impl_trait_header(id);
                    if h.safety.is_unsafe() {
                        self.report(&format!("unsafe impl {}", self.at(id)), "unsafe implementation", format!("at {}", self.at(id)));
                    }
                }
                DefKind::Fn | DefKind::AssocFn => {
                    if tcx.fn_sig(id).skip_binder().safety().is_unsafe() {
                        self.report(&format!("unsafe fn {}", tcx.def_path_str(id)), "unsafe function", format!("{} at {}", tcx.def_path_str(id), self.at(id)));
                    }
                }
                _ => {}
            }
        }
        for d in tcx.hir_body_owners() {
            self.count("bodies searched for unsafe code");
            let mut v = Unsafe { found: vec![] };
            if let Some(b) = tcx.hir_maybe_body_owned_by(d) {
                rustc_hir::intravisit::Visitor::visit_body(&mut v, b);
            }
            for s in v.found {
                let at = tcx.sess.source_map().span_to_diagnostic_string(s);
                // derived and standard macro code vouches for itself
                if s.from_expansion() && !s.ctxt().outer_expn_data().macro_def_id.is_some_and(|m| m.is_local()) {
                    continue;
                }
                self.report(&format!("unsafe in {}", tcx.def_path_str(d.to_def_id())), "unsafe code", format!("in {} at {}", tcx.def_path_str(d.to_def_id()), at));
            }
        }
    }

    // ---- public functions ----------------------------------------------------------
    fn functions(&mut self) {
        let tcx = self.tcx;
        let vis = tcx.effective_visibilities(());
        let ids: Vec<LocalDefId> = tcx.hir_crate_items(()).definitions().collect();
        for d in ids {
            let id = d.to_def_id();
            if !matches!(tcx.def_kind(id), DefKind::Fn | DefKind::AssocFn) {
                continue;
            }
            let reachable = match tcx.opt_parent(id).filter(|p| matches!(tcx.def_kind(*p), DefKind::Impl { of_trait: true })) {
                // methods of a trait implementation are reachable through the trait
                // (unless the trait, or a type it is implemented for, is private)
                Some(p) => {
                    let tr = tcx.impl_trait_header(p).trait_ref.instantiate_identity().skip_normalization();
                    let open = |x: DefId| x.as_local().is_none_or(|l| vis.is_reachable(l));
                    open(tr.def_id)
                        && tr.args.types().all(|t| {
                            self.mentions(t).iter().all(|x| match x.kind() {
                                ty::Adt(d, _) => open(d.did()),
                                _ => true,
                            })
                        })
                }
                None => vis.is_reachable(d),
            };
            if !reachable {
                continue;
            }
            self.function(id);
        }
    }
    fn function(&mut self, id: DefId) {
        let tcx = self.tcx;
        self.count("public functions");
        let env = ty::TypingEnv::non_body_analysis(tcx, id);
        let sig = tcx.liberate_late_bound_regions(id, tcx.fn_sig(id).instantiate_identity().skip_normalization());
        let sig = match tcx.try_normalize_erasing_regions(env, Unnormalized::new_wip(sig)) {
            Ok(s) => s,
            Err(_) => {
                self.incomplete.insert(format!("signature of {} not normalized", tcx.def_path_str(id)));
                return;
            }
        };
        let g = self.guarded.clone();
        let (ins, out) = (sig.inputs().to_vec(), sig.output());
        let mut changed = false;
        for t in &ins {
            for x in self.mentions(*t) {
                if let ty::Ref(_, y, m) = x.kind() {
                    changed |= m.is_mut() && self.holds(*y, &g);
                }
            }
        }
        let makes = self.holds(out, &g) || self.iter_item(env, out, "Iterator").is_some_and(|t| self.holds(t, &g));
        let name = tcx.def_path_str(id);
        // handing out the inside of something that can be changed
        if changed && !self.all {
            self.count("public functions that can change a guarded value");
            let mut todo = vec![out];
            let mut seen = BTreeSet::new();
            while let Some(t) = todo.pop() {
                for x in self.mentions(t) {
                    if !seen.insert(format!("{:?}", x)) {
                        continue;
                    }
                    let hands = match x.kind() {
                        ty::Ref(_, y, m) => m.is_mut() && !self.is_adt(*y, &g),
                        ty::RawPtr(y, _) => !self.is_adt(*y, &g),
                        ty::Adt(d, args) if !d.did().is_local() => {
                            let n = tcx.item_name(d.did());
                            let n = n.as_str();
                            (n.ends_with("Mut") || n == "ValuesMut" || n == "CursorMut" || n.starts_with("Drain") || n.contains("Entry"))
                                && args.types().any(|y| !self.is_adt(y, &g))
                        }
                        ty::Adt(d, args) => {
                            for f in d.all_fields() {
                                todo.push(f.ty(tcx, args).skip_normalization());
                            }
                            false
                        }
                        _ => false,
                    };
                    if hands {
                        self.report(
                            &format!("{} hands out", name),
                            &format!("{} hands out {}: outside code can change the representation", name, show(x)),
                            format!("{} at {}", show(sig), self.at(id)),
                        );
                    }
                }
            }
        }
        if !makes && !changed && !self.all {
            return;
        }
        if self.all {
            if tcx.is_doc_hidden(id) {
                return;
            }
            let docs: String = id
                .as_local()
                .map(|d| tcx.hir_attrs(tcx.local_def_id_to_hir_id(d)).iter().filter_map(|a| a.doc_str()).map(|s| s.to_string() + "\n").collect())
                .unwrap_or_default();
            if docs.contains("# Panics") {
                self.skipped.insert(format!("{}: its documentation names when it panics", name));
                return;
            }
            let tine = self.adt("Tine").into_iter().collect::<Vec<_>>();
            if ins.iter().chain([&out]).any(|t| self.holds(*t, &tine)) && !ins.iter().any(|t| self.holds(*t, &g)) {
                self.skipped.insert(format!("{}: markers have preconditions (T01 to T03)", name));
                return;
            }
            self.count("public functions called with arbitrary arguments");
        } else {
            self.count("public functions that make or change a guarded value");
        }
        // an iterator's own step is looked at where the iterator is made
        if let Some(t) = ins.first() {
            if let ty::Ref(_, y, _) = t.kind() {
                if self.iter_item(env, *y, "Iterator").is_some() && (self.all || !self.is_adt(*y, &g)) {
                    let m = tcx.item_name(id);
                    if matches!(m.as_str(), "next" | "next_back") {
                        self.inputs.insert(show(*y));
                        return;
                    }
                }
            }
        }
        match self.call(id, env, &ins, out, changed) {
            Ok((h, code)) => {
                let mut h2 = h.clone();
                let mut n = 2;
                while self.harnesses.contains_key(&h2) {
                    h2 = format!("{}_{}", h, n);
                    n += 1;
                }
                self.calls.push(name);
                self.harnesses.insert(h2, code);
            }
            Err(e) if self.all => {
                self.skipped.insert(format!("{}: {}", name, e));
            }
            Err(e) => {
                self.incomplete.insert(format!("{} is not analysed: {}", name, e));
            }
        }
    }
    fn params(&self, id: DefId) -> Vec<(String, Param<'t>)> {
        let tcx = self.tcx;
        let mut out = vec![];
        let gs = tcx.generics_of(id);
        let preds = tcx.clauses_of(id).instantiate_identity(tcx);
        let clauses: Vec<ty::Clause<'t>> = preds.clauses.into_iter().map(|c| c.skip_normalization()).collect();
        for i in 0..gs.count() {
            let p = gs.param_at(i, tcx);
            let ty::GenericParamDefKind::Type { .. } = p.kind else { continue };
            let me = Ty::new_param(tcx, p.index, p.name);
            let mut kind = Param::Elem;
            let plain = ["Ord", "PartialOrd", "Eq", "PartialEq", "Clone", "Sized", "MetaSized", "PointeeSized", "Finite", "Hash", "Display", "FromStr", "UseCloned"];
            let mut args = None;
            for c in &clauses {
                match c.kind().skip_binder() {
                    ty::ClauseKind::Trait(t) if t.self_ty() == me => {
                        let n = tcx.item_name(t.trait_ref.def_id);
                        let n = n.as_str();
                        if ["Iterator", "IntoIterator", "DoubleEndedIterator", "FusedIterator"].contains(&n) {
                            if !matches!(kind, Param::Seq(_)) {
                                kind = Param::Seq(me);
                            }
                        } else if ["Fn", "FnMut", "FnOnce"].contains(&n) {
                            args = Some(t.trait_ref.args.type_at(1));
                        } else if !plain.contains(&n) {
                            kind = Param::Other;
                        }
                    }
                    _ => {}
                }
            }
            for c in &clauses {
                if let ty::ClauseKind::Projection(pr) = c.kind().skip_binder() {
                    if pr.self_ty() == me {
                        let n = tcx.item_name(pr.def_id());
                        match (n.as_str(), pr.term.as_type(), &args) {
                            ("Item", Some(t), None) => kind = Param::Seq(t),
                            ("Output", Some(t), Some(a)) => {
                                if let ty::Tuple(ts) = a.kind() {
                                    kind = Param::Func(ts.iter().collect(), t)
                                }
                            }
                            _ => {}
                        }
                    }
                }
            }
            // an iterator without a known item cannot be made up
            if let Param::Seq(t) = &kind {
                if *t == me {
                    kind = Param::Other;
                }
            }
            out.push((p.name.to_string(), kind));
        }
        out
    }
    fn call(&self, id: DefId, env: ty::TypingEnv<'t>, ins: &[Ty<'t>], out: Ty<'t>, changed: bool) -> Result<(String, String), String> {
        let tcx = self.tcx;
        let ps = self.params(id);
        // trees alone work over any order; the others need a finite element type
        let all: Vec<Ty<'t>> = ins.iter().copied().chain([out]).collect();
        let only_tree = all.iter().all(|t| !self.holds(*t, &self.guarded[..2]));
        let preds = tcx.clauses_of(id).instantiate_identity(tcx);
        let finite = preds.clauses.into_iter().any(|c| match c.skip_normalization().kind().skip_binder() {
            ty::ClauseKind::Trait(t) => matches!(tcx.item_name(t.trait_ref.def_id).as_str(), "Finite" | "Normalize"),
            _ => false,
        });
        let elem = if only_tree && !(self.all && finite) { "Tok" } else { "Fin" };
        let mut subst: Vec<(String, String)> = vec![];
        let mut funcs: BTreeMap<String, String> = BTreeMap::new();
        for (n, k) in &ps {
            match k {
                Param::Elem => subst.push((n.clone(), elem.into())),
                Param::Seq(_) => {}
                Param::Func(a, r) => {
                    if a.len() != 1 || !r.is_unit() {
                        return Err(format!("parameter {} is a function of another kind", n));
                    }
                    let ty::Ref(_, y, m) = a[0].kind() else { return Err(format!("parameter {} is a function of another kind", n)) };
                    let body = if m.is_mut() {
                        self.makable(*y, &ps)?;
                        "|x| *x = Any::any()"
                    } else {
                        "|_| ()"
                    };
                    funcs.insert(n.clone(), body.into());
                }
                Param::Other => return Err(format!("parameter {} has bounds that are not modelled", n)),
            }
        }
        let put = |s: String| {
            let mut s = s;
            for (n, k) in &ps {
                if let Param::Seq(t) = k {
                    s = word(&s, n, &format!("Feed<{}>", show(*t)));
                }
            }
            for (a, b) in &subst {
                s = word(&s, a, b);
            }
            s.replace("'{erased}", "'_").replace("'a", "'_").replace("'t ", "'_ ").replace("'t,", "'_,")
        };
        let mut code = String::new();
        if elem == "Fin" {
            code += "    discrete();\n";
        }
        code += &format!("    let w: {} = any_tok();\n    set_witness(&w);\n", elem);
        let mut args = vec![];
        let mut after = vec![];
        for (i, t) in ins.iter().enumerate() {
            if let ty::Param(p) = t.kind() {
                if let Some(b) = funcs.get(p.name.as_str()) {
                    args.push(b.clone());
                    continue;
                }
                if let Some((_, Param::Seq(x))) = ps.iter().find(|(n, _)| n == p.name.as_str()) {
                    self.makable(*x, &ps)?;
                    code += &format!("    let a{} = Feed::<{}>::new();\n", i, put(show(*x)));
                    args.push(format!("a{}", i));
                    continue;
                }
            }
            let (y, pre) = match t.kind() {
                ty::Ref(_, y, m) if m.is_mut() => {
                    if self.holds(*y, &self.guarded) {
                        after.push((i, *y));
                    }
                    (*y, "&mut ")
                }
                ty::Ref(_, y, _) if !y.is_str() => (*y, "&"),
                _ => (*t, ""),
            };
            self.makable(y, &ps)?;
            code += &format!("    let mut a{}: {} = Any::any();\n", i, put(show(y)));
            args.push(format!("{}a{}", pre, i));
        }
        let path = match tcx.opt_parent(id) {
            Some(p) if matches!(tcx.def_kind(p), DefKind::Impl { of_trait: true }) => {
                let tr = tcx.impl_trait_header(p).trait_ref.instantiate_identity().skip_normalization();
                format!("<{} as {}>::{}", put(show(tr.self_ty())), put(show(tr.print_only_trait_path())), tcx.item_name(id))
            }
            Some(p) if matches!(tcx.def_kind(p), DefKind::Impl { .. }) => {
                let s = tcx.type_of(p).instantiate_identity().skip_normalization();
                format!("<{}>::{}", put(show(s)), tcx.item_name(id))
            }
            Some(p) if matches!(tcx.def_kind(p), DefKind::Trait) => return Err("a trait's own method".into()),
            _ => put(show(tcx.def_path_str(id)).replacen("", "normalize_interval::", 1)),
        };
        code += &format!("    let r = {}({});\n", path, args.join(", "));
        code += &self.looked_at(env, out, "r", 0)?;
        if changed && !self.all {
            for (i, y) in after {
                if !self.is_adt(y, &self.guarded) {
                    return Err(format!("argument {} holds a guarded value inside {}", i, show(y)));
                }
                code += &format!("    a{}.norm();\n", i);
            }
        }
        code += "    reach(\"end\");\n";
        let h: String = tcx
            .def_path_str(id)
            .chars()
            .map(|c| if c.is_ascii_alphanumeric() { c } else { '_' })
            .collect::<String>()
            .split('_')
            .filter(|s| !s.is_empty())
            .collect::<Vec<_>>()
            .join("_");
        Ok((format!("h_{}_{}", if self.all { "E05" } else { "E01" }, h), code))
    }
    fn looked_at(&self, env: ty::TypingEnv<'t>, t: Ty<'t>, var: &str, depth: usize) -> Result<String, String> {
        let pad = "    ".repeat(depth + 1);
        if self.all {
            if depth > 0 || self.iter_item(env, t, "Iterator").is_none() {
                return Ok(format!("{}let _ = &{};\n", pad, var));
            }
            let both = self.iter_item(env, t, "DoubleEndedIterator").is_some();
            let step = if both { "if any_bool() { it.next() } else { it.next_back() }" } else { "it.next()" };
            return Ok(format!("{p}let mut it = {v};\n{p}loop {{\n{p}    if {s}.is_none() {{ break }}\n{p}}}\n{p}let _ = {s};\n", p = pad, v = var, s = step));
        }
        if self.holds(t, &self.guarded) && self.plain(t) {
            return Ok(format!("{}{}.norm();\n", pad, var));
        }
        if let Some(item) = self.iter_item(env, t, "Iterator").filter(|x| self.holds(*x, &self.guarded)) {
            let both = self.iter_item(env, t, "DoubleEndedIterator").is_some();
            let step = if both { "if any_bool() { it.next() } else { it.next_back() }" } else { "it.next()" };
            let inner = self.looked_at(env, item, "x", depth + 1)?;
            return Ok(format!("{p}let mut it = {v};\n{p}loop {{\n{p}    let x = {s};\n{p}    let Some(x) = x else {{ break }};\n{i}{p}}}\n", p = pad, v = var, s = step, i = inner));
        }
        if !self.holds(t, &self.guarded) {
            return Ok(format!("{}let _ = &{};\n", pad, var));
        }
        Err(format!("its result {} is not looked into", show(t)))
    }
    /// made of guarded values, tuples, options and the like
    fn plain(&self, t: Ty<'t>) -> bool {
        if self.is_adt(t, &self.guarded) {
            return true;
        }
        match t.kind() {
            ty::Ref(_, y, _) => self.plain(*y),
            ty::Tuple(ts) => ts.len() == 2 && ts.iter().all(|x| self.plain(x)),
            ty::Adt(d, a) => {
                let n = self.tcx.item_name(d.did());
                match n.as_str() {
                    "Option" | "Vec" | "Box" => self.plain(a.type_at(0)),
                    "Result" => self.plain(a.type_at(0)) && !self.holds(a.type_at(1), &self.guarded),
                    _ => false,
                }
            }
            _ => false,
        }
    }
    /// the spec crate knows how to make any value of it
    fn makable(&self, t: Ty<'t>, ps: &[(String, Param<'t>)]) -> Result<(), String> {
        let ok = match t.kind() {
            ty::Param(p) => matches!(ps.iter().find(|(n, _)| n == p.name.as_str()), Some((_, Param::Elem))),
            ty::Bool => true,
            ty::Tuple(ts) => {
                for x in ts.iter() {
                    self.makable(x, ps)?;
                }
                ts.len() <= 2
            }
            ty::Adt(d, a) => {
                for x in a.types() {
                    self.makable(x, ps)?;
                }
                let n = self.tcx.item_name(d.did());
                ["Interval", "Selection", "TineTree", "RawInterval", "Bound", "Tine", "Range", "RangeInclusive", "RangeFrom", "RangeTo", "RangeToInclusive", "RangeFull", "Option"].contains(&n.as_str())
            }
            ty::Ref(_, y, m) => m.is_not() && self.makable(*y, ps).is_ok() && false,
            _ => false,
        };
        if ok { Ok(()) } else { Err(format!("no way to make any {}", show(t))) }
    }
}

struct Unsafe {
    found: Vec<rustc_span::Span>,
}
impl<'v> rustc_hir::intravisit::Visitor<'v> for Unsafe {
    fn visit_block(&mut self, b: &'v rustc_hir::Block<'v>) {
        if matches!(b.rules, rustc_hir::BlockCheckMode::UnsafeBlock(_)) {
            self.found.push(b.span);
        }
        rustc_hir::intravisit::walk_block(self, b);
    }
}

pub fn run(tcx: TyCtxt<'_>, out: &str) -> ControlFlow<()> {
    let mut r = R {
        tcx,
        guarded: vec![],
        parts: vec![],
        reports: vec![],
        incomplete: Default::default(),
        checks: Default::default(),
        calls: vec![],
        inputs: Default::default(),
        harnesses: Default::default(),
        all: std::env::var_os("RULES_ALL").is_some(),
        skipped: Default::default(),
    };
    for n in ["Interval", "Selection", "TineTree"] {
        match r.adt(n) {
            Some(d) => r.guarded.push(d),
            None => {
                r.incomplete.insert(format!("no single type named {}", n));
            }
        }
    }
    if r.guarded.len() == 3 {
        if !r.all {
            r.representation();
            r.globals();
        }
        r.functions();
    }
    let list = |v: Vec<String>| format!("[{}]", v.join(",\n"));
    let text = format!(
        "{{\"checks\":{{{}}},\n\"reports\":{},\n\"incomplete\":{},\n\"calls\":{},\n\"steps\":{},\n\"skipped\":{},\n\"harnesses\":{}}}\n",
        r.checks.iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect::<Vec<_>>().join(","),
        list(r.reports.iter().map(|(k, w, t)| format!("{{\"key\":{},\"what\":{},\"text\":{}}}", jstr(k), jstr(w), jstr(t))).collect()),
        list(r.incomplete.iter().map(|s| jstr(s)).collect()),
        list(r.calls.iter().map(|s| jstr(s)).collect()),
        list(r.inputs.iter().map(|s| jstr(s)).collect()),
        list(r.skipped.iter().map(|s| jstr(s)).collect()),
        format!("{{{}}}", r.harnesses.iter().map(|(k, v)| format!("{}:{}", jstr(k), jstr(v))).collect::<Vec<_>>().join(",\n")),
    );
    std::fs::write(out, text).expect("write rules");
    ControlFlow::Continue(())
}
