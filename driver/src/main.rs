//! vgdump: a rustc driver that writes the type-checked program (THIR, with
//! resolved callees) of one library crate as JSON.  Nothing is executed.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::thir::*;
use rustc_middle::ty::{self, Ty, TyCtxt, TypingEnv};
use std::collections::HashMap;
use std::fmt::Write as _;

enum J {
    Null,
    B(bool),
    I(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}
fn s<T: Into<String>>(x: T) -> J {
    J::S(x.into())
}
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::I(i) => {
                let _ = write!(o, "{i}");
            }
            J::S(t) => {
                o.push('"');
                for c in t.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        '\n' => o.push_str("\\n"),
                        c if (c as u32) < 32 => {
                            let _ = write!(o, "\\u{:04x}", c as u32);
                        }
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.w(o);
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    let _ = write!(o, "\"{k}\":");
                    x.w(o);
                }
                o.push('}');
            }
        }
    }
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: Vec<J>,
    tymap: HashMap<Ty<'tcx>, usize>,
    owner: LocalDefId,
}

impl<'tcx> Cx<'tcx> {
    fn key(&self, d: DefId) -> String {
        if d.is_local() {
            format!("L{}", d.index.as_u32())
        } else {
            format!("X{}_{}", d.krate.as_u32(), d.index.as_u32())
        }
    }
    fn path(&self, d: DefId) -> String {
        ty::print::with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }
    fn span(&self, sp: rustc_span::Span) -> J {
        let sp = sp.source_callsite();
        let lo = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
        s(format!("{}:{}", lo.file.name.prefer_local_unconditionally(), lo.line))
    }
    fn args(&mut self, a: ty::GenericArgsRef<'tcx>) -> J {
        J::A(a.iter().filter_map(|g| g.as_type()).map(|t| self.ty(t)).collect())
    }
    fn ty(&mut self, t: Ty<'tcx>) -> J {
        if let Some(i) = self.tymap.get(&t) {
            return J::I(*i as i128);
        }
        let i = self.tys.len();
        self.tys.push(J::Null);
        self.tymap.insert(t, i);
        let disp = ty::print::with_no_trimmed_paths!(t.to_string());
        let mut o = vec![("s", s(disp))];
        match *t.kind() {
            ty::Adt(d, a) => {
                o.push(("k", s("adt")));
                o.push(("path", s(self.path(d.did()))));
                o.push(("def", s(self.key(d.did()))));
                let a = self.args(a);
                o.push(("args", a));
            }
            ty::Ref(_, inner, m) => {
                o.push(("k", s("ref")));
                o.push(("mut", J::B(m.is_mut())));
                let x = self.ty(inner);
                o.push(("t", x));
            }
            ty::RawPtr(inner, _) => {
                o.push(("k", s("ptr")));
                let x = self.ty(inner);
                o.push(("t", x));
            }
            ty::Slice(inner) => {
                o.push(("k", s("slice")));
                let x = self.ty(inner);
                o.push(("t", x));
            }
            ty::Array(inner, n) => {
                o.push(("k", s("array")));
                let x = self.ty(inner);
                o.push(("t", x));
                if let Some(n) = n.try_to_target_usize(self.tcx) {
                    o.push(("n", J::I(n as i128)));
                }
            }
            ty::Tuple(l) => {
                o.push(("k", s("tuple")));
                let v = l.iter().map(|x| self.ty(x)).collect();
                o.push(("ts", J::A(v)));
            }
            ty::FnDef(d, a) => {
                o.push(("k", s("fndef")));
                let a = a.skip_binder();
                let c = self.callee(d, a);
                o.push(("callee", c));
            }
            ty::Closure(d, _) => {
                o.push(("k", s("closure")));
                o.push(("def", s(self.key(d))));
            }
            ty::Param(p) => {
                o.push(("k", s("param")));
                o.push(("name", s(p.name.to_string())));
            }
            ty::Dynamic(..) => o.push(("k", s("dyn"))),
            ty::FnPtr(..) => o.push(("k", s("fnptr"))),
            ty::Never => o.push(("k", s("never"))),
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) | ty::Str => {
                o.push(("k", s("prim")))
            }
            _ => o.push(("k", s("other"))),
        }
        self.tys[i] = J::O(o);
        J::I(i as i128)
    }
    fn callee(&mut self, d: DefId, a: ty::GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o = vec![
            ("path", s(self.path(d))),
            ("def", s(self.key(d))),
            ("kind", s(format!("{:?}", tcx.def_kind(d)))),
        ];
        if let DefKind::Ctor(..) = tcx.def_kind(d) {
            let parent = tcx.parent(d);
            let (adt, vi) = match tcx.def_kind(parent) {
                DefKind::Variant => {
                    let adt = tcx.adt_def(tcx.parent(parent));
                    (adt, adt.variant_index_with_id(parent).as_u32())
                }
                _ => (tcx.adt_def(parent), 0),
            };
            o.push(("ctor_adt", s(self.path(adt.did()))));
            o.push(("ctor_variant", J::I(vi as i128)));
            o.push(("ctor_name", s(tcx.item_name(parent).to_string())));
        }
        if let Some(t) = tcx.trait_of_assoc(d) {
            o.push(("trait", s(self.path(t))));
            o.push(("method", s(tcx.item_name(d).to_string())));
        } else if tcx.def_kind(d) == DefKind::AssocFn {
            o.push(("method", s(tcx.item_name(d).to_string())));
            let parent = tcx.parent(d);
            if let DefKind::Impl { .. } = tcx.def_kind(parent) {
                let st = tcx.type_of(parent).instantiate_identity().skip_norm_wip();
                let x = self.ty(st);
                o.push(("impl_self", x));
            }
        }
        let x = self.args(a);
        o.push(("args", x));
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            let te = TypingEnv::post_analysis(tcx, self.owner.to_def_id());
            let er = tcx.erase_and_anonymize_regions(a);
            if let Ok(Some(inst)) = ty::Instance::try_resolve(tcx, te, d, er) {
                let rd = inst.def_id();
                if rd != d {
                    o.push(("rpath", s(self.path(rd))));
                    o.push(("rdef", s(self.key(rd))));
                    let ra = self.args(inst.args);
                    o.push(("rargs", ra));
                }
            }
        }
        J::O(o)
    }

    fn scalar(&mut self, did: DefId) -> Option<J> {
        let tcx = self.tcx;
        let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
        if !t.is_numeric() && !t.is_bool() {
            return None;
        }
        if !tcx.generics_of(did).is_empty() && tcx.generics_of(did).count() > 0 {
            return None;
        }
        let v = tcx.const_eval_poly(did).ok()?;
        let sc = v.try_to_scalar_int()?;
        Some(J::O(vec![("bits", s(format!("{}", sc.to_bits(sc.size())))), ("ty", s(t.to_string()))]))
    }

    fn pat(&mut self, th: &Thir<'tcx>, p: &Pat<'tcx>) -> J {
        let mut o: Vec<(&'static str, J)> = vec![];
        let t = self.ty(p.ty);
        o.push(("ty", t));
        match &p.kind {
            PatKind::Wild | PatKind::Missing => o.push(("p", s("wild"))),
            PatKind::Binding { name, mode, var, subpattern, .. } => {
                o.push(("p", s("bind")));
                o.push(("name", s(name.to_string())));
                o.push(("byref", J::B(!matches!(mode.0, rustc_hir::ByRef::No))));
                o.push(("bymut", J::B(format!("{:?}", mode.0).contains("Mut"))));
                o.push(("var", J::I(var.0.local_id.as_u32() as i128)));
                if let Some(sp) = subpattern {
                    let x = self.pat(th, sp);
                    o.push(("sub", x));
                }
            }
            PatKind::Variant { adt_def, variant_index, subpatterns, .. } => {
                o.push(("p", s("variant")));
                o.push(("adt", s(self.path(adt_def.did()))));
                o.push(("vi", J::I(variant_index.as_u32() as i128)));
                o.push(("vname", s(adt_def.variant(*variant_index).name.to_string())));
                let v = subpatterns
                    .iter()
                    .map(|f| {
                        let x = self.pat(th, &f.pattern);
                        J::A(vec![J::I(f.field.as_u32() as i128), x])
                    })
                    .collect();
                o.push(("subs", J::A(v)));
            }
            PatKind::Leaf { subpatterns } => {
                o.push(("p", s("leaf")));
                let v = subpatterns
                    .iter()
                    .map(|f| {
                        let x = self.pat(th, &f.pattern);
                        J::A(vec![J::I(f.field.as_u32() as i128), x])
                    })
                    .collect();
                o.push(("subs", J::A(v)));
            }
            PatKind::Deref { subpattern, .. } | PatKind::DerefPattern { subpattern, .. } => {
                o.push(("p", s("deref")));
                let x = self.pat(th, subpattern);
                o.push(("sub", x));
            }
            PatKind::Constant { value } => {
                o.push(("p", s("const")));
                o.push(("val", s(format!("{value}"))));
                if let Some(sc) = value.try_to_leaf_() {
                    o.push(("bits", s(format!("{}", sc.to_bits(sc.size())))));
                }
            }
            PatKind::Range(r) => {
                o.push(("p", s("range")));
                let f = |b: &PatRangeBoundary<'tcx>| match b {
                    PatRangeBoundary::Finite(v) => {
                        let sc = v.to_leaf();
                        s(format!("{}", sc.to_bits(sc.size())))
                    }
                    PatRangeBoundary::NegInfinity => s("-inf"),
                    PatRangeBoundary::PosInfinity => s("inf"),
                };
                o.push(("lo", f(&r.lo)));
                o.push(("hi", f(&r.hi)));
                o.push(("incl", J::B(r.end == rustc_hir::RangeEnd::Included)));
            }
            PatKind::Slice { prefix, slice, suffix } | PatKind::Array { prefix, slice, suffix } => {
                o.push(("p", s("slice")));
                let v = prefix.iter().map(|x| self.pat(th, x)).collect();
                o.push(("prefix", J::A(v)));
                let v = suffix.iter().map(|x| self.pat(th, x)).collect();
                o.push(("suffix", J::A(v)));
                if let Some(x) = slice {
                    let x = self.pat(th, x);
                    o.push(("mid", x));
                }
            }
            PatKind::Or { pats } => {
                o.push(("p", s("or")));
                let v = pats.iter().map(|x| self.pat(th, x)).collect();
                o.push(("pats", J::A(v)));
            }
            PatKind::Guard { subpattern, condition } => {
                o.push(("p", s("guard")));
                let x = self.pat(th, subpattern);
                o.push(("sub", x));
                let x = self.ex(th, *condition, -1);
                o.push(("cond", x));
            }
            PatKind::Never | PatKind::Error(_) => o.push(("p", s("never"))),
        }
        J::O(o)
    }

    fn block(&mut self, th: &Thir<'tcx>, b: BlockId) -> Vec<(&'static str, J)> {
        let bl = &th[b];
        let sc = bl.region_scope.local_id.as_u32() as i128;
        let mut stmts = vec![];
        for st in bl.stmts.iter() {
            match &th[*st].kind {
                StmtKind::Expr { expr, .. } => {
                    let e = self.ex(th, *expr, sc);
                    stmts.push(J::O(vec![("e", e)]));
                }
                StmtKind::Let { pattern, initializer, else_block, span, .. } => {
                    let p = self.pat(th, pattern);
                    let mut o = vec![("let", p), ("sp", self.span(*span))];
                    if let Some(i) = initializer {
                        let e = self.ex(th, *i, sc);
                        o.push(("init", e));
                    }
                    if let Some(eb) = else_block {
                        let e = self.block(th, *eb);
                        o.push(("else", J::O(e)));
                    }
                    stmts.push(J::O(o));
                }
            }
        }
        let mut o = vec![("k", s("block")), ("stmts", J::A(stmts))];
        if bl.targeted_by_break {
            o.push(("label", J::I(sc)));
        }
        if let Some(e) = bl.expr {
            let e = self.ex(th, e, sc);
            o.push(("expr", e));
        }
        o
    }

    fn exs(&mut self, th: &Thir<'tcx>, v: &[ExprId], sc: i128) -> J {
        J::A(v.iter().map(|e| self.ex(th, *e, sc)).collect())
    }

    fn ex(&mut self, th: &Thir<'tcx>, id: ExprId, sc: i128) -> J {
        let e = &th[id];
        let mut o: Vec<(&'static str, J)> = vec![];
        macro_rules! sub {
            ($n:literal, $e:expr) => {{
                let x = self.ex(th, $e, sc);
                o.push(($n, x));
            }};
        }
        match &e.kind {
            ExprKind::Scope { region_scope, value, .. } => {
                return self.ex(th, *value, region_scope.local_id.as_u32() as i128);
            }
            ExprKind::If { cond, then, else_opt, .. } => {
                o.push(("k", s("if")));
                sub!("c", *cond);
                sub!("t", *then);
                if let Some(x) = else_opt {
                    sub!("e", *x);
                }
            }
            ExprKind::Call { ty: t, fun, args, .. } => {
                o.push(("k", s("call")));
                if let ty::FnDef(d, a) = *t.kind() {
                    let a = a.skip_binder();
                    let c = self.callee(d, a);
                    o.push(("callee", c));
                } else {
                    sub!("fun", *fun);
                }
                let x = self.exs(th, args, sc);
                o.push(("args", x));
            }
            ExprKind::Deref { arg } => {
                o.push(("k", s("deref")));
                sub!("a", *arg);
            }
            ExprKind::Binary { op, lhs, rhs } => {
                o.push(("k", s("bin")));
                o.push(("op", s(format!("{op:?}"))));
                sub!("l", *lhs);
                sub!("r", *rhs);
            }
            ExprKind::LogicalOp { op, lhs, rhs } => {
                o.push(("k", s("logic")));
                o.push(("op", s(format!("{op:?}"))));
                sub!("l", *lhs);
                sub!("r", *rhs);
            }
            ExprKind::Unary { op, arg } => {
                o.push(("k", s("un")));
                o.push(("op", s(format!("{op:?}"))));
                sub!("a", *arg);
            }
            ExprKind::Cast { source } => {
                o.push(("k", s("cast")));
                sub!("a", *source);
            }
            ExprKind::ByUse { expr: source, .. }
            | ExprKind::ValueExpr { source }
            | ExprKind::NeverToAny { source }
            | ExprKind::PlaceTypeAscription { source, .. }
            | ExprKind::ValueTypeAscription { source, .. } => {
                let k = match &e.kind {
                    ExprKind::NeverToAny { .. } => "never",
                    ExprKind::PlaceTypeAscription { .. } => {
                        return self.ex(th, *source, sc);
                    }
                    _ => "use",
                };
                o.push(("k", s(k)));
                sub!("a", *source);
            }
            ExprKind::PointerCoercion { source, cast, .. } => {
                o.push(("k", s("coerce")));
                o.push(("how", s(format!("{cast:?}"))));
                sub!("a", *source);
            }
            ExprKind::Loop { body } => {
                o.push(("k", s("loop")));
                o.push(("label", J::I(sc)));
                sub!("body", *body);
            }
            ExprKind::Let { expr, pat } => {
                o.push(("k", s("let")));
                sub!("e", *expr);
                let p = self.pat(th, pat);
                o.push(("pat", p));
            }
            ExprKind::Match { scrutinee, arms, match_source } => {
                o.push(("k", s("match")));
                o.push(("src", s(format!("{match_source:?}"))));
                sub!("e", *scrutinee);
                let mut v = vec![];
                for a in arms.iter() {
                    let arm = &th[*a];
                    let p = self.pat(th, &arm.pattern);
                    let mut ao = vec![("pat", p)];
                    if let Some(g) = arm.guard {
                        let x = self.ex(th, g, sc);
                        ao.push(("guard", x));
                    }
                    let x = self.ex(th, arm.body, sc);
                    ao.push(("body", x));
                    v.push(J::O(ao));
                }
                o.push(("arms", J::A(v)));
            }
            ExprKind::Block { block } => {
                o = self.block(th, *block);
            }
            ExprKind::Assign { lhs, rhs } => {
                o.push(("k", s("assign")));
                sub!("l", *lhs);
                sub!("r", *rhs);
            }
            ExprKind::AssignOp { op, lhs, rhs } => {
                o.push(("k", s("assignop")));
                o.push(("op", s(format!("{op:?}"))));
                sub!("l", *lhs);
                sub!("r", *rhs);
            }
            ExprKind::Field { lhs, variant_index, name } => {
                o.push(("k", s("field")));
                o.push(("i", J::I(name.as_u32() as i128)));
                o.push(("vi", J::I(variant_index.as_u32() as i128)));
                sub!("a", *lhs);
            }
            ExprKind::Index { lhs, index } => {
                o.push(("k", s("index")));
                sub!("a", *lhs);
                sub!("i", *index);
            }
            ExprKind::VarRef { id } => {
                o.push(("k", s("var")));
                o.push(("id", J::I(id.0.local_id.as_u32() as i128)));
            }
            ExprKind::UpvarRef { var_hir_id, .. } => {
                o.push(("k", s("upvar")));
                o.push(("id", J::I(var_hir_id.0.local_id.as_u32() as i128)));
            }
            ExprKind::Borrow { borrow_kind, arg } => {
                o.push(("k", s("borrow")));
                o.push(("mut", J::B(matches!(borrow_kind, rustc_middle::mir::BorrowKind::Mut { .. }))));
                sub!("a", *arg);
            }
            ExprKind::Reborrow { source, .. } => {
                o.push(("k", s("use")));
                sub!("a", *source);
            }
            ExprKind::Break { label, value } => {
                o.push(("k", s("break")));
                o.push(("label", J::I(label.local_id.as_u32() as i128)));
                if let Some(v) = value {
                    sub!("v", *v);
                }
            }
            ExprKind::Continue { label } => {
                o.push(("k", s("continue")));
                o.push(("label", J::I(label.local_id.as_u32() as i128)));
            }
            ExprKind::Return { value } => {
                o.push(("k", s("return")));
                if let Some(v) = value {
                    sub!("v", *v);
                }
            }
            ExprKind::Repeat { value, count } => {
                o.push(("k", s("repeat")));
                sub!("v", *value);
                if let Some(n) = count.try_to_target_usize(self.tcx) {
                    o.push(("n", J::I(n as i128)));
                }
            }
            ExprKind::Array { fields } => {
                o.push(("k", s("array")));
                let x = self.exs(th, fields, sc);
                o.push(("fs", x));
            }
            ExprKind::Tuple { fields } => {
                o.push(("k", s("tuple")));
                let x = self.exs(th, fields, sc);
                o.push(("fs", x));
            }
            ExprKind::Adt(a) => {
                o.push(("k", s("adt")));
                o.push(("adt", s(self.path(a.adt_def.did()))));
                o.push(("vi", J::I(a.variant_index.as_u32() as i128)));
                o.push(("vname", s(a.adt_def.variant(a.variant_index).name.to_string())));
                let mut v = vec![];
                for f in a.fields.iter() {
                    let x = self.ex(th, f.expr, sc);
                    v.push(J::A(vec![J::I(f.name.as_u32() as i128), x]));
                }
                o.push(("fs", J::A(v)));
                match &a.base {
                    AdtExprBase::Base(b) => sub!("base", b.base),
                    AdtExprBase::None => {}
                    _ => o.push(("base_other", J::B(true))),
                }
            }
            ExprKind::Closure(c) => {
                o.push(("k", s("closure")));
                o.push(("def", s(self.key(c.closure_id.to_def_id()))));
                let x = self.exs(th, &c.upvars, sc);
                o.push(("upvars", x));
                let mut caps = vec![];
                for p in self.tcx.closure_captures(c.closure_id) {
                    caps.push(J::O(vec![
                        ("id", J::I(p.get_root_variable().local_id.as_u32() as i128)),
                        ("n", J::I(p.place.projections.len() as i128)),
                    ]));
                }
                o.push(("caps", J::A(caps)));
            }
            ExprKind::Literal { lit, neg } => {
                o.push(("k", s("lit")));
                o.push(("neg", J::B(*neg)));
                use rustc_ast::LitKind as LK;
                match &lit.node {
                    LK::Float(sym, _) => o.push(("f", s(sym.to_string()))),
                    LK::Int(v, _) => o.push(("i", s(v.get().to_string()))),
                    LK::Bool(b) => o.push(("b", J::B(*b))),
                    LK::Str(t, _) => o.push(("str", s(t.to_string()))),
                    LK::Char(c) => o.push(("ch", s(c.to_string()))),
                    other => o.push(("other", s(format!("{other:?}")))),
                }
            }
            ExprKind::NonHirLiteral { lit, .. } => {
                o.push(("k", s("bits")));
                o.push(("bits", s(format!("{}", lit.to_bits(lit.size())))));
            }
            ExprKind::ZstLiteral { .. } => {
                o.push(("k", s("zst")));
            }
            ExprKind::NamedConst { def_id, args, .. } => {
                o.push(("k", s("const")));
                o.push(("path", s(self.path(*def_id))));
                o.push(("def", s(self.key(*def_id))));
                let x = self.args(args);
                o.push(("args", x));
                if let Some(v) = self.scalar(*def_id) {
                    o.push(("val", v));
                }
            }
            ExprKind::StaticRef { def_id, .. } => {
                o.push(("k", s("static")));
                o.push(("path", s(self.path(*def_id))));
                o.push(("def", s(self.key(*def_id))));
            }
            ExprKind::ConstBlock { did, .. } => {
                o.push(("k", s("constblock")));
                o.push(("def", s(self.key(*did))));
            }
            other => {
                o.push(("k", s("other")));
                o.push(("what", s(format!("{other:?}").chars().take(60).collect::<String>())));
            }
        }
        let t = self.ty(e.ty);
        o.push(("ty", t));
        o.push(("sp", self.span(e.span)));
        J::O(o)
    }

    fn body(&mut self, d: LocalDefId) -> Option<J> {
        let tcx = self.tcx;
        self.owner = d;
        let (thir, root) = tcx.thir_body(d).ok()?;
        let th = thir.borrow();
        let mut o = vec![
            ("def", s(self.key(d.to_def_id()))),
            ("path", s(self.path(d.to_def_id()))),
            ("kind", s(format!("{:?}", tcx.def_kind(d)))),
            ("sp", self.span(tcx.def_span(d))),
        ];
        let dk = tcx.def_kind(d);
        if matches!(dk, DefKind::Fn | DefKind::AssocFn) {
            o.push(("name", s(tcx.item_name(d.to_def_id()).to_string())));
            o.push(("vis", s(format!("{:?}", tcx.visibility(d)))));
            let ev = tcx.effective_visibilities(());
            o.push(("exported", J::B(ev.is_exported(d))));
            let ph: Vec<J> = tcx
                .generics_of(d)
                .own_params
                .iter()
                .map(|p| s(p.name.to_string()))
                .collect();
            o.push(("generics", J::A(ph)));
            if let Some(i) = tcx.impl_of_assoc(d.to_def_id()) {
                let st = tcx.type_of(i).instantiate_identity().skip_norm_wip();
                let x = self.ty(st);
                o.push(("impl_self", x));
                if let DefKind::Impl { of_trait: true } = tcx.def_kind(i) {
                    let tr = tcx.impl_trait_ref(i).instantiate_identity().skip_norm_wip();
                    o.push(("impl_trait", s(self.path(tr.def_id))));
                    let x = self.args(tr.args);
                    o.push(("impl_trait_args", x));
                    o.push(("impl_derived", J::B(tcx.is_automatically_derived(i))));
                }
            }
            let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip().skip_binder();
            let r = self.ty(sig.output());
            o.push(("ret", r));
        }
        let mut ps = vec![];
        for p in th.params.iter() {
            let t = self.ty(p.ty);
            let mut po = vec![("ty", t)];
            if let Some(pt) = &p.pat {
                let x = self.pat(&th, pt);
                po.push(("pat", x));
            }
            ps.push(J::O(po));
        }
        o.push(("params", J::A(ps)));
        let x = self.ex(&th, root, -1);
        o.push(("body", x));
        Some(J::O(o))
    }
}

trait LeafExt {
    fn try_to_leaf_(&self) -> Option<ty::ScalarInt>;
}
impl<'tcx> LeafExt for ty::Value<'tcx> {
    fn try_to_leaf_(&self) -> Option<ty::ScalarInt> {
        self.try_to_leaf()
    }
}
struct Cb;
impl rustc_driver::Callbacks for Cb {
    fn after_expansion<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        let mut cx = Cx { tcx, tys: vec![], tymap: HashMap::new(), owner: rustc_hir::def_id::CRATE_DEF_ID };
        let mut bodies = vec![];
        for d in tcx.hir_body_owners() {
            if let Some(b) = cx.body(d) {
                bodies.push(b);
            }
        }
        let mut adts = vec![];
        let mut statics = vec![];
        let mut fns_nobody = vec![];
        let ev = tcx.effective_visibilities(());
        for id in tcx.hir_crate_items(()).definitions() {
            let dk = tcx.def_kind(id);
            match dk {
                DefKind::Struct | DefKind::Enum => {
                    let ad = tcx.adt_def(id);
                    let mut vs = vec![];
                    for v in ad.variants() {
                        let mut fs = vec![];
                        for f in &v.fields {
                            let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                            let t = cx.ty(t);
                            fs.push(J::O(vec![
                                ("name", s(f.name.to_string())),
                                ("ty", t),
                                ("pub", J::B(f.vis.is_public())),
                            ]));
                        }
                        vs.push(J::O(vec![("name", s(v.name.to_string())), ("fields", J::A(fs))]));
                    }
                    adts.push(J::O(vec![
                        ("path", s(cx.path(id.to_def_id()))),
                        ("kind", s(format!("{dk:?}"))),
                        ("exported", J::B(ev.is_exported(id))),
                        ("variants", J::A(vs)),
                        ("sp", cx.span(tcx.def_span(id))),
                    ]));
                }
                DefKind::Static { .. } => {
                    statics.push(J::O(vec![
                        ("path", s(cx.path(id.to_def_id()))),
                        ("kind", s(format!("{dk:?}"))),
                        ("tys", s(format!("{:?}", tcx.type_of(id).instantiate_identity().skip_norm_wip()))),
                        ("sp", cx.span(tcx.def_span(id))),
                    ]));
                }
                _ => {}
            }
        }
        let mut impls = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            if let DefKind::Impl { of_trait: true } = tcx.def_kind(id) {
                let tr = tcx.impl_trait_ref(id).instantiate_identity().skip_norm_wip();
                cx.owner = id;
                let st = cx.ty(tr.self_ty());
                let ta = cx.args(tr.args);
                let mut ms = vec![];
                for it in tcx.associated_items(id).in_definition_order() {
                    if let ty::AssocKind::Fn { .. } = it.kind {
                        ms.push(J::A(vec![
                            s(tcx.item_name(it.def_id).to_string()),
                            s(cx.key(it.def_id)),
                        ]));
                    } else if let ty::AssocKind::Type { .. } = it.kind {
                        let t = tcx.type_of(it.def_id).instantiate_identity().skip_norm_wip();
                        let t = cx.ty(t);
                        ms.push(J::A(vec![s("type"), s(tcx.item_name(it.def_id).to_string()), t]));
                    }
                }
                impls.push(J::O(vec![
                    ("trait", s(cx.path(tr.def_id))),
                    ("self", st),
                    ("args", ta),
                    ("derived", J::B(tcx.is_automatically_derived(id.to_def_id()))),
                    ("items", J::A(ms)),
                    ("sp", cx.span(tcx.def_span(id))),
                ]));
            }
        }
        fns_nobody.clear();
        let _: &Vec<J> = &fns_nobody;
        let out = J::O(vec![
            ("bodies", J::A(bodies)),
            ("adts", J::A(adts)),
            ("impls", J::A(impls)),
            ("statics", J::A(statics)),
            ("types", J::A(std::mem::take(&mut cx.tys))),
        ]);
        let mut st = String::new();
        out.w(&mut st);
        let p = std::env::var("VGDUMP_OUT").expect("VGDUMP_OUT");
        std::fs::write(p, st).expect("write dump");
        Compilation::Stop
    }
}

fn main() -> std::process::ExitCode {
    let args: Vec<String> = std::env::args().collect();
    rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb))
}
