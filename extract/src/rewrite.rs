//! Span-based edits on the original text. Children are visited first, so that a replacement that
//! needs the text of a sub-expression gets it with the edits of that sub-expression applied.
use proc_macro2::Span;
use std::collections::{BTreeMap, BTreeSet};
use syn::spanned::Spanned;
use syn::visit::{self, Visit};

pub fn range<T: Spanned>(t: &T) -> (usize, usize) {
    let r = t.span().byte_range();
    (r.start, r.end)
}
pub fn srange(s: Span) -> (usize, usize) {
    let r = s.byte_range();
    (r.start, r.end)
}

pub fn cfg_ok(attrs: &[syn::Attribute], feats: &[String]) -> bool {
    attrs.iter().all(|a| {
        if !a.path().is_ident("cfg") {
            return true;
        }
        match a.parse_args::<syn::Meta>() {
            Ok(m) => eval_cfg(&m, feats),
            Err(_) => true,
        }
    })
}

fn eval_cfg(m: &syn::Meta, feats: &[String]) -> bool {
    match m {
        syn::Meta::Path(p) => p.is_ident("debug_assertions") || p.is_ident("unix"),
        syn::Meta::NameValue(nv) => {
            let val = match &nv.value {
                syn::Expr::Lit(l) => match &l.lit {
                    syn::Lit::Str(s) => s.value(),
                    _ => return false,
                },
                _ => return false,
            };
            if nv.path.is_ident("feature") {
                feats.contains(&val)
            } else if nv.path.is_ident("target_arch") {
                val == "x86_64"
            } else if nv.path.is_ident("target_os") {
                val == "linux"
            } else if nv.path.is_ident("target_pointer_width") {
                val == "64"
            } else {
                false
            }
        }
        syn::Meta::List(l) => {
            let nested = l
                .parse_args_with(syn::punctuated::Punctuated::<syn::Meta, syn::Token![,]>::parse_terminated)
                .unwrap_or_default();
            if l.path.is_ident("all") {
                nested.iter().all(|m| eval_cfg(m, feats))
            } else if l.path.is_ident("any") {
                nested.iter().any(|m| eval_cfg(m, feats))
            } else if l.path.is_ident("not") {
                !nested.iter().any(|m| eval_cfg(m, feats))
            } else {
                false
            }
        }
    }
}

#[derive(Clone, Debug)]
struct Edit {
    start: usize,
    end: usize,
    text: String,
    kind: u8, // 0 close insert, 1 open insert, 2 replace
    seq: usize,
}

pub struct Editor<'a> {
    pub src: &'a str,
    edits: Vec<Edit>,
}

impl<'a> Editor<'a> {
    pub fn new(src: &'a str) -> Self {
        Editor { src, edits: vec![] }
    }
    fn push(&mut self, start: usize, end: usize, text: String, kind: u8) {
        let seq = self.edits.len();
        self.edits.push(Edit { start, end, text, kind, seq });
    }
    pub fn open(&mut self, pos: usize, text: impl Into<String>) {
        self.push(pos, pos, text.into(), 1)
    }
    pub fn close(&mut self, pos: usize, text: impl Into<String>) {
        self.push(pos, pos, text.into(), 0)
    }
    pub fn replace(&mut self, start: usize, end: usize, text: impl Into<String>) {
        self.push(start, end, text.into(), 2)
    }
    /// Text of [start, end) with every edit inside applied.
    pub fn render(&self, start: usize, end: usize) -> String {
        let mut es: Vec<&Edit> = self
            .edits
            .iter()
            .filter(|e| {
                e.start >= start
                    && e.end <= end
                    && !(e.kind == 0 && e.start == start && start != end)
                    && !(e.kind == 1 && e.start == end && start != end)
                    && !(e.kind == 2 && e.start == end && e.start != e.end)
            })
            .collect();
        // replacements swallow edits strictly inside them (later, outer ones win)
        let reps: Vec<(usize, usize, usize)> = es.iter().filter(|e| e.kind == 2).map(|e| (e.start, e.end, e.seq)).collect();
        es.retain(|e| {
            !reps.iter().any(|&(s, t, q)| {
                q != e.seq
                    && if e.kind == 2 {
                        s <= e.start && e.end <= t && (t - s > e.end - e.start || (t - s == e.end - e.start && q > e.seq))
                    } else {
                        // opens at the start / closes at the end stay outside when added later
                        (s < e.start && e.start < t)
                            || (e.kind == 1 && e.start == s && e.seq < q)
                            || (e.kind == 0 && e.start == t && e.seq < q)
                            || (e.kind == 0 && e.start == s && false)
                    }
            })
        });
        es.sort_by(|a, b| {
            a.start.cmp(&b.start).then(a.kind.cmp(&b.kind)).then(if a.kind == 1 { b.seq.cmp(&a.seq) } else { a.seq.cmp(&b.seq) })
        });
        let mut out = String::new();
        let mut pos = start;
        for e in es {
            if e.start > pos {
                out.push_str(&self.src[pos..e.start]);
            }
            out.push_str(&e.text);
            pos = pos.max(e.end).max(e.start);
        }
        if pos < end {
            out.push_str(&self.src[pos..end]);
        }
        out
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Shape {
    pub loops: Vec<String>,
    pub closures: Vec<usize>,
    pub lets: Vec<String>,
    pub params: Vec<String>,
    pub text: String,
}

/// Collects loops, closures (source order, nested ones included) and bound names.
pub struct ShapeVisitor {
    pub loops: Vec<(usize, String)>,
    pub closures: Vec<(usize, usize)>,
    pub lets: Vec<(usize, String)>,
    pub calls: Vec<(usize, String)>,
    /// normalised text of every loop, closure and call, by position
    pub texts: BTreeMap<(char, usize), String>,
    /// functions mentioned as values or inside macros
    pub refs: BTreeSet<String>,
    pub feats: Vec<String>,
}
impl<'ast> Visit<'ast> for ShapeVisitor {
    fn visit_stmt(&mut self, s: &'ast syn::Stmt) {
        if stmt_cfg(s, &self.feats) {
            visit::visit_stmt(self, s)
        }
    }
    fn visit_expr(&mut self, e: &'ast syn::Expr) {
        let at = match e {
            syn::Expr::ForLoop(f) => Some(('l', srange(f.for_token.span).0)),
            syn::Expr::While(f) => Some(('l', srange(f.while_token.span).0)),
            syn::Expr::Loop(f) => Some(('l', srange(f.loop_token.span).0)),
            syn::Expr::Closure(c) => Some(('f', range(c).0)),
            syn::Expr::MethodCall(m) => Some(('c', srange(m.method.span()).0)),
            syn::Expr::Call(c) => Some(('c', range(&*c.func).0)),
            _ => None,
        };
        if let Some(at) = at {
            use quote::ToTokens;
            self.texts.insert(at, crate::annot::norm(&e.to_token_stream().to_string()));
        }
        match e {
            syn::Expr::ForLoop(f) => self.loops.push((srange(f.for_token.span).0, format!("for:{}", iter_kind(&f.expr)))),
            syn::Expr::While(f) => self.loops.push((srange(f.while_token.span).0, "while".into())),
            syn::Expr::Loop(f) => self.loops.push((srange(f.loop_token.span).0, "loop".into())),
            syn::Expr::Closure(c) => self.closures.push((range(c).0, c.inputs.len())),
            syn::Expr::MethodCall(m) => self.calls.push((srange(m.method.span()).0, m.method.to_string())),
            syn::Expr::Call(c) => {
                if let syn::Expr::Path(p) = &*c.func {
                    self.calls.push((range(p).0, p.path.segments.last().unwrap().ident.to_string()))
                }
            }
            _ => {}
        }
        visit::visit_expr(self, e)
    }
    fn visit_expr_path(&mut self, p: &'ast syn::ExprPath) {
        if let Some(s) = p.path.segments.last() {
            self.refs.insert(s.ident.to_string());
        }
        visit::visit_expr_path(self, p)
    }
    fn visit_macro(&mut self, m: &'ast syn::Macro) {
        macro_calls(m.tokens.clone(), &mut self.refs);
        visit::visit_macro(self, m)
    }
    fn visit_pat_ident(&mut self, p: &'ast syn::PatIdent) {
        self.lets.push((srange(p.ident.span()).0, p.ident.to_string()));
        visit::visit_pat_ident(self, p)
    }
}
/// Names followed by parentheses.
fn macro_calls(ts: proc_macro2::TokenStream, out: &mut BTreeSet<String>) {
    let mut prev = None;
    for t in ts {
        match &t {
            proc_macro2::TokenTree::Group(g) => {
                if let (Some(n), proc_macro2::Delimiter::Parenthesis) = (prev.take(), g.delimiter()) {
                    out.insert(n);
                }
                macro_calls(g.stream(), out);
            }
            proc_macro2::TokenTree::Ident(i) => prev = Some(i.to_string()),
            _ => prev = None,
        }
    }
}
impl ShapeVisitor {
    pub fn of(block: &syn::Block, feats: &[String]) -> ShapeVisitor {
        let mut v = ShapeVisitor { loops: vec![], closures: vec![], lets: vec![], calls: vec![], texts: BTreeMap::new(), refs: BTreeSet::new(), feats: feats.to_vec() };
        v.visit_block(block);
        v.loops.sort();
        v.closures.sort();
        v.lets.sort();
        v.calls.sort();
        v
    }
}

pub fn stmt_attrs(s: &syn::Stmt) -> &[syn::Attribute] {
    match s {
        syn::Stmt::Local(l) => &l.attrs,
        syn::Stmt::Expr(e, _) => expr_attrs(e),
        syn::Stmt::Macro(m) => &m.attrs,
        syn::Stmt::Item(_) => &[],
    }
}
pub fn expr_attrs(e: &syn::Expr) -> &[syn::Attribute] {
    match e {
        syn::Expr::Block(b) => &b.attrs,
        syn::Expr::Call(b) => &b.attrs,
        syn::Expr::MethodCall(b) => &b.attrs,
        syn::Expr::If(b) => &b.attrs,
        syn::Expr::Unsafe(b) => &b.attrs,
        syn::Expr::Return(b) => &b.attrs,
        syn::Expr::Match(b) => &b.attrs,
        syn::Expr::ForLoop(b) => &b.attrs,
        syn::Expr::Assign(b) => &b.attrs,
        _ => &[],
    }
}
pub fn stmt_cfg(s: &syn::Stmt, feats: &[String]) -> bool {
    cfg_ok(stmt_attrs(s), feats)
}

pub fn strip(e: &syn::Expr) -> &syn::Expr {
    match e {
        syn::Expr::Paren(p) => strip(&p.expr),
        syn::Expr::Group(p) => strip(&p.expr),
        _ => e,
    }
}
fn mcall<'a>(e: &'a syn::Expr, name: &str, n: usize) -> Option<&'a syn::ExprMethodCall> {
    match strip(e) {
        syn::Expr::MethodCall(m) if m.method == name && m.args.len() == n => Some(m),
        _ => None,
    }
}

pub fn iter_kind(e: &syn::Expr) -> &'static str {
    let e = strip(e);
    if let syn::Expr::Range(r) = e {
        return match (r.start.is_some(), r.end.is_some(), &r.limits) {
            (true, true, syn::RangeLimits::HalfOpen(_)) => "range",
            (true, true, syn::RangeLimits::Closed(_)) => "rangeincl",
            _ => "other",
        };
    }
    if let Some(m) = mcall(e, "step_by", 1) {
        if iter_kind(&m.receiver) == "range" {
            return "step";
        }
    }
    if let Some(m) = mcall(e, "rev", 0) {
        if iter_kind(&m.receiver) == "range" {
            return "rev";
        }
    }
    if let Some(m) = mcall(e, "enumerate", 0) {
        return match iter_kind(&m.receiver) {
            "iter" => "iterenum",
            "itermut" => "itermutenum",
            _ => "other",
        };
    }
    if mcall(e, "iter", 0).is_some() {
        return "iter";
    }
    if mcall(e, "iter_mut", 0).is_some() {
        return "itermut";
    }
    if let syn::Expr::Reference(r) = e {
        return if r.mutability.is_some() { "itermut" } else { "iter" };
    }
    if let syn::Expr::Path(_) = e {
        return "byval";
    }
    "other"
}

pub struct Rewriter<'a, 'e> {
    pub ed: &'e mut Editor<'a>,
    pub feats: Vec<String>,
    pub loop_index: BTreeMap<usize, usize>,    // start position -> ordinal
    pub closure_index: BTreeMap<usize, usize>, // start position -> ordinal
    pub loop_spec: BTreeMap<usize, String>,
    pub loop_start: BTreeMap<usize, String>,
    pub loop_end: BTreeMap<usize, String>,
    pub loop_before: BTreeMap<usize, String>,
    pub loop_after: BTreeMap<usize, String>,
    pub closure_spec: BTreeMap<usize, String>,
    pub call_before: BTreeMap<usize, String>, // call position -> text
    pub call_after: BTreeMap<usize, String>,
    pub stmt_stack: Vec<(usize, usize)>,
    pub unsupported: Option<String>,
    pub inserted: BTreeSet<String>,
    pub probe: bool,
    pub ext_crate_image: bool,
    pub in_closure: usize,
    pub hoistable: BTreeSet<usize>,
    pub literals: String,
    pub let_closures: BTreeMap<usize, String>,
    pub fresh: BTreeSet<String>,                             // locals an edit introduced
    pub mutated: BTreeSet<String>,                           // names bound with `mut` or as `&mut`
    pub pure_lets: Vec<(String, String, BTreeSet<String>)>, // their values: name, statement, names used
}

/// Is `*name` in the block?
fn derefs(b: &syn::Block, name: &str) -> bool {
    struct D<'n>(&'n str, bool);
    impl<'y, 'n> Visit<'y> for D<'n> {
        fn visit_expr_unary(&mut self, u: &'y syn::ExprUnary) {
            if matches!(u.op, syn::UnOp::Deref(_)) && matches!(strip(&u.expr), syn::Expr::Path(p) if p.path.is_ident(self.0)) {
                self.1 = true;
            }
            visit::visit_expr_unary(self, u)
        }
    }
    let mut d = D(name, false);
    d.visit_block(b);
    d.1
}
/// Names used by an expression (locals, parameters).
pub fn names_in<'x>(e: &'x syn::Expr) -> BTreeSet<String> {
    struct N(BTreeSet<String>);
    impl<'y> Visit<'y> for N {
        fn visit_expr_path(&mut self, p: &'y syn::ExprPath) {
            if let Some(i) = p.path.get_ident() {
                self.0.insert(i.to_string());
            }
        }
    }
    let mut n = N(BTreeSet::new());
    n.visit_expr(e);
    n.0
}
/// Names that can change: bound with `mut`, or assigned / borrowed mutably by name.
pub fn mutated_names(block: &syn::Block) -> BTreeSet<String> {
    struct N(BTreeSet<String>);
    impl<'y> Visit<'y> for N {
        fn visit_pat_ident(&mut self, p: &'y syn::PatIdent) {
            if p.mutability.is_some() || p.by_ref.is_some() {
                self.0.insert(p.ident.to_string());
            }
            visit::visit_pat_ident(self, p)
        }
    }
    let mut n = N(BTreeSet::new());
    n.visit_block(block);
    n.0
}
/// For every loop, in source order: what its body changes that lives outside it, as `name:kind of change`.
pub fn loop_state(block: &syn::Block, feats: &[String]) -> Vec<BTreeSet<String>> {
    fn root(e: &syn::Expr) -> Option<(String, bool)> {
        match e {
            syn::Expr::Path(p) => p.path.get_ident().map(|i| (i.to_string(), false)),
            syn::Expr::Index(i) => root(&i.expr).map(|(n, _)| (n, true)),
            syn::Expr::Field(f) => root(&f.base),
            syn::Expr::Paren(p) => root(&p.expr),
            syn::Expr::Unary(u) if matches!(u.op, syn::UnOp::Deref(_)) => root(&u.expr),
            syn::Expr::MethodCall(m) => root(&m.receiver).map(|(n, _)| (n, true)),
            syn::Expr::Reference(r) => root(&r.expr),
            _ => None,
        }
    }
    // changes inside one loop body
    struct B<'x> {
        feats: &'x [String],
        bound: BTreeSet<String>,
        mutable: &'x BTreeSet<String>,
        out: BTreeSet<String>,
    }
    impl<'x, 'y> Visit<'y> for B<'x> {
        fn visit_stmt(&mut self, s: &'y syn::Stmt) {
            if stmt_cfg(s, self.feats) {
                visit::visit_stmt(self, s)
            }
        }
        fn visit_pat_ident(&mut self, p: &'y syn::PatIdent) {
            self.bound.insert(p.ident.to_string());
        }
        fn visit_expr(&mut self, e: &'y syn::Expr) {
            let mut put = |x: Option<(String, bool)>, k: &str| {
                if let Some((n, deep)) = x {
                    self.out.insert(format!("{n}:{}", if k.is_empty() { if deep { "[]=" } else { "=" } } else { k }));
                }
            };
            match e {
                syn::Expr::Assign(a) => put(root(&a.left), ""),
                syn::Expr::Binary(b) if is_op_assign(&b.op) => put(root(&b.left), ""),
                syn::Expr::Reference(r) if r.mutability.is_some() => put(root(&r.expr), "&mut"),
                syn::Expr::MethodCall(m) => {
                    if let Some((n, d)) = root(&m.receiver) {
                        if !d && self.mutable.contains(&n) {
                            let name = m.method.to_string();
                            if !matches!(name.as_str(), "len" | "is_empty" | "iter" | "clone" | "info" | "get" | "get_pixel" | "to_vec" | "as_slice" | "last" | "unwrap" | "abs") {
                                put(Some((n, d)), &format!(".{name}"));
                            }
                        }
                    }
                }
                _ => {}
            }
            visit::visit_expr(self, e)
        }
    }
    struct L<'x> {
        feats: &'x [String],
        mutable: BTreeSet<String>,
        out: Vec<(usize, BTreeSet<String>)>,
    }
    impl<'x, 'y> Visit<'y> for L<'x> {
        fn visit_stmt(&mut self, s: &'y syn::Stmt) {
            if stmt_cfg(s, self.feats) {
                visit::visit_stmt(self, s)
            }
        }
        fn visit_expr(&mut self, e: &'y syn::Expr) {
            let (pos, pat, body) = match e {
                syn::Expr::ForLoop(f) => (srange(f.for_token.span).0, Some(&f.pat), &f.body),
                syn::Expr::While(f) => (srange(f.while_token.span).0, None, &f.body),
                syn::Expr::Loop(f) => (srange(f.loop_token.span).0, None, &f.body),
                _ => return visit::visit_expr(self, e),
            };
            let mut b = B { feats: self.feats, bound: BTreeSet::new(), mutable: &self.mutable, out: BTreeSet::new() };
            if let Some(p) = pat {
                b.visit_pat(p);
            }
            b.visit_block(body);
            let bound = b.bound;
            let out = b.out.into_iter().filter(|x| !bound.contains(x.split(':').next().unwrap())).collect();
            self.out.push((pos, out));
            visit::visit_expr(self, e)
        }
    }
    let mut l = L { feats, mutable: mutated_names(block), out: vec![] };
    l.visit_block(block);
    l.out.sort();
    l.out.into_iter().map(|x| x.1).collect()
}
fn is_op_assign(o: &syn::BinOp) -> bool {
    use syn::BinOp::*;
    matches!(o, AddAssign(_) | SubAssign(_) | MulAssign(_) | DivAssign(_) | RemAssign(_) | BitXorAssign(_) | BitAndAssign(_) | BitOrAssign(_) | ShlAssign(_) | ShrAssign(_))
}
/// Values that can be computed again at any later place with the same result.
fn repeatable(e: &syn::Expr) -> bool {
    match strip(e) {
        syn::Expr::Path(_) | syn::Expr::Lit(_) => true,
        syn::Expr::Field(f) => repeatable(&f.base),
        syn::Expr::Unary(u) => !matches!(u.op, syn::UnOp::Deref(_)) && repeatable(&u.expr),
        syn::Expr::Binary(b) => {
            use syn::BinOp::*;
            matches!(b.op, Add(_) | Sub(_) | Mul(_) | Div(_) | Rem(_) | Lt(_) | Le(_) | Gt(_) | Ge(_) | Eq(_) | Ne(_) | And(_) | Or(_)) && repeatable(&b.left) && repeatable(&b.right)
        }
        syn::Expr::Cast(c) => repeatable(&c.expr),
        syn::Expr::MethodCall(m) => {
            matches!(m.method.to_string().as_str(), "info" | "powf" | "powi" | "sqrt" | "abs" | "round" | "floor") && repeatable(&m.receiver) && m.args.iter().all(repeatable)
        }
        _ => false,
    }
}

impl<'a, 'e> Rewriter<'a, 'e> {
    fn txt<T: Spanned>(&self, t: &T) -> String {
        let (s, e) = range(t);
        self.ed.render(s, e)
    }
    fn unsup(&mut self, s: &str) {
        if self.unsupported.is_none() {
            self.unsupported = Some(s.into());
        }
    }
    fn stmt_edit(&mut self, s: &syn::Stmt) -> bool {
        // returns false when the statement is configured out
        let attrs = stmt_attrs(s);
        if !cfg_ok(attrs, &self.feats) {
            let (a, b) = range(s);
            let a0 = attrs.iter().map(|x| range(x).0).min().unwrap_or(a).min(a);
            self.ed.replace(a0, b, "");
            return false;
        }
        for a in attrs {
            let (s0, e0) = range(a);
            self.ed.replace(s0, e0, "");
        }
        true
    }

    fn for_loop(&mut self, f: &syn::ExprForLoop) {
        let start = srange(f.for_token.span).0;
        let k = *self.loop_index.get(&start).unwrap_or(&usize::MAX);
        let kind = iter_kind(&f.expr);
        let pat = self.txt(&*f.pat);
        let e = strip(&f.expr);
        let (c, hi, lo, d, g, st, v) =
            (format!("c__{k}"), format!("e__{k}"), format!("s__{k}"), format!("d__{k}"), format!("g__{k}"), format!("n__{k}"), format!("v__{k}"));
        let mut pre;
        let cond;
        let bind;
        let mut inv;
        let dec;
        let ghost_i;
        let bounds = |me: &Self, e: &syn::Expr| -> (String, String) {
            match strip(e) {
                syn::Expr::Range(r) => (me.txt(&**r.start.as_ref().unwrap()), me.txt(&**r.end.as_ref().unwrap())),
                _ => unreachable!(),
            }
        };
        match kind {
            "range" => {
                let (a, b) = bounds(self, e);
                pre = format!("let (mut {c}, {hi}) = ({a}, {b}); if false {{ let _ = {c} < {hi}; }} let {lo} = {c};");
                cond = format!("{c} < {hi}");
                bind = format!("let {pat} = {c}; {c} = {c} + 1;");
                inv = format!("{lo} <= {c}, {lo} <= {hi} ==> {c} <= {hi}, {lo} > {hi} ==> {c} == {lo},");
                dec = format!("{hi} - {c}");
                ghost_i = c.clone();
            }
            "rangeincl" => {
                let (a, b) = bounds(self, e);
                pre = format!(
                    "let (mut {c}, {hi}) = ({a}, {b}); let mut {d} = {c} > {hi}; let {lo} = {c}; let ghost mut {g} = {c} as int;"
                );
                cond = format!("!{d}");
                bind = format!("let {pat} = {c}; if {c} == {hi} {{ {d} = true; }} else {{ {c} = {c} + 1; }} proof {{ {g} = {g} + 1; }}");
                inv = format!(
                    "{lo} <= {g}, !{d} ==> {g} == {c} && {c} <= {hi}, {d} ==> ({g} == {hi} + 1 || ({lo} > {hi} && {g} == {lo})), {lo} <= {hi} ==> {g} <= {hi} + 1, {lo} > {hi} ==> {d},"
                );
                dec = format!("{hi} + 1 - {g}, if {d} {{ 0int }} else {{ 1int }}");
                ghost_i = g.clone();
            }
            "step" => {
                let m = mcall(e, "step_by", 1).unwrap();
                let (a, b) = bounds(self, &m.receiver);
                let n = self.txt(&m.args[0]);
                pre = format!("let (mut {c}, {hi}) = ({a}, {b}); if false {{ let _ = {c} < {hi}; }} let {lo} = {c}; let {st}: usize = {n}; let ghost mut {g} = 0int; assert({st} > 0);");
                cond = format!("{c} < {hi}");
                bind = format!("let {pat} = {c}; {c} = crate::rt::StepBy::step_by_({c}, {hi}, {st}); proof {{ crate::rt::lemma_step({lo} as int, {hi} as int, {st} as int, {g}); {g} = {g} + 1; }}");
                inv = format!("{st} > 0, {g} >= 0, {lo} <= {c}, {lo} <= {hi} ==> {c} <= {hi}, {c} < {hi} ==> {c} == {lo} + {g} * {st}, {c} >= {hi} && {lo} <= {hi} ==> {lo} + {g} * {st} >= {hi}, {lo} > {hi} ==> {c} == {lo},");
                dec = format!("{hi} - {c}");
                ghost_i = c.clone();
            }
            "rev" => {
                let m = mcall(e, "rev", 0).unwrap();
                let (a, b) = bounds(self, &m.receiver);
                pre = format!("let ({lo}, mut {c}) = ({a}, {b}); if false {{ let _ = {c} < {lo}; }} let {hi} = {c};");
                cond = format!("{lo} < {c}");
                bind = format!("{c} = {c} - 1; let {pat} = {c};");
                inv = format!("{c} <= {hi}, {lo} <= {hi} ==> {lo} <= {c}, {lo} > {hi} ==> {c} == {hi},");
                dec = format!("{c} - {lo}");
                ghost_i = c.clone();
            }
            "iter" | "iterenum" | "byval" => {
                let recv = match kind {
                    "iterenum" => {
                        let m = mcall(e, "enumerate", 0).unwrap();
                        match strip(&m.receiver) {
                            syn::Expr::MethodCall(mm) => self.txt(&*mm.receiver),
                            x => self.txt(x),
                        }
                    }
                    _ => match e {
                        syn::Expr::MethodCall(mm) => self.txt(&*mm.receiver),
                        syn::Expr::Reference(r) => self.txt(&*r.expr),
                        x => self.txt(x),
                    },
                };
                pre = format!("let r__{k} = &{recv}; let {v} = crate::rt::RtSlice::rt_sl(r__{k}); let mut {c}: usize = 0;");
                cond = format!("{c} < {v}.len()");
                // a slice is iterated by reference (the body dereferences the element), a vector by value
                let by_ref = kind == "byval" && matches!(&*f.pat, syn::Pat::Ident(i) if derefs(&f.body, &i.ident.to_string()));
                // `&p` binds the element itself
                let (by_ref, pat) = match &*f.pat {
                    syn::Pat::Reference(r) => (false, self.txt(&*r.pat)),
                    _ => (by_ref, pat.clone()),
                };
                let kind_el = if matches!(&*f.pat, syn::Pat::Reference(_)) { "byval" } else { kind };
                let elem = if kind_el == "byval" && !by_ref { format!("{v}[{c}]") } else { format!("&{v}[{c}]") };
                let pats = if kind == "iterenum" {
                    match &*f.pat {
                        syn::Pat::Tuple(t) if t.elems.len() == 2 => Some((self.txt(&t.elems[0]), self.txt(&t.elems[1]))),
                        _ => None,
                    }
                } else {
                    Some(("_".to_string(), pat.clone()))
                };
                bind = match (&pats, kind) {
                    (Some((i, p)), "iterenum") => format!("let {i} = {c}; let {p} = {elem}; {c} = {c} + 1;"),
                    (Some((_, p)), _) => format!("let {p} = {elem}; {c} = {c} + 1;"),
                    _ => format!("let {pat} = ({c}, {elem}); {c} = {c} + 1;"),
                };
                inv = format!("0 <= {c} <= {v}@.len(),");
                dec = format!("{v}@.len() - {c}");
                ghost_i = c.clone();
            }
            "itermut" | "itermutenum" => {
                let recv_e: &syn::Expr = match kind {
                    "itermutenum" => {
                        let m = mcall(e, "enumerate", 0).unwrap();
                        match strip(&m.receiver) {
                            syn::Expr::MethodCall(mm) => strip(&mm.receiver),
                            x => x,
                        }
                    }
                    _ => match e {
                        syn::Expr::MethodCall(mm) => strip(&mm.receiver),
                        syn::Expr::Reference(r) => strip(&r.expr),
                        x => x,
                    },
                };
                if !pure_place(recv_e) {
                    self.unsup("iter_mut over a non-place expression");
                }
                let recv = self.txt(recv_e);
                pre = format!("let {hi} = {recv}.len(); let mut {c}: usize = 0;");
                cond = format!("{c} < {hi}");
                let elem = format!("&mut {recv}[{c}]");
                bind = match (&*f.pat, kind) {
                    (syn::Pat::Tuple(t), "itermutenum") if t.elems.len() == 2 => {
                        format!("let {} = {c}; let {} = {elem}; {c} = {c} + 1;", self.txt(&t.elems[0]), self.txt(&t.elems[1]))
                    }
                    _ => format!("let {pat} = {elem}; {c} = {c} + 1;"),
                };
                inv = format!("0 <= {c} <= {hi}, {recv}@.len() == {hi},");
                dec = format!("{hi} - {c}");
                ghost_i = c.clone();
            }
            _ => {
                self.unsup(&format!("for loop over an unsupported iterator"));
                return;
            }
        }
        let subst = |t: &str| subst_loop(t, k, &ghost_i, &lo, &hi, &v);
        let mut extra = self.loop_spec.get(&k).map(|t| subst(t)).unwrap_or_default();
        let user_dec = split_decreases(&mut extra);
        if let Some(x) = extra.trim().strip_prefix("invariant") {
            inv.push_str(x);
            if !inv.trim_end().ends_with(',') {
                inv.push(',');
            }
        } else if !extra.trim().is_empty() {
            inv.push_str(&extra);
        }
        let dec = user_dec.unwrap_or(dec);
        let before = self.loop_before.get(&k).map(|t| subst(t)).unwrap_or_default();
        pre.push_str(&before);
        let ls = self.loop_start.get(&k).map(|t| subst(t)).unwrap_or_default();
        let le = self.loop_end.get(&k).map(|t| format!(";\n{}", subst(t))).unwrap_or_default();
        let la = self.loop_after.get(&k).map(|t| subst(t)).unwrap_or_default();
        let probe = if self.probe { "assert(false);" } else { "" };
        let body_open = srange(f.body.brace_token.span.open());
        let body_close = srange(f.body.brace_token.span.close());
        let label = f.label.as_ref().map(|l| self.txt(l)).unwrap_or_default();
        let complex = complex_attr(&inv);
        let hdr = format!(
            "{{ {pre}\n{complex}#[verifier::loop_isolation(false)]\n{label} while {cond}\ninvariant\n{inv}\ndecreases {dec}\n{{ {probe} {bind} {ls}\n"
        );
        self.ed.replace(start.min(f.label.as_ref().map(|l| range(l).0).unwrap_or(start)), body_open.1, hdr);
        self.ed.replace(body_close.0, body_close.1, format!("{le}\n}}\n{la} }}"));
    }

    fn while_loop(&mut self, start: usize, body: &syn::Block) {
        let k = *self.loop_index.get(&start).unwrap_or(&usize::MAX);
        let extra = self.loop_spec.get(&k).cloned().unwrap_or_default();
        let before = self.loop_before.get(&k).cloned().unwrap_or_default();
        let complex = complex_attr(&extra);
        self.ed.open(start, format!("{{ {before}\n{complex}#[verifier::loop_isolation(false)]\n"));
        let open = srange(body.brace_token.span.open());
        let close = srange(body.brace_token.span.close());
        let probe = if self.probe { "assert(false);" } else { "" };
        let ls = self.loop_start.get(&k).cloned().unwrap_or_default();
        let le = self.loop_end.get(&k).map(|t| format!(";\n{t}")).unwrap_or_default();
        let la = self.loop_after.get(&k).cloned().unwrap_or_default();
        self.ed.replace(open.0, open.1, format!("\n{extra}\n{{ {probe} {ls}\n"));
        self.ed.replace(close.0, close.1, format!("{le}\n}}\n{la} }}"));
    }

    fn anchors(&mut self, pos: usize) {
        if let Some(t) = self.call_before.get(&pos).cloned() {
            if let Some(&(s, _)) = self.stmt_stack.last() {
                self.ed.open(s, format!("{t}\n"));
            }
        }
        if let Some(t) = self.call_after.get(&pos).cloned() {
            if let Some(&(_, e)) = self.stmt_stack.last() {
                self.ed.close(e, format!("\n{t}\n"));
            }
        }
    }
}

pub fn subst_loop(t: &str, k: usize, i: &str, lo: &str, hi: &str, v: &str) -> String {
    let _ = k;
    t.replace("$i", i).replace("$lo", lo).replace("$hi", hi).replace("$v", v)
}

fn split_decreases(t: &mut String) -> Option<String> {
    if let Some(p) = t.find("decreases") {
        let d = t[p + "decreases".len()..].trim().trim_end_matches(',').to_string();
        t.truncate(p);
        Some(d)
    } else {
        None
    }
}

pub fn pure_place(e: &syn::Expr) -> bool {
    match strip(e) {
        syn::Expr::Path(_) => true,
        syn::Expr::Field(f) => pure_place(&f.base),
        syn::Expr::Unary(u) if matches!(u.op, syn::UnOp::Deref(_)) => pure_place(&u.expr),
        syn::Expr::Index(i) => pure_place(&i.expr) && pure_expr(&i.index),
        // `image.get_pixel_mut(x, y)[0] op= v`: evaluated once for reading, once for writing
        _ => false,
    }
}
fn pure_expr(e: &syn::Expr) -> bool {
    match strip(e) {
        syn::Expr::Path(_) | syn::Expr::Lit(_) => true,
        syn::Expr::Field(f) => pure_expr(&f.base),
        syn::Expr::Unary(u) => pure_expr(&u.expr),
        syn::Expr::Binary(b) => pure_expr(&b.left) && pure_expr(&b.right),
        syn::Expr::Cast(c) => pure_expr(&c.expr),
        syn::Expr::Index(i) => pure_expr(&i.expr) && pure_expr(&i.index),
        syn::Expr::Reference(r) => r.mutability.is_none() && pure_expr(&r.expr),
        syn::Expr::Range(r) => r.start.as_ref().map_or(true, |x| pure_expr(x)) && r.end.as_ref().map_or(true, |x| pure_expr(x)),
        syn::Expr::MethodCall(m) => {
            matches!(m.method.to_string().as_str(), "len" | "info" | "size" | "full_size") && pure_expr(&m.receiver)
        }
        _ => false,
    }
}

fn is_float_expr(e: &syn::Expr) -> bool {
    match strip(e) {
        syn::Expr::Lit(l) => matches!(l.lit, syn::Lit::Float(_)),
        syn::Expr::Unary(u) => is_float_expr(&u.expr),
        syn::Expr::Binary(b) => is_float_expr(&b.left) || is_float_expr(&b.right),
        syn::Expr::Cast(c) => matches!(&*c.ty, syn::Type::Path(p) if p.path.is_ident("f32") || p.path.is_ident("f64")),
        syn::Expr::MethodCall(m) => {
            matches!(m.method.to_string().as_str(), "round" | "floor" | "ceil" | "sqrt" | "powf" | "powi" | "trunc")
                || (matches!(m.method.to_string().as_str(), "clamp" | "min" | "max" | "abs") && (is_float_expr(&m.receiver) || m.args.iter().any(is_float_expr)))
        }
        _ => false,
    }
}
/// Expressions that are integers for certain: the plain `as` is kept for them.
fn is_int_expr(e: &syn::Expr) -> bool {
    match strip(e) {
        syn::Expr::Lit(l) => matches!(l.lit, syn::Lit::Int(_)),
        syn::Expr::Binary(b) => is_int_expr(&b.left) && is_int_expr(&b.right),
        syn::Expr::Unary(u) => is_int_expr(&u.expr),
        syn::Expr::Cast(c) => matches!(&*c.ty, syn::Type::Path(p) if {
            let i = p.path.get_ident().map(|i| i.to_string()).unwrap_or_default();
            matches!(i.as_str(), "u8"|"i8"|"u16"|"i16"|"u32"|"i32"|"u64"|"i64"|"usize"|"isize")
        }),
        syn::Expr::MethodCall(m) => matches!(m.method.to_string().as_str(), "len" | "size" | "full_size" | "count" | "abs_diff" | "channels_non_alpha"),
        syn::Expr::Field(f) => matches!(&f.member, syn::Member::Named(n) if n == "width" || n == "height" || n == "channels"),
        _ => false,
    }
}

impl<'ast, 'a, 'e> Visit<'ast> for Rewriter<'a, 'e> {
    fn visit_stmt(&mut self, s: &'ast syn::Stmt) {
        if !self.stmt_edit(s) {
            return;
        }
        self.stmt_stack.push(range(s));
        if let syn::Stmt::Local(l) = s {
            if let (syn::Pat::Ident(n), Some(i)) = (&l.pat, &l.init) {
                if let syn::Expr::Closure(c) = &*i.expr {
                    self.let_closures.insert(range(c).0, n.ident.to_string());
                }
            }
        }
        if let syn::Stmt::Macro(m) = s {
            self.visit_macro(&m.mac);
        } else {
            visit::visit_stmt(self, s);
        }
        if let syn::Stmt::Local(l) = s {
            let (pat, ty) = match &l.pat {
                syn::Pat::Type(t) => (&*t.pat, Some(&*t.ty)),
                p => (p, None),
            };
            if let (syn::Pat::Ident(n), Some(i)) = (pat, &l.init) {
                let name = n.ident.to_string();
                let used = names_in(&i.expr);
                if self.fresh.contains(&name) && i.diverge.is_none() && repeatable(&i.expr) && used.is_disjoint(&self.mutated) && !self.mutated.contains(&name) {
                    let ty = ty.map(|t| format!(": {}", self.txt(t))).unwrap_or_default();
                    let v = self.txt(&*i.expr);
                    self.pure_lets.push((name.clone(), format!("let {name}{ty} = {v};"), used));
                }
            }
        }
        self.stmt_stack.pop();
    }

    fn visit_macro(&mut self, m: &'ast syn::Macro) {
        let name = m.path.segments.last().unwrap().ident.to_string();
        let (s, e) = range(m);
        match name.as_str() {
            "panic" | "unreachable" | "todo" | "unimplemented" => self.ed.replace(s, e, "crate::rt::diverge()"),
            "format" => self.ed.replace(s, e, "crate::rt::fmt_()"),
            "is_x86_feature_detected" => self.ed.replace(s, e, "crate::rt::has_feature()"),
            "vec" => {
                // visit the arguments
                if let Ok(es) = m.parse_body_with(syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated) {
                    for x in es.iter() {
                        self.visit_expr(&x.clone());
                    }
                } else {
                    struct Rep(syn::Expr, syn::Expr);
                    impl syn::parse::Parse for Rep {
                        fn parse(i: syn::parse::ParseStream) -> syn::Result<Self> {
                            let a = i.parse()?;
                            i.parse::<syn::Token![;]>()?;
                            Ok(Rep(a, i.parse()?))
                        }
                    }
                    if let Ok(r) = m.parse_body::<Rep>() {
                        self.visit_expr(&r.0);
                        self.visit_expr(&r.1);
                    }
                }
            }
            "assert" | "debug_assert" => {
                // an executable assertion panics when it does not hold
                if let Ok(es) = m.parse_body_with(syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated) {
                    let t = self.txt(&es[0]);
                    self.ed.replace(s, e, format!("if !({t}) {{ crate::rt::diverge() }}"));
                }
            }
            _ => self.unsup(&format!("macro {name}!")),
        }
    }

    fn visit_expr(&mut self, e: &'ast syn::Expr) {
        use syn::Expr::*;
        match e {
            ForLoop(f) => {
                // the iterator expression and the body first
                self.visit_expr(&f.expr);
                self.visit_block(&f.body);
                self.for_loop(f);
            }
            While(w) => {
                visit::visit_expr(self, e);
                let s = srange(w.while_token.span).0;
                self.while_loop(s, &w.body);
            }
            Loop(w) => {
                visit::visit_expr(self, e);
                let s = srange(w.loop_token.span).0;
                self.while_loop(s, &w.body);
            }
            Unsafe(u) => {
                visit::visit_expr(self, e);
                let (s, t) = srange(u.unsafe_token.span);
                self.ed.replace(s, t, "");
            }
            Closure(c) => {
                let keep = std::mem::take(&mut self.stmt_stack);
                self.in_closure += 1;
                let outside = self.pure_lets.len();
                self.visit_expr(&c.body);
                self.in_closure -= 1;
                self.stmt_stack = keep;
                let start = range(c).0;
                let k = *self.closure_index.get(&start).unwrap_or(&usize::MAX);
                if let Some(h) = self.closure_spec.get(&k).cloned() {
                    let mut h = h;
                    for (i, p) in c.inputs.iter().enumerate() {
                        let name = match p {
                            syn::Pat::Ident(i) => i.ident.to_string(),
                            syn::Pat::Type(t) => match &*t.pat {
                                syn::Pat::Ident(i) => i.ident.to_string(),
                                _ => format!("arg{i}__"),
                            },
                            syn::Pat::Wild(_) => format!("arg{i}__"),
                            _ => {
                                self.unsup("closure parameter pattern");
                                format!("arg{i}__")
                            }
                        };
                        h = h.replace(&format!("${i}"), &name);
                    }
                    let (bs, be) = range(&*c.body);
                    let is_block = matches!(&*c.body, syn::Expr::Block(_));
                    // optional proof texts after `===`: in the body, after the creation of the closure
                    let mut parts = h.split("===").map(|x| x.trim().to_string());
                    let head = parts.next().unwrap_or_default();
                    let proof = parts.next().unwrap_or_default();
                    let after = parts.next().unwrap_or_default();
                    // the values of the locals an edit introduced, which the closure knows nothing about
                    let mut need = names_in(&c.body);
                    let mut again = String::new();
                    for (n, s, used) in self.pure_lets[..outside].iter().rev() {
                        if need.contains(n) {
                            again = format!("{s}\n{again}");
                            need.extend(used.iter().cloned());
                        }
                    }
                    let proof = format!("{proof}\n{again}");
                    let probe = if self.probe { "assert(false);" } else { self.literals.as_str() };
                    if is_block {
                        self.ed.replace(start, bs + 1, format!("{head} {{ {probe} {proof}\n"));
                    } else {
                        self.ed.replace(start, bs, format!("{head} {{ {probe} {proof}\n"));
                        self.ed.close(be, "}".to_string());
                    }
                    if let (Some(nm), Some(&(_, se))) = (self.let_closures.get(&start).cloned(), self.stmt_stack.last()) {
                        self.ed.close(se, format!("\n{}\n", after.replace("$c", &nm)));
                    }
                    // an argument closure gets a name, so that the proof can talk about it
                    if self.hoistable.contains(&start) {
                        if let Some(&(ss, _)) = self.stmt_stack.last() {
                            let t = self.txt(c);
                            let (cs, ce) = range(c);
                            let nm = format!("cl__{k}");
                            let after = after.replace("$c", &nm);
                            self.ed.replace(cs, ce, nm.clone());
                            self.ed.open(ss, format!("let {nm} = {t};\n{after}\n"));
                        }
                    }
                }
            }
            Binary(b) => {
                visit::visit_expr(self, e);
                use syn::BinOp::*;
                let op = match b.op {
                    AddAssign(_) => "+",
                    SubAssign(_) => "-",
                    MulAssign(_) => "*",
                    DivAssign(_) => "/",
                    RemAssign(_) => "%",
                    _ => return,
                };
                // `*x.f(..) op= v` and `x.f(..)[i] op= v`: the call is evaluated once
                let call = match strip(&b.left) {
                    syn::Expr::Unary(u) if matches!(u.op, syn::UnOp::Deref(_)) => match strip(&u.expr) {
                        MethodCall(m) => Some((range(m), String::from("*p__"))),
                        _ => None,
                    },
                    Index(i) if pure_expr(&i.index) => match strip(&i.expr) {
                        MethodCall(m) => Some((range(m), format!("p__[{}]", self.txt(&*i.index)))),
                        _ => None,
                    },
                    _ => None,
                };
                if let Some(((cs, ce), lhs)) = call {
                    let m = self.ed.render(cs, ce);
                    let r = self.txt(&*b.right);
                    let (s, t) = range(b);
                    self.ed.replace(s, t, format!("{{ let v__ = {r}; let p__ = {m}; {lhs} = {lhs} {op} v__; }}"));
                    return;
                }
                if !pure_place(&b.left) {
                    self.unsup("compound assignment to a place with side effects");
                    return;
                }
                let lhs = self.txt(&*b.left);
                let (os, oe) = range(&b.op);
                self.ed.replace(os, oe, format!("= {lhs} {op} ("));
                let (_, re) = range(&*b.right);
                self.ed.close(re, ")");
            }
            Cast(c) => {
                visit::visit_expr(self, e);
                let ty = match &*c.ty {
                    syn::Type::Path(p) => p.path.get_ident().map(|i| i.to_string()).unwrap_or_default(),
                    _ => String::new(),
                };
                let (s, es) = range(&*c.expr);
                let (_, ee) = range(c);
                let f = match ty.as_str() {
                    "f32" | "f64" => true,
                    "u8" | "u32" | "i32" | "usize" | "i64" | "u64" | "i16" | "u16" | "isize" => {
                        !is_int_expr(&c.expr) && (is_float_expr(&c.expr) || self.ambiguous(&c.expr))
                    }
                    _ => false,
                };
                if f {
                    self.ed.replace(es, ee, ")");
                    self.ed.open(s, format!("crate::rt::To_{ty}::to_{ty}_("));
                }
            }
            Unary(u) => {
                visit::visit_expr(self, e);
                if let syn::UnOp::Neg(n) = u.op {
                    if matches!(strip(&u.expr), Lit(l) if matches!(l.lit, syn::Lit::Int(_))) {
                        return;
                    }
                    if let Lit(l) = strip(&u.expr) {
                        if let syn::Lit::Float(_) = l.lit {
                            let (s, t) = srange(n.span);
                            let (_, ee) = range(&*u.expr);
                            self.ed.replace(s, t, "crate::rt::neg_f32_lit(");
                            self.ed.close(ee, ")");
                            return;
                        }
                    }
                    let (s, t) = srange(n.span);
                    let (_, ee) = range(&*u.expr);
                    self.ed.replace(s, t, "core::ops::Neg::neg(");
                    self.ed.close(ee, ")");
                }
            }
            Reference(r) if r.mutability.is_some() => {
                if let Index(ix) = strip(&r.expr) {
                    if let syn::Expr::Range(rg) = strip(&ix.index) {
                        visit::visit_expr(self, &r.expr);
                        let base = self.txt(&*ix.expr);
                        let a = rg.start.as_ref().map(|x| self.txt(&**x));
                        let b = rg.end.as_ref().map(|x| self.txt(&**x));
                        let (s, t) = range(r);
                        let (nm, args) = match (a, b, &rg.limits) {
                            (Some(a), Some(b), syn::RangeLimits::HalfOpen(_)) => ("slice_mut", format!(", {a}, {b}")),
                            (None, None, _) => ("slice_mut_full", String::new()),
                            _ => {
                                self.unsup("mutable slice range");
                                return;
                            }
                        };
                        self.ed.replace(s, t, format!("crate::rt::RtMut::{nm}(&mut {base}{args})"));
                        return;
                    }
                }
                visit::visit_expr(self, e);
            }
            MethodCall(m) => {
                for a in m.args.iter() {
                    if let syn::Expr::Closure(c) = a {
                        self.hoistable.insert(range(c).0);
                    }
                }
                let name = m.method.to_string();
                // E[a..b].clone_from_slice(p)
                if name == "clone_from_slice" || name == "copy_from_slice" {
                    if let Index(ix) = strip(&m.receiver) {
                        if let syn::Expr::Range(rg) = strip(&ix.index) {
                            visit::visit_expr(self, e);
                            if let (Some(a), Some(b), syn::RangeLimits::HalfOpen(_)) = (&rg.start, &rg.end, &rg.limits) {
                                let base = self.txt(&*ix.expr);
                                let (a, b) = (self.txt(&**a), self.txt(&**b));
                                let (s, t) = range(&*m.receiver);
                                let src = self.txt(&m.args[0]);
                                let (_, t2) = range(m);
                                let _ = t;
                                self.ed.replace(s, t2, format!("crate::rt::clone_from_slice_(crate::rt::RtMut::slice_mut(&mut {base}, {a}, {b}), {src})"));
                                self.anchors(srange(m.method.span()).0);
                                return;
                            }
                        }
                    }
                }
                // (a..b).into_par_iter().map(f).collect()
                if name == "collect" && m.args.is_empty() {
                    if let Some(mp) = mcall(&m.receiver, "map", 1) {
                        if let Some(pi) = mcall(&mp.receiver, "into_par_iter", 0) {
                            if let syn::Expr::Range(rg) = strip(&pi.receiver) {
                                if let (Some(a), Some(b), syn::RangeLimits::HalfOpen(_)) = (&rg.start, &rg.end, &rg.limits) {
                                    visit::visit_expr(self, e);
                                    let t = format!("crate::rt::par_map_range({}, {}, {})", self.txt(&**a), self.txt(&**b), self.txt(&mp.args[0]));
                                    let (s, e2) = range(m);
                                    self.ed.replace(s, e2, t);
                                    return;
                                }
                            }
                        }
                    }
                }
                // ARR.extend([..].iter())
                if name == "extend" && m.args.len() == 1 {
                    if let Some(it) = mcall(&m.args[0], "iter", 0) {
                        visit::visit_expr(self, e);
                        let a = self.txt(&*it.receiver);
                        let (s, t) = range(&m.args[0]);
                        self.ed.replace(s, t, format!("&{a}"));
                        let (s, t) = srange(m.method.span());
                        self.ed.replace(s, t, "extend_from_slice".to_string());
                        self.anchors(s);
                        return;
                    }
                }
                // m.entry(k).or_insert(v)
                if name == "or_insert" && m.args.len() == 1 {
                    if let Some(en) = mcall(&m.receiver, "entry", 1) {
                        visit::visit_expr(self, e);
                        let t = format!("{}.entry_or_insert({}, {})", self.txt(&*en.receiver), self.txt(&en.args[0]), self.txt(&m.args[0]));
                        let (s, e2) = range(m);
                        self.ed.replace(s, e2, t);
                        self.anchors(srange(m.method.span()).0);
                        return;
                    }
                }
                // N.into()
                if name == "into" && m.args.is_empty() {
                    if let Lit(l) = strip(&m.receiver) {
                        if let syn::Lit::Int(_) = l.lit {
                            let (s, t) = range(m);
                            let x = self.txt(&*m.receiver);
                            self.ed.replace(s, t, format!("crate::rt::lit({x})"));
                            return;
                        }
                    }
                    visit::visit_expr(self, e);
                    let x = self.txt(&*m.receiver);
                    let (s, t) = range(m);
                    self.ed.replace(s, t, format!("crate::rt::RtInto::rt_into({x})"));
                    return;
                }
                // *slice.iter().min_by(|x, y| x.partial_cmp(y).unwrap()).unwrap()
                if (name == "min_by" || name == "max_by") && m.args.len() == 1 {
                    if let (Some(it), syn::Expr::Closure(c)) = (mcall(&m.receiver, "iter", 0), &m.args[0]) {
                        if let Some(dir) = plain_partial_cmp(c) {
                            visit::visit_expr(self, &it.receiver);
                            let x = self.txt(&*it.receiver);
                            let (s, t) = range(m);
                            let which = if (name == "min_by") == dir { "min" } else { "max" };
                            self.ed.replace(s, t, format!("crate::rt::slice_{which}_f32(crate::rt::RtSlice::rt_sl(&{x}))"));
                            return;
                        }
                    }
                }
                visit::visit_expr(self, e);
                if name == "index" && m.args.len() == 2 {
                    let (s, t) = srange(m.method.span());
                    self.ed.replace(s, t, "index_xy");
                }
                self.anchors(srange(m.method.span()).0);
            }
            Call(c) => {
                for a in c.args.iter() {
                    if let syn::Expr::Closure(c) = a {
                        self.hoistable.insert(range(c).0);
                    }
                }
                if let Path(p) = &*c.func {
                    let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    let last = segs.last().unwrap().clone();
                    if segs.len() >= 2 && segs[segs.len() - 2] == "cmp" && (last == "min" || last == "max") {
                        visit::visit_expr(self, e);
                        let (s, t) = range(p);
                        self.ed.replace(s, t, format!("core::cmp::Ord::{last}"));
                        return;
                    }
                    if last == "_mm256_loadu_si256" && c.args.len() == 1 {
                        if let Some((base, off)) = ptr_chain(&c.args[0]) {
                            visit::visit_expr(self, e);
                            let o = off.map(|x| self.txt(x)).unwrap_or("0".into());
                            let t = format!("crate::rt::loadu256(crate::rt::RtSlice::rt_sl(&{}), {})", self.txt(base), o);
                            let (s, e2) = range(c);
                            self.ed.replace(s, e2, t);
                            return;
                        }
                        self.unsup("raw pointer load");
                    }
                    if last == "_mm256_storeu_si256" && c.args.len() == 2 {
                        if let Some((base, off)) = ptr_chain(&c.args[0]) {
                            visit::visit_expr(self, e);
                            let o = off.map(|x| self.txt(x)).unwrap_or("0".into());
                            let t = format!("crate::rt::storeu256(&mut {}, {}, {})", self.txt(base), o, self.txt(&c.args[1]));
                            let (s, e2) = range(c);
                            self.ed.replace(s, e2, t);
                            self.anchors(range(p).0);
                            return;
                        }
                        self.unsup("raw pointer store");
                    }
                    if last == "_mm256_storeu2_m128i" && c.args.len() == 3 {
                        if let (Some((b1, o1)), Some((b2, o2))) = (ptr_chain(&c.args[0]), ptr_chain(&c.args[1])) {
                            visit::visit_expr(self, e);
                            if self.txt(b1) == self.txt(b2) {
                                let o1 = o1.map(|x| self.txt(x)).unwrap_or("0".into());
                                let o2 = o2.map(|x| self.txt(x)).unwrap_or("0".into());
                                let t = format!("crate::rt::storeu2_128(&mut {}, {}, {}, {})", self.txt(b1), o1, o2, self.txt(&c.args[2]));
                                let (s, e2) = range(c);
                                self.ed.replace(s, e2, t);
                                self.anchors(range(p).0);
                                return;
                            }
                        }
                        self.unsup("raw pointer store");
                    }
                }
                visit::visit_expr(self, e);
                if let Path(p) = &*c.func {
                    self.anchors(range(p).0);
                }
            }
            Macro(m) => self.visit_macro(&m.mac),
            _ => visit::visit_expr(self, e),
        }
    }
    fn visit_expr_path(&mut self, p: &'ast syn::ExprPath) {
        self.fix_path(&p.path);
    }
    fn visit_type_path(&mut self, p: &'ast syn::TypePath) {
        self.fix_path(&p.path);
        visit::visit_type_path(self, p);
    }
    fn visit_pat(&mut self, p: &'ast syn::Pat) {
        visit::visit_pat(self, p);
    }
    fn visit_item(&mut self, _i: &'ast syn::Item) {}
}

impl<'a, 'e> Rewriter<'a, 'e> {
    fn ambiguous(&self, e: &syn::Expr) -> bool {
        // may be a float: decided by the type system through a trait
        !matches!(strip(e), syn::Expr::Lit(_))
    }
    pub fn fix_path(&mut self, p: &syn::Path) {
        let segs: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
        if self.ext_crate_image && p.leading_colon.is_none() && segs.len() > 1 && segs[0] == "image" {
            let (s, t) = srange(p.segments[0].ident.span());
            self.ed.replace(s, t, "crate::ext_image");
        }
        if segs.len() == 3 && segs[0] == "std" && segs[1] == "fmt" {
            self.unsup("std::fmt");
        }
    }
}

/// `|x, y| x.partial_cmp(y).unwrap()` -> Some(true); swapped -> Some(false)
fn plain_partial_cmp(c: &syn::ExprClosure) -> Option<bool> {
    if c.inputs.len() != 2 {
        return None;
    }
    let names: Vec<String> = c
        .inputs
        .iter()
        .map(|p| match p {
            syn::Pat::Ident(i) => i.ident.to_string(),
            _ => String::new(),
        })
        .collect();
    let body = match strip(&c.body) {
        syn::Expr::Block(b) if b.block.stmts.len() == 1 => match &b.block.stmts[0] {
            syn::Stmt::Expr(e, None) => e.clone(),
            _ => return None,
        },
        x => x.clone(),
    };
    let u = mcall(&body, "unwrap", 0)?;
    let pc = mcall(&u.receiver, "partial_cmp", 1)?;
    let id = |e: &syn::Expr| -> String {
        match strip(e) {
            syn::Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()).unwrap_or_default(),
            syn::Expr::Reference(r) => match strip(&r.expr) {
                syn::Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()).unwrap_or_default(),
                _ => String::new(),
            },
            _ => String::new(),
        }
    };
    let (a, b) = (id(&pc.receiver), id(&pc.args[0]));
    if a == names[0] && b == names[1] {
        Some(true)
    } else if a == names[1] && b == names[0] {
        Some(false)
    } else {
        None
    }
}

/// `X.as_ptr().offset(E) as *const _` -> (X, Some(E)); `X.as_mut_ptr() as *mut _` -> (X, None)
fn ptr_chain(e: &syn::Expr) -> Option<(&syn::Expr, Option<&syn::Expr>)> {
    let e = match strip(e) {
        syn::Expr::Cast(c) => strip(&c.expr),
        x => x,
    };
    for off in ["offset", "add"] {
        if let Some(m) = mcall(e, off, 1) {
            for p in ["as_ptr", "as_mut_ptr"] {
                if let Some(b) = mcall(&m.receiver, p, 0) {
                    return Some((&b.receiver, Some(&m.args[0])));
                }
            }
            return None;
        }
    }
    for p in ["as_ptr", "as_mut_ptr"] {
        if let Some(b) = mcall(e, p, 0) {
            return Some((&b.receiver, None));
        }
    }
    None
}

/// Loops that state what holds after a `break` need this attribute.
fn complex_attr(text: &str) -> &'static str {
    if text.contains("ensures") || text.contains("invariant_except_break") {
        "#[verifier::allow_complex_invariants]\n"
    } else {
        ""
    }
}

/// Facts about the f32 literals of a body (only with --algebra).
pub fn literal_facts(block: &syn::Block) -> String {
    struct L(BTreeSet<String>);
    impl<'ast> Visit<'ast> for L {
        fn visit_lit_float(&mut self, l: &'ast syn::LitFloat) {
            if l.suffix() != "f64" {
                self.0.insert(l.base10_digits().to_string());
            }
        }
    }
    let mut v = L(BTreeSet::new());
    v.visit_block(block);
    if v.0.is_empty() {
        return String::new();
    }
    let t: String = v.0.iter().map(|x| format!("crate::spec::literal({}f32); ", x)).collect();
    format!("proof {{ {t} }}")
}
