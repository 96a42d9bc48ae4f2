//! Functions that have no contract (helpers extracted by an edit) are inlined into their callers:
//! a call `h(a, b)` becomes `{ let p: P = a; let q: Q = b; BODY }`.  Early returns of BODY are turned into the branches
//! of the `if` they stand in (`if c { return x; } REST` is `if c { x } else { REST }`); a BODY that propagates errors
//! (`?`, `return Err(..)`) is inlined where the call itself is followed by `?`.
use crate::annot::{fn_key, impl_key, ty_text};
use crate::rewrite::*;
use crate::spec::Specs;
use crate::Opts;
use std::path::PathBuf;
use syn::visit::{self, Visit};

/// Returns (other than of an `Err(..)`), error propagation; closures are functions of their own.
#[derive(Default)]
struct HasReturn {
    ret: bool,
    err: bool,
}
impl<'ast> Visit<'ast> for HasReturn {
    fn visit_expr(&mut self, e: &'ast syn::Expr) {
        match e {
            syn::Expr::Return(r) => {
                let is_err = matches!(r.expr.as_deref(), Some(syn::Expr::Call(c)) if ty_text(&c.func) == "Err");
                if is_err {
                    self.err = true
                } else {
                    self.ret = true
                }
            }
            syn::Expr::Try(_) => self.err = true,
            syn::Expr::Closure(_) => {}
            _ => visit::visit_expr(self, e),
        }
    }
    fn visit_item(&mut self, _: &'ast syn::Item) {}
}
fn rets_expr(e: &syn::Expr) -> bool {
    let mut r = HasReturn::default();
    r.visit_expr(e);
    r.ret
}
fn rets_stmt(s: &syn::Stmt) -> bool {
    let mut r = HasReturn::default();
    r.visit_stmt(s);
    r.ret
}

/// The statements with every early return turned into the value of a branch.
fn elim(stmts: &[syn::Stmt], src: &str) -> Option<String> {
    let txt = |r: (usize, usize)| src[r.0..r.1].to_string();
    let mut out = String::new();
    for (i, s) in stmts.iter().enumerate() {
        let last = i + 1 == stmts.len();
        if !rets_stmt(s) {
            out.push_str(&txt(range(s)));
            out.push('\n');
            continue;
        }
        match s {
            syn::Stmt::Expr(e, _) => return Some(out + &elim_expr(e, &stmts[i + 1..], last, src)?),
            _ => return None,
        }
    }
    Some(out)
}
fn elim_expr(e: &syn::Expr, rest: &[syn::Stmt], last: bool, src: &str) -> Option<String> {
    let txt = |r: (usize, usize)| src[r.0..r.1].to_string();
    match e {
        syn::Expr::Return(r) => Some(match &r.expr {
            Some(x) if rets_expr(x) => return None,
            Some(x) => txt(range(&**x)),
            None => "()".into(),
        }),
        syn::Expr::Block(b) if last && b.label.is_none() => Some(format!("{{ {} }}", elim(&b.block.stmts, src)?)),
        syn::Expr::If(f) if !rets_expr(&f.cond) => {
            let c = txt(range(&*f.cond));
            let ends = |b: &syn::Block| matches!(b.stmts.last(), Some(syn::Stmt::Expr(syn::Expr::Return(_), _)));
            let then = elim(&f.then_branch.stmts, src)?;
            match &f.else_branch {
                None if ends(&f.then_branch) => Some(format!("if {c} {{ {then} }} else {{ {} }}", elim(rest, src)?)),
                Some((_, x)) if last => {
                    let y = if rets_expr(x) { elim_expr(x, &[], true, src)? } else { txt(range(&**x)) };
                    let y = if y.trim_start().starts_with('{') || y.trim_start().starts_with("if ") { y } else { format!("{{ {y} }}") };
                    Some(format!("if {c} {{ {then} }} else {y}"))
                }
                Some((_, x)) if ends(&f.then_branch) && !rets_expr(x) => {
                    Some(format!("if {c} {{ {then} }} else {{ {}; {} }}", txt(range(&**x)), elim(rest, src)?))
                }
                _ => None,
            }
        }
        syn::Expr::Match(m) if last && !rets_expr(&m.expr) => {
            let mut o = format!("match {} {{\n", txt(range(&*m.expr)));
            for a in &m.arms {
                let head = src[range(a).0..srange(a.fat_arrow_token.spans[0]).0].to_string();
                let b = if rets_expr(&a.body) { elim_expr(&a.body, &[], true, src)? } else { txt(range(&*a.body)) };
                o.push_str(&format!("{head} => {{ {b} }}\n"));
            }
            o.push('}');
            Some(o)
        }
        _ => None,
    }
}

#[derive(Clone)]
struct Helper {
    name: String,
    owner: Option<String>, // method of this type
    params: Vec<(String, String, String, bool)>, // binding, name, type text ("" = none), is &mut
    body: String,
    selfkind: String,
    ret: Option<String>, // propagates errors: its return type
    local: bool,         // mentions names of its module
}

struct Calls<'a> {
    h: &'a Helper,
    hits: Vec<(usize, usize, Vec<(usize, usize, bool)>, Option<(usize, usize)>)>,
    tried: std::collections::BTreeSet<usize>,
    closures: usize,
}
impl<'a, 'ast> Visit<'ast> for Calls<'a> {
    fn visit_expr(&mut self, e: &'ast syn::Expr) {
        if let syn::Expr::Try(t) = e {
            if self.closures == 0 {
                self.tried.insert(range(&*t.expr).1);
            }
        }
        let cl = matches!(e, syn::Expr::Closure(_)) as usize;
        self.closures += cl;
        visit::visit_expr(self, e);
        self.closures -= cl;
        if self.h.ret.is_some() && !self.tried.contains(&range(e).1) {
            return;
        }
        match e {
            syn::Expr::Call(c) if self.h.selfkind.is_empty() => {
                if let syn::Expr::Path(p) = &*c.func {
                    let last = p.path.segments.last().unwrap().ident.to_string();
                    if last == self.h.name && c.args.len() == self.h.params.len() {
                        let ok = match &self.h.owner {
                            None => true,
                            Some(o) => p.path.segments.len() > 1 && {
                                let q = p.path.segments[p.path.segments.len() - 2].ident.to_string();
                                q == *o || q == "Self"
                            },
                        };
                        if ok {
                            let (s, t) = range(e);
                            self.hits.push((s, t, c.args.iter().map(|a| { let r = range(a); (r.0, r.1, matches!(strip(a), syn::Expr::Path(_))) }).collect(), None));
                        }
                    }
                }
            }
            syn::Expr::MethodCall(m) if !self.h.selfkind.is_empty() => {
                if m.method == self.h.name && m.args.len() == self.h.params.len() {
                    let (s, t) = range(e);
                    self.hits.push((s, t, m.args.iter().map(|a| { let r = range(a); (r.0, r.1, matches!(strip(a), syn::Expr::Path(_))) }).collect(), Some(range(&*m.receiver))));
                }
            }
            _ => {}
        }
    }
}

struct RenameSelf(Vec<(usize, usize)>);
impl<'ast> Visit<'ast> for RenameSelf {
    fn visit_ident(&mut self, i: &'ast proc_macro2::Ident) {
        if i == "self" {
            self.0.push(srange(i.span()));
        }
    }
    fn visit_expr_path(&mut self, p: &'ast syn::ExprPath) {
        if p.path.is_ident("self") {
            self.0.push(srange(p.path.segments[0].ident.span()));
        } else {
            visit::visit_expr_path(self, p)
        }
    }
}

fn helper_of(sig: &syn::Signature, block: &syn::Block, src: &str, owner: Option<String>) -> Option<Helper> {
    let mut r = HasReturn::default();
    r.visit_block(block);
    if sig.asyncness.is_some() {
        return None;
    }
    let new: String;
    let new_block: syn::Block;
    let (block, bsrc) = if r.ret {
        new = format!("{{ {} }}", elim(&block.stmts, src)?);
        new_block = syn::parse_str(&new).ok()?;
        (&new_block, new.as_str())
    } else {
        (block, src)
    };
    let ret = match &sig.output {
        syn::ReturnType::Type(_, t) if r.err => {
            let t = src[range(&**t).0..range(&**t).1].to_string();
            if !t.contains("Result") {
                return None;
            }
            // the caller fixes the helper's type parameters
            Some(sig.generics.type_params().fold(t, |t, p| crate::annot::replace_ident(&t, &p.ident.to_string(), "_")))
        }
        _ if r.err => return None,
        _ => None,
    };
    let generic = !sig.generics.params.is_empty();
    let mut params = vec![];
    let mut selfkind = String::new();
    for a in &sig.inputs {
        match a {
            syn::FnArg::Receiver(rc) => {
                selfkind = if rc.reference.is_some() { if rc.mutability.is_some() { "&mut ".into() } else { "&".into() } } else { "val".into() };
            }
            syn::FnArg::Typed(t) => {
                let (b, n) = match &*t.pat {
                    syn::Pat::Ident(i) if i.by_ref.is_none() => {
                        (format!("{}{}", if i.mutability.is_some() { "mut " } else { "" }, i.ident), i.ident.to_string())
                    }
                    _ => return None,
                };
                let (s, e) = range(&*t.ty);
                let txt = src[s..e].to_string();
                let is_mut = matches!(&*t.ty, syn::Type::Reference(r) if r.mutability.is_some());
                let ty = if generic || txt.contains('\'') || txt.contains("impl ") || txt.contains("Self") || owner.is_some() { String::new() } else { txt };
                params.push((b, n, ty, is_mut));
            }
        }
    }
    // recursion
    struct Rec(String, bool);
    impl<'ast> Visit<'ast> for Rec {
        fn visit_expr_call(&mut self, c: &'ast syn::ExprCall) {
            if ty_text(&c.func).rsplit("::").next() == Some(&self.0) {
                self.1 = true;
            }
            visit::visit_expr_call(self, c);
        }
    }
    let mut rec = Rec(sig.ident.to_string(), false);
    rec.visit_block(block);
    if rec.1 {
        return None;
    }
    let (bs, be) = (srange(block.brace_token.span.open()).1, srange(block.brace_token.span.close()).0);
    let mut ed = Editor::new(bsrc);
    if !selfkind.is_empty() {
        let mut rs = RenameSelf(vec![]);
        rs.visit_block(block);
        for (s, e) in rs.0 {
            ed.replace(s, e, "self__");
        }
    }
    // names that only resolve in the module of the helper
    struct Paths(bool);
    impl<'ast> Visit<'ast> for Paths {
        fn visit_path(&mut self, p: &'ast syn::Path) {
            let first = p.segments[0].ident.to_string();
            let plain = ["Some", "None", "Ok", "Err", "Vec", "Option", "f32", "u8", "i32", "u32", "usize", "i64", "u64", "i16", "u16", "f64", "std", "core", "String", "bool", "str"];
            if !plain.contains(&first.as_str()) && (p.segments.len() > 1 || first.chars().next().is_some_and(|c| c.is_uppercase())) {
                self.0 = true;
            }
            visit::visit_path(self, p);
        }
        fn visit_expr_call(&mut self, c: &'ast syn::ExprCall) {
            let t = ty_text(&c.func);
            if !t.contains("::") && !["Some", "Ok", "Err"].contains(&t.as_str()) {
                self.0 = true;
            }
            visit::visit_expr_call(self, c);
        }
    }
    let mut ps = Paths(owner.is_some());
    ps.visit_block(block);
    for a in &sig.inputs {
        ps.visit_fn_arg(a);
    }
    Some(Helper { name: sig.ident.to_string(), owner, params, body: ed.render(bs, be), selfkind, ret, local: ps.0 })
}

pub fn inline_all(files: &mut [(Vec<String>, PathBuf, String)], specs: &Specs, o: &Opts, notes: &mut Vec<String>) {
    let spec_names: std::collections::BTreeSet<String> = specs.fns.keys().map(|k| k.rsplit("::").next().unwrap().to_string()).collect();
    for _round in 0..6 {
        // collect helpers
        let mut helpers: Vec<(Vec<String>, Helper)> = vec![];
        for (path, _, text) in files.iter() {
            let ast = match syn::parse_file(text) {
                Ok(a) => a,
                Err(_) => continue,
            };
            for it in &ast.items {
                match it {
                    syn::Item::Fn(f) if cfg_ok(&f.attrs, &o.features) => {
                        let n = f.sig.ident.to_string();
                        if !specs.fns.contains_key(&fn_key(path, None, &n)) && !spec_names.contains(&n) {
                            if let Some(h) = helper_of(&f.sig, &f.block, text, None) {
                                helpers.push((path.clone(), h));
                            }
                        }
                    }
                    syn::Item::Impl(im) if im.trait_.is_none() && cfg_ok(&im.attrs, &o.features) => {
                        let ik = impl_key(im);
                        for x in &im.items {
                            if let syn::ImplItem::Fn(f) = x {
                                let n = f.sig.ident.to_string();
                                if !specs.fns.contains_key(&fn_key(path, Some(&ik), &n)) && !spec_names.contains(&n) {
                                    if let Some(h) = helper_of(&f.sig, &f.block, text, Some(ik.clone())) {
                                        helpers.push((path.clone(), h));
                                    }
                                }
                            }
                        }
                    }
                    _ => {}
                }
            }
        }
        let mut changed = false;
        for (hpath, h) in &helpers {
            for (path, _, text) in files.iter_mut() {
                // a helper is inlined where its names resolve: its own module, or anywhere when it uses none
                if path != hpath && (h.local || text.contains(&format!("fn {}(", h.name))) {
                    continue;
                }
                loop {
                    let ast = match syn::parse_file(text) {
                        Ok(a) => a,
                        Err(_) => break,
                    };
                    let mut c = Calls { h, hits: vec![], tried: Default::default(), closures: 0 };
                    c.visit_file(&ast);
                    let Some((s, t, args, recv)) = c.hits.first().cloned() else { break };
                    let mut b = String::from("{ ");
                    // arguments are evaluated first, under fresh names
                    if let Some((rs, re)) = recv {
                        let r = &text[rs..re];
                        let amp = match h.selfkind.as_str() {
                            "&" => "&",
                            "&mut " => "&mut ",
                            _ => "",
                        };
                        if r == "self" {
                            b.push_str(if h.selfkind == "&mut " { "let self__ = &mut *self; " } else { "let self__ = self; " });
                        } else {
                            b.push_str(&format!("let self__ = {amp}{r}; "));
                        }
                    }
                    for (i, (as_, ae, is_path)) in args.iter().enumerate() {
                        let (_, _, ty, is_mut) = &h.params[i];
                        let a = &text[*as_..*ae];
                        let a = if *is_mut && *is_path { format!("&mut *{a}") } else { a.to_string() };
                        let ann = if ty.is_empty() { String::new() } else { format!(": {ty}") };
                        b.push_str(&format!("let in{i}__{ann} = {a}; "));
                    }
                    for (i, (bind, _, _, _)) in h.params.iter().enumerate() {
                        b.push_str(&format!("let {bind} = in{i}__; "));
                    }
                    match &h.ret {
                        Some(t) => b.push_str(&format!("let out__: {t} = {{ {} }}; out__ }}", h.body)),
                        None => {
                            b.push_str(&h.body);
                            b.push_str(" }");
                        }
                    }
                    // a statement-position block must not be parsed as a statement of its own
                    let b = format!("({b})");
                    text.replace_range(s..t, &b);
                    notes.push(format!("inlined {} into {}", h.name, path.join("::")));
                    changed = true;
                    if notes.len() > 200 {
                        return;
                    }
                }
            }
        }
        if !changed {
            break;
        }
    }
}
