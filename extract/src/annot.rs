use crate::rewrite::*;
use crate::spec::{FnSpec, Specs};
use crate::Opts;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::path::PathBuf;
use syn::spanned::Spanned;
use syn::visit::Visit;

pub struct Emitter<'o> {
    o: &'o Opts,
    specs: &'o Specs,
    baseline: &'o Value,
    pub out: String,
    pub funcs: Vec<Value>,
    pub baseline_out: BTreeMap<String, Value>,
    seen: BTreeSet<String>,
    nospec_names: BTreeSet<String>,
    /// capitalised names in the fields of every structure
    pub structs: BTreeMap<String, BTreeSet<String>>,
    spec_names: BTreeSet<String>,
    probe_id: usize,
}

pub fn norm(s: &str) -> String {
    // token-normalised text without the blanks that quote puts everywhere
    let t = s.replace('\n', " ");
    let mut o = String::new();
    let mut prev = ' ';
    let cs: Vec<char> = t.chars().collect();
    for (i, &c) in cs.iter().enumerate() {
        if c.is_whitespace() {
            let nx = cs[i + 1..].iter().find(|c| !c.is_whitespace()).copied().unwrap_or(' ');
            if (prev.is_alphanumeric() || prev == '_') && (nx.is_alphanumeric() || nx == '_') {
                o.push(' ');
                prev = ' ';
            }
            continue;
        }
        o.push(c);
        prev = c;
    }
    o
}

pub fn ty_text(t: &impl quote::ToTokens) -> String {
    norm(&t.to_token_stream().to_string())
}

pub fn impl_key(im: &syn::ItemImpl) -> String {
    match &im.trait_ {
        Some((_, p, _)) => {
            let last = p.segments.last().unwrap();
            let tn = if last.ident == "From" { ty_text(last) } else { last.ident.to_string() };
            let st = ty_text(&im.self_ty);
            let st = if last.ident == "From" {
                st
            } else {
                match &*im.self_ty {
                    syn::Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
                    _ => st,
                }
            };
            format!("<{tn} for {st}>")
        }
        None => match &*im.self_ty {
            syn::Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
            t => ty_text(t),
        },
    }
}

pub fn fn_key(path: &[String], owner: Option<&str>, name: &str) -> String {
    let mut k = path.join("::");
    if let Some(o) = owner {
        k = format!("{k}::{o}");
    }
    if k.is_empty() { name.to_string() } else { format!("{k}::{name}") }
}

fn mangle(s: &str) -> String {
    s.chars().map(|c| if c.is_alphanumeric() { c } else { '_' }).collect()
}

impl<'o> Emitter<'o> {
    pub fn new(o: &'o Opts, specs: &'o Specs, baseline: &'o Value) -> Self {
        Emitter {
            o,
            specs,
            baseline,
            out: String::new(),
            funcs: vec![],
            baseline_out: BTreeMap::new(),
            seen: BTreeSet::new(),
            nospec_names: BTreeSet::new(),
            structs: BTreeMap::new(),
            spec_names: specs.fns.keys().map(|k| k.rsplit("::").next().unwrap().to_string()).collect(),
            probe_id: 0,
        }
    }

    pub fn missing(&self) -> Vec<String> {
        self.specs.fns.iter().filter(|(k, f)| !self.seen.contains(*k) && !f.skip).map(|(k, _)| k.clone()).collect()
    }

    fn line(&self) -> usize {
        self.out.bytes().filter(|&b| b == b'\n').count() + 1
    }

    pub fn emit_crate(&mut self, files: &[(Vec<String>, PathBuf, String)]) {
        // names of crate functions without a contract
        for (path, _, text) in files {
            let ast = syn::parse_file(text).unwrap();
            for it in &ast.items {
                match it {
                    syn::Item::Fn(f) if cfg_ok(&f.attrs, &self.o.features) => {
                        let k = fn_key(path, None, &f.sig.ident.to_string());
                        if !self.specs.fns.contains_key(&k) {
                            self.nospec_names.insert(f.sig.ident.to_string());
                        }
                    }
                    syn::Item::Impl(im) if cfg_ok(&im.attrs, &self.o.features) => {
                        let ik = impl_key(im);
                        for x in &im.items {
                            if let syn::ImplItem::Fn(f) = x {
                                let k = fn_key(path, Some(&ik), &f.sig.ident.to_string());
                                if !self.specs.fns.contains_key(&k) && im.trait_.is_none() {
                                    self.nospec_names.insert(f.sig.ident.to_string());
                                }
                            }
                        }
                    }
                    _ => {}
                }
            }
        }
        let sn = self.spec_names.clone();
        self.nospec_names.retain(|n| !sn.contains(n));

        self.out.push_str("#![allow(unused, non_snake_case, non_camel_case_types, non_upper_case_globals)]\nuse vstd::prelude::*;\nverus! {\nglobal size_of usize == 8;\n");
        self.out.push_str(&self.specs.prelude.clone());
        self.emit_mod(&[], files);
        self.out.push_str("\nfn main() {}\n} // verus!\n");
    }

    fn emit_mod(&mut self, path: &[String], files: &[(Vec<String>, PathBuf, String)]) {
        let Some((_, file, text)) = files.iter().find(|(p, _, _)| p == path) else { return };
        let ast = syn::parse_file(text).unwrap();
        if !path.is_empty() {
            self.out.push_str("#[allow(unused_imports)] use vstd::prelude::*;\n#[allow(unused_imports)] use crate::spec::*;\n#[allow(unused_imports)] use vstd::std_specs::ops::*;\n#[allow(unused_imports)] use vstd::std_specs::cmp::*;\n");
        }
        let ext_image = path.last().map(|s| s.as_str()) == Some("io");
        for it in &ast.items {
            self.emit_item(path, it, text, files, ext_image, file);
        }
        if let Some(t) = self.specs.mod_items.get(&path.join("::")) {
            self.out.push_str(t);
            self.out.push('\n');
        }
    }

    fn emit_item(&mut self, path: &[String], it: &syn::Item, src: &str, files: &[(Vec<String>, PathBuf, String)], ext_image: bool, file: &PathBuf) {
        let feats = &self.o.features;
        match it {
            syn::Item::Mod(m) => {
                if !cfg_ok(&m.attrs, feats) || m.content.is_some() {
                    return;
                }
                let mut p = path.to_vec();
                p.push(m.ident.to_string());
                if !files.iter().any(|f| f.0 == p) {
                    return;
                }
                self.out.push_str(&format!("pub mod {} {{\n", m.ident));
                self.emit_mod(&p, files);
                self.out.push_str("}\n");
            }
            syn::Item::Use(u) => {
                if !cfg_ok(&u.attrs, feats) {
                    return;
                }
                let mut paths = vec![];
                flatten_use(&u.tree, vec![], &mut paths);
                let public = !matches!(u.vis, syn::Visibility::Inherited);
                for p in paths {
                    let t = match p[0].as_str() {
                        "rayon" | "rulinalg" => continue,
                        "image" if ext_image => format!("crate::ext_image::{}", p[1..].join("::")),
                        "std" if p.len() > 1 && (p[1] == "arch" || p[1] == "fmt" || p[1] == "io") => continue,
                        "std" if p.len() > 2 && p[1] == "collections" => format!("crate::rt::{}", p[2..].join("::")),
                        "std" if p.len() > 2 && p[1] == "f32" && p[2] == "consts" => format!("crate::rt::{}", p[3..].join("::")),
                        _ => p.join("::"),
                    };
                    if p.last().unwrap().starts_with("BaseImage") {
                        continue;
                    }
                    self.out.push_str(&format!("#[allow(unused_imports)] {}use {};\n", if public { "pub " } else { "" }, t));
                }
                if src[range(u).0..range(u).1].contains("std::arch") {
                    self.out.push_str("#[allow(unused_imports)] use crate::rt::*;\n");
                }
            }
            syn::Item::Const(c) => {
                if !cfg_ok(&c.attrs, feats) {
                    return;
                }
                let ty = ty_text(&c.ty);
                if let syn::Expr::Array(a) = &*c.expr {
                    if ty.starts_with("[f32") {
                        let sp: Vec<String> = a.elems.iter().map(const_spec).collect();
                        let ex: Vec<String> = a.elems.iter().map(const_exec).collect();
                        let n = &c.ident;
                        self.out.push_str(&format!(
                            "pub open spec fn {n}_spec() -> Seq<f32> {{ seq![{}] }}\npub exec const {n}: {ty} ensures {n}@ == {n}_spec() {{ proof {{ crate::spec::float_axioms(); }} let r: {ty} = [{}]; proof {{ assert(r@ =~= {n}_spec()); }} r }}\n",
                            sp.join(", "),
                            ex.join(", ")
                        ));
                        return;
                    }
                }
                self.out.push_str(&format!("pub const {}: {} = {};\n", c.ident, ty, &src[range(&*c.expr).0..range(&*c.expr).1]));
            }
            syn::Item::Type(t) => {
                if cfg_ok(&t.attrs, feats) {
                    let (s, e) = (srange(t.type_token.span).0, srange(t.semi_token.span).1);
                    self.out.push_str(&format!("pub {}\n", &src[s..e]));
                }
            }
            syn::Item::Struct(s) => {
                use quote::ToTokens;
                self.structs.insert(s.ident.to_string(), type_names(&s.fields.to_token_stream().to_string()));
                let key = fn_key(path, None, &s.ident.to_string());
                if self.specs.skip_items.contains(&key) || !cfg_ok(&s.attrs, feats) {
                    return;
                }
                let d = self.specs.derive.get(&key).cloned().unwrap_or_default();
                if !d.is_empty() {
                    self.out.push_str(&format!("#[derive({d})]\n"));
                }
                let mut ed = Editor::new(src);
                for f in s.fields.iter() {
                    for a in &f.attrs {
                        let (x, y) = range(a);
                        ed.replace(x, y, "");
                    }
                    let p = f.ident.as_ref().map(|i| srange(i.span()).0).unwrap_or(range(&f.ty).0);
                    match &f.vis {
                        syn::Visibility::Inherited => ed.open(p, "pub "),
                        v => {
                            let (x, y) = range(v);
                            ed.replace(x, y, "pub")
                        }
                    }
                }
                let (a, b) = (srange(s.struct_token.span).0, range(s).1);
                let t = ed.render(a, b);
                self.out.push_str(&format!("pub {t}\n"));
            }
            syn::Item::Enum(e) => {
                let key = fn_key(path, None, &e.ident.to_string());
                if self.specs.skip_items.contains(&key) || !cfg_ok(&e.attrs, feats) {
                    return;
                }
                let d = self.specs.derive.get(&key).cloned().unwrap_or_default();
                if !d.is_empty() {
                    self.out.push_str(&format!("#[derive({d})]\n"));
                }
                let mut vs = vec![];
                for v in &e.variants {
                    let mut ext = false;
                    for f in v.fields.iter() {
                        let t = ty_text(&f.ty);
                        if t.contains("rulinalg::") || t.contains("io::") || t.contains("image::") {
                            ext = true;
                        }
                    }
                    if !ext {
                        let a = srange(v.ident.span()).0;
                        vs.push(src[a..range(v).1].to_string());
                    }
                }
                self.out.push_str(&format!("pub enum {} {{ {} }}\n", e.ident, vs.join(", ")));
            }
            syn::Item::Trait(t) => {
                let key = fn_key(path, None, &t.ident.to_string());
                if self.specs.skip_items.contains(&key) || t.ident == "BaseImage" || t.ident == "Number" {
                    return;
                }
                let hdr = &src[srange(t.trait_token.span).0..srange(t.brace_token.span.open()).0];
                self.out.push_str(&format!("pub {hdr} {{\n"));
                if let Some(x) = self.specs.trait_items.get(&key) {
                    self.out.push_str(x);
                    self.out.push('\n');
                }
                for x in &t.items {
                    if let syn::TraitItem::Fn(f) = x {
                        if f.default.is_some() {
                            continue;
                        }
                        let k = fn_key(path, Some(&t.ident.to_string()), &f.sig.ident.to_string());
                        self.seen.insert(k.clone());
                        let sp = self.specs.fns.get(&k).cloned().unwrap_or_default();
                        let head = sig_text(&f.sig, src, &sp, "", None, ext_image);
                        self.out.push_str(&format!("{head};\n"));
                    }
                }
                self.out.push_str("}\n");
            }
            syn::Item::Fn(f) => {
                if !cfg_ok(&f.attrs, feats) {
                    return;
                }
                let key = fn_key(path, None, &f.sig.ident.to_string());
                self.emit_fn(&key, &f.sig, &f.block, src, "pub ", None, ext_image, file, None);
            }
            syn::Item::Impl(im) => {
                if !cfg_ok(&im.attrs, feats) {
                    return;
                }
                let ik = impl_key(im);
                let ikey = fn_key(path, None, &ik);
                if self.specs.skip_items.contains(&ikey) {
                    return;
                }
                let tr = im.trait_.as_ref().map(|(_, p, _)| p.segments.last().unwrap().ident.to_string());
                let open = srange(im.brace_token.span.open()).0;
                let mut assoc: Vec<(String, String)> = vec![];
                for x in &im.items {
                    if let syn::ImplItem::Type(t) = x {
                        assoc.push((t.ident.to_string(), src[range(&t.ty).0..range(&t.ty).1].to_string()));
                    }
                }
                let is_local_trait = |n: &str| matches!(n, "Pixel" | "Index" | "IndexMut");
                match tr.as_deref() {
                    None | Some("BaseImage") | Some("Iterator") => {
                        let gen = if im.generics.lt_token.is_some() {
                            src[srange(im.generics.lt_token.unwrap().span).0..srange(im.generics.gt_token.unwrap().span).1].to_string()
                        } else {
                            String::new()
                        };
                        let (a, b) = range(&*im.self_ty);
                        self.out.push_str(&format!("impl{gen} {} {{\n", &src[a..b]));
                        for x in &im.items {
                            if let syn::ImplItem::Fn(f) = x {
                                if cfg_ok(&f.attrs, feats) {
                                    let key = fn_key(path, Some(&ik), &f.sig.ident.to_string());
                                    // an inherent `index` would shadow the trait method in specifications
                                    let rn = if tr.is_none() && f.sig.ident == "index" { Some("index_xy") } else { None };
                                    self.emit_fn(&key, &f.sig, &f.block, src, "pub ", Some(&assoc), ext_image, file, rn);
                                }
                            }
                        }
                        self.out.push_str("}\n");
                    }
                    Some(n) if is_local_trait(n) => {
                        self.out.push_str(&format!("{} {{\n", &src[srange(im.impl_token.span).0..open]));
                        if let Some(x) = self.specs.trait_items.get(&ikey) {
                            self.out.push_str(x);
                            self.out.push('\n');
                        }
                        for x in &im.items {
                            match x {
                                syn::ImplItem::Fn(f) => {
                                    let key = fn_key(path, Some(&ik), &f.sig.ident.to_string());
                                    self.emit_fn(&key, &f.sig, &f.block, src, "", None, ext_image, file, None);
                                }
                                syn::ImplItem::Type(t) => {
                                    let (a, b) = range(t);
                                    self.out.push_str(&src[a..b]);
                                    self.out.push('\n');
                                }
                                _ => {}
                            }
                        }
                        self.out.push_str("}\n");
                    }
                    Some("From") if ik.contains("Image<") => {
                        for x in &im.items {
                            if let syn::ImplItem::Fn(f) = x {
                                let key = fn_key(path, Some(&ik), &f.sig.ident.to_string());
                                let name = format!("from_{}", mangle(&ik));
                                self.emit_fn(&key, &f.sig, &f.block, src, "pub ", None, ext_image, file, Some(&name));
                            }
                        }
                    }
                    // for a reference to a type of the crate: a function of the receiver
                    Some("IntoIterator") => {
                        let syn::Type::Reference(_) = &*im.self_ty else { return };
                        let gen = im.generics.lt_token.map_or(String::new(), |l| src[srange(l.span).0..srange(im.generics.gt_token.unwrap().span).1].to_string());
                        let (a, b) = range(&*im.self_ty);
                        for x in &im.items {
                            if let syn::ImplItem::Fn(f) = x {
                                let key = fn_key(path, Some(&ik), &f.sig.ident.to_string());
                                let name = format!("{}_ref", f.sig.ident);
                                let from = self.out.len();
                                self.emit_fn(&key, &f.sig, &f.block, src, "pub ", Some(&assoc), ext_image, file, Some(&name));
                                let t = self.out.split_off(from).replacen(&format!("fn {name}(self"), &format!("fn {name}{gen}(self__: {}", &src[a..b]), 1);
                                self.out.push_str(&replace_ident(&t, "self", "self__"));
                            }
                        }
                    }
                    _ => {}
                }
            }
            _ => {}
        }
    }

    #[allow(clippy::too_many_arguments)]
    fn emit_fn(
        &mut self,
        key: &str,
        sig: &syn::Signature,
        block: &syn::Block,
        src: &str,
        vis: &str,
        assoc: Option<&Vec<(String, String)>>,
        ext_image: bool,
        file: &PathBuf,
        rename: Option<&str>,
    ) {
        self.seen.insert(key.to_string());
        let has_spec = self.specs.fns.contains_key(key);
        let mut sp = self.specs.fns.get(key).cloned().unwrap_or_default();
        if sp.skip {
            self.funcs.push(json!({"key": key, "status": "skipped"}));
            return;
        }
        // a helper without a contract is inlined where it is called (inline.rs) or its callers stay undecided
        if !has_spec && (rename.is_some() || vis != "") {
            self.funcs.push(json!({"key": key, "status": "no contract"}));
            return;
        }
        let sh = ShapeVisitor::of(block, &self.o.features);
        let params: Vec<String> = sig
            .inputs
            .iter()
            .map(|a| match a {
                syn::FnArg::Receiver(_) => "self".to_string(),
                syn::FnArg::Typed(t) => match &*t.pat {
                    syn::Pat::Ident(i) => i.ident.to_string(),
                    _ => "_".into(),
                },
            })
            .collect();
        let lets: Vec<String> = sh.lets.iter().map(|x| x.1.clone()).collect();
        let loops: Vec<String> = sh.loops.iter().map(|x| x.1.clone()).collect();
        let closures: Vec<usize> = sh.closures.iter().map(|x| x.1).collect();
        let state: Vec<Vec<String>> = loop_state(block, &self.o.features).into_iter().map(|s| s.into_iter().collect()).collect();
        let ltext: Vec<String> = sh.loops.iter().map(|x| sh.texts[&('l', x.0)].clone()).collect();
        let ftext: Vec<String> = sh.closures.iter().map(|x| sh.texts[&('f', x.0)].clone()).collect();
        // the calls that some hint is placed at
        let hinted: BTreeSet<String> = sp.call_before.keys().chain(sp.call_after.keys()).map(|k| k.0.clone()).collect();
        let ctext: BTreeMap<String, Vec<String>> = hinted.iter().map(|n| (n.clone(), sh.calls.iter().filter(|c| c.1 == *n).map(|c| sh.texts[&('c', c.0)].clone()).collect())).collect();
        let ident = |n: usize| (0..n).collect::<Vec<usize>>();
        // where the loop, closure or call at each place was in the baseline
        let (mut lperm, mut fperm) = (ident(ltext.len()), ident(ftext.len()));
        let mut cperm: BTreeMap<String, Vec<usize>> = ctext.iter().map(|(n, t)| (n.clone(), ident(t.len()))).collect();
        let text = norm(&{
            use quote::ToTokens;
            format!("{} {}", sig.to_token_stream(), block.to_token_stream())
        });
        self.baseline_out.insert(
            key.to_string(),
            json!({"params": params, "lets": lets, "loops": loops, "closures": closures, "text": text, "state": state, "ltext": ltext, "ftext": ftext, "ctext": ctext}),
        );
        let mut degrade: Option<String> = self.o.degrade.get(key).cloned();
        let mut changed = false;
        let mut weakened = false;
        let mut fresh_names = BTreeSet::new();
        let mut_params: BTreeSet<String> = sig.inputs.iter().filter_map(|a| match a {
            syn::FnArg::Typed(t) => match (&*t.pat, &*t.ty) {
                (syn::Pat::Ident(i), ty) if i.mutability.is_some() || matches!(ty, syn::Type::Reference(r) if r.mutability.is_some()) => Some(i.ident.to_string()),
                _ => None,
            },
            syn::FnArg::Receiver(r) if r.mutability.is_some() => Some("self".into()),
            _ => None,
        }).collect();
        // renamed parameters and locals
        if let Some(b) = self.baseline.get(key) {
            changed = b["text"].as_str() != Some(&text);
            if changed && has_spec {
                let strs = |v: &Value| -> Vec<String> { v.as_array().unwrap().iter().map(|x| x.as_str().unwrap_or("").to_string()).collect() };
                let (bp, bl, blo) = (strs(&b["params"]), strs(&b["lets"]), strs(&b["loops"]));
                let bc: Vec<usize> = b["closures"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect();
                let mut ren: Vec<(String, String)> = vec![];
                if bp.len() == params.len() {
                    for (x, y) in bp.iter().zip(&params) {
                        if x != y {
                            ren.push((x.clone(), y.clone()));
                        }
                    }
                } else {
                    degrade.get_or_insert("the parameter list changed".into());
                }
                let cur: BTreeSet<&String> = lets.iter().chain(params.iter()).collect();
                let gone: Vec<&String> = {
                    let mut s = BTreeSet::new();
                    bl.iter().filter(|x| !cur.contains(x) && s.insert((*x).clone())).collect()
                };
                let old: BTreeSet<&String> = bl.iter().chain(bp.iter()).collect();
                let fresh: Vec<&String> = {
                    let mut s = BTreeSet::new();
                    lets.iter().filter(|x| !old.contains(x) && s.insert((*x).clone())).collect()
                };
                // bound once, so that the name means the same everywhere
                fresh_names = fresh.iter().filter(|n| lets.iter().filter(|x| x == *n).count() == 1).map(|n| (*n).clone()).collect();
                if gone.len() == fresh.len() {
                    for (g, f) in gone.iter().zip(&fresh) {
                        // not as many mentions: perhaps another variable altogether
                        if count_ident(b["text"].as_str().unwrap_or(""), g) != count_ident(&text, f) {
                            weakened = true;
                        }
                        ren.push(((*g).clone(), (*f).clone()));
                    }
                } else {
                    // proof text about locals that are gone is left out: a proof that then fails decides nothing
                    for g in &gone {
                        weakened |= drop_hints(&mut sp, g);
                    }
                }
                if !ren.is_empty() {
                    rename_spec(&mut sp, &ren);
                }
                // loops, closures and calls that changed places keep what was written for them
                let renamed = |v: &Value| -> Vec<String> {
                    let mut t = v.as_array().map_or(vec![], |_| strs(v));
                    for s in t.iter_mut() {
                        for (i, (a, _)) in ren.iter().enumerate() {
                            *s = replace_ident(s, a, &format!("__ren{i}__"));
                        }
                        for (i, (_, b)) in ren.iter().enumerate() {
                            *s = s.replace(&format!("__ren{i}__"), b);
                        }
                    }
                    t
                };
                lperm = places(&renamed(&b["ltext"]), &ltext);
                fperm = places(&renamed(&b["ftext"]), &ftext);
                for (n, t) in &ctext {
                    cperm.insert(n.clone(), places(&renamed(&b["ctext"][n]), t));
                }
                let (loops, closures, state) = (in_places(&loops, &lperm), in_places(&closures, &fperm), in_places(&state, &lperm));
                // a loop that changes other variables, or changes them in another way, needs other invariants:
                // a proof that fails with the old ones decides nothing
                if let Some(bs) = b["state"].as_array() {
                    let old: Vec<BTreeSet<String>> = bs.iter().map(|l| {
                        strs(l).into_iter().map(|x| {
                            let (n, k) = x.split_once(':').unwrap();
                            let n = ren.iter().find(|r| r.0 == n).map_or(n.to_string(), |r| r.1.clone());
                            format!("{n}:{k}")
                        }).collect()
                    }).collect();
                    let new: Vec<BTreeSet<String>> = state.iter().map(|l| l.iter().cloned().collect()).collect();
                    weakened |= old != new;
                }
                // hints placed at a call that is gone or no longer the one they were written for
                for (name, _) in sp.call_before.keys().chain(sp.call_after.keys()) {
                    weakened |= count_ident(b["text"].as_str().unwrap_or(""), name) != count_ident(&text, name);
                }
                let uses_loops = !sp.loops.is_empty() || !blo.is_empty();
                if blo.len() == loops.len() && blo != loops && !loops.iter().zip(&blo).any(|(a, b)| a != b && [a, b].iter().any(|x| matches!(x.as_str(), "while" | "loop"))) {
                    // another iteration over the same range: the invariants may still do; a proof that fails decides nothing
                    weakened = true;
                } else if blo != loops && uses_loops {
                    degrade.get_or_insert(format!("the loop structure changed: {blo:?} -> {loops:?}"));
                }
                if bc != closures {
                    degrade.get_or_insert(format!("the closure structure changed: {bc:?} -> {closures:?}"));
                }
            }
        }
        let wanted = self.o.prove.as_ref().map_or(true, |p| p.contains(key));
        if !has_spec {
            degrade.get_or_insert("no contract".into());
        }
        // calls to crate functions without a contract
        for c in sh.calls.iter().map(|c| &c.1).chain(sh.refs.iter().filter(|n| !lets.contains(n) && !params.contains(n))) {
            if self.nospec_names.contains(c) {
                degrade.get_or_insert(format!("calls `{c}`, which has no contract"));
            }
        }
        let monos: Vec<Option<(String, String)>> = if sp.mono.is_empty() {
            vec![None]
        } else {
            let (a, ts) = &sp.mono[0];
            ts.iter().map(|t| Some((a.clone(), t.clone()))).collect()
        };
        for (mi, mono) in monos.iter().enumerate() {
            let mut ed = Editor::new(src);
            let mut rw = Rewriter {
                ed: &mut ed,
                feats: self.o.features.clone(),
                loop_index: sh.loops.iter().enumerate().map(|(i, x)| (x.0, lperm[i])).collect(),
                closure_index: sh.closures.iter().enumerate().map(|(i, x)| (x.0, fperm[i])).collect(),
                loop_spec: sp.loops.clone(),
                loop_start: sp.loop_start.clone(),
                loop_end: sp.loop_end.clone(),
                loop_before: sp.loop_before.clone(),
                loop_after: sp.loop_after.clone(),
                closure_spec: sp.closures.clone(),
                call_before: BTreeMap::new(),
                call_after: BTreeMap::new(),
                stmt_stack: vec![],
                unsupported: None,
                inserted: BTreeSet::new(),
                probe: self.o.probe,
                ext_crate_image: ext_image,
                in_closure: 0,
                hoistable: BTreeSet::new(),
                let_closures: BTreeMap::new(),
                fresh: fresh_names.clone(),
                mutated: mutated_names(block).union(&mut_params).cloned().collect(),
                pure_lets: vec![],
                literals: if self.o.algebra { literal_facts(block) } else { String::new() },
            };
            for ((name, n), t) in sp.call_before.iter() {
                if let Some(p) = sh.calls.iter().filter(|c| c.1 == *name).zip(&cperm[name]).find(|c| c.1 == n).map(|c| c.0) {
                    rw.call_before.entry(p.0).or_default().push_str(t);
                }
            }
            for ((name, n), t) in sp.call_after.iter() {
                if let Some(p) = sh.calls.iter().filter(|c| c.1 == *name).zip(&cperm[name]).find(|c| c.1 == n).map(|c| c.0) {
                    rw.call_after.entry(p.0).or_default().push_str(t);
                }
            }
            rw.visit_block(block);
            if let Some(u) = rw.unsupported.take() {
                degrade.get_or_insert(format!("unsupported construct: {u}"));
            }
            let (bs, be) = (srange(block.brace_token.span.open()).1, srange(block.brace_token.span.close()).0);
            // `end` text goes before the tail expression
            if !sp.end.is_empty() {
                let tail = block.stmts.iter().filter(|s| stmt_cfg(s, &self.o.features)).last();
                match tail {
                    Some(s @ syn::Stmt::Expr(e, None)) if !matches!(e, syn::Expr::ForLoop(_) | syn::Expr::While(_)) => {
                        ed.open(range(s).0, format!("{}\n", sp.end))
                    }
                    Some(s @ syn::Stmt::Expr(syn::Expr::Return(_), _)) => ed.open(range(s).0, format!("{}\n", sp.end)),
                    _ => ed.close(be, format!("\n{}\n", sp.end)),
                }
            }
            let body = ed.render(bs, be);
            let trusted = sp.trust.clone();
            let status;
            if trusted.is_some() {
                status = "trusted";
            } else if !wanted {
                status = "contract";
            } else if degrade.is_some() {
                status = "degraded";
            } else {
                status = "proved";
            }
            let name = match (rename, mono) {
                (Some(n), _) => Some(n.to_string()),
                (None, Some((_, t))) if mi > 0 => Some(format!("{}_{}", sig.ident, t)),
                _ => None,
            };
            let mut sp2 = sp.clone();
            if let Some((a, t)) = mono {
                let f = |s: &mut String| *s = replace_ident(s, a, t);
                f(&mut sp2.requires);
                f(&mut sp2.ensures);
                f(&mut sp2.start);
                f(&mut sp2.end);
            }
            let mut head = sig_text(sig, src, &sp2, vis, name.as_deref(), ext_image);
            let mut body = body;
            if let Some(asc) = assoc {
                for (n, t) in asc {
                    head = head.replace(&format!("Self::{n}"), t);
                }
            }
            if let Some((a, t)) = mono {
                head = strip_generic(&head, a, t);
                body = replace_ident(&body, a, t);
            }
            // Verus does not accept a parameter with the name of its function
            let me = sig.ident.to_string();
            if params.contains(&me) {
                let at = head.find('(').unwrap();
                head = format!("{}{}", &head[..at], replace_ident(&head[at..], &me, &format!("{me}_")));
                body = format!("let {me} = {me}_;\n{body}");
            }
            self.out.push_str(&format!("//@ {key}\n"));
            let l0 = self.line();
            if status == "proved" {
                if !sp.attrs.is_empty() {
                    self.out.push_str(&sp.attrs);
                    self.out.push('\n');
                }
                let probe = if self.o.probe { "assert(false);\n" } else { "" };
                let alg = if self.o.algebra { format!("broadcast use crate::spec::algebra;\n{}{}\n", if self.o.nonan { "broadcast use crate::spec::nonan;\n" } else { "" }, literal_facts(block)) } else { String::new() };
                self.out.push_str(&format!("{head}\n{{\n{alg}{probe}{}\n{body}\n}}\n", sp2.start));
            } else {
                self.out.push_str(&format!("#[verifier::external_body]\n{head}\n{{ unimplemented!() }}\n"));
            }
            if self.o.probe {
                // number the probes
                let from = self.out.len();
                let _ = from;
            }
            let l1 = self.line();
            self.funcs.push(json!({
                "key": key, "status": status, "start": l0, "end": l1,
                "reason": trusted.clone().or(degrade.clone()).unwrap_or_default(),
                "has_spec": has_spec, "changed": changed, "weakened": weakened,
                "mono": mono.as_ref().map(|m| m.1.clone()).unwrap_or_default(),
                "file": file.display().to_string(),
                "src_line": sig.span().start().line,
                "clauses": count_clauses(&sp2),
                "loops": sh.loops.len(), "closures": sh.closures.len(),
                "types": type_names(&text),
                "calls": sh.calls.iter().map(|c| &c.1).chain(sh.refs.iter().filter(|n| !lets.contains(n) && !params.contains(n))).cloned().collect::<BTreeSet<String>>(),
            }));
        }
        if self.o.probe {
            // every probe gets its own guard so that one failing probe does not hide the next
            while let Some(p) = self.out.find("assert(false);") {
                self.probe_id += 1;
                let t = format!("proof {{ if crate::rt::pb({}) {{ assert (false); }} }}", self.probe_id);
                self.out.replace_range(p..p + "assert(false);".len(), &t);
            }
        }
    }
}

/// The capitalised identifiers of a text.
fn type_names(s: &str) -> BTreeSet<String> {
    s.split(|c: char| !c.is_alphanumeric() && c != '_').filter(|w| w.starts_with(|c: char| c.is_uppercase())).map(|w| w.to_string()).collect()
}

fn count_clauses(sp: &FnSpec) -> usize {
    let c = |s: &str| s.lines().filter(|l| !l.trim().is_empty()).count();
    c(&sp.ensures) + c(&sp.requires) + sp.loops.values().map(|x| c(x)).sum::<usize>()
}

/// Removes every proof hint (not a contract clause) that mentions `name`.
fn count_ident(text: &str, name: &str) -> usize {
    text.split(|c: char| !c.is_alphanumeric() && c != '_').filter(|w| *w == name).count()
}
/// For each of `new` the index of the same text in `old`: in place where it can be, the rest in order.
fn places(old: &[String], new: &[String]) -> Vec<usize> {
    if old.len() != new.len() {
        return (0..new.len()).collect();
    }
    let mut r: Vec<Option<usize>> = (0..new.len()).map(|i| (old[i] == new[i]).then_some(i)).collect();
    let mut free: Vec<usize> = (0..old.len()).filter(|i| r[*i].is_none()).collect();
    for i in 0..new.len() {
        if r[i].is_none() {
            if let Some(k) = free.iter().position(|j| old[*j] == new[i]) {
                r[i] = Some(free.remove(k));
            }
        }
    }
    r.into_iter().map(|x| x.unwrap_or_else(|| free.remove(0))).collect()
}
fn in_places<T: Clone>(v: &[T], perm: &[usize]) -> Vec<T> {
    (0..v.len()).map(|j| v[perm.iter().position(|p| *p == j).unwrap()].clone()).collect()
}

fn drop_hints(sp: &mut FnSpec, name: &str) -> bool {
    let mut hit = false;
    let mut f = |s: &mut String| {
        if replace_ident(s, name, "") != *s {
            s.clear();
            hit = true;
        }
    };
    f(&mut sp.start);
    f(&mut sp.end);
    for m in [&mut sp.loop_start, &mut sp.loop_end, &mut sp.loop_before, &mut sp.loop_after] {
        m.values_mut().for_each(&mut f);
    }
    sp.call_before.values_mut().for_each(&mut f);
    sp.call_after.values_mut().for_each(&mut f);
    // invariants: the lines that mention it
    for m in [&mut sp.loops, &mut sp.closures] {
        for v in m.values_mut() {
            let kept: Vec<&str> = v.lines().filter(|l| replace_ident(l, name, "") == **l).collect();
            if kept.len() != v.lines().count() {
                *v = kept.join("\n");
                hit = true;
            }
        }
    }
    hit
}

fn rename_spec(sp: &mut FnSpec, ren: &[(String, String)]) {
    let f = |s: &mut String| {
        for (i, (a, _)) in ren.iter().enumerate() {
            *s = replace_ident(s, a, &format!("__ren{i}__"));
        }
        for (i, (_, b)) in ren.iter().enumerate() {
            *s = s.replace(&format!("__ren{i}__"), b);
        }
    };
    f(&mut sp.requires);
    f(&mut sp.ensures);
    f(&mut sp.start);
    f(&mut sp.end);
    f(&mut sp.decreases);
    for m in [&mut sp.loops, &mut sp.closures, &mut sp.loop_start, &mut sp.loop_end, &mut sp.loop_before, &mut sp.loop_after] {
        for v in m.values_mut() {
            f(v);
        }
    }
    for m in [&mut sp.call_before, &mut sp.call_after] {
        for v in m.values_mut() {
            f(v);
        }
    }
}

pub fn replace_ident(s: &str, a: &str, b: &str) -> String {
    let cs: Vec<char> = s.chars().collect();
    let ac: Vec<char> = a.chars().collect();
    let mut o = String::new();
    let mut i = 0;
    let idc = |c: char| c.is_alphanumeric() || c == '_';
    while i < cs.len() {
        if cs[i..].starts_with(&ac) {
            let pre = i == 0 || (!idc(cs[i - 1]) && cs[i - 1] != '$' && !(cs[i - 1] == '.' && (i < 2 || cs[i - 2] != '.')));
            let post = i + ac.len() >= cs.len() || !idc(cs[i + ac.len()]);
            if pre && post {
                o.push_str(b);
                i += ac.len();
                continue;
            }
        }
        o.push(cs[i]);
        i += 1;
    }
    o
}

fn strip_generic(head: &str, a: &str, t: &str) -> String {
    // drop `<T: Number>` and replace T
    let mut h = head.to_string();
    for g in [format!("<{a}: Number>"), format!("<{a}:Number>")] {
        h = h.replace(&g, "");
    }
    replace_ident(&h, a, t)
}

fn sig_text(sig: &syn::Signature, src: &str, sp: &FnSpec, vis: &str, rename: Option<&str>, ext_image: bool) -> String {
    let mut ed = Editor::new(src);
    struct P<'x, 'y> {
        ed: &'x mut Editor<'y>,
        on: bool,
    }
    impl<'ast, 'x, 'y> Visit<'ast> for P<'x, 'y> {
        fn visit_path(&mut self, p: &'ast syn::Path) {
            if self.on && p.segments.len() > 1 && p.segments[0].ident == "image" {
                let (s, t) = srange(p.segments[0].ident.span());
                self.ed.replace(s, t, "crate::ext_image");
            }
            syn::visit::visit_path(self, p);
        }
    }
    let mut p = P { ed: &mut ed, on: ext_image };
    p.visit_signature(sig);
    let gen = match (&sig.generics.lt_token, &sig.generics.gt_token) {
        (Some(l), Some(g)) => ed.render(srange(l.span).0, srange(g.span).1),
        _ => String::new(),
    };
    let par = ed.render(srange(sig.paren_token.span.open()).0, srange(sig.paren_token.span.close()).1);
    let ret = match &sig.output {
        syn::ReturnType::Default => String::new(),
        syn::ReturnType::Type(_, t) => {
            let (a, b) = range(&**t);
            if sp.requires.is_empty() && sp.ensures.is_empty() {
                format!(" -> {}", ed.render(a, b))
            } else {
                format!(" -> ({}: {})", sp.returns.clone().unwrap_or("r".into()), ed.render(a, b))
            }
        }
    };
    let wh = match &sig.generics.where_clause {
        Some(w) => {
            let (a, b) = range(w);
            let t = ed.render(a, b);
            let t = t.trim_end().trim_end_matches(',').to_string();
            format!("\n{t},")
        }
        None => String::new(),
    };
    let clause = |kw: &str, t: &str| {
        let t = t.trim();
        if t.is_empty() {
            String::new()
        } else {
            format!("\n  {kw}\n{}{}", t, if t.ends_with(',') { "" } else { "," })
        }
    };
    let name = rename.map(|s| s.to_string()).unwrap_or(sig.ident.to_string());
    format!(
        "{vis}fn {name}{gen}{par}{ret}{wh}{}{}{}",
        clause("requires", &sp.requires),
        clause("ensures", &sp.ensures),
        clause("decreases", &sp.decreases)
    )
}

fn flatten_use(t: &syn::UseTree, pre: Vec<String>, out: &mut Vec<Vec<String>>) {
    match t {
        syn::UseTree::Path(p) => {
            let mut v = pre;
            v.push(p.ident.to_string());
            flatten_use(&p.tree, v, out);
        }
        syn::UseTree::Name(n) => {
            let mut v = pre;
            v.push(n.ident.to_string());
            if n.ident == "self" {
                v.pop();
            }
            out.push(v);
        }
        syn::UseTree::Rename(n) => {
            let mut v = pre;
            v.push(format!("{} as {}", n.ident, n.rename));
            out.push(v);
        }
        syn::UseTree::Glob(_) => {
            let mut v = pre;
            v.push("*".into());
            out.push(v);
        }
        syn::UseTree::Group(g) => {
            for x in &g.items {
                flatten_use(x, pre.clone(), out);
            }
        }
    }
}

fn const_spec(e: &syn::Expr) -> String {
    match strip(e) {
        syn::Expr::Lit(l) => match &l.lit {
            syn::Lit::Float(f) => format!("{}f32", f.base10_digits()),
            x => ty_text(x),
        },
        syn::Expr::Unary(u) => format!("fneg({})", const_spec(&u.expr)),
        syn::Expr::Binary(b) => {
            let f = match b.op {
                syn::BinOp::Div(_) => "fdiv",
                syn::BinOp::Mul(_) => "fmul",
                syn::BinOp::Add(_) => "fadd",
                syn::BinOp::Sub(_) => "fsub",
                _ => "unsupported",
            };
            format!("{f}({}, {})", const_spec(&b.left), const_spec(&b.right))
        }
        x => ty_text(x),
    }
}
fn const_exec(e: &syn::Expr) -> String {
    match strip(e) {
        syn::Expr::Unary(u) => format!("crate::rt::neg_f32_lit({})", const_exec(&u.expr)),
        syn::Expr::Binary(b) => format!("{} {} {}", const_exec(&b.left), ty_text(&b.op), const_exec(&b.right)),
        x => ty_text(x),
    }
}
