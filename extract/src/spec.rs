//! Annotation files: `@@ fn KEY [@rayon|@seq]`, then `@ section` blocks of verbatim text.
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;

#[derive(Default, Clone, Debug)]
pub struct FnSpec {
    pub key: String,
    pub returns: Option<String>,
    pub requires: String,
    pub ensures: String,
    pub attrs: String,
    pub decreases: String,
    pub skip: bool,
    pub trust: Option<String>,
    pub mono: Vec<(String, Vec<String>)>,
    pub loops: BTreeMap<usize, String>,
    pub closures: BTreeMap<usize, String>,
    pub start: String,
    pub end: String,
    pub loop_start: BTreeMap<usize, String>,
    pub loop_end: BTreeMap<usize, String>,
    pub loop_before: BTreeMap<usize, String>,
    pub loop_after: BTreeMap<usize, String>,
    pub call_before: BTreeMap<(String, usize), String>,
    pub call_after: BTreeMap<(String, usize), String>,
    pub variant: bool,
}

#[derive(Default)]
pub struct Specs {
    pub fns: BTreeMap<String, FnSpec>,
    pub skip_mods: BTreeSet<String>,
    pub skip_items: BTreeSet<String>,
    pub derive: BTreeMap<String, String>,
    pub trait_items: BTreeMap<String, String>,
    pub mod_items: BTreeMap<String, String>,
    pub prelude: String,
}

impl Specs {
    pub fn load(dir: &Path, features: &[String]) -> Specs {
        let mut s = Specs::default();
        let mut names: Vec<_> = std::fs::read_dir(dir).unwrap().map(|e| e.unwrap().path()).collect();
        names.sort();
        for p in &names {
            let ext = p.extension().and_then(|e| e.to_str()).unwrap_or("");
            let text = || std::fs::read_to_string(p).unwrap();
            if ext == "rs" {
                s.prelude.push_str(&text());
                s.prelude.push('\n');
            } else if ext == "spec" {
                s.parse(&text(), features, &p.display().to_string());
            }
        }
        s
    }

    fn parse(&mut self, text: &str, features: &[String], file: &str) {
        let rayon = features.iter().any(|f| f == "rayon");
        let mut cur: Option<FnSpec> = None;
        let mut other: Option<(String, String)> = None; // kind, key
        let mut section = String::new();
        let mut body = String::new();
        let mut active = true;
        let flush = |cur: &mut Option<FnSpec>, other: &Option<(String, String)>, section: &str, body: &str, me: &mut Specs| {
            if section.is_empty() {
                return;
            }
            let w: Vec<&str> = section.split_whitespace().collect();
            let b = body.trim_end().to_string();
            if let Some(f) = cur {
                let n = || w[1].parse::<usize>().unwrap_or_else(|_| panic!("{file}: bad index in {section}"));
                match w[0] {
                    "returns" => f.returns = Some(w[1].into()),
                    "requires" => f.requires = b,
                    "ensures" => f.ensures = b,
                    "decreases" => f.decreases = b,
                    "attr" => f.attrs = if b.trim().is_empty() { section[4..].trim().to_string() } else { b },
                    "skip" => f.skip = true,
                    "trust" => f.trust = Some(section[5..].trim().to_string()),
                    "mono" => {
                        let (a, t) = w[1].split_once('=').unwrap();
                        f.mono.push((a.into(), t.split('|').map(String::from).collect()));
                    }
                    "loop" => { f.loops.insert(n(), b); }
                    "closure" => { f.closures.insert(n(), b); }
                    "start" => f.start = b,
                    "end" => f.end = b,
                    "loopstart" => { f.loop_start.insert(n(), b); }
                    "loopend" => { f.loop_end.insert(n(), b); }
                    "loopbefore" => { f.loop_before.insert(n(), b); }
                    "loopafter" => { f.loop_after.insert(n(), b); }
                    "before" => { f.call_before.insert((w[1].into(), w[2].parse().unwrap()), b); }
                    "after" => { f.call_after.insert((w[1].into(), w[2].parse().unwrap()), b); }
                    x => panic!("{file}: unknown section {x} in {}", f.key),
                }
            } else if let Some((kind, key)) = other {
                match (kind.as_str(), w[0]) {
                    ("item", "derive") => { me.derive.insert(key.clone(), section[6..].trim().to_string()); }
                    ("item", "skip") => { me.skip_items.insert(key.clone()); }
                    ("item", "add") => { me.trait_items.insert(key.clone(), b); }
                    ("mod", "skip") => { me.skip_mods.insert(key.clone()); }
                    ("mod", "items") => { me.mod_items.entry(key.clone()).or_default().push_str(&b); }
                    x => panic!("{file}: unknown section {x:?}"),
                }
            }
        };
        for line in text.lines().chain(std::iter::once("@@ end end")) {
            if let Some(rest) = line.strip_prefix("@@ ") {
                flush(&mut cur, &other, &section, &body, self);
                if let Some(f) = cur.take() {
                    if active {
                        // a variant for the current configuration overrides the generic entry
                        match self.fns.get(&f.key) {
                            Some(g) if g.variant && !f.variant => {}
                            _ => { self.fns.insert(f.key.clone(), f); }
                        }
                    }
                }
                section.clear();
                body.clear();
                other = None;
                active = true;
                let (kind, key) = rest.split_once(' ').expect(rest);
                let (mut key, var) = match key.rsplit_once(" @") {
                    Some((k, v)) => (k.trim().to_string(), Some(v.trim().to_string())),
                    None => (key.trim().to_string(), None),
                };
                key = key.replace("  ", " ");
                match kind {
                    "fn" => {
                        let mut f = FnSpec { key: key.clone(), ..Default::default() };
                        if let Some(v) = var {
                            let want = v == "rayon";
                            active = want == rayon;
                            f.variant = true;
                            // inherit requires/ensures
                            if let Some(g) = self.fns.get(&key) {
                                f.requires = g.requires.clone();
                                f.ensures = g.ensures.clone();
                                f.returns = g.returns.clone();
                            }
                        }
                        cur = Some(f);
                    }
                    "item" | "mod" => other = Some((kind.into(), key)),
                    "end" => {}
                    x => panic!("{file}: unknown entry kind {x}"),
                }
            } else if let Some(rest) = line.strip_prefix("@ ") {
                flush(&mut cur, &other, &section, &body, self);
                section = rest.trim().to_string();
                body.clear();
            } else if line.trim_start().starts_with("@#") {
            } else {
                body.push_str(line);
                body.push('\n');
            }
        }
    }
}
