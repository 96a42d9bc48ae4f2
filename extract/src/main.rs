//! Mechanical extraction of /repo/src into one Verus crate.
//!
//! usage: extract --src DIR --proofs DIR --out FILE --map FILE [--features a,b]
//!                [--prove k1,k2,..|ALL] [--degrade k1,k2,..] [--baseline FILE]
//!                [--write-baseline FILE] [--probe]
//!
//! Every rewrite below is syntactic and local; `README` in DESIGN.md lists what is dropped.
mod annot;
mod inline;
mod rewrite;
mod spec;

use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};

pub struct Opts {
    pub src: PathBuf,
    pub proofs: PathBuf,
    pub out: PathBuf,
    pub map: PathBuf,
    pub features: Vec<String>,
    pub prove: Option<BTreeSet<String>>, // None = all
    pub degrade: BTreeMap<String, String>,
    pub baseline: Option<PathBuf>,
    pub write_baseline: Option<PathBuf>,
    pub probe: bool,
    pub algebra: bool,
    pub nonan: bool,
}

fn parse_opts() -> Opts {
    let mut o = Opts {
        src: "/repo/src".into(),
        proofs: "/verif/proofs".into(),
        out: "/tmp/out.rs".into(),
        map: "/tmp/map.json".into(),
        features: vec!["simd".into()],
        prove: None,
        degrade: BTreeMap::new(),
        baseline: None,
        write_baseline: None,
        probe: false,
        algebra: false,
        nonan: false,
    };
    let mut it = std::env::args().skip(1);
    while let Some(a) = it.next() {
        let mut v = || it.next().expect("missing value");
        match a.as_str() {
            "--src" => o.src = v().into(),
            "--proofs" => o.proofs = v().into(),
            "--out" => o.out = v().into(),
            "--map" => o.map = v().into(),
            "--features" => o.features = v().split(',').filter(|s| !s.is_empty()).map(String::from).collect(),
            "--prove-file" => {
                let t = std::fs::read_to_string(v()).unwrap();
                o.prove = Some(t.lines().map(|s| s.trim().to_string()).filter(|s| !s.is_empty()).collect());
            }
            "--degrade-file" => {
                let t = std::fs::read_to_string(v()).unwrap();
                for l in t.lines() {
                    if let Some((k, r)) = l.split_once('\t') {
                        o.degrade.insert(k.into(), r.into());
                    }
                }
            }
            "--baseline" => o.baseline = Some(v().into()),
            "--write-baseline" => o.write_baseline = Some(v().into()),
            "--probe" => o.probe = true,
            "--algebra" => o.algebra = true,
            "--nonan" => {
                o.algebra = true;
                o.nonan = true
            }
            x => panic!("unknown option {x}"),
        }
    }
    o
}

fn main() {
    let o = parse_opts();
    let specs = spec::Specs::load(&o.proofs, &o.features);
    let baseline: serde_json::Value = match &o.baseline {
        Some(p) if p.exists() => serde_json::from_str(&std::fs::read_to_string(p).unwrap()).unwrap(),
        _ => json!({}),
    };

    // 1. read the module tree
    let mut files: Vec<(Vec<String>, PathBuf, String)> = vec![];
    read_mod(&o, &specs, &o.src, &o.src.join("lib.rs"), vec![], &mut files);

    // 2. inline helpers without a contract
    let mut notes: Vec<String> = vec![];
    inline::inline_all(&mut files, &specs, &o, &mut notes);

    // 3. rewrite and annotate
    let mut em = annot::Emitter::new(&o, &specs, &baseline);
    em.emit_crate(&files);

    std::fs::write(&o.out, &em.out).unwrap();
    let m = json!({
        "functions": em.funcs,
        "structs": em.structs,
        "features": o.features,
        "notes": notes,
        "missing": em.missing(),
    });
    std::fs::write(&o.map, serde_json::to_string_pretty(&m).unwrap()).unwrap();
    if let Some(p) = &o.write_baseline {
        std::fs::write(p, serde_json::to_string_pretty(&json!(em.baseline_out)).unwrap()).unwrap();
    }
}

fn read_mod(o: &Opts, specs: &spec::Specs, dir: &Path, file: &Path, path: Vec<String>, out: &mut Vec<(Vec<String>, PathBuf, String)>) {
    let text = match std::fs::read_to_string(file) {
        Ok(t) => t,
        Err(_) => return,
    };
    let ast = match syn::parse_file(&text) {
        Ok(a) => a,
        Err(e) => {
            eprintln!("PARSE {}: {}", file.display(), e);
            std::process::exit(3);
        }
    };
    if specs.skip_mods.contains(&path.join("::")) {
        return;
    }
    out.push((path.clone(), file.to_path_buf(), text));
    for it in &ast.items {
        if let syn::Item::Mod(m) = it {
            if m.content.is_some() || !rewrite::cfg_ok(&m.attrs, &o.features) {
                continue;
            }
            let name = m.ident.to_string();
            let base = if file.file_name().unwrap() == "mod.rs" || file.file_name().unwrap() == "lib.rs" {
                dir.to_path_buf()
            } else {
                dir.join(file.file_stem().unwrap())
            };
            let mut p = path.clone();
            p.push(name.clone());
            let f1 = base.join(format!("{name}.rs"));
            let f2 = base.join(&name).join("mod.rs");
            if f1.exists() {
                read_mod(o, specs, &base, &f1, p, out);
            } else {
                read_mod(o, specs, &base.join(&name), &f2, p, out);
            }
        }
    }
}
