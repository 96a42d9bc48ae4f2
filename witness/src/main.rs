//! Concrete-input search and replay against the real crate.
//!   witness run <prop> [--tier quick|thorough] [--seed N] [--secs S] --out FILE   exit 0 / 1 (violation written to FILE as JSON)
//!   witness one <prop> <sub> <seed> <iteration>                                     replay one case
//!   witness dump [--tier T] [--seed N]                                              result hashes of the parallel-capable operations
mod args; mod axioms; mod filt; mod image; mod io; mod tone; mod util; mod xform; mod par;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicU64, Ordering};
use util::*;

/// Allocator with 64 guard bytes behind every block: a write past the end of a buffer is counted when the block is freed.
struct Canary;
static HITS: AtomicU64 = AtomicU64::new(0);
const G: usize = 64;
pub fn canary_hits() -> u64 { HITS.load(Ordering::SeqCst) }
unsafe impl GlobalAlloc for Canary {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(Layout::from_size_align_unchecked(l.size() + G, l.align()));
        if !p.is_null() { std::ptr::write_bytes(p.add(l.size()), 0xC5, G); } p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = System.alloc_zeroed(Layout::from_size_align_unchecked(l.size() + G, l.align()));
        if !p.is_null() { std::ptr::write_bytes(p.add(l.size()), 0xC5, G); } p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        for i in 0..G { if *p.add(l.size() + i) != 0xC5 { HITS.fetch_add(1, Ordering::SeqCst); break; } }
        System.dealloc(p, Layout::from_size_align_unchecked(l.size() + G, l.align()))
    }
}
#[global_allocator]
static A: Canary = Canary;

fn subs() -> Vec<&'static Sub> { image::SUBS.iter().chain(xform::SUBS).chain(tone::SUBS).chain(filt::SUBS).chain(args::SUBS).chain(io::SUBS).chain(par::SUBS).chain(axioms::SUBS).collect() }
fn esc(s: &str) -> String { let mut o = String::new(); for c in s.chars() { match c { '"' => o += "\\\"", '\\' => o += "\\\\", '\n' => o += "\\n", '\t' => o += "\\t", c if (c as u32) < 32 => o += " ", c => o.push(c) } } o }

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let av: Vec<String> = std::env::args().collect();
    let opt = |n: &str| av.iter().position(|a| a == n).and_then(|i| av.get(i + 1)).cloned();
    let seed: u64 = opt("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = opt("--tier").as_deref() == Some("thorough");
    let secs: f64 = opt("--secs").and_then(|s| s.parse().ok()).unwrap_or(if thorough { 240.0 } else { 40.0 });
    let mode = if cfg!(feature = "parallel") { "parallel" } else { "sequential" };
    match av.get(1).map(|s| s.as_str()) {
        Some("dump") => { par::dump(seed, if thorough { 4000 } else { 500 }); }
        Some("one") => {
            let s = subs().into_iter().find(|s| s.prop == av[2] && s.name == av[3]).expect("unknown sub-check");
            let (seed, it): (u64, u64) = (av[4].parse().unwrap(), av[5].parse().unwrap());
            let hits = canary_hits();
            let mut res = no_panic(|| (s.run)(&mut Rng::new(seed, s.name, it), it)).unwrap_or_else(|m| Err(Fail { input: format!("sub-check {} iteration {}", s.name, it), expected: "no panic".into(), actual: format!("panic: {}", m) }));
            if canary_hits() != hits && res.is_ok() { res = Err(Fail { input: format!("sub-check {} iteration {}", s.name, it), expected: "no write outside an allocation".into(), actual: "heap guard bytes overwritten".into() }); }
            match res {
                Ok(n) => println!("holds on this case ({} values compared)", n),
                Err(f) => { println!("VIOLATED\n input:    {}\n expected: {}\n actual:   {}", f.input, f.expected, f.actual); std::process::exit(1); }
            }
        }
        Some("run") => {
            let prop = &av[2];
            let start = std::time::Instant::now();
            let mine: Vec<_> = subs().into_iter().filter(|s| s.prop == prop).collect();
            let share = secs / (mine.len().max(1) as f64);
            let mut stats = vec![];
            let mut viol = String::new();
            // the case under way, for the caller to read should this process die or hang
            let cur = opt("--out").map(|o| std::fs::File::create(format!("{o}.cur")).unwrap());
            for (si, s) in mine.iter().enumerate() {
                let limit = 10 * if thorough { s.thorough } else { s.quick };
                let (mut its, mut vals) = (0u64, 0u64);
                if let Some(f) = &cur { let _ = f.set_len(0); }
                for it in 0..limit {
                    if its > 0 && start.elapsed().as_secs_f64() > share * (si + 1) as f64 { break; }
                    let hits = canary_hits();
                    if let Some(f) = &cur { use std::os::unix::fs::FileExt; let _ = f.write_at(format!("{} {} {:<20}\n", s.name, seed, it).as_bytes(), 0); }
                    let mut res = no_panic(|| (s.run)(&mut Rng::new(seed, s.name, it), it)).unwrap_or_else(|m| Err(Fail { input: format!("sub-check {} iteration {}", s.name, it), expected: "no panic".into(), actual: format!("panic: {}", m) }));
                    if canary_hits() != hits && res.is_ok() { res = Err(Fail { input: format!("sub-check {} iteration {}", s.name, it), expected: "no write outside an allocation".into(), actual: "heap guard bytes overwritten".into() }); }
                    its += 1;
                    match res { Ok(n) => vals += n, Err(f) => {
                        viol = format!("{{\"property\":\"{}\",\"sub\":\"{}\",\"build\":\"{}\",\"seed\":{},\"iteration\":{},\"input\":\"{}\",\"expected\":\"{}\",\"actual\":\"{}\"}}", prop, s.name, mode, seed, it, esc(&f.input), esc(&f.expected), esc(&f.actual));
                        break;
                    } }
                }
                stats.push(format!("{{\"sub\":\"{}\",\"cases\":{},\"values\":{}}}", s.name, its, vals));
                if !viol.is_empty() { break; }
            }
            let js = format!("{{\"build\":\"{}\",\"seed\":{},\"secs\":{:.2},\"subs\":[{}],\"violation\":{}}}\n", mode, seed, start.elapsed().as_secs_f64(), stats.join(","), if viol.is_empty() { "null" } else { &viol });
            if let Some(o) = opt("--out") { std::fs::write(o, &js).unwrap(); } else { print!("{}", js); }
            std::process::exit(if viol.is_empty() { 0 } else { 1 });
        }
        _ => { for s in subs() { println!("{} {} {}", s.prop, s.name, s.quick); } }
    }
}
