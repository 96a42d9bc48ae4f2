//! C18: the operations with a multithreaded variant. `dump` prints one result hash per case; the runner compares the
//! output of the sequential and of the parallel build. The sub-checks compare each build with the reference.
use crate::util::*;
use imgproc_rs::enums::*;
use imgproc_rs::image::*;
use imgproc_rs::{filter, transform};

fn hash<I: Iterator<Item = u64>>(info: ImageInfo, d: I) -> String {
    let mut h = 0xcbf29ce484222325u64;
    for v in d { h = (h ^ v).wrapping_mul(0x100000001b3); }
    format!("{}x{}x{} {} {:016x}", info.width, info.height, info.channels, info.alpha, h)
}
fn show_f<E: std::fmt::Debug>(r: Result<Result<Image<f32>, E>, String>) -> String {
    match r { Err(_) => "panic".into(), Ok(Err(_)) => "err".into(), Ok(Ok(i)) => hash(i.info(), i.data().iter().map(|v| if v.is_nan() { 1 } else { v.to_bits() as u64 })) }
}
fn show_u<E: std::fmt::Debug>(r: Result<Result<Image<u8>, E>, String>) -> String {
    match r { Err(_) => "panic".into(), Ok(Err(_)) => "err".into(), Ok(Ok(i)) => hash(i.info(), i.data().iter().map(|v| *v as u64)) }
}
pub fn cases(r: &mut Rng, it: u64) -> Vec<(String, String)> {
    let (w, h) = dims(r, it, 24);
    let (c, a) = *r.pick(&KINDS_X);
    let rf = img_f32(r, w, h, c, a);
    let im = rf.img();
    let mut o = vec![];
    let e = |r: &mut Rng, m: u32| if r.int(0, 9) == 0 { u32::MAX - r.u32(0, 2) } else { r.u32(0, m + 1) };
    let (x, y, cw, ch) = (e(r, w), e(r, h), e(r, w), e(r, h));
    o.push((format!("crop({},{},{},{}) of {}", x, y, cw, ch, desc(&rf)), show_f(no_panic(|| transform::crop(&im, x, y, cw, ch)))));
    let (fx, fy) = if r.int(0, 4) == 0 { (*r.pick(&[-0.5f32, 1.0, -1.0, 0.0, -1e-45, f32::NEG_INFINITY]), *r.pick(&[-0.5f32, 1.0, -1.0, 0.0, -1e-45, f32::NEG_INFINITY])) } else { (0.2 + 2.0 * r.unit(), *r.pick(&[0.5f32, 1.0, 2.0, 0.0, 1.7])) };
    for m in 0..5 {
        let ls = r.u32(1, 4);
        o.push((format!("scale({},{},method {} size {}) of {}", fx, fy, m, ls, desc(&rf)), show_f(no_panic(|| match m {
            0 => transform::scale(&im, fx, fy, Scale::NearestNeighbor), 1 => transform::scale(&im, fx, fy, Scale::Bilinear),
            2 => transform::scale(&im, fx, fy, Scale::Bicubic), 3 => transform::scale(&im, fx, fy, Scale::Lanczos), _ => transform::scale_lanczos(&im, fx, fy, ls) }))));
    }
    let n = r.int(0, 7) as usize;
    let k: Vec<f32> = (0..n).map(|_| r.int(-9, 9) as f32 / 7.0).collect();
    for v in [false, true] { o.push((format!("filter_1d({:?},{}) of {}", k, v, desc(&rf)), show_f(no_panic(|| filter::filter_1d(&im, &k, v))))); }
    let n = *r.pick(&[1usize, 3, 5, 9, 25, 4, 49, 15]);
    let k: Vec<f32> = (0..n).map(|_| r.int(-9, 9) as f32 / 7.0).collect();
    o.push((format!("unseparable_filter({:?}) of {}", k, desc(&rf)), show_f(no_panic(|| filter::unseparable_filter(&im, &k)))));
    let (c, a) = *r.pick(&[(3u8, false), (4, true)]);
    let (w, h) = (w.min(9), h.min(9));
    let b = img_u8(r, w, h, c, a);
    let bi = b.img();
    let (rg, sp) = (*r.pick(&[1.0f32, 10.0, 40.0, -1.0, 0.0, f32::INFINITY]), *r.pick(&[0.5f32, 1.0, 1.25, 0.3, 2.0, -0.5, 0.0]));
    o.push((format!("bilateral_filter({},{}) of {}", rg, sp, desc(&b)), show_u(no_panic(|| filter::bilateral_filter(&bi, rg, sp, Bilateral::Direct)))));
    o
}
pub fn dump(seed: u64, n: u64) {
    for it in 0..n { for (i, (d, h)) in cases(&mut Rng::new(seed, "par", it), it).into_iter().enumerate() { println!("{}\t{}\t{}\t{}", it, i, h, d.replace('\t', " ").replace('\n', " ")); } }
}
/// results do not depend on scheduling: the same call twice gives the same bits
fn stable(r: &mut Rng, it: u64) -> Res {
    let s = r.next();
    let (x, y) = (cases(&mut Rng(s), it), cases(&mut Rng(s), it));
    let mut n = 0;
    for (p, q) in x.iter().zip(&y) { n += eq(|| format!("repeated {}", p.0), &p.1, &q.1)?; }
    Ok(n)
}
pub const SUBS: &[Sub] = &[
    Sub { prop: "C18", name: "stable", quick: 150, thorough: 2000, run: stable },
    Sub { prop: "C18", name: "crop", quick: 1500, thorough: 10000, run: crate::xform::crop },
    Sub { prop: "C18", name: "scale", quick: 300, thorough: 3000, run: crate::xform::scale },
    Sub { prop: "C18", name: "bilateral", quick: 300, thorough: 3000, run: crate::filt::bilateral },
];
