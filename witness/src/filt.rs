//! C10, C12-C16, C20, C24, C26: filters, kernels, tables, morphology
use crate::util::*;
use imgproc_rs::enums::{Bilateral, Thresh, White};
use imgproc_rs::error::ImgProcResult;
use imgproc_rs::image::*;
use imgproc_rs::{colorspace as cs, filter, morphology as mo, util};

fn special(r: &mut Rng) -> f32 { match r.int(0, 11) { 0 => f32::NAN, 1 => f32::INFINITY, 2 => f32::NEG_INFINITY, 3 => -0.0, 4 => 0.0, _ => r.int(-3, 12) as f32 * 25.0 } }
fn bits(i: &R<f32>) -> R<u32> { R { w: i.w, h: i.h, c: i.c, a: i.a, d: i.d.iter().map(|v| if v.is_nan() { 0x7fc00000 } else { v.to_bits() }).collect() } }
fn threshold(r: &mut Rng, it: u64) -> Res {
    let (w, h) = dims(r, it, 9);
    let (c, a) = *r.pick(&KINDS[..2]);
    let rf = R::build(w, h, c, a, |_, _, _| special(r));
    let (t, mx) = (r.int(-1, 9) as f32 * 25.0, *r.pick(&[255.0f32, 1.0, 100.0]));
    let mut n = 0;
    for m in 0..5 {
        let d = || format!("threshold {} max {} mode {} of {}", t, mx, m, desc(&rf));
        let o = R::of(&run(d, || filter::threshold(&rf.img(), t, mx, match m { 0 => Thresh::Binary, 1 => Thresh::BinaryInv, 2 => Thresh::Trunc, 3 => Thresh::ToZero, _ => Thresh::ToZeroInv }))?);
        let f = |v: f32| { let g = v > t; match m { 0 => if g { mx } else { 0.0 }, 1 => if g { 0.0 } else { mx }, 2 => if g { t } else { v }, 3 => if g { v } else { 0.0 }, _ => if g { 0.0 } else { v } } };
        let e = R::build(w, h, c, a, |x, y, k| if k == 0 { f(rf.at(x, y, k)) } else { rf.at(x, y, k) });
        n += eq_img(d, &bits(&e), &bits(&o))?;
    }
    for (c2, a2) in [(3u8, false), (4, true), (2, false), (1, true)] {
        let g = R::build(2, 2, c2, a2, |_, _, _| 5.0f32);
        n += must_err(|| format!("threshold of {} channels alpha={}", c2, a2), true, || filter::threshold(&g.img(), t, mx, Thresh::Binary))?;
    }
    Ok(n)
}
fn residual(r: &mut Rng, it: u64) -> Res {
    let (w, h) = dims(r, it, 9);
    let (c, a) = *r.pick(&KINDS_X);
    let p = R::build(w, h, c, a, |_, _, _| r.int(-500, 500) as i32);
    let q = R::build(w, h, c, a, |_, _, _| r.int(-500, 500) as i32);
    let d = || format!("residual of {} and {}", desc(&p), desc(&q));
    let o = R::of(&run(d, || filter::residual(&p.img(), &q.img()))?);
    let mut n = eq_img(d, &R::build(w, h, c, a, |x, y, k| p.at(x, y, k) - q.at(x, y, k)), &o)?;
    let others = [(w + 1, h, c, a), (w, h + 1, c, a), (w, h, c + 1, a), (w, h, c, !a)];
    let (w2, h2, c2, a2) = *r.pick(&others);
    let s = R::build(w2, h2, c2, a2, |_, _, _| 1);
    n += must_err(|| format!("residual of shapes {:?} and {:?}", (w, h, c, a), (w2, h2, c2, a2)), true, || filter::residual(&p.img(), &s.img()))?;
    n += must_err(|| format!("residual of shapes {:?} and {:?}", (w2, h2, c2, a2), (w, h, c, a)), true, || filter::residual(&s.img(), &p.img()))?;
    Ok(n)
}
fn conv1(i: &R<f32>, k: &[f32], vert: bool) -> R<f32> {
    let hs = (k.len() / 2) as i64;
    R::build(i.w, i.h, i.c, i.a, |x, y, ch| { let mut s = 0.0f32; for (t, kv) in k.iter().enumerate() { let o = t as i64 - hs; s += kv * if vert { i.cl(x as i64, y as i64 + o, ch) } else { i.cl(x as i64 + o, y as i64, ch) }; } s })
}
fn conv2(i: &R<f32>, k: &[f32], n: usize) -> R<f32> {
    let hs = (n / 2) as i64;
    R::build(i.w, i.h, i.c, i.a, |x, y, ch| { let mut s = 0.0f32; for q in 0..n { for p in 0..n { s += k[q * n + p] * i.cl(x as i64 + p as i64 - hs, y as i64 + q as i64 - hs, ch); } } s })
}
fn kern(r: &mut Rng, n: usize) -> Vec<f32> { (0..n).map(|_| r.int(-8, 8) as f32 / 4.0).collect() }
pub fn linear(r: &mut Rng, it: u64) -> Res {
    let (w, h) = dims(r, it, 9);
    let (c, a) = *r.pick(&KINDS_X);
    let rf = img_f32(r, w, h, c, a);
    let im = rf.img();
    let n = r.size(&[1, 3, 5, 7, 9], &[11, 13, 15, 17, 21, 31, 33]);
    let (k, k2) = (kern(r, n), kern(r, n));
    let mut cnt = 0;
    for v in [true, false] {
        let d = || format!("filter_1d vert={} kernel={:?} of {}", v, k, desc(&rf));
        cnt += eq_f(d, &conv1(&rf, &k, v), &R::of(&run(d, || filter::filter_1d(&im, &k, v))?), 1e-3)?;
    }
    let d = || format!("separable_filter vert={:?} horz={:?} of {}", k, k2, desc(&rf));
    cnt += eq_f(d, &conv1(&conv1(&rf, &k, true), &k2, false), &R::of(&run(d, || filter::separable_filter(&im, &k, &k2))?), 1e-3)?;
    let m = r.size(&[1, 3, 5, 7], &[9, 11, 13, 15]);
    let kk = kern(r, m * m);
    let d = || format!("unseparable_filter kernel={:?} of {}", kk, desc(&rf));
    cnt += eq_f(d, &conv2(&rf, &kk, m), &R::of(&run(d, || filter::unseparable_filter(&im, &kk))?), 1e-3)?;
    Ok(cnt)
}
fn named(r: &mut Rng, it: u64) -> Res {
    let (w, h) = dims(r, it, 9);
    let (c, a) = *r.pick(&KINDS_X);
    let rf = img_f32(r, w, h, c, a);
    let im = rf.img();
    let n = r.size(&[1, 3, 5, 7], &[9, 11, 13, 17]);
    let d = || format!("box_filter {} of {}", n, desc(&rf));
    let mut cnt = eq_f(d, &conv2(&rf, &vec![1.0 / (n * n) as f32; n * n], n), &R::of(&run(d, || filter::box_filter(&im, n as u32))?), 1e-3)?;
    let wt = r.weight().max((n == 1) as u32);
    let d = || format!("weighted_avg_filter size={} weight={} of {}", n, wt, desc(&rf));
    let s = (n * n) as f32 - 1.0 + wt as f32;
    let mut k = vec![1.0 / s; n * n]; k[n * n / 2] = wt as f32 / s;
    cnt += eq_f(d, &conv2(&rf, &k, n), &R::of(&run(d, || filter::weighted_avg_filter(&im, n as u32, wt))?), 1e-3)?;
    let d = || format!("sharpen {}", desc(&rf));
    cnt += eq_f(d, &conv2(&rf, &[0., -1., 0., -1., 5., -1., 0., -1., 0.], 3), &R::of(&run(d, || filter::sharpen(&im))?), 1e-3)?;
    let row = [1.0f32, 4., 6., 4., 1.];
    let mut u: Vec<f32> = (0..25).map(|i| -row[i / 5] * row[i % 5] / 256.0).collect(); u[12] = 476.0 / 256.0;
    let d = || format!("unsharp_masking {}", desc(&rf));
    cnt += eq_f(d, &conv2(&rf, &u, 5), &R::of(&run(d, || filter::unsharp_masking(&im))?), 1e-3)?;
    let sg = if r.bool() { *r.pick(&[0.5f32, 1.0, 2.0]) } else { 0.4 + 3.0 * r.unit() };
    let m = r.size(&[1, 3, 5], &[7, 9, 11]);
    let hs = (m / 2) as f32;
    let g: Vec<f32> = (0..m * m).map(|i| { let (p, q) = ((i % m) as f32 - hs, (i / m) as f32 - hs); (-(p * p + q * q) / (2.0 * sg * sg)).exp() / (2.0 * std::f32::consts::PI * sg * sg) }).collect();
    let d = || format!("gaussian_blur size={} sigma={} of {}", m, sg, desc(&rf));
    cnt += eq_f(d, &conv2(&rf, &g, m), &R::of(&run(d, || filter::gaussian_blur(&im, m as u32, sg))?), 3e-3)?;
    Ok(cnt)
}
fn sat_of<T: imgproc_rs::image::Number + std::fmt::Debug>(r: &mut Rng, w: u32, h: u32, c: u8, a: bool, f: &mut dyn FnMut(&mut Rng) -> T) -> Res {
    let rf = R::build(w, h, c, a, |_, _, _| f(r));
    let d = || format!("summed-area table of {:?}", rf);
    let t = call(d, || util::generate_summed_area_table(&rf.img()))?;
    let sum = |x0: u32, y0: u32, x1: u32, y1: u32, k: usize| { let mut s: T = 0u8.into(); for y in y0..=y1 { for x in x0..=x1 { s = s + rf.at(x, y, k); } } s };
    let mut n = eq_img(d, &R::build(w, h, c, a, |x, y, k| sum(0, 0, x, y, k)), &R::of(&t))?;
    if w * h == 0 { return Ok(n); }
    for q in 0..30 {
        let (x0, y0) = if q < 8 { (if q & 1 == 0 { 0 } else { r.u32(0, w - 1) }, if q & 2 == 0 { 0 } else { r.u32(0, h - 1) }) } else { (r.u32(0, w - 1), r.u32(0, h - 1)) };
        let (x1, y1) = (r.u32(x0, w - 1), r.u32(y0, h - 1));
        let dq = || format!("rectangular_intensity_sum({},{},{},{}) over {:?}", x0, y0, x1, y1, rf);
        let o = call(dq, || util::rectangular_intensity_sum(&t, x0, y0, x1, y1))?;
        n += eq(dq, &(0..c as usize).map(|k| sum(x0, y0, x1, y1, k)).collect::<Vec<_>>(), &o)?;
    }
    Ok(n)
}
fn sat(r: &mut Rng, it: u64) -> Res {
    let (w, h) = dims(r, it, 8);
    let (c, a) = *r.pick(&KINDS_X);
    let size = (w * h).max(1) as i64;
    let cap = 255 / size; // every total fits the channel type
    let mut n = sat_of::<f32>(r, w, h, c, a, &mut |r| r.int(-20, 255) as f32)?;
    n += sat_of::<u8>(r, w, h, c, a, &mut |r| r.int(0, cap) as u8)?;
    n += sat_of::<u16>(r, w, h, c, a, &mut |r| r.int(0, 65535 / size) as u16)?;
    n += sat_of::<u32>(r, w, h, c, a, &mut |r| r.int(0, 1 << 20) as u32)?;
    n += sat_of::<i64>(r, w, h, c, a, &mut |r| r.int(-1000, 1000))?;
    Ok(n)
}
fn morph_check(rf: &R<u8>, rad: u32) -> Res {
    let (w, h) = (rf.w as i64, rf.h as i64);
    let p = rad as i64;
    // window counts by 2-D prefix sums
    let (wu, hu) = (w as usize, h as usize);
    let counts = |m: &R<u8>| -> Vec<(u64, u64)> {
        let mut s = vec![0u64; (wu + 1) * (hu + 1)];
        for y in 0..hu { for x in 0..wu { s[(y + 1) * (wu + 1) + x + 1] = (m.at(x as u32, y as u32, 0) == 255) as u64 + s[y * (wu + 1) + x + 1] + s[(y + 1) * (wu + 1) + x] - s[y * (wu + 1) + x]; } }
        let mut o = Vec::new();
        for y in 0..h { for x in 0..w {
            let (x0, x1) = ((x - p).max(0) as usize, (x + p).min(w - 1) as usize + 1);
            let (y0, y1) = ((y - p).max(0) as usize, (y + p).min(h - 1) as usize + 1);
            let st = s[y1 * (wu + 1) + x1] + s[y0 * (wu + 1) + x0] - s[y0 * (wu + 1) + x1] - s[y1 * (wu + 1) + x0];
            o.push((st, ((x1 - x0) * (y1 - y0)) as u64));
        } }
        o
    };
    let full = ((2 * p + 1) * (2 * p + 1)) as u64;
    let mk = |m: &R<u8>, f: &dyn Fn(u64, u64) -> bool| { let cs = counts(m); R::build(m.w, m.h, m.c, m.a, |x, y, k| if k == 0 { let (s, t) = cs[(y * m.w + x) as usize]; if f(s, t) { 255 } else { 0 } } else { m.at(x, y, k) }) };
    let er = |m: &R<u8>| mk(m, &|s, _| s == full);
    let di = |m: &R<u8>| mk(m, &|s, _| s > 0);
    let im = rf.img();
    let dd = |n: &str| format!("{} radius={} of {}", n, rad, desc(rf));
    let cmp = |n: &str, e: R<u8>, o: R<u8>| -> Res { if (e.w, e.h, e.c, e.a) != (o.w, o.h, o.c, o.a) { return fail(dd(n), &(e.w, e.h, e.c, e.a), &(o.w, o.h, o.c, o.a)); } eq_img(|| dd(n), &e, &o) };
    let mut n = cmp("erode", er(rf), R::of(&run(|| dd("erode"), || mo::erode(&im, rad))?))?;
    n += cmp("dilate", di(rf), R::of(&run(|| dd("dilate"), || mo::dilate(&im, rad))?))?;
    n += cmp("majority", mk(rf, &|s, t| 2 * s > t), R::of(&run(|| dd("majority"), || mo::majority(&im, rad))?))?;
    n += cmp("gradient", mk(rf, &|s, _| (s == full) != (s > 0)), R::of(&run(|| dd("gradient"), || mo::gradient(&im, rad))?))?;
    n += cmp("open", di(&er(rf)), R::of(&run(|| dd("open"), || mo::open(&im, rad))?))?;
    n += cmp("close", er(&di(rf)), R::of(&run(|| dd("close"), || mo::close(&im, rad))?))?;
    Ok(n)
}
fn morph(r: &mut Rng, it: u64) -> Res {
    let (w, h) = dims(r, it, 14);
    let (c, a) = if r.int(0, 3) == 0 { KINDS[1] } else { KINDS[0] };
    let dens = *r.pick(&[5i64, 30, 50, 80, 97, 100]);
    let rf = R::build(w, h, c, a, |_, _, k| if k == 1 { 200 } else if r.int(1, 100) <= dens { 255u8 } else { 0 });
    let rad = if r.int(0, 15) == 0 { r.u32(7, 40) } else { r.u32(0, 6) };
    let mut n = morph_check(&rf, rad)?;
    for (c2, a2) in [(3u8, false), (4, true)] {
        let g = R::build(2, 2, c2, a2, |_, _, _| 255u8).img();
        n += must_err(|| format!("erode of {} channels", c2), true, || mo::erode(&g, 1))?;
        n += must_err(|| format!("dilate of {} channels", c2), true, || mo::dilate(&g, 1))?;
        n += must_err(|| format!("majority of {} channels", c2), true, || mo::majority(&g, 1))?;
        n += must_err(|| format!("gradient of {} channels", c2), true, || mo::gradient(&g, 1))?;
        n += must_err(|| format!("open of {} channels", c2), true, || mo::open(&g, 1))?;
        n += must_err(|| format!("close of {} channels", c2), true, || mo::close(&g, 1))?;
    }
    Ok(n)
}
/// images whose total exceeds what single precision represents exactly
fn morph_large(r: &mut Rng, it: u64) -> Res {
    let (w, h) = (r.u32(280, 420), r.u32(280, 420));
    let holes = it % 3;
    let rf = R::build(w, h, 1, false, |_, _, _| if holes > 0 && r.int(0, 4000) == 0 { 0 } else { 255u8 });
    morph_check(&rf, r.u32(1, 4))
}
fn window(i: &R<u8>, x: u32, y: u32, rad: i64, k: usize) -> Vec<u8> {
    let mut v = Vec::new();
    for q in -rad..=rad { for p in -rad..=rad { v.push(i.cl(x as i64 + p, y as i64 + q, k)); } }
    v.sort(); v
}
fn filt_img(r: &mut Rng, it: u64) -> (R<u8>, u32) {
    let (w, h) = match it % 4 { _ if (25..29).contains(&it) => dims(r, it, 12), 0 => (r.u32(1, 30), r.u32(1, 12)), 1 => (r.u32(1, 6), r.u32(1, 20)), _ => dims(r, it, 12) };
    let (c, a) = *r.pick(&KINDS_X);
    let rad = if w.max(h) < 40 { r.size(&[0, 1, 1, 2, 2, 3, 4], &[5, 6, 7, 9]) } else { r.size(&[0, 1, 1, 2], &[3, 4]) } as u32;
    let mut rf = img_u8(r, w, h, c, a);
    if r.int(0, 3) == 0 { let lv = r.int(1, 4); for v in rf.d.iter_mut() { *v = (r.int(0, lv) * 60) as u8; } }
    (rf, rad)
}
fn median(r: &mut Rng, it: u64) -> Res {
    let (rf, rad) = filt_img(r, it);
    let d = || format!("median_filter radius={} of {}", rad, desc(&rf));
    let o = R::of(&run(d, || filter::median_filter(&rf.img(), rad))?);
    let e = R::build(rf.w, rf.h, rf.c, rf.a, |x, y, k| { let v = window(&rf, x, y, rad as i64, k); v[v.len() / 2] });
    eq_img(d, &e, &o)
}
fn trimmed(r: &mut Rng, it: u64) -> Res {
    let (rf, rad) = filt_img(r, it);
    let sz = (2 * rad + 1) * (2 * rad + 1);
    let al = 2 * r.u32(0, (sz - 1) / 2);
    let d = || format!("alpha_trimmed_mean_filter radius={} alpha={} of {}", rad, al, desc(&rf));
    let o = R::of(&run(d, || filter::alpha_trimmed_mean_filter(&rf.img(), rad, al))?);
    let t = (al / 2) as usize;
    let e = R::build(rf.w, rf.h, rf.c, rf.a, |x, y, k| { let v = window(&rf, x, y, rad as i64, k); let m = &v[t..v.len() - t]; (m.iter().map(|q| *q as f64).sum::<f64>() / m.len() as f64 + 0.5).floor() as u8 });
    let mut n = eq_img(d, &e, &o)?;
    for bad in [al + 1, sz, sz + 1, sz + 3] {
        n += must_err(|| format!("alpha_trimmed_mean_filter radius={} alpha={}", rad, bad), true, || filter::alpha_trimmed_mean_filter(&rf.img(), rad, bad))?;
    }
    Ok(n)
}
fn kernels(r: &mut Rng, it: u64) -> Res {
    let n = r.size(&[1, 3, 5, 7, 9, 11], &[13, 15, 21, 31, 33]);
    let sg = 0.4 + r.unit() * 3.0;
    let hs = (n / 2) as f64;
    let s = sg as f64;
    let pi = std::f64::consts::PI;
    let mut cnt = 0;
    let g = run(|| format!("generate_gaussian_kernel({}, {})", n, sg), || util::generate_gaussian_kernel(n as u32, sg))?;
    let l = run(|| format!("generate_log_kernel({}, {})", n, sg), || util::generate_log_kernel(n as u32, sg))?;
    let sp = run(|| format!("generate_spatial_mat({}, {})", n, sg), || util::generate_spatial_mat(n as u32, sg))?;
    cnt += eq(|| "kernel lengths".into(), &(n * n, n * n, n * n), &(g.len(), l.len(), sp.len()))?;
    for i in 0..n * n {
        let (x, y) = ((i % n) as f64 - hs, (i / n) as f64 - hs);
        let q = (x * x + y * y) / (2.0 * s * s);
        let ge = (-q).exp() / (2.0 * pi * s * s);
        // the code's published sign convention: -1/(pi s^4) * (1 + q) * exp(-q) with exponent term exp = -q
        let le = -1.0 / (pi * s.powi(4)) * (1.0 + q) * (-q).exp();
        for (nm, e, a) in [("gaussian", ge, g[i]), ("LoG", le, l[i]), ("spatial", ge, sp[i])] {
            if !close(e as f32, a, 1e-4) && !((e as f32 - a).abs() <= 1e-3 * e.abs() as f32) { return fail(format!("{} kernel size {} sigma {} entry ({},{})", nm, n, sg, i % n, i / n), &e, &a); }
            cnt += 1;
        }
    }
    let ev = r.u32(0, 6) * 2;
    cnt += must_err(|| format!("generate_gaussian_kernel({})", ev), true, || util::generate_gaussian_kernel(ev, sg))?;
    cnt += must_err(|| format!("generate_log_kernel({})", ev), true, || util::generate_log_kernel(ev, sg))?;
    // small maths
    let v: Vec<f32> = (0..4).map(|_| r.int(-4, 4) as f32).collect();
    let mx = |q: &[f32]| q.iter().cloned().fold(f32::NEG_INFINITY, f32::max);
    let mn = |q: &[f32]| q.iter().cloned().fold(f32::INFINITY, f32::min);
    let dv = || format!("{:?}", v);
    cnt += eq(|| "max_3 ".to_string() + &dv(), &mx(&v[..3]), &util::max_3(v[0], v[1], v[2]))?;
    cnt += eq(|| "min_3 ".to_string() + &dv(), &mn(&v[..3]), &util::min_3(v[0], v[1], v[2]))?;
    cnt += eq(|| "max_4 ".to_string() + &dv(), &mx(&v), &util::max_4(v[0], v[1], v[2], v[3]))?;
    cnt += eq(|| "min_4 ".to_string() + &dv(), &mn(&v), &util::min_4(v[0], v[1], v[2], v[3]))?;
    let m = r.int(1, 5) as usize;
    let mat: Vec<i64> = (0..m * m).map(|_| r.int(-99, 99)).collect();
    let vec: Vec<i64> = (0..m).map(|_| r.int(-99, 99)).collect();
    let e: Vec<i64> = (0..m).map(|i| (0..m).map(|j| mat[i * m + j] * vec[j]).sum()).collect();
    let dm = || format!("vector_mul {:?} * {:?}", mat, vec);
    cnt += eq(dm, &e, &run(dm, || util::vector_mul(&mat, &vec))?)?;
    let mut out = vec![7i64; r.int(0, 6) as usize];
    run(dm, || util::vector_mul_mut(&mat, &vec, &mut out))?;
    cnt += eq(dm, &e, &out)?;
    let wd = r.u32(1, 50); let i = r.u32(0, 5000);
    cnt += eq(|| format!("get_2d_coords({}, {})", i, wd), &(i % wd, i / wd), &util::get_2d_coords(i, wd))?;
    let (x1, y1, x2, y2) = (r.u32(0, 99), r.u32(0, 99), r.u32(0, 99), r.u32(0, 99));
    let e = (((x1 as f64 - x2 as f64).powi(2) + (y1 as f64 - y2 as f64).powi(2)).sqrt()) as f32;
    if !close(e, util::distance(x1, y1, x2, y2), 1e-5) { return fail(format!("distance({},{},{},{})", x1, y1, x2, y2), &e, &util::distance(x1, y1, x2, y2)); }
    let x = r.unit() * 10.0 - 5.0;
    let xs = x as f64;
    let p3 = |v: f64| if v <= 0.0 { 0.0 } else { v * v * v };
    let d = 6.0f64 / 29.0;
    let q = *r.pick(&[2.0f64, 3.0]);
    let sinc = |v: f64| if v == 0.0 { 1.0 } else { (pi * v).sin() / (pi * v) };
    let x01 = (xs + 5.0) / 10.0;
    for (nm, e, a) in [
        ("clamp_zero", if xs <= 0.0 { 0.0 } else { xs }, util::clamp_zero(x)),
        ("cubic_weighting_fn", (p3(xs + 2.0) - 4.0 * p3(xs + 1.0) + 6.0 * p3(xs) - 4.0 * p3(xs - 1.0)) / 6.0, util::cubic_weighting_fn(x)),
        ("sinc_norm", sinc(xs), util::sinc_norm(x)), ("sinc_norm(0)", 1.0, util::sinc_norm(0.0)),
        ("lanczos_kernel", if xs.abs() < q { sinc(xs) * sinc(xs / q) } else { 0.0 }, util::lanczos_kernel(x, q as f32)),
        ("lanczos_kernel at a", 0.0, util::lanczos_kernel(q as f32, q as f32)),
        ("xyz_to_lab_fn", if x01 > d * d * d { x01.cbrt() } else { x01 / (3.0 * d * d) + 4.0 / 29.0 }, util::xyz_to_lab_fn(x01 as f32)),
        ("lab_to_xyz_fn", if x01 > d { x01.powi(3) } else { 3.0 * d * d * (x01 - 4.0 / 29.0) }, util::lab_to_xyz_fn(x01 as f32)),
        ("gaussian_fn", (-(xs * xs) / (2.0 * s * s)).exp() / (2.0 * pi * s * s), util::gaussian_fn(x, sg).unwrap()),
    ] { if !close(e as f32, a, 2e-3) { return fail(format!("{} at x={} (x01={} sigma={} a={})", nm, x, x01, sg, q), &e, &a); } cnt += 1; }
    let _ = it;
    Ok(cnt)
}
#[cfg(not(feature = "parallel"))]
fn ap1(s: &SubImage<f32>, k: &[f32]) -> ImgProcResult<Vec<f32>> { let mut o = vec![1.0; 2]; util::apply_1d_kernel(s, &mut o, k)?; Ok(o) }
#[cfg(not(feature = "parallel"))]
fn ap2(s: &SubImage<f32>, k: &[f32]) -> ImgProcResult<Vec<f32>> { let mut o = vec![1.0; 2]; util::apply_2d_kernel(s, &mut o, k)?; Ok(o) }
#[cfg(feature = "parallel")]
use imgproc_rs::util::{apply_1d_kernel as ap1, apply_2d_kernel as ap2};
fn apply(r: &mut Rng, _it: u64) -> Res {
    let (c, a) = *r.pick(&KINDS);
    let mut cnt = 0;
    for two in [false, true] {
        let (w, h) = if r.bool() { let n = *r.pick(&[1u32, 3, 5]); (n, if two { n } else { 1 }) } else { (r.u32(0, 6), r.u32(0, 6)) };
        let l = (w * h) as usize;
        let px: Vec<Vec<f32>> = (0..l).map(|_| (0..c).map(|_| r.int(-99, 99) as f32).collect()).collect();
        let s = SubImage::new(w, h, c, a, px.iter().map(|p| &p[..]).collect());
        let f = |k: &[f32]| if two { ap2(&s, k) } else { ap1(&s, k) };
        let k = kern(r, l);
        let d = || format!("apply_{}d_kernel {:?} to {}x{} pixels {:?}", if two { 2 } else { 1 }, k, w, h, px);
        if l % 2 == 0 { cnt += must_err(d, true, || f(&k))?; } else {
            let o = run(d, || f(&k))?;
            let e: Vec<f32> = (0..c as usize).map(|ch| (0..l).map(|i| k[i] * px[i][ch]).sum()).collect();
            cnt += eq(d, &e.len(), &o.len())?;
            for i in 0..e.len() { if !close(e[i], o[i], 1e-4) { return fail(d(), &e, &o); } }
        }
        for n in [l + 1, l + 2, (w * w) as usize, (h * h) as usize] {
            if n == l { continue; }
            let bad = kern(r, n);
            cnt += must_err(|| format!("apply_{}d_kernel: kernel of {} for {}x{} pixels", if two { 2 } else { 1 }, n, w, h), true, || f(&bad))?;
        }
    }
    Ok(cnt)
}
/// What proofs/00_spec.rs float_cols_axioms assumes about `powf`, for every radius it speaks of.
fn columns(_r: &mut Rng, _it: u64) -> Res {
    for n in 0..=0x1_0000u32 {
        let p = (n as f32).powf(2.0 / 3.0);
        if !(0.0 <= p && p <= n as f32) { return fail(format!("powf({}, 2/3)", n), &(0.0, n), &p); }
    }
    Ok(0x1_0001)
}
pub fn bilateral(r: &mut Rng, it: u64) -> Res {
    let (w, h) = dims(r, it, 7);
    let (c, a) = (3u8, false);
    let rf = img_u8(r, w, h, c, a);
    let (rg, sp) = (if r.bool() { *r.pick(&[1.0f32, 5.0, 10.0, 100.0, 2.5]) } else { 0.5 + 60.0 * r.unit() }, if r.bool() { *r.pick(&[0.5f32, 1.0, 1.5, 1.25, 0.3, 0.8, 2.0, 0.25, 0.75]) } else { 0.2 + 2.0 * r.unit() });
    let d = || format!("bilateral_filter range={} spatial={} of {}", rg, sp, desc(&rf));
    let o = R::of(&run(d, || filter::bilateral_filter(&rf.img(), rg, sp, Bilateral::Direct))?);
    let mut n = (sp * 4.0 + 1.0) as i64; if n % 2 == 0 { n += 1; }
    let hs = n / 2;
    let l = R::of(&cs::srgb_to_lab_f32(&rf.img(), &White::D65));
    let e = R::build(w, h, c, a, |x, y, k| {
        let v = l.at(x, y, k) as f64; let (mut s, mut t) = (0.0f64, 0.0f64);
        for q in -hs..=hs { for p in -hs..=hs {
            let u = l.cl(x as i64 + p, y as i64 + q, k) as f64;
            let wt = (-((p * p + q * q) as f64) / (2.0 * (sp as f64).powi(2))).exp() * (-(u - v).powi(2) / (2.0 * (rg as f64).powi(2))).exp();
            s += wt * u; t += wt;
        } }
        (s / t) as f32
    });
    let e = R::of(&cs::lab_to_srgb_f32(&e.img(), &White::D65));
    let mut cnt = eq(d, &(w, h, c, a, e.d.len()), &(o.w, o.h, o.c, o.a, o.d.len()))?;
    for i in 0..e.d.len() { if (e.d[i] as i32 - o.d[i] as i32).abs() > 1 { return fail(format!("{} value #{}", d(), i), &e.d[i], &o.d[i]); } cnt += 1; }
    Ok(cnt)
}
fn edges(r: &mut Rng, it: u64) -> Res {
    let (w, h) = dims(r, it, 8);
    let (ec, ea) = if r.int(0, 3) == 0 { (2u8, true) } else { (1, false) };
    let rf = img_f32(r, w, h, ec, ea);
    let im = rf.img();
    let mag = |v: &[f32], q: &[f32]| { let (p, s) = (conv1(&conv1(&rf, v, true), q, false), conv1(&conv1(&rf, q, true), v, false)); R::build(w, h, ec, ea, |x, y, k| if k == 1 { rf.at(x, y, 1) } else { ((p.at(x, y, 0) as f64).powi(2) + (s.at(x, y, 0) as f64).powi(2)).sqrt() as f32 }) };
    let n = r.size(&[1, 3, 5], &[7, 9, 13]);
    let (k, q) = (kern(r, n), kern(r, n));
    let d = || format!("derivative_mask vert={:?} horz={:?} of {}", k, q, desc(&rf));
    let mut cnt = eq_f(d, &mag(&k, &q), &R::of(&run(d, || filter::derivative_mask(&im, &k, &q))?), 1e-3)?;
    let d = || format!("prewitt/sobel/laplacian of {}", desc(&rf));
    cnt += eq_f(|| "prewitt ".to_string() + &d(), &mag(&[1., 1., 1.], &[-1., 0., 1.]), &R::of(&run(d, || filter::prewitt(&im))?), 1e-3)?;
    cnt += eq_f(|| "sobel ".to_string() + &d(), &mag(&[1., 2., 1.], &[-1., 0., 1.]), &R::of(&run(d, || filter::sobel(&im))?), 1e-3)?;
    let wt = r.weight();
    cnt += eq_f(|| format!("sobel_weighted {} {}", wt, d()), &mag(&[1., wt as f32, 1.], &[-1., 0., 1.]), &R::of(&run(d, || filter::sobel_weighted(&im, wt))?), 1e-3)?;
    let lp = R::of(&run(d, || filter::laplacian(&im))?);
    cnt += eq_f(|| "laplacian ".to_string() + &d(), &conv2(&rf, &[0., -1., 0., -1., 4., -1., 0., -1., 0.], 3), &lp, 1e-3)?;
    let sg = 0.5 + r.unit() * 2.0;
    let m = r.size(&[1, 3, 5], &[7, 9, 11]);
    let kk = util::generate_log_kernel(m as u32, sg).unwrap();
    cnt += eq_f(|| format!("laplacian_of_gaussian {} {} {}", m, sg, d()), &conv2(&rf, &kk, m), &R::of(&run(d, || filter::laplacian_of_gaussian(&im, m as u32, sg))?), 1e-3)?;
    let (mn, mx) = (rf.d.iter().cloned().fold(f32::INFINITY, f32::min), rf.d.iter().cloned().fold(f32::NEG_INFINITY, f32::max));
    {
        let d = || format!("normalize_laplacian of {}", desc(&rf));
        let o = R::of(&run(d, || filter::normalize_laplacian(&im))?);
        cnt += eq(d, &(w, h, ec, ea, rf.d.len()), &(o.w, o.h, o.c, o.a, o.d.len()))?;
        for i in 0..rf.d.len() { let e = if mx > mn { (rf.d[i] as f64 - mn as f64) / (mx as f64 - mn as f64) * 255.0 } else { 0.0 }; if (e - o.d[i] as f64).abs() > 0.51 { return fail(format!("{} value #{}", d(), i), &e, &o.d[i]); } cnt += 1; }
    }
    for (c2, a2) in [(3u8, false), (4, true), (2, false)] {
        let g = R::build(2, 2, c2, a2, |_, _, _| 1.0f32).img();
        cnt += must_err(|| format!("derivative_mask of {} channels", c2), true, || filter::derivative_mask(&g, &k, &q))?;
        cnt += must_err(|| format!("normalize_laplacian of {} channels", c2), true, || filter::normalize_laplacian(&g))?;
    }
    Ok(cnt)
}
fn separation(r: &mut Rng, it: u64) -> Res {
    let n = r.size(&[1, 3, 5, 7], &[9, 11, 15, 21]);
    let kind = r.int(0, 7);
    let k: Vec<f32> = match kind {
        0 => util::generate_gaussian_kernel(n as u32, 0.3 + 4.0 * r.unit()).unwrap(),
        1 => util::generate_log_kernel(n as u32, 0.3 + 4.0 * r.unit()).unwrap(),
        2 => kern(r, n * n),
        3 => { let (p, q) = (kern(r, n), kern(r, n)); (0..n * n).map(|i| p[i / n] * q[i % n]).collect() }
        4 => { let p: Vec<f32> = (0..2 * n).map(|_| r.unit() * 8.0 - 4.0).collect(); (0..n * n).map(|i| p[i / n] * p[n + i % n]).collect() }
        // a product of two vectors, but for one entry
        5 => { let (p, q) = (kern(r, n), kern(r, n)); let mut k: Vec<f32> = (0..n * n).map(|i| p[i / n] * q[i % n]).collect(); let i = r.int(0, (n * n) as i64 - 1) as usize; k[i] += *r.pick(&[1.0f32, -0.5, 0.01, -0.001, 7.0, 1e-4]); k }
        6 => vec![r.int(-3, 3) as f32; n * n],
        _ => { let mut k = vec![0.0; n * n]; for _ in 0..r.int(0, 3) { let i = r.int(0, (n * n) as i64 - 1) as usize; k[i] = r.int(-5, 5) as f32; } k }
    };
    let d = || format!("separate_kernel({:?})", k);
    let mut cnt = 1;
    let got = call(d, || util::separate_kernel(&k))?;
    // products of two vectors, rounded at most once per entry
    if got.is_none() && [3, 4, 6].contains(&kind) && k.iter().any(|v| *v != 0.0) { return fail(d(), &"two factors", &"inseparable"); }
    if let Some((v, q)) = got {
        cnt += eq(|| format!("{} factor lengths", d()), &(n, n), &(v.len(), q.len()))?;
        let m = k.iter().fold(0.0f32, |m, v| m.max(v.abs()));
        for i in 0..n * n {
            let p = v[i / n] * q[i % n];
            if !((p - k[i]).abs() <= 4e-6 * m) { return fail(format!("{} gives {:?} x {:?}, entry {}", d(), v, q, i), &k[i], &p); }
            cnt += 1;
        }
    }
    let (w, h) = dims(r, it, 7);
    let (c, a) = *r.pick(&KINDS);
    let rf = img_f32(r, w.min(60), h.min(60), c, a);
    let d = || format!("linear_filter kernel={:?} of {}", k, desc(&rf));
    let o = R::of(&run(d, || filter::linear_filter(&rf.img(), &k))?);
    let e = conv2(&rf, &k, n);
    cnt += eq(d, &(e.w, e.h, e.c, e.a, e.d.len()), &(o.w, o.h, o.c, o.a, o.d.len()))?;
    let tol = 2e-5 * (n * n) as f32 * k.iter().fold(0.0f32, |m, v| m.max(v.abs())) * rf.d.iter().fold(1.0f32, |m, v| m.max(v.abs()));
    for i in 0..e.d.len() { if !((e.d[i] - o.d[i]).abs() <= tol) { return fail(format!("{} at value #{}", d(), i), &e.d[i], &o.d[i]); } cnt += 1; }
    Ok(cnt)
}
pub const SUBS: &[Sub] = &[
    Sub { prop: "C28", name: "separation", quick: 1500, thorough: 20000, run: separation },
    Sub { prop: "C10", name: "threshold", quick: 800, thorough: 10000, run: threshold },
    Sub { prop: "C10", name: "residual", quick: 500, thorough: 6000, run: residual },
    Sub { prop: "C12", name: "linear", quick: 800, thorough: 10000, run: linear },
    Sub { prop: "C12", name: "named", quick: 500, thorough: 6000, run: named },
    Sub { prop: "C12", name: "apply", quick: 500, thorough: 6000, run: apply },
    Sub { prop: "C13", name: "table", quick: 500, thorough: 8000, run: sat },
    Sub { prop: "C14", name: "binary", quick: 1200, thorough: 20000, run: morph },
    Sub { prop: "C14", name: "large", quick: 4, thorough: 60, run: morph_large },
    Sub { prop: "C15", name: "columns", quick: 1, thorough: 1, run: columns },
    Sub { prop: "C16", name: "columns", quick: 1, thorough: 1, run: columns },
    Sub { prop: "C15", name: "median", quick: 1200, thorough: 20000, run: median },
    Sub { prop: "C16", name: "trimmed", quick: 1200, thorough: 20000, run: trimmed },
    Sub { prop: "C20", name: "kernels", quick: 800, thorough: 10000, run: kernels },
    Sub { prop: "C24", name: "bilateral", quick: 600, thorough: 8000, run: bilateral },
    Sub { prop: "C26", name: "edges", quick: 600, thorough: 8000, run: edges },
];
