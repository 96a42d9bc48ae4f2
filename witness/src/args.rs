//! C17: an operation fails exactly when a documented condition on its arguments is violated
use crate::util::*;
use imgproc_rs::enums::*;
use imgproc_rs::image::*;
use imgproc_rs::{filter, morphology as mo, tone, transform, util};

fn f(r: &mut Rng) -> f32 {
    *r.pick(&[0.0f32, -0.0, 1.0, 0.5, -0.5, -1.0, 2.0, 1.0000001, 0.99999994, -1e-45, 1e-45, f32::MAX, f32::MIN, f32::INFINITY, f32::NEG_INFINITY, f32::MIN_POSITIVE, -f32::MIN_POSITIVE, 255.0, -255.0])
}
fn small(r: &mut Rng) -> f32 { *r.pick(&[0.0f32, -0.0, 1.0, 0.5, -0.5, 2.0, -1e-45, 1e-45, -1.0, f32::NEG_INFINITY, f32::MIN, 0.01]) }
fn kv(r: &mut Rng, n: usize) -> Vec<f32> { (0..n).map(|_| r.int(-3, 5) as f32).collect() }

fn scalars(r: &mut Rng, it: u64) -> Res {
    let (w, h) = dims(r, it, 5);
    let (c, a) = *r.pick(&[(3u8, false), (4, true)]);
    let im = img_u8(r, w, h, c, a).img();
    let b = match r.int(0, 5) { 0 => i16::MIN, 1 => i16::MAX, 2 => *r.pick(&[255, -255, 256, -256, 254, -254, 0]), 3 => r.int(-32768, 32767) as i16, _ => r.int(-300, 300) as i16 };
    let bad = !(-255..=255).contains(&(b as i32));
    let mut n = must_err(|| format!("brightness(bias={})", b), bad, || tone::brightness(&im, b))?;
    n += must_err(|| format!("brightness_lab(bias={})", b), bad, || tone::brightness_lab(&im, b))?;
    n += must_err(|| format!("saturation({})", b), bad, || tone::saturation(&im, b))?;
    let g = f(r);
    let unit = g >= 0.0 && g <= 1.0;
    n += must_err(|| format!("contrast(gain={:?})", g), !unit, || tone::contrast(&im, g))?;
    n += must_err(|| format!("contrast_lab(gain={:?})", g), !unit, || tone::contrast_lab(&im, g))?;
    n += must_err(|| format!("gamma(gamma={:?})", g), g < 0.0, || tone::gamma(&im, g, 255))?;
    let p = f(r);
    n += must_err(|| format!("histogram_equalization(alpha={:?}, precision={:?})", g, p), !unit || p < 0.0, || tone::histogram_equalization(&im, g, &White::D50, p))?;
    n += must_err(|| format!("gaussian_fn(1, {:?})", g), g < 0.0, || util::gaussian_fn(1.0, g))?;
    let (rg, sp) = (small(r), small(r));
    n += must_err(|| format!("bilateral_filter(range={:?}, spatial={:?})", rg, sp), rg < 0.0 || sp < 0.0, || filter::bilateral_filter(&im, rg, sp, Bilateral::Direct))?;
    let fi = img_f32(r, w, h, c, a);
    let fr = img_f32(r, 2, 2, c, a).img();
    let back = fi.img();
    n += must_err(|| format!("superimpose(alpha={:?})", g), !unit, || transform::superimpose(&back, &fr, 0, 0, g))?;
    let (fx, fy) = (small(r), small(r));
    for m in 0..5 {
        n += must_err(|| format!("scale(x_factor={:?}, y_factor={:?}, method {}) of {}x{}", fx, fy, m, w, h), fx < 0.0 || fy < 0.0, || match m {
            0 => transform::scale(&back, fx, fy, Scale::NearestNeighbor), 1 => transform::scale(&back, fx, fy, Scale::Bilinear),
            2 => transform::scale(&back, fx, fy, Scale::Bicubic), 3 => transform::scale(&back, fx, fy, Scale::Lanczos),
            _ => transform::scale_lanczos(&back, fx, fy, 2) })?;
    }
    n += eq_img(|| "input after a call".into(), &fi, &R::of(&back))?;
    Ok(n)
}
fn shapes(r: &mut Rng, it: u64) -> Res {
    let (w, h) = dims(r, it, 5);
    let (c, a) = *r.pick(&KINDS_X);
    let (c2, a2) = *r.pick(&KINDS_X);
    let gray = (a && c == 2) || (!a && c == 1);
    let f1 = img_f32(r, w, h, c, a);
    let (w2, h2) = if r.bool() { (w, h) } else { (r.u32(1, 5), r.u32(1, 5)) };
    let f2 = img_f32(r, w2, h2, c2, a2);
    let (i1, i2) = (f1.img(), f2.img());
    let d = || format!("{}x{}x{} alpha={} with {}x{}x{} alpha={}", w, h, c, a, w2, h2, c2, a2);
    let mut n = must_err(|| format!("overlay {}", d()), c != c2, || transform::overlay(&i1, &i2, 0, 0))?;
    n += must_err(|| format!("superimpose {}", d()), c != c2, || transform::superimpose(&i1, &i2, 0, 0, 0.5))?;
    n += must_err(|| format!("residual {}", d()), (w, h, c, a) != (w2, h2, c2, a2), || filter::residual(&i1, &i2))?;
    let dg = || format!("{} channels alpha={}", c, a);
    n += must_err(|| format!("threshold {}", dg()), !gray, || filter::threshold(&i1, 1.0, 2.0, if it % 2 == 0 { Thresh::Binary } else { Thresh::Trunc }))?;
    let b = R::build(w, h, c, a, |_, _, _| if r.bool() { 255u8 } else { 0 }).img();
    let rad = r.u32(0, 4);
    n += must_err(|| format!("erode {}", dg()), !gray, || mo::erode(&b, rad))?;
    n += must_err(|| format!("dilate {}", dg()), !gray, || mo::dilate(&b, rad))?;
    n += must_err(|| format!("majority {}", dg()), !gray, || mo::majority(&b, rad))?;
    n += must_err(|| format!("open {}", dg()), !gray, || mo::open(&b, rad))?;
    n += must_err(|| format!("close {}", dg()), !gray, || mo::close(&b, rad))?;
    n += must_err(|| format!("gradient {}", dg()), !gray, || mo::gradient(&b, rad))?;
    n += must_err(|| format!("derivative_mask {}", dg()), !gray, || filter::derivative_mask(&i1, &[1., 2., 1.], &[1., 0., -1.]))?;
    n += must_err(|| format!("prewitt {}", dg()), !gray, || filter::prewitt(&i1))?;
    n += must_err(|| format!("sobel {}", dg()), !gray, || filter::sobel(&i1))?;
    n += must_err(|| format!("sobel_weighted {}", dg()), !gray, || filter::sobel_weighted(&i1, 3))?;
    n += must_err(|| format!("normalize_laplacian {}", dg()), !gray, || filter::normalize_laplacian(&i1))?;
    // crop (also with extreme values)
    let e = |r: &mut Rng, m: u32| match r.int(0, 5) { 0 => u32::MAX, 1 => u32::MAX - r.u32(0, 4), _ => r.u32(0, m + 1) };
    let (x, y, cw, ch) = (e(r, w), e(r, h), e(r, w), e(r, h));
    let inside = x as u64 + cw as u64 <= w as u64 && y as u64 + ch as u64 <= h as u64;
    n += must_err(|| format!("crop({}, {}, {}, {}) of {}x{}", x, y, cw, ch, w, h), !inside, || transform::crop(&i1, x, y, cw, ch))?;
    n += eq_img(|| "input after a call".into(), &f1, &R::of(&i1))?;
    Ok(n)
}
fn kernels(r: &mut Rng, it: u64) -> Res {
    let (w, h) = dims(r, it, 5);
    let (c, a) = *r.pick(&KINDS);
    let fi = img_f32(r, w, h, c, a);
    let im = fi.img();
    let l1 = r.int(0, 12) as usize;
    let l2 = if r.bool() { l1 } else { r.int(0, 12) as usize };
    let (k1, k2) = (kv(r, l1), kv(r, l2));
    let v = r.bool();
    let odd = |l: usize| l % 2 == 1;
    let mut n = must_err(|| format!("filter_1d(kernel of {})", l1), !odd(l1), || filter::filter_1d(&im, &k1, v))?;
    n += must_err(|| format!("separable_filter(kernels of {} and {})", l1, l2), !odd(l1) || !odd(l2) || l1 != l2, || filter::separable_filter(&im, &k1, &k2))?;
    let l = r.int(0, 30) as usize;
    let l = if r.bool() { *r.pick(&[0, 1, 4, 9, 16, 25, 36, 49]) } else { l };
    let k = kv(r, l);
    let s = (0..=8).any(|q: usize| q * q == l);
    n += must_err(|| format!("unseparable_filter(kernel of {})", l), !odd(l) || !s, || filter::unseparable_filter(&im, &k))?;
    if !odd(l) || !s { n += must_err(|| format!("linear_filter(kernel of {})", l), true, || filter::linear_filter(&im, &k))?; }
    let size = r.u32(0, 8);
    n += must_err(|| format!("box_filter({})", size), size % 2 == 0, || filter::box_filter(&im, size))?;
    let wt = r.u32(1, 9);
    n += must_err(|| format!("weighted_avg_filter({}, {})", size, wt), size % 2 == 0, || filter::weighted_avg_filter(&im, size, wt))?;
    n += must_err(|| format!("gaussian_blur({})", size), size % 2 == 0, || filter::gaussian_blur(&im, size, 1.5))?;
    n += must_err(|| format!("laplacian_of_gaussian({})", size), size % 2 == 0, || filter::laplacian_of_gaussian(&im, size, 1.5))?;
    let ev = *r.pick(&[0u32, 2, 1 << 31, u32::MAX - 1, 65536, 4]);
    n += must_err(|| format!("generate_gaussian_kernel({})", ev), true, || util::generate_gaussian_kernel(ev, 1.0))?;
    n += must_err(|| format!("generate_log_kernel({})", ev), true, || util::generate_log_kernel(ev, 1.0))?;
    n += must_err(|| format!("box_filter({})", ev), true, || filter::box_filter(&im, ev))?;
    n += must_err(|| format!("weighted_avg_filter({}, 1)", ev), true, || filter::weighted_avg_filter(&im, ev, 1))?;
    let b = img_u8(r, w, h, c, a).img();
    let rad = r.u32(0, 3);
    let sz = (2 * rad + 1) * (2 * rad + 1);
    let al = match r.int(0, 6) { 0 => u32::MAX, 1 => u32::MAX - 1, 2 => sz, 3 => sz - 1, 4 => sz + 1, _ => r.u32(0, sz + 3) };
    n += must_err(|| format!("alpha_trimmed_mean_filter(radius={}, alpha={})", rad, al), al % 2 == 1 || al >= sz, || filter::alpha_trimmed_mean_filter(&b, rad, al))?;
    let big = *r.pick(&[32767u32, 32768, 40000, 65535, 65536, 1 << 31, u32::MAX]);
    let odd_al = r.u32(0, 1000) * 2 + 1;
    n += must_err(|| format!("alpha_trimmed_mean_filter(radius={}, alpha={})", big, odd_al), true, || filter::alpha_trimmed_mean_filter(&b, big, odd_al))?;
    n += eq_img(|| "input after a call".into(), &fi, &R::of(&im))?;
    let (ml, vl) = (r.int(0, 20) as usize, r.int(0, 5) as usize);
    let (m, vv) = (vec![1i64; ml], vec![2i64; vl]);
    n += must_err(|| format!("vector_mul({} values, {} values)", ml, vl), ml != vl * vl, || util::vector_mul(&m, &vv))?;
    n += must_err(|| format!("vector_mul_mut({} values, {} values)", ml, vl), ml != vl * vl, || { let mut o = vec![]; util::vector_mul_mut(&m, &vv, &mut o) })?;
    Ok(n)
}
pub const SUBS: &[Sub] = &[
    Sub { prop: "C17", name: "scalars", quick: 4000, thorough: 40000, run: scalars },
    Sub { prop: "C17", name: "shapes", quick: 4000, thorough: 40000, run: shapes },
    Sub { prop: "C17", name: "kernels", quick: 4000, thorough: 40000, run: kernels },
];
