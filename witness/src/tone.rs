//! C08, C09, C11, C21, C23: tone, SIMD, colour spaces, equalisation
use crate::util::*;
use imgproc_rs::colorspace as cs;
use imgproc_rs::enums::White;
use imgproc_rs::image::*;
use imgproc_rs::{tone, util};

fn sat(v: i32) -> u8 { v.clamp(0, 255) as u8 }
/// shapes around the vector widths
fn vshape(r: &mut Rng, it: u64) -> (u32, u32) {
    if it < 140 { (it as u32 + 1, 1) } else if it < 160 { (r.u32(1, 12), r.u32(1, 12)) } else if it % 20 == 0 { (r.u32(150, 3000), r.u32(1, 2)) } else { (r.u32(1, 150), r.u32(1, 3)) }
}
fn bias(r: &mut Rng) -> i16 { match r.int(0, 7) { 0 => 0, 1 => 255, 2 => -255, 3 => *r.pick(&[1, -1, 127, 128, -127, -128, 254, -254]), _ => r.int(-255, 255) as i16 } }
fn bright(r: &mut Rng, it: u64) -> Res {
    let (w, h) = vshape(r, it);
    let mut n = 0;
    for (c, a) in KINDS_X {
        let rf = img_u8(r, w, h, c, a);
        let b = bias(r);
        let d = || format!("brightness bias={} of {}", b, desc(&rf));
        let nc = rf.nc();
        let e = R::build(w, h, c, a, |x, y, k| if k < nc { sat(rf.at(x, y, k) as i32 + b as i32) } else { rf.at(x, y, k) });
        n += eq_img(d, &e, &R::of(&run(d, || tone::brightness(&rf.img(), b))?))?;
        #[cfg(all(target_arch = "x86_64", feature = "simd"))]
        if is_x86_feature_detected!("avx2") {
            let o = call(d, || unsafe { imgproc_rs::simd::adds_256_u8(&rf.img(), b) })?;
            n += eq_img(|| format!("vectorised {}", d()), &e, &R::of(&o))?;
        }
    }
    Ok(n)
}
fn hsv_ref(p: &[u8]) -> [u8; 3] {
    let (r, g, b) = (p[0] as i32, p[1] as i32, p[2] as i32);
    let mx = r.max(g).max(b); let mn = r.min(g).min(b); let rg = mx - mn;
    let s = if mx == 0 { 0 } else { 255 * rg / mx };
    let mut hue = if rg == 0 { 0 } else if mx == r { 43 * (g - b) / rg } else if mx == g { 85 + 43 * (b - r) / rg } else { 170 + 43 * (r - g) / rg };
    if hue < 0 { hue += 255 }
    [hue as u8, s as u8, mx as u8]
}
fn rgb_ref(p: &[u8]) -> [u8; 3] {
    let (h, s, v) = (p[0] as i32, p[1] as i32, p[2] as i32);
    if s == 0 { return [p[2]; 3]; }
    let sec = h / 43; let f = (h - sec * 43) * 6;
    let pp = v * (255 - s) / 255; let q = v * (255 - s * f / 255) / 255; let t = v * (255 - s * (255 - f) / 255) / 255;
    let o = match sec { 0 => [v, t, pp], 1 => [q, v, pp], 2 => [pp, v, t], 3 => [pp, q, v], 4 => [t, pp, v], _ => [v, pp, q] };
    [o[0] as u8, o[1] as u8, o[2] as u8]
}
fn satur(r: &mut Rng, it: u64) -> Res {
    let (w, h) = vshape(r, it);
    let mut n = 0;
    for (c, a) in [(3u8, false), (4, true)] {
        let rf = img_u8(r, w, h, c, a);
        let b = bias(r);
        let d = || format!("saturation {} of {}", b, desc(&rf));
        let mut e = R { d: vec![], ..rf.clone() };
        for y in 0..h { for x in 0..w {
            let p = rf.px(x, y);
            let mut q = hsv_ref(&p); q[1] = sat(q[1] as i32 + b as i32);
            e.d.extend(rgb_ref(&q)); if a { e.d.push(p[3]); }
        } }
        n += eq_img(d, &e, &R::of(&run(d, || tone::saturation(&rf.img(), b))?))?;
        #[cfg(all(target_arch = "x86_64", feature = "simd"))]
        if is_x86_feature_detected!("avx2") {
            for ch in 0..3u8 {
                let dd = || format!("vectorised add {} to channel {} of {}", b, ch, desc(&rf));
                let o = call(dd, || unsafe { imgproc_rs::simd::adds_n_256_u8(&rf.img(), b, ch) })?;
                n += eq_img(dd, &R::build(w, h, c, a, |x, y, k| if k == ch as usize { sat(rf.at(x, y, k) as i32 + b as i32) } else { rf.at(x, y, k) }), &R::of(&o))?;
            }
        }
    }
    Ok(n)
}
fn gray(r: &mut Rng, it: u64) -> Res {
    let (w, h) = vshape(r, it);
    let mut n = 0;
    for (c, a) in [(3u8, false), (4, true), (1, false), (2, true), (4, false), (5, true)] {
        let rf = img_u8(r, w, h, c, a); let nc = rf.nc();
        let d = || format!("rgb_to_grayscale of {}", desc(&rf));
        let e = R::build(w, h, 1 + a as u8, a, |x, y, k| if k == 0 { let p = rf.px(x, y); (p[..nc].iter().map(|v| *v as u32).sum::<u32>() / nc as u32) as u8 } else { rf.at(x, y, nc) });
        n += eq_img(d, &e, &R::of(&call(d, || cs::rgb_to_grayscale(&rf.img()))?))?;
        let ff = R { w, h, c, a, d: rf.d.iter().map(|v| *v as f32).collect() };
        let e = R::build(w, h, 1 + a as u8, a, |x, y, k| if k == 0 { let p = ff.px(x, y); p[..nc].iter().sum::<f32>() / nc as f32 } else { ff.at(x, y, nc) });
        n += eq_f(|| format!("f32 {}", d()), &e, &R::of(&call(d, || cs::rgb_to_grayscale_f32(&ff.img()))?), 1e-5)?;
    }
    Ok(n)
}
/// the canary allocator (main.rs) reports writes outside an allocation made while running this
fn mem(r: &mut Rng, it: u64) -> Res {
    let (w, h) = vshape(r, it);
    let before = crate::canary_hits();
    for (c, a) in [(3u8, false), (4, true), (1, false), (2, true)] {
        let rf = img_u8(r, w, h, c, a);
        let im = rf.img();
        let b = bias(r);
        let _ = run(|| desc(&rf), || tone::brightness(&im, b))?;
        if c >= 3 {
            let _ = run(|| desc(&rf), || tone::saturation(&im, b))?;
            let _ = call(|| desc(&rf), || cs::rgb_to_grayscale(&im))?;
        }
        drop(im);
        if crate::canary_hits() != before { return fail(format!("brightness/saturation/grayscale of a {}x{}x{} image", w, h, c), &"no write outside the allocated buffers", &"heap canary after a buffer overwritten"); }
    }
    Ok(4)
}
fn tones(r: &mut Rng, it: u64) -> Res {
    let (w, h) = dims(r, it, 9);
    let (c, a) = *r.pick(&KINDS);
    // half of the runs use an image holding all 256 values in every colour channel
    let full = it % 4 == 0;
    let (w, h) = if full { (64, 4) } else { (w, h) };
    let rf = if full { R::build(w, h, c, a, |x, y, k| ((x + 64 * y) as u8).wrapping_add(k as u8 * 37)) } else { img_u8(r, w, h, c, a) };
    let im = rf.img();
    let nc = rf.nc();
    let map = |f: &dyn Fn(u8) -> u8| R::build(w, h, c, a, |x, y, k| if k < nc { f(rf.at(x, y, k)) } else { rf.at(x, y, k) });
    let b = bias(r);
    let d = || format!("brightness {} of {}", b, desc(&rf));
    let mut n = eq_img(d, &map(&|v| sat(v as i32 + b as i32)), &R::of(&run(d, || tone::brightness(&im, b))?))?;
    let g = if r.bool() { *r.pick(&[0.0f32, 1.0, 0.5, 0.25, 0.7, 0.33, 0.99]) } else { r.unit() };
    let d = || format!("contrast {} of {}", g, desc(&rf));
    n += eq_img(d, &map(&|v| (v as f32 * g).round().clamp(0.0, 255.0) as u8), &R::of(&run(d, || tone::contrast(&im, g))?))?;
    let gm = if r.bool() { *r.pick(&[0.0f32, 1.0, 0.5, 2.0, 2.2, 0.4545]) } else { 4.0 * r.unit() };
    let mx = if r.bool() { *r.pick(&[255u8, 255, 128, 200, 1]) } else { r.int(1, 255) as u8 };
    let d = || format!("gamma {} max {} of {}", gm, mx, desc(&rf));
    n += eq_img(d, &map(&|v| ((v as f32 / mx as f32).powf(gm) * mx as f32).round() as u8), &R::of(&run(d, || tone::gamma(&im, gm, mx))?))?;
    let mut t = [0i32; 256]; let add = r.int(-9, 9) as i32;
    call(|| "generate_lookup_table".into(), || util::generate_lookup_table(&mut t, |i| i as i32 * 3 + add))?;
    for i in 0..256 { n += eq(|| format!("lookup table entry {}", i), &(i as i32 * 3 + add), &t[i])?; }
    // LAB variants: same result as changing only L* between the two conversions
    if nc == 3 {
        let lab = |f: &dyn Fn(f32) -> f32| { let l = R::of(&cs::srgb_to_lab_f32(&im, &White::D50)); let e = R::build(w, h, c, a, |x, y, k| if k == 0 { f(l.at(x, y, 0)) } else { l.at(x, y, k) }); R::of(&cs::lab_to_srgb_f32(&e.img(), &White::D50)) };
        let d = || format!("brightness_lab {} of {}", b, desc(&rf));
        n += eq_img(d, &lab(&|v| v + b as f32 / 255.0 * 100.0), &R::of(&run(d, || tone::brightness_lab(&im, b))?))?;
        let d = || format!("contrast_lab {} of {}", g, desc(&rf));
        n += eq_img(d, &lab(&|v| v * g), &R::of(&run(d, || tone::contrast_lab(&im, g))?))?;
    }
    Ok(n)
}
fn hsv(r: &mut Rng, it: u64) -> Res {
    let (w, h) = if it < 256 { (256, 3) } else { dims(r, it - 256 + 25, 9) };
    let (c, a) = *r.pick(&[(3u8, false), (4, true)]);
    let x0 = it as u8;
    let fixed = r.byte();
    let rf = if it < 256 {
        // red (hue) = it, green = x, blue from a structured set: covers every (r,g), (h,s) pair
        R::build(w, h, c, a, |x, y, k| match k { 0 => x0, 1 => x as u8, 2 => match y { 0 => 255u8, 1 => x0 ^ x as u8, _ => fixed }, _ => (x * 5) as u8 })
    } else { img_u8(r, w, h, c, a) };
    let im = rf.img();
    let conv = |f: &dyn Fn(&[u8]) -> [u8; 3]| { let mut e = R { d: vec![], ..rf.clone() }; for y in 0..h { for x in 0..w { let p = rf.px(x, y); e.d.extend(f(&p)); if a { e.d.push(p[3]); } } } e };
    let d = || format!("rgb_to_hsv of {}", desc(&rf));
    let o = R::of(&call(d, || cs::rgb_to_hsv(&im))?);
    let mut n = eq_img(d, &conv(&hsv_ref), &o)?;
    let d = || format!("hsv_to_rgb of {}", desc(&rf));
    n += eq_img(d, &conv(&rgb_ref), &R::of(&call(d, || cs::hsv_to_rgb(&im))?))?;
    // f32 variants: independent f64 computation, tolerance 1e-4 (1 level for u8 output)
    let d = || format!("rgb_to_hsv_f32 of {}", desc(&rf));
    let o = R::of(&call(d, || cs::rgb_to_hsv_f32(&im))?);
    let mut e = R { w, h, c, a, d: vec![] };
    for y in 0..h { for x in 0..w {
        let p = rf.px(x, y); let q: Vec<f64> = p.iter().map(|v| *v as f64 / 255.0).collect();
        let mx = q[0].max(q[1]).max(q[2]); let mn = q[0].min(q[1]).min(q[2]); let rg = mx - mn;
        let mut hu = if rg == 0.0 { 0.0 } else if mx == q[0] { (q[1] - q[2]) / rg } else if mx == q[1] { (q[2] - q[0]) / rg + 2.0 } else { (q[0] - q[1]) / rg + 4.0 } / 6.0;
        if hu < 0.0 { hu += 1.0 }
        e.d.extend([hu as f32, if mx == 0.0 { 0.0 } else { (rg / mx) as f32 }, mx as f32]); if a { e.d.push(q[3] as f32); }
    } }
    n += eq_f(d, &e, &o, 1e-4)?;
    let d = || format!("hsv_to_rgb_f32(rgb_to_hsv_f32({}))", desc(&rf));
    let back = R::of(&call(d, || cs::hsv_to_rgb_f32(&o.img()))?);
    n += eq(d, &(w, h, c, a), &(back.w, back.h, back.c, back.a))?;
    for i in 0..rf.d.len() { if (rf.d[i] as i32 - back.d[i] as i32).abs() > 2 { return fail(format!("{} at value #{}", d(), i), &rf.d[i], &back.d[i]); } }
    // f32 -> rgb sextants (interior points)
    let sx = r.int(0, 5) as usize; let f = 0.1 + 0.8 * r.unit(); let s = 0.1 + 0.9 * r.unit(); let v = 0.1 + 0.9 * r.unit();
    let hs = R { w: 1, h: 1, c: 3, a: false, d: vec![(sx as f32 + f) / 6.0, s, v] };
    let o = R::of(&call(|| desc(&hs), || cs::hsv_to_rgb_f32(&hs.img()))?);
    let (p, q, t) = (v * (1.0 - s), v * (1.0 - s * f), v * (1.0 - s * (1.0 - f)));
    let e = match sx { 0 => [v, t, p], 1 => [q, v, p], 2 => [p, v, t], 3 => [p, q, v], 4 => [t, p, v], _ => [v, p, q] };
    for k in 0..3 { let q = e[k] * 255.0 - o.d[k] as f32; if !(q > -0.01 && q < 1.01) { return fail(format!("hsv_to_rgb_f32 of {}", desc(&hs)), &e.map(|z| z * 255.0), &o.d); } }
    Ok(n)
}
const M: [f64; 9] = [0.4124564, 0.3575761, 0.1804375, 0.2126729, 0.7151522, 0.0721750, 0.0193339, 0.1191920, 0.9503041];
const MI: [f64; 9] = [3.2404542, -1.5371385, -0.4985314, -0.9692660, 1.8760108, 0.0415560, 0.0556434, -0.2040259, 1.0572252];
fn lin(v: f64) -> f64 { if v <= 10.0 { v / 3294.0 } else { ((v + 14.025) / 269.025).powf(2.2) } }
fn unlin(v: f64) -> f64 { if v <= 0.0031308 { v * 3294.6 } else { 269.025 * v.powf(1.0 / 2.2) - 14.025 } }
fn mul(m: &[f64; 9], p: &[f64]) -> [f64; 3] { [m[0] * p[0] + m[1] * p[1] + m[2] * p[2], m[3] * p[0] + m[4] * p[1] + m[5] * p[2], m[6] * p[0] + m[7] * p[1] + m[8] * p[2]] }
fn white(r: &mut Rng) -> (White, [f64; 3]) { if r.bool() { (White::D50, [96.4212, 100.0, 82.5188]) } else { (White::D65, [95.0489, 100.0, 108.8840]) } }
fn lab_of(p: &[f64], wn: &[f64; 3]) -> [f64; 3] {
    let d: f64 = 6.0 / 29.0;
    let f = |v: f64| if v > d * d * d { v.cbrt() } else { v / (3.0 * d * d) + 4.0 / 29.0 };
    let q = [f(p[0] * 100.0 / wn[0]), f(p[1] * 100.0 / wn[1]), f(p[2] * 100.0 / wn[2])];
    [116.0 * q[1] - 16.0, 500.0 * (q[0] - q[1]), 200.0 * (q[1] - q[2])]
}
fn xyz_of(p: &[f64], wn: &[f64; 3]) -> [f64; 3] {
    let d: f64 = 6.0 / 29.0;
    let f = |v: f64| if v > d { v * v * v } else { 3.0 * d * d * (v - 4.0 / 29.0) };
    let n = (p[0] + 16.0) / 116.0;
    [wn[0] * f(n + p[1] / 500.0) / 100.0, wn[1] * f(n) / 100.0, wn[2] * f(n - p[2] / 200.0) / 100.0]
}
fn cie(r: &mut Rng, it: u64) -> Res {
    let (w, h) = dims(r, it, 9);
    let (c, a) = *r.pick(&[(3u8, false), (4, true)]);
    let rf = img_u8(r, w, h, c, a);
    let im = rf.img();
    let each = |s: &R<f32>, f: &dyn Fn(&[f64]) -> [f64; 3]| { let mut e = R { d: vec![], ..s.clone() }; for y in 0..h { for x in 0..w { let p: Vec<f64> = s.px(x, y).iter().map(|v| *v as f64).collect(); e.d.extend(f(&p).iter().map(|v| *v as f32)); if a { e.d.push(p[3] as f32); } } } e };
    let lv = call(|| desc(&rf), || cs::linearize_srgb_f32(&im))?;
    let l = R::of(&lv);
    let nc = rf.nc();
    let e = R::build(w, h, c, a, |x, y, k| if k < nc { lin(rf.at(x, y, k) as f64) as f32 } else { rf.at(x, y, k) as f32 });
    let mut n = eq_f(|| format!("linearize {}", desc(&rf)), &e, &l, 1e-4)?;
    let xyz = R::of(&call(|| desc(&l), || cs::srgb_lin_to_xyz_f32(&lv))?);
    n += eq_f(|| format!("srgb_lin_to_xyz {}", desc(&l)), &each(&l, &|p| mul(&M, p)), &xyz, 1e-4)?;
    n += eq_f(|| format!("srgb_to_xyz {}", desc(&rf)), &xyz, &R::of(&call(|| desc(&rf), || cs::srgb_to_xyz_f32(&im))?), 1e-6)?;
    let (wh, wn) = white(r);
    let wd = if wn[2] < 100.0 { "D50" } else { "D65" };
    let lab = R::of(&call(|| desc(&xyz), || cs::xyz_to_lab_f32(&xyz.img(), &wh))?);
    n += eq_f(|| format!("xyz_to_lab {} {}", wd, desc(&xyz)), &each(&xyz, &|p| lab_of(p, &wn)), &lab, 1e-3)?;
    n += eq_f(|| format!("srgb_to_lab {} {}", wd, desc(&rf)), &lab, &R::of(&call(|| desc(&rf), || cs::srgb_to_lab_f32(&im, &wh))?), 1e-6)?;
    let x2 = R::of(&call(|| desc(&lab), || cs::lab_to_xyz_f32(&lab.img(), &wh))?);
    n += eq_f(|| format!("lab_to_xyz {} {}", wd, desc(&lab)), &each(&lab, &|p| xyz_of(p, &wn)), &x2, 1e-3)?;
    let l2 = R::of(&call(|| desc(&x2), || cs::xyz_to_srgb_lin_f32(&x2.img()))?);
    n += eq_f(|| format!("xyz_to_srgb_lin {}", desc(&x2)), &each(&x2, &|p| mul(&MI, p)), &l2, 1e-3)?;
    // unlinearise on a grid of values in [0,1] with margins to the truncation points
    let g = R::build(w, h, c, a, |_, _, k| if k < nc { r.unit() } else { r.int(0, 1020) as f32 / 4.0 });
    let u = R::of(&call(|| desc(&g), || cs::unlinearize_srgb_f32(&g.img()))?);
    n += eq(|| desc(&g), &(w, h, c, a, g.d.len()), &(u.w, u.h, u.c, u.a, u.d.len()))?;
    for i in 0..g.d.len() {
        let isa = a && i % c as usize == nc;
        let e = if isa { (g.d[i] as f64).round() } else { unlin(g.d[i] as f64).clamp(0.0, 255.0) };
        let got = u.d[i] as f64;
        let okv = if isa { got == e } else { got <= e + 0.01 && got > e - 1.01 };
        if !okv { return fail(format!("unlinearize of {} (value #{}, alpha {})", g.d[i], i, isa), &e, &got); }
        n += 1;
    }
    // composites equal their stages
    let s = R::of(&call(|| desc(&x2), || cs::xyz_to_srgb_f32(&x2.img()))?);
    n += eq_img(|| format!("xyz_to_srgb {}", desc(&x2)), &R::of(&cs::unlinearize_srgb_f32(&l2.img())), &s)?;
    n += eq_img(|| format!("lab_to_srgb {}", desc(&lab)), &s, &R::of(&call(|| desc(&lab), || cs::lab_to_srgb_f32(&lab.img(), &wh))?))?;
    for i in 0..rf.d.len() { if (rf.d[i] as i32 - s.d[i] as i32).abs() > 2 { return fail(format!("sRGB -> LAB -> sRGB ({}) of {} value #{}", wd, desc(&rf), i), &rf.d[i], &s.d[i]); } }
    Ok(n)
}
fn hist(r: &mut Rng, it: u64) -> Res {
    let (w, h) = dims(r, it, 12);
    let (c, a) = *r.pick(&[(3u8, false), (4, true), (1, false)]);
    let levels = r.int(1, 12);
    let rf = R::build(w, h, c, a, |_, _, _| r.int(0, levels) as f32 * 100.0 / levels as f32);
    let prec = if r.bool() { *r.pick(&[1.0f32, 255.0, 0.1, 10.0]) } else { 0.05 + 300.0 * r.unit() };
    let d = || format!("percentiles precision={} of {}", prec, desc(&rf));
    let mut t = std::collections::HashMap::new();
    call(d, || util::generate_histogram_percentiles(&rf.img(), &mut t, prec))?;
    let keys: Vec<i32> = (0..(w * h)).map(|i| (rf.d[i as usize * c as usize] * prec).round() as i32).collect();
    let mut uniq = keys.clone(); uniq.sort(); uniq.dedup();
    let mut got: Vec<i32> = t.keys().cloned().collect(); got.sort();
    let mut n = eq(|| format!("{} keys", d()), &uniq, &got)?;
    let cdf = |k: i32| keys.iter().filter(|q| **q <= k).count() as f32 / keys.len() as f32;
    for k in &uniq {
        if !close(cdf(*k), t[k], 1e-6) { return fail(format!("{} percentile of key {}", d(), k), &cdf(*k), &t[k]); }
        n += 1;
    }
    // equalisation
    let (c, a) = *r.pick(&[(3u8, false), (4, true)]);
    let s = img_u8(r, w, h, c, a);
    let al = if r.bool() { *r.pick(&[0.0f32, 1.0, 0.5, 0.3]) } else { r.unit() };
    let (wh, _) = white(r);
    let d = || format!("histogram_equalization alpha={} precision={} of {}", al, prec, desc(&s));
    let o = R::of(&run(d, || tone::histogram_equalization(&s.img(), al, &wh, prec))?);
    let l = R::of(&cs::srgb_to_lab_f32(&s.img(), &wh));
    let keys: Vec<i32> = (0..(w * h)).map(|i| (l.d[i as usize * c as usize] * prec).round() as i32).collect();
    let cdf = |k: i32| keys.iter().filter(|q| **q <= k).count() as f32 / keys.len() as f32;
    let e = R::build(w, h, c, a, |x, y, k| if k == 0 { let v = l.at(x, y, 0); al * cdf((v * prec).round() as i32) * 100.0 + (1.0 - al) * v } else { l.at(x, y, k) });
    let e = R::of(&cs::lab_to_srgb_f32(&e.img(), &wh));
    n += eq_img(d, &e, &o)?;
    Ok(n)
}
pub const SUBS: &[Sub] = &[
    Sub { prop: "C08", name: "brightness", quick: 400, thorough: 6000, run: bright },
    Sub { prop: "C08", name: "saturation", quick: 400, thorough: 6000, run: satur },
    Sub { prop: "C08", name: "grayscale", quick: 400, thorough: 6000, run: gray },
    Sub { prop: "C08", name: "memory", quick: 300, thorough: 3000, run: mem },
    Sub { prop: "C09", name: "tones", quick: 300, thorough: 4000, run: tones },
    Sub { prop: "C11", name: "hsv", quick: 500, thorough: 6000, run: hsv },
    Sub { prop: "C21", name: "cie", quick: 400, thorough: 6000, run: cie },
    Sub { prop: "C23", name: "equalisation", quick: 400, thorough: 6000, run: hist },
];
