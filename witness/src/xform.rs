//! C05-C07, C25: geometric transformations
use crate::util::*;
use imgproc_rs::enums::{Refl, Scale};
use imgproc_rs::image::*;
use imgproc_rs::transform;


pub fn crop(r: &mut Rng, it: u64) -> Res {
    let (w, h) = dims(r, it, 9);
    let (c, a) = *r.pick(&KINDS_X);
    let rf = img_i32(r, w, h, c, a, 1);
    let (x, y, cw, ch) = (r.u32(0, w + 1), r.u32(0, h + 1), r.u32(0, w + 1), r.u32(0, h + 1));
    let (x, cw) = match r.int(0, 15) { 0 => (u32::MAX - r.u32(0, 3), cw), 1 => (x, u32::MAX - r.u32(0, 3)), 2 => (u32::MAX - 1, 5), _ => (x, cw) };
    let (y, ch) = match r.int(0, 15) { 0 => (u32::MAX - r.u32(0, 3), ch), 1 => (y, u32::MAX - r.u32(0, 3)), _ => (y, ch) };
    let d = || format!("crop({}, {}, {}, {}) of {}", x, y, cw, ch, desc(&rf));
    let inside = x as u64 + cw as u64 <= w as u64 && y as u64 + ch as u64 <= h as u64;
    let o = call(d, || transform::crop(&rf.img(), x, y, cw, ch))?;
    match o {
        Err(e) => if inside { fail(d(), &"Ok", &format!("{:?}", e)) } else { Ok(1) },
        Ok(o) => if !inside { fail(d(), &"Err(InvalidArg)", &R::of(&o)) } else { eq_img(d, &R::build(cw, ch, c, a, |i, j, k| rf.at(x + i, y + j, k)), &R::of(&o)) }
    }
}
fn translate(r: &mut Rng, it: u64) -> Res {
    let (w, h) = dims(r, it, 9);
    let (c, a) = *r.pick(&KINDS_X);
    let rf = img_i32(r, w, h, c, a, 1);
    let (x, y) = far(r, w, h);
    let d = || format!("translate({}, {}) of {}", x, y, desc(&rf));
    let o = run(d, || transform::translate(&rf.img(), x, y))?;
    eq_img(d, &R::build(w, h, c, a, |i, j, k| if i >= x && j >= y { rf.at(i - x, j - y, k) } else { 0 }), &R::of(&o))
}
fn reflect(r: &mut Rng, it: u64) -> Res {
    let (w, h) = dims(r, it, 9);
    let (c, a) = *r.pick(&KINDS_X);
    let rf = img_i32(r, w, h, c, a, 1);
    let d = || format!("reflect of {}", desc(&rf));
    let v = run(d, || transform::reflect(&rf.img(), Refl::Vertical))?;
    let o = run(d, || transform::reflect(&rf.img(), Refl::Horizontal))?;
    Ok(eq_img(|| format!("vertical {}", d()), &R::build(w, h, c, a, |i, j, k| rf.at(w - 1 - i, j, k)), &R::of(&v))?
        + eq_img(|| format!("horizontal {}", d()), &R::build(w, h, c, a, |i, j, k| rf.at(i, h - 1 - j, k)), &R::of(&o))?)
}
fn far(r: &mut Rng, w: u32, h: u32) -> (u32, u32) { let e = |r: &mut Rng, m: u32| if r.int(0, 15) == 0 { u32::MAX - r.u32(0, 5) } else { r.u32(0, m + 2) }; (e(r, w), e(r, h)) }
fn overlay(r: &mut Rng, it: u64) -> Res {
    let (w, h) = dims(r, it, 9);
    let (fw, fh) = (r.u32(1, 9), r.u32(1, 9));
    let (c, a) = *r.pick(&KINDS_X);
    let (b, f) = (img_i32(r, w, h, c, a, 1), img_i32(r, fw, fh, c, a, -9_000_000));
    let (x, y) = far(r, w, h);
    let d = || format!("overlay of {} at ({},{}) on {}", desc(&f), x, y, desc(&b));
    let o = run(d, || transform::overlay(&b.img(), &f.img(), x, y))?;
    let mut n = eq_img(d, &R::build(w, h, c, a, |i, j, k| if i >= x && j >= y && i - x < fw && j - y < fh { f.at(i - x, j - y, k) } else { b.at(i, j, k) }), &R::of(&o))?;
    let (c2, a2) = *r.pick(&KINDS_X);
    if c2 != c { n += must_err(|| format!("overlay channels {} on {}", c2, c), true, || transform::overlay(&b.img(), &R::build(fw, fh, c2, a2, |x, y, k| (x + y + k as u32) as i32).img(), x, y))?; }
    Ok(n)
}
fn superimpose(r: &mut Rng, it: u64) -> Res {
    let (w, h) = dims(r, it, 9);
    let (fw, fh) = (r.u32(1, 9), r.u32(1, 9));
    let (c, a) = *r.pick(&KINDS_X);
    let (b, f) = (img_f32(r, w, h, c, a), img_f32(r, fw, fh, c, a));
    let (x, y) = far(r, w, h);
    let al = *r.pick(&[0.0f32, 1.0, 0.5, 0.25, 0.3]);
    let d = || format!("superimpose alpha={} of {} at ({},{}) on {}", al, desc(&f), x, y, desc(&b));
    let o = run(d, || transform::superimpose(&b.img(), &f.img(), x, y, al))?;
    let mut n = eq_f(d, &R::build(w, h, c, a, |i, j, k| if i >= x && j >= y && i - x < fw && j - y < fh { al * b.at(i, j, k) + (1.0 - al) * f.at(i - x, j - y, k) } else { b.at(i, j, k) }), &R::of(&o), 1e-6)?;
    let bad = *r.pick(&[-0.001f32, 1.001, 2.0, -1.0, f32::INFINITY, f32::NEG_INFINITY]);
    n += must_err(|| format!("superimpose alpha={}", bad), true, || transform::superimpose(&b.img(), &f.img(), x, y, bad))?;
    let (c2, a2) = *r.pick(&KINDS_X);
    if c2 != c { let g = img_f32(r, fw, fh, c2, a2); n += must_err(|| format!("superimpose channels {} on {}", c2, c), true, || transform::superimpose(&b.img(), &g.img(), x, y, al))?; }
    Ok(n)
}
fn factor(r: &mut Rng) -> f32 {
    match r.int(0, 4) { 0 => *r.pick(&[0.5f32, 2.0, 1.0, 3.0, 1.5, 0.25]), 1 => r.int(1, 9) as f32 / r.int(1, 9) as f32, _ => 0.1 + r.unit() * 3.0 }
}
fn cub(x: f64) -> f64 { let p = |v: f64| if v <= 0.0 { 0.0 } else { v * v * v }; (p(x + 2.0) - 4.0 * p(x + 1.0) + 6.0 * p(x) - 4.0 * p(x - 1.0)) / 6.0 }
fn lan(x: f64, a: f64) -> f64 { if x.abs() >= a { 0.0 } else if x == 0.0 { 1.0 } else { let p = std::f64::consts::PI * x; (p.sin() / p) * ((p / a).sin() / (p / a)) } }
/// all f32-rounding-tolerant candidates are compared with the single f32 formula for the sample position
pub fn scale(r: &mut Rng, it: u64) -> Res {
    let (w, h) = dims(r, it, 9);
    let (c, a) = *r.pick(&KINDS_X);
    let rf = img_f32(r, w, h, c, a);
    let (fx, fy) = (factor(r), factor(r));
    let (ow, oh) = ((w as f32 * fx).round() as u32, (h as f32 * fy).round() as u32);
    let im = rf.img();
    let mut n = 0;
    let lsize = r.u32(1, 4);
    for m in 0..5 {
        let d = || format!("scale x={} y={} method={} of {}", fx, fy, ["nearest", "bilinear", "bicubic", "lanczos3", "lanczosN"][m], desc(&rf));
        let o = run(d, || match m {
            0 => transform::scale(&im, fx, fy, Scale::NearestNeighbor),
            1 => transform::scale(&im, fx, fy, Scale::Bilinear),
            2 => transform::scale(&im, fx, fy, Scale::Bicubic),
            3 => transform::scale(&im, fx, fy, Scale::Lanczos),
            _ => transform::scale_lanczos(&im, fx, fy, lsize),
        })?;
        let ls = if m == 3 { 3 } else { lsize };
        let e = R::build(ow, oh, c, a, |x, y, k| {
            let (xi, yi) = (x as f32 / fx, y as f32 / fy);
            match m {
                0 => { let p = |v: u32, f: f32, n: u32| ((((v + 1) as f32 / f).ceil() - 1.0) as u32).min(n - 1); rf.at(p(x, fx, w), p(y, fy, h), k) }
                1 => {
                    let (x1, y1) = ((xi.floor() as u32).min(w - 1), (yi.floor() as u32).min(h - 1));
                    let (x2, y2) = ((xi.ceil() as u32).min(w - 1), (yi.ceil() as u32).min(h - 1));
                    let (u, v) = (xi - x1 as f32, yi - y1 as f32);
                    rf.at(x1, y1, k) * (1.0 - u) * (1.0 - v) + rf.at(x2, y1, k) * u * (1.0 - v) + rf.at(x1, y2, k) * (1.0 - u) * v + rf.at(x2, y2, k) * u * v
                }
                2 => { let (dx, dy) = ((xi - xi.floor()) as f64, (yi - yi.floor()) as f64); let mut s = 0.0f64;
                    for i in -1..3 { for j in -1..3 { s += rf.cl((xi + i as f32).max(0.0) as i64, (yi + j as f32).max(0.0) as i64, k) as f64 * cub(i as f64 - dx) * cub(dy - j as f64); } } s as f32 }
                _ => { let (dx, dy) = ((xi - xi.floor()) as f64, (yi - yi.floor()) as f64); let q = ls as i32; let mut s = 0.0f64;
                    for i in 1 - q..q + 1 { for j in 1 - q..q + 1 { s += rf.cl((xi + i as f32).max(0.0) as i64, (yi + j as f32).max(0.0) as i64, k) as f64 * lan(dx - i as f64, q as f64) * lan(dy - j as f64, q as f64); } } s as f32 }
            }
        });
        n += eq_f(d, &e, &R::of(&o), 2e-3)?;
    }
    Ok(n)
}
/// sampling positions stay inside the input for awkward size/factor pairs and the identity scale is the identity
fn scale_range(r: &mut Rng, it: u64) -> Res {
    let w = if it < 40 { it as u32 + 1 } else { r.u32(1, 300) };
    let rf = R::build(w, 1, 1, false, |x, _, _| x as f32);
    let im = rf.img();
    let fx = if it % 3 == 0 { r.int(1, 40) as f32 / r.int(1, 40) as f32 } else { 0.02 + r.unit() * 2.5 };
    let mut n = 0;
    for m in 0..4 {
        let d = || format!("scale x={} y=1 method={} of a {}x1 ramp", fx, m, w);
        let o = run(d, || transform::scale(&im, fx, 1.0, match m { 0 => Scale::NearestNeighbor, 1 => Scale::Bilinear, 2 => Scale::Bicubic, _ => Scale::Lanczos }))?;
        n += eq(d, &((w as f32 * fx).round() as u32, 1, 1, false), &o.info().whca())?;
        if m < 2 {
            // samples of a ramp stay within the ramp and are non-decreasing
            let mut last = 0.0f32;
            for x in 0..o.info().width {
                let v = o.get_pixel(x, 0)[0];
                if !(v >= -1e-3 && v <= (w - 1) as f32 + 1e-2) || v + 1e-2 < last { return fail(format!("{} output pixel {}", d(), x), &format!("non-decreasing value in [0,{}]", w - 1), &v); }
                last = v; n += 1;
            }
        }
    }
    for m in 0..2 {
        let d = || format!("scale by 1, method {}, {}x1 ramp", m, w);
        let o = run(d, || transform::scale(&im, 1.0, 1.0, if m == 0 { Scale::NearestNeighbor } else { Scale::Bilinear }))?;
        n += eq_img(d, &rf, &R::of(&o))?;
    }
    Ok(n)
}
pub fn shear(r: &mut Rng, it: u64) -> Res {
    let (w, h) = dims(r, it, 8);
    let (c, a) = *r.pick(&KINDS_X);
    let rf = img_f32(r, w, h, c, a);
    let q = |r: &mut Rng| *r.pick(&[0.0f32, 0.5, -0.5, 0.25, -0.25, 1.0, -1.0, 1.5, -2.0, 0.125]);
    let (sx, sy) = (q(r), if r.bool() { 0.0 } else { q(r) });
    let (sx, sy) = if r.bool() { (sx, sy) } else { (sy, sx) };
    // factors whose positions are not exact: the canvas only
    if r.int(0, 3) == 0 {
        let g = |r: &mut Rng| *r.pick(&[0.99999994f32, -0.99999994, 1e-8, -1e-8, 0.3333333, -0.3333333, 0.1, 1.9999999, 0.7]);
        let (sx, sy) = (g(r), g(r));
        let d = || format!("shear({}, {}) of {}", sx, sy, desc(&rf));
        let o = run(d, || transform::shear(&rf.img(), sx, sy))?;
        let (ow, oh) = (w + (h as f32 * sx).abs() as u32, h + (w as f32 * sy).abs() as u32);
        let i = o.info();
        if (i.width, i.height, i.channels, i.alpha) != (ow, oh, c, a) { return fail(d(), &format!("{}x{} canvas", ow, oh), &format!("{:?}", i)); }
        return Ok(1);
    }
    let (ox, oy) = ((h as f32 * sx).abs(), (w as f32 * sy).abs());
    let (ow, oh) = (w + ox as u32, h + oy as u32);
    let pos = |x: u32, y: u32| {
        let mut px = x as f32 + -sx * y as f32; let mut py = -sy * x as f32 + y as f32;
        if sx > 0.0 { px += ox } if sy > 0.0 { py += oy }
        ((px as u32).min(ow - 1), (py as u32).min(oh - 1))
    };
    let mut e = R::build(ow, oh, c, a, |_, _, _| 0.0f32);
    for y in 0..h { for x in 0..w {
        let (px, py) = pos(x, y);
        if px >= ow || py >= oh { return Ok(0); }
        for k in 0..c as usize { let i = ((py * ow + px) as usize) * c as usize + k; e.d[i] = rf.at(x, y, k); }
    } }
    let d = || format!("shear({}, {}) of {}", sx, sy, desc(&rf));
    let o = run(d, || transform::shear(&rf.img(), sx, sy))?;
    eq_f(d, &e, &R::of(&o), 0.0)
}
fn rotate(r: &mut Rng, it: u64) -> Res {
    let (w, h) = dims(r, it, 12);
    let (w, h) = (w.min(2000), h.min(2000));
    let (c, a) = *r.pick(&KINDS_X);
    // one image in two has no zero, so that lost pixels show
    let rf = if r.bool() { img_f32(r, w, h, c, a) } else { R::build(w, h, c, a, |x, y, k| (1 + x + y * w) as f32 + 0.125 * k as f32) };
    let im = rf.img();
    let q = r.int(-5, 9);
    let d = || format!("rotate({}) of {}", q * 90, desc(&rf));
    let o = R::of(&run(d, || transform::rotate(&im, q as f32 * 90.0))?);
    let k = q.rem_euclid(4);
    let (ow, oh) = if k % 2 == 0 { (w, h) } else { (h, w) };
    let mut n = eq_img(d, &R::build(ow, oh, c, a, |x, y, ch| { let (sx, sy) = match k { 0 => (x, y), 1 => (w - 1 - y, x), 2 => (w - 1 - x, h - 1 - y), _ => (y, h - 1 - x) }; rf.at(sx, sy, ch) }), &o)?;
    let deg = match r.int(0, 3) { 0 => r.int(-72, 144) as f32 * 5.0, 1 => (r.unit() - 0.5) * 1e4, _ => (r.unit() - 0.3) * 720.0 };
    let d = || format!("rotate({:?}) of {}", deg, desc(&rf));
    let o = R::of(&run(d, || transform::rotate(&im, deg))?);
    let t = deg.to_radians() as f64;
    let (cx, cy) = ((w / 2) as f64, (h / 2) as f64);
    let cs: Vec<(f64, f64)> = [(-cx, cy), (w as f64 - cx, cy), (-cx, cy - h as f64), (w as f64 - cx, cy - h as f64)].iter().map(|(x, y)| (t.cos() * x - t.sin() * y, t.sin() * x + t.cos() * y)).collect();
    let (x0, x1) = (cs.iter().fold(f64::MAX, |m, v| m.min(v.0)), cs.iter().fold(f64::MIN, |m, v| m.max(v.0)));
    let (y0, y1) = (cs.iter().fold(f64::MAX, |m, v| m.min(v.1)), cs.iter().fold(f64::MIN, |m, v| m.max(v.1)));
    n += eq(d, &(c, a, o.w as usize * o.h as usize * c as usize), &(o.c, o.a, o.d.len()))?;
    if (o.w as f64 - (x1 - x0)).abs() > 0.503 || (o.h as f64 - (y1 - y0)).abs() > 0.503 { return fail(format!("{} (size)", d()), &(x1 - x0, y1 - y0), &(o.w, o.h)); }
    let e = 2e-3;
    for y in 0..o.h { for x in 0..o.w {
        let (px, py) = (x as f64 + 0.5 + x0, y1 - y as f64 - 0.5);
        let (sx, sy) = (t.cos() * px + t.sin() * py + cx, cy - (t.cos() * py - t.sin() * px));
        // positions this close to the border between two pixels may fall on either side
        let mut hit = false;
        let mut want = vec![];
        for (u, v) in [(sx - e, sy - e), (sx + e, sy - e), (sx - e, sy + e), (sx + e, sy + e)] {
            let (u, v) = (u.floor(), v.floor());
            let p = if u >= 0.0 && v >= 0.0 && u < w as f64 && v < h as f64 { rf.px(u as u32, v as u32) } else { vec![0.0; c as usize] };
            hit |= p == o.px(x, y); want = p;
        }
        if !hit { return fail(format!("{} at ({},{})", d(), x, y), &want, &o.px(x, y)); }
        n += 1;
    } }
    Ok(n)
}
pub const SUBS: &[Sub] = &[
    Sub { prop: "C27", name: "rotate", quick: 1500, thorough: 20000, run: rotate },
    Sub { prop: "C05", name: "crop", quick: 3000, thorough: 40000, run: crop },
    Sub { prop: "C05", name: "translate", quick: 600, thorough: 8000, run: translate },
    Sub { prop: "C05", name: "reflect", quick: 400, thorough: 4000, run: reflect },
    Sub { prop: "C06", name: "overlay", quick: 1500, thorough: 20000, run: overlay },
    Sub { prop: "C06", name: "superimpose", quick: 1500, thorough: 20000, run: superimpose },
    Sub { prop: "C07", name: "scale", quick: 600, thorough: 8000, run: scale },
    Sub { prop: "C07", name: "scale-range", quick: 1500, thorough: 30000, run: scale_range },
    Sub { prop: "C25", name: "shear", quick: 1500, thorough: 20000, run: shear },
];
