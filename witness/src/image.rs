//! C01-C04, C22: storage, maps, neighbourhoods, iteration, conversions
use crate::util::*;
use imgproc_rs::convert;
use imgproc_rs::image::*;

fn addressing(r: &mut Rng, it: u64) -> Res {
    let (w, h) = dims(r, it, 17);
    let (c, a) = *r.pick(&KINDS_X);
    let mut rf = img_i32(r, w, h, c, a, 0);
    let d = || format!("{}", desc(&rf));
    let mut im = call(d, || match r.int(0, 3) {
        0 => Image::from_slice(w, h, c, a, &rf.d),
        1 => Image::from_vec(w, h, c, a, rf.d.clone()),
        2 => Image::from_vec_of_vec(w, h, c, a, rf.d.chunks(c as usize).map(|s| s.to_vec()).collect()),
        _ => Image::from_vec_of_slice(w, h, c, a, rf.d.chunks(c as usize).collect()),
    })?;
    let mut n = eq_img(d, &rf, &R::of(&im))?;
    for y in 0..h { for x in 0..w {
        let e = rf.px(x, y);
        let i = (y * w + x) as usize;
        if w * h > 400 && r.int(0, (w * h) as i64 / 50) > 0 { continue; }
        let din = || format!("{} pixel ({},{})", d(), x, y);
        n += eq(din, &e, &call(din, || im.get_pixel(x, y).to_vec())?)?;
        n += eq(din, &e, &call(din, || im.get_pixel_unchecked(x, y).to_vec())?)?;
        n += eq(din, &e, &call(din, || im[i].to_vec())?)?;
        n += eq(din, &(i * c as usize), &call(din, || Image::index(&im, x, y))?)?;
        n += eq(din, &e, &im.clone().get_pixel_mut(x, y).to_vec())?;
        n += eq(din, &e, &im.clone().get_pixel_mut_unchecked(x, y).to_vec())?;
    } }
    let inf = im.info();
    n += eq(d, &(w * h, w * h * c as u32, (w, h), (w, h, c), (w, h, c, a), if a { c - 1 } else { c }),
        &(inf.size(), inf.full_size(), inf.wh(), inf.whc(), inf.whca(), inf.channels_non_alpha()))?;
    // blank / empty
    let b: Image<i32> = Image::blank(ImageInfo::new(w, h, c, a));
    n += eq_img(d, &R::build(w, h, c, a, |_, _, _| 0), &R::of(&b))?;
    let e: Image<i32> = Image::empty(ImageInfo::new(w, h, c, a));
    n += eq(d, &(0usize, ImageInfo { width: w, height: h, channels: c, alpha: a }), &(e.data().len(), e.info()))?;
    if w * h == 0 { return Ok(n); }
    // writes
    let (x, y) = (r.u32(0, w - 1), r.u32(0, h - 1));
    let p: Vec<i32> = (0..c as i32).map(|k| -1 - k).collect();
    let how = r.int(0, 4);
    let before = d();
    let din = || format!("{}; write {:?} at ({},{}) via accessor {}", before, p, x, y, how);
    call(din, || match how {
        0 => im.set_pixel(x, y, &p),
        1 => im.set_pixel_indexed((y * w + x) as usize, &p),
        2 => im.get_pixel_mut(x, y).copy_from_slice(&p),
        3 => im.get_pixel_mut_unchecked(x, y).copy_from_slice(&p),
        _ => im[(y * w + x) as usize].copy_from_slice(&p),
    })?;
    for k in 0..c as usize { rf.d[((y * w + x) as usize) * c as usize + k] = p[k]; }
    n += eq_img(din, &rf, &R::of(&im))?;
    let i2 = im.clone();
    n += eq(din, &rf.d, &i2.data().to_vec())?;
    // data_mut is the same storage
    im.data_mut()[0] = 77; rf.d[0] = 77;
    n += eq_img(din, &rf, &R::of(&im))?;
    Ok(n)
}
fn bounds(r: &mut Rng, it: u64) -> Res {
    let (w, h) = dims(r, it, 9);
    let (c, a) = *r.pick(&KINDS_X);
    let rf = img_i32(r, w, h, c, a, 0);
    let mut im = rf.img();
    let bad = [(w, 0), (0, h), (w, h), (w + r.u32(0, 5), r.u32(0, h.max(1) - 1)), (r.u32(0, w.max(1) - 1), h + r.u32(0, 5)), (w, h.max(1) - 1), (w.max(1) - 1, h)];
    let mut n = 0;
    let ok = vec![0; c as usize];
    for (x, y) in bad {
        let din = || format!("{}x{}x{} image, coordinate ({},{})", w, h, c, x, y);
        n += must_panic(|| din() + " get_pixel", || im.get_pixel(x, y).to_vec())?;
        n += must_panic(|| din() + " get_pixel_mut", || im.clone().get_pixel_mut(x, y).to_vec())?;
        n += must_panic(|| din() + " set_pixel", || im.set_pixel(x, y, &ok))?;
        n += eq_img(din, &rf, &R::of(&im))?;
    }
    let full = (w * h) as usize;
    n += must_panic(|| format!("{}x{} image, pixel index {}", w, h, full), || im[full].to_vec())?;
    n += must_panic(|| format!("{}x{} image, set pixel index {}", w, h, full), || im.set_pixel_indexed(full, &ok))?;
    for l in [c as usize - 1, c as usize + 1, c as usize + 256] {
        let p = vec![5; l];
        let din = || format!("{} channels, pixel slice of length {}", c, l);
        n += must_panic(din, || im.set_pixel(0, 0, &p))?;
        n += must_panic(din, || im.set_pixel_indexed(0, &p))?;
        n += eq_img(din, &rf, &R::of(&im))?;
    }
    if w * h == 0 { return Ok(n); }
    // sub-image accessors
    let s = im.get_subimage(0, 0, w, h);
    n += must_panic(|| format!("{}x{} subimage get_pixel({},0)", w, h, w), || s.get_pixel(w, 0).to_vec())?;
    n += must_panic(|| format!("{}x{} subimage get_pixel(0,{})", w, h, h), || s.get_pixel(0, h).to_vec())?;
    Ok(n)
}
fn maps(r: &mut Rng, it: u64) -> Res {
    let (w, h) = dims(r, it, 12);
    let (c, a) = *r.pick(&KINDS_X);
    let rf = R::build(w, h, c, a, |_, _, _| r.int(0, 999) as i32);
    let im = rf.img();
    let nc = rf.nc();
    let (f, g) = (|v: i32| v * 3 + 1, |v: i32| -v);
    let d = || desc(&rf);
    let isa = |k: usize| a && k == nc;
    let all = R { d: rf.d.iter().map(|v| f(*v)).collect(), ..rf.clone() };
    let split = R::build(w, h, c, a, |x, y, k| if isa(k) { g(rf.at(x, y, k)) } else { f(rf.at(x, y, k)) });
    let mut n = eq_img(d, &all, &R::of(&call(d, || im.map_channels(f))?))?;
    n += eq_img(d, &split, &R::of(&call(d, || im.map_channels_if_alpha(f, g))?))?;
    let mut t = im.clone(); call(d, || t.apply_channels(f))?; n += eq_img(d, &all, &R::of(&t))?;
    let mut t = im.clone(); call(d, || t.apply_channels_if_alpha(f, g))?; n += eq_img(d, &split, &R::of(&t))?;
    // pixel maps: m output channels per pixel
    let m = r.int(1, 5) as usize;
    let fp = |p: &[i32], o: &mut Vec<i32>| { let s: i32 = p.iter().enumerate().map(|(i, v)| v * (i as i32 + 1)).sum(); for k in 0..m { o.push(s * 10 + p.len() as i32 + k as i32); } };
    let ev = |p: Vec<i32>| { let mut o = vec![]; fp(&p, &mut o); o };
    let mut e = R { w, h, c: m as u8, a, d: vec![] };
    for y in 0..h { for x in 0..w { e.d.extend(ev(rf.px(x, y))); } }
    n += eq_img(|| format!("map_pixels to {} channels of {}", m, d()), &e, &R::of(&call(d, || im.map_pixels(fp))?))?;
    let mut e = R { w, h, c: m as u8 + a as u8, a, d: vec![] };
    for y in 0..h { for x in 0..w { let p = rf.px(x, y); e.d.extend(ev(p[..nc].to_vec())); if a { e.d.push(g(p[nc])); } } }
    if nc > 0 || !a {
        n += eq_img(|| format!("map_pixels_if_alpha to {} channels of {}", m, d()), &e, &R::of(&call(d, || im.map_pixels_if_alpha(fp, g))?))?;
    }
    let fq = |p: &[i32], o: &mut Vec<i32>| { for i in (0..p.len()).rev() { o.push(p[i] + i as i32); } };
    let ev = |p: Vec<i32>| { let mut o = vec![]; fq(&p, &mut o); o };
    let mut e = R { d: vec![], ..rf.clone() };
    for y in 0..h { for x in 0..w { e.d.extend(ev(rf.px(x, y))); } }
    let mut t = im.clone(); call(d, || t.apply_pixels(fq))?; n += eq_img(|| format!("apply_pixels {}", d()), &e, &R::of(&t))?;
    let mut e = R { d: vec![], ..rf.clone() };
    for y in 0..h { for x in 0..w { let p = rf.px(x, y); e.d.extend(ev(p[..nc].to_vec())); if a { e.d.push(g(p[nc])); } } }
    let mut t = im.clone(); call(d, || t.apply_pixels_if_alpha(fq, g))?; n += eq_img(|| format!("apply_pixels_if_alpha {}", d()), &e, &R::of(&t))?;
    for ch in 0..c as usize {
        let e = R::build(w, h, c, a, |x, y, k| if k == ch { f(rf.at(x, y, k)) } else { rf.at(x, y, k) });
        let mut t = im.clone(); call(d, || t.edit_channel(f, ch))?; n += eq_img(|| format!("edit_channel {} of {}", ch, d()), &e, &R::of(&t))?;
    }
    if w * h == 0 { return Ok(n); }
    // Pixel trait on slices
    let p = rf.px(0, 0);
    n += eq(d, &p[c as usize - 1], &p[..].alpha())?;
    n += eq(d, &p[..c as usize - 1].to_vec(), &p[..].channels_without_alpha().to_vec())?;
    n += eq(d, &p.iter().map(|v| f(*v)).collect::<Vec<_>>(), &p[..].map_all(f))?;
    let sp: Vec<i32> = p.iter().enumerate().map(|(i, v)| if i + 1 == p.len() { g(*v) } else { f(*v) }).collect();
    n += eq(d, &sp, &p[..].map_alpha(f, g))?;
    let mut q = p.clone(); q[..].apply(f); n += eq(d, &p.iter().map(|v| f(*v)).collect::<Vec<_>>(), &q)?;
    let mut q = p.clone(); q[..].apply_alpha(f, g); n += eq(d, &sp, &q)?;
    let z: Vec<i32> = p.iter().map(|_| if r.int(0, 3) == 0 { 1 } else { 0 }).collect();
    n += eq(|| format!("{:?}", z), &z.iter().all(|v| *v == 0), &z[..].is_black())?;
    n += eq(|| format!("{:?}", z), &z[..z.len() - 1].iter().all(|v| *v == 0), &z[..].is_black_alpha())?;
    Ok(n)
}
fn sub_desc(s: &SubImage<i32>) -> (u32, u32, u8, bool, Vec<i32>) { let i = s.info(); (i.width, i.height, i.channels, i.alpha, s.to_vec()) }
fn neigh(r: &mut Rng, it: u64) -> Res {
    let (w, h) = dims1(r, it, 9);
    let (c, a) = *r.pick(&KINDS_X);
    let rf = img_i32(r, w, h, c, a, 0);
    let im = rf.img();
    let mut n = 0;
    let (x, y) = (r.u32(0, w - 1), r.u32(0, h - 1));
    let size = if r.int(0, 15) == 0 { r.u32(10, 40) } else { r.u32(0, 9) };
    let hs = (size / 2) as i64;
    for vert in [false, true] {
        let din = || format!("{} neighborhood_1d({},{},{},{})", desc(&rf), x, y, size, vert);
        let mut v = vec![];
        for i in 0..size as i64 { for k in 0..c as usize { v.push(if vert { rf.cl(x as i64, y as i64 - hs + i, k) } else { rf.cl(x as i64 - hs + i, y as i64, k) }); } }
        let e = (if vert { 1 } else { size }, if vert { size } else { 1 }, c, a, v);
        let s = call(din, || im.get_neighborhood_1d(x, y, size, vert))?;
        n += eq(din, &e, &sub_desc(&s))?;
    }
    let din = || format!("{} neighborhood_2d({},{},{})", desc(&rf), x, y, size);
    let mut v = vec![];
    for j in 0..size as i64 { for i in 0..size as i64 { for k in 0..c as usize { v.push(rf.cl(x as i64 - hs + i, y as i64 - hs + j, k)); } } }
    let s = call(din, || im.get_neighborhood_2d(x, y, size))?;
    n += eq(din, &(size, size, c, a, v), &sub_desc(&s))?;
    n += must_panic(|| format!("{}x{} neighborhood_1d({},{})", w, h, w, y), || im.get_neighborhood_1d(w, y, 3, false).to_vec())?;
    n += must_panic(|| format!("{}x{} neighborhood_1d({},{})", w, h, x, h), || im.get_neighborhood_1d(x, h, 3, true).to_vec())?;
    n += must_panic(|| format!("{}x{} neighborhood_2d({},{})", w, h, w, y), || im.get_neighborhood_2d(w, y, 3).to_vec())?;
    n += must_panic(|| format!("{}x{} neighborhood_2d({},{})", w, h, x, h), || im.get_neighborhood_2d(x, h, 3).to_vec())?;
    Ok(n)
}
fn subimage(r: &mut Rng, it: u64) -> Res {
    let (w, h) = dims1(r, it, 9);
    let (c, a) = *r.pick(&KINDS_X);
    let rf = img_i32(r, w, h, c, a, 0);
    let im = rf.img();
    let (x, y) = (r.u32(0, w - 1), r.u32(0, h - 1));
    let (sw, sh) = (r.u32(1, w - x), r.u32(1, h - y));
    let din = || format!("{} get_subimage({},{},{},{})", desc(&rf), x, y, sw, sh);
    let s = call(din, || im.get_subimage(x, y, sw, sh))?;
    let e = R::build(sw, sh, c, a, |i, j, k| rf.at(x + i, y + j, k));
    let mut n = eq(din, &(sw, sh, c, a), &s.info().whca())?;
    n += eq(din, &((sw * sh) as usize), &s.data().len())?;
    for j in 0..sh { for i in 0..sw {
        let dj = || format!("{} get_pixel({},{})", din(), i, j);
        n += eq(dj, &e.px(i, j), &call(dj, || s.get_pixel(i, j).to_vec())?)?;
        n += eq(dj, &e.px(i, j), &call(dj, || s[(j * sw + i) as usize].to_vec())?)?;
    } }
    n += eq(din, &e.d, &s.to_vec())?;
    n += must_panic(|| format!("{}x{} get_subimage({},{},1,1)", w, h, w, y), || im.get_subimage(w, y, 1, 1).to_vec())?;
    n += must_panic(|| format!("{}x{} get_subimage({},{},1,1)", w, h, x, h), || im.get_subimage(x, h, 1, 1).to_vec())?;
    n += must_panic(|| format!("{} widened past the right edge", din()), || im.get_subimage(x, y, w - x + 1, sh).to_vec())?;
    n += must_panic(|| format!("{} extended past the bottom edge", din()), || im.get_subimage(x, y, sw, h - y + 1).to_vec())?;
    Ok(n)
}
fn iteration(r: &mut Rng, it: u64) -> Res {
    let (mut w, mut h) = dims(r, it, 13);
    match it { 1 => { w = 0; h = 0; } 2 => w = 0, 3 => h = 0, _ => {} }
    let (c, a) = *r.pick(&KINDS_X);
    let rf = img_i32(r, w, h, c, a, 0);
    let im = rf.img();
    let d = || format!("{}", desc(&rf));
    let mut iter = call(d, || (&im).into_iter())?;
    let total = (w * h) as usize;
    let mut n = 0;
    for i in 0..total {
        let dd = || format!("{} item {}", d(), i);
        n += eq(|| format!("{} size_hint", dd()), &(total - i, Some(total - i)), &call(dd, || iter.size_hint())?)?;
        let v = call(dd, || iter.next().map(|t| (t.0, t.1, t.2.to_vec())))?;
        let (x, y) = (i as u32 % w, i as u32 / w);
        n += eq(dd, &Some((x, y, rf.px(x, y))), &v)?;
    }
    for _ in 0..3 {
        n += eq(|| format!("{} size_hint after the end", d()), &(0, Some(0)), &call(d, || iter.size_hint())?)?;
        n += eq(|| format!("{} after the end", d()), &None, &call(d, || iter.next().map(|t| (t.0, t.1)))?)?;
    }
    Ok(n)
}
fn interesting_f64(r: &mut Rng) -> f64 {
    match r.int(0, 9) { 0 => f64::NAN, 1 => f64::INFINITY, 2 => f64::NEG_INFINITY, 3 => -0.0, 4 => r.int(-3, 260) as f64 + 0.5, 5 => -(r.unit() as f64) * 1e9, 6 => 255.49999999, 7 => r.int(-300, 600) as f64, _ => (r.unit() as f64) * 300.0 - 20.0 }
}
fn round_u8(v: f64) -> u8 { if v.is_nan() { return 0; } let t = v.trunc(); let f = (v - t).abs(); let q = if f >= 0.5 { t + v.signum() } else { t }; if q <= 0.0 { 0 } else if q >= 255.0 { 255 } else { q as u8 } }
fn conversions(r: &mut Rng, it: u64) -> Res {
    let (w, h) = dims(r, it, 9);
    let (c, a) = *r.pick(&KINDS_X);
    let b = img_u8(r, w, h, c, a);
    let d = || desc(&b);
    let mk = |v: Vec<f64>| R { w, h, c, a, d: v };
    let f32i: Image<f32> = call(d, || b.img().into())?;
    let mut n = eq_img(d, &R { w, h, c, a, d: b.d.iter().map(|v| *v as f32).collect() }, &R::of(&f32i))?;
    let f64i: Image<f64> = call(d, || b.img().into())?;
    n += eq_img(d, &mk(b.d.iter().map(|v| *v as f64).collect()), &R::of(&f64i))?;
    n += eq_img(d, &b, &R::of(&call(d, || Image::<u8>::from(f32i.clone()))?))?;
    n += eq_img(d, &b, &R::of(&call(d, || Image::<u8>::from(f64i.clone()))?))?;
    macro_rules! wide { ($t:ty) => {{
        let v: Vec<$t> = b.d.iter().map(|_| (r.next() >> r.int(0, 60)) as $t).collect();
        let i = Image::<$t>::from_slice(w, h, c, a, &v);
        let o: Image<f64> = call(d, || i.into())?;
        n += eq_img(|| format!("{} -> f64 of {:?}", stringify!($t), short(&v)), &mk(v.iter().map(|x| *x as f64).collect()), &R::of(&o))?;
    }} }
    wide!(u16); wide!(u32); wide!(u64); wide!(u128); wide!(usize);
    let v64: Vec<f64> = b.d.iter().map(|_| interesting_f64(r)).collect();
    let v32: Vec<f32> = v64.iter().map(|v| *v as f32).collect();
    let dv = || format!("{:?}", short(&v64));
    let o: Image<u8> = call(dv, || Image::<f64>::from_slice(w, h, c, a, &v64).into())?;
    n += eq_img(dv, &R { w, h, c, a, d: v64.iter().map(|v| round_u8(*v)).collect() }, &R::of(&o))?;
    let o: Image<u8> = call(dv, || Image::<f32>::from_slice(w, h, c, a, &v32).into())?;
    n += eq_img(dv, &R { w, h, c, a, d: v32.iter().map(|v| round_u8(*v as f64)).collect() }, &R::of(&o))?;
    let o: Image<f64> = call(dv, || Image::<f32>::from_slice(w, h, c, a, &v32).into())?;
    n += eq(dv, &v32.iter().map(|v| (*v as f64).to_bits()).collect::<Vec<_>>(), &o.data().iter().map(|v| v.to_bits()).collect::<Vec<_>>())?;
    // scaling
    let fi = img_f32(r, w, h, c, a);
    let (cmin, cmax) = (r.int(-20, 10) as f32, r.int(11, 400) as f32);
    let (smin, smax) = (r.int(-20, 10) as f32, r.int(11, 400) as f32);
    let df = || format!("scale_channels({}, {}, {}, {}) {}", cmin, smin, cmax, smax, desc(&fi));
    let o = run(df, || convert::scale_channels(&fi.img(), cmin, smin, cmax, smax))?;
    n += eq_f(df, &R { d: fi.d.iter().map(|v| ((*v as f64 - cmin as f64) / (cmax as f64 - cmin as f64) * (smax as f64 - smin as f64) + smin as f64) as f32).collect(), ..fi.clone() }, &R::of(&o), 1e-5)?;
    let sc = r.u32(1, 300);
    let fi = R { w, h, c, a, d: b.d.iter().map(|_| { let k = r.int(-3, 258); (k as f32 + *r.pick(&[0.25f32, 0.0, -0.25])) * sc as f32 / 255.0 }).collect() };
    let df = || format!("f32_to_u8_scale({}) {}", sc, desc(&fi));
    let o = call(df, || convert::f32_to_u8_scale(&fi.img(), sc))?;
    n += eq_img(df, &R { w, h, c, a, d: fi.d.iter().map(|v| round_u8(*v as f64 / sc as f64 * 255.0)).collect() }, &R::of(&o))?;
    let df = || format!("u8_to_f32_scale({}) {}", sc, desc(&b));
    let o = call(df, || convert::u8_to_f32_scale(&b.img(), sc))?;
    n += eq_f(df, &R { w, h, c, a, d: b.d.iter().map(|v| (*v as f64 / 255.0 * sc as f64) as f32).collect() }, &R::of(&o), 1e-6)?;
    Ok(n)
}
pub const SUBS: &[Sub] = &[
    Sub { prop: "C01", name: "addressing", quick: 400, thorough: 6000, run: addressing },
    Sub { prop: "C01", name: "bounds", quick: 200, thorough: 2000, run: bounds },
    Sub { prop: "C02", name: "maps", quick: 400, thorough: 6000, run: maps },
    Sub { prop: "C03", name: "neighborhood", quick: 1500, thorough: 20000, run: neigh },
    Sub { prop: "C03", name: "subimage", quick: 600, thorough: 8000, run: subimage },
    Sub { prop: "C04", name: "iteration", quick: 300, thorough: 4000, run: iteration },
    Sub { prop: "C22", name: "conversions", quick: 400, thorough: 6000, run: conversions },
];
