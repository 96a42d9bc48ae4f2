//! Deterministic generators, comparison helpers and the sub-check driver.
use imgproc_rs::image::{BaseImage, Image, Number};
use std::fmt::Debug;

pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64, sub: &str, it: u64) -> Rng {
        let mut h: u64 = 0xcbf29ce484222325 ^ seed.wrapping_mul(0x9E3779B97F4A7C15);
        for b in sub.bytes() { h = (h ^ b as u64).wrapping_mul(0x100000001b3); }
        h ^= it.wrapping_mul(0xD1B54A32D192ED03);
        let mut r = Rng(h); r.next(); r.next(); r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    /// uniform in lo..=hi
    pub fn int(&mut self, lo: i64, hi: i64) -> i64 { lo + (self.next() % ((hi - lo + 1) as u64)) as i64 }
    pub fn u32(&mut self, lo: u32, hi: u32) -> u32 { self.int(lo as i64, hi as i64) as u32 }
    pub fn bool(&mut self) -> bool { self.next() & 1 == 1 }
    pub fn unit(&mut self) -> f32 { (self.next() >> 40) as f32 / (1u64 << 24) as f32 }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { let n = v.len() as u64; &v[(self.next() % n) as usize] }
    /// mostly one of the listed usual sizes, sometimes one of the unusual ones
    pub fn size(&mut self, usual: &[usize], rare: &[usize]) -> usize { if self.int(0, 19) == 0 { *self.pick(rare) } else { *self.pick(usual) } }
    /// small weights, and now and then large ones
    pub fn weight(&mut self) -> u32 { match self.int(0, 5) { 0 => *self.pick(&[10, 16, 17, 31, 32, 63, 64, 100, 127, 128, 255, 256, 257, 1000, 65535, 65536, 1 << 20]), _ => self.u32(0, 9) } }
    /// byte values with emphasis on extremes
    pub fn byte(&mut self) -> u8 {
        match self.int(0, 9) { 0 => 0, 1 => 255, 2 => *self.pick(&[1, 2, 127, 128, 254]), _ => self.next() as u8 }
    }
}

/// A reference image: row-major interleaved data.
#[derive(Clone, Debug, PartialEq)]
pub struct R<T> { pub w: u32, pub h: u32, pub c: u8, pub a: bool, pub d: Vec<T> }
impl<T: Number + Debug> R<T> {
    pub fn at(&self, x: u32, y: u32, k: usize) -> T { self.d[((y as usize * self.w as usize) + x as usize) * self.c as usize + k] }
    pub fn px(&self, x: u32, y: u32) -> Vec<T> { let c = self.c as usize; let s = ((y as usize * self.w as usize) + x as usize) * c; self.d[s..s + c].to_vec() }
    /// edge-clamped access
    pub fn cl(&self, x: i64, y: i64, k: usize) -> T {
        self.at(x.clamp(0, self.w as i64 - 1) as u32, y.clamp(0, self.h as i64 - 1) as u32, k)
    }
    pub fn img(&self) -> Image<T> { Image::from_slice(self.w, self.h, self.c, self.a, &self.d) }
    pub fn of(i: &Image<T>) -> R<T> { let n = i.info(); R { w: n.width, h: n.height, c: n.channels, a: n.alpha, d: i.data().to_vec() } }
    pub fn build(w: u32, h: u32, c: u8, a: bool, mut f: impl FnMut(u32, u32, usize) -> T) -> R<T> {
        let mut d = Vec::new();
        for y in 0..h { for x in 0..w { for k in 0..c as usize { d.push(f(x, y, k)); } } }
        R { w, h, c, a, d }
    }
    pub fn nc(&self) -> usize { if self.a { self.c as usize - 1 } else { self.c as usize } }
}

pub const KINDS: [(u8, bool); 4] = [(1, false), (2, true), (3, false), (4, true)];
pub const KINDS_X: [(u8, bool); 9] = [(1, false), (2, true), (3, false), (4, true), (2, false), (4, false), (3, true), (5, false), (6, true)];

/// dimension pair: the first iterations enumerate small shapes, then come the shapes without pixels, later ones are random up to `max`; one in forty is a long strip
pub fn dims(r: &mut Rng, it: u64, max: u32) -> (u32, u32) {
    if it < 25 { return ((it % 5 + 1) as u32, (it / 5 + 1) as u32); }
    if it < 29 { return [(0, 0), (0, 3), (3, 0), (0, 1)][it as usize - 25]; }
    if it % 4000 == 2399 && max > 8 {
        let l = r.u32(65530, 66000);
        return if r.bool() { (l, 1) } else { (1, l) };
    }
    if it % 40 == 39 {
        let (l, s) = (r.u32(100, 600), r.u32(1, 3));
        return if it % 80 == 39 { (l, s) } else { (s, l) };
    }
    (r.u32(1, max), r.u32(1, max))
}
/// the same with at least one pixel
pub fn dims1(r: &mut Rng, it: u64, max: u32) -> (u32, u32) { let (w, h) = dims(r, it, max); (w.max(1), h.max(1)) }
pub fn img_u8(r: &mut Rng, w: u32, h: u32, c: u8, a: bool) -> R<u8> {
    let mode = r.int(0, 6);
    let base = r.byte();
    R::build(w, h, c, a, |x, y, _| match mode {
        0 => base,
        1 => if r.int(0, 9) == 0 { r.byte() } else { base },
        2 => (x * 7 + y * 13) as u8,
        3 => *r.pick(&[0u8, 255]),
        4 => if r.int(0, 3) > 0 { 0 } else { r.byte() },
        _ => r.byte(),
    })
}
/// images whose values tell the position, or (one time in three) drawn from few values, zero among them
pub fn img_i32(r: &mut Rng, w: u32, h: u32, c: u8, a: bool, base: i32) -> R<i32> {
    let mode = r.int(0, 5);
    R::build(w, h, c, a, |x, y, k| match mode {
        0 => *r.pick(&[0, 0, 1, -1, i32::MAX, i32::MIN]),
        1 => if r.int(0, 2) == 0 { r.int(-300, 300) as i32 } else { 0 },
        _ => base + x as i32 * 10007 + y as i32 * 101 + k as i32,
    })
}
/// f32 images with distinct, exactly representable values
pub fn img_f32(r: &mut Rng, w: u32, h: u32, c: u8, a: bool) -> R<f32> {
    let mode = r.int(0, 5);
    let base = r.int(-50, 300) as f32;
    R::build(w, h, c, a, |x, y, k| match mode {
        0 => base,
        1 => (x * 16 + y * 3 + k as u32 * 101) as f32,
        2 => *r.pick(&[0.0f32, 0.0, 1.0, 255.0, -1.0]),
        _ => (r.int(-1000, 4000) as f32) / 8.0,
    })
}

#[derive(Debug)]
pub struct Fail { pub input: String, pub expected: String, pub actual: String }
pub type Res = Result<u64, Fail>; // Ok(number of values compared)

pub fn short<D: Debug>(v: &D) -> String { let s = format!("{:?}", v); if s.len() > 1500 { format!("{}… ({} chars)", &s[..s.char_indices().take_while(|(i, _)| *i < 1500).last().map(|x| x.0).unwrap_or(0)], s.len()) } else { s } }
pub fn fail<A: Debug, B: Debug>(input: String, e: &A, a: &B) -> Res { Err(Fail { input, expected: short(e), actual: short(a) }) }
pub fn eq<A: Debug + PartialEq>(input: impl Fn() -> String, e: &A, a: &A) -> Res {
    if e == a { Ok(1) } else { fail(input(), e, a) }
}
pub fn close(e: f32, a: f32, tol: f32) -> bool {
    (e.is_nan() && a.is_nan()) || e == a || (e - a).abs() <= tol * (1.0 + e.abs().max(a.abs()))
}
pub fn eq_f(input: impl Fn() -> String, e: &R<f32>, a: &R<f32>, tol: f32) -> Res {
    if (e.w, e.h, e.c, e.a) != (a.w, a.h, a.c, a.a) || e.d.len() != a.d.len() { return fail(input(), &(e.w, e.h, e.c, e.a, e.d.len()), &(a.w, a.h, a.c, a.a, a.d.len())); }
    for i in 0..e.d.len() {
        if !close(e.d[i], a.d[i], tol) { return fail(format!("{} at value #{}", input(), i), &e.d[i], &a.d[i]); }
    }
    Ok(e.d.len() as u64)
}
pub fn eq_img<T: Number + Debug>(input: impl Fn() -> String, e: &R<T>, a: &R<T>) -> Res {
    if (e.w, e.h, e.c, e.a) != (a.w, a.h, a.c, a.a) || e.d.len() != a.d.len() { return fail(format!("{} (w,h,channels,alpha,len)", input()), &(e.w, e.h, e.c, e.a, e.d.len()), &(a.w, a.h, a.c, a.a, a.d.len())); }
    for i in 0..e.d.len() {
        if e.d[i] != a.d[i] { return fail(format!("{} at value #{}", input(), i), &e.d[i], &a.d[i]); }
    }
    Ok(e.d.len() as u64)
}
/// Runs `f`, turning a panic into Err(message)
pub fn no_panic<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|e| {
        if let Some(s) = e.downcast_ref::<String>() { s.clone() } else if let Some(s) = e.downcast_ref::<&str>() { s.to_string() } else { "panic".into() }
    })
}
pub fn call<T>(input: impl Fn() -> String, f: impl FnOnce() -> T) -> Result<T, Fail> {
    no_panic(f).map_err(|m| Fail { input: input(), expected: "no panic".into(), actual: format!("panic: {}", m) })
}
pub fn ok<T, E: Debug>(input: impl Fn() -> String, r: Result<T, E>) -> Result<T, Fail> {
    r.map_err(|e| Fail { input: input(), expected: "Ok".into(), actual: format!("Err({:?})", e) })
}
/// calls a fallible operation that must succeed
pub fn run<T, E: Debug>(input: impl Fn() -> String, f: impl FnOnce() -> Result<T, E>) -> Result<T, Fail> {
    let r = call(&input, f)?; ok(input, r)
}
pub fn must_panic<T>(input: impl Fn() -> String, f: impl FnOnce() -> T) -> Res {
    match no_panic(f) { Err(_) => Ok(1), Ok(_) => fail(input(), &"panic", &"returned normally") }
}
pub fn must_err<T, E>(input: impl Fn() -> String, want: bool, f: impl FnOnce() -> Result<T, E>) -> Res {
    let r = call(&input, f)?;
    if r.is_err() == want { Ok(1) } else { fail(input(), &(if want { "Err" } else { "Ok" }), &(if r.is_err() { "Err" } else { "Ok" })) }
}
pub fn desc<T: Debug>(i: &R<T>) -> String { format!("image {}x{} channels={} alpha={} data={}", i.w, i.h, i.c, i.a, short(&i.d)) }

pub struct Sub { pub prop: &'static str, pub name: &'static str, pub quick: u64, pub thorough: u64, pub run: fn(&mut Rng, u64) -> Res }
