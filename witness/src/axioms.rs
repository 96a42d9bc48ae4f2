//! What the contracts assume about f32, f64 and the AVX2 intrinsics (proofs/00_spec.rs, proofs/01_rt.rs), evaluated on this machine.
use crate::util::*;
use std::hint::black_box as bb;

fn bad<T: std::fmt::Debug>(what: &str, x: T) -> Res { fail(format!("assumption about the machine: {what} {x:?}"), &"holds", &"does not hold") }
const M: i64 = 1 << 24;
/// a value with emphasis on the special ones
fn any(r: &mut Rng) -> f32 {
    match r.int(0, 7) {
        0 => *r.pick(&[0.0, -0.0, f32::NAN, f32::INFINITY, f32::NEG_INFINITY, f32::MIN_POSITIVE, 1e-45, f32::MAX, f32::MIN]),
        1 => r.int(-M, M) as f32,
        2 => { let n = r.int(-M, M) as f32; f32::from_bits(n.to_bits().wrapping_add(*r.pick(&[1, u32::MAX]))) }
        3 => r.int(-600, 600) as f32 / 2.0,
        _ => f32::from_bits(r.next() as u32),
    }
}
fn same(a: f32, b: f32) -> bool { a.to_bits() == b.to_bits() || a.is_nan() && b.is_nan() }
fn trunc(x: f32) -> i128 { if x.is_nan() { 0 } else { x as i128 } }
/// iteration k covers the integers of the k-th of 256 parts of -2^24 ..= 2^24 (so 256 iterations cover them all), and random values
pub fn float(r: &mut Rng, it: u64) -> Res {
    let part = (2 * M) / 256;
    let lo = -M + (it as i64 % 256) * part;
    for n in lo..=lo + part {
        let (f, d) = (bb(n as f32), bb(n as f64));
        if f as i64 != n || !same(f.round(), f) || d as i64 != n || d.round().to_bits() != d.to_bits() { return bad("integers up to 2^24 are exact", n); }
        if n > -M && f - 1.0 != (n - 1) as f32 { return bad("n - 1 is exact", n); }
        if (f * f).to_bits() != (-f * -f).to_bits() { return bad("n * n == -n * -n", n); }
        if n >= 1 { let p = f32::from_bits(f.to_bits() - 1); if p as i64 >= n { return bad("the value below n truncates below n", n); } }
        if n >= 0 {
            let (s, q) = (f.sqrt(), (n as f64).sqrt().round() as i64);
            if (s % 1.0 == 0.0) != (q * q == n) || q * q == n && s as i64 != q { return bad("sqrt is an integer exactly for squares", n); }
            if n <= 0x4_0000 && 4.0 * f != (4 * n) as f32 { return bad("4 * n is exact", n); }
        }
        if (-4096..=4096).contains(&n) && f * f != (n * n) as f32 { return bad("n * n is exact", n); }
    }
    for _ in 0..400 {
        let (a, b, c) = (bb(any(r)), bb(any(r)), bb(any(r)));
        let (m, n) = (r.int(-M, M), r.int(-M, M));
        if a.partial_cmp(&b).is_none() != (a.is_nan() || b.is_nan()) { return bad("unordered exactly with NaN", (a, b)); }
        if a.partial_cmp(&b).map(|o| o.reverse()) != b.partial_cmp(&a) { return bad("order is antisymmetric", (a, b)); }
        if a <= b && trunc(a) > trunc(b) { return bad("truncation is monotone", (a, b)); }
        if a <= b && b <= c && !(a <= c) { return bad("order is transitive", (a, b, c)); }
        for x in [a, b, c] {
            let t = if x.is_nan() { 0 } else { trunc(x) };
            if x as u8 as i128 != t.clamp(0, 255) || x as i32 as i128 != t.clamp(i32::MIN as i128, i32::MAX as i128) || x as u32 as i128 != t.clamp(0, u32::MAX as i128)
                || x as usize as i128 != t.clamp(0, usize::MAX as i128) || x as i16 as i128 != t.clamp(-32768, 32767) { return bad("casts truncate and saturate", x); }
            if (0.0 * x).round() as u32 != 0 { return bad("no side times a factor is no side", x); }
            let e = if x < b { b } else if x > c { c } else { x };
            if b <= c && !same(x.clamp(b, c), e) { return bad("clamp", (x, b, c)); }
            let (s, k) = x.sin_cos();
            if !same(s, x.sin()) || !same(k, x.cos()) { return bad("sin_cos", x); }
            if x >= 0.0 && x.is_finite() && trunc(x.floor()) != trunc(x) { return bad("floor of a non-negative value is its truncation", x); }
            if !same(x.powi(2), x * x) || !same(x.powi(3), x * x * x) { return bad("powi", x); }
        }
        if (m as f32 <= n as f32) != (m <= n) { return bad("order of exact integers", (m, n)); }
        if (m + n).abs() <= M && m as f32 + n as f32 != (m + n) as f32 { return bad("exact sum", (m, n)); }
        if (m - n).abs() <= M && m as f32 - n as f32 != (m - n) as f32 { return bad("exact difference", (m, n)); }
        if !same(a + b, b + a) || !same(a * b, b * a) || !same((a - b).abs(), (b - a).abs()) { return bad("operand order", (a, b)); }
        if a >= 0.0 && a <= b && !(4.0 * a >= 0.0 && 4.0 * a <= 4.0 * b) { return bad("4 * a is monotone", (a, b)); }
        let d = r.int(1, 0xffff_ffff);
        let (p, q) = (r.int(0, d), r.int(0, d));
        if !((p.min(q) as f32) / d as f32 <= (p.max(q) as f32) / d as f32) || !(0.0 < (p + 1) as f32 / d as f32) || d as f32 / d as f32 != 1.0 { return bad("fractions", (p, q, d)); }
    }
    Ok(part as u64 + 400)
}
#[cfg(target_arch = "x86_64")]
pub fn simd(r: &mut Rng, _: u64) -> Res {
    use std::arch::x86_64::*;
    if !is_x86_feature_detected!("avx2") { return Ok(0); }
    #[target_feature(enable = "avx2")]
    unsafe fn go(r: &mut Rng) -> Option<(&'static str, Vec<u8>, Vec<u8>)> {
        let v = |r: &mut Rng| -> Vec<u8> { (0..32).map(|_| r.byte()).collect() };
        let (a, b, m) = (v(r), v(r), v(r));
        let ld = |x: &Vec<u8>| _mm256_loadu_si256(x.as_ptr() as *const _);
        let st = |x: __m256i| -> Vec<u8> { let mut o = vec![0u8; 32]; _mm256_storeu_si256(o.as_mut_ptr() as *mut _, x); o };
        let (x, y, k) = (ld(&a), ld(&b), ld(&m));
        let by = |f: &dyn Fn(i32, i32) -> i32| -> Vec<u8> { (0..32).map(|i| f(a[i] as i32, b[i] as i32) as u8).collect() };
        let w = |s: &Vec<u8>, i: usize| s[2 * i] as i64 + 256 * s[2 * i + 1] as i64;
        let wd = |f: &dyn Fn(i64, i64) -> i64| -> Vec<u8> { (0..16).flat_map(|i| { let z = f(w(&a, i), w(&b, i)) as u16; [z as u8, (z >> 8) as u8] }).collect() };
        let half = |h: usize, j: usize| 16 * (j / 8) + 8 * h + j % 8;
        let sat8 = |x: i64| if x >= 0x8000 { 0u8 } else if x > 255 { 255 } else { x as u8 };
        let big = [r.next() as i64, r.next() as i64, r.next() as i64, r.next() as i64];
        let n = r.int(0, 15) as i32;
        let bytes = |v: i64, n: usize| -> Vec<u8> { (0..32).map(|i| v.to_le_bytes()[i % n]).collect() };
        let cases: Vec<(&'static str, Vec<u8>, Vec<u8>)> = vec![
            ("adds_epu8", st(_mm256_adds_epu8(x, y)), by(&|x, y| (x + y).min(255))),
            ("subs_epu8", st(_mm256_subs_epu8(x, y)), by(&|x, y| (x - y).max(0))),
            ("add_epi8", st(_mm256_add_epi8(x, y)), by(&|x, y| (x + y) % 256)),
            ("sub_epi8", st(_mm256_sub_epi8(x, y)), by(&|x, y| (x - y).rem_euclid(256))),
            ("max_epu8", st(_mm256_max_epu8(x, y)), by(&|x, y| x.max(y))),
            ("min_epu8", st(_mm256_min_epu8(x, y)), by(&|x, y| x.min(y))),
            ("avg_epu8", st(_mm256_avg_epu8(x, y)), by(&|x, y| (x + y + 1) / 2)),
            ("and", st(_mm256_and_si256(x, y)), by(&|x, y| x & y)),
            ("or", st(_mm256_or_si256(x, y)), by(&|x, y| x | y)),
            ("xor", st(_mm256_xor_si256(x, y)), by(&|x, y| x ^ y)),
            ("blendv", st(_mm256_blendv_epi8(x, y, k)), (0..32).map(|i| if m[i] >= 128 { b[i] } else { a[i] }).collect()),
            ("add_epi16", st(_mm256_add_epi16(x, y)), wd(&|x, y| x + y)),
            ("sub_epi16", st(_mm256_sub_epi16(x, y)), wd(&|x, y| x - y)),
            ("mulhi_epu16", st(_mm256_mulhi_epu16(x, y)), wd(&|x, y| (x * y) / 0x1_0000)),
            ("mullo_epi16", st(_mm256_mullo_epi16(x, y)), wd(&|x, y| (x * y) % 0x1_0000)),
            ("srli_epi16", st(_mm256_srl_epi16(x, _mm_cvtsi32_si128(n))), wd(&|x, _| x >> n)),
            ("srli_epi16", st(_mm256_srli_epi16(x, 7)), wd(&|x, _| x >> 7)),
            ("unpacklo", st(_mm256_unpacklo_epi8(x, y)), (0..32).map(|i| if i % 2 == 0 { a[half(0, i / 2)] } else { b[half(0, i / 2)] }).collect()),
            ("unpackhi", st(_mm256_unpackhi_epi8(x, y)), (0..32).map(|i| if i % 2 == 0 { a[half(1, i / 2)] } else { b[half(1, i / 2)] }).collect()),
            ("packus_epi16", st(_mm256_packus_epi16(x, y)), (0..32).map(|i| sat8(w(if i % 16 < 8 { &a } else { &b }, 8 * (i / 16) + i % 8))).collect()),
            ("set1_epi8", st(_mm256_set1_epi8(big[0] as i8)), bytes(big[0], 1)),
            ("set1_epi16", st(_mm256_set1_epi16(big[0] as i16)), bytes(big[0], 2)),
            ("set1_epi32", st(_mm256_set1_epi32(big[0] as i32)), bytes(big[0], 4)),
            ("set1_epi64x", st(_mm256_set1_epi64x(big[0])), bytes(big[0], 8)),
            ("set_epi64x", st(_mm256_set_epi64x(big[0], big[1], big[2], big[3])), (0..32).map(|i| big[3 - i / 8].to_le_bytes()[i % 8]).collect()),
            ("setzero", st(_mm256_setzero_si256()), vec![0; 32]),
            ("storeu2_m128i", { let mut o = vec![7u8; 48]; let p = o.as_mut_ptr(); _mm256_storeu2_m128i(p.offset(30) as *mut _, p.offset(3) as *mut _, x); o },
                (0..48).map(|i| if (3..19).contains(&i) { a[i - 3] } else if (30..46).contains(&i) { a[i - 14] } else { 7 }).collect()),
        ];
        cases.into_iter().find(|c| c.1 != c.2)
    }
    match unsafe { go(r) } { None => Ok(27), Some(c) => fail(format!("assumption about the machine: _mm256_{}", c.0), &c.2, &c.1) }
}
#[cfg(not(target_arch = "x86_64"))]
pub fn simd(_: &mut Rng, _: u64) -> Res { Ok(0) }

pub const SUBS: &[Sub] = &[
    Sub { prop: "C22", name: "axioms", quick: 26, thorough: 52, run: float },
    Sub { prop: "C20", name: "axioms", quick: 26, thorough: 52, run: float },
    Sub { prop: "C27", name: "axioms", quick: 26, thorough: 52, run: float },
    Sub { prop: "C13", name: "axioms", quick: 26, thorough: 52, run: float },
    Sub { prop: "C23", name: "axioms", quick: 26, thorough: 52, run: float },
    Sub { prop: "C08", name: "axioms", quick: 2000, thorough: 20000, run: simd },
];
