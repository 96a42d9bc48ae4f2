/// Stand-ins for the library calls and language forms that the verifier does not take directly.
pub mod rt {
use vstd::prelude::*;
use crate::spec::*;
pub use crate::spec::pb;

#[verifier::external_body]
pub fn diverge() -> !
    requires panic_ok(),
{ panic!() }
#[verifier::external_body]
pub fn fmt_() -> String { String::new() }
#[verifier::external_body]
pub fn has_feature() -> bool { false }
#[verifier::external_body]
pub fn lit<T: From<u8>>(x: u8) -> (r: T)
    ensures r == lit_spec::<T>(x),
{ x.into() }
#[verifier::external_body]
pub const fn neg_f32_lit(x: f32) -> (r: f32)
    ensures r == fneg(x),
{ -x }

// --- slices of anything that is iterated over ---
pub trait RtSlice {
    type El;
    spec fn slv(&self) -> Seq<Self::El>;
    fn rt_sl(&self) -> (r: &[Self::El])
        ensures r@ == self.slv();
}
impl<T> RtSlice for [T] {
    type El = T;
    open spec fn slv(&self) -> Seq<T> { self@ }
    fn rt_sl(&self) -> (r: &[T]) { self }
}
impl<T> RtSlice for Vec<T> {
    type El = T;
    open spec fn slv(&self) -> Seq<T> { self@ }
    fn rt_sl(&self) -> (r: &[T]) { self.as_slice() }
}
impl<T, const N: usize> RtSlice for [T; N] {
    type El = T;
    open spec fn slv(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn rt_sl(&self) -> (r: &[T]) { self }
}
impl<S: RtSlice + ?Sized> RtSlice for &S {
    type El = S::El;
    open spec fn slv(&self) -> Seq<S::El> { (**self).slv() }
    fn rt_sl(&self) -> (r: &[S::El]) { (**self).rt_sl() }
}

// --- `&mut v[a..b]` ---
pub trait RtMut {
    type El;
    spec fn mv(&self) -> Seq<Self::El>;
    fn slice_mut(&mut self, a: usize, b: usize) -> (r: &mut [Self::El])
        requires a <= b <= old(self).mv().len(),
        ensures
            r@ == old(self).mv().subrange(a as int, b as int),
            final(r)@.len() == r@.len() ==> final(self).mv() == old(self).mv().subrange(0, a as int) + final(r)@ + old(self).mv().subrange(b as int, old(self).mv().len() as int);
    fn slice_mut_full(&mut self) -> (r: &mut [Self::El])
        ensures
            r@ == old(self).mv(),
            final(r)@.len() == r@.len() ==> final(self).mv() == final(r)@;
}
impl<T> RtMut for Vec<T> {
    type El = T;
    open spec fn mv(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn slice_mut(&mut self, a: usize, b: usize) -> (r: &mut [T]) { &mut self[a..b] }
    #[verifier::external_body]
    fn slice_mut_full(&mut self) -> (r: &mut [T]) { &mut self[..] }
}
impl<T> RtMut for [T] {
    type El = T;
    open spec fn mv(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn slice_mut(&mut self, a: usize, b: usize) -> (r: &mut [T]) { &mut self[a..b] }
    #[verifier::external_body]
    fn slice_mut_full(&mut self) -> (r: &mut [T]) { &mut self[..] }
}

#[verifier::external_body]
pub fn clone_from_slice_<T: Clone>(d: &mut [T], s: &[T])
    requires panic_ok() || old(d)@.len() == s@.len(),
    ensures
        old(d)@.len() == s@.len(), final(d)@.len() == s@.len(),
        forall|i: int| 0 <= i < s@.len() ==> cloned::<T>(s@[i], #[trigger] final(d)@[i]),
{ d.clone_from_slice(s) }
pub assume_specification<T: Clone>[ <[T]>::to_vec ](s: &[T]) -> (r: Vec<T>)
    ensures r@.len() == s@.len(), forall|i: int| 0 <= i < s@.len() ==> cloned::<T>(s@[i], #[trigger] r@[i]);

// --- `(a..b).step_by(n)` ---
pub trait StepBy: Sized {
    spec fn ival(&self) -> int;
    fn step_by_(c: Self, e: Self, n: usize) -> (r: Self)
        requires c.ival() < e.ival(), n > 0,
        ensures r.ival() == if c.ival() + n <= e.ival() { c.ival() + n } else { e.ival() };
}
impl StepBy for usize {
    open spec fn ival(&self) -> int { *self as int }
    fn step_by_(c: usize, e: usize, n: usize) -> (r: usize) { if e - c <= n { e } else { c + n } }
}
impl StepBy for u32 {
    open spec fn ival(&self) -> int { *self as int }
    fn step_by_(c: u32, e: u32, n: usize) -> (r: u32) { if ((e - c) as usize) <= n { e } else { c + (n as u32) } }
}
pub proof fn lemma_step(lo: int, hi: int, n: int, g: int)
    requires n > 0,
    ensures lo + (g + 1) * n == lo + g * n + n,
{
    assert((g + 1) * n == g * n + n) by (nonlinear_arith);
}

// --- numeric casts ---
macro_rules! to_float { ($tr:ident, $f:ident, $s:ident, $t:ty, $conv:ident, $($u:ty),*) => { verus!{
    pub trait $tr: Sized {
        spec fn $s(self) -> $t;
        fn $f(self) -> (r: $t) ensures r == self.$s();
    }
    $( impl $tr for $u {
        open spec fn $s(self) -> $t { $conv(self as int) }
        #[verifier::external_body]
        fn $f(self) -> (r: $t) { self as $t }
    } )*
} } }
to_float!(To_f32, to_f32_, to_f32_spec, f32, i2f, u8, u16, u32, u64, u128, usize, i16, i32, i64, isize);
to_float!(To_f64, to_f64_, to_f64_spec, f64, i2d, u8, u16, u32, u64, u128, usize, i16, i32, i64, isize);
impl To_f32 for f32 {
    open spec fn to_f32_spec(self) -> f32 { self }
    fn to_f32_(self) -> (r: f32) { self }
}
impl To_f64 for f32 {
    open spec fn to_f64_spec(self) -> f64 { f2d(self) }
    #[verifier::external_body]
    fn to_f64_(self) -> (r: f64) { self as f64 }
}
impl To_f32 for f64 {
    open spec fn to_f32_spec(self) -> f32 { d2f(self) }
    #[verifier::external_body]
    fn to_f32_(self) -> (r: f32) { self as f32 }
}
impl To_f64 for f64 {
    open spec fn to_f64_spec(self) -> f64 { self }
    fn to_f64_(self) -> (r: f64) { self }
}
macro_rules! to_int { ($tr:ident, $f:ident, $s:ident, $t:ty, $lo:expr, $hi:expr, $($u:ty),*) => { verus!{
    pub trait $tr: Sized {
        spec fn $s(self) -> $t;
        fn $f(self) -> (r: $t) ensures r == self.$s();
    }
    $( impl $tr for $u {
        open spec fn $s(self) -> $t { self as $t }
        #[verifier::truncate]
        fn $f(self) -> (r: $t) { self as $t }
    } )*
    impl $tr for f32 {
        open spec fn $s(self) -> $t { sat(f2i(self), $lo as int, $hi as int) as $t }
        #[verifier::external_body]
        fn $f(self) -> (r: $t) { self as $t }
    }
    impl $tr for f64 {
        open spec fn $s(self) -> $t { sat(d2i(self), $lo as int, $hi as int) as $t }
        #[verifier::external_body]
        fn $f(self) -> (r: $t) { self as $t }
    }
} } }
to_int!(To_u8, to_u8_, to_u8_spec, u8, u8::MIN, u8::MAX, u8, u16, u32, u64, usize, i16, i32, i64, isize);
to_int!(To_u16, to_u16_, to_u16_spec, u16, u16::MIN, u16::MAX, u8, u16, u32, u64, usize, i16, i32, i64, isize);
to_int!(To_u32, to_u32_, to_u32_spec, u32, u32::MIN, u32::MAX, u8, u16, u32, u64, usize, i16, i32, i64, isize);
to_int!(To_u64, to_u64_, to_u64_spec, u64, u64::MIN, u64::MAX, u8, u16, u32, u64, usize, i16, i32, i64, isize);
to_int!(To_usize, to_usize_, to_usize_spec, usize, usize::MIN, usize::MAX, u8, u16, u32, u64, usize, i16, i32, i64, isize);
to_int!(To_i16, to_i16_, to_i16_spec, i16, i16::MIN, i16::MAX, u8, u16, u32, u64, usize, i16, i32, i64, isize);
to_int!(To_i32, to_i32_, to_i32_spec, i32, i32::MIN, i32::MAX, u8, u16, u32, u64, usize, i16, i32, i64, isize);
to_int!(To_i64, to_i64_, to_i64_spec, i64, i64::MIN, i64::MAX, u8, u16, u32, u64, usize, i16, i32, i64, isize);
to_int!(To_isize, to_isize_, to_isize_spec, isize, isize::MIN, isize::MAX, u8, u16, u32, u64, usize, i16, i32, i64, isize);

pub assume_specification[ i64::saturating_mul ](x: i64, y: i64) -> (r: i64) ensures r == sat(x * y, i64::MIN as int, i64::MAX as int);
// --- f32 methods ---
pub assume_specification[ f32::round ](x: f32) -> (r: f32) ensures r == fround(x);
pub assume_specification[ f64::round ](x: f64) -> (r: f64) ensures r == dround(x);
pub assume_specification[ f32::floor ](x: f32) -> (r: f32) ensures r == ffloor(x);
pub assume_specification[ f32::ceil ](x: f32) -> (r: f32) ensures r == fceil(x);
pub assume_specification[ f32::sqrt ](x: f32) -> (r: f32) ensures r == fsqrt(x);
pub assume_specification[ f32::abs ](x: f32) -> (r: f32) ensures r == fabs(x);
pub assume_specification[ f32::sin ](x: f32) -> (r: f32) ensures r == fsin(x);
pub assume_specification[ f32::cos ](x: f32) -> (r: f32) ensures r == fcos(x);
pub assume_specification[ f32::sin_cos ](x: f32) -> (r: (f32, f32)) ensures r.0 == fsin(x), r.1 == fcos(x);
pub assume_specification[ f32::to_radians ](x: f32) -> (r: f32) ensures r == fradians(x);
pub assume_specification[ f32::powf ](x: f32, y: f32) -> (r: f32) ensures r == fpow(x, y);
pub assume_specification[ f32::powi ](x: f32, n: i32) -> (r: f32) ensures r == fpowi(x, n as int);
pub assume_specification[ f32::clamp ](x: f32, lo: f32, hi: f32) -> (r: f32)
    requires panic_ok() || fle(lo, hi),
    ensures fle(lo, hi), r == fclamp(x, lo, hi);
pub exec const PI: f32 ensures PI == pi_spec() { pi_() }
pub exec const E: f32 ensures E == e_spec() { e_() }
#[verifier::external_body]
pub const fn pi_() -> (r: f32) ensures r == pi_spec() { core::f32::consts::PI }
#[verifier::external_body]
pub const fn e_() -> (r: f32) ensures r == e_spec() { core::f32::consts::E }

// --- rayon: `(a..b).into_par_iter().map(f).collect()` keeps the order of the range ---
#[verifier::external_body]
pub fn par_map_range<S, F: Fn(u32) -> S + Sync + Send>(a: u32, b: u32, f: F) -> (r: Vec<S>)
    requires forall|i: u32| a <= i < b ==> #[trigger] f.requires((i,)),
    ensures
        r@.len() == (if a <= b { b - a } else { 0 }),
        forall|i: int| 0 <= i < r@.len() ==> f.ensures(((a + i) as u32,), #[trigger] r@[i]),
{ (a..b).map(f).collect() }

// --- `x.into()` between image types, `s.iter().min_by(|x, y| x.partial_cmp(y).unwrap())` ---
pub trait RtInto<U>: Sized {
    spec fn into_req(self) -> bool;
    spec fn into_rel(self, r: U) -> bool;
    fn rt_into(self) -> (r: U)
        requires self.into_req(),
        ensures self.into_rel(r);
}
/// Smallest value; panics when two values are not comparable.
#[verifier::external_body]
pub fn slice_min_f32(s: &[f32]) -> (r: Option<&f32>)
    requires panic_ok() || forall|i: int| 0 <= i < s@.len() ==> !nan(#[trigger] s@[i]),
    ensures
        r is Some == (s@.len() > 0),
        s@.len() > 1 ==> forall|i: int| 0 <= i < s@.len() ==> !nan(#[trigger] s@[i]),
        r is Some ==> exists|i: int| 0 <= i < s@.len() && #[trigger] s@[i] == *r->Some_0,
        (forall|i: int| 0 <= i < s@.len() ==> !nan(#[trigger] s@[i])) ==> r is Some ==> forall|i: int| 0 <= i < s@.len() ==> fle(*r->Some_0, #[trigger] s@[i]),
{ s.iter().min_by(|x, y| x.partial_cmp(y).unwrap()) }
/// Largest value; panics when two values are not comparable.
#[verifier::external_body]
pub fn slice_max_f32(s: &[f32]) -> (r: Option<&f32>)
    requires panic_ok() || forall|i: int| 0 <= i < s@.len() ==> !nan(#[trigger] s@[i]),
    ensures
        r is Some == (s@.len() > 0),
        s@.len() > 1 ==> forall|i: int| 0 <= i < s@.len() ==> !nan(#[trigger] s@[i]),
        r is Some ==> exists|i: int| 0 <= i < s@.len() && #[trigger] s@[i] == *r->Some_0,
        (forall|i: int| 0 <= i < s@.len() ==> !nan(#[trigger] s@[i])) ==> r is Some ==> forall|i: int| 0 <= i < s@.len() ==> fle(#[trigger] s@[i], *r->Some_0),
{ s.iter().max_by(|x, y| x.partial_cmp(y).unwrap()) }

/// A 256-bit vector: 32 bytes, lowest address first.
#[allow(non_camel_case_types)]
pub struct __m256i { pub l: Ghost<Seq<u8>> }
impl Clone for __m256i {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl Copy for __m256i {}
/// Value of byte `j` (lowest first) of the two's complement form of `x`.
pub open spec fn byte_of(x: int, j: int) -> int {
    (if j == 0 { x } else if j == 1 { x / 0x100 } else if j == 2 { x / 0x1_0000 } else if j == 3 { x / 0x100_0000 } else if j == 4 { x / 0x1_0000_0000 }
     else if j == 5 { x / 0x100_0000_0000 } else if j == 6 { x / 0x1_0000_0000_0000 } else { x / 0x100_0000_0000_0000 }) % 256
}
pub open spec fn byte4(a: int, b: int, c: int, d: int, i: int) -> int {
    byte_of(if i < 8 { d } else if i < 16 { c } else if i < 24 { b } else { a }, i % 8)
}
/// 16-bit lane `i`.
pub open spec fn w16(v: __m256i, i: int) -> int { v.l@[2 * i] + 256 * v.l@[2 * i + 1] }
pub open spec fn sat8(x: int) -> u8 { if x >= 0x8000 { 0 } else if x > 255 { 255 } else { x as u8 } }
macro_rules! set1 { ($f:ident, $t:ty, $n:expr) => { verus!{
    #[verifier::external_body]
    pub fn $f(x: $t) -> (r: __m256i)
        ensures r.l@.len() == 32, forall|i: int| 0 <= i < 32 ==> #[trigger] r.l@[i] == byte_of(x as int, i % $n),
    { unimplemented!() }
} } }
set1!(_mm256_set1_epi8, i8, 1);
set1!(_mm256_set1_epi16, i16, 2);
set1!(_mm256_set1_epi32, i32, 4);
set1!(_mm256_set1_epi64x, i64, 8);
#[verifier::external_body]
pub fn _mm256_set_epi64x(a: i64, b: i64, c: i64, d: i64) -> (r: __m256i)
    ensures r.l@.len() == 32, forall|i: int| 0 <= i < 32 ==> #[trigger] r.l@[i] == byte4(a as int, b as int, c as int, d as int, i),
{ unimplemented!() }
#[verifier::external_body]
pub fn _mm256_setzero_si256() -> (r: __m256i)
    ensures r.l@.len() == 32, forall|i: int| 0 <= i < 32 ==> #[trigger] r.l@[i] == 0,
{ unimplemented!() }
macro_rules! bytewise { ($f:ident, |$x:ident, $y:ident| $e:expr) => { verus!{
    #[verifier::external_body]
    pub fn $f(a: __m256i, b: __m256i) -> (r: __m256i)
        ensures r.l@.len() == 32, forall|i: int| 0 <= i < 32 ==> #[trigger] r.l@[i] == ({ let ($x, $y) = (a.l@[i], b.l@[i]); $e }),
    { unimplemented!() }
} } }
bytewise!(_mm256_adds_epu8, |x, y| if x + y > 255 { 255 } else { x + y });
bytewise!(_mm256_subs_epu8, |x, y| if x < y { 0 } else { x - y });
bytewise!(_mm256_add_epi8, |x, y| (x + y) % 256);
bytewise!(_mm256_sub_epi8, |x, y| (x - y) % 256);
bytewise!(_mm256_max_epu8, |x, y| if x < y { y } else { x });
bytewise!(_mm256_min_epu8, |x, y| if x < y { x } else { y });
bytewise!(_mm256_avg_epu8, |x, y| (x + y + 1) / 2);
bytewise!(_mm256_and_si256, |x, y| x & y);
bytewise!(_mm256_or_si256, |x, y| x | y);
bytewise!(_mm256_xor_si256, |x, y| x ^ y);
#[verifier::external_body]
pub fn _mm256_blendv_epi8(a: __m256i, b: __m256i, mask: __m256i) -> (r: __m256i)
    ensures r.l@.len() == 32, forall|i: int| 0 <= i < 32 ==> #[trigger] r.l@[i] == (if mask.l@[i] >= 128 { b.l@[i] } else { a.l@[i] }),
{ unimplemented!() }
macro_rules! wordwise { ($f:ident, |$x:ident, $y:ident| $e:expr) => { verus!{
    #[verifier::external_body]
    pub fn $f(a: __m256i, b: __m256i) -> (r: __m256i)
        ensures r.l@.len() == 32, forall|i: int| 0 <= i < 16 ==> #[trigger] w16(r, i) == ({ let ($x, $y) = (w16(a, i), w16(b, i)); $e }),
    { unimplemented!() }
} } }
wordwise!(_mm256_add_epi16, |x, y| (x + y) % 0x1_0000);
wordwise!(_mm256_sub_epi16, |x, y| (x - y) % 0x1_0000);
#[verifier::opaque]
pub open spec fn mulhi16(x: int, y: int) -> int { (x * y) / 0x1_0000 }
#[verifier::opaque]
pub open spec fn mullo16(x: int, y: int) -> int { (x * y) % 0x1_0000 }
wordwise!(_mm256_mulhi_epu16, |x, y| mulhi16(x, y));
wordwise!(_mm256_mullo_epi16, |x, y| mullo16(x, y));
#[verifier::external_body]
pub fn _mm256_srli_epi16(a: __m256i, n: i32) -> (r: __m256i)
    requires 0 <= n < 16,
    ensures r.l@.len() == 32, forall|i: int| 0 <= i < 16 ==> #[trigger] w16(r, i) == w16(a, i) / pow2i(n as int),
{ unimplemented!() }
pub open spec fn pow2i(n: int) -> int {
    if n == 0 { 1 } else if n == 1 { 2 } else if n == 2 { 4 } else if n == 3 { 8 } else if n == 4 { 16 } else if n == 5 { 32 } else if n == 6 { 64 } else if n == 7 { 128 }
    else if n == 8 { 256 } else if n == 9 { 512 } else if n == 10 { 1024 } else if n == 11 { 2048 } else if n == 12 { 4096 } else if n == 13 { 8192 } else if n == 14 { 16384 } else { 32768 }
}
/// Where the `j`-th pair of an unpack comes from: bytes 8h.. of each 128-bit half.
pub open spec fn half(h: int, j: int) -> int { 16 * (j / 8) + 8 * h + j % 8 }
/// The 16-bit lane (of the first operand for the lower 8 bytes of each half) that byte `i` of a pack comes from.
pub open spec fn packed_from(i: int) -> int { 8 * (i / 16) + i % 8 }
macro_rules! unpack { ($f:ident, $h:expr) => { verus!{
    #[verifier::external_body]
    pub fn $f(a: __m256i, b: __m256i) -> (r: __m256i)
        ensures
            r.l@.len() == 32,
            forall|i: int| 0 <= i < 32 ==> #[trigger] r.l@[i] == (if i % 2 == 0 { a.l@[half($h, i / 2)] } else { b.l@[half($h, i / 2)] }),
            forall|j: int| 0 <= j < 16 ==> #[trigger] w16(r, j) == a.l@[half($h, j)] + 256 * b.l@[half($h, j)],
    { unimplemented!() }
} } }
unpack!(_mm256_unpacklo_epi8, 0);
unpack!(_mm256_unpackhi_epi8, 1);
#[verifier::external_body]
pub fn _mm256_packus_epi16(a: __m256i, b: __m256i) -> (r: __m256i)
    ensures
        r.l@.len() == 32,
        forall|i: int| 0 <= i < 32 ==> #[trigger] r.l@[i] == sat8(w16(if i % 16 < 8 { a } else { b }, packed_from(i))),
{ unimplemented!() }
/// `_mm256_loadu_si256(s.as_ptr().offset(off))`: all 32 bytes lie in the slice.
#[verifier::external_body]
pub fn loadu256(s: &[u8], off: isize) -> (r: __m256i)
    requires 0 <= off, off + 32 <= s@.len(),
    ensures r.l@.len() == 32, forall|i: int| 0 <= i < 32 ==> #[trigger] r.l@[i] == s@[off + i],
{ unimplemented!() }
/// `_mm256_storeu_si256(v.as_mut_ptr().offset(off), x)`
#[verifier::external_body]
pub fn storeu256(v: &mut Vec<u8>, off: isize, x: __m256i)
    requires 0 <= off, off + 32 <= old(v)@.len(),
    ensures
        final(v)@.len() == old(v)@.len(),
        forall|i: int| 0 <= i < old(v)@.len() ==> #[trigger] final(v)@[i] == (if off <= i < off + 32 { x.l@[i - off] } else { old(v)@[i] }),
{ unimplemented!() }
/// `_mm256_storeu2_m128i(v.as_mut_ptr().offset(hi), v.as_mut_ptr().offset(lo), x)`: the lower half is stored first.
#[verifier::external_body]
pub fn storeu2_128(v: &mut Vec<u8>, hi: isize, lo: isize, x: __m256i)
    requires 0 <= lo, lo + 16 <= old(v)@.len(), 0 <= hi, hi + 16 <= old(v)@.len(), lo + 16 <= hi || hi + 16 <= lo,
    ensures
        final(v)@.len() == old(v)@.len(),
        forall|i: int| 0 <= i < old(v)@.len() ==> #[trigger] final(v)@[i] == (if lo <= i < lo + 16 { x.l@[i - lo] } else if hi <= i < hi + 16 { x.l@[i - hi + 16] } else { old(v)@[i] }),
{ unimplemented!() }
pub open spec fn ipow(x: int, e: nat) -> int
    decreases e,
{
    if e == 0 { 1 } else { x * ipow(x, (e - 1) as nat) }
}
pub assume_specification[i16::pow](x: i16, e: u32) -> (r: i16)
    requires -0x8000 <= ipow(x as int, e as nat) < 0x8000,
    ensures r == ipow(x as int, e as nat);
pub assume_specification[i32::pow](x: i32, e: u32) -> (r: i32)
    requires -0x8000_0000 <= ipow(x as int, e as nat) < 0x8000_0000,
    ensures r == ipow(x as int, e as nat);
pub assume_specification[i16::abs](x: i16) -> (r: i16)
    requires x > i16::MIN,
    ensures r == (if x < 0 { -x } else { x as int });
pub assume_specification[i32::abs](x: i32) -> (r: i32)
    requires x > i32::MIN,
    ensures r == (if x < 0 { -x } else { x as int });
pub proof fn lemma_ipow()
    ensures ipow(2, 14) == 0x4000, ipow(2, 15) == 0x8000, ipow(2, 30) == 0x4000_0000, ipow(2, 7) == 128, ipow(2, 6) == 64,
{
    assert(ipow(2, 14) == 0x4000) by (compute);
    assert(ipow(2, 15) == 0x8000) by (compute);
    assert(ipow(2, 30) == 0x4000_0000) by (compute);
    assert(ipow(2, 7) == 128) by (compute);
    assert(ipow(2, 6) == 64) by (compute);
}
/// Narrowing i16 -> i8 keeps the low byte.
pub proof fn lemma_i8()
    ensures forall|v: i16| 0 <= v <= 255 ==> byte_of((#[trigger] (v as i8)) as int, 0) == v,
{
    assert forall|v: i16| 0 <= v <= 255 implies byte_of((#[trigger] (v as i8)) as int, 0) == v by {
        assert(0 <= v < 128 ==> v as i8 == v) by (bit_vector);
        assert(128 <= v <= 255 ==> v as i8 == v - 256) by (bit_vector);
    }
}

// --- maps with integer keys ---
pub trait MapKey { spec fn mk(&self) -> int; }
impl MapKey for i32 { open spec fn mk(&self) -> int { *self as int } }
impl MapKey for u32 { open spec fn mk(&self) -> int { *self as int } }
impl MapKey for i64 { open spec fn mk(&self) -> int { *self as int } }
impl MapKey for u8 { open spec fn mk(&self) -> int { *self as int } }
impl MapKey for usize { open spec fn mk(&self) -> int { *self as int } }

/// Stand-in for `std::collections::BTreeMap`: a finite map that iterates in ascending order of its keys.
#[verifier::external_body]
#[verifier::accept_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct BTreeMap<K, V> { m: Vec<(K, V)> }
impl<K, V> View for BTreeMap<K, V> {
    type V = Map<K, V>;
    uninterp spec fn view(&self) -> Map<K, V>;
}
impl<K, V> BTreeMap<K, V> {
    /// The entries in the order of iteration, and where a key is among them.
    pub uninterp spec fn entries(&self) -> Seq<(K, V)>;
    pub uninterp spec fn pos_of(&self, k: K) -> int;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.insert(k, v),
            r == (if old(self)@.contains_key(k) { Some(old(self)@[k]) } else { None::<V> }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &K) -> (r: bool) ensures r == self@.contains_key(*k) { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &K) -> (r: Option<&V>)
        ensures r is Some == self@.contains_key(*k), r is Some ==> *r->Some_0 == self@[*k],
    { unimplemented!() }
    /// `m.entry(k).or_insert(d)`
    #[verifier::external_body]
    pub fn entry_or_insert(&mut self, k: K, d: V) -> (r: &mut V)
        ensures *r == (if old(self)@.contains_key(k) { old(self)@[k] } else { d }), final(self)@ == old(self)@.insert(k, *final(r)),
    { unimplemented!() }
}
impl<K, V> RtSlice for BTreeMap<K, V> {
    type El = (K, V);
    open spec fn slv(&self) -> Seq<(K, V)> { self.entries() }
    #[verifier::external_body]
    fn rt_sl(&self) -> (r: &[(K, V)]) { unimplemented!() }
}
/// Axiom: iteration visits every entry once, keys ascending.
#[verifier::external_body]
pub proof fn btree_entries<K: MapKey, V>(m: &BTreeMap<K, V>)
    ensures
        forall|i: int| 0 <= i < m.entries().len() ==> m@.contains_key((#[trigger] m.entries()[i]).0) && m@[m.entries()[i].0] == m.entries()[i].1,
        forall|k: K| #[trigger] m@.contains_key(k) ==> 0 <= m.pos_of(k) < m.entries().len() && m.entries()[m.pos_of(k)].0 == k,
        forall|i: int, j: int| 0 <= i < j < m.entries().len() ==> (#[trigger] m.entries()[i]).0.mk() < (#[trigger] m.entries()[j]).0.mk(),
{}

/// Stand-in for `std::collections::HashMap`: a finite map that iterates in some order.
#[verifier::external_body]
#[verifier::accept_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct HashMap<K, V> { m: Vec<(K, V)> }
impl<K, V> View for HashMap<K, V> {
    type V = Map<K, V>;
    uninterp spec fn view(&self) -> Map<K, V>;
}
impl<K, V> HashMap<K, V> {
    /// The entries in the order of iteration, and where a key is among them.
    pub uninterp spec fn entries(&self) -> Seq<(K, V)>;
    pub uninterp spec fn pos_of(&self, k: K) -> int;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.insert(k, v),
            r == (if old(self)@.contains_key(k) { Some(old(self)@[k]) } else { None::<V> }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &K) -> (r: bool) ensures r == self@.contains_key(*k) { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &K) -> (r: Option<&V>)
        ensures r is Some == self@.contains_key(*k), r is Some ==> *r->Some_0 == self@[*k],
    { unimplemented!() }
    /// `m.entry(k).or_insert(d)`
    #[verifier::external_body]
    pub fn entry_or_insert(&mut self, k: K, d: V) -> (r: &mut V)
        ensures *r == (if old(self)@.contains_key(k) { old(self)@[k] } else { d }), final(self)@ == old(self)@.insert(k, *final(r)),
    { unimplemented!() }
}
impl<K, V> RtSlice for HashMap<K, V> {
    type El = (K, V);
    open spec fn slv(&self) -> Seq<(K, V)> { self.entries() }
    #[verifier::external_body]
    fn rt_sl(&self) -> (r: &[(K, V)]) { unimplemented!() }
}
/// Axiom: iteration visits every entry once.
#[verifier::external_body]
pub proof fn hash_entries<K: MapKey, V>(m: &HashMap<K, V>)
    ensures
        forall|i: int| 0 <= i < m.entries().len() ==> m@.contains_key((#[trigger] m.entries()[i]).0) && m@[m.entries()[i].0] == m.entries()[i].1,
        forall|k: K| #[trigger] m@.contains_key(k) ==> 0 <= m.pos_of(k) < m.entries().len() && m.entries()[m.pos_of(k)].0 == k,
        forall|i: int, j: int| 0 <= i < j < m.entries().len() ==> (#[trigger] m.entries()[i]).0.mk() != (#[trigger] m.entries()[j]).0.mk(),
{}
}
