/// Ghost vocabulary shared by all contracts.
pub mod spec {
use vstd::prelude::*;
use crate::image::Number;
use vstd::std_specs::ops::{AddSpec, SubSpec, MulSpec, DivSpec, RemSpec, NegSpec};
use vstd::std_specs::cmp::{PartialEqSpec, PartialOrdSpec};
use core::cmp::Ordering;

/// The caller asks for a panic (an argument is outside the documented domain).
pub uninterp spec fn panic_ok() -> bool;
/// Guards of the vacuity probes.
pub uninterp spec fn pb(k: int) -> bool;

// ----- channel arithmetic, for every channel type -----
pub open spec fn nadd<T: Number>(a: T, b: T) -> T { <T as AddSpec<T>>::add_spec(a, b) }
pub open spec fn nsub<T: Number>(a: T, b: T) -> T { <T as SubSpec<T>>::sub_spec(a, b) }
pub open spec fn nmul<T: Number>(a: T, b: T) -> T { <T as MulSpec<T>>::mul_spec(a, b) }
pub open spec fn nrem<T: Number>(a: T, b: T) -> T { <T as RemSpec<T>>::rem_spec(a, b) }
pub open spec fn nadd_ok<T: Number>(a: T, b: T) -> bool { <T as AddSpec<T>>::add_req(a, b) && <T as AddSpec<T>>::obeys_add_spec() }
pub open spec fn nsub_ok<T: Number>(a: T, b: T) -> bool { <T as SubSpec<T>>::sub_req(a, b) && <T as SubSpec<T>>::obeys_sub_spec() }
pub open spec fn nmul_ok<T: Number>(a: T, b: T) -> bool { <T as MulSpec<T>>::mul_req(a, b) && <T as MulSpec<T>>::obeys_mul_spec() }
pub open spec fn nrem_ok<T: Number>(a: T, b: T) -> bool { <T as RemSpec<T>>::rem_req(a, b) && <T as RemSpec<T>>::obeys_rem_spec() }
pub open spec fn peq<T: PartialEq>(a: T, b: T) -> bool { <T as PartialEqSpec<T>>::eq_spec(&a, &b) }
pub open spec fn peq_ok<T: PartialEq>() -> bool { <T as PartialEqSpec<T>>::obeys_eq_spec() }
pub open spec fn neq<T: Number>(a: T, b: T) -> bool { <T as PartialEqSpec<T>>::eq_spec(&a, &b) }
pub open spec fn ncmp<T: Number>(a: T, b: T) -> Option<Ordering> { <T as PartialOrdSpec<T>>::partial_cmp_spec(&a, &b) }
pub open spec fn nlt<T: Number>(a: T, b: T) -> bool { ncmp(a, b) == Some(Ordering::Less) }
pub open spec fn ngt<T: Number>(a: T, b: T) -> bool { ncmp(a, b) == Some(Ordering::Greater) }
pub open spec fn nle<T: Number>(a: T, b: T) -> bool { ncmp(a, b) == Some(Ordering::Less) || ncmp(a, b) == Some(Ordering::Equal) }
pub open spec fn nge<T: Number>(a: T, b: T) -> bool { ncmp(a, b) == Some(Ordering::Greater) || ncmp(a, b) == Some(Ordering::Equal) }
/// The operators of the channel type are the ones the specification talks about.
pub open spec fn n_ok<T: Number>() -> bool {
    &&& <T as PartialEqSpec<T>>::obeys_eq_spec()
    &&& <T as PartialOrdSpec<T>>::obeys_partial_cmp_spec()
}
/// `T::from(x)` for a small constant.
pub uninterp spec fn lit_spec<T>(x: u8) -> T;

/// Axiom: conversion of a `u8` to the built-in channel types keeps the value; the value is its own clone.
#[verifier::external_body]
pub proof fn lit_axioms()
    ensures
        forall|x: u8| #[trigger] lit_spec::<u8>(x) == x,
        forall|x: u8| #[trigger] lit_spec::<i16>(x) == x as i16,
        forall|x: u8| #[trigger] lit_spec::<u16>(x) == x as u16,
        forall|x: u8| #[trigger] lit_spec::<u32>(x) == x as u32,
        forall|x: u8| #[trigger] lit_spec::<i32>(x) == x as i32,
        forall|x: u8| #[trigger] lit_spec::<i64>(x) == x as i64,
        forall|x: u8| #[trigger] lit_spec::<usize>(x) == x as usize,
        forall|x: u8| #[trigger] lit_spec::<f32>(x) == i2f(x as int),
        lit_spec::<f32>(0) == 0.0f32,
{}
/// Axiom: cloning a value of a `Copy` channel type copies it.
#[verifier::external_body]
pub proof fn clone_axiom<T: Copy>()
    ensures forall|a: T, b: T| #[trigger] cloned::<T>(a, b) ==> a == b,
{}

// ----- f32 arithmetic: deterministic functions of the operands -----
pub open spec fn fadd(a: f32, b: f32) -> f32 { nadd::<f32>(a, b) }
pub open spec fn fsub(a: f32, b: f32) -> f32 { nsub::<f32>(a, b) }
pub open spec fn fmul(a: f32, b: f32) -> f32 { nmul::<f32>(a, b) }
pub open spec fn fdiv(a: f32, b: f32) -> f32 { <f32 as DivSpec<f32>>::div_spec(a, b) }
pub open spec fn frem(a: f32, b: f32) -> f32 { nrem::<f32>(a, b) }
pub open spec fn fneg(a: f32) -> f32 { <f32 as NegSpec>::neg_spec(a) }
pub open spec fn flt(a: f32, b: f32) -> bool { nlt::<f32>(a, b) }
pub open spec fn fgt(a: f32, b: f32) -> bool { ngt::<f32>(a, b) }
pub open spec fn fle(a: f32, b: f32) -> bool { nle::<f32>(a, b) }
pub open spec fn fge(a: f32, b: f32) -> bool { nge::<f32>(a, b) }
pub open spec fn feq(a: f32, b: f32) -> bool { neq::<f32>(a, b) }
pub uninterp spec fn fround(a: f32) -> f32;
pub uninterp spec fn ffloor(a: f32) -> f32;
pub uninterp spec fn fceil(a: f32) -> f32;
pub uninterp spec fn fsqrt(a: f32) -> f32;
pub uninterp spec fn fabs(a: f32) -> f32;
pub uninterp spec fn fsin(a: f32) -> f32;
pub uninterp spec fn fcos(a: f32) -> f32;
pub uninterp spec fn fradians(a: f32) -> f32;
pub uninterp spec fn fpow(a: f32, b: f32) -> f32;
pub uninterp spec fn fpowi(a: f32, n: int) -> f32;
pub open spec fn fclamp(x: f32, lo: f32, hi: f32) -> f32 {
    if flt(x, lo) { lo } else if fgt(x, hi) { hi } else { x }
}
/// Nearest f32 of an integer.
pub uninterp spec fn i2f(n: int) -> f32;
/// Truncation towards zero; 0 for NaN, an integer outside every integer type for the infinities.
pub uninterp spec fn f2i(x: f32) -> int;
pub open spec fn sat(n: int, lo: int, hi: int) -> int { if n < lo { lo } else if n > hi { hi } else { n } }
pub uninterp spec fn f2d(x: f32) -> f64;
pub uninterp spec fn i2d(n: int) -> f64;
pub uninterp spec fn d2f(x: f64) -> f32;
pub uninterp spec fn d2i(x: f64) -> int;
pub uninterp spec fn dround(x: f64) -> f64;
pub open spec fn f2u8(x: f32) -> u8 { sat(f2i(x), 0, 255) as u8 }
pub open spec fn f2u32(x: f32) -> u32 { sat(f2i(x), 0, 0xffff_ffff) as u32 }
pub open spec fn f2i32(x: f32) -> i32 { sat(f2i(x), -0x8000_0000, 0x7fff_ffff) as i32 }
pub uninterp spec fn e_spec() -> f32;
pub uninterp spec fn pi_spec() -> f32;

/// Axiom: the f32 operators have no precondition and are functions of their operands.
#[verifier::external_body]
pub proof fn float_axioms()
    ensures
        forall|a: f32, b: f32| #[trigger] <f32 as AddSpec<f32>>::add_req(a, b),
        forall|a: f32, b: f32| #[trigger] <f32 as SubSpec<f32>>::sub_req(a, b),
        forall|a: f32, b: f32| #[trigger] <f32 as MulSpec<f32>>::mul_req(a, b),
        forall|a: f32, b: f32| #[trigger] <f32 as DivSpec<f32>>::div_req(a, b),
        forall|a: f32, b: f32| #[trigger] <f32 as RemSpec<f32>>::rem_req(a, b),
        forall|a: f32| #[trigger] <f32 as NegSpec>::neg_req(a),
        <f32 as AddSpec<f32>>::obeys_add_spec(),
        <f32 as SubSpec<f32>>::obeys_sub_spec(),
        <f32 as MulSpec<f32>>::obeys_mul_spec(),
        <f32 as DivSpec<f32>>::obeys_div_spec(),
        <f32 as RemSpec<f32>>::obeys_rem_spec(),
        <f32 as NegSpec>::obeys_neg_spec(),
        <f32 as PartialEqSpec<f32>>::obeys_eq_spec(),
        <f32 as PartialOrdSpec<f32>>::obeys_partial_cmp_spec(),
        forall|a: &f32, b: f32| #[trigger] <&f32 as SubSpec<f32>>::sub_req(a, b),
        forall|a: &f32, b: f32| #[trigger] <&f32 as SubSpec<f32>>::sub_spec(a, b) == fsub(*a, b),
        <&f32 as SubSpec<f32>>::obeys_sub_spec(),
        forall|a: f32, b: &f32| #[trigger] <f32 as MulSpec<&f32>>::mul_req(a, b),
        forall|a: f32, b: &f32| #[trigger] <f32 as MulSpec<&f32>>::mul_spec(a, b) == fmul(a, *b),
        <f32 as MulSpec<&f32>>::obeys_mul_spec(),
        forall|a: f32, b: &f32| #[trigger] <f32 as AddSpec<&f32>>::add_req(a, b),
        forall|a: f32, b: &f32| #[trigger] <f32 as AddSpec<&f32>>::add_spec(a, b) == fadd(a, *b),
        <f32 as AddSpec<&f32>>::obeys_add_spec(),
{}

/// Axiom (IEEE 754): division is correctly rounded, hence monotone in the numerator.
#[verifier::external_body]
pub proof fn float_frac_axioms()
    ensures
        forall|a: int, b: int, n: int| 0 <= a <= b && 1 <= n <= 0xffff_ffff ==> fle(#[trigger] fdiv(i2f(a), i2f(n)), #[trigger] fdiv(i2f(b), i2f(n))),
        forall|a: int, n: int| 1 <= a && 1 <= n <= 0xffff_ffff ==> flt(0.0f32, #[trigger] fdiv(i2f(a), i2f(n))),
        forall|n: int| 1 <= n <= 0xffff_ffff ==> #[trigger] fdiv(i2f(n), i2f(n)) == 1.0f32,
{}

/// Axiom: bounds for `4 * r^(2/3)`, the number of columns that the median filters process at once.
/// (The first clause is checked for each such `r` against the platform's `powf` by the witness program.)
#[verifier::external_body]
pub proof fn float_cols_axioms()
    ensures
        forall|r: int| 0 <= r <= 0x1_0000 ==> fle(0.0f32, #[trigger] fpow(i2f(r), fdiv(2.0f32, 3.0f32))) && fle(fpow(i2f(r), fdiv(2.0f32, 3.0f32)), i2f(r)),
        forall|a: f32, b: f32| fle(0.0f32, a) && fle(a, b) ==> fle(0.0f32, #[trigger] fmul(4.0f32, a)) && fle(fmul(4.0f32, a), #[trigger] fmul(4.0f32, b)),
        forall|n: int| 0 <= n <= 0x4_0000 ==> #[trigger] fmul(4.0f32, i2f(n)) == i2f(4 * n),
        forall|a: f32| fle(0.0f32, a) ==> f2i(#[trigger] ffloor(a)) == f2i(a),
{}
/// `4 * r^(2/3)`, truncated, is at most `4 * r`.
pub proof fn lemma_cols(r: int)
    requires 0 <= r <= 0x1_0000,
    ensures ({ let a = fmul(4.0f32, fpow(i2f(r), fdiv(2.0f32, 3.0f32))); 0 <= f2i(a) <= 4 * r && f2i(ffloor(a)) == f2i(a) }),
{
    float_cols_axioms(); float_int_axioms(); float_order_axioms();
    let p = fpow(i2f(r), fdiv(2.0f32, 3.0f32));
    assert(fle(fmul(4.0f32, p), fmul(4.0f32, i2f(r))));
    assert(f2i(i2f(4 * r)) == 4 * r);
}
/// Axiom: i32 operators on references are those on the values.
#[verifier::external_body]
pub proof fn int_ref_axioms()
    ensures
        forall|a: i32, b: &i32| #[trigger] <i32 as AddSpec<&i32>>::add_req(a, b) <==> i32::MIN <= a + *b <= i32::MAX,
        forall|a: i32, b: &i32| #[trigger] <i32 as AddSpec<&i32>>::add_spec(a, b) as int == a + *b,
        <i32 as AddSpec<&i32>>::obeys_add_spec(),
{}

/// Axiom (IEEE 754): facts about exactly representable integers and about order.
#[verifier::external_body]
pub proof fn float_int_axioms()
    ensures
        forall|n: int| -0x100_0000 <= n <= 0x100_0000 ==> f2i(#[trigger] i2f(n)) == n,
        forall|n: int| -0x100_0000 <= n <= 0x100_0000 ==> fround(#[trigger] i2f(n)) == i2f(n),
        forall|n: int| -0x100_0000 <= n <= 0x100_0000 ==> d2i(#[trigger] i2d(n)) == n,
        forall|n: int| -0x100_0000 <= n <= 0x100_0000 ==> dround(#[trigger] i2d(n)) == i2d(n),
        i2f(0) == 0.0f32,
        i2f(1) == 1.0f32,
        i2f(2) == 2.0f32,
        i2f(255) == 255.0f32,
{}

/// Axiom (IEEE 754): order of f32 values, conversion to integers is monotone, NaN becomes 0.
#[verifier::external_body]
pub proof fn float_order_axioms()
    ensures
        forall|a: f32, b: f32| #[trigger] ncmp::<f32>(a, b) is None <==> (!feq(a, a) || !feq(b, b)),
        forall|a: f32, b: f32| #[trigger] ncmp::<f32>(a, b) == Some(Ordering::Less) <==> ncmp::<f32>(b, a) == Some(Ordering::Greater),
        forall|a: f32, b: f32| #[trigger] ncmp::<f32>(a, b) == Some(Ordering::Equal) <==> ncmp::<f32>(b, a) == Some(Ordering::Equal),
        forall|a: f32, b: f32| #[trigger] fle(a, b) ==> f2i(a) <= f2i(b),
        forall|a: f32, b: f32, c: f32| #[trigger] fle(a, b) && #[trigger] fle(b, c) ==> fle(a, c),
        forall|a: f32| !feq(a, a) ==> #[trigger] f2i(a) == 0,
        forall|n: int| feq(#[trigger] i2f(n), i2f(n)),
        forall|m: int, n: int| -0x100_0000 <= m <= 0x100_0000 && -0x100_0000 <= n <= 0x100_0000 ==> #[trigger] fle(i2f(m), i2f(n)) == (m <= n),
        forall|n: int| -0x100_0000 < n <= 0x100_0000 ==> #[trigger] fsub(i2f(n), 1.0f32) == i2f(n - 1),
{}
/// Axiom (IEEE 754): zero times anything is a zero or NaN, and both become the integer 0.
#[verifier::external_body]
pub proof fn float_zero_axioms()
    ensures forall|f: f32| f2u32(fround(#[trigger] fmul(i2f(0), f))) == 0,
{}
/// Axiom (IEEE 754): a value below an exactly representable positive integer truncates to less than it.
#[verifier::external_body]
pub proof fn float_below_axioms()
    ensures
        forall|a: f32, n: int| 1 <= n <= 0x100_0000 && #[trigger] <f32 as PartialOrdSpec<f32>>::partial_cmp_spec(&a, &i2f(n)) == Some(Ordering::Less) ==> f2i(a) < n,
{}
/// On values that are not NaN the order is total and transitive.
pub proof fn lemma_order()
    ensures
        forall|a: f32, b: f32| feq(a, a) && feq(b, b) ==> match #[trigger] <f32 as PartialOrdSpec<f32>>::partial_cmp_spec(&a, &b) {
            Some(Ordering::Less) => fle(a, b) && !fle(b, a),
            Some(Ordering::Equal) => fle(a, b) && fle(b, a),
            Some(Ordering::Greater) => fle(b, a) && !fle(a, b),
            None => false,
        },
        forall|a: f32, b: f32, c: f32| #[trigger] fle(a, b) && #[trigger] fle(b, c) ==> fle(a, c),
        forall|a: f32| feq(a, a) ==> #[trigger] fle(a, a),
{
    float_order_axioms();
    assert forall|a: f32, b: f32| feq(a, a) && feq(b, b) implies match #[trigger] <f32 as PartialOrdSpec<f32>>::partial_cmp_spec(&a, &b) {
            Some(Ordering::Less) => fle(a, b) && !fle(b, a),
            Some(Ordering::Equal) => fle(a, b) && fle(b, a),
            Some(Ordering::Greater) => fle(b, a) && !fle(a, b),
            None => false,
        } by {
        assert(ncmp::<f32>(a, b) is Some);
        assert(ncmp::<f32>(b, a) is Some);
    }
    assert forall|a: f32| feq(a, a) implies #[trigger] fle(a, a) by {
        assert(ncmp::<f32>(a, a) is Some);
        match ncmp::<f32>(a, a) { Some(Ordering::Less) => {}, Some(Ordering::Equal) => {}, Some(Ordering::Greater) => {}, None => {} }
    }
}
/// Truncating a value clamped to `[0, n - 1]` gives a position below `n`.
pub proof fn lemma_clamp_index(n: int)
    requires 0 < n <= 0x100_0000,
    ensures
        fle(0.0f32, fsub(i2f(n), 1.0f32)),
        forall|x: f32| 0 <= f2i(#[trigger] fclamp(x, 0.0f32, fsub(i2f(n), 1.0f32))) < n,
        forall|x: f32| 0 <= f2u32(#[trigger] fclamp(x, 0.0f32, fsub(i2f(n), 1.0f32))) < n,
{
    float_int_axioms();
    float_order_axioms();
    assert(fsub(i2f(n), 1.0f32) == i2f(n - 1));
    assert(fle(i2f(0), i2f(n - 1)));
    assert forall|x: f32| 0 <= f2i(#[trigger] fclamp(x, 0.0f32, fsub(i2f(n), 1.0f32))) < n by {
        let hi = i2f(n - 1);
        assert(feq(hi, hi));
        let lo = i2f(0);
        if !flt(x, lo) && !fgt(x, hi) && feq(x, x) {
            assert(ncmp::<f32>(x, lo) is Some);
            assert(ncmp::<f32>(x, hi) is Some);
            assert(ncmp::<f32>(lo, x) == Some(Ordering::Less) || ncmp::<f32>(lo, x) == Some(Ordering::Equal));
            assert(fle(lo, x));
            match ncmp::<f32>(x, hi) { Some(Ordering::Less) => {}, Some(Ordering::Equal) => {}, Some(Ordering::Greater) => {}, None => {} }
            assert(fle(x, hi));
        }
    }
}
/// The conversion to u8 saturates by itself.
pub proof fn lemma_clamp255()
    ensures
        fle(0.0f32, 255.0f32),
        forall|x: f32| f2u8(#[trigger] fclamp(x, 0.0f32, 255.0f32)) == f2u8(x),
{
    float_int_axioms();
    float_order_axioms();
    assert(fle(i2f(0), i2f(255)));
    assert forall|x: f32| f2u8(#[trigger] fclamp(x, 0.0f32, 255.0f32)) == f2u8(x) by {
        let (lo, hi) = (i2f(0), i2f(255));
        if flt(x, lo) { assert(fle(x, lo)); }
        else if fgt(x, hi) { assert(ncmp::<f32>(x, hi) == Some(Ordering::Greater)); assert(ncmp::<f32>(hi, x) == Some(Ordering::Less)); assert(fle(hi, x)); }
    }
}
/// Left-to-right f32 sum of `f(0) .. f(n - 1)` on top of `init`.
pub open spec fn facc(init: f32, f: spec_fn(int) -> f32, n: int) -> f32
    decreases n,
{
    if n <= 0 { init } else { fadd(facc(init, f, n - 1), f(n - 1)) }
}

// ----- integers -----
/// Fixes the type of a counter.
pub open spec fn i32v(x: i32) -> int { x as int }
pub open spec fn iclamp(v: int, lo: int, hi: int) -> int { if v < lo { lo } else if v > hi { hi } else { v } }
pub open spec fn imin(a: int, b: int) -> int { if a <= b { a } else { b } }
pub open spec fn imax(a: int, b: int) -> int { if a >= b { a } else { b } }

// ----- index arithmetic -----
pub proof fn lemma_idx(w: int, h: int, x: int, y: int)
    requires 0 <= x < w, 0 <= y < h,
    ensures 0 <= y * w + x < w * h, y * w + w <= w * h, 0 <= y * w,
{
    assert(y * w + w <= w * h) by (nonlinear_arith) requires 0 <= y < h, 0 < w;
    assert(0 <= y * w) by (nonlinear_arith) requires 0 <= y, 0 < w;
}
pub proof fn lemma_chan(n: int, c: int, i: int)
    requires 0 <= i < n, 0 <= c,
    ensures 0 <= i * c, i * c + c <= n * c, (i + 1) * c == i * c + c,
{
    assert(i * c + c <= n * c) by (nonlinear_arith) requires 0 <= i < n, 0 <= c;
    assert(0 <= i * c) by (nonlinear_arith) requires 0 <= i, 0 <= c;
    assert((i + 1) * c == i * c + c) by (nonlinear_arith);
}
/// Two different positions are at least one pixel apart.
pub proof fn lemma_disjoint(c: int, i: int, j: int)
    requires 0 <= c, i != j,
    ensures i < j ==> i * c + c <= j * c, j < i ==> j * c + c <= i * c,
{
    if i < j {
        assert(i * c + c <= j * c) by (nonlinear_arith) requires i < j, 0 <= c;
    } else {
        assert(j * c + c <= i * c) by (nonlinear_arith) requires j < i, 0 <= c;
    }
}
/// A linear position has exactly one pair of coordinates.
pub proof fn lemma_coords(w: int, i: int)
    requires 0 < w, 0 <= i,
    ensures 0 <= i % w < w, 0 <= i / w, (i / w) * w + i % w == i, i / w <= i,
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(i, w);
    assert((i / w) * w == w * (i / w)) by (nonlinear_arith);
    assert(0 <= i / w <= i) by (nonlinear_arith) requires 0 <= i, 0 < w;
}
pub proof fn lemma_coords_unique(w: int, x: int, y: int)
    requires 0 <= x < w, 0 <= y,
    ensures (y * w + x) % w == x, (y * w + x) / w == y, 0 <= y * w + x,
{
    assert(0 <= y * w) by (nonlinear_arith) requires 0 <= y, 0 < w;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(y * w + x, w, y, x);
}
pub proof fn lemma_coords_in(w: int, h: int, i: int)
    requires 0 < w, 0 <= i < w * h,
    ensures 0 <= i % w < w, 0 <= i / w < h, (i / w) * w + i % w == i,
{
    lemma_coords(w, i);
    assert(i / w < h) by (nonlinear_arith) requires (i / w) * w + i % w == i, 0 <= i % w, i < w * h, 0 < w;
}

/// Different coordinates have different positions.
pub proof fn lemma_coords_2d(w: int, h: int, x: int, y: int)
    requires 0 <= x < w, 0 <= y < h,
    ensures
        forall|u: int, v: int| 0 <= u < w && 0 <= v < h ==> 0 <= #[trigger] (v * w + u) < w * h,
        forall|u: int, v: int| 0 <= u < w && 0 <= v < h ==> (#[trigger] (v * w + u) == y * w + x <==> u == x && v == y),
{
    assert forall|u: int, v: int| 0 <= u < w && 0 <= v < h implies 0 <= #[trigger] (v * w + u) < w * h by { lemma_idx(w, h, u, v); }
    assert forall|u: int, v: int| 0 <= u < w && 0 <= v < h implies (#[trigger] (v * w + u) == y * w + x <==> u == x && v == y) by {
        lemma_coords_unique(w, u, v); lemma_coords_unique(w, x, y);
    }
}
pub proof fn lemma_coords_all(w: int, h: int)
    ensures
        forall|u: int, v: int| 0 <= u < w && 0 <= v < h ==> 0 <= #[trigger] (v * w + u) < w * h,
        forall|u: int, v: int| 0 <= u < w && 0 <= v < h ==> (#[trigger] (v * w + u)) % w == u && (v * w + u) / w == v,
{
    assert forall|u: int, v: int| 0 <= u < w && 0 <= v < h implies 0 <= #[trigger] (v * w + u) < w * h by { lemma_idx(w, h, u, v); }
    assert forall|u: int, v: int| 0 <= u < w && 0 <= v < h implies (#[trigger] (v * w + u)) % w == u && (v * w + u) / w == v by {
        lemma_coords_unique(w, u, v);
    }
}
/// A smaller rectangle has no more values.
pub proof fn lemma_sub_ok(w: int, h: int, w2: int, h2: int, c: int)
    requires 0 <= w <= w2, 0 <= h <= h2, 0 <= c,
    ensures w * h <= w2 * h2, w * h * c <= w2 * h2 * c, 0 <= w * h,
{
    assert(w * h <= w2 * h2 && 0 <= w * h) by (nonlinear_arith) requires 0 <= w <= w2, 0 <= h <= h2;
    assert(w * h * c <= w2 * h2 * c) by (nonlinear_arith) requires 0 <= w * h <= w2 * h2, 0 <= c;
}

/// A position inside a rectangle: neither side is empty.
pub proof fn lemma_nz(w: int, h: int)
    requires 0 <= w, 0 <= h, 0 < w * h,
    ensures 0 < w, 0 < h,
{
    assert(0 < w && 0 < h) by (nonlinear_arith) requires 0 <= w, 0 <= h, 0 < w * h;
}
pub proof fn lemma_nn(a: int, b: int)
    requires 0 <= a, 0 <= b,
    ensures 0 <= a * b,
{
    assert(0 <= a * b) by (nonlinear_arith) requires 0 <= a, 0 <= b;
}

// ----- pixel sequences -----
/// The `i`-th group of `c` values.
#[verifier::opaque]
pub open spec fn chunk<T>(d: Seq<T>, c: int, i: int) -> Seq<T> { d.subrange(i * c, i * c + c) }
pub open spec fn zeros<T>(c: int) -> Seq<T> { Seq::new(c as nat, |k: int| lit_spec::<T>(0)) }
pub open spec fn sl_at<T>(v: Seq<&[T]>, i: int) -> Seq<T> { v[i]@ }
pub open spec fn vecs_view<T>(v: Seq<Vec<T>>) -> Seq<Seq<T>> { Seq::new(v.len(), |i: int| v[i]@) }
pub open spec fn slices_view<T>(v: Seq<&[T]>) -> Seq<Seq<T>> { Seq::new(v.len(), |i: int| v[i]@) }
/// Concatenation.
pub open spec fn flat<T>(v: Seq<Seq<T>>) -> Seq<T>
    decreases v.len(),
{
    if v.len() == 0 { Seq::empty() } else { flat(v.drop_last()) + v.last() }
}
pub proof fn lemma_flat_step<T>(v: Seq<Seq<T>>, i: int)
    requires 0 <= i < v.len(),
    ensures flat(v.take(i + 1)) == flat(v.take(i)) + v[i],
{
    assert(v.take(i + 1).drop_last() =~= v.take(i));
}
/// Pieces of equal length are the groups of the concatenation.
pub proof fn lemma_flat_chunks<T>(v: Seq<Seq<T>>, c: int)
    requires 0 <= c, forall|i: int| 0 <= i < v.len() ==> #[trigger] v[i].len() == c,
    ensures
        flat(v).len() == v.len() * c,
        forall|i: int| 0 <= i < v.len() ==> chunk(flat(v), c, i) == #[trigger] v[i],
    decreases v.len(),
{
    reveal(chunk);
    if v.len() > 0 {
        let u = v.drop_last();
        lemma_flat_chunks(u, c);
        let n = v.len() as int;
        lemma_chan(n, c, n - 1);
        assert(flat(v).len() == v.len() * c);
        assert forall|i: int| 0 <= i < v.len() implies chunk(flat(v), c, i) == #[trigger] v[i] by {
            lemma_chan(n, c, i);
            if i < n - 1 {
                lemma_chan(n - 1, c, i);
                assert(chunk(flat(u), c, i) == u[i]);
                assert(chunk(flat(v), c, i) =~= chunk(flat(u), c, i));
            } else {
                assert(chunk(flat(v), c, i) =~= v[i]);
            }
        }
    }
}
pub open spec fn splice<T>(d: Seq<T>, a: int, p: Seq<T>) -> Seq<T> {
    d.subrange(0, a) + p + d.subrange(a + p.len(), d.len() as int)
}
/// Replacing one group leaves the others alone.
pub proof fn lemma_splice_all<T>(d: Seq<T>, c: int, n: int, k: int)
    requires 0 <= k < n, c >= 0, d.len() == n * c,
    ensures
        0 <= k * c, k * c + c <= d.len(),
        forall|p: Seq<T>, i: int| p.len() == c && 0 <= i < n ==>
            #[trigger] chunk(splice(d, k * c, p), c, i) == (if i == k { p } else { chunk(d, c, i) }),
        forall|p: Seq<T>| p.len() == c ==> #[trigger] splice(d, k * c, p).len() == d.len(),
        forall|p: Seq<T>| p.len() == c ==> #[trigger] (d.subrange(0, k * c) + p + d.subrange(k * c + c, d.len() as int)) == splice(d, k * c, p),
{
    reveal(chunk);
    lemma_chan(n, c, k);
    assert forall|p: Seq<T>, i: int| p.len() == c && 0 <= i < n implies
            #[trigger] chunk(splice(d, k * c, p), c, i) == (if i == k { p } else { chunk(d, c, i) }) by {
        lemma_chan(n, c, i);
        if i != k { lemma_disjoint(c, i, k); }
        assert(chunk(splice(d, k * c, p), c, i) =~= (if i == k { p } else { chunk(d, c, i) }));
    }
}

// ----- functions over pixels and channels -----
/// `f` may be called on every pixel of `n` values with an empty output buffer.
pub open spec fn takes<T, S, F: Fn(&[T], &mut Vec<S>)>(f: F, n: int) -> bool {
    forall|p: &[T], b: &mut Vec<S>| p@.len() == n && (*b)@.len() == 0 ==> #[trigger] f.requires((p, b))
}
/// `f` appends `g(pixel)`, `k` values, to an empty buffer.
#[verifier::prophetic]
pub open spec fn maps_to<T, S, F: Fn(&[T], &mut Vec<S>)>(f: F, g: spec_fn(Seq<T>) -> Seq<S>, n: int, k: int) -> bool {
    forall|p: &[T], b: &mut Vec<S>| p@.len() == n && (*b)@.len() == 0 && #[trigger] f.ensures((p, b), ())
        ==> (*final(b))@ == g(p@) && (*final(b))@.len() == k
}
/// `f` appends `k` values.
#[verifier::prophetic]
pub open spec fn outlen<T, S, F: Fn(&[T], &mut Vec<S>)>(f: F, n: int, k: int) -> bool {
    forall|p: &[T], b: &mut Vec<S>| p@.len() == n && (*b)@.len() == 0 && #[trigger] f.ensures((p, b), ())
        ==> (*final(b))@.len() == k
}
/// `f` computes `g`.
pub open spec fn computes<T, S, F: Fn(T) -> S>(f: F, g: spec_fn(T) -> S) -> bool {
    forall|t: T, s: S| #[trigger] f.ensures((t,), s) ==> s == g(t)
}
pub open spec fn idf<T>() -> spec_fn(T) -> T { |t: T| t }
pub open spec fn total<T, S, F: Fn(T) -> S>(f: F) -> bool { forall|t: T| #[trigger] f.requires((t,)) }
/// Colour channels through `f`, the alpha channel (the last one, if there is one) through `g`.
pub open spec fn pix_map<T, S>(alpha: bool, f: spec_fn(Seq<T>) -> Seq<S>, g: spec_fn(T) -> S, p: Seq<T>) -> Seq<S> {
    if alpha { f(p.drop_last()).push(g(p.last())) } else { f(p) }
}
pub open spec fn chan_map<T, S>(alpha: bool, f: spec_fn(T) -> S, g: spec_fn(T) -> S, p: Seq<T>) -> Seq<S> {
    Seq::new(p.len(), |k: int| if alpha && k == p.len() - 1 { g(p[k]) } else { f(p[k]) })
}
pub proof fn lemma_chunk_len<T>(d: Seq<T>, c: int, n: int)
    requires c >= 0, d.len() == n * c,
    ensures forall|i: int| 0 <= i < n ==> (#[trigger] chunk(d, c, i)).len() == c,
{
    reveal(chunk);
    assert forall|i: int| 0 <= i < n implies (#[trigger] chunk(d, c, i)).len() == c by { lemma_chan(n, c, i); }
}
/// Values of the `i`-th group.
pub proof fn lemma_chunk_at<T>(d: Seq<T>, c: int, n: int)
    requires c >= 0, d.len() == n * c,
    ensures
        forall|i: int, k: int| 0 <= i < n && 0 <= k < c ==> #[trigger] chunk(d, c, i)[k] == d[i * c + k],
        forall|i: int| 0 <= i < n ==> (#[trigger] chunk(d, c, i)).len() == c,
        forall|i: int, k: int| 0 <= i < n && 0 <= k < c ==> 0 <= #[trigger] (i * c + k) < d.len(),
{
    reveal(chunk);
    lemma_chunk_len(d, c, n);
    assert forall|i: int, k: int| 0 <= i < n && 0 <= k < c implies #[trigger] chunk(d, c, i)[k] == d[i * c + k] by { lemma_chan(n, c, i); }
    assert forall|i: int, k: int| 0 <= i < n && 0 <= k < c implies 0 <= #[trigger] (i * c + k) < d.len() by { lemma_chan(n, c, i); }
}
/// Appending a group.
pub proof fn lemma_chunk_push<T>(d: Seq<T>, c: int, n: int, p: Seq<T>)
    requires c >= 0, n >= 0, d.len() == n * c, p.len() == c,
    ensures
        (d + p).len() == (n + 1) * c,
        chunk(d + p, c, n) == p,
        forall|i: int| 0 <= i < n ==> #[trigger] chunk(d + p, c, i) == chunk(d, c, i),
{
    reveal(chunk);
    lemma_chan(n + 1, c, n);
    assert(chunk(d + p, c, n) =~= p);
    assert forall|i: int| 0 <= i < n implies #[trigger] chunk(d + p, c, i) == chunk(d, c, i) by {
        lemma_chan(n, c, i);
        assert(chunk(d + p, c, i) =~= chunk(d, c, i));
    }
}
pub proof fn lemma_div_exact(n: int, k: int)
    requires n > 0, k >= 0,
    ensures (n * k) / n == k,
{
    assert((n * k) / n == k) by (nonlinear_arith) requires n > 0, k >= 0;
}

/// Which positions a stride visits.
pub proof fn lemma_stride(n: int, g: int)
    requires n > 0, 0 <= g,
    ensures 0 <= g * n, (g * n) % n == 0, forall|d: int| g * n < d < g * n + n ==> #[trigger] (d % n) != 0,
{
    assert(0 <= g * n) by (nonlinear_arith) requires 0 <= g, n > 0;
    lemma_coords_unique(n, 0, g);
    assert forall|d: int| g * n < d < g * n + n implies #[trigger] (d % n) != 0 by {
        lemma_coords_unique(n, d - g * n, g);
    }
}
pub proof fn lemma_residue(n: int, i: int, k: int, x: int)
    requires n > 0, 0 <= i, 0 <= k < n, 0 <= x < n,
    ensures (x <= i * n + k && (i * n + k - x) % n == 0) == (k == x), 0 <= i * n,
{
    assert(0 <= i * n) by (nonlinear_arith) requires 0 <= i, n > 0;
    if k >= x { lemma_coords_unique(n, k - x, i); }
    else if i > 0 {
        assert((i - 1) * n == i * n - n) by (nonlinear_arith);
        lemma_coords_unique(n, k - x + n, i - 1);
    }
}

// ----- formulas -----
/// Row times vector: ((0 + m0*v0) + m1*v1) + ...
pub open spec fn dot<T: Number>(mat: Seq<T>, v: Seq<T>, i: int, n: int) -> T
    decreases n,
{
    if n <= 0 { lit_spec::<T>(0) } else { nadd(dot(mat, v, i, n - 1), nmul(mat[v.len() * i + (n - 1)], v[n - 1])) }
}
/// No operation of the product overflows.
pub open spec fn dot_ok<T: Number>(mat: Seq<T>, v: Seq<T>) -> bool {
    forall|i: int, j: int| 0 <= i < v.len() && 0 <= j < v.len() ==>
        nmul_ok::<T>(#[trigger] mat[v.len() * i + j], v[j]) && nadd_ok::<T>(dot(mat, v, i, j), nmul(mat[v.len() * i + j], v[j]))
}
pub proof fn lemma_dot_len<T: Number>(mat: Seq<T>, v: Seq<T>, i: int, j: int)
    requires 0 <= i < v.len(), 0 <= j < v.len(),
    ensures 0 <= v.len() * i + j < v.len() * v.len(), 0 <= v.len() * i < v.len() * v.len(),
{
    assert(v.len() * i + v.len() <= v.len() * v.len()) by (nonlinear_arith) requires 0 <= i < v.len();
    assert(0 <= v.len() * i) by (nonlinear_arith) requires 0 <= i < v.len();
}
pub proof fn lemma_len_sq(n: int)
    ensures forall|s: Seq<f32>| #[trigger] s.len() == n ==> s.len() * s.len() == n * n,
{}
/// Matrix times vector.
pub open spec fn mat_vec<T: Number>(mat: Seq<T>, v: Seq<T>) -> Seq<T> { Seq::new(v.len(), |i: int| dot(mat, v, i, v.len() as int)) }
/// ((init + k0*p0[c]) + k1*p1[c]) + ...
pub open spec fn wsum(kern: Seq<f32>, px: Seq<Seq<f32>>, c: int, n: int) -> f32
    decreases n,
{
    if n <= 0 { 0.0f32 } else { fadd(wsum(kern, px, c, n - 1), fmul(kern[n - 1], px[n - 1][c])) }
}
/// Kernel-weighted sum of pixels, channel by channel.
pub open spec fn wpix(kern: Seq<f32>, px: Seq<Seq<f32>>, ch: int) -> Seq<f32> { Seq::new(ch as nat, |c: int| wsum(kern, px, c, kern.len() as int)) }
pub open spec fn nan(x: f32) -> bool { !feq(x, x) }
pub open spec fn clamp0(x: f32) -> f32 { if fle(x, 0.0f32) { 0.0f32 } else { x } }
pub open spec fn cube0(x: f32) -> f32 { fpow(clamp0(x), 3.0f32) }
pub open spec fn cubic_w(x: f32) -> f32 {
    fmul(fdiv(1.0f32, 6.0f32), fsub(fadd(fsub(cube0(fadd(x, 2.0f32)), fmul(4.0f32, cube0(fadd(x, 1.0f32)))), fmul(6.0f32, cube0(x))), fmul(4.0f32, cube0(fsub(x, 1.0f32)))))
}
pub open spec fn sinc(x: f32) -> f32 { if feq(x, 0.0f32) { 1.0f32 } else { fdiv(fsin(fmul(pi_spec(), x)), fmul(pi_spec(), x)) } }
pub open spec fn lanczos(x: f32, a: f32) -> f32 { if fgt(x, fneg(a)) && flt(x, a) { fmul(sinc(x), sinc(fdiv(x, a))) } else { 0.0f32 } }
pub open spec fn gauss(x: f32, s: f32) -> f32 {
    fmul(fdiv(1.0f32, fmul(fmul(2.0f32, pi_spec()), fmul(s, s))), fpow(e_spec(), fdiv(fneg(fmul(x, x)), fmul(2.0f32, fmul(s, s)))))
}
pub open spec fn dist(x1: int, y1: int, x2: int, y2: int) -> f32 {
    let dx = fsub(i2f(x1), i2f(x2));
    let dy = fsub(i2f(y1), i2f(y2));
    fsqrt(fadd(fmul(dx, dx), fmul(dy, dy)))
}
pub open spec fn lab_d() -> f32 { fdiv(6.0f32, 29.0f32) }
pub open spec fn lab_f(t: f32) -> f32 {
    if fgt(t, fpow(lab_d(), 3.0f32)) { fpow(t, fdiv(1.0f32, 3.0f32)) } else { fadd(fdiv(t, fmul(fmul(3.0f32, lab_d()), lab_d())), fdiv(4.0f32, 29.0f32)) }
}
pub open spec fn lab_finv(t: f32) -> f32 {
    if fgt(t, lab_d()) { fpow(t, 3.0f32) } else { fmul(fmul(fmul(3.0f32, lab_d()), lab_d()), fsub(t, fdiv(4.0f32, 29.0f32))) }
}
/// Values of the Gaussian kernel.
pub open spec fn gauss_at(n: int, s: f32, i: int, j: int) -> f32 {
    let k = (n - 1) / 2;
    fmul(fdiv(1.0f32, fmul(fmul(fmul(2.0f32, pi_spec()), s), s)), fpow(e_spec(), fdiv(fneg(i2f((i - k) * (i - k) + (j - k) * (j - k))), fmul(fmul(2.0f32, s), s))))
}
pub open spec fn gauss_k(n: int, s: f32) -> Seq<f32> { Seq::new((n * n) as nat, |i: int| gauss_at(n, s, i / n, i % n)) }
/// Values of the Laplacian of Gaussian kernel.
pub open spec fn log_at(n: int, s: f32, i: int, j: int) -> f32 {
    let k = (n - 1) / 2;
    let e = fdiv(fneg(i2f((i - k) * (i - k) + (j - k) * (j - k))), fmul(fmul(2.0f32, s), s));
    fmul(fmul(fdiv(fneg(1.0f32), fmul(pi_spec(), fpow(s, 4.0f32))), fsub(1.0f32, e)), fpow(e_spec(), e))
}
pub open spec fn log_k(n: int, s: f32) -> Seq<f32> { Seq::new((n * n) as nat, |i: int| log_at(n, s, i / n, i % n)) }
/// The product of two factors misses the kernel by at most a millionth of (the magnitude of) the kernel's value `p`.
pub open spec fn near_at(k: Seq<f32>, v: Seq<f32>, h: Seq<f32>, p: int, i: int, j: int) -> bool {
    fle(fabs(fsub(fmul(v[i], h[j]), k[i * h.len() + j])), fmul(fabs(k[p]), 1e-6f32))
}
/// The kernel is (up to rounding) the outer product of the two vectors.
pub open spec fn factors(k: Seq<f32>, v: Seq<f32>, h: Seq<f32>) -> bool {
    ||| k.len() == 1 && v =~= k && h =~= seq![1.0f32]
    ||| exists|p: int| 0 <= p < k.len() && #[trigger] near_all(k, v, h, p)
}
/// No value of the kernel has a larger magnitude than the one at `p`.
pub open spec fn top_at(k: Seq<f32>, p: int) -> bool { forall|q: int| 0 <= q < k.len() ==> !fgt(#[trigger] fabs(k[q]), fabs(k[p])) }
/// The product of the column and the row through entry `p` misses the entry in row `i` and column `j`.
pub open spec fn miss_at(k: Seq<f32>, n: int, p: int, i: int, j: int) -> bool {
    !fle(fabs(fsub(fmul(k[i * n + p % n], fdiv(k[p / n * n + j], k[p])), k[i * n + j])), fmul(fabs(k[p]), 1e-6f32))
}
/// The kernel is zero, or the product of the column and the row through a value of the largest magnitude misses some entry.
pub open spec fn inseparable(k: Seq<f32>, n: int) -> bool {
    exists|p: int| 0 <= p < k.len() && #[trigger] top_at(k, p) && (feq(k[p], 0.0f32) || exists|i: int, j: int| 0 <= i < n && 0 <= j < n && #[trigger] miss_at(k, n, p, i, j))
}
pub proof fn lemma_gt_trans(a: f32, b: f32, c: f32)
    ensures fgt(a, b) && fgt(b, c) ==> fgt(a, c),
{
    float_axioms();
    float_order_axioms();
    lemma_order();
    if fgt(a, b) && fgt(b, c) {
        assert(fle(c, b) && fle(b, a) && fle(c, a));
        assert(ncmp::<f32>(a, c) is Some);
        if fle(a, c) { assert(fle(a, b)); }
    }
}
pub proof fn lemma_not_gt(a: f32)
    ensures !fgt(a, a),
{
    float_axioms();
    float_order_axioms();
    lemma_order();
}
/// Where the column and the row through entry `p` lie in an `n x n` matrix.
pub proof fn lemma_row_entry(n: int, i: int, p: int)
    requires 0 <= i < n <= 4096, 0 <= p < n * n,
    ensures 0 <= p % n < n, 0 <= p / n < n, 0 <= i * n <= 0x100_0000, 0 <= i * n + p % n < n * n, 0 <= p / n * n <= 0x100_0000, 0 <= p / n * n + i < n * n,
{
    assert(0 <= p % n < n && 0 <= p / n < n) by (nonlinear_arith) requires 0 <= p < n * n, 0 < n;
    assert(0 <= i * n && i * n + p % n < n * n && i * n <= 0x100_0000) by (nonlinear_arith) requires 0 <= i < n <= 4096, 0 <= p % n < n;
    let q = p / n;
    assert(0 <= q * n && q * n + i < n * n && q * n <= 0x100_0000) by (nonlinear_arith) requires 0 <= i < n <= 4096, 0 <= q < n;
}
pub open spec fn near_all(k: Seq<f32>, v: Seq<f32>, h: Seq<f32>, p: int) -> bool {
    forall|i: int, j: int| 0 <= i < v.len() && 0 <= j < h.len() ==> #[trigger] near_at(k, v, h, p, i, j)
}

/// Entry of a square matrix, row by row.
pub open spec fn at2(m: Seq<f32>, n: int, i: int, j: int) -> f32 { m[i * n + j] }
/// Squared offsets from the centre stay small.
pub proof fn lemma_offset(n: int, i: int, j: int)
    requires 0 <= i < n, 0 <= j < n, n <= 46340,
    ensures ({ let k = (n - 1) / 2; 0 <= (i - k) * (i - k) <= 0x2000_0000 && 0 <= (j - k) * (j - k) <= 0x2000_0000 }),
{
    let k = (n - 1) / 2;
    assert(0 <= (i - k) * (i - k) <= 0x2000_0000) by (nonlinear_arith) requires -23170 <= i - k <= 23170;
    assert(0 <= (j - k) * (j - k) <= 0x2000_0000) by (nonlinear_arith) requires -23170 <= j - k <= 23170;
}
/// Position of row `r`, column `c` in a square matrix stored row by row.
pub open spec fn ix(n: int, r: int, c: int) -> int { r * n + c }
pub proof fn lemma_ix(n: int)
    ensures
        forall|r: int, c: int| 0 <= r < n && 0 <= c < n ==> 0 <= #[trigger] ix(n, r, c) < n * n,
        forall|r: int, c: int, p: int, q: int| 0 <= r < n && 0 <= c < n && 0 <= p < n && 0 <= q < n ==> (#[trigger] ix(n, r, c) == #[trigger] ix(n, p, q) <==> r == p && c == q),
{
    assert forall|r: int, c: int| 0 <= r < n && 0 <= c < n implies 0 <= #[trigger] ix(n, r, c) < n * n by { lemma_idx(n, n, c, r); }
    assert forall|r: int, c: int, p: int, q: int| 0 <= r < n && 0 <= c < n && 0 <= p < n && 0 <= q < n implies (#[trigger] ix(n, r, c) == #[trigger] ix(n, p, q) <==> r == p && c == q) by {
        lemma_coords_unique(n, c, r); lemma_coords_unique(n, q, p);
    }
}
/// Gaussian of the distance of row `p`, column `q` from the centre.
pub open spec fn spatial_at(n: int, s: f32, p: int, q: int) -> f32 { gauss(dist(n / 2, n / 2, q, p), s) }
pub open spec fn spatial_k(n: int, s: f32) -> Seq<f32> { Seq::new((n * n) as nat, |i: int| spatial_at(n, s, i / n, i % n)) }
/// The entries at the same distance from the centre by symmetry.
pub open spec fn same_ring(n: int, p: int, q: int, y: int, x: int) -> bool {
    ||| (p == y || p == n - 1 - y) && (q == x || q == n - 1 - x)
    ||| (p == x || p == n - 1 - x) && (q == y || q == n - 1 - y)
}
pub proof fn lemma_ring(n: int, s: f32, y: int, x: int)
    requires n % 2 == 1, n <= 65535, 0 <= y < n, 0 <= x < n,
    ensures
        spatial_at(n, s, x, y) == spatial_at(n, s, y, x),
        forall|p: int, q: int| #[trigger] same_ring(n, p, q, y, x) ==> spatial_at(n, s, p, q) == spatial_at(n, s, y, x),
{
    int_axioms(); float_sym_axioms();
    let c = n / 2;
    assert forall|p: int, q: int| #[trigger] same_ring(n, p, q, y, x) implies spatial_at(n, s, p, q) == spatial_at(n, s, y, x) by {
        assert(fsub(i2f(c), i2f(p)) == i2f(c - p)); assert(fsub(i2f(c), i2f(q)) == i2f(c - q));
        assert(fsub(i2f(c), i2f(y)) == i2f(c - y)); assert(fsub(i2f(c), i2f(x)) == i2f(c - x));
        assert(fsq(c - p) == fsq(c - y) || fsq(c - p) == fsq(c - x)) by { assert(fsq(p - c) == fsq(c - p)); }
        assert(fsq(c - q) == fsq(c - y) || fsq(c - q) == fsq(c - x)) by { assert(fsq(q - c) == fsq(c - q)); }
    }
    assert(same_ring(n, x, y, y, x));
}
pub open spec fn fsq(n: int) -> f32 { fmul(i2f(n), i2f(n)) }
/// Axiom (IEEE 754): the square of an integer does not depend on its sign, the sum of two squares not on their order.
#[verifier::external_body]
pub proof fn float_sym_axioms()
    ensures
        forall|n: int| -0x100_0000 <= n <= 0x100_0000 ==> #[trigger] fsq(n) == fsq(-n),
        forall|m: int, n: int| fadd(#[trigger] fsq(m), #[trigger] fsq(n)) == fadd(fsq(n), fsq(m)),
        feq(0.0f32, 0.0f32),
{}
// IEEE 754 facts that a reordering of operands relies on; only used when a changed body is not accepted without them
// (`extract --algebra`). All NaNs count as one value.
/// Axiom (IEEE 754): addition and multiplication are commutative, |a - b| = |b - a|, comparing is antisymmetric.
#[verifier::external_body]
pub broadcast proof fn algebra_add(a: f32, b: f32)
    ensures #[trigger] <f32 as AddSpec<f32>>::add_spec(a, b) == <f32 as AddSpec<f32>>::add_spec(b, a),
{}
#[verifier::external_body]
pub broadcast proof fn algebra_mul(a: f32, b: f32)
    ensures #[trigger] <f32 as MulSpec<f32>>::mul_spec(a, b) == <f32 as MulSpec<f32>>::mul_spec(b, a),
{}
#[verifier::external_body]
pub broadcast proof fn algebra_abs(a: f32, b: f32)
    ensures #[trigger] fabs(<f32 as SubSpec<f32>>::sub_spec(a, b)) == fabs(<f32 as SubSpec<f32>>::sub_spec(b, a)),
{}
#[verifier::external_body]
pub broadcast proof fn algebra_cmp(a: &f32, b: &f32)
    ensures #[trigger] <f32 as PartialOrdSpec<f32>>::partial_cmp_spec(a, b) == match <f32 as PartialOrdSpec<f32>>::partial_cmp_spec(b, a) {
        Some(Ordering::Less) => Some(Ordering::Greater),
        Some(Ordering::Greater) => Some(Ordering::Less),
        o => o,
    },
{}
#[verifier::external_body]
pub broadcast proof fn algebra_eq(a: &f32, b: &f32)
    ensures #[trigger] <f32 as PartialEqSpec<f32>>::eq_spec(a, b) == <f32 as PartialEqSpec<f32>>::eq_spec(b, a),
{}
#[verifier::external_body]
pub broadcast proof fn algebra_nan(a: &f32, b: &f32)
    ensures #[trigger] <f32 as PartialOrdSpec<f32>>::partial_cmp_spec(a, b) is None <==> (!feq(*a, *a) || !feq(*b, *b)),
{}
#[verifier::external_body]
pub broadcast proof fn algebra_num(n: int)
    ensures feq(#[trigger] i2f(n), i2f(n)),
{}
/// Axiom: a literal is not NaN (the extractor applies this to the literals of a body, and to nothing else).
#[verifier::external_body]
pub proof fn literal(a: f32)
    ensures feq(a, a),
{}
/// Squaring; `powf(x, 2.0)` is this up to the rounding of `powf` (one unit in the last place for 4 in 10,000 values).
#[verifier::external_body]
pub broadcast proof fn algebra_sq(x: f32)
    ensures #[trigger] fpow(x, 2.0f32) == fmul(x, x),
{}
#[verifier::external_body]
pub broadcast proof fn algebra_powi(x: f32)
    ensures #[trigger] fpowi(x, 2) == fmul(x, x),
{}
#[verifier::external_body]
pub broadcast proof fn algebra_powi3(x: f32)
    ensures #[trigger] fpowi(x, 3) == fmul(fmul(x, x), x),
{}
/// `PartialEq` and `PartialOrd` of the channel types are what their documentation demands: symmetric, and dual.
#[verifier::external_body]
pub broadcast proof fn algebra_eq_t<T: PartialEq>(a: &T, b: &T)
    ensures #[trigger] <T as PartialEqSpec<T>>::eq_spec(a, b) == <T as PartialEqSpec<T>>::eq_spec(b, a),
{}
#[verifier::external_body]
pub broadcast proof fn algebra_cmp_t<T: Number>(a: &T, b: &T)
    ensures #[trigger] <T as PartialOrdSpec<T>>::partial_cmp_spec(a, b) == match <T as PartialOrdSpec<T>>::partial_cmp_spec(b, a) {
        Some(Ordering::Less) => Some(Ordering::Greater),
        Some(Ordering::Greater) => Some(Ordering::Less),
        o => o,
    },
{}
/// Adding or multiplying channel values in the other order gives the same.
#[verifier::external_body]
pub broadcast proof fn algebra_add_t<T: Number>(a: T, b: T)
    ensures #[trigger] <T as AddSpec<T>>::add_spec(a, b) == <T as AddSpec<T>>::add_spec(b, a),
{}
#[verifier::external_body]
pub broadcast proof fn algebra_mul_t<T: Number>(a: T, b: T)
    ensures #[trigger] <T as MulSpec<T>>::mul_spec(a, b) == <T as MulSpec<T>>::mul_spec(b, a),
{}
#[verifier::external_body]
pub broadcast proof fn algebra_mul_req_t<T: Number>(a: T, b: T)
    ensures #[trigger] <T as MulSpec<T>>::mul_req(a, b) == <T as MulSpec<T>>::mul_req(b, a),
{}
#[verifier::external_body]
pub broadcast proof fn algebra_add_req_t<T: Number>(a: T, b: T)
    ensures #[trigger] <T as AddSpec<T>>::add_req(a, b) == <T as AddSpec<T>>::add_req(b, a),
{}
pub broadcast proof fn algebra_mul_int(a: int, b: int)
    ensures #[trigger] (a * b) == b * a,
{ assert(a * b == b * a) by(nonlinear_arith); }
pub broadcast group algebra { algebra_mul_t, algebra_mul_req_t, algebra_add_req_t, algebra_mul_int, algebra_eq_t, algebra_cmp_t, algebra_add_t, algebra_sq, algebra_powi, algebra_powi3, algebra_nan, algebra_num, algebra_add, algebra_mul, algebra_abs, algebra_cmp, algebra_eq }
// Not an axiom but a restriction to values that are not NaN (`extract --nonan`): what is accepted only with these counts as undecided.
#[verifier::external_body]
pub broadcast proof fn nonan_cmp<T: Number>(a: &T, b: &T)
    ensures #[trigger] <T as PartialOrdSpec<T>>::partial_cmp_spec(a, b) is Some,
{}
#[verifier::external_body]
pub broadcast proof fn nonan_cmp_f32(a: &f32, b: &f32)
    ensures #[trigger] <f32 as PartialOrdSpec<f32>>::partial_cmp_spec(a, b) is Some,
{}
pub broadcast group nonan { nonan_cmp, nonan_cmp_f32 }

/// Position `k` is one of the eight reflections of row `y`, column `x`.
pub open spec fn ring_ix(n: int, k: int, y: int, x: int) -> bool {
    ||| k == ix(n, y, x) || k == ix(n, n - 1 - y, x) || k == ix(n, y, n - 1 - x) || k == ix(n, n - 1 - y, n - 1 - x)
    ||| k == ix(n, x, y) || k == ix(n, n - 1 - x, y) || k == ix(n, x, n - 1 - y) || k == ix(n, n - 1 - x, n - 1 - y)
}
pub open spec fn ring_set(m0: Seq<f32>, m1: Seq<f32>, n: int, y: int, x: int, g: f32) -> bool {
    &&& m1.len() == m0.len()
    &&& forall|k: int| 0 <= k < m0.len() ==> #[trigger] m1[k] == (if ring_ix(n, k, y, x) { g } else { m0[k] })
}
/// The rings of the entries that come before row `y`, column `x` in the upper left quarter, and of all entries that are not zero, are filled.
#[verifier::opaque]
pub open spec fn ring_inv(m: Seq<f32>, n: int, s: f32, y: int, x: int) -> bool {
    &&& m.len() == n * n
    &&& forall|p: int, q: int, a: int, b: int| 0 <= p <= n / 2 && 0 <= q <= n / 2 && 0 <= a < n && 0 <= b < n && #[trigger] same_ring(n, a, b, p, q) && (p < y || p == y && q < x || !feq(m[ix(n, p, q)], 0.0f32)) ==> m[ix(n, a, b)] == spatial_at(n, s, a, b)
}
pub proof fn lemma_ring_init(m: Seq<f32>, n: int, s: f32)
    requires n % 2 == 1, n > 0, m.len() == n * n, forall|k: int| 0 <= k < m.len() ==> m[k] == 0.0f32,
    ensures ring_inv(m, n, s, 0, 0), n * n > 0,
{
    reveal(ring_inv); float_sym_axioms(); lemma_ix(n);
    lemma_idx(n, n, 0, 0);
}
pub proof fn lemma_ring_row(m: Seq<f32>, n: int, s: f32, y: int)
    requires ring_inv(m, n, s, y, n / 2 + 1),
    ensures ring_inv(m, n, s, y + 1, 0),
{ reveal(ring_inv); }
pub proof fn lemma_ring_skip(m: Seq<f32>, n: int, s: f32, y: int, x: int)
    requires ring_inv(m, n, s, y, x), !feq(m[ix(n, y, x)], 0.0f32), 0 <= y <= n / 2, 0 <= x <= n / 2, n > 0,
    ensures ring_inv(m, n, s, y, x + 1),
{ reveal(ring_inv); }
pub proof fn lemma_ring_step(m0: Seq<f32>, m1: Seq<f32>, n: int, s: f32, y: int, x: int)
    requires n % 2 == 1, 0 < n <= 65535, 0 <= y <= n / 2, 0 <= x <= n / 2, ring_inv(m0, n, s, y, x), ring_set(m0, m1, n, y, x, spatial_at(n, s, y, x)),
    ensures ring_inv(m1, n, s, y, x + 1),
{
    reveal(ring_inv);
    lemma_ring(n, s, y, x);
    assert forall|p: int, q: int, a: int, b: int| 0 <= p <= n / 2 && 0 <= q <= n / 2 && 0 <= a < n && 0 <= b < n && #[trigger] same_ring(n, a, b, p, q) && (p < y || p == y && q < x + 1 || !feq(m1[ix(n, p, q)], 0.0f32)) implies m1[ix(n, a, b)] == spatial_at(n, s, a, b) by {
        lemma_idx(n, n, b, a); lemma_idx(n, n, q, p);
        lemma_ring_at(n, a, b, y, x); lemma_ring_at(n, p, q, y, x);
        if same_ring(n, a, b, y, x) {
            assert(m1[ix(n, a, b)] == spatial_at(n, s, y, x));
        } else {
            assert(!same_ring(n, p, q, y, x));
            assert(m1[ix(n, p, q)] == m0[ix(n, p, q)]);
            assert(m1[ix(n, a, b)] == m0[ix(n, a, b)]);
        }
    }
}
pub proof fn lemma_ring_at(n: int, a: int, b: int, y: int, x: int)
    requires 0 <= a < n, 0 <= b < n, 0 <= y < n, 0 <= x < n,
    ensures ring_ix(n, ix(n, a, b), y, x) <==> same_ring(n, a, b, y, x),
{ lemma_ix(n); }
pub proof fn lemma_ring_done(m: Seq<f32>, n: int, s: f32)
    requires n % 2 == 1, n > 0, ring_inv(m, n, s, n / 2 + 1, 0),
    ensures m == spatial_k(n, s),
{
    reveal(ring_inv);
    assert forall|t: int| 0 <= t < n * n implies #[trigger] m[t] == spatial_k(n, s)[t] by {
        lemma_coords_in(n, n, t);
        let (p, q) = (t / n, t % n);
        assert(same_ring(n, p, q, imin(p, n - 1 - p), imin(q, n - 1 - q)));
        assert(m[ix(n, p, q)] == spatial_at(n, s, p, q));
    }
    assert(m =~= spatial_k(n, s));
}
// ----- squares -----
pub open spec fn is_sq(n: int) -> bool { exists|m: int| 0 <= m && #[trigger] sq(m) == n }
pub open spec fn sq(m: int) -> int { m * m }
/// The side of a square number.
pub open spec fn isqrt(n: int) -> int { choose|m: int| 0 <= m && #[trigger] sq(m) == n }
/// Axiom (IEEE 754): the square root is correctly rounded, so up to 2^24 it is an integer exactly for squares.
#[verifier::external_body]
pub proof fn float_sqrt_axioms()
    ensures
        forall|n: int| 0 <= n <= 0x100_0000 ==> (feq(frem(#[trigger] fsqrt(i2f(n)), 1.0f32), 0.0f32) <==> is_sq(n)),
        forall|n: int| 0 <= n <= 0x100_0000 && is_sq(n) ==> f2i(#[trigger] fsqrt(i2f(n))) == isqrt(n),
{}
pub proof fn lemma_sq_unique(a: int, b: int)
    requires 0 <= a, 0 <= b, sq(a) == sq(b),
    ensures a == b,
{
    if a < b { assert(a * a < b * b) by (nonlinear_arith) requires 0 <= a < b; }
    if b < a { assert(b * b < a * a) by (nonlinear_arith) requires 0 <= b < a; }
}
pub proof fn lemma_isqrt_of(m: int)
    requires 0 <= m,
    ensures is_sq(m * m), isqrt(m * m) == m,
{
    assert(sq(m) == m * m);
    lemma_sq_unique(isqrt(m * m), m);
}
pub proof fn lemma_isqrt(n: int)
    requires is_sq(n),
    ensures 0 <= isqrt(n), isqrt(n) * isqrt(n) == n, n <= 0x100_0000 ==> isqrt(n) <= 4096,
{
    let m = isqrt(n);
    assert(sq(m) == n);
    if m > 4096 { assert(m * m > 0x100_0000) by (nonlinear_arith) requires m > 4096; }
}
pub proof fn lemma_odd_sq(m: int)
    requires m % 2 == 1,
    ensures (m * m) % 2 == 1, (m * m) / 2 == (m / 2) * m + m / 2,
{
    let h = m / 2;
    assert(m * m == 2 * (2 * h * h + 2 * h) + 1) by (nonlinear_arith) requires m == 2 * h + 1;
    assert(h * m == 2 * h * h + h) by (nonlinear_arith) requires m == 2 * h + 1;
}
/// The side of an odd square is odd.
pub proof fn lemma_sq_odd(m: int, n: int)
    requires 0 <= m, m * m == n,
    ensures n % 2 == 1 ==> m % 2 == 1, is_sq(n), isqrt(n) == m,
{
    lemma_isqrt_of(m);
    if m % 2 == 0 { let h = m / 2; assert(m * m == 2 * (h * m)) by (nonlinear_arith) requires m == 2 * h; }
}
pub proof fn lemma_sq_all(n: int)
    ensures forall|m: int| 0 <= m && #[trigger] sq(m) == n ==> isqrt(n) == m && (n % 2 == 1 ==> m % 2 == 1),
{
    assert forall|m: int| 0 <= m && #[trigger] sq(m) == n implies isqrt(n) == m && (n % 2 == 1 ==> m % 2 == 1) by { lemma_sq_odd(m, n); }
}
pub proof fn lemma_size(m: int)
    requires 0 <= m <= 4096,
    ensures 0 <= m * m <= 0x100_0000, m > 0 ==> m / 2 * m + m / 2 < m * m, 0 <= m / 2 * m, 0 <= (m - 1) * (m - 1),
{
    assert(0 <= m * m <= 0x100_0000) by (nonlinear_arith) requires 0 <= m <= 4096;
    if m > 0 { lemma_idx(m, m, m / 2, m / 2); }
    assert(0 <= m / 2 * m) by (nonlinear_arith) requires 0 <= m;
    assert(0 <= (m - 1) * (m - 1)) by (nonlinear_arith);
}

// ----- integers in a channel type -----
/// The integer a channel value stands for.
pub uninterp spec fn iv<T>(x: T) -> int;
/// The channel value is an integer the type represents exactly.
pub uninterp spec fn is_int<T>(x: T) -> bool;
pub uninterp spec fn int_min<T>() -> int;
pub uninterp spec fn int_max<T>() -> int;
/// Sums and differences of integers are exact as long as they fit.
pub open spec fn exact_ops<T: Number>() -> bool {
    &&& int_min::<T>() == 0 || int_min::<T>() <= -int_max::<T>()
    &&& int_min::<T>() <= 0 <= int_max::<T>()
    &&& is_int(lit_spec::<T>(0)) && iv(lit_spec::<T>(0)) == 0
    &&& forall|a: T| #[trigger] is_int(a) ==> int_min::<T>() <= iv(a) <= int_max::<T>()
    &&& <T as AddSpec<T>>::obeys_add_spec() && <T as SubSpec<T>>::obeys_sub_spec()
    &&& forall|a: T, b: T| is_int(a) && is_int(b) && int_min::<T>() <= iv(a) + iv(b) <= int_max::<T>() ==> #[trigger] <T as AddSpec<T>>::add_req(a, b)
    &&& forall|a: T, b: T| is_int(a) && is_int(b) && int_min::<T>() <= iv(a) + iv(b) <= int_max::<T>() ==> is_int(#[trigger] <T as AddSpec<T>>::add_spec(a, b)) && iv(<T as AddSpec<T>>::add_spec(a, b)) == iv(a) + iv(b)
    &&& forall|a: T, b: T| is_int(a) && is_int(b) && int_min::<T>() <= iv(a) - iv(b) <= int_max::<T>() ==> #[trigger] <T as SubSpec<T>>::sub_req(a, b)
    &&& forall|a: T, b: T| is_int(a) && is_int(b) && int_min::<T>() <= iv(a) - iv(b) <= int_max::<T>() ==> is_int(#[trigger] <T as SubSpec<T>>::sub_spec(a, b)) && iv(<T as SubSpec<T>>::sub_spec(a, b)) == iv(a) - iv(b)
}
/// Definition of `iv`, `is_int` and the limits for the built-in types; f32 sums of integers up to 2^24 are exact (IEEE 754).
#[verifier::external_body]
pub proof fn int_axioms()
    ensures
        forall|x: u8| #[trigger] iv::<u8>(x) == x, forall|x: u8| #[trigger] is_int::<u8>(x), int_min::<u8>() == 0, int_max::<u8>() == u8::MAX,
        forall|x: u16| #[trigger] iv::<u16>(x) == x, forall|x: u16| #[trigger] is_int::<u16>(x), int_min::<u16>() == 0, int_max::<u16>() == u16::MAX,
        forall|x: u32| #[trigger] iv::<u32>(x) == x, forall|x: u32| #[trigger] is_int::<u32>(x), int_min::<u32>() == 0, int_max::<u32>() == u32::MAX,
        forall|x: usize| #[trigger] iv::<usize>(x) == x, forall|x: usize| #[trigger] is_int::<usize>(x), int_min::<usize>() == 0, int_max::<usize>() == usize::MAX,
        forall|x: i16| #[trigger] iv::<i16>(x) == x, forall|x: i16| #[trigger] is_int::<i16>(x), int_min::<i16>() == i16::MIN, int_max::<i16>() == i16::MAX,
        forall|x: i32| #[trigger] iv::<i32>(x) == x, forall|x: i32| #[trigger] is_int::<i32>(x), int_min::<i32>() == i32::MIN, int_max::<i32>() == i32::MAX,
        forall|x: i64| #[trigger] iv::<i64>(x) == x, forall|x: i64| #[trigger] is_int::<i64>(x), int_min::<i64>() == i64::MIN, int_max::<i64>() == i64::MAX,
        forall|x: f32| #[trigger] is_int::<f32>(x) ==> x == i2f(iv::<f32>(x)) && -0x100_0000 <= iv::<f32>(x) <= 0x100_0000,
        forall|n: int| -0x100_0000 <= n <= 0x100_0000 ==> is_int::<f32>(#[trigger] i2f(n)) && iv::<f32>(i2f(n)) == n,
        int_min::<f32>() == -0x100_0000, int_max::<f32>() == 0x100_0000,
        forall|m: int, n: int| -0x100_0000 <= m <= 0x100_0000 && -0x100_0000 <= n <= 0x100_0000 && -0x100_0000 <= m + n <= 0x100_0000 ==> #[trigger] fadd(i2f(m), i2f(n)) == i2f(m + n),
        forall|m: int, n: int| -0x100_0000 <= m <= 0x100_0000 && -0x100_0000 <= n <= 0x100_0000 && -0x100_0000 <= m - n <= 0x100_0000 ==> #[trigger] fsub(i2f(m), i2f(n)) == i2f(m - n),
        forall|m: int| -4096 <= m <= 4096 ==> #[trigger] fmul(i2f(m), i2f(m)) == i2f(m * m),
{}
pub proof fn lemma_exact_u8() ensures exact_ops::<u8>() { int_axioms(); lit_axioms(); }
pub proof fn lemma_exact_u16() ensures exact_ops::<u16>() { int_axioms(); lit_axioms(); }
pub proof fn lemma_exact_u32() ensures exact_ops::<u32>() { int_axioms(); lit_axioms(); }
pub proof fn lemma_exact_usize() ensures exact_ops::<usize>() { int_axioms(); lit_axioms(); }
pub proof fn lemma_exact_i16() ensures exact_ops::<i16>() { int_axioms(); lit_axioms(); }
pub proof fn lemma_exact_i32() ensures exact_ops::<i32>() { int_axioms(); lit_axioms(); }
pub proof fn lemma_exact_i64() ensures exact_ops::<i64>() { int_axioms(); lit_axioms(); }
pub proof fn lemma_exact_f32() ensures exact_ops::<f32>() {
    int_axioms(); lit_axioms(); float_axioms(); float_int_axioms();
    assert forall|a: f32, b: f32| is_int(a) && is_int(b) && int_min::<f32>() <= iv(a) + iv(b) <= int_max::<f32>() implies is_int(#[trigger] <f32 as AddSpec<f32>>::add_spec(a, b)) && iv(<f32 as AddSpec<f32>>::add_spec(a, b)) == iv(a) + iv(b) by {
        assert(fadd(i2f(iv(a)), i2f(iv(b))) == i2f(iv(a) + iv(b)));
    }
    assert forall|a: f32, b: f32| is_int(a) && is_int(b) && int_min::<f32>() <= iv(a) - iv(b) <= int_max::<f32>() implies is_int(#[trigger] <f32 as SubSpec<f32>>::sub_spec(a, b)) && iv(<f32 as SubSpec<f32>>::sub_spec(a, b)) == iv(a) - iv(b) by {
        assert(fsub(i2f(iv(a)), i2f(iv(b))) == i2f(iv(a) - iv(b)));
    }
}

// ----- sums over rectangles -----
pub open spec fn chan_of(f: spec_fn(int, int, int) -> int, k: int) -> spec_fn(int, int) -> int { |u: int, v: int| f(u, v, k) }
pub open spec fn abs_of(f: spec_fn(int, int) -> int) -> spec_fn(int, int) -> int { |u: int, v: int| if f(u, v) < 0 { -f(u, v) } else { f(u, v) } }
pub open spec fn nonneg(f: spec_fn(int, int) -> int, w: int, h: int) -> bool { forall|u: int, v: int| 0 <= u < w && 0 <= v < h ==> #[trigger] f(u, v) >= 0 }
/// Sum of row `v` over columns `a .. b`.
pub open spec fn rowsum(f: spec_fn(int, int) -> int, a: int, b: int, v: int) -> int
    decreases b - a,
{
    if b <= a { 0 } else { rowsum(f, a, b - 1, v) + f(b - 1, v) }
}
/// Sum over columns `a .. b` and rows `c .. d`.
pub open spec fn rect(f: spec_fn(int, int) -> int, a: int, b: int, c: int, d: int) -> int
    decreases d - c,
{
    if d <= c { 0 } else { rect(f, a, b, c, d - 1) + rowsum(f, a, b, d - 1) }
}
pub proof fn lemma_row_split(f: spec_fn(int, int) -> int, a: int, m: int, b: int, v: int)
    requires a <= m <= b,
    ensures rowsum(f, a, b, v) == rowsum(f, a, m, v) + rowsum(f, m, b, v),
    decreases b - m,
{
    if m < b { lemma_row_split(f, a, m, b - 1, v); }
}
pub proof fn lemma_rect_cols(f: spec_fn(int, int) -> int, a: int, m: int, b: int, c: int, d: int)
    requires a <= m <= b,
    ensures rect(f, a, b, c, d) == rect(f, a, m, c, d) + rect(f, m, b, c, d),
    decreases d - c,
{
    if c < d { lemma_rect_cols(f, a, m, b, c, d - 1); lemma_row_split(f, a, m, b, d - 1); }
}
pub proof fn lemma_rect_rows(f: spec_fn(int, int) -> int, a: int, b: int, c: int, m: int, d: int)
    requires c <= m <= d,
    ensures rect(f, a, b, c, d) == rect(f, a, b, c, m) + rect(f, a, b, m, d),
    decreases d - m,
{
    if m < d { lemma_rect_rows(f, a, b, c, m, d - 1); }
}
pub proof fn lemma_rect_empty(f: spec_fn(int, int) -> int, c: int, d: int)
    ensures rect(f, 0, 0, 0, d) == 0, rect(f, 0, 0, c, d) == 0, rect(f, 0, c, 0, 0) == 0,
    decreases d - c, d,
{
    lemma_rect_empty0(f, 0, d); lemma_rect_empty0(f, c, d);
}
pub proof fn lemma_rect_empty0(f: spec_fn(int, int) -> int, c: int, d: int)
    ensures rect(f, 0, 0, c, d) == 0,
    decreases d - c,
{
    if c < d { lemma_rect_empty0(f, c, d - 1); }
}
pub proof fn lemma_row_bound(f: spec_fn(int, int) -> int, a: int, b: int, v: int, w: int, h: int)
    requires 0 <= a <= b <= w, 0 <= v < h,
    ensures
        -rowsum(abs_of(f), a, b, v) <= rowsum(f, a, b, v) <= rowsum(abs_of(f), a, b, v),
        0 <= rowsum(abs_of(f), a, b, v),
        nonneg(f, w, h) ==> 0 <= rowsum(f, a, b, v),
    decreases b - a,
{
    if a < b { lemma_row_bound(f, a, b - 1, v, w, h); assert(nonneg(f, w, h) ==> f(b - 1, v) >= 0); }
}
pub proof fn lemma_rect_bound0(f: spec_fn(int, int) -> int, a: int, b: int, c: int, d: int, w: int, h: int)
    requires 0 <= a <= b <= w, 0 <= c <= d <= h,
    ensures
        -rect(abs_of(f), a, b, c, d) <= rect(f, a, b, c, d) <= rect(abs_of(f), a, b, c, d),
        0 <= rect(abs_of(f), a, b, c, d),
        nonneg(f, w, h) ==> 0 <= rect(f, a, b, c, d),
    decreases d - c,
{
    if c < d { lemma_rect_bound0(f, a, b, c, d - 1, w, h); lemma_row_bound(f, a, b, d - 1, w, h); }
}
/// A rectangle of non-negative values has at most the sum of a larger one.
pub proof fn lemma_rect_mono(f: spec_fn(int, int) -> int, a: int, b: int, c: int, d: int, w: int, h: int)
    requires 0 <= a <= b <= w, 0 <= c <= d <= h,
    ensures rect(abs_of(f), a, b, c, d) <= rect(abs_of(f), 0, w, 0, h),
{
    let g = abs_of(f);
    lemma_rect_rows(g, 0, w, 0, c, h);
    lemma_rect_rows(g, 0, w, c, d, h);
    lemma_rect_cols(g, 0, a, w, c, d);
    lemma_rect_cols(g, a, b, w, c, d);
    lemma_rect_bound0(f, 0, w, 0, c, w, h);
    lemma_rect_bound0(f, 0, w, d, h, w, h);
    lemma_rect_bound0(f, 0, a, c, d, w, h);
    lemma_rect_bound0(f, b, w, c, d, w, h);
}
pub proof fn lemma_rect_bound(f: spec_fn(int, int) -> int, a: int, b: int, c: int, d: int, w: int, h: int)
    requires 0 <= a <= b <= w, 0 <= c <= d <= h,
    ensures
        -rect(abs_of(f), 0, w, 0, h) <= rect(f, a, b, c, d) <= rect(abs_of(f), 0, w, 0, h),
        nonneg(f, w, h) ==> 0 <= rect(f, a, b, c, d),
{
    lemma_rect_bound0(f, a, b, c, d, w, h);
    lemma_rect_mono(f, a, b, c, d, w, h);
}
/// One more entry of a summed-area table.
pub proof fn lemma_sat_step(f: spec_fn(int, int) -> int, w: int, h: int, x: int, y: int)
    requires 0 <= x < w, 0 <= y < h,
    ensures ({
        let t = rect(abs_of(f), 0, w, 0, h);
        let row = rect(f, 0, x, 0, y + 1) - rect(f, 0, x, 0, y);
        &&& rect(f, 0, x + 1, 0, y + 1) == f(x, y) + rect(f, 0, x + 1, 0, y) + row
        &&& -t <= f(x, y) + rect(f, 0, x + 1, 0, y) <= t
        &&& -t <= row <= t
        &&& -t <= rect(f, 0, x + 1, 0, y + 1) <= t
    }),
{
    let g = abs_of(f);
    lemma_rect_bound0(f, 0, x + 1, 0, y, w, h);
    lemma_row_bound(f, 0, x, y, w, h);
    lemma_rect_mono(f, 0, x + 1, 0, y + 1, w, h);
    lemma_rect_bound(f, 0, x + 1, 0, y + 1, w, h);
    assert(rect(g, 0, x + 1, 0, y + 1) == rect(g, 0, x + 1, 0, y) + rowsum(g, 0, x + 1, y));
    assert(rowsum(g, 0, x + 1, y) == rowsum(g, 0, x, y) + g(x, y));
    assert(rowsum(f, 0, x + 1, y) == rowsum(f, 0, x, y) + f(x, y));
}
pub proof fn lemma_sat_step_nn(f: spec_fn(int, int) -> int, w: int, h: int, x: int, y: int)
    requires 0 <= x < w, 0 <= y < h, nonneg(f, w, h),
    ensures
        0 <= f(x, y) + rect(f, 0, x + 1, 0, y), 0 <= rect(f, 0, x, 0, y + 1) - rect(f, 0, x, 0, y), 0 <= rect(f, 0, x + 1, 0, y + 1),
{
    assert(f(x, y) >= 0);
    lemma_rect_bound0(f, 0, x + 1, 0, y, w, h);
    lemma_row_bound(f, 0, x, y, w, h);
    lemma_rect_bound0(f, 0, x + 1, 0, y + 1, w, h);
}
/// A sum of values between 0 and `m`.
pub proof fn lemma_rect_max(f: spec_fn(int, int) -> int, m: int, a: int, b: int, c: int, d: int)
    requires a <= b, c <= d, forall|u: int, v: int| a <= u < b && c <= v < d ==> 0 <= #[trigger] f(u, v) <= m,
    ensures 0 <= rect(f, a, b, c, d) <= m * ((b - a) * (d - c)),
    decreases d - c,
{
    if c < d {
        lemma_rect_max(f, m, a, b, c, d - 1);
        lemma_row_max(f, m, a, b, d - 1);
        let (p, q) = (b - a, d - c);
        assert(m * (p * (q - 1)) + m * p == m * (p * q)) by (nonlinear_arith);
    } else {
        assert(m * ((b - a) * (d - c)) == 0) by (nonlinear_arith) requires d == c;
    }
}
pub proof fn lemma_row_max(f: spec_fn(int, int) -> int, m: int, a: int, b: int, v: int)
    requires a <= b, forall|u: int| a <= u < b ==> 0 <= #[trigger] f(u, v) <= m,
    ensures 0 <= rowsum(f, a, b, v) <= m * (b - a),
    decreases b - a,
{
    if a < b {
        lemma_row_max(f, m, a, b - 1, v);
        assert(0 <= f(b - 1, v) <= m);
        assert(m * (b - 1 - a) + m == m * (b - a)) by (nonlinear_arith);
    } else {
        assert(m * (b - a) == 0) by (nonlinear_arith) requires b == a;
    }
}
/// Number of elements of a set in a rectangle.
pub open spec fn ind(s: spec_fn(int, int) -> bool) -> spec_fn(int, int) -> int { |u: int, v: int| if s(u, v) { 1int } else { 0int } }
pub open spec fn count(s: spec_fn(int, int) -> bool, a: int, b: int, c: int, d: int) -> int { rect(ind(s), a, b, c, d) }
pub open spec fn some_in(s: spec_fn(int, int) -> bool, a: int, b: int, c: int, d: int) -> bool { exists|u: int, v: int| a <= u < b && c <= v < d && #[trigger] s(u, v) }
pub open spec fn all_in(s: spec_fn(int, int) -> bool, a: int, b: int, c: int, d: int) -> bool { forall|u: int, v: int| a <= u < b && c <= v < d ==> #[trigger] s(u, v) }
pub proof fn lemma_row_count(s: spec_fn(int, int) -> bool, f: spec_fn(int, int) -> int, k: int, a: int, b: int, v: int)
    requires a <= b, k > 0, forall|u: int| a <= u < b ==> #[trigger] f(u, v) == (if s(u, v) { k } else { 0 }),
    ensures
        rowsum(f, a, b, v) == k * rowsum(ind(s), a, b, v),
        0 <= rowsum(ind(s), a, b, v) <= b - a,
        rowsum(ind(s), a, b, v) > 0 <==> exists|u: int| a <= u < b && #[trigger] s(u, v),
        rowsum(ind(s), a, b, v) == b - a <==> forall|u: int| a <= u < b ==> #[trigger] s(u, v),
    decreases b - a,
{
    if a < b {
        lemma_row_count(s, f, k, a, b - 1, v);
        let r = rowsum(ind(s), a, b - 1, v);
        assert(f(b - 1, v) == (if s(b - 1, v) { k } else { 0 }));
        assert(k * (r + 1) == k * r + k) by (nonlinear_arith);
        assert(ind(s)(b - 1, v) == (if s(b - 1, v) { 1int } else { 0int }));
        if r > 0 {
            let u = choose|u: int| a <= u < b - 1 && #[trigger] s(u, v);
            assert(a <= u < b && s(u, v));
        }
    }
}
/// Sum of a two-valued function: `k` times the number of elements.
pub proof fn lemma_count(s: spec_fn(int, int) -> bool, f: spec_fn(int, int) -> int, k: int, a: int, b: int, c: int, d: int)
    requires a <= b, c <= d, k > 0, forall|u: int, v: int| a <= u < b && c <= v < d ==> #[trigger] f(u, v) == (if s(u, v) { k } else { 0 }),
    ensures
        rect(f, a, b, c, d) == k * count(s, a, b, c, d),
        0 <= count(s, a, b, c, d) <= (b - a) * (d - c),
        count(s, a, b, c, d) > 0 <==> some_in(s, a, b, c, d),
        count(s, a, b, c, d) == (b - a) * (d - c) <==> all_in(s, a, b, c, d),
    decreases d - c,
{
    let (p, q) = (b - a, d - c);
    if c < d {
        lemma_count(s, f, k, a, b, c, d - 1);
        lemma_row_count(s, f, k, a, b, d - 1);
        let (x, y) = (rect(ind(s), a, b, c, d - 1), rowsum(ind(s), a, b, d - 1));
        assert(k * (x + y) == k * x + k * y) by (nonlinear_arith);
        assert(p * (q - 1) + p == p * q) by (nonlinear_arith);
        if x > 0 {
            let (u, v) = choose|u: int, v: int| a <= u < b && c <= v < d - 1 && #[trigger] s(u, v);
            assert(a <= u < b && c <= v < d && s(u, v));
        }
        if y > 0 {
            let u = choose|u: int| a <= u < b && #[trigger] s(u, d - 1);
            assert(a <= u < b && c <= d - 1 < d && s(u, d - 1));
        }
        if some_in(s, a, b, c, d) {
            let (u, v) = choose|u: int, v: int| a <= u < b && c <= v < d && #[trigger] s(u, v);
            if v < d - 1 { assert(some_in(s, a, b, c, d - 1)); }
        }
        if all_in(s, a, b, c, d) {
            assert(all_in(s, a, b, c, d - 1));
        }
        if x == p * (q - 1) && y == p {
            assert(all_in(s, a, b, c, d)) by {
                assert forall|u: int, v: int| a <= u < b && c <= v < d implies #[trigger] s(u, v) by { if v < d - 1 { assert(all_in(s, a, b, c, d - 1)); } }
            }
        }
    } else {
        assert(p * q == 0) by (nonlinear_arith) requires q == 0;
        assert(k * 0 == 0);
    }
}
}
