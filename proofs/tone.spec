@@ mod tone
@ items
pub open spec fn gain_of(g: f32) -> spec_fn(u8) -> u8 { |x: u8| f2u8(fround(fmul(i2f(x as int), g))) }
pub open spec fn gamma_of(g: f32, max: u8) -> spec_fn(u8) -> u8 { |x: u8| f2u8(fround(fmul(fpow(fdiv(i2f(x as int), i2f(max as int)), g), i2f(max as int)))) }
pub open spec fn plus_f(b: f32) -> spec_fn(f32) -> f32 { |x: f32| fadd(x, b) }
pub open spec fn times_f(b: f32) -> spec_fn(f32) -> f32 { |x: f32| fmul(x, b) }
/// L*a*b* with D50, `g` on L*, and back.
pub open spec fn via_lab(alpha: bool, g: spec_fn(f32) -> f32, p: Seq<u8>) -> Seq<u8> { via_lab_w(alpha, crate::enums::White::D50, g, p) }
pub open spec fn via_lab_w(alpha: bool, w: crate::enums::White, g: spec_fn(f32) -> f32, p: Seq<u8>) -> Seq<u8> {
    let l = crate::colorspace::lab_px(alpha, w, p);
    crate::colorspace::lab_srgb_px(alpha, w, l.update(0, g(l[0])))
}
/// The HSV pixel with `val` added to S, back in RGB.
pub open spec fn saturated(alpha: bool, val: int, p: Seq<u8>) -> Seq<u8> {
    pix_map(alpha, crate::colorspace::rgb_of(), idf(), s_plus(val, pix_map(alpha, crate::colorspace::hsv_of(), idf(), p)))
}
pub open spec fn s_plus(val: int, p: Seq<u8>) -> Seq<u8> { p.update(1, crate::simd::add8(p[1], val)) }
/// Equalisation of one lightness value, given the keys of all pixels.
pub open spec fn eq_of(alpha: f32, precision: f32, ks: Seq<i32>) -> spec_fn(f32) -> f32 {
    |v: f32| fadd(fmul(fmul(alpha, crate::util::percentile(ks, crate::util::qkey(v, precision) as int)), 100.0f32), fmul(fsub(1.0f32, alpha), v))
}
/// The same with a table of percentiles.
pub open spec fn eq_tab(alpha: f32, precision: f32, t: Map<i32, f32>) -> spec_fn(f32) -> f32 {
    |v: f32| fadd(fmul(fmul(alpha, t[crate::util::qkey(v, precision)]), 100.0f32), fmul(fsub(1.0f32, alpha), v))
}
/// `r` is the L*a*b* image `lab` with equalised L*, back in sRGB.
pub open spec fn equalized(r: Image<u8>, lab: &Image<f32>, w: crate::enums::White, alpha: f32, precision: f32) -> bool {
    r.info == lab.info && r.wf()
    && forall|i: int| 0 <= i < lab.n() ==> #[trigger] r.pxi(i) == crate::colorspace::lab_srgb_px(lab.info.alpha, w, lab.pxi(i).update(0, eq_of(alpha, precision, crate::util::qkeys(lab, precision))(lab.pxi(i)[0])))
}
@@ fn tone::histogram_equalization
@ requires
input.wf(), !(flt(precision, 0.0f32) || flt(alpha, 0.0f32) || fgt(alpha, 1.0f32)) ==> input.info.cn() == 3
@ ensures
flt(precision, 0.0f32) || flt(alpha, 0.0f32) || fgt(alpha, 1.0f32) ==> crate::error::arg_err(r),
!(flt(precision, 0.0f32) || flt(alpha, 0.0f32) || fgt(alpha, 1.0f32)) ==> r is Ok && exists|l: Image<f32>| #[trigger] crate::colorspace::is_lab(&l, input, *ref_white) && equalized(r->Ok_0, &l, *ref_white, alpha, precision)
@ start
proof { float_axioms(); lit_axioms(); }
@ before generate_histogram_percentiles 0
let ghost l0 = lab;
let ghost ks = crate::util::qkeys(&l0, precision);
proof {
    assert(crate::colorspace::is_lab(&l0, input, *ref_white));
    assert(l0.n() <= i32::MAX) by (nonlinear_arith) requires l0.n() * l0.info.channels <= u32::MAX, l0.info.channels >= 3, l0.n() >= 0;
    lemma_chunk_at(l0.data@, l0.info.channels as int, l0.n());
    assert forall|k: int| 0 <= k < l0.data@.len() && k % (l0.info.channels as int) == 0 implies ks.contains(crate::util::qkey(#[trigger] l0.data@[k], precision)) by {
        let i = k / l0.info.channels as int;
        let c = l0.info.channels as int;
        assert(c * l0.n() == l0.n() * c) by (nonlinear_arith);
        lemma_coords_in(c, l0.n(), k);
        assert(l0.pxi(i)[0] == l0.data@[k]);
        assert(ks[i] == crate::util::qkey(l0.data@[k], precision));
    }
}
@ closure 0
|$0: f32| -> (r: f32)
    requires percentiles@.contains_key(crate::util::qkey($0, precision)),
    ensures r == eq_tab(alpha, precision, percentiles@)($0),
===
===
proof { assert(computes($c, eq_tab(alpha, precision, percentiles@))); }
@ before lab_to_srgb_f32 0
proof {
    lemma_chunk_at(l0.data@, l0.info.channels as int, l0.n());
    assert forall|i: int| 0 <= i < l0.n() implies #[trigger] lab.pxi(i) == l0.pxi(i).update(0, eq_of(alpha, precision, ks)(l0.pxi(i)[0])) by {
        assert(ks[i] == crate::util::qkey(l0.pxi(i)[0], precision));
        assert(ks.contains(ks[i]));
        assert(percentiles@[ks[i]] == crate::util::percentile(ks, ks[i] as int));
    }
}
@@ fn tone::brightness
@ requires
input.wf()
@ ensures
!(-255 <= bias <= 255) ==> crate::error::arg_err(r),
-255 <= bias <= 255 ==> r is Ok && r->Ok_0.info == input.info && r->Ok_0.wf(),
-255 <= bias <= 255 ==> forall|i: int| 0 <= i < input.n() ==> #[trigger] r->Ok_0.pxi(i) == chan_map(input.info.alpha, crate::simd::add_f(bias as int), idf(), input.pxi(i))
@@ fn tone::brightness_rgb_norm
@ requires
input.wf(), -255 <= bias <= 255
@ ensures
r.info == input.info, r.wf(),
forall|i: int| 0 <= i < input.n() ==> #[trigger] r.pxi(i) == chan_map(input.info.alpha, crate::simd::add_f(bias as int), idf(), input.pxi(i))
@ closure 0
|$0: u8| -> (r: u8)
    requires -255 <= bias <= 255,
    ensures r == crate::simd::add8($0, bias as int),
===
===
@ closure 1
|$0: u8| -> (r: u8)
    requires forall|k: int| 0 <= k < 256 ==> #[trigger] lookup_table@[k] == crate::simd::add8(k as u8, bias as int),
    ensures r == crate::simd::add8($0, bias as int),
===
===
proof { assert(computes($c, crate::simd::add_f(bias as int))); }
@ closure 2
|$0: u8| -> (r: u8)
    ensures r == $0,
===
===
proof { assert(computes($c, idf())); }
@@ fn tone::brightness_lab
@ requires
input.wf(), -255 <= bias <= 255 ==> input.info.cn() == 3
@ ensures
!(-255 <= bias <= 255) ==> crate::error::arg_err(r),
-255 <= bias <= 255 ==> r is Ok && r->Ok_0.info == input.info && r->Ok_0.wf(),
-255 <= bias <= 255 ==> forall|i: int| 0 <= i < input.n() ==> #[trigger] r->Ok_0.pxi(i) == via_lab(input.info.alpha, plus_f(fmul(fdiv(i2f(bias as int), 255.0f32), 100.0f32)), input.pxi(i))
@ start
proof { float_axioms(); }
@ closure 0
|$0: f32| -> (r: f32)
    ensures r == fadd($0, bias_lab),
===
proof { float_axioms(); }
===
proof { assert(computes($c, plus_f(bias_lab))); }
@@ fn tone::contrast
@ requires
input.wf()
@ ensures
flt(gain, 0.0f32) || fgt(gain, 1.0f32) ==> crate::error::arg_err(r),
!(flt(gain, 0.0f32) || fgt(gain, 1.0f32)) ==> r is Ok && r->Ok_0.info == input.info && r->Ok_0.wf(),
!(flt(gain, 0.0f32) || fgt(gain, 1.0f32)) ==> forall|i: int| 0 <= i < input.n() ==> #[trigger] r->Ok_0.pxi(i) == chan_map(input.info.alpha, gain_of(gain), idf(), input.pxi(i))
@ start
proof { float_axioms(); lit_axioms(); }
@ closure 0
|$0: u8| -> (r: u8)
    ensures r == gain_of(gain)($0),
===
proof { float_axioms(); lemma_clamp255(); }
===
@ closure 1
|$0: u8| -> (r: u8)
    requires forall|k: int| 0 <= k < 256 ==> #[trigger] lookup_table@[k] == gain_of(gain)(k as u8),
    ensures r == gain_of(gain)($0),
===
===
proof { assert(computes($c, gain_of(gain))); }
@ closure 2
|$0: u8| -> (r: u8)
    ensures r == $0,
===
===
proof { assert(computes($c, idf())); }
@@ fn tone::contrast_lab
@ requires
input.wf(), !(flt(gain, 0.0f32) || fgt(gain, 1.0f32)) ==> input.info.cn() == 3
@ ensures
flt(gain, 0.0f32) || fgt(gain, 1.0f32) ==> crate::error::arg_err(r),
!(flt(gain, 0.0f32) || fgt(gain, 1.0f32)) ==> r is Ok && r->Ok_0.info == input.info && r->Ok_0.wf(),
!(flt(gain, 0.0f32) || fgt(gain, 1.0f32)) ==> forall|i: int| 0 <= i < input.n() ==> #[trigger] r->Ok_0.pxi(i) == via_lab(input.info.alpha, times_f(gain), input.pxi(i))
@ start
proof { float_axioms(); lit_axioms(); }
@ closure 0
|$0: f32| -> (r: f32)
    ensures r == fmul($0, gain),
===
proof { float_axioms(); }
===
proof { assert(computes($c, times_f(gain))); }
@@ fn tone::saturation
@ requires
input.wf(), -255 <= saturation_ <= 255 ==> input.info.cn() == 3
@ ensures
!(-255 <= saturation_ <= 255) ==> crate::error::arg_err(r),
-255 <= saturation_ <= 255 ==> r is Ok && r->Ok_0.info == input.info && r->Ok_0.wf(),
-255 <= saturation_ <= 255 ==> forall|i: int| 0 <= i < input.n() ==> #[trigger] r->Ok_0.pxi(i) == saturated(input.info.alpha, saturation_ as int, input.pxi(i))
@ start
proof {
    assert forall|c: int, p: Seq<u8>| p.len() == c && c > 1 implies #[trigger] crate::simd::add_n(c, saturation_ as int, 1, p) == s_plus(saturation_ as int, p) by { assert(crate::simd::add_n(c, saturation_ as int, 1, p) =~= s_plus(saturation_ as int, p)); }
}
@@ fn tone::saturation_norm
@ requires
old(hsv).wf(), old(hsv).info.channels >= 2, -255 <= saturation <= 255
@ ensures
final(hsv).info == old(hsv).info, final(hsv).wf(),
forall|i: int| 0 <= i < old(hsv).n() ==> #[trigger] final(hsv).pxi(i) == s_plus(saturation as int, old(hsv).pxi(i))
@ closure 0
|$0: u8| -> (r: u8)
    requires -255 <= saturation <= 255,
    ensures r == crate::simd::add8($0, saturation as int),
===
===
proof { assert(computes($c, crate::simd::add_f(saturation as int))); }
@@ fn tone::gamma
@ requires
input.wf()
@ ensures
flt(gamma_, 0.0f32) ==> crate::error::arg_err(r),
!flt(gamma_, 0.0f32) ==> r is Ok && r->Ok_0.info == input.info && r->Ok_0.wf(),
!flt(gamma_, 0.0f32) ==> forall|i: int| 0 <= i < input.n() ==> #[trigger] r->Ok_0.pxi(i) == chan_map(input.info.alpha, gamma_of(gamma_, max), idf(), input.pxi(i))
@ start
proof { float_axioms(); lit_axioms(); }
@ closure 0
|$0: u8| -> (r: u8)
    ensures r == gamma_of(gamma_, max)($0),
===
proof { float_axioms(); }
===
proof { assert(computes($c, gamma_of(gamma_, max))); }
@ closure 1
|$0: u8| -> (r: u8)
    ensures r == $0,
===
===
proof { assert(computes($c, idf())); }
