@@ fn colorspace::rgb_to_hsv
@ requires
input.wf(), input.info.cn() == 3
@ ensures
mapped(r.info, input.info, 3), r.wf(),
forall|i: int| 0 <= i < input.n() ==> #[trigger] r.pxi(i) == pix_map(input.info.alpha, hsv_of(), idf(), input.pxi(i))
@ start
proof { lemma_mapped(input.info);  }
@ closure 0
|$0: &[u8], $1: &mut Vec<u8>|
    requires $0@.len() == 3, old($1)@.len() == 0,
    ensures final($1)@ =~= hsv_of()($0@), final($1)@.len() == 3,
===

===
proof { assert(maps_to($c, hsv_of(), input.info.cn(), 3)); }
@ closure 1
|$0: u8| -> (r: u8)
    ensures r == idf()($0),
===

===
proof { assert(computes($c, idf())); }
@@ fn colorspace::hsv_to_rgb
@ requires
input.wf(), input.info.cn() == 3
@ ensures
mapped(r.info, input.info, 3), r.wf(),
forall|i: int| 0 <= i < input.n() ==> #[trigger] r.pxi(i) == pix_map(input.info.alpha, rgb_of(), idf(), input.pxi(i))
@ start
proof { lemma_mapped(input.info);  }
@ closure 0
|$0: &[u8], $1: &mut Vec<u8>|
    requires $0@.len() == 3, old($1)@.len() == 0,
    ensures final($1)@ =~= rgb_of()($0@), final($1)@.len() == 3,
===
proof { lemma_mul255(); }
===
proof { assert(maps_to($c, rgb_of(), input.info.cn(), 3)); }
@ closure 1
|$0: u8| -> (r: u8)
    ensures r == idf()($0),
===

===
proof { assert(computes($c, idf())); }
@@ fn colorspace::rgb_to_hsv_f32
@ requires
input.wf(), input.info.cn() == 3
@ ensures
mapped(r.info, input.info, 3), r.wf(),
forall|i: int| 0 <= i < input.n() ==> #[trigger] r.pxi(i) == pix_map(input.info.alpha, hsvf_of(), from255(), input.pxi(i))
@ start
proof { float_axioms(); lit_axioms(); lemma_mapped(input.info);  }
@ closure 0
|$0: &[u8], $1: &mut Vec<f32>|
    requires $0@.len() == 3, old($1)@.len() == 0,
    ensures final($1)@ =~= hsvf_of()($0@), final($1)@.len() == 3,
===
proof { float_axioms(); }
===
proof { assert(maps_to($c, hsvf_of(), input.info.cn(), 3)); }
@ closure 1
|$0: u8| -> (r: f32)
    ensures r == from255()($0),
===
proof { float_axioms(); }
===
proof { assert(computes($c, from255())); }
@@ fn colorspace::hsv_to_rgb_f32
@ requires
input.wf(), input.info.cn() == 3
@ ensures
mapped(r.info, input.info, 3), r.wf(),
forall|i: int| 0 <= i < input.n() ==> #[trigger] r.pxi(i) == pix_map(input.info.alpha, rgbf_of(), to255(), input.pxi(i))
@ start
proof { float_axioms(); lit_axioms(); lemma_mapped(input.info);  }
@ closure 0
|$0: &[f32], $1: &mut Vec<u8>|
    requires $0@.len() == 3, old($1)@.len() == 0,
    ensures final($1)@ =~= rgbf_of()($0@), final($1)@.len() == 3,
===
proof { float_axioms(); }
===
proof { assert(maps_to($c, rgbf_of(), input.info.cn(), 3)); }
@ closure 1
|$0: f32| -> (r: u8)
    ensures r == to255()($0),
===
proof { float_axioms(); }
===
proof { assert(computes($c, to255())); }
@@ fn colorspace::srgb_lin_to_xyz_f32
@ requires
input.wf(), input.info.cn() == 3
@ ensures
mapped(r.info, input.info, 3), r.wf(),
forall|i: int| 0 <= i < input.n() ==> #[trigger] r.pxi(i) == pix_map(input.info.alpha, mat_f(to_xyz_m()), idf(), input.pxi(i))
@ start
proof { float_axioms(); lit_axioms(); lemma_mapped(input.info);  }
@ closure 0
|$0: &[f32], $1: &mut Vec<f32>|
    requires $0@.len() == 3, old($1)@.len() == 0,
    ensures final($1)@ =~= mat_f(to_xyz_m())($0@), final($1)@.len() == 3,
===
proof { float_axioms(); }
===
proof { assert(maps_to($c, mat_f(to_xyz_m()), input.info.cn(), 3)); }
@ closure 1
|$0: f32| -> (r: f32)
    ensures r == idf()($0),
===

===
proof { assert(computes($c, idf())); }
@@ fn colorspace::xyz_to_srgb_lin_f32
@ requires
input.wf(), input.info.cn() == 3
@ ensures
mapped(r.info, input.info, 3), r.wf(),
forall|i: int| 0 <= i < input.n() ==> #[trigger] r.pxi(i) == pix_map(input.info.alpha, mat_f(to_srgb_m()), idf(), input.pxi(i))
@ start
proof { float_axioms(); lit_axioms(); lemma_mapped(input.info);  }
@ closure 0
|$0: &[f32], $1: &mut Vec<f32>|
    requires $0@.len() == 3, old($1)@.len() == 0,
    ensures final($1)@ =~= mat_f(to_srgb_m())($0@), final($1)@.len() == 3,
===
proof { float_axioms(); }
===
proof { assert(maps_to($c, mat_f(to_srgb_m()), input.info.cn(), 3)); }
@ closure 1
|$0: f32| -> (r: f32)
    ensures r == idf()($0),
===

===
proof { assert(computes($c, idf())); }
@@ fn colorspace::xyz_to_lab_f32
@ requires
input.wf(), input.info.cn() == 3
@ ensures
mapped(r.info, input.info, 3), r.wf(),
forall|i: int| 0 <= i < input.n() ==> #[trigger] r.pxi(i) == pix_map(input.info.alpha, lab_of(crate::util::white_vals(*ref_white)), idf(), input.pxi(i))
@ start
let ghost wv: (f32, f32, f32) = crate::util::white_vals(*ref_white);
proof { float_axioms(); lit_axioms(); lemma_mapped(input.info);  }
@ closure 0
|$0: &[f32], $1: &mut Vec<f32>|
    requires $0@.len() == 3, (x_n, y_n, z_n) == wv, old($1)@.len() == 0,
    ensures final($1)@ =~= lab_of(wv)($0@), final($1)@.len() == 3,
===
proof { float_axioms(); }
===
proof { assert(maps_to($c, lab_of(wv), input.info.cn(), 3)); }
@ closure 1
|$0: f32| -> (r: f32)
    ensures r == idf()($0),
===

===
proof { assert(computes($c, idf())); }
@@ fn colorspace::lab_to_xyz_f32
@ requires
input.wf(), input.info.cn() == 3
@ ensures
mapped(r.info, input.info, 3), r.wf(),
forall|i: int| 0 <= i < input.n() ==> #[trigger] r.pxi(i) == pix_map(input.info.alpha, xyz_of(crate::util::white_vals(*ref_white)), idf(), input.pxi(i))
@ start
let ghost wv: (f32, f32, f32) = crate::util::white_vals(*ref_white);
proof { float_axioms(); lit_axioms(); lemma_mapped(input.info);  }
@ closure 0
|$0: &[f32], $1: &mut Vec<f32>|
    requires $0@.len() == 3, (x_n, y_n, z_n) == wv, old($1)@.len() == 0,
    ensures final($1)@ =~= xyz_of(wv)($0@), final($1)@.len() == 3,
===
proof { float_axioms(); }
===
proof { assert(maps_to($c, xyz_of(wv), input.info.cn(), 3)); }
@ closure 1
|$0: f32| -> (r: f32)
    ensures r == idf()($0),
===

===
proof { assert(computes($c, idf())); }
@@ fn colorspace::rgb_to_grayscale_norm
@ requires
input.wf(), 1 <= input.info.cn() <= 128
@ ensures
mapped(r.info, input.info, 1), r.wf(),
forall|i: int| 0 <= i < input.n() ==> #[trigger] r.pxi(i) == pix_map(input.info.alpha, mean_of(), idf(), input.pxi(i))
@ start
proof { lemma_mapped(input.info); assert(input.info.width * input.info.height * chan_n(1, input.info.alpha) <= u32::MAX); }
@ closure 0
|$0: &[u8], $1: &mut Vec<u8>|
    requires 1 <= $0@.len() <= 128, old($1)@.len() == 0,
    ensures final($1)@ =~= mean_of()($0@), final($1)@.len() == 1,
===

===
proof { assert(maps_to($c, mean_of(), input.info.cn(), 1)); }
@ closure 1
|$0: u8| -> (r: u8)
    ensures r == idf()($0),
===

===
proof { assert(computes($c, idf())); }
@ loop 0
$v@ == channels@, sum == isum(channels@, $i as int), 0 <= sum <= 255 * $i
@ loopstart 0
proof { assert(channel == channels@[$i - 1]); }
@@ fn colorspace::rgb_to_grayscale
@ requires
input.wf(), 1 <= input.info.cn() <= 128
@ ensures
mapped(r.info, input.info, 1), r.wf(),
forall|i: int| 0 <= i < input.n() ==> #[trigger] r.pxi(i) == pix_map(input.info.alpha, mean_of(), idf(), input.pxi(i))
@@ fn colorspace::rgb_to_grayscale_f32
@ requires
input.wf(), 1 <= input.info.cn()
@ ensures
mapped(r.info, input.info, 1), r.wf(),
forall|i: int| 0 <= i < input.n() ==> #[trigger] r.pxi(i) == pix_map(input.info.alpha, meanf_of(), idf(), input.pxi(i))
@ start
proof { float_axioms(); lit_axioms(); lemma_mapped(input.info); assert(input.info.width * input.info.height * chan_n(1, input.info.alpha) <= u32::MAX); }
@ closure 0
|$0: &[f32], $1: &mut Vec<f32>|
    requires 1 <= $0@.len() <= 255, old($1)@.len() == 0,
    ensures final($1)@ =~= meanf_of()($0@), final($1)@.len() == 1,
===
proof { float_axioms(); }
===
proof { assert(maps_to($c, meanf_of(), input.info.cn(), 1)); }
@ closure 1
|$0: f32| -> (r: f32)
    ensures r == idf()($0),
===

===
proof { assert(computes($c, idf())); }
@ loop 0
$v@ == channels@, sum == fsum($v@, $i as int)
@@ fn colorspace::linearize_srgb_f32
@ requires
input.wf()
@ ensures
r.info == input.info, r.wf(),
forall|i: int| 0 <= i < input.n() ==> #[trigger] r.pxi(i) == chan_map(input.info.alpha, lin_f(), u8_f(), input.pxi(i))
@ start
proof { float_axioms(); lit_axioms(); }
@ closure 0
|$0: u8| -> (r: f32)
    ensures r == lin($0),
===
proof { float_axioms(); }
===
proof { assert(computes($c, lin_f())); }
@ closure 1
|$0: u8| -> (r: f32)
    requires forall|k: int| 0 <= k < 256 ==> #[trigger] lookup_table@[k] == lin(k as u8),
    ensures r == lin($0),
===
===
proof { assert(computes($c, lin_f())); }
@ closure 2
|$0: u8| -> (r: f32)
    ensures r == i2f($0 as int),
===
===
proof { assert(computes($c, u8_f())); }
@@ fn colorspace::unlinearize_srgb_f32
@ requires
input.wf()
@ ensures
r.info == input.info, r.wf(),
forall|i: int| 0 <= i < input.n() ==> #[trigger] r.pxi(i) == chan_map(input.info.alpha, unlin_f(), round_f(), input.pxi(i))
@ start
proof { float_axioms(); lit_axioms(); }
@ closure 0
|$0: f32| -> (r: u8)
    ensures r == unlin($0),
===
proof { float_axioms(); }
===
proof { assert(computes($c, unlin_f())); }
@ closure 1
|$0: f32| -> (r: u8)
    ensures r == f2u8(fround($0)),
===
===
proof { assert(computes($c, round_f())); }
@@ fn colorspace::srgb_to_xyz_f32
@ requires
input.wf(), input.info.cn() == 3
@ ensures
r.info == input.info, r.wf(),
forall|i: int| 0 <= i < input.n() ==> #[trigger] r.pxi(i) == xyz_px(input.info.alpha, input.pxi(i))
@@ fn colorspace::xyz_to_srgb_f32
@ requires
input.wf(), input.info.cn() == 3
@ ensures
r.info == input.info, r.wf(),
forall|i: int| 0 <= i < input.n() ==> #[trigger] r.pxi(i) == srgb_px(input.info.alpha, input.pxi(i))
@@ fn colorspace::srgb_to_lab_f32
@ requires
input.wf(), input.info.cn() == 3
@ ensures
r.info == input.info, r.wf(),
forall|i: int| 0 <= i < input.n() ==> #[trigger] r.pxi(i) == lab_px(input.info.alpha, *ref_white, input.pxi(i))
@@ fn colorspace::lab_to_srgb_f32
@ requires
input.wf(), input.info.cn() == 3
@ ensures
r.info == input.info, r.wf(),
forall|i: int| 0 <= i < input.n() ==> #[trigger] r.pxi(i) == lab_srgb_px(input.info.alpha, *ref_white, input.pxi(i))
@@ mod colorspace
@ items
/// `lab` is `input` in L*a*b*.
pub open spec fn is_lab(lab: &Image<f32>, input: &Image<u8>, w: crate::enums::White) -> bool {
    lab.info == input.info && lab.wf()
    && (forall|i: int| 0 <= i < input.n() ==> #[trigger] lab.pxi(i) == lab_px(input.info.alpha, w, input.pxi(i)))
}
/// `k` values per pixel and the alpha value, if there is one.
pub open spec fn mapped(r: crate::image::ImageInfo, i: crate::image::ImageInfo, k: int) -> bool {
    r.width == i.width && r.height == i.height && r.alpha == i.alpha && r.cn() == k
}
pub proof fn lemma_mapped(i: crate::image::ImageInfo)
    requires i.ok(),
    ensures forall|k: int| 0 <= k <= i.cn() ==> i.width * i.height * #[trigger] chan_n(k, i.alpha) <= u32::MAX,
{
    assert forall|k: int| 0 <= k <= i.cn() implies i.width * i.height * #[trigger] chan_n(k, i.alpha) <= u32::MAX by {
        let n = i.width * i.height;
        assert(n * chan_n(k, i.alpha) <= n * i.channels) by (nonlinear_arith) requires chan_n(k, i.alpha) <= i.channels, 0 <= n;
    }
}
pub open spec fn chan_n(k: int, alpha: bool) -> int { k + (if alpha { 1int } else { 0int }) }
pub open spec fn lin(x: u8) -> f32 {
    let v = i2f(x as int);
    if fle(v, 10.0f32) { fdiv(v, 3294.0f32) } else { fpow(fdiv(fadd(v, 14.025f32), 269.025f32), 2.2f32) }
}
pub open spec fn lin_f() -> spec_fn(u8) -> f32 { |x: u8| lin(x) }
pub open spec fn u8_f() -> spec_fn(u8) -> f32 { |x: u8| i2f(x as int) }
pub open spec fn unlin(x: f32) -> u8 {
    if fle(x, 0.0031308f32) { f2u8(fmul(x, 3294.6f32)) } else { f2u8(fsub(fmul(269.025f32, fpow(x, fdiv(1.0f32, 2.2f32))), 14.025f32)) }
}
pub open spec fn unlin_f() -> spec_fn(f32) -> u8 { |x: f32| unlin(x) }
pub open spec fn round_f() -> spec_fn(f32) -> u8 { |x: f32| f2u8(fround(x)) }
pub open spec fn mat_f(m: Seq<f32>) -> spec_fn(Seq<f32>) -> Seq<f32> { |p: Seq<f32>| mat_vec(m, p) }
pub open spec fn to_xyz_m() -> Seq<f32> { seq![0.4124564f32, 0.3575761f32, 0.1804375f32, 0.2126729f32, 0.7151522f32, 0.0721750f32, 0.0193339f32, 0.1191920f32, 0.9503041f32] }
pub open spec fn to_srgb_m() -> Seq<f32> {
    seq![3.2404542f32, fneg(1.5371385f32), fneg(0.4985314f32), fneg(0.9692660f32), 1.8760108f32, 0.0415560f32, 0.0556434f32, fneg(0.2040259f32), 1.0572252f32]
}
pub open spec fn lab_of(n: (f32, f32, f32)) -> spec_fn(Seq<f32>) -> Seq<f32> {
    |p: Seq<f32>| {
        let x = lab_f(fdiv(fmul(p[0], 100.0f32), n.0));
        let y = lab_f(fdiv(fmul(p[1], 100.0f32), n.1));
        let z = lab_f(fdiv(fmul(p[2], 100.0f32), n.2));
        seq![fsub(fmul(116.0f32, y), 16.0f32), fmul(500.0f32, fsub(x, y)), fmul(200.0f32, fsub(y, z))]
    }
}
pub open spec fn xyz_of(n: (f32, f32, f32)) -> spec_fn(Seq<f32>) -> Seq<f32> {
    |p: Seq<f32>| {
        let l = fdiv(fadd(p[0], 16.0f32), 116.0f32);
        seq![fdiv(fmul(n.0, lab_finv(fadd(l, fdiv(p[1], 500.0f32)))), 100.0f32), fdiv(fmul(n.1, lab_finv(l)), 100.0f32), fdiv(fmul(n.2, lab_finv(fsub(l, fdiv(p[2], 200.0f32)))), 100.0f32)]
    }
}
/// The conversions of one pixel, stage after stage.
pub open spec fn xyz_px(alpha: bool, p: Seq<u8>) -> Seq<f32> { pix_map(alpha, mat_f(to_xyz_m()), idf(), chan_map(alpha, lin_f(), u8_f(), p)) }
pub open spec fn srgb_px(alpha: bool, p: Seq<f32>) -> Seq<u8> { chan_map(alpha, unlin_f(), round_f(), pix_map(alpha, mat_f(to_srgb_m()), idf(), p)) }
pub open spec fn lab_px(alpha: bool, w: crate::enums::White, p: Seq<u8>) -> Seq<f32> { pix_map(alpha, lab_of(crate::util::white_vals(w)), idf(), xyz_px(alpha, p)) }
pub open spec fn lab_srgb_px(alpha: bool, w: crate::enums::White, p: Seq<f32>) -> Seq<u8> { srgb_px(alpha, pix_map(alpha, xyz_of(crate::util::white_vals(w)), idf(), p)) }
/// Integer quotient rounded towards zero.
pub open spec fn tdiv(a: int, b: int) -> int { if a >= 0 { a / b } else { -((-a) / b) } }
pub open spec fn hsv_of() -> spec_fn(Seq<u8>) -> Seq<u8> { |p: Seq<u8>| hsv(p[0] as int, p[1] as int, p[2] as int) }
pub open spec fn max3(r: int, g: int, b: int) -> int { imax(imax(r, g), b) }
pub open spec fn min3(r: int, g: int, b: int) -> int { imin(imin(r, g), b) }
pub open spec fn hue_of(r: int, g: int, b: int) -> int {
    let max = max3(r, g, b);
    let d = max - min3(r, g, b);
    let h = if d == 0 { 0 } else if max == r { tdiv(43 * (g - b), d) } else if max == g { 85 + tdiv(43 * (b - r), d) } else { 170 + tdiv(43 * (r - g), d) };
    if h < 0 { h + 255 } else if h > 255 { h - 255 } else { h }
}
pub open spec fn sat_of(r: int, g: int, b: int) -> int { let max = max3(r, g, b); if max == 0 { 0 } else { 255 * (max - min3(r, g, b)) / max } }
pub open spec fn hsv(r: int, g: int, b: int) -> Seq<u8> { seq![hue_of(r, g, b) as u8, sat_of(r, g, b) as u8, max3(r, g, b) as u8] }
/// No component wraps around.
pub proof fn lemma_hsv_total(r: int, g: int, b: int)
    requires 0 <= r <= 255, 0 <= g <= 255, 0 <= b <= 255,
    ensures 0 <= hue_of(r, g, b) <= 255, 0 <= sat_of(r, g, b) <= 255, 0 <= max3(r, g, b) <= 255,
{
    let max = max3(r, g, b);
    let d = max - min3(r, g, b);
    if max > 0 { assert(0 <= 255 * d / max <= 255) by (nonlinear_arith) requires 0 <= d <= max, max > 0; }
    if d > 0 {
        assert forall|x: int| -d <= x <= d implies -43 <= #[trigger] tdiv(43 * x, d) <= 43 by {
            if x >= 0 { assert(0 <= 43 * x / d <= 43) by (nonlinear_arith) requires 0 <= x <= d, d > 0; }
            else { assert(0 <= (43 * (-x)) / d <= 43) by (nonlinear_arith) requires 0 <= -x <= d, d > 0; assert(-(43 * x) == 43 * (-x)); }
        }
    }
}
pub open spec fn rgb_of() -> spec_fn(Seq<u8>) -> Seq<u8> { |p: Seq<u8>| rgb(p[0] as int, p[1] as int, p[2] as int) }
/// `v` scaled by `1 - x / 255`.
pub open spec fn less(v: int, x: int) -> int { (v * (255 - x)) / 255 }
pub open spec fn rgb(h: int, s: int, v: int) -> Seq<u8> {
    let k = h / 43;
    let f = (h - k * 43) * 6;
    let p = less(v, s) as u8;
    let q = less(v, (s * f) / 255) as u8;
    let t = less(v, (s * (255 - f)) / 255) as u8;
    let w = v as u8;
    if s == 0 { seq![w, w, w] }
    else if k == 0 { seq![w, t, p] } else if k == 1 { seq![q, w, p] } else if k == 2 { seq![p, w, t] } else if k == 3 { seq![p, q, w] } else if k == 4 { seq![t, p, w] } else { seq![w, p, q] }
}
pub proof fn lemma_mul255()
    ensures
        forall|a: int, b: int| 0 <= a <= 255 && 0 <= b <= 255 ==> 0 <= #[trigger] (a * b) <= 65025,
        forall|a: int, b: int| 0 <= a <= 255 && 0 <= b <= 255 ==> 0 <= (#[trigger] (a * b)) / 255 <= a,
{
    assert forall|a: int, b: int| 0 <= a <= 255 && 0 <= b <= 255 implies 0 <= #[trigger] (a * b) <= 65025 by { assert(0 <= a * b <= 65025) by (nonlinear_arith) requires 0 <= a <= 255, 0 <= b <= 255; }
    assert forall|a: int, b: int| 0 <= a <= 255 && 0 <= b <= 255 implies 0 <= (#[trigger] (a * b)) / 255 <= a by { assert(0 <= a * b <= 255 * a) by (nonlinear_arith) requires 0 <= a <= 255, 0 <= b <= 255; }
}
/// The largest component is the value; no saturation is gray.
pub proof fn lemma_rgb_value(h: int, s: int, v: int)
    requires 0 <= h <= 255, 0 <= s <= 255, 0 <= v <= 255,
    ensures ({
        let c = rgb(h, s, v);
        &&& c.len() == 3 && max3(c[0] as int, c[1] as int, c[2] as int) == v
        &&& s == 0 ==> c[0] == v && c[1] == v && c[2] == v
        &&& 0 <= less(v, s) <= v
    }),
{
    lemma_mul255();
    let f = (h - h / 43 * 43) * 6;
    assert(0 <= (s * f) / 255 <= 255 && 0 <= (s * (255 - f)) / 255 <= 255) by { assert(0 <= s * f && 0 <= s * (255 - f)); }
    assert(0 <= less(v, s) <= v);
    assert(0 <= less(v, (s * f) / 255) <= v);
    assert(0 <= less(v, (s * (255 - f)) / 255) <= v);
}
pub open spec fn u255(x: u8) -> f32 { fdiv(i2f(x as int), 255.0f32) }
pub open spec fn from255() -> spec_fn(u8) -> f32 { |x: u8| u255(x) }
pub open spec fn to255() -> spec_fn(f32) -> u8 { |x: f32| f2u8(fround(fmul(x, 255.0f32))) }
pub open spec fn hsvf_of() -> spec_fn(Seq<u8>) -> Seq<f32> {
    |p: Seq<u8>| {
        let max = max3(p[0] as int, p[1] as int, p[2] as int);
        let min = min3(p[0] as int, p[1] as int, p[2] as int);
        let d = fdiv(i2f(max - min), 255.0f32);
        let (r, g, b) = (u255(p[0]), u255(p[1]), u255(p[2]));
        let m = fdiv(i2f(max), 255.0f32);
        let s = if max == 0 { 0.0f32 } else { fdiv(d, m) };
        let h = if feq(d, 0.0f32) { 0.0f32 } else if max == p[0] { fdiv(fsub(g, b), d) } else if max == p[1] { fadd(fdiv(fsub(b, r), d), 2.0f32) } else { fadd(fdiv(fsub(r, g), d), 4.0f32) };
        let k = fdiv(h, 6.0f32);
        let k1 = if flt(k, 0.0f32) { fadd(k, 1.0f32) } else if fgt(k, 1.0f32) { fsub(k, 1.0f32) } else { k };
        seq![k1, s, m]
    }
}
pub open spec fn rgbf_of() -> spec_fn(Seq<f32>) -> Seq<u8> {
    |c: Seq<f32>| {
        let hue = fmul(c[0], 6.0f32);
        let f = fsub(hue, ffloor(hue));
        let w = f2u8(fmul(c[2], 255.0f32));
        let p = f2u8(fmul(fmul(c[2], fsub(1.0f32, c[1])), 255.0f32));
        let q = f2u8(fmul(fmul(c[2], fsub(1.0f32, fmul(c[1], f))), 255.0f32));
        let t = f2u8(fmul(fmul(c[2], fsub(1.0f32, fmul(c[1], fsub(1.0f32, f)))), 255.0f32));
        let k = f2u8(ffloor(hue));
        if feq(c[1], 0.0f32) { seq![w, w, w] }
        else if k == 0 { seq![w, t, p] } else if k == 1 { seq![q, w, p] } else if k == 2 { seq![p, w, t] } else if k == 3 { seq![p, q, w] } else if k == 4 { seq![t, p, w] } else { seq![w, p, q] }
    }
}
pub open spec fn isum(p: Seq<u8>, n: int) -> int
    decreases n,
{
    if n <= 0 { 0 } else { isum(p, n - 1) + p[n - 1] }
}
pub open spec fn mean(p: Seq<u8>) -> u8 { (isum(p, p.len() as int) / p.len() as int) as u8 }
pub open spec fn mean_of() -> spec_fn(Seq<u8>) -> Seq<u8> { |p: Seq<u8>| seq![mean(p)] }
pub open spec fn fsum(p: Seq<f32>, n: int) -> f32
    decreases n,
{
    if n <= 0 { 0.0f32 } else { fadd(fsum(p, n - 1), p[n - 1]) }
}
pub open spec fn meanf_of() -> spec_fn(Seq<f32>) -> Seq<f32> { |p: Seq<f32>| seq![fdiv(fsum(p, p.len() as int), i2f(p.len() as int))] }
