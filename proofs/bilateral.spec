@@ mod filter::bilateral
@ items
/// The window side for a spatial spread.
pub open spec fn bil_size(spatial: f32) -> int {
    let s = f2u32(fadd(fmul(spatial, 4.0f32), 1.0f32)) as int;
    if s % 2 == 0 { s + 1 } else { s }
}
/// Weight of a window value `q` at a place with spatial weight `k`, for the centre value `p`.
pub open spec fn bil_w(k: f32, p: f32, q: f32, range: f32) -> f32 { fmul(k, gauss(fabs(fsub(p, q)), range)) }
/// Sum of the first `n` weights.
pub open spec fn bil_den(k: Seq<f32>, v: Seq<Seq<f32>>, c: int, p: f32, range: f32, n: int) -> f32
    decreases n
{
    if n <= 0 { 0.0f32 } else { fadd(bil_den(k, v, c, p, range, n - 1), bil_w(k[n - 1], p, v[n - 1][c], range)) }
}
/// Sum of the first `n` weighted values.
pub open spec fn bil_num(k: Seq<f32>, v: Seq<Seq<f32>>, c: int, p: f32, range: f32, n: int) -> f32
    decreases n
{
    if n <= 0 { 0.0f32 } else { fadd(bil_num(k, v, c, p, range, n - 1), fmul(bil_w(k[n - 1], p, v[n - 1][c], range), v[n - 1][c])) }
}
/// The weighted mean of channel `c` over the window.
pub open spec fn bil_v(k: Seq<f32>, v: Seq<Seq<f32>>, c: int, p: f32, range: f32, n: int) -> f32 {
    fdiv(bil_num(k, v, c, p, range, n), bil_den(k, v, c, p, range, n))
}
pub proof fn lemma_sq32(n: int)
    ensures 0 <= n <= 65535 ==> 0 <= n * n <= u32::MAX,
{ if 0 <= n <= 65535 { assert(0 <= n * n <= 65535 * 65535) by (nonlinear_arith) requires 0 <= n <= 65535; } }
/// One L*a*b* pixel of the filter.
pub open spec fn bil_at(im: &Image<f32>, k: Seq<f32>, n: int, range: f32, x: int, y: int) -> Seq<f32> {
    Seq::new(im.info.channels as nat, |c: int| bil_v(k, crate::image::nb2(im, x, y, n), c, im.px(x, y)[c], range, n * n))
}
/// The filter of the L*a*b* image `lab` of `input`, back in sRGB.
pub open spec fn bil_of(r: Image<u8>, input: &Image<u8>, lab: &Image<f32>, range: f32, spatial: f32) -> bool {
    let n = bil_size(spatial);
    let w = input.info.width as int;
    r.info == input.info && r.wf()
    && (forall|i: int| 0 <= i < input.n() ==> #[trigger] r.pxi(i) == crate::colorspace::lab_srgb_px(input.info.alpha, White::D65, bil_at(lab, spatial_k(n, spatial), n, range, i % w, i / w)))
}
@@ fn filter::bilateral::bilateral_filter
@ requires
input.wf(), !(flt(range, 0.0f32) || flt(spatial, 0.0f32)) ==> input.info.cn() == 3 && bil_size(spatial) <= 65535
    && input.info.width + bil_size(spatial) <= i32::MAX && input.info.height + bil_size(spatial) <= i32::MAX
@ ensures
flt(range, 0.0f32) || flt(spatial, 0.0f32) ==> crate::error::arg_err(r),
!(flt(range, 0.0f32) || flt(spatial, 0.0f32)) ==> r is Ok && exists|lab: Image<f32>| #[trigger] crate::colorspace::is_lab(&lab, input, White::D65) && bil_of(r->Ok_0, input, &lab, range, spatial)
@@ fn filter::bilateral::bilateral_filter @seq
@ start
proof { float_axioms(); lit_axioms(); lemma_sq32(bil_size(spatial)); }
@ loop 0
output.info == input.info, output.wf(),
forall|u: int, v: int| 0 <= u < width && 0 <= v < $i ==> #[trigger] output.px(u, v) == bil_at(&lab, spatial_mat@, size as int, range, u, v)
@ loop 1
output.info == input.info, output.wf(),
forall|u: int, v: int| 0 <= u < width && 0 <= v < y || 0 <= u < $i && v == y ==> #[trigger] output.px(u, v) == bil_at(&lab, spatial_mat@, size as int, range, u, v)
@ before lab_to_srgb_f32 0
proof {
    assert(crate::colorspace::is_lab(&lab, input, White::D65));
    lemma_coords_all(width as int, height as int);
    assert forall|i: int| 0 <= i < input.n() implies #[trigger] output.pxi(i) == bil_at(&lab, spatial_mat@, size as int, range, i % width as int, i / width as int) by {
        assert(input.n() > 0); lemma_nz(width as int, height as int); lemma_coords_in(width as int, height as int, i);
        assert(output.px(i % width as int, i / width as int) == output.pxi(i));
    }
}
@@ fn filter::bilateral::bilateral_filter @rayon
@ start
proof { float_axioms(); lit_axioms(); lemma_sq32(bil_size(spatial)); }
@ closure 0
|$0: u32| -> (r: Vec<f32>)
    requires $0 < width * height, width == input.info.width, height == input.info.height, lab.info == input.info, lab.wf(), size == bil_size(spatial), size <= 65535, size * size <= u32::MAX,
        lab.info.width + size <= i32::MAX, lab.info.height + size <= i32::MAX, spatial_mat@.len() == size * size, !flt(range, 0.0f32),
    ensures r@ == bil_at(&lab, spatial_mat@, size as int, range, $0 as int % width as int, $0 as int / width as int), r@.len() == lab.info.channels,
=== proof { lemma_nz(width as int, height as int); lemma_coords_in(width as int, height as int, $0 as int); }
@ before from_vec_of_vec 0
proof { lemma_coords_all(width as int, height as int); assert(forall|i: int| 0 <= i < data@.len() ==> (#[trigger] data@[i])@.len() == input.info.channels); }
@ before lab_to_srgb_f32 0
proof {
    assert(crate::colorspace::is_lab(&lab, input, White::D65));
    lemma_coords_all(width as int, height as int);
    assert forall|i: int| 0 <= i < input.n() implies #[trigger] output.pxi(i) == bil_at(&lab, spatial_mat@, size as int, range, i % width as int, i / width as int) by {
        assert(data@[i]@ == bil_at(&lab, spatial_mat@, size as int, range, i % width as int, i / width as int));
    }
}
@@ fn filter::bilateral::bilateral_direct_pixel @seq
@ requires
input.wf(), x < input.info.width, y < input.info.height, x + size <= i32::MAX, y + size <= i32::MAX, input.info.width <= i32::MAX, input.info.height <= i32::MAX,
size * size <= u32::MAX, spatial_mat@.len() == size * size, !flt(range, 0.0f32)
@ ensures
final(output)@ =~= bil_at(input, spatial_mat@, size as int, range, x as int, y as int)
@ start
proof { float_axioms(); }
@ loop 0
output@.len() == $i,
forall|k: int| 0 <= k < $i ==> output@[k] == bil_at(input, spatial_mat@, size as int, range, x as int, y as int)[k]
@ loopstart 0
proof { assert(p_in@ == input.px(x as int, y as int)); }
@ loop 1
p_curr == bil_num(spatial_mat@, crate::image::nb2(input, x as int, y as int, size as int), c__0 - 1, input.px(x as int, y as int)[c__0 - 1], range, $i as int),
total_weight == bil_den(spatial_mat@, crate::image::nb2(input, x as int, y as int, size as int), c__0 - 1, input.px(x as int, y as int)[c__0 - 1], range, $i as int)
@ loopstart 1
proof { assert(slices_view(p_n.data@)[i as int] == p_n.pxi(i as int)); }
@@ fn filter::bilateral::bilateral_direct_pixel @rayon
@ requires
input.wf(), x < input.info.width, y < input.info.height, x + size <= i32::MAX, y + size <= i32::MAX, input.info.width <= i32::MAX, input.info.height <= i32::MAX,
size * size <= u32::MAX, spatial_mat@.len() == size * size, !flt(range, 0.0f32)
@ ensures
r@ =~= bil_at(input, spatial_mat@, size as int, range, x as int, y as int)
@ start
proof { float_axioms(); }
@ loop 0
p_out@.len() == $i,
forall|k: int| 0 <= k < $i ==> p_out@[k] == bil_at(input, spatial_mat@, size as int, range, x as int, y as int)[k]
@ loopstart 0
proof { assert(p_in@ == input.px(x as int, y as int)); }
@ loop 1
p_curr == bil_num(spatial_mat@, crate::image::nb2(input, x as int, y as int, size as int), c__0 - 1, input.px(x as int, y as int)[c__0 - 1], range, $i as int),
total_weight == bil_den(spatial_mat@, crate::image::nb2(input, x as int, y as int, size as int), c__0 - 1, input.px(x as int, y as int)[c__0 - 1], range, $i as int)
@ loopstart 1
proof { assert(slices_view(p_n.data@)[i as int] == p_n.pxi(i as int)); }
