@@ mod filter::edge
@ items
pub open spec fn gray(info: crate::image::ImageInfo) -> bool { info.channels == (if info.alpha { 2int } else { 1int }) }
/// The kernels of a separable filter.
pub open spec fn sep_ok(v: Seq<f32>, h: Seq<f32>) -> bool { v.len() % 2 == 1 && h.len() % 2 == 1 && v.len() == h.len() }
/// Gradient magnitude: the two responses have the kernels swapped.
pub open spec fn grad(im: &Image<f32>, v: Seq<f32>, h: Seq<f32>, x: int, y: int) -> f32 {
    let a = crate::filter::sep_at(im, v, h, x, y)[0];
    let b = crate::filter::sep_at(im, h, v, x, y)[0];
    fsqrt(fadd(fpow(a, 2.0f32), fpow(b, 2.0f32)))
}
/// `r` is the gradient magnitude of `im`, alpha carried over.
pub open spec fn gradient_of(r: ImgProcResult<Image<f32>>, im: &Image<f32>, v: Seq<f32>, h: Seq<f32>) -> bool {
    &&& r is Ok && r->Ok_0.info == im.info && r->Ok_0.wf()
    &&& forall|x: int, y: int| 0 <= x < im.info.width && 0 <= y < im.info.height ==> #[trigger] r->Ok_0.px(x, y) == im.px(x, y).update(0, grad(im, v, h, x, y))
}
pub open spec fn smooth_k(w: f32) -> Seq<f32> { seq![1.0f32, w, 1.0f32] }
pub open spec fn diff_k() -> Seq<f32> { seq![fneg(1.0f32), 0.0f32, 1.0f32] }
pub open spec fn laplacian_k() -> Seq<f32> {
    let m = fneg(1.0f32);
    seq![0.0f32, m, 0.0f32, m, 4.0f32, m, 0.0f32, m, 0.0f32]
}
/// Smallest and largest value of the image.
pub open spec fn least(d: Seq<f32>, m: f32) -> bool { (exists|i: int| 0 <= i < d.len() && #[trigger] d[i] == m) && forall|i: int| 0 <= i < d.len() ==> fle(m, #[trigger] d[i]) }
pub open spec fn greatest(d: Seq<f32>, m: f32) -> bool { (exists|i: int| 0 <= i < d.len() && #[trigger] d[i] == m) && forall|i: int| 0 <= i < d.len() ==> fle(#[trigger] d[i], m) }
pub open spec fn norm(c: f32, lo: f32, hi: f32) -> u8 { f2u8(fround(crate::convert::affine(c, lo, 0.0f32, hi, 255.0f32))) }
pub open spec fn normalized(r: &Image<u8>, im: &Image<f32>, lo: f32, hi: f32) -> bool {
    forall|i: int| 0 <= i < im.data@.len() ==> #[trigger] r.data@[i] == norm(im.data@[i], lo, hi)
}
@@ fn filter::edge::derivative_mask
@ requires
input.wf(), gray(input.info) && sep_ok(vert_kernel@, horz_kernel@) ==> crate::filter::win_ok(input, vert_kernel@.len() as int)
@ ensures
!gray(input.info) || !sep_ok(vert_kernel@, horz_kernel@) ==> crate::error::arg_err(r),
gray(input.info) && sep_ok(vert_kernel@, horz_kernel@) ==> gradient_of(r, input, vert_kernel@, horz_kernel@)
@ start
proof { float_axioms(); lemma_coords_all(input.info.width as int, input.info.height as int); lemma_chunk_len(input.data@, input.info.channels as int, input.n()); }
@ loop 0
output.info == input.info, output.wf(),
forall|k: int| 0 <= k < $i ==> #[trigger] output.pxi(k) == input.pxi(k).update(0, grad(input, vert_kernel@, horz_kernel@, k % input.info.width as int, k / input.info.width as int)),
forall|k: int| $i <= k < input.n() ==> #[trigger] output.pxi(k) == input.pxi(k)
@ loopstart 0
proof {
    let w = input.info.width as int;
    lemma_coords_in(w, input.info.height as int, i as int);
    assert(img_x.px(i as int % w, i as int / w) == img_x.pxi(i as int));
    assert(img_y.px(i as int % w, i as int / w) == img_y.pxi(i as int));
    assert(input.px(i as int % w, i as int / w) == input.pxi(i as int));
    assert(output.pxi(i as int) == input.pxi(i as int));
}
@ end
proof {
    assert forall|x: int, y: int| 0 <= x < input.info.width && 0 <= y < input.info.height implies #[trigger] output.px(x, y) == input.px(x, y).update(0, grad(input, vert_kernel@, horz_kernel@, x, y)) by {
        lemma_coords_unique(input.info.width as int, x, y);
    }
}
@@ fn filter::edge::prewitt
@ requires
crate::filter::win_ok(input, 3)
@ ensures
!gray(input.info) ==> crate::error::arg_err(r),
gray(input.info) ==> gradient_of(r, input, smooth_k(1.0f32), diff_k())
@@ fn filter::edge::sobel
@ requires
crate::filter::win_ok(input, 3)
@ ensures
!gray(input.info) ==> crate::error::arg_err(r),
gray(input.info) ==> gradient_of(r, input, smooth_k(2.0f32), diff_k())
@@ fn filter::edge::sobel_weighted
@ requires
input.wf(), gray(input.info) ==> crate::filter::win_ok(input, 3)
@ ensures
!gray(input.info) ==> crate::error::arg_err(r),
gray(input.info) ==> gradient_of(r, input, smooth_k(i2f(weight as int)), diff_k())
@@ fn filter::edge::laplacian
@ requires
crate::filter::win_ok(input, 3)
@ ensures
crate::filter::filtered(r, input, |u: int, v: int| crate::filter::f2_at(input, laplacian_k(), 3, u, v))
@ start
proof { lemma_isqrt_of(3); }
@@ fn filter::edge::laplacian_of_gaussian
@ requires
input.wf(), size % 2 == 1 ==> crate::filter::win_ok(input, size as int) && size <= 4096
@ ensures
size % 2 == 0 ==> crate::error::arg_err(r),
size % 2 == 1 ==> crate::filter::filtered(r, input, |u: int, v: int| crate::filter::f2_at(input, log_k(size as int, sigma), size as int, u, v))
@ start
proof { if size % 2 == 1 { lemma_size(size as int); lemma_odd_sq(size as int); lemma_isqrt_of(size as int); } }
@@ fn filter::edge::normalize_laplacian
@ requires
input.wf(), gray(input.info) ==> forall|i: int| 0 <= i < input.data@.len() ==> !nan(#[trigger] input.data@[i])
@ ensures
!gray(input.info) ==> crate::error::arg_err(r),
gray(input.info) ==> r is Ok && r->Ok_0.info == input.info && r->Ok_0.wf(),
gray(input.info) && input.n() > 0 ==> exists|lo: f32, hi: f32| #[trigger] least(input.data@, lo) && #[trigger] greatest(input.data@, hi) && normalized(&r->Ok_0, input, lo, hi)
@ start
proof { lemma_order(); assert(input.n() > 0 && input.info.channels >= 1 ==> input.n() * input.info.channels > 0) by (nonlinear_arith); }
@ end
proof { assert(least(input.data@, min) && greatest(input.data@, max)); }
