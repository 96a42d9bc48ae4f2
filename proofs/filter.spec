@@ mod filter
@ items
/// One pixel of a 1-D filter.
pub open spec fn f1_at(im: &Image<f32>, k: Seq<f32>, vert: bool, x: int, y: int) -> Seq<f32> {
    wpix(k, crate::image::nb1(im, x, y, k.len() as int, vert), im.info.channels as int)
}
/// One pixel of the vertical pass followed by the horizontal pass.
pub open spec fn sep_at(im: &Image<f32>, vk: Seq<f32>, hk: Seq<f32>, x: int, y: int) -> Seq<f32> {
    wpix(hk, Seq::new(hk.len(), |i: int| f1_at(im, vk, true, iclamp(x - hk.len() as int / 2 + i, 0, im.info.width - 1), y)), im.info.channels as int)
}
/// One pixel of a 2-D filter with an `n x n` kernel.
pub open spec fn f2_at(im: &Image<f32>, k: Seq<f32>, n: int, x: int, y: int) -> Seq<f32> {
    wpix(k, crate::image::nb2(im, x, y, n), im.info.channels as int)
}
/// Every coordinate plus the window size is an i32.
pub open spec fn win_ok(im: &Image<f32>, n: int) -> bool {
    im.wf() && im.info.width + n <= i32::MAX && im.info.height + n <= i32::MAX
}
/// `r` is `im` filtered by `f`.
pub open spec fn filtered(r: ImgProcResult<Image<f32>>, im: &Image<f32>, f: spec_fn(int, int) -> Seq<f32>) -> bool {
    r is Ok && r->Ok_0.info == im.info && r->Ok_0.wf() && forall|u: int, v: int| 0 <= u < im.info.width && 0 <= v < im.info.height ==> #[trigger] r->Ok_0.px(u, v) == f(u, v)
}
@@ fn filter::filter_1d
@ requires
input.wf(), kernel@.len() % 2 == 1 ==> win_ok(input, kernel@.len() as int)
@ ensures
kernel@.len() % 2 == 0 ==> crate::error::arg_err(r),
kernel@.len() % 2 == 1 ==> filtered(r, input, |u: int, v: int| f1_at(input, kernel@, is_vert, u, v))
@@ fn filter::filter_1d @seq
@ start
proof { lit_axioms(); }
@ loop 0
output.info == input.info, output.wf(),
forall|u: int, v: int| 0 <= u < width && 0 <= v < $i ==> #[trigger] output.px(u, v) == f1_at(input, kernel@, is_vert, u, v)
@ loop 1
output.info == input.info, output.wf(),
forall|u: int, v: int| 0 <= u < width && 0 <= v < y || 0 <= u < $i && v == y ==> #[trigger] output.px(u, v) == f1_at(input, kernel@, is_vert, u, v)
@@ fn filter::filter_1d @rayon
@ start
proof { lit_axioms(); }
@ closure 0
|$0: u32| -> (r: Vec<f32>)
    requires $0 < width * height, width == input.info.width, height == input.info.height, win_ok(input, kernel@.len() as int), kernel@.len() % 2 == 1,
    ensures r@ == f1_at(input, kernel@, is_vert, $0 as int % width as int, $0 as int / width as int), r@.len() == input.info.channels,
=== proof { lemma_nz(width as int, height as int); lemma_coords_in(width as int, height as int, $0 as int); }
@ before from_vec_of_vec 0
proof { lemma_coords_all(width as int, height as int); assert(forall|i: int| 0 <= i < data@.len() ==> (#[trigger] data@[i])@.len() == input.info.channels); }
@@ fn filter::separable_filter
@ requires
input.wf(), vert_kernel@.len() % 2 == 1 && horz_kernel@.len() % 2 == 1 && vert_kernel@.len() == horz_kernel@.len() ==> win_ok(input, vert_kernel@.len() as int)
@ ensures
vert_kernel@.len() % 2 == 0 || horz_kernel@.len() % 2 == 0 || vert_kernel@.len() != horz_kernel@.len() ==> crate::error::arg_err(r),
vert_kernel@.len() % 2 == 1 && horz_kernel@.len() % 2 == 1 && vert_kernel@.len() == horz_kernel@.len() ==> filtered(r, input, |u: int, v: int| sep_at(input, vert_kernel@, horz_kernel@, u, v))
@ start
proof {
    lit_axioms();
    let n = horz_kernel@.len() as int;
    assert forall|w: Image<f32>, u: int, v: int| w.wf() && w.info == input.info && 0 <= u < input.info.width && 0 <= v < input.info.height
        && (forall|i: int, j: int| 0 <= i < input.info.width && 0 <= j < input.info.height ==> #[trigger] w.px(i, j) == f1_at(input, vert_kernel@, true, i, j))
        implies #[trigger] f1_at(&w, horz_kernel@, false, u, v) == sep_at(input, vert_kernel@, horz_kernel@, u, v) by {
        assert(crate::image::nb1(&w, u, v, n, false) =~= Seq::new(n as nat, |i: int| f1_at(input, vert_kernel@, true, iclamp(u - n / 2 + i, 0, input.info.width - 1), v)));
    }
}
@@ fn filter::unseparable_filter
@ requires
input.wf(), kernel@.len() <= 0x100_0000, kernel@.len() % 2 == 1 && is_sq(kernel@.len() as int) ==> win_ok(input, isqrt(kernel@.len() as int))
@ ensures
kernel@.len() % 2 == 0 || !is_sq(kernel@.len() as int) ==> crate::error::arg_err(r),
kernel@.len() % 2 == 1 && is_sq(kernel@.len() as int) ==> filtered(r, input, |u: int, v: int| f2_at(input, kernel@, isqrt(kernel@.len() as int), u, v))
@@ fn filter::unseparable_filter @seq
@ start
proof { lit_axioms(); float_int_axioms(); float_sqrt_axioms(); if is_sq(kernel@.len() as int) { lemma_isqrt(kernel@.len() as int); } }
@ loop 0
output.info == input.info, output.wf(),
forall|u: int, v: int| 0 <= u < width && 0 <= v < $i ==> #[trigger] output.px(u, v) == f2_at(input, kernel@, size as int, u, v)
@ loop 1
output.info == input.info, output.wf(),
forall|u: int, v: int| 0 <= u < width && 0 <= v < y || 0 <= u < $i && v == y ==> #[trigger] output.px(u, v) == f2_at(input, kernel@, size as int, u, v)
@@ fn filter::unseparable_filter @rayon
@ start
proof { lit_axioms(); float_int_axioms(); float_sqrt_axioms(); if is_sq(kernel@.len() as int) { lemma_isqrt(kernel@.len() as int); } }
@ closure 0
|$0: u32| -> (r: Vec<f32>)
    requires $0 < width * height, width == input.info.width, height == input.info.height, win_ok(input, size as int), kernel@.len() % 2 == 1, size * size == kernel@.len(),
    ensures r@ == f2_at(input, kernel@, size as int, $0 as int % width as int, $0 as int / width as int), r@.len() == input.info.channels,
=== proof { lemma_nz(width as int, height as int); lemma_coords_in(width as int, height as int, $0 as int); }
@ before from_vec_of_vec 0
proof { lemma_coords_all(width as int, height as int); assert(forall|i: int| 0 <= i < data@.len() ==> (#[trigger] data@[i])@.len() == input.info.channels); }
@@ fn util::math::separate_kernel
@ requires
0 < kernel@.len() <= 0x100_0000, is_sq(kernel@.len() as int)
@ ensures
r is Some ==> r->Some_0.0@.len() == r->Some_0.1@.len() && sq(r->Some_0.0@.len() as int) == kernel@.len() && factors(kernel@, r->Some_0.0@, r->Some_0.1@),
r is None ==> inseparable(kernel@, isqrt(kernel@.len() as int))
@ start
proof { lit_axioms(); float_axioms(); float_int_axioms(); float_sqrt_axioms(); clone_axiom::<f32>(); lemma_sq_all(kernel@.len() as int); lemma_isqrt(kernel@.len() as int); }
@ after sqrt 0
proof { assert(size * size == kernel@.len()); assert(size > 0) by (nonlinear_arith) requires size * size > 0, size >= 0; }
@ loop 0
pivot < kernel@.len(), forall|q: int| 0 <= q < $i ==> !fgt(#[trigger] fabs(kernel@[q]), fabs(kernel@[pivot as int]))
@ loopstart 0
proof { assert forall|q: int| 0 <= q < kernel@.len() && fgt(fabs(kernel@[i as int]), fabs(kernel@[pivot as int])) && !fgt(#[trigger] fabs(kernel@[q]), fabs(kernel@[pivot as int])) implies !fgt(fabs(kernel@[q]), fabs(kernel@[i as int])) by { lemma_gt_trans(fabs(kernel@[q]), fabs(kernel@[i as int]), fabs(kernel@[pivot as int])); } lemma_not_gt(fabs(kernel@[i as int])); }
@ loopbefore 0
proof { lemma_not_gt(fabs(kernel@[0])); }
@ loopafter 0
proof { assert(top_at(kernel@, pivot as int)); }
@ loop 1
vertical_kernel@.len() == $i, horizontal_kernel@.len() == $i, size * size == kernel@.len(), size <= 4096, pivot < kernel@.len(),
forall|u: int| 0 <= u < $i ==> #[trigger] vertical_kernel@[u] == kernel@[u * size + pivot as int % size as int],
forall|u: int| 0 <= u < $i ==> #[trigger] horizontal_kernel@[u] == fdiv(kernel@[pivot as int / size as int * size + u], scalar)
@ loopstart 1
proof { lemma_row_entry(size as int, i as int, pivot as int); }
@ loop 2
forall|u: int, v: int| 0 <= u < $i && 0 <= v < size ==> #[trigger] near_at(kernel@, vertical_kernel@, horizontal_kernel@, pivot as int, u, v)
@ loop 3
forall|u: int, v: int| 0 <= u < i && 0 <= v < size || u == i && 0 <= v < $i ==> #[trigger] near_at(kernel@, vertical_kernel@, horizontal_kernel@, pivot as int, u, v)
@ loopstart 3
proof { assert(top_at(kernel@, pivot as int)); assert(horizontal_kernel@[j as int] == fdiv(kernel@[pivot as int / size as int * size + j], scalar)); assert(!near_at(kernel@, vertical_kernel@, horizontal_kernel@, pivot as int, i as int, j as int) == miss_at(kernel@, size as int, pivot as int, i as int, j as int)); lemma_row_entry(size as int, i as int, pivot as int); assert(0 <= i * size && i * size + j < size * size) by (nonlinear_arith) requires 0 <= i < size, 0 <= j < size; }
@ before Some 1
proof { assert(near_all(kernel@, vertical_kernel@, horizontal_kernel@, pivot as int)); assert(sq(size as int) == kernel@.len()); }
@@ fn filter::linear_filter
@ requires
input.wf(), kernel@.len() <= 0x100_0000, kernel@.len() % 2 == 1 && is_sq(kernel@.len() as int) ==> win_ok(input, isqrt(kernel@.len() as int))
@ ensures
kernel@.len() % 2 == 0 || !is_sq(kernel@.len() as int) ==> crate::error::arg_err(r),
kernel@.len() % 2 == 1 && is_sq(kernel@.len() as int) ==> r is Ok && is_linear(r, input, kernel@)
@ start
proof { lit_axioms(); float_int_axioms(); float_sqrt_axioms(); lemma_sq_all(kernel@.len() as int); }
@@ fn filter::box_filter
@ requires
input.wf(), size % 2 == 1 ==> win_ok(input, size as int)
@ ensures
size % 2 == 0 ==> crate::error::arg_err(r),
size % 2 == 1 ==> filtered(r, input, |u: int, v: int| sep_at(input, box_k(size as int), box_k(size as int), u, v))
@ start
proof { lit_axioms(); float_axioms(); }
@ before separable_filter 0
proof { clone_axiom::<f32>(); assert(kernel@ =~= box_k(size as int)); }
@@ fn filter::weighted_avg_filter
@ requires
input.wf(), size % 2 == 1 ==> win_ok(input, size as int) && size <= 4096 && weight <= 0xf000_0000
@ ensures
size % 2 == 0 ==> crate::error::arg_err(r),
size % 2 == 1 ==> filtered(r, input, |u: int, v: int| f2_at(input, wavg_k(size as int, weight as int), size as int, u, v))
@ start
proof { lit_axioms(); float_axioms(); if size % 2 == 1 { lemma_size(size as int); lemma_odd_sq(size as int); } }
@ before unseparable_filter 0
proof { clone_axiom::<f32>(); assert(kernel@ =~= wavg_k(size as int, weight as int)); lemma_isqrt_of(size as int); }
@@ fn filter::gaussian_blur
@ requires
input.wf(), size % 2 == 1 ==> win_ok(input, size as int) && size <= 4096
@ ensures
size % 2 == 0 ==> crate::error::arg_err(r),
size % 2 == 1 ==> r is Ok && is_linear(r, input, gauss_k(size as int, sigma))
@ start
proof { if size % 2 == 1 { lemma_size(size as int); lemma_odd_sq(size as int); lemma_isqrt_of(size as int); } }
@@ fn filter::sharpen
@ requires
win_ok(input, 3)
@ ensures
filtered(r, input, |u: int, v: int| f2_at(input, sharpen_k(), 3, u, v))
@ start
proof { lemma_isqrt_of(3); }
@@ fn filter::unsharp_masking
@ requires
win_ok(input, 5)
@ ensures
filtered(r, input, |u: int, v: int| f2_at(input, unsharp_k(), 5, u, v))
@ start
proof { lemma_isqrt_of(5); }
@@ fn filter::threshold
@ requires
input.wf()
@ ensures
input.info.channels != (if input.info.alpha { 2int } else { 1int }) ==> crate::error::arg_err(r),
input.info.channels == (if input.info.alpha { 2int } else { 1int }) ==> r is Ok && r->Ok_0.info == input.info && r->Ok_0.wf() && forall|i: int| 0 <= i < input.n() ==>
    #[trigger] r->Ok_0.pxi(i) == chan_map(input.info.alpha, thr_f(method, threshold, max), idf(), input.pxi(i))
@ start
proof { float_axioms(); }
@ closure 0
|$0: f32| -> (r: f32)
    ensures r == thr(Thresh::Binary, threshold, max, $0),
===
proof { float_axioms(); }
===
proof { assert(computes($c, thr_f(method, threshold, max))); }
@ closure 1
|$0: f32| -> (r: f32)
    ensures r == $0,
===
===
proof { assert(computes($c, idf())); }
@ closure 2
|$0: f32| -> (r: f32)
    ensures r == thr(Thresh::BinaryInv, threshold, max, $0),
===
proof { float_axioms(); }
===
proof { assert(computes($c, thr_f(method, threshold, max))); }
@ closure 3
|$0: f32| -> (r: f32)
    ensures r == $0,
===
===
proof { assert(computes($c, idf())); }
@ closure 4
|$0: f32| -> (r: f32)
    ensures r == thr(Thresh::Trunc, threshold, max, $0),
===
proof { float_axioms(); }
===
proof { assert(computes($c, thr_f(method, threshold, max))); }
@ closure 5
|$0: f32| -> (r: f32)
    ensures r == $0,
===
===
proof { assert(computes($c, idf())); }
@ closure 6
|$0: f32| -> (r: f32)
    ensures r == thr(Thresh::ToZero, threshold, max, $0),
===
proof { float_axioms(); }
===
proof { assert(computes($c, thr_f(method, threshold, max))); }
@ closure 7
|$0: f32| -> (r: f32)
    ensures r == $0,
===
===
proof { assert(computes($c, idf())); }
@ closure 8
|$0: f32| -> (r: f32)
    ensures r == thr(Thresh::ToZeroInv, threshold, max, $0),
===
proof { float_axioms(); }
===
proof { assert(computes($c, thr_f(method, threshold, max))); }
@ closure 9
|$0: f32| -> (r: f32)
    ensures r == $0,
===
===
proof { assert(computes($c, idf())); }
@@ fn filter::residual
@ requires
original.wf(), filtered.wf(), original.info == filtered.info ==> forall|i: int| 0 <= i < original.data@.len() ==> nsub_ok::<T>(#[trigger] original.data@[i], filtered.data@[i])
@ ensures
original.info != filtered.info ==> crate::error::arg_err(r),
original.info == filtered.info ==> r is Ok && r->Ok_0.info == original.info && r->Ok_0.wf()
    && forall|i: int| 0 <= i < original.data@.len() ==> #[trigger] r->Ok_0.data@[i] == nsub(original.data@[i], filtered.data@[i])
@ start
proof { clone_axiom::<T>(); }
@ loopbefore 0
proof { assert((0 * width) * channels == 0) by (nonlinear_arith); assert(height * width == width * height) by (nonlinear_arith); }
@ loop 0
data@.len() == ($i * width) * channels,
forall|i: int| 0 <= i < data@.len() ==> #[trigger] data@[i] == nsub(original.data@[i], filtered.data@[i])
@ loopstart 0
proof { assert((y + 1) * width == y * width + width) by (nonlinear_arith); }
@ loop 1
data@.len() == (y * width + $i) * channels,
forall|i: int| 0 <= i < data@.len() ==> #[trigger] data@[i] == nsub(original.data@[i], filtered.data@[i])
@ loopstart 1
proof {
    let n = original.info.width * original.info.height;
    lemma_idx(width as int, height as int, x as int, y as int); lemma_chan(n, channels as int, y * width + x);
    lemma_chunk_at(original.data@, channels as int, n); lemma_chunk_at(filtered.data@, channels as int, n);
}
@ loop 2
data@.len() == (y * width + x) * channels + $i,
forall|i: int| 0 <= i < data@.len() ==> #[trigger] data@[i] == nsub(original.data@[i], filtered.data@[i])
@ loopstart 2
proof { let i = (y * width + x) * channels + c; assert(p_1@[c as int] == original.data@[i] && p_2@[c as int] == filtered.data@[i]); }
@@ mod filter
@ items
/// The filtered image is the 2-D correlation, or the one with the two factors of the kernel.
pub open spec fn is_linear(r: ImgProcResult<Image<f32>>, im: &Image<f32>, k: Seq<f32>) -> bool {
    ||| filtered(r, im, |u: int, v: int| f2_at(im, k, isqrt(k.len() as int), u, v))
    ||| exists|vk: Seq<f32>, hk: Seq<f32>| vk.len() == hk.len() && sq(vk.len() as int) == k.len() && #[trigger] factors(k, vk, hk) && filtered(r, im, |u: int, v: int| sep_at(im, vk, hk, u, v))
}
pub open spec fn box_k(n: int) -> Seq<f32> { Seq::new(n as nat, |i: int| fdiv(1.0f32, i2f(n))) }
pub open spec fn wavg_k(n: int, w: int) -> Seq<f32> {
    Seq::new((n * n) as nat, |i: int| if i == n / 2 * n + n / 2 { fdiv(i2f(w), i2f(n * n - 1 + w)) } else { fdiv(1.0f32, i2f(n * n - 1 + w)) })
}
pub open spec fn thr(m: Thresh, t: f32, max: f32, c: f32) -> f32 {
    match m {
        Thresh::Binary => if fgt(c, t) { max } else { 0.0f32 },
        Thresh::BinaryInv => if fgt(c, t) { 0.0f32 } else { max },
        Thresh::Trunc => if fgt(c, t) { t } else { c },
        Thresh::ToZero => if fgt(c, t) { c } else { 0.0f32 },
        Thresh::ToZeroInv => if fgt(c, t) { 0.0f32 } else { c },
    }
}
pub open spec fn thr_f(m: Thresh, t: f32, max: f32) -> spec_fn(f32) -> f32 { |c: f32| thr(m, t, max, c) }
pub open spec fn sharpen_k() -> Seq<f32> {
    let m = fneg(1.0f32);
    seq![0.0f32, m, 0.0f32, m, 5.0f32, m, 0.0f32, m, 0.0f32]
}
pub open spec fn unsharp_k() -> Seq<f32> {
    let a = fdiv(fneg(1.0f32), 256.0f32);
    let b = fdiv(fneg(4.0f32), 256.0f32);
    let c = fdiv(fneg(6.0f32), 256.0f32);
    let d = fdiv(fneg(16.0f32), 256.0f32);
    let e = fdiv(fneg(24.0f32), 256.0f32);
    seq![a, b, c, b, a, b, d, e, d, b, c, e, fdiv(476.0f32, 256.0f32), e, c, b, d, e, d, b, a, b, c, b, a]
}
