@@ mod transform
@ items
/// Per-channel blend of two pixels.
pub open spec fn blend(a: f32, p: Seq<f32>, q: Seq<f32>) -> Seq<f32> {
    Seq::new(p.len(), |k: int| fadd(fmul(a, p[k]), fmul(fsub(1.0f32, a), q[k])))
}
pub open spec fn inside(u: int, v: int, x: int, y: int, w: int, h: int) -> bool { x <= u < x + w && y <= v < y + h }
@@ fn util::get_2d_coords
@ requires
width > 0
@ ensures
r.0 == i % width, r.1 == i / width
@ start
proof { lemma_coords(width as int, i as int); lemma_div_exact(width as int, i as int / width as int); assert((i as int / width as int) * width == width * (i as int / width as int)) by (nonlinear_arith); }
@@ fn transform::crop
@ requires
input.wf(),
@ ensures
(x + width > input.info.width || y + height > input.info.height) ==> crate::error::arg_err(r),
x + width <= input.info.width && y + height <= input.info.height ==> r is Ok,
r is Ok ==> r->Ok_0.info.width == width && r->Ok_0.info.height == height && r->Ok_0.info.channels == input.info.channels && r->Ok_0.info.alpha == input.info.alpha
  && r->Ok_0.wf() && forall|i: int, j: int| 0 <= i < width && 0 <= j < height ==> #[trigger] r->Ok_0.px(i, j) == input.px(x + i, y + j)
@@ fn transform::crop @seq
@ before blank 0
proof { lemma_sub_ok(width as int, height as int, input.info.width as int, input.info.height as int, input.info.channels as int); }
@ loop 0
output.info.width == width, output.info.height == height, output.info.channels == input.info.channels, output.info.alpha == input.info.alpha, output.wf(),
forall|u: int, v: int| 0 <= u < width && 0 <= v < $i ==> #[trigger] output.px(u, v) == input.px(x + u, y + v)
@ loop 1
output.info.width == width, output.info.height == height, output.info.channels == input.info.channels, output.info.alpha == input.info.alpha, output.wf(),
forall|u: int, v: int| 0 <= u < width && 0 <= v < j || 0 <= u < $i && v == j ==> #[trigger] output.px(u, v) == input.px(x + u, y + v)
@@ fn transform::crop @rayon
@ start
proof { if x + width <= input.info.width && y + height <= input.info.height { lemma_sub_ok(width as int, height as int, input.info.width as int, input.info.height as int, input.info.channels as int); } }
@ closure 0
|$0: u32| -> (r: &[T])
    requires $0 < width * height, x + width <= input.info.width, y + height <= input.info.height,
    ensures r@ == input.px(x + $0 % width, y + $0 / width), r@.len() == input.info.channels,
=== proof { lemma_nz(width as int, height as int); lemma_coords_in(width as int, height as int, $0 as int); }
@ before from_vec_of_slice 0
proof { lemma_coords_all(width as int, height as int); assert(forall|i: int| 0 <= i < data@.len() ==> (#[trigger] data@[i])@.len() == input.info.channels); }
@@ fn transform::overlay
@ requires
back.wf(), front.wf()
@ ensures
back.info.channels != front.info.channels ==> crate::error::arg_err(r),
back.info.channels == front.info.channels ==> r is Ok,
r is Ok ==> r->Ok_0.info == back.info && r->Ok_0.wf() && forall|u: int, v: int| 0 <= u < back.info.width && 0 <= v < back.info.height ==>
   #[trigger] r->Ok_0.px(u, v) == (if inside(u, v, x as int, y as int, front.info.width as int, front.info.height as int) { front.px(u - x, v - y) } else { back.px(u, v) })
@ loop 0
output.info == back.info, output.wf(),
forall|u: int, v: int| 0 <= u < back.info.width && 0 <= v < back.info.height ==>
   #[trigger] output.px(u, v) == (if inside(u, v, x as int, y as int, front.info.width as int, $i - $lo) { front.px(u - x, v - y) } else { back.px(u, v) })
@ loop 1
output.info == back.info, output.wf(),
forall|u: int, v: int| 0 <= u < back.info.width && 0 <= v < back.info.height ==>
   #[trigger] output.px(u, v) == (if inside(u, v, x as int, y as int, front.info.width as int, c__0 - 1 - s__0) || (v == y + (c__0 - 1 - s__0) && x <= u < x + ($i - $lo)) { front.px(u - x, v - y) } else { back.px(u, v) })
@@ fn transform::superimpose
@ requires
back.wf(), front.wf()
@ ensures
back.info.channels != front.info.channels || flt(alpha, 0.0f32) || fgt(alpha, 1.0f32) ==> crate::error::arg_err(r),
back.info.channels == front.info.channels && !flt(alpha, 0.0f32) && !fgt(alpha, 1.0f32) ==> r is Ok,
r is Ok ==> r->Ok_0.info == back.info && r->Ok_0.wf() && forall|u: int, v: int| 0 <= u < back.info.width && 0 <= v < back.info.height ==>
   #[trigger] r->Ok_0.px(u, v) == (if inside(u, v, x as int, y as int, front.info.width as int, front.info.height as int) { blend(alpha, back.px(u, v), front.px(u - x, v - y)) } else { back.px(u, v) })
@ start
proof { float_axioms(); }
@ loop 0
output.info == back.info, output.wf(),
forall|u: int, v: int| 0 <= u < back.info.width && 0 <= v < back.info.height ==>
   #[trigger] output.px(u, v) == (if inside(u, v, x as int, y as int, front.info.width as int, $i - $lo) { blend(alpha, back.px(u, v), front.px(u - x, v - y)) } else { back.px(u, v) })
@ loop 1
output.info == back.info, output.wf(),
forall|u: int, v: int| 0 <= u < back.info.width && 0 <= v < back.info.height ==>
   #[trigger] output.px(u, v) == (if inside(u, v, x as int, y as int, front.info.width as int, c__0 - 1 - s__0) || (v == y + (c__0 - 1 - s__0) && x <= u < x + ($i - $lo)) { blend(alpha, back.px(u, v), front.px(u - x, v - y)) } else { back.px(u, v) })
@ loop 2
p_in@.len() == $i,
forall|c: int| 0 <= c < $i ==> #[trigger] p_in@[c] == blend(alpha, back.px(i as int, j as int), front.px(i - x, j - y))[c]
@ before set_pixel 0
proof { assert(p_in@ =~= blend(alpha, back.px(i as int, j as int), front.px(i - x, j - y))); }
@@ fn transform::translate
@ requires
input.wf()
@ ensures
r is Ok, r->Ok_0.info == input.info, r->Ok_0.wf(),
forall|u: int, v: int| 0 <= u < input.info.width && 0 <= v < input.info.height ==>
   #[trigger] r->Ok_0.px(u, v) == (if u >= x && v >= y { input.px(u - x, v - y) } else { zeros::<T>(input.info.channels as int) })
@ loop 0
output.info == input.info, output.wf(),
forall|u: int, v: int| 0 <= u < input.info.width && 0 <= v < input.info.height ==>
   #[trigger] output.px(u, v) == (if u >= x && $i > v >= y { input.px(u - x, v - y) } else { zeros::<T>(input.info.channels as int) })
@ loop 1
output.info == input.info, output.wf(),
forall|u: int, v: int| 0 <= u < input.info.width && 0 <= v < input.info.height ==>
   #[trigger] output.px(u, v) == (if u >= x && j > v >= y || v == j && x <= u < $i { input.px(u - x, v - y) } else { zeros::<T>(input.info.channels as int) })
@@ fn transform::reflect
@ requires
input.wf()
@ ensures
r is Ok, r->Ok_0.info == input.info, r->Ok_0.wf(),
forall|u: int, v: int| 0 <= u < input.info.width && 0 <= v < input.info.height ==>
   #[trigger] r->Ok_0.px(u, v) == (if axis is Vertical { input.px(input.info.width - 1 - u, v) } else { input.px(u, input.info.height - 1 - v) })
@ loop 0
output.info == input.info, output.wf(),
forall|u: int, v: int| 0 <= u < input.info.width && 0 <= v < $i ==> #[trigger] output.px(u, v) == input.px(u, input.info.height - 1 - v)
@ loop 1
output.info == input.info, output.wf(),
forall|u: int, v: int| 0 <= u < input.info.width && 0 <= v < y || 0 <= u < $i && v == y ==> #[trigger] output.px(u, v) == input.px(u, input.info.height - 1 - v)
@ loop 2
output.info == input.info, output.wf(),
forall|u: int, v: int| 0 <= u < input.info.width && 0 <= v < $i ==> #[trigger] output.px(u, v) == input.px(input.info.width - 1 - u, v)
@ loop 3
output.info == input.info, output.wf(),
forall|u: int, v: int| 0 <= u < input.info.width && 0 <= v < y || 0 <= u < $i && v == y ==> #[trigger] output.px(u, v) == input.px(input.info.width - 1 - u, v)
@@ mod transform
@ items
/// Nearest neighbour: a copy of the input pixel that covers the output position.
pub open spec fn nn_at(input: &Image<f32>, xf: f32, yf: f32, x: int, y: int) -> Seq<f32> {
    input.px(imin(f2u32(fsub(fceil(fdiv(i2f(x + 1), xf)), 1.0f32)) as int, input.info.width - 1), imin(f2u32(fsub(fceil(fdiv(i2f(y + 1), yf)), 1.0f32)) as int, input.info.height - 1))
}
/// Blend of the four surrounding pixels.
pub open spec fn bil_at(input: &Image<f32>, xf: f32, yf: f32, x: int, y: int) -> Seq<f32> {
    let xi = fdiv(i2f(x), xf);
    let yi = fdiv(i2f(y), yf);
    let x1 = imin(f2u32(ffloor(xi)) as int, input.info.width - 1);
    let x2 = imin(f2u32(fceil(xi)) as int, input.info.width - 1);
    let y1 = imin(f2u32(ffloor(yi)) as int, input.info.height - 1);
    let y2 = imin(f2u32(fceil(yi)) as int, input.info.height - 1);
    let xw = fsub(xi, i2f(x1));
    let yw = fsub(yi, i2f(y1));
    Seq::new(input.info.channels as nat, |c: int| fadd(fadd(fadd(
        fmul(fmul(input.px(x1, y1)[c], fsub(1.0f32, xw)), fsub(1.0f32, yw)),
        fmul(fmul(input.px(x2, y1)[c], xw), fsub(1.0f32, yw))),
        fmul(fmul(input.px(x1, y2)[c], fsub(1.0f32, xw)), yw)),
        fmul(fmul(input.px(x2, y2)[c], xw), yw)))
}
pub open spec fn tap_pos(x: f32, m: int, w: int) -> int { f2u32(fclamp(fadd(x, i2f(m)), 0.0f32, fsub(i2f(w), 1.0f32))) as int }
/// One of the 16 bicubic terms, `t = 4 * (m + 1) + (n + 1)`.
pub open spec fn bic_tap(input: &Image<f32>, xi: f32, yi: f32, c: int, m: int, n: int) -> f32 {
    fmul(input.px(tap_pos(xi, m, input.info.width as int), tap_pos(yi, n, input.info.height as int))[c],
        fmul(cubic_w(fsub(i2f(m), fsub(xi, ffloor(xi)))), cubic_w(fsub(fsub(yi, ffloor(yi)), i2f(n)))))
}
pub open spec fn bic_sum(input: &Image<f32>, xi: f32, yi: f32, c: int, t: int) -> f32
    decreases t,
{
    if t <= 0 { 0.0f32 } else { fadd(bic_sum(input, xi, yi, c, t - 1), bic_tap(input, xi, yi, c, (t - 1) / 4 - 1, (t - 1) % 4 - 1)) }
}
pub open spec fn bic_at(input: &Image<f32>, xf: f32, yf: f32, x: int, y: int) -> Seq<f32> {
    Seq::new(input.info.channels as nat, |c: int| bic_sum(input, fdiv(i2f(x), xf), fdiv(i2f(y), yf), c, 16))
}
pub open spec fn lan_tap(input: &Image<f32>, s: int, xi: f32, yi: f32, c: int, i: int, j: int) -> f32 {
    fmul(input.px(tap_pos(xi, i, input.info.width as int), tap_pos(yi, j, input.info.height as int))[c],
        fmul(lanczos(fsub(fsub(xi, ffloor(xi)), i2f(i)), i2f(s)), lanczos(fsub(fsub(yi, ffloor(yi)), i2f(j)), i2f(s))))
}
pub open spec fn lan_sum(input: &Image<f32>, s: int, xi: f32, yi: f32, c: int, t: int) -> f32
    decreases t,
{
    if t <= 0 { 0.0f32 } else { fadd(lan_sum(input, s, xi, yi, c, t - 1), lan_tap(input, s, xi, yi, c, (t - 1) / (2 * s) + 1 - s, (t - 1) % (2 * s) + 1 - s)) }
}
pub open spec fn lan_at(input: &Image<f32>, s: int, xf: f32, yf: f32, x: int, y: int) -> Seq<f32> {
    Seq::new(input.info.channels as nat, |c: int| lan_sum(input, s, fdiv(i2f(x), xf), fdiv(i2f(y), yf), c, 4 * s * s))
}
pub open spec fn scaled(method: Scale, input: &Image<f32>, xf: f32, yf: f32, x: int, y: int) -> Seq<f32> {
    match method {
        Scale::NearestNeighbor => nn_at(input, xf, yf, x, y),
        Scale::Bilinear => bil_at(input, xf, yf, x, y),
        Scale::Bicubic => bic_at(input, xf, yf, x, y),
        Scale::Lanczos => lan_at(input, 3, xf, yf, x, y),
    }
}
pub open spec fn out_dim(n: int, f: f32) -> int { f2u32(fround(fmul(i2f(n), f))) as int }
/// Sides that f32 represents exactly.
pub open spec fn f_dims<T: Number>(input: &Image<T>) -> bool { input.wf() && input.info.width <= 0x100_0000 && input.info.height <= 0x100_0000 }
/// The same with at least one pixel.
pub open spec fn f_dims1<T: Number>(input: &Image<T>) -> bool { f_dims(input) && input.info.width > 0 && input.info.height > 0 }
/// An output with pixels has an input with pixels.
pub open spec fn f_pos<T: Number>(input: &Image<T>, out: ImageInfo) -> bool { out.width > 0 && out.height > 0 ==> input.info.width > 0 && input.info.height > 0 }
pub proof fn lemma_out_pos(w: int, h: int)
    requires 0 <= w, 0 <= h,
    ensures w * h > 0 ==> w > 0 && h > 0,
{ assert(w * h > 0 ==> w > 0 && h > 0) by (nonlinear_arith) requires 0 <= w, 0 <= h; }
/// Factors whose result fits the image type.
pub open spec fn scale_ok(input: &Image<f32>, xf: f32, yf: f32) -> bool {
    out_dim(input.info.width as int, xf) * out_dim(input.info.height as int, yf) * input.info.channels <= u32::MAX
    && out_dim(input.info.width as int, xf) * out_dim(input.info.height as int, yf) <= u32::MAX
}
pub proof fn lemma_tap(n: int, x: f32, m: int)
    requires 0 < n <= 0x100_0000,
    ensures 0 <= tap_pos(x, m, n) < n,
{
    lemma_clamp_index(n);
    assert(0 <= f2u32(fclamp(fadd(x, i2f(m)), 0.0f32, fsub(i2f(n), 1.0f32))) < n);
}
@@ fn transform::scale
@ requires
input.wf(), !(flt(x_factor, 0.0f32) || flt(y_factor, 0.0f32)) ==> f_dims(input) && scale_ok(input, x_factor, y_factor)
@ ensures
flt(x_factor, 0.0f32) || flt(y_factor, 0.0f32) ==> crate::error::arg_err(r),
!(flt(x_factor, 0.0f32) || flt(y_factor, 0.0f32)) ==> r is Ok,
r is Ok ==> r->Ok_0.info.width == out_dim(input.info.width as int, x_factor) && r->Ok_0.info.height == out_dim(input.info.height as int, y_factor)
    && r->Ok_0.info.channels == input.info.channels && r->Ok_0.info.alpha == input.info.alpha && r->Ok_0.wf(),
r is Ok ==> forall|u: int, v: int| 0 <= u < r->Ok_0.info.width && 0 <= v < r->Ok_0.info.height ==> #[trigger] r->Ok_0.px(u, v) == scaled(method, input, x_factor, y_factor, u, v)
@ start
proof { float_axioms(); lit_axioms(); float_zero_axioms(); }
@@ fn transform::scale_lanczos
@ requires
input.wf(), !(flt(x_factor, 0.0f32) || flt(y_factor, 0.0f32)) ==> f_dims(input) && scale_ok(input, x_factor, y_factor) && size < 0x4000
@ ensures
flt(x_factor, 0.0f32) || flt(y_factor, 0.0f32) ==> crate::error::arg_err(r),
!(flt(x_factor, 0.0f32) || flt(y_factor, 0.0f32)) ==> r is Ok,
r is Ok ==> r->Ok_0.info.width == out_dim(input.info.width as int, x_factor) && r->Ok_0.info.height == out_dim(input.info.height as int, y_factor)
    && r->Ok_0.info.channels == input.info.channels && r->Ok_0.info.alpha == input.info.alpha && r->Ok_0.wf(),
r is Ok ==> forall|u: int, v: int| 0 <= u < r->Ok_0.info.width && 0 <= v < r->Ok_0.info.height ==> #[trigger] r->Ok_0.px(u, v) == lan_at(input, size as int, x_factor, y_factor, u, v)
@ start
proof { float_axioms(); lit_axioms(); float_zero_axioms(); }
@@ fn transform::scale_nearest_neighbor @seq
@ requires
f_dims(input), f_pos(input, old(output).info), old(output).wf(), old(output).info.channels == input.info.channels
@ ensures
final(output).info == old(output).info, final(output).wf(),
forall|u: int, v: int| 0 <= u < final(output).info.width && 0 <= v < final(output).info.height ==> #[trigger] final(output).px(u, v) == nn_at(input, x_factor, y_factor, u, v)
@ loop 0
output.info == old(output).info, output.wf(),
forall|u: int, v: int| 0 <= u < output.info.width && 0 <= v < $i ==> #[trigger] output.px(u, v) == nn_at(input, x_factor, y_factor, u, v)
@ loop 1
output.info == old(output).info, output.wf(),
forall|u: int, v: int| 0 <= u < output.info.width && 0 <= v < y || 0 <= u < $i && v == y ==> #[trigger] output.px(u, v) == nn_at(input, x_factor, y_factor, u, v)
@@ fn transform::scale_nearest_neighbor @rayon
@ requires
f_dims(input), f_pos(input, *info), info.ok(), info.channels == input.info.channels
@ ensures
r.info == *info, r.wf(),
forall|u: int, v: int| 0 <= u < r.info.width && 0 <= v < r.info.height ==> #[trigger] r.px(u, v) == nn_at(input, x_factor, y_factor, u, v)
@ start
proof { lemma_out_pos(info.width as int, info.height as int); }
@ closure 0
|$0: u32| -> (r: &[f32])
    requires $0 < width * height, f_dims1(input),
    ensures r@ == nn_at(input, x_factor, y_factor, $0 as int % width as int, $0 as int / width as int), r@.len() == input.info.channels,
=== proof { lemma_nz(width as int, height as int); lemma_coords_in(width as int, height as int, $0 as int); }
@ before from_vec_of_slice 0
proof { lemma_coords_all(width as int, height as int); assert(forall|i: int| 0 <= i < data@.len() ==> (#[trigger] data@[i])@.len() == input.info.channels); }
@@ fn transform::scale_bilinear @seq
@ requires
f_dims(input), f_pos(input, old(output).info), old(output).wf(), old(output).info.channels == input.info.channels
@ ensures
final(output).info == old(output).info, final(output).wf(),
forall|u: int, v: int| 0 <= u < final(output).info.width && 0 <= v < final(output).info.height ==> #[trigger] final(output).px(u, v) == bil_at(input, x_factor, y_factor, u, v)
@ loop 0
output.info == old(output).info, output.wf(),
forall|u: int, v: int| 0 <= u < output.info.width && 0 <= v < $i ==> #[trigger] output.px(u, v) == bil_at(input, x_factor, y_factor, u, v)
@ loop 1
output.info == old(output).info, output.wf(),
forall|u: int, v: int| 0 <= u < output.info.width && 0 <= v < y || 0 <= u < $i && v == y ==> #[trigger] output.px(u, v) == bil_at(input, x_factor, y_factor, u, v)
@@ fn transform::scale_bilinear @rayon
@ requires
f_dims(input), f_pos(input, *info), info.ok(), info.channels == input.info.channels
@ ensures
r.info == *info, r.wf(),
forall|u: int, v: int| 0 <= u < r.info.width && 0 <= v < r.info.height ==> #[trigger] r.px(u, v) == bil_at(input, x_factor, y_factor, u, v)
@ start
proof { lemma_out_pos(info.width as int, info.height as int); }
@ closure 0
|$0: u32| -> (r: Vec<f32>)
    requires $0 < width * height, f_dims1(input),
    ensures r@ == bil_at(input, x_factor, y_factor, $0 as int % width as int, $0 as int / width as int), r@.len() == input.info.channels,
=== proof { lemma_nz(width as int, height as int); lemma_coords_in(width as int, height as int, $0 as int); }
@ before from_vec_of_vec 0
proof { lemma_coords_all(width as int, height as int); assert(forall|i: int| 0 <= i < data@.len() ==> (#[trigger] data@[i])@.len() == input.info.channels); }
@@ fn transform::scale_bicubic @seq
@ requires
f_dims(input), f_pos(input, old(output).info), old(output).wf(), old(output).info.channels == input.info.channels
@ ensures
final(output).info == old(output).info, final(output).wf(),
forall|u: int, v: int| 0 <= u < final(output).info.width && 0 <= v < final(output).info.height ==> #[trigger] final(output).px(u, v) == bic_at(input, x_factor, y_factor, u, v)
@ loop 0
output.info == old(output).info, output.wf(),
forall|u: int, v: int| 0 <= u < output.info.width && 0 <= v < $i ==> #[trigger] output.px(u, v) == bic_at(input, x_factor, y_factor, u, v)
@ loop 1
output.info == old(output).info, output.wf(),
forall|u: int, v: int| 0 <= u < output.info.width && 0 <= v < y || 0 <= u < $i && v == y ==> #[trigger] output.px(u, v) == bic_at(input, x_factor, y_factor, u, v)
@@ fn transform::scale_bicubic @rayon
@ requires
f_dims(input), f_pos(input, *info), info.ok(), info.channels == input.info.channels
@ ensures
r.info == *info, r.wf(),
forall|u: int, v: int| 0 <= u < r.info.width && 0 <= v < r.info.height ==> #[trigger] r.px(u, v) == bic_at(input, x_factor, y_factor, u, v)
@ start
proof { lemma_out_pos(info.width as int, info.height as int); }
@ closure 0
|$0: u32| -> (r: Vec<f32>)
    requires $0 < width * height, f_dims1(input),
    ensures r@ == bic_at(input, x_factor, y_factor, $0 as int % width as int, $0 as int / width as int), r@.len() == input.info.channels,
=== proof { lemma_nz(width as int, height as int); lemma_coords_in(width as int, height as int, $0 as int); }
@ before from_vec_of_vec 0
proof { lemma_coords_all(width as int, height as int); assert(forall|i: int| 0 <= i < data@.len() ==> (#[trigger] data@[i])@.len() == input.info.channels); }
@@ fn transform::scale_lanczos_resampling @seq
@ requires
f_dims(input), f_pos(input, old(output).info), old(output).wf(), old(output).info.channels == input.info.channels, size < 0x4000
@ ensures
final(output).info == old(output).info, final(output).wf(),
forall|u: int, v: int| 0 <= u < final(output).info.width && 0 <= v < final(output).info.height ==> #[trigger] final(output).px(u, v) == lan_at(input, size as int, x_factor, y_factor, u, v)
@ loop 0
output.info == old(output).info, output.wf(),
forall|u: int, v: int| 0 <= u < output.info.width && 0 <= v < $i ==> #[trigger] output.px(u, v) == lan_at(input, size as int, x_factor, y_factor, u, v)
@ loop 1
output.info == old(output).info, output.wf(),
forall|u: int, v: int| 0 <= u < output.info.width && 0 <= v < y || 0 <= u < $i && v == y ==> #[trigger] output.px(u, v) == lan_at(input, size as int, x_factor, y_factor, u, v)
@@ fn transform::scale_lanczos_resampling @rayon
@ requires
f_dims(input), f_pos(input, *info), info.ok(), info.channels == input.info.channels, size < 0x4000
@ ensures
r.info == *info, r.wf(),
forall|u: int, v: int| 0 <= u < r.info.width && 0 <= v < r.info.height ==> #[trigger] r.px(u, v) == lan_at(input, size as int, x_factor, y_factor, u, v)
@ start
proof { lemma_out_pos(info.width as int, info.height as int); }
@ closure 0
|$0: u32| -> (r: Vec<f32>)
    requires $0 < width * height, f_dims1(input),
    ensures r@ == lan_at(input, size as int, x_factor, y_factor, $0 as int % width as int, $0 as int / width as int), r@.len() == input.info.channels,
=== proof { lemma_nz(width as int, height as int); lemma_coords_in(width as int, height as int, $0 as int); }
@ before from_vec_of_vec 0
proof { lemma_coords_all(width as int, height as int); assert(forall|i: int| 0 <= i < data@.len() ==> (#[trigger] data@[i])@.len() == input.info.channels); }
@@ fn transform::interpolate_nearest_neighbor
@ requires
f_dims1(input), x < u32::MAX, y < u32::MAX
@ ensures
r@ == nn_at(input, x_factor, y_factor, x as int, y as int), r@.len() == input.info.channels
@ start
proof { float_axioms(); }
@@ fn transform::interpolate_bilinear
@ requires
f_dims1(input)
@ ensures
r@ == bil_at(input, x_factor, y_factor, x as int, y as int), r@.len() == input.info.channels
@ start
proof { float_axioms(); }
@ loop 0
p_out@.len() == $i, forall|k: int| 0 <= k < $i ==> #[trigger] p_out@[k] == bil_at(input, x_factor, y_factor, x as int, y as int)[k]
@ end
proof { assert(p_out@ =~= bil_at(input, x_factor, y_factor, x as int, y as int)); }
@@ fn transform::interpolate_bicubic
@ requires
f_dims1(input)
@ ensures
r@ == bic_at(input, x_factor, y_factor, x as int, y as int), r@.len() == input.info.channels
@ start
proof { float_axioms(); clone_axiom::<f32>(); lemma_clamp_index(input.info.width as int); lemma_clamp_index(input.info.height as int); lemma_coords_all(input.info.width as int, input.info.height as int); }
@ loop 0
p_out@.len() == input.info.channels, forall|k: int| 0 <= k < p_out@.len() ==> #[trigger] p_out@[k] == bic_sum(input, x_in, y_in, k, (i32v($i) + 1) * 4)
@ loop 1
p_out@.len() == input.info.channels, forall|k: int| 0 <= k < p_out@.len() ==> #[trigger] p_out@[k] == bic_sum(input, x_in, y_in, k, (m + 1) * 4 + i32v($i) + 1)
@ loopstart 1
proof { let t = (m + 1) * 4 + n + 1; assert(t / 4 == m + 1 && t % 4 == n + 1); }
@ loop 2
p_out@.len() == input.info.channels,
forall|k: int| 0 <= k < $i ==> #[trigger] p_out@[k] == bic_sum(input, x_in, y_in, k, (m + 1) * 4 + n + 2),
forall|k: int| $i <= k < p_out@.len() ==> #[trigger] p_out@[k] == bic_sum(input, x_in, y_in, k, (m + 1) * 4 + n + 1)
@ end
proof { assert(p_out@ =~= bic_at(input, x_factor, y_factor, x as int, y as int)); }
@@ fn transform::interpolate_lanczos
@ requires
f_dims1(input), size < 0x4000
@ ensures
r@ == lan_at(input, size as int, x_factor, y_factor, x as int, y as int), r@.len() == input.info.channels
@ start
proof { float_axioms(); clone_axiom::<f32>(); lemma_clamp_index(input.info.width as int); lemma_clamp_index(input.info.height as int); lemma_coords_all(input.info.width as int, input.info.height as int); }
@ loop 0
p_out@.len() == input.info.channels, forall|k: int| 0 <= k < p_out@.len() ==> #[trigger] p_out@[k] == lan_sum(input, size as int, x_in, y_in, k, ($i + size - 1) * (2 * size))
@ loopbefore 0
proof { assert(0 * (2 * size) == 0); assert(forall|z: int| z == 0 ==> #[trigger] (z * (2 * size)) == 0) by { assert forall|z: int| z == 0 implies #[trigger] (z * (2 * size)) == 0 by {} } }
@ loopstart 0
proof { assert((i + 1 + size - 1) * (2 * size) == (i + size - 1) * (2 * size) + 2 * size) by (nonlinear_arith); }
@ loop 1
p_out@.len() == input.info.channels, forall|k: int| 0 <= k < p_out@.len() ==> #[trigger] p_out@[k] == lan_sum(input, size as int, x_in, y_in, k, (i + size - 1) * (2 * size) + $i + size - 1)
@ loopstart 1
proof { lemma_coords_unique(2 * size as int, j + size - 1, i + size - 1); }
@ loop 2
p_out@.len() == input.info.channels,
forall|k: int| 0 <= k < $i ==> #[trigger] p_out@[k] == lan_sum(input, size as int, x_in, y_in, k, (i + size - 1) * (2 * size) + j + size),
forall|k: int| $i <= k < p_out@.len() ==> #[trigger] p_out@[k] == lan_sum(input, size as int, x_in, y_in, k, (i + size - 1) * (2 * size) + j + size - 1)
@ end
proof { assert(2 * size * (2 * size) == 4 * size * size) by (nonlinear_arith); assert(p_out@ =~= lan_at(input, size as int, x_factor, y_factor, x as int, y as int)); }
@@ mod transform
@ items
/// Column (before truncation) to which the pixel at (x, y) is sheared: x - sx * y, moved right by the offset for positive sx.
pub open spec fn shear_col(sx: f32, off: f32, x: int, y: int) -> f32 {
    let d = fadd(fadd(lit_spec::<f32>(0), fmul(1.0f32, i2f(x))), fmul(fneg(sx), i2f(y)));
    if fgt(sx, 0.0f32) { fadd(d, off) } else { d }
}
pub open spec fn shear_row(sy: f32, off: f32, x: int, y: int) -> f32 {
    let d = fadd(fadd(lit_spec::<f32>(0), fmul(fneg(sy), i2f(x))), fmul(1.0f32, i2f(y)));
    if fgt(sy, 0.0f32) { fadd(d, off) } else { d }
}
pub open spec fn shear_off(n: int, f: f32) -> f32 { fabs(fmul(i2f(n), f)) }
pub open spec fn shear_w(input: &Image<f32>, sx: f32) -> int { input.info.width + f2u32(shear_off(input.info.height as int, sx)) }
pub open spec fn shear_h(input: &Image<f32>, sy: f32) -> int { input.info.height + f2u32(shear_off(input.info.width as int, sy)) }
pub open spec fn shear_to(input: &Image<f32>, sx: f32, sy: f32, x: int, y: int) -> (int, int) {
    (imin(f2u32(shear_col(sx, shear_off(input.info.height as int, sx), x, y)) as int, shear_w(input, sx) - 1),
     imin(f2u32(shear_row(sy, shear_off(input.info.width as int, sy), x, y)) as int, shear_h(input, sy) - 1))
}
/// What (u, v) shows after the first `k` pixels are drawn in row-major order.
pub open spec fn sheared(input: &Image<f32>, sx: f32, sy: f32, u: int, v: int, k: int) -> Seq<f32>
    decreases k,
{
    let w = input.info.width as int;
    if k <= 0 { zeros::<f32>(input.info.channels as int) }
    else if shear_to(input, sx, sy, (k - 1) % w, (k - 1) / w) == (u, v) { input.pxi(k - 1) }
    else { sheared(input, sx, sy, u, v, k - 1) }
}
@@ fn transform::shear
@ requires
input.wf(), shear_w(input, shear_x) <= u32::MAX, shear_h(input, shear_y) <= u32::MAX,
shear_w(input, shear_x) * shear_h(input, shear_y) <= u32::MAX, shear_w(input, shear_x) * shear_h(input, shear_y) * input.info.channels <= u32::MAX
@ ensures
r is Ok, r->Ok_0.info.width == shear_w(input, shear_x), r->Ok_0.info.height == shear_h(input, shear_y), r->Ok_0.info.channels == input.info.channels, r->Ok_0.info.alpha == input.info.alpha, r->Ok_0.wf(),
forall|u: int, v: int| 0 <= u < r->Ok_0.info.width && 0 <= v < r->Ok_0.info.height ==> #[trigger] r->Ok_0.px(u, v) == sheared(input, shear_x, shear_y, u, v, input.n())
@ start
proof { float_axioms(); reveal_with_fuel(dot, 3); lemma_coords_all(input.info.width as int, input.info.height as int); assert(input.info.height * input.info.width == input.n()) by (nonlinear_arith) requires input.n() == input.info.width * input.info.height; }
@ loopbefore 0
proof { assert(0 * w_in == 0) by (nonlinear_arith); }
@ loop 0
output.info.width == w_out, output.info.height == h_out, output.info.channels == input.info.channels, output.info.alpha == input.info.alpha, output.wf(),
forall|u: int, v: int| 0 <= u < w_out && 0 <= v < h_out ==> #[trigger] output.px(u, v) == sheared(input, shear_x, shear_y, u, v, $i * w_in)
@ loopstart 0
proof { assert((y + 1) * w_in == y * w_in + w_in) by (nonlinear_arith); }
@ loop 1
output.info.width == w_out, output.info.height == h_out, output.info.channels == input.info.channels, output.info.alpha == input.info.alpha, output.wf(),
forall|u: int, v: int| 0 <= u < w_out && 0 <= v < h_out ==> #[trigger] output.px(u, v) == sheared(input, shear_x, shear_y, u, v, y * w_in + $i)
@ loopstart 1
proof { lemma_coords_unique(w_in as int, x as int, y as int); lemma_len_sq(2); }
@@ mod transform
@ items
pub open spec fn rot_mat(deg: f32) -> Seq<f32> { let a = fradians(deg); seq![fcos(a), fneg(fsin(a)), fsin(a), fcos(a)] }
pub open spec fn rot_inv(deg: f32) -> Seq<f32> { let a = fradians(deg); seq![fcos(a), fsin(a), fneg(fsin(a)), fcos(a)] }
/// Coordinate `k` of the rotated corners of the picture, relative to its centre.
pub open spec fn rot_corners(im: &Image<f32>, deg: f32, k: int) -> Seq<f32> {
    let (w, h) = (im.info.width as int, im.info.height as int);
    let (x, y) = (w / 2, h / 2);
    seq![mat_vec(rot_mat(deg), seq![fneg(i2f(x)), i2f(y)])[k], mat_vec(rot_mat(deg), seq![i2f(w - x), i2f(y)])[k],
        mat_vec(rot_mat(deg), seq![fneg(i2f(x)), fsub(i2f(y), i2f(h))])[k], mat_vec(rot_mat(deg), seq![i2f(w - x), fsub(i2f(y), i2f(h))])[k]]
}
pub open spec fn is_most(s: Seq<f32>, v: f32, f: spec_fn(f32, f32) -> bool) -> bool {
    s.contains(v) && ((forall|i: int| 0 <= i < s.len() ==> !nan(#[trigger] s[i])) ==> forall|i: int| 0 <= i < s.len() ==> f(#[trigger] s[i], v))
}
/// Smallest and largest coordinates of the rotated corners.
pub open spec fn rot_box(im: &Image<f32>, deg: f32, x0: f32, x1: f32, y0: f32, y1: f32) -> bool {
    &&& is_most(rot_corners(im, deg, 0), x0, |a: f32, b: f32| fle(b, a)) && is_most(rot_corners(im, deg, 0), x1, |a: f32, b: f32| fle(a, b))
    &&& is_most(rot_corners(im, deg, 1), y0, |a: f32, b: f32| fle(b, a)) && is_most(rot_corners(im, deg, 1), y1, |a: f32, b: f32| fle(a, b))
}
pub proof fn lemma_most(s: Seq<f32>, v: f32, f: spec_fn(f32, f32) -> bool)
    requires
        s.len() == 4, v == s[0] || v == s[1] || v == s[2] || v == s[3],
        !nan(s[0]) && !nan(s[1]) && !nan(s[2]) && !nan(s[3]) ==> f(s[0], v) && f(s[1], v) && f(s[2], v) && f(s[3], v),
    ensures is_most(s, v, f),
{}
pub open spec fn rot_side(lo: f32, hi: f32) -> int { f2u32(fround(fsub(hi, lo))) as int }
/// Where the centre of output pixel (u, v) comes from.
pub open spec fn rot_src(im: &Image<f32>, deg: f32, x0: f32, y1: f32, u: int, v: int) -> (f32, f32) {
    let p = mat_vec(rot_inv(deg), seq![fadd(fadd(i2f(u), 0.5f32), x0), fsub(fsub(y1, i2f(v)), 0.5f32)]);
    (ffloor(fadd(p[0], i2f(im.info.width as int / 2))), ffloor(fsub(i2f(im.info.height as int / 2), p[1])))
}
/// Output pixel (u, v): the input pixel under its centre, zero outside the picture.
pub open spec fn rot_at(im: &Image<f32>, deg: f32, x0: f32, y1: f32, u: int, v: int) -> Seq<f32> {
    let (x, y) = rot_src(im, deg, x0, y1, u, v);
    if fge(x, 0.0f32) && flt(x, i2f(im.info.width as int)) && fge(y, 0.0f32) && flt(y, i2f(im.info.height as int)) { im.px(f2u32(x) as int, f2u32(y) as int) }
    else { zeros::<f32>(im.info.channels as int) }
}
/// The rotated picture fits the image type.
pub open spec fn rot_fits(im: &Image<f32>, deg: f32) -> bool {
    forall|x0: f32, x1: f32, y0: f32, y1: f32| #[trigger] rot_box(im, deg, x0, x1, y0, y1) ==> rot_side(x0, x1) * rot_side(y0, y1) <= u32::MAX && rot_side(x0, x1) * rot_side(y0, y1) * im.info.channels <= u32::MAX
}
@@ fn transform::rotate
@ requires
input.wf(), input.info.width <= 0x100_0000, input.info.height <= 0x100_0000, rot_fits(input, degrees)
@ ensures
r is Ok, r->Ok_0.info.channels == input.info.channels, r->Ok_0.info.alpha == input.info.alpha, r->Ok_0.wf(),
exists|x0: f32, x1: f32, y0: f32, y1: f32| #[trigger] rot_box(input, degrees, x0, x1, y0, y1) && r->Ok_0.info.width == rot_side(x0, x1) && r->Ok_0.info.height == rot_side(y0, y1)
    && forall|u: int, v: int| 0 <= u < r->Ok_0.info.width && 0 <= v < r->Ok_0.info.height ==> #[trigger] r->Ok_0.px(u, v) == rot_at(input, degrees, x0, y1, u, v)
@ start
proof { float_axioms(); float_int_axioms(); float_order_axioms(); float_below_axioms(); reveal_with_fuel(dot, 3); lemma_len_sq(2); }
@ before round 0
proof {
    assert(mat@ =~= rot_mat(degrees));
    assert(rot_corners(input, degrees, 0) =~= seq![coords1@[0], coords2@[0], coords3@[0], coords4@[0]]);
    assert(rot_corners(input, degrees, 1) =~= seq![coords1@[1], coords2@[1], coords3@[1], coords4@[1]]);
    lemma_most(rot_corners(input, degrees, 0), x_min, |a: f32, b: f32| fle(b, a)); lemma_most(rot_corners(input, degrees, 0), x_max, |a: f32, b: f32| fle(a, b));
    lemma_most(rot_corners(input, degrees, 1), y_min, |a: f32, b: f32| fle(b, a)); lemma_most(rot_corners(input, degrees, 1), y_max, |a: f32, b: f32| fle(a, b));
    assert(rot_box(input, degrees, x_min, x_max, y_min, y_max));
}
@ loop 0
output.info.width == w_out, output.info.height == h_out, output.info.channels == input.info.channels, output.info.alpha == input.info.alpha, output.wf(),
forall|u: int, v: int| 0 <= u < w_out && 0 <= v < $i ==> #[trigger] output.px(u, v) == rot_at(input, degrees, x_min, y_max, u, v),
forall|u: int, v: int| 0 <= u < w_out && $i <= v < h_out ==> #[trigger] output.px(u, v) == zeros::<f32>(input.info.channels as int)
@ loop 1
output.info.width == w_out, output.info.height == h_out, output.info.channels == input.info.channels, output.info.alpha == input.info.alpha, output.wf(),
forall|u: int, v: int| 0 <= u < w_out && 0 <= v < j || 0 <= u < $i && v == j ==> #[trigger] output.px(u, v) == rot_at(input, degrees, x_min, y_max, u, v),
forall|u: int, v: int| 0 <= u < w_out && j < v < h_out || $i <= u < w_out && v == j ==> #[trigger] output.px(u, v) == zeros::<f32>(input.info.channels as int)
@ before floor 0
proof { assert(inverse@ =~= rot_inv(degrees)); assert(coords@ =~= mat_vec(rot_inv(degrees), seq![x1, y1])); }
