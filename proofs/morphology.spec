@@ mod morphology
@ items
pub open spec fn gray(info: crate::image::ImageInfo) -> bool { info.channels == (if info.alpha { 2int } else { 1int }) }
pub open spec fn inside(info: crate::image::ImageInfo, u: int, v: int) -> bool { 0 <= u < info.width && 0 <= v < info.height }
/// Every gray value is 0 or 255.
pub open spec fn binary(im: &Image<u8>) -> bool {
    forall|u: int, v: int| inside(im.info, u, v) ==> (#[trigger] im.px(u, v))[0] == 0 || im.px(u, v)[0] == 255
}
/// The pixels that are set.
pub open spec fn set_of(im: &Image<u8>) -> spec_fn(int, int) -> bool { |u: int, v: int| inside(im.info, u, v) && im.px(u, v)[0] == 255 }
/// Both coordinates are at most `r` apart.
pub open spec fn near(r: int, x: int, y: int, u: int, v: int) -> bool { x - r <= u <= x + r && y - r <= v <= y + r }
pub open spec fn dilation(info: crate::image::ImageInfo, s: spec_fn(int, int) -> bool, r: int, x: int, y: int) -> bool {
    exists|u: int, v: int| inside(info, u, v) && near(r, x, y, u, v) && #[trigger] s(u, v)
}
pub open spec fn erosion(info: crate::image::ImageInfo, s: spec_fn(int, int) -> bool, r: int, x: int, y: int) -> bool {
    forall|u: int, v: int| #[trigger] near(r, x, y, u, v) ==> inside(info, u, v) && s(u, v)
}
/// More than half of the pixels of the window that are inside the image.
pub open spec fn majority_of(info: crate::image::ImageInfo, s: spec_fn(int, int) -> bool, r: int, x: int, y: int) -> bool {
    let (a, b) = (lo(x, r), hi(x, r, info.width as int));
    let (c, d) = (lo(y, r), hi(y, r, info.height as int));
    2 * count(s, a, b, c, d) > (b - a) * (d - c)
}
pub open spec fn lo(x: int, r: int) -> int { imax(x - r, 0) }
pub open spec fn hi(x: int, r: int, n: int) -> int { imin(x + r, n - 1) + 1 }
/// Pixel (x, y) is set where `f` holds; alpha is the one of `im`.
pub open spec fn shows(r: &Image<u8>, im: &Image<u8>, f: spec_fn(int, int) -> bool) -> bool {
    &&& r.info == im.info && r.wf()
    &&& forall|u: int, v: int| inside(im.info, u, v) ==> #[trigger] r.px(u, v) == im.px(u, v).update(0, bit(f(u, v)))
}
pub open spec fn bit(b: bool) -> u8 { if b { 255 } else { 0 } }
/// What the operations have in common: errors, shape, and the set on binary images.
pub open spec fn is_morph(r: ImgProcResult<Image<u8>>, im: &Image<u8>, f: spec_fn(int, int) -> bool) -> bool {
    &&& !gray(im.info) ==> crate::error::arg_err(r)
    &&& gray(im.info) ==> r is Ok && r->Ok_0.info == im.info && r->Ok_0.wf()
    &&& gray(im.info) && binary(im) ==> shows(&r->Ok_0, im, f)
}
pub open spec fn widen() -> spec_fn(u8) -> i64 { |x: u8| x as i64 }
pub open spec fn zero() -> spec_fn(u8) -> u8 { |x: u8| 0u8 }
pub open spec fn is_wide(w: &Image<i64>, im: &Image<u8>) -> bool { w.info == im.info && w.wf() && forall|i: int| 0 <= i < im.n() ==> #[trigger] w.pxi(i) == chan_map(false, widen(), widen(), im.pxi(i)) }
/// The sums of 8-bit values fit an i64.
pub proof fn lemma_wide(w: &Image<i64>, im: &Image<u8>)
    requires im.wf(), is_wide(w, im),
    ensures
        exact_ops::<i64>(), crate::image::summable(w),
        forall|u: int, v: int, k: int| inside(im.info, u, v) && 0 <= k < im.info.channels ==> #[trigger] chan_of(crate::image::vals(w), k)(u, v) == im.px(u, v)[k],
{
    lemma_exact_i64(); int_axioms();
    let (wd, h) = (im.info.width as int, im.info.height as int);
    lemma_coords_all(wd, h);
    lemma_chunk_len(im.data@, im.info.channels as int, im.n());
    let f = crate::image::vals(w);
    assert forall|u: int, v: int, k: int| inside(im.info, u, v) && 0 <= k < im.info.channels implies #[trigger] chan_of(f, k)(u, v) == im.px(u, v)[k] by {
        assert(0 <= v * wd + u < wd * h);
        assert(w.px(u, v) == w.pxi(v * wd + u));
        assert(im.px(u, v).len() == im.info.channels);
    }
    assert forall|k: int| 0 <= k < w.info.channels implies rect(abs_of(#[trigger] chan_of(f, k)), 0, w.info.width as int, 0, w.info.height as int) <= int_max::<i64>() by {
        lemma_rect_max(abs_of(chan_of(f, k)), 255, 0, wd, 0, h);
        assert(wd * h <= u32::MAX);
    }
}
/// The sum over the part of the window that is inside the image.
pub proof fn lemma_win(im: &Image<u8>, w: &Image<i64>, r: int, x: int, y: int)
    requires im.wf(), gray(im.info), is_wide(w, im), inside(im.info, x, y), 0 <= r,
    ensures ({
        let (a, b) = (lo(x, r), hi(x, r, im.info.width as int));
        let (c, d) = (lo(y, r), hi(y, r, im.info.height as int));
        let sum = rect(chan_of(crate::image::vals(w), 0), a, b, c, d);
        let s = set_of(im);
        &&& 0 <= a <= x < b <= im.info.width && 0 <= c <= y < d <= im.info.height
        &&& 1 <= (b - a) * (d - c) <= u32::MAX
        &&& 0 <= sum <= 255 * ((b - a) * (d - c))
        &&& binary(im) ==> {
            &&& sum == 255 * count(s, a, b, c, d)
            &&& (sum >= 255 <==> dilation(im.info, s, r, x, y))
            &&& (sum == sat(sat((2 * r + 1) * (2 * r + 1), i64::MIN as int, i64::MAX as int) * 255, i64::MIN as int, i64::MAX as int) <==> erosion(im.info, s, r, x, y))
        }
    }),
{
    lemma_wide(w, im);
    let (wd, h) = (im.info.width as int, im.info.height as int);
    let (a, b) = (lo(x, r), hi(x, r, wd));
    let (c, d) = (lo(y, r), hi(y, r, h));
    let f = chan_of(crate::image::vals(w), 0);
    let s = set_of(im);
    let n = 2 * r + 1;
    assert(1 <= (b - a) * (d - c) <= wd * h) by (nonlinear_arith) requires 1 <= b - a <= wd, 1 <= d - c <= h;
    assert forall|u: int, v: int| a <= u < b && c <= v < d implies 0 <= #[trigger] f(u, v) <= 255 by { assert(inside(im.info, u, v)); }
    lemma_rect_max(f, 255, a, b, c, d);
    if binary(im) {
        assert forall|u: int, v: int| a <= u < b && c <= v < d implies #[trigger] f(u, v) == (if s(u, v) { 255int } else { 0 }) by { assert(inside(im.info, u, v)); assert(im.px(u, v)[0] == 0 || im.px(u, v)[0] == 255); }
        lemma_count(s, f, 255, a, b, c, d);
        let k = count(s, a, b, c, d);
        assert(some_in(s, a, b, c, d) <==> dilation(im.info, s, r, x, y)) by {
            if dilation(im.info, s, r, x, y) {
                let (u, v) = choose|u: int, v: int| inside(im.info, u, v) && near(r, x, y, u, v) && #[trigger] s(u, v);
                assert(a <= u < b && c <= v < d && s(u, v));
            }
            if some_in(s, a, b, c, d) {
                let (u, v) = choose|u: int, v: int| a <= u < b && c <= v < d && #[trigger] s(u, v);
                assert(inside(im.info, u, v) && near(r, x, y, u, v) && s(u, v));
            }
        }
        assert((b - a) * (d - c) <= n * n) by (nonlinear_arith) requires 0 <= b - a <= n, 0 <= d - c <= n;
        assert(k == n * n <==> erosion(im.info, s, r, x, y)) by {
            if erosion(im.info, s, r, x, y) {
                assert(near(r, x, y, x - r, y - r) && near(r, x, y, x + r, y + r));
                assert(b - a == n && d - c == n);
                assert forall|u: int, v: int| a <= u < b && c <= v < d implies #[trigger] s(u, v) by { assert(near(r, x, y, u, v)); }
                assert(all_in(s, a, b, c, d));
            }
            if k == n * n {
                assert((b - a) * (d - c) < n * n || (b - a == n && d - c == n)) by (nonlinear_arith) requires 0 <= b - a <= n, 0 <= d - c <= n, n >= 1;
                assert(all_in(s, a, b, c, d));
                assert forall|u: int, v: int| #[trigger] near(r, x, y, u, v) implies inside(im.info, u, v) && s(u, v) by { assert(a <= u < b && c <= v < d); assert(s(u, v)); }
            }
        }
        assert(n * n >= 1) by (nonlinear_arith) requires n >= 1;
    }
}
/// The blank picture that the set is drawn into.
pub open spec fn is_clear(o: &Image<u8>, im: &Image<u8>) -> bool { o.info == im.info && o.wf() && forall|u: int, v: int| inside(im.info, u, v) ==> #[trigger] o.px(u, v) == im.px(u, v).update(0, 0) }
pub proof fn lemma_clear(o: &Image<u8>, im: &Image<u8>)
    requires im.wf(), gray(im.info), o.info == im.info, o.wf(), forall|i: int| 0 <= i < im.n() ==> #[trigger] o.pxi(i) == chan_map(im.info.alpha, zero(), idf(), im.pxi(i)),
    ensures is_clear(o, im),
{
    lemma_coords_all(im.info.width as int, im.info.height as int);
    lemma_chunk_len(im.data@, im.info.channels as int, im.n());
    assert forall|u: int, v: int| inside(im.info, u, v) implies #[trigger] o.px(u, v) == im.px(u, v).update(0, 0) by {
        assert(o.px(u, v) == o.pxi(v * im.info.width + u));
        assert(im.px(u, v).len() == im.info.channels);
        assert(o.px(u, v) =~= im.px(u, v).update(0, 0));
    }
}
/// Pixels before row `y`, column `x` are drawn, the others are clear.
#[verifier::opaque]
pub open spec fn drawn(o: &Image<u8>, im: &Image<u8>, f: spec_fn(int, int) -> bool, y: int, x: int) -> bool {
    &&& o.info == im.info && o.wf()
    &&& binary(im) ==> forall|u: int, v: int| inside(im.info, u, v) ==> #[trigger] o.px(u, v) == im.px(u, v).update(0, bit(before(y, x, u, v) && f(u, v)))
}
pub open spec fn before(y: int, x: int, u: int, v: int) -> bool { v < y || v == y && u < x }
pub open spec fn ero_f(im: &Image<u8>, r: int) -> spec_fn(int, int) -> bool { |u: int, v: int| erosion(im.info, set_of(im), r, u, v) }
pub open spec fn dil_f(im: &Image<u8>, r: int) -> spec_fn(int, int) -> bool { |u: int, v: int| dilation(im.info, set_of(im), r, u, v) }
pub open spec fn maj_f(im: &Image<u8>, r: int) -> spec_fn(int, int) -> bool { |u: int, v: int| majority_of(im.info, set_of(im), r, u, v) }
pub open spec fn grad_f(im: &Image<u8>, r: int) -> spec_fn(int, int) -> bool { |u: int, v: int| erosion(im.info, set_of(im), r, u, v) != dilation(im.info, set_of(im), r, u, v) }
@@ mod morphology
@ items
/// Summed-area table of the gray values.
pub open spec fn wide_table(t: &Image<i64>, im: &Image<u8>) -> bool { exists|w: Image<i64>| #[trigger] crate::image::table_of(t, crate::image::vals(&w)) && is_wide(&w, im) }
pub open spec fn the_wide(t: &Image<i64>, im: &Image<u8>) -> Image<i64> { choose|w: Image<i64>| #[trigger] crate::image::table_of(t, crate::image::vals(&w)) && is_wide(&w, im) }
/// What the sum of the window says.
pub proof fn lemma_sum(t: &Image<i64>, im: &Image<u8>, r: int, x: int, y: int)
    requires im.wf(), gray(im.info), wide_table(t, im), t.info == im.info, inside(im.info, x, y), 0 <= r,
    ensures ({
        let (a, b) = (lo(x, r), hi(x, r, im.info.width as int));
        let (c, d) = (lo(y, r), hi(y, r, im.info.height as int));
        let sum = win_sum(t, im, r, x, y);
        let s = set_of(im);
        &&& crate::image::table_of(t, crate::image::vals(&the_wide(t, im)))
        &&& 0 <= a <= x < b <= im.info.width && 0 <= c <= y < d <= im.info.height
        &&& 1 <= (b - a) * (d - c) <= u32::MAX
        &&& 0 <= sum <= 255 * ((b - a) * (d - c))
        &&& binary(im) ==> {
            &&& sum == 255 * count(s, a, b, c, d)
            &&& (sum >= 255 <==> dilation(im.info, s, r, x, y))
            &&& (sum == sat(sat((2 * r + 1) * (2 * r + 1), i64::MIN as int, i64::MAX as int) * 255, i64::MIN as int, i64::MAX as int) <==> erosion(im.info, s, r, x, y))
        }
    }),
{
    int_axioms();
    let w = the_wide(t, im);
    lemma_win(im, &w, r, x, y);
}
pub open spec fn win_sum(t: &Image<i64>, im: &Image<u8>, r: int, x: int, y: int) -> int {
    rect(chan_of(crate::image::vals(&the_wide(t, im)), 0), lo(x, r), hi(x, r, im.info.width as int), lo(y, r), hi(y, r, im.info.height as int))
}
/// One more pixel is drawn.
pub open spec fn set_one(o0: &Image<u8>, o1: &Image<u8>, x: int, y: int, b: bool) -> bool {
    forall|i: int| 0 <= i < o0.n() ==> #[trigger] o1.pxi(i) == (if b && i == y * o0.info.width + x { o0.pxi(i).update(0, 255) } else { o0.pxi(i) })
}
pub proof fn lemma_drawn_init(o: &Image<u8>, im: &Image<u8>, f: spec_fn(int, int) -> bool)
    requires is_clear(o, im),
    ensures drawn(o, im, f, 0, 0),
{ reveal(drawn); }
pub proof fn lemma_drawn_step(o0: &Image<u8>, o1: &Image<u8>, im: &Image<u8>, f: spec_fn(int, int) -> bool, y: int, x: int)
    requires im.wf(), gray(im.info), inside(im.info, x, y), drawn(o0, im, f, y, x), o1.info == im.info, o1.wf(), binary(im) ==> set_one(o0, o1, x, y, f(x, y)),
    ensures drawn(o1, im, f, y, x + 1),
{
    reveal(drawn);
    lemma_coords_2d(im.info.width as int, im.info.height as int, x, y);
    lemma_coords_all(im.info.width as int, im.info.height as int);
    lemma_chunk_len(im.data@, im.info.channels as int, im.n());
    if binary(im) {
        assert forall|u: int, v: int| inside(im.info, u, v) implies #[trigger] o1.px(u, v) == im.px(u, v).update(0, bit(before(y, x + 1, u, v) && f(u, v))) by {
            let i = v * im.info.width + u;
            assert(0 <= i < im.n());
            assert(o1.px(u, v) == o1.pxi(i) && o0.px(u, v) == o0.pxi(i) && im.px(u, v) == im.pxi(i));
            assert(im.pxi(i).len() == im.info.channels);
            assert(o1.px(u, v) =~= im.px(u, v).update(0, bit(before(y, x + 1, u, v) && f(u, v))));
        }
    }
}
pub proof fn lemma_drawn_row(o: &Image<u8>, im: &Image<u8>, f: spec_fn(int, int) -> bool, y: int)
    requires drawn(o, im, f, y, im.info.width as int),
    ensures drawn(o, im, f, y + 1, 0),
{ reveal(drawn); }
pub proof fn lemma_drawn_done(o: &Image<u8>, im: &Image<u8>, f: spec_fn(int, int) -> bool)
    requires drawn(o, im, f, im.info.height as int, 0),
    ensures o.info == im.info, o.wf(), binary(im) ==> shows(o, im, f),
{ reveal(drawn); }
pub proof fn lemma_drawn_shape(o: &Image<u8>, im: &Image<u8>, f: spec_fn(int, int) -> bool, y: int, x: int)
    requires drawn(o, im, f, y, x),
    ensures o.info == im.info, o.wf(),
{ reveal(drawn); }
@@ fn morphology::erode
@ requires
input.wf()
@ ensures
is_morph(r, input, ero_f(input, radius as int))
@ start
let ghost f: spec_fn(int, int) -> bool = ero_f(input, radius as int);
proof {
    int_axioms(); lemma_exact_i64(); lemma_coords_all(input.info.width as int, input.info.height as int); lemma_chunk_len(input.data@, input.info.channels as int, input.n());
    assert forall|w: Image<i64>| is_wide(&w, input) implies #[trigger] crate::image::summable(&w) by { lemma_wide(&w, input); }
}
@ closure 0
|$0: u8| -> (r: i64)
    ensures r == $0 as i64,
===
===
proof { assert(computes($c, widen())); }
@ closure 1
|$0: u8| -> (r: u8)
    ensures r == 0,
===
===
proof { assert(computes($c, zero())); }
@ closure 2
|$0: u8| -> (r: u8)
    ensures r == $0,
===
===
proof { assert(computes($c, idf())); }
@ loopbefore 0
proof { lemma_clear(&output, input); lemma_drawn_init(&output, input, f); assert(wide_table(&table, input)); }
@ loop 0
wide_table(&table, input), drawn(&output, input, f, $i as int, 0)
@ loop 1
drawn(&output, input, f, y as int, $i as int)
@ loopstart 1
proof {
    lemma_sum(&table, input, radius as int, x as int, y as int);
    lemma_coords_2d(width as int, height as int, x as int, y as int);
    lemma_drawn_shape(&output, input, f, y as int, x as int);
}
let ghost o0 = output;
@ loopend 1
proof { lemma_drawn_step(&o0, &output, input, f, y as int, x as int); }
@ loopend 0
proof { lemma_drawn_row(&output, input, f, y as int); }
@ end
proof { lemma_drawn_done(&output, input, f); }
@@ fn morphology::dilate
@ requires
input.wf()
@ ensures
is_morph(r, input, dil_f(input, radius as int))
@ start
let ghost f: spec_fn(int, int) -> bool = dil_f(input, radius as int);
proof {
    int_axioms(); lemma_exact_i64(); lemma_coords_all(input.info.width as int, input.info.height as int); lemma_chunk_len(input.data@, input.info.channels as int, input.n());
    assert forall|w: Image<i64>| is_wide(&w, input) implies #[trigger] crate::image::summable(&w) by { lemma_wide(&w, input); }
}
@ closure 0
|$0: u8| -> (r: i64)
    ensures r == $0 as i64,
===
===
proof { assert(computes($c, widen())); }
@ closure 1
|$0: u8| -> (r: u8)
    ensures r == 0,
===
===
proof { assert(computes($c, zero())); }
@ closure 2
|$0: u8| -> (r: u8)
    ensures r == $0,
===
===
proof { assert(computes($c, idf())); }
@ loopbefore 0
proof { lemma_clear(&output, input); lemma_drawn_init(&output, input, f); assert(wide_table(&table, input)); }
@ loop 0
wide_table(&table, input), drawn(&output, input, f, $i as int, 0)
@ loop 1
drawn(&output, input, f, y as int, $i as int)
@ loopstart 1
proof {
    lemma_sum(&table, input, radius as int, x as int, y as int);
    lemma_coords_2d(width as int, height as int, x as int, y as int);
    lemma_drawn_shape(&output, input, f, y as int, x as int);
}
let ghost o0 = output;
@ loopend 1
proof { lemma_drawn_step(&o0, &output, input, f, y as int, x as int); }
@ loopend 0
proof { lemma_drawn_row(&output, input, f, y as int); }
@ end
proof { lemma_drawn_done(&output, input, f); }
@@ fn morphology::majority
@ requires
input.wf()
@ ensures
is_morph(r, input, maj_f(input, radius as int))
@ start
let ghost f: spec_fn(int, int) -> bool = maj_f(input, radius as int);
proof {
    int_axioms(); lemma_exact_i64(); lemma_coords_all(input.info.width as int, input.info.height as int); lemma_chunk_len(input.data@, input.info.channels as int, input.n());
    assert forall|w: Image<i64>| is_wide(&w, input) implies #[trigger] crate::image::summable(&w) by { lemma_wide(&w, input); }
}
@ closure 0
|$0: u8| -> (r: i64)
    ensures r == $0 as i64,
===
===
proof { assert(computes($c, widen())); }
@ closure 1
|$0: u8| -> (r: u8)
    ensures r == 0,
===
===
proof { assert(computes($c, zero())); }
@ closure 2
|$0: u8| -> (r: u8)
    ensures r == $0,
===
===
proof { assert(computes($c, idf())); }
@ loopbefore 0
proof { lemma_clear(&output, input); lemma_drawn_init(&output, input, f); assert(wide_table(&table, input)); }
@ loop 0
wide_table(&table, input), drawn(&output, input, f, $i as int, 0)
@ loop 1
drawn(&output, input, f, y as int, $i as int)
@ loopstart 1
proof {
    lemma_sum(&table, input, radius as int, x as int, y as int);
    lemma_coords_2d(width as int, height as int, x as int, y as int);
    lemma_drawn_shape(&output, input, f, y as int, x as int);
}
let ghost o0 = output;
@ loopend 1
proof { lemma_drawn_step(&o0, &output, input, f, y as int, x as int); }
@ loopend 0
proof { lemma_drawn_row(&output, input, f, y as int); }
@ end
proof { lemma_drawn_done(&output, input, f); }
@@ fn morphology::gradient
@ requires
input.wf()
@ ensures
is_morph(r, input, grad_f(input, radius as int))
@ start
let ghost f: spec_fn(int, int) -> bool = grad_f(input, radius as int);
proof {
    int_axioms(); lemma_exact_i64(); lemma_coords_all(input.info.width as int, input.info.height as int); lemma_chunk_len(input.data@, input.info.channels as int, input.n());
    assert forall|w: Image<i64>| is_wide(&w, input) implies #[trigger] crate::image::summable(&w) by { lemma_wide(&w, input); }
}
@ closure 0
|$0: u8| -> (r: i64)
    ensures r == $0 as i64,
===
===
proof { assert(computes($c, widen())); }
@ closure 1
|$0: u8| -> (r: u8)
    ensures r == 0,
===
===
proof { assert(computes($c, zero())); }
@ closure 2
|$0: u8| -> (r: u8)
    ensures r == $0,
===
===
proof { assert(computes($c, idf())); }
@ loopbefore 0
proof { lemma_clear(&output, input); lemma_drawn_init(&output, input, f); assert(wide_table(&table, input)); }
@ loop 0
wide_table(&table, input), drawn(&output, input, f, $i as int, 0)
@ loop 1
drawn(&output, input, f, y as int, $i as int)
@ loopstart 1
proof {
    lemma_sum(&table, input, radius as int, x as int, y as int);
    lemma_coords_2d(width as int, height as int, x as int, y as int);
    lemma_drawn_shape(&output, input, f, y as int, x as int);
}
let ghost o0 = output;
@ loopend 1
proof { lemma_drawn_step(&o0, &output, input, f, y as int, x as int); }
@ loopend 0
proof { lemma_drawn_row(&output, input, f, y as int); }
@ end
proof { lemma_drawn_done(&output, input, f); }
@@ fn morphology::open
@ requires
input.wf()
@ ensures
is_morph(r, input, |x: int, y: int| dilation(input.info, in_image(input.info, ero_f(input, radius as int)), radius as int, x, y))
@ start
proof {
    lemma_coords_all(input.info.width as int, input.info.height as int); lemma_chunk_len(input.data@, input.info.channels as int, input.n());
    let s = in_image(input.info, ero_f(input, radius as int));
    assert forall|e: Image<u8>| binary(input) && gray(input.info) && #[trigger] shows(&e, input, ero_f(input, radius as int)) implies binary(&e) && set_of(&e) == s && (forall|u: int, v: int, b: u8| inside(input.info, u, v) ==> #[trigger] e.px(u, v).update(0, b) == input.px(u, v).update(0, b)) by {
        assert forall|u: int, v: int| inside(input.info, u, v) implies (#[trigger] e.px(u, v))[0] == bit(ero_f(input, radius as int)(u, v)) by { assert(input.px(u, v).len() == input.info.channels); }
        assert(set_of(&e) =~= s);
        assert forall|u: int, v: int, b: u8| inside(input.info, u, v) implies #[trigger] e.px(u, v).update(0, b) == input.px(u, v).update(0, b) by { assert(input.px(u, v).len() == input.info.channels); assert(e.px(u, v).update(0, b) =~= input.px(u, v).update(0, b)); }
    }
}
@@ fn morphology::close
@ requires
input.wf()
@ ensures
is_morph(r, input, |x: int, y: int| erosion(input.info, in_image(input.info, dil_f(input, radius as int)), radius as int, x, y))
@ start
proof {
    lemma_coords_all(input.info.width as int, input.info.height as int); lemma_chunk_len(input.data@, input.info.channels as int, input.n());
    let s = in_image(input.info, dil_f(input, radius as int));
    assert forall|e: Image<u8>| binary(input) && gray(input.info) && #[trigger] shows(&e, input, dil_f(input, radius as int)) implies binary(&e) && set_of(&e) == s && (forall|u: int, v: int, b: u8| inside(input.info, u, v) ==> #[trigger] e.px(u, v).update(0, b) == input.px(u, v).update(0, b)) by {
        assert forall|u: int, v: int| inside(input.info, u, v) implies (#[trigger] e.px(u, v))[0] == bit(dil_f(input, radius as int)(u, v)) by { assert(input.px(u, v).len() == input.info.channels); }
        assert(set_of(&e) =~= s);
        assert forall|u: int, v: int, b: u8| inside(input.info, u, v) implies #[trigger] e.px(u, v).update(0, b) == input.px(u, v).update(0, b) by { assert(input.px(u, v).len() == input.info.channels); assert(e.px(u, v).update(0, b) =~= input.px(u, v).update(0, b)); }
    }
}
@@ mod morphology
@ items
pub open spec fn in_image(info: crate::image::ImageInfo, s: spec_fn(int, int) -> bool) -> spec_fn(int, int) -> bool { |u: int, v: int| inside(info, u, v) && s(u, v) }
