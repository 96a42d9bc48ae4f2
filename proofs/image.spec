@@ mod image
@ items
pub trait Number: Copy + PartialEq + PartialOrd + core::ops::Add<Output=Self> + core::ops::Sub<Output=Self> + core::ops::Mul<Output=Self> + core::ops::Div<Output=Self> + core::ops::Rem<Output=Self> + From<u8> + Send + Sync {}
impl<T: Copy + PartialEq + PartialOrd + core::ops::Add<Output=T> + core::ops::Sub<Output=T> + core::ops::Mul<Output=T> + core::ops::Div<Output=T> + core::ops::Rem<Output=T> + From<u8> + Send + Sync> Number for T {}

impl PartialEqSpecImpl for ImageInfo {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &ImageInfo) -> bool { *self == *o }
}
/// Channel values as integers.
pub open spec fn vals<T: Number>(im: &Image<T>) -> spec_fn(int, int, int) -> int { |u: int, v: int, k: int| iv(im.px(u, v)[k]) }
/// The values of every channel are integers whose absolute sum fits the channel type.
pub open spec fn summable<T: Number>(im: &Image<T>) -> bool {
    &&& forall|u: int, v: int, k: int| 0 <= u < im.info.width && 0 <= v < im.info.height && 0 <= k < im.info.channels ==> is_int(#[trigger] im.px(u, v)[k])
    &&& fits_in::<T>(vals(im), im.info)
}
pub open spec fn fits_in<T>(f: spec_fn(int, int, int) -> int, info: ImageInfo) -> bool {
    forall|k: int| 0 <= k < info.channels ==> rect(abs_of(#[trigger] chan_of(f, k)), 0, info.width as int, 0, info.height as int) <= int_max::<T>() && (int_min::<T>() == 0 ==> nonneg(chan_of(f, k), info.width as int, info.height as int))
}
/// Every entry is the sum of all values of `f` at coordinates that do not exceed its own.
pub open spec fn table_of<T: Number>(t: &Image<T>, f: spec_fn(int, int, int) -> int) -> bool {
    forall|u: int, v: int, k: int| 0 <= u < t.info.width && 0 <= v < t.info.height && 0 <= k < t.info.channels ==>
        is_int(#[trigger] t.px(u, v)[k]) && iv(t.px(u, v)[k]) == rect(chan_of(f, k), 0, u + 1, 0, v + 1)
}
pub open spec fn fits_with<T: Number>(t: &Image<T>, f: spec_fn(int, int, int) -> int) -> bool { table_of(t, f) && fits_in::<T>(f, t.info) }
/// The table holds sums that fit the channel type.
pub open spec fn sums_fit<T: Number>(t: &Image<T>) -> bool { exists|f: spec_fn(int, int, int) -> int| fits_with(t, f) }
/// Value of a table, 0 left of and above the image.
pub open spec fn tab<T: Number>(t: &Image<T>, x: int, y: int, k: int) -> int { if x < 0 || y < 0 { 0 } else { iv(t.px(x, y)[k]) } }
pub open spec fn corners<T: Number>(t: &Image<T>, x0: int, x1: int, y0: int, y1: int, k: int) -> int {
    (tab(t, x1, y1, k) - tab(t, x1, y0 - 1, k)) - (tab(t, x0 - 1, y1, k) - tab(t, x0 - 1, y0 - 1, k))
}
pub proof fn lemma_corners_eq<T: Number>(t: &Image<T>, f: spec_fn(int, int, int) -> int, x0: int, x1: int, y0: int, y1: int, k: int)
    requires table_of(t, f), 0 <= x0 <= x1 < t.info.width, 0 <= y0 <= y1 < t.info.height, 0 <= k < t.info.channels,
    ensures
        tab(t, x1, y1, k) - tab(t, x1, y0 - 1, k) == rect(chan_of(f, k), 0, x1 + 1, y0, y1 + 1),
        tab(t, x0 - 1, y1, k) - tab(t, x0 - 1, y0 - 1, k) == rect(chan_of(f, k), 0, x0, y0, y1 + 1),
        corners(t, x0, x1, y0, y1, k) == rect(chan_of(f, k), x0, x1 + 1, y0, y1 + 1),
{
    let g = chan_of(f, k);
    assert(is_int(t.px(x1, y1)[k]));
    if y0 > 0 { assert(is_int(t.px(x1, y0 - 1)[k])); }
    if x0 > 0 { assert(is_int(t.px(x0 - 1, y1)[k])); }
    if x0 > 0 && y0 > 0 { assert(is_int(t.px(x0 - 1, y0 - 1)[k])); }
    lemma_rect_rows(g, 0, x1 + 1, 0, y0, y1 + 1);
    lemma_rect_rows(g, 0, x0, 0, y0, y1 + 1);
    lemma_rect_cols(g, 0, x0, x1 + 1, y0, y1 + 1);
    lemma_rect_empty(g, 0, y1 + 1);
    lemma_rect_empty(g, 0, y0);
}
pub proof fn lemma_corners<T: Number>(t: &Image<T>, f: spec_fn(int, int, int) -> int, x0: int, x1: int, y0: int, y1: int, k: int)
    requires fits_with(t, f), exact_ops::<T>(), 0 <= x0 <= x1 < t.info.width, 0 <= y0 <= y1 < t.info.height, 0 <= k < t.info.channels,
    ensures
        int_min::<T>() <= tab(t, x1, y1, k) - tab(t, x1, y0 - 1, k) <= int_max::<T>(),
        int_min::<T>() <= tab(t, x0 - 1, y1, k) - tab(t, x0 - 1, y0 - 1, k) <= int_max::<T>(),
        int_min::<T>() <= corners(t, x0, x1, y0, y1, k) <= int_max::<T>(),
{
    let g = chan_of(f, k);
    let (w, h) = (t.info.width as int, t.info.height as int);
    lemma_corners_eq(t, f, x0, x1, y0, y1, k);
    lemma_rect_bound(g, 0, x1 + 1, y0, y1 + 1, w, h);
    lemma_rect_bound(g, 0, x0, y0, y1 + 1, w, h);
    lemma_rect_bound(g, x0, x1 + 1, y0, y1 + 1, w, h);
}
/// Edge-clamped window of `n` pixels centred on `(x, y)`, along a column or a row.
pub open spec fn nb1<T: Number>(im: &Image<T>, x: int, y: int, n: int, vert: bool) -> Seq<Seq<T>> {
    Seq::new(n as nat, |i: int| if vert { im.px(x, iclamp(y - n / 2 + i, 0, im.info.height - 1)) } else { im.px(iclamp(x - n / 2 + i, 0, im.info.width - 1), y) })
}
/// Edge-clamped `n x n` window centred on `(x, y)`, row by row.
pub open spec fn nb2<T: Number>(im: &Image<T>, x: int, y: int, n: int) -> Seq<Seq<T>> {
    Seq::new((n * n) as nat, |k: int| im.px(iclamp(x - n / 2 + k % n, 0, im.info.width - 1), iclamp(y - n / 2 + k / n, 0, im.info.height - 1)))
}
impl ImageInfo {
    pub open spec fn ok(self) -> bool {
        &&& self.channels >= 1
        &&& self.width * self.height * self.channels <= u32::MAX
        &&& self.width * self.height <= u32::MAX
    }
    /// Number of channels that are not the alpha channel.
    pub open spec fn cn(self) -> int { if self.alpha { self.channels - 1 } else { self.channels as int } }
}
impl<T: Number> Image<T> {
    pub open spec fn n(&self) -> int { self.info.width * self.info.height }
    /// The data hold exactly width * height pixels of `channels` values.
    pub open spec fn wf(&self) -> bool {
        &&& self.info.ok()
        &&& self.data@.len() == self.n() * self.info.channels
    }
    /// The `i`-th pixel in row-major order.
    pub open spec fn pxi(&self, i: int) -> Seq<T> { chunk(self.data@, self.info.channels as int, i) }
    /// The pixel at column `x`, row `y`.
    pub open spec fn px(&self, x: int, y: int) -> Seq<T> { self.pxi(y * self.info.width + x) }
}
@@ mod image
@ items
/// What `#[derive(Clone)]` generates.
impl<T: Number> Clone for Image<T> {
    fn clone(&self) -> (r: Self)
        ensures r.info == self.info, r.data@ == self.data@,
    {
        proof { clone_axiom::<T>(); }
        let r = Image { info: self.info, data: self.data.clone() };
        assert(r.data@ =~= self.data@);
        r
    }
}
@@ item image::ImageInfo
@ derive Clone, Copy, PartialEq
@@ fn image::ImageInfo::new
@ ensures
r.width == width, r.height == height, r.channels == channels, r.alpha == alpha
@@ fn image::ImageInfo::wh
@ ensures
r.0 == self.width, r.1 == self.height
@@ fn image::ImageInfo::whc
@ ensures
r.0 == self.width, r.1 == self.height, r.2 == self.channels
@@ fn image::ImageInfo::whca
@ ensures
r.0 == self.width, r.1 == self.height, r.2 == self.channels, r.3 == self.alpha
@@ fn image::ImageInfo::channels_non_alpha
@ requires
self.channels >= 1
@ ensures
r == self.channels - (if self.alpha { 1int } else { 0int })
@@ fn image::ImageInfo::size
@ requires
self.width * self.height <= u32::MAX
@ ensures
r == self.width * self.height
@@ fn image::ImageInfo::full_size
@ requires
self.width * self.height <= u32::MAX,
self.width * self.height * self.channels <= u32::MAX
@ ensures
r == self.width * self.height * self.channels

@@ fn image::Image::from_slice
@ ensures
r.info.width == width, r.info.height == height, r.info.channels == channels, r.info.alpha == alpha,
r.data@ =~= data@
@ start
proof { clone_axiom::<T>(); }
@@ fn image::Image::from_vec
@ ensures
r.info.width == width, r.info.height == height, r.info.channels == channels, r.info.alpha == alpha,
r.data@ == data@
@@ fn image::Image::from_vec_of_vec
@ requires
width * height <= u32::MAX, width * height * channels <= u32::MAX
@ ensures
r.info.width == width, r.info.height == height, r.info.channels == channels, r.info.alpha == alpha,
r.data@ == flat(vecs_view(data@)),
data@.len() == width * height && channels >= 1 && (forall|i: int| 0 <= i < data@.len() ==> (#[trigger] data@[i])@.len() == channels) ==>
  r.wf() && (forall|i: int| 0 <= i < r.n() ==> #[trigger] r.pxi(i) == data@[i]@)
  && (forall|u: int, v: int| 0 <= u < width && 0 <= v < height ==> #[trigger] r.px(u, v) == data@[v * width + u]@)
@ start
proof { clone_axiom::<T>(); lemma_coords_all(width as int, height as int); 
   if forall|i: int| 0 <= i < data@.len() ==> (#[trigger] data@[i])@.len() == channels {
      let vs = vecs_view(data@);
      assert forall|i: int| 0 <= i < vs.len() implies (#[trigger] vs[i]).len() == channels by { assert(vs[i] == data@[i]@); }
      lemma_flat_chunks(vs, channels as int);
      assert forall|i: int| 0 <= i < vs.len() implies #[trigger] chunk(flat(vs), channels as int, i) == data@[i]@ by { assert(chunk(flat(vs), channels as int, i) == vs[i]); }
   } }
@ loop 0
data_vec@ == flat(vecs_view(data@).take($i as int)), $v@ == data@
@ loopend 0
proof { lemma_flat_step(vecs_view(data@), $i - 1); assert(vecs_view(data@)[$i - 1] == vec@); }
@ end
proof { assert(vecs_view(data@).take(data@.len() as int) =~= vecs_view(data@)); }
@@ fn image::Image::from_vec_of_slice
@ requires
width * height <= u32::MAX, width * height * channels <= u32::MAX
@ ensures
r.info.width == width, r.info.height == height, r.info.channels == channels, r.info.alpha == alpha,
r.data@ == flat(slices_view(data@)),
data@.len() == width * height && channels >= 1 && (forall|i: int| 0 <= i < data@.len() ==> (#[trigger] data@[i])@.len() == channels) ==>
  r.wf() && (forall|i: int| 0 <= i < r.n() ==> #[trigger] r.pxi(i) == data@[i]@)
  && (forall|u: int, v: int| 0 <= u < width && 0 <= v < height ==> #[trigger] r.px(u, v) == data@[v * width + u]@)
@ start
proof { clone_axiom::<T>(); lemma_coords_all(width as int, height as int); 
   if forall|i: int| 0 <= i < data@.len() ==> (#[trigger] data@[i])@.len() == channels {
      let vs = slices_view(data@);
      assert forall|i: int| 0 <= i < vs.len() implies (#[trigger] vs[i]).len() == channels by { assert(vs[i] == data@[i]@); }
      lemma_flat_chunks(vs, channels as int);
      assert forall|i: int| 0 <= i < vs.len() implies #[trigger] chunk(flat(vs), channels as int, i) == data@[i]@ by { assert(chunk(flat(vs), channels as int, i) == vs[i]); }
   } }
@ loop 0
data_vec@ == flat(slices_view(data@).take($i as int)), $v@ == data@
@ loopend 0
proof { lemma_flat_step(slices_view(data@), $i - 1); assert(slices_view(data@)[$i - 1] == vec@); }
@ end
proof { assert(slices_view(data@).take(data@.len() as int) =~= slices_view(data@)); }
@@ fn image::Image::blank
@ requires
info.ok()
@ ensures
r.info == info, r.wf(),
forall|i: int| 0 <= i < r.data@.len() ==> #[trigger] r.data@[i] == lit_spec::<T>(0),
forall|i: int| 0 <= i < r.n() ==> #[trigger] r.pxi(i) == zeros::<T>(info.channels as int),
forall|u: int, v: int| 0 <= u < info.width && 0 <= v < info.height ==> #[trigger] r.px(u, v) == zeros::<T>(info.channels as int)
@ start
proof { clone_axiom::<T>(); lemma_coords_all(info.width as int, info.height as int); reveal(chunk); assert forall|i: int| 0 <= i < info.width * info.height implies 0 <= #[trigger] (i * info.channels) && i * info.channels + info.channels <= info.width * info.height * info.channels by { lemma_chan(info.width * info.height, info.channels as int, i); } 
assert forall|d: Seq<T>, i: int| d.len() == info.width * info.height * info.channels && (forall|k: int| 0 <= k < d.len() ==> d[k] == lit_spec::<T>(0)) && 0 <= i < info.width * info.height implies #[trigger] chunk(d, info.channels as int, i) == zeros::<T>(info.channels as int) by { assert(chunk(d, info.channels as int, i) =~= zeros::<T>(info.channels as int)); } }
@@ fn image::Image::empty
@ requires
info.ok()
@ ensures
r.info == info, r.data@.len() == 0
@@ fn image::Image::index
@ requires
self.info.ok(), x < self.info.width, y < self.info.height
@ ensures
r == (y * self.info.width + x) * self.info.channels,
r + self.info.channels <= self.info.width * self.info.height * self.info.channels
@ start
proof { lemma_idx(self.info.width as int, self.info.height as int, x as int, y as int); lemma_chan(self.info.width * self.info.height, self.info.channels as int, y * self.info.width + x); }
@@ fn image::Image::data
@ ensures
r@ == self.data@
@@ fn image::Image::data_mut
@ ensures
r@ == old(self).data@, final(self).info == old(self).info,
final(r)@.len() == r@.len() ==> final(self).data@ == final(r)@
@@ fn image::Image::get_pixel_unchecked
@ requires
self.wf(), y * self.info.width + x < self.n()
@ ensures
r@ == self.pxi(y * self.info.width + x), r@.len() == self.info.channels
@ start
proof { lemma_nn(y as int, self.info.width as int); }
@@ fn image::Image::get_pixel_mut
@ requires
old(self).wf(), panic_ok() || (x < old(self).info.width && y < old(self).info.height)
@ ensures
x < old(self).info.width, y < old(self).info.height,
r@ == old(self).px(x as int, y as int), r@.len() == old(self).info.channels,
final(self).info == old(self).info,
final(r)@.len() == r@.len() ==> final(self).wf() && forall|i: int| 0 <= i < old(self).n() ==> #[trigger] final(self).pxi(i) == (if i == y * old(self).info.width + x { final(r)@ } else { old(self).pxi(i) })
@ start
proof { reveal(chunk); if x < self.info.width && y < self.info.height { lemma_idx(self.info.width as int, self.info.height as int, x as int, y as int); lemma_splice_all(self.data@, self.info.channels as int, self.n(), y * self.info.width + x); } }
@@ fn image::Image::get_pixel_mut_unchecked
@ requires
old(self).wf(), y * old(self).info.width + x < old(self).n()
@ ensures
r@ == old(self).px(x as int, y as int), r@.len() == old(self).info.channels,
final(self).info == old(self).info,
final(r)@.len() == r@.len() ==> final(self).wf() && forall|i: int| 0 <= i < old(self).n() ==> #[trigger] final(self).pxi(i) == (if i == y * old(self).info.width + x { final(r)@ } else { old(self).pxi(i) })
@ start
proof { lemma_nn(y as int, self.info.width as int); }
@@ fn image::Image::set_pixel
@ requires
old(self).wf(), panic_ok() || (x < old(self).info.width && y < old(self).info.height && pixel@.len() == old(self).info.channels)
@ ensures
x < old(self).info.width, y < old(self).info.height, pixel@.len() == old(self).info.channels,
final(self).info == old(self).info, final(self).wf(),
forall|i: int| 0 <= i < old(self).n() ==> #[trigger] final(self).pxi(i) == (if i == y * old(self).info.width + x { pixel@ } else { old(self).pxi(i) }),
forall|u: int, v: int| 0 <= u < old(self).info.width && 0 <= v < old(self).info.height ==> #[trigger] final(self).px(u, v) == (if u == x && v == y { pixel@ } else { old(self).px(u, v) })
@ start
proof { clone_axiom::<T>(); reveal(chunk); if x < self.info.width && y < self.info.height { lemma_coords_2d(self.info.width as int, self.info.height as int, x as int, y as int); lemma_idx(self.info.width as int, self.info.height as int, x as int, y as int); lemma_splice_all(self.data@, self.info.channels as int, self.n(), y * self.info.width + x); } }
@@ fn image::Image::set_pixel_indexed
@ requires
old(self).wf(), panic_ok() || (index < old(self).n() && pixel@.len() == old(self).info.channels), index < old(self).n()
@ ensures
pixel@.len() == old(self).info.channels,
final(self).info == old(self).info, final(self).wf(),
forall|i: int| 0 <= i < old(self).n() ==> #[trigger] final(self).pxi(i) == (if i == index { pixel@ } else { old(self).pxi(i) })
@ start
proof { clone_axiom::<T>(); reveal(chunk); lemma_splice_all(self.data@, self.info.channels as int, self.n(), index as int); }

@@ fn image::<BaseImage for Image>::info
@ ensures
r == self.info
@@ fn image::<BaseImage for Image>::get_pixel
@ requires
self.wf(), panic_ok() || (x < self.info.width && y < self.info.height)
@ ensures
x < self.info.width, y < self.info.height,
r@ == self.px(x as int, y as int), r@.len() == self.info.channels
@ start
proof { reveal(chunk); if x < self.info.width && y < self.info.height { lemma_idx(self.info.width as int, self.info.height as int, x as int, y as int); } }
@@ item image::<Index for Image>
@ add
@@ mod image
@ items
impl<T: Number> vstd::std_specs::core::IndexSpecImpl<usize> for Image<T> {
    open spec fn index_req(&self, i: &usize) -> bool { self.wf() && *i < self.n() }
}
@@ fn image::<Index for Image>::index
@ ensures
r@ == self.pxi(i as int), r@.len() == self.info.channels
@ start
proof { reveal(chunk); lemma_chan(self.n(), self.info.channels as int, i as int); }
@@ fn image::<IndexMut for Image>::index_mut
@ ensures
r@ == old(self).pxi(i as int), r@.len() == old(self).info.channels,
final(self).info == old(self).info,
final(r)@.len() == r@.len() ==> final(self).wf() && forall|k: int| 0 <= k < old(self).n() ==> #[trigger] final(self).pxi(k) == (if k == i { final(r)@ } else { old(self).pxi(k) })
@ start
proof { reveal(chunk); lemma_splice_all(self.data@, self.info.channels as int, self.n(), i as int); }

@@ fn error::messages::check_channels
@ requires
panic_ok() || channels == len as u8
@ ensures
channels == len as u8
@@ fn error::messages::check_xy
@ requires
panic_ok() || (x < width && y < height)
@ ensures
x < width, y < height
