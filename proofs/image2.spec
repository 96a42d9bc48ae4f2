@@ item image::pixel::Pixel
@ add
spec fn pv(&self) -> Seq<T>;
@@ item image::pixel::<Pixel for [T]>
@ add
open spec fn pv(&self) -> Seq<T> { self@ }
@@ fn image::pixel::Pixel::alpha
@ requires
self.pv().len() >= 1
@ ensures
r == self.pv().last()
@@ fn image::pixel::<Pixel for [T]>::alpha
@ ensures
r == self.pv().last()
@@ fn image::pixel::Pixel::channels_without_alpha
@ requires
self.pv().len() >= 1
@ ensures
r@ == self.pv().drop_last()
@@ fn image::pixel::<Pixel for [T]>::channels_without_alpha
@ ensures
r@ =~= self.pv().drop_last()
@@ fn image::pixel::Pixel::map_all
@ requires
forall|t: T| #[trigger] f.requires((t,))
@ ensures
r@.len() == self.pv().len(), forall|i: int| 0 <= i < r@.len() ==> f.ensures((self.pv()[i],), #[trigger] r@[i])
@@ fn image::pixel::<Pixel for [T]>::map_all
@ ensures
r@.len() == self.pv().len()
@ loop 0
channels_out@.len() == $i, $v@ == self@, forall|i: int| 0 <= i < $i ==> f.ensures((self@[i],), #[trigger] channels_out@[i])
@@ fn image::pixel::Pixel::map_alpha
@ requires
self.pv().len() >= 1, forall|t: T| #[trigger] f.requires((t,)), forall|t: T| #[trigger] g.requires((t,))
@ ensures
r@.len() == self.pv().len(),
forall|i: int| 0 <= i < r@.len() - 1 ==> f.ensures((self.pv()[i],), #[trigger] r@[i]),
g.ensures((self.pv().last(),), r@.last())
@@ fn image::pixel::<Pixel for [T]>::map_alpha
@ ensures
r@.len() == self.pv().len()
@ loop 0
channels_out@.len() == $i, $v@ == self@.drop_last(), forall|i: int| 0 <= i < $i ==> f.ensures((self@[i],), #[trigger] channels_out@[i])
@@ fn image::pixel::Pixel::apply
@ requires
forall|t: T| #[trigger] f.requires((t,))
@ ensures
final(self).pv().len() == old(self).pv().len(),
forall|i: int| 0 <= i < old(self).pv().len() ==> f.ensures((old(self).pv()[i],), #[trigger] final(self).pv()[i])
@@ fn image::pixel::<Pixel for [T]>::apply
@ ensures
final(self).pv().len() == old(self).pv().len()
@ loop 0
self@.len() == old(self)@.len(),
forall|i: int| 0 <= i < $i ==> f.ensures((old(self)@[i],), #[trigger] self@[i]),
forall|i: int| $i <= i < self@.len() ==> #[trigger] self@[i] == old(self)@[i]
@@ fn image::pixel::Pixel::apply_alpha
@ requires
old(self).pv().len() >= 1, forall|t: T| #[trigger] f.requires((t,)), forall|t: T| #[trigger] g.requires((t,))
@ ensures
final(self).pv().len() == old(self).pv().len(),
forall|i: int| 0 <= i < old(self).pv().len() - 1 ==> f.ensures((old(self).pv()[i],), #[trigger] final(self).pv()[i]),
g.ensures((old(self).pv().last(),), final(self).pv().last())
@@ fn image::pixel::<Pixel for [T]>::apply_alpha
@ ensures
final(self).pv().len() == old(self).pv().len()
@ loop 0
self@.len() == old(self)@.len(),
forall|i: int| 0 <= i < $i ==> f.ensures((old(self)@[i],), #[trigger] self@[i]),
forall|i: int| $i <= i < self@.len() ==> #[trigger] self@[i] == old(self)@[i]
@@ fn image::pixel::Pixel::is_black
@ requires
n_ok::<T>()
@ ensures
r == (forall|i: int| 0 <= i < self.pv().len() ==> neq(#[trigger] self.pv()[i], lit_spec::<T>(0)))
@@ fn image::pixel::<Pixel for [T]>::is_black
@ ensures
r == (forall|i: int| 0 <= i < self.pv().len() ==> neq(#[trigger] self.pv()[i], lit_spec::<T>(0)))
@ loop 0
$v@ == self@, forall|i: int| 0 <= i < $i ==> neq(#[trigger] self@[i], lit_spec::<T>(0))
@ loopstart 0
proof { assert(self.pv()[$i - 1] == *channel); }
@@ fn image::pixel::Pixel::is_black_alpha
@ requires
n_ok::<T>(), self.pv().len() >= 1
@ ensures
r == (forall|i: int| 0 <= i < self.pv().len() - 1 ==> neq(#[trigger] self.pv()[i], lit_spec::<T>(0)))
@@ fn image::pixel::<Pixel for [T]>::is_black_alpha
@ ensures
r == (forall|i: int| 0 <= i < self.pv().len() - 1 ==> neq(#[trigger] self.pv()[i], lit_spec::<T>(0)))
@ loop 0
$v@ == self@.drop_last(), forall|i: int| 0 <= i < $i ==> neq(#[trigger] self@[i], lit_spec::<T>(0))

@@ fn image::Image::get_subimage
@ requires
self.wf(), x + width <= u32::MAX, y + height <= u32::MAX,
panic_ok() || (x < self.info.width && y < self.info.height && x + width <= self.info.width && y + height <= self.info.height)
@ ensures
x < self.info.width, y < self.info.height,
width > 0 && height > 0 ==> x + width <= self.info.width && y + height <= self.info.height,
r.info.width == width, r.info.height == height, r.info.channels == self.info.channels, r.info.alpha == self.info.alpha,
width > 0 && height > 0 ==> r.wf(),
forall|i: int, j: int| 0 <= i < width && 0 <= j < height ==> #[trigger] r.px(i, j) == self.px(x + i, y + j)
@ loop 0
slices_view(data@).len() == data@.len(), data@.len() == ($i - $lo) * width,
$i > $lo && width > 0 ==> x + width <= self.info.width && y + ($i - $lo) <= self.info.height,
forall|k: int| 0 <= k < data@.len() ==> (#[trigger] data@[k])@ == self.px(x + k % (width as int), y + k / (width as int)) && data@[k]@.len() == self.info.channels
@ loopstart 0
proof { assert(($i - $lo) * width == ($i - 1 - $lo) * width + width) by (nonlinear_arith); }
@ loop 1
slices_view(data@).len() == data@.len(), data@.len() == (c__0 - 1 - s__0) * width + ($i - $lo),
$i > $lo ==> x + ($i - $lo) <= self.info.width && y + (c__0 - 1 - s__0) < self.info.height,
forall|k: int| 0 <= k < data@.len() ==> (#[trigger] data@[k])@ == self.px(x + k % (width as int), y + k / (width as int)) && data@[k]@.len() == self.info.channels
@ loopstart 1
proof { lemma_coords_unique(width as int, $i - 1 - $lo, c__0 - 1 - s__0); }
@ end
proof {
    assert forall|i: int, j: int| 0 <= i < width && 0 <= j < height implies (#[trigger] data@[j * width + i])@ == self.px(x + i, y + j) by {
        lemma_coords_unique(width as int, i, j); lemma_idx(width as int, height as int, i, j);
        assert(height * width == width * height) by (nonlinear_arith);
        assert(j * width + i < data@.len());
    }
    assert(forall|i: int, j: int| 0 <= i < width && 0 <= j < height ==> 0 <= #[trigger] (j * width + i) < data@.len()) by {
       assert forall|i: int, j: int| 0 <= i < width && 0 <= j < height implies 0 <= #[trigger] (j * width + i) < data@.len() by { lemma_idx(width as int, height as int, i, j); assert(height * width == width * height) by (nonlinear_arith); }
    }
    assert(height * width == width * height) by (nonlinear_arith);
    if width > 0 && height > 0 { assert(width * height <= self.info.width * self.info.height) by (nonlinear_arith) requires width <= self.info.width, height <= self.info.height; }
}
@@ fn image::Image::get_neighborhood_1d
@ requires
self.wf(), x + size <= i32::MAX, y + size <= i32::MAX, self.info.width <= i32::MAX, self.info.height <= i32::MAX,
panic_ok() || (x < self.info.width && y < self.info.height)
@ ensures
x < self.info.width, y < self.info.height,
r.info.width == (if is_vert { 1 } else { size }), r.info.height == (if is_vert { size } else { 1 }), r.info.channels == self.info.channels, r.info.alpha == self.info.alpha, r.wf(),
forall|i: int| 0 <= i < size ==> #[trigger] r.pxi(i) == (if is_vert { self.px(x as int, iclamp(y - size / 2 + i, 0, self.info.height - 1)) } else { self.px(iclamp(x - size / 2 + i, 0, self.info.width - 1), y as int) }),
slices_view(r.data@) =~= crate::image::nb1(self, x as int, y as int, size as int, is_vert)
@ loop 0
slices_view(data@).len() == data@.len(), data@.len() == $i,
forall|k: int| 0 <= k < $i ==> (#[trigger] data@[k])@ == self.px(x as int, iclamp(y - size / 2 + k, 0, self.info.height - 1)) && data@[k]@.len() == self.info.channels
@ loop 1
slices_view(data@).len() == data@.len(), data@.len() == $i,
forall|k: int| 0 <= k < $i ==> (#[trigger] data@[k])@ == self.px(iclamp(x - size / 2 + k, 0, self.info.width - 1), y as int) && data@[k]@.len() == self.info.channels
@@ fn image::Image::get_neighborhood_2d
@ requires
self.wf(), x + size <= i32::MAX, y + size <= i32::MAX, self.info.width <= i32::MAX, self.info.height <= i32::MAX, size * size <= u32::MAX,
panic_ok() || (x < self.info.width && y < self.info.height)
@ ensures
x < self.info.width, y < self.info.height,
r.info.width == size, r.info.height == size, r.info.channels == self.info.channels, r.info.alpha == self.info.alpha, r.wf(),
forall|k: int| 0 <= k < size * size ==> #[trigger] r.pxi(k) == self.px(iclamp(x - size / 2 + k % (size as int), 0, self.info.width - 1), iclamp(y - size / 2 + k / (size as int), 0, self.info.height - 1)),
slices_view(r.data@) =~= crate::image::nb2(self, x as int, y as int, size as int)
@ loop 0
slices_view(data@).len() == data@.len(), data@.len() == $i * size,
forall|k: int| 0 <= k < data@.len() ==> (#[trigger] data@[k])@ == self.px(iclamp(x - size / 2 + k % (size as int), 0, self.info.width - 1), iclamp(y - size / 2 + k / (size as int), 0, self.info.height - 1)) && data@[k]@.len() == self.info.channels
@ loopstart 0
proof { assert(($i) * size == ($i - 1) * size + size) by (nonlinear_arith); }
@ loop 1
slices_view(data@).len() == data@.len(), data@.len() == i * size + $i,
forall|k: int| 0 <= k < data@.len() ==> (#[trigger] data@[k])@ == self.px(iclamp(x - size / 2 + k % (size as int), 0, self.info.width - 1), iclamp(y - size / 2 + k / (size as int), 0, self.info.height - 1)) && data@[k]@.len() == self.info.channels
@ loopstart 1
proof { lemma_coords_unique(size as int, j as int, i as int); }

@@ fn image::Image::map_pixels
@ requires
self.wf(), takes(f, self.info.channels as int)
@ ensures
r.info.width == self.info.width, r.info.height == self.info.height, r.info.alpha == self.info.alpha,
forall|g: spec_fn(Seq<T>) -> Seq<S>, k: int| #[trigger] maps_to(f, g, self.info.channels as int, k) && 0 <= k <= 255 && self.n() * k <= u32::MAX ==>
    r.info.channels == k && r.data@.len() == self.n() * k && (k > 0 ==> r.wf()) && (forall|i: int| 0 <= i < self.n() ==> #[trigger] r.pxi(i) == g(self.pxi(i)))
@ start
proof { lemma_chunk_len(self.data@, self.info.channels as int, self.n()); }
@ loop 0
p_out@.len() == 0,
forall|g: spec_fn(Seq<T>) -> Seq<S>, k: int| #[trigger] maps_to(f, g, self.info.channels as int, k) && 0 <= k ==>
    data@.len() == $i * k && (forall|i: int| 0 <= i < $i ==> #[trigger] chunk(data@, k, i) == g(self.pxi(i)))
@ loopstart 0
let ghost d0 = data@;
@ loopend 0
proof {
    assert forall|g: spec_fn(Seq<T>) -> Seq<S>, k: int| #[trigger] maps_to(f, g, self.info.channels as int, k) && 0 <= k implies
        data@.len() == (i + 1) * k && (forall|j: int| 0 <= j < i + 1 ==> #[trigger] chunk(data@, k, j) == g(self.pxi(j))) by {
        lemma_chunk_push(d0, k, i as int, g(self.pxi(i as int)));
    }
}
@ end
proof {
    assert forall|g: spec_fn(Seq<T>) -> Seq<S>, k: int| #[trigger] maps_to(f, g, self.info.channels as int, k) && 0 <= k <= 255 && self.n() * k <= u32::MAX implies
       channels == k by { if self.n() > 0 { lemma_div_exact(self.n(), k); } else { assert(0 * k == 0); } }
}
@@ fn image::Image::map_pixels_if_alpha
@ requires
self.wf(), takes(f, self.info.cn()),
self.info.alpha ==> forall|t: T| #[trigger] g.requires((t,))
@ ensures
r.info.width == self.info.width, r.info.height == self.info.height, r.info.alpha == self.info.alpha,
forall|fs: spec_fn(Seq<T>) -> Seq<S>, gs: spec_fn(T) -> S, k: int| #[trigger] maps_to(f, fs, self.info.cn(), k) && #[trigger] computes(g, gs) && 0 <= k && k + (if self.info.alpha { 1int } else { 0int }) <= 255
    && self.n() * (k + (if self.info.alpha { 1int } else { 0int })) <= u32::MAX ==>
    r.info.channels == k + (if self.info.alpha { 1int } else { 0int }) && (k > 0 || self.info.alpha ==> r.wf()) && (forall|i: int| 0 <= i < self.n() ==> #[trigger] r.pxi(i) == pix_map(self.info.alpha, fs, gs, self.pxi(i)))
@ start
proof { lemma_chunk_len(self.data@, self.info.channels as int, self.n()); }
@ loop 0
p_out@.len() == 0,
forall|fs: spec_fn(Seq<T>) -> Seq<S>, gs: spec_fn(T) -> S, k: int| #[trigger] maps_to(f, fs, self.info.channels - 1, k) && #[trigger] computes(g, gs) && 0 <= k ==>
    data@.len() == $i * (k + 1) && (forall|i: int| 0 <= i < $i ==> #[trigger] chunk(data@, k + 1, i) == pix_map(true, fs, gs, self.pxi(i)))
@ loopstart 0
let ghost d0 = data@;
@ loopend 0
proof {
    assert forall|fs: spec_fn(Seq<T>) -> Seq<S>, gs: spec_fn(T) -> S, k: int| #[trigger] maps_to(f, fs, self.info.channels - 1, k) && #[trigger] computes(g, gs) && 0 <= k implies
    data@.len() == (i + 1) * (k + 1) && (forall|j: int| 0 <= j < i + 1 ==> #[trigger] chunk(data@, k + 1, j) == pix_map(true, fs, gs, self.pxi(j))) by {
        lemma_chunk_push(d0, k + 1, i as int, pix_map(true, fs, gs, self.pxi(i as int)));
    }
}
@ end
proof {
    assert forall|fs: spec_fn(Seq<T>) -> Seq<S>, gs: spec_fn(T) -> S, k: int| #[trigger] maps_to(f, fs, self.info.channels - 1, k) && #[trigger] computes(g, gs) && 0 <= k && k + 1 <= 255 && self.n() * (k + 1) <= u32::MAX implies
       channels == k + 1 by { if self.n() > 0 { lemma_div_exact(self.n(), k + 1); } else { assert(0 * (k + 1) == 0); } }
}
@@ fn image::Image::map_channels
@ requires
self.wf(), forall|t: T| #[trigger] f.requires((t,))
@ ensures
r.info == self.info, r.wf(),
forall|i: int| 0 <= i < self.data@.len() ==> f.ensures((self.data@[i],), #[trigger] r.data@[i]),
forall|g: spec_fn(T) -> S| #[trigger] computes(f, g) ==> forall|i: int| 0 <= i < self.n() ==> #[trigger] r.pxi(i) == chan_map(false, g, g, self.pxi(i))
@ loop 0
data@.len() == $i, forall|i: int| 0 <= i < $i ==> f.ensures((self.data@[i],), #[trigger] data@[i])
@ end
proof {
    assert forall|g: spec_fn(T) -> S, i: int| #[trigger] computes(f, g) && 0 <= i < self.n() implies #[trigger] chunk(data@, self.info.channels as int, i) == chan_map(false, g, g, self.pxi(i)) by {
        reveal(chunk); lemma_chan(self.n(), self.info.channels as int, i);
        assert(chunk(data@, self.info.channels as int, i) =~= chan_map(false, g, g, self.pxi(i)));
    }
}
@@ fn image::Image::map_channels_if_alpha
@ requires
self.wf(), forall|t: T| #[trigger] f.requires((t,)), self.info.alpha ==> forall|t: T| #[trigger] g.requires((t,))
@ ensures
r.info == self.info, r.wf(),
forall|fs: spec_fn(T) -> S, gs: spec_fn(T) -> S| #[trigger] computes(f, fs) && #[trigger] computes(g, gs) ==> forall|i: int| 0 <= i < self.n() ==> #[trigger] r.pxi(i) == chan_map(self.info.alpha, fs, gs, self.pxi(i))
@ start
proof { lemma_chunk_len(self.data@, self.info.channels as int, self.n());
 assert forall|fs: spec_fn(T) -> S, gs: spec_fn(T) -> S, p: Seq<T>| #[trigger] chan_map(false, fs, gs, p) == chan_map(false, fs, fs, p) by { assert(chan_map(false, fs, gs, p) =~= chan_map(false, fs, fs, p)); } }
@ loop 0
data@.len() == $i * self.info.channels,
forall|fs: spec_fn(T) -> S, gs: spec_fn(T) -> S| #[trigger] computes(f, fs) && #[trigger] computes(g, gs) ==> forall|i: int| 0 <= i < $i ==> #[trigger] chunk(data@, self.info.channels as int, i) == chan_map(true, fs, gs, self.pxi(i))
@ loopstart 0
let ghost d0 = data@;
@ loopend 0
proof {
    let c = self.info.channels as int;
    let p = data@.subrange(d0.len() as int, data@.len() as int);
    assert(data@ =~= d0 + p);
    lemma_chunk_push(d0, c, i as int, p);
    assert forall|fs: spec_fn(T) -> S, gs: spec_fn(T) -> S| #[trigger] computes(f, fs) && #[trigger] computes(g, gs) implies p == chan_map(true, fs, gs, self.pxi(i as int)) by {
        assert(p =~= chan_map(true, fs, gs, self.pxi(i as int)));
    }
}
@@ fn image::Image::apply_pixels
@ requires
old(self).wf(), takes(f, old(self).info.channels as int), panic_ok() || outlen(f, old(self).info.channels as int, old(self).info.channels as int)
@ ensures
final(self).info == old(self).info, final(self).wf(),
forall|g: spec_fn(Seq<T>) -> Seq<T>| #[trigger] maps_to(f, g, old(self).info.channels as int, old(self).info.channels as int) ==>
   forall|i: int| 0 <= i < old(self).n() ==> #[trigger] final(self).pxi(i) == g(old(self).pxi(i))
@ start
proof { lemma_chunk_len(self.data@, self.info.channels as int, self.n()); }
@ loop 0
self.info == old(self).info, self.wf(),
forall|g: spec_fn(Seq<T>) -> Seq<T>| #[trigger] maps_to(f, g, old(self).info.channels as int, old(self).info.channels as int) ==>
   forall|i: int| 0 <= i < $i ==> #[trigger] self.pxi(i) == g(old(self).pxi(i)),
forall|i: int| $i <= i < old(self).n() ==> #[trigger] self.pxi(i) == old(self).pxi(i)
@ loopstart 0
proof { assert(self.pxi(i as int) == old(self).pxi(i as int)); assert(old(self).pxi(i as int).len() == self.info.channels); }
@@ fn image::Image::apply_pixels_if_alpha
@ requires
old(self).wf(), takes(f, old(self).info.cn()),
old(self).info.alpha ==> forall|t: T| #[trigger] g.requires((t,)),
panic_ok() || outlen(f, old(self).info.cn(), old(self).info.cn())
@ ensures
final(self).info == old(self).info, final(self).wf(),
forall|fs: spec_fn(Seq<T>) -> Seq<T>, gs: spec_fn(T) -> T| #[trigger] maps_to(f, fs, old(self).info.cn(), old(self).info.cn()) && #[trigger] computes(g, gs) ==>
   forall|i: int| 0 <= i < old(self).n() ==> #[trigger] final(self).pxi(i) == pix_map(old(self).info.alpha, fs, gs, old(self).pxi(i))
@ start
proof { lemma_chunk_len(self.data@, self.info.channels as int, self.n()); }
@ loop 0
self.info == old(self).info, self.wf(),
forall|fs: spec_fn(Seq<T>) -> Seq<T>, gs: spec_fn(T) -> T| #[trigger] maps_to(f, fs, old(self).info.channels - 1, old(self).info.channels - 1) && #[trigger] computes(g, gs) ==>
   forall|i: int| 0 <= i < $i ==> #[trigger] self.pxi(i) == pix_map(true, fs, gs, old(self).pxi(i)),
forall|i: int| $i <= i < old(self).n() ==> #[trigger] self.pxi(i) == old(self).pxi(i)
@ loopstart 0
proof { assert(self.pxi(i as int) == old(self).pxi(i as int)); assert(old(self).pxi(i as int).len() == self.info.channels); }
@@ fn image::Image::apply_channels
@ requires
old(self).wf(), forall|t: T| #[trigger] f.requires((t,))
@ ensures
final(self).info == old(self).info, final(self).wf(),
forall|i: int| 0 <= i < old(self).data@.len() ==> f.ensures((old(self).data@[i],), #[trigger] final(self).data@[i]),
forall|g: spec_fn(T) -> T| #[trigger] computes(f, g) ==> forall|i: int| 0 <= i < old(self).n() ==> #[trigger] final(self).pxi(i) == chan_map(false, g, g, old(self).pxi(i))
@ loop 0
self.info == old(self).info, self.data@.len() == old(self).data@.len(),
forall|i: int| 0 <= i < $i ==> f.ensures((old(self).data@[i],), #[trigger] self.data@[i]),
forall|i: int| $i <= i < self.data@.len() ==> #[trigger] self.data@[i] == old(self).data@[i]
@ end
proof {
    let (a, b, c) = (old(self).data@, self.data@, self.info.channels as int);
    assert forall|g: spec_fn(T) -> T, i: int| #[trigger] computes(f, g) && 0 <= i < self.n() implies #[trigger] chunk(b, c, i) == chan_map(false, g, g, chunk(a, c, i)) by {
        reveal(chunk); lemma_chan(self.n(), c, i);
        assert(chunk(b, c, i) =~= chan_map(false, g, g, chunk(a, c, i)));
    }
}
@@ fn image::Image::apply_channels_if_alpha
@ requires
old(self).wf(), forall|t: T| #[trigger] f.requires((t,)), old(self).info.alpha ==> forall|t: T| #[trigger] g.requires((t,))
@ ensures
final(self).info == old(self).info, final(self).wf(),
forall|fs: spec_fn(T) -> T, gs: spec_fn(T) -> T| #[trigger] computes(f, fs) && #[trigger] computes(g, gs) ==> forall|i: int| 0 <= i < old(self).n() ==> #[trigger] final(self).pxi(i) == chan_map(old(self).info.alpha, fs, gs, old(self).pxi(i))
@ start
proof { lemma_chunk_len(self.data@, self.info.channels as int, self.n());
 assert forall|fs: spec_fn(T) -> T, gs: spec_fn(T) -> T, p: Seq<T>| #[trigger] chan_map(false, fs, gs, p) == chan_map(false, fs, fs, p) by { assert(chan_map(false, fs, gs, p) =~= chan_map(false, fs, fs, p)); } }
@ loop 0
self.info == old(self).info, self.wf(),
forall|fs: spec_fn(T) -> T, gs: spec_fn(T) -> T| #[trigger] computes(f, fs) && #[trigger] computes(g, gs) ==> forall|i: int| 0 <= i < $i ==> #[trigger] self.pxi(i) == chan_map(true, fs, gs, old(self).pxi(i)),
forall|i: int| $i <= i < old(self).n() ==> #[trigger] self.pxi(i) == old(self).pxi(i)
@ loopstart 0
proof { assert(self.pxi(i as int) == old(self).pxi(i as int)); assert(old(self).pxi(i as int).len() == self.info.channels); }
@ loopend 0
proof {
    assert forall|fs: spec_fn(T) -> T, gs: spec_fn(T) -> T| #[trigger] computes(f, fs) && #[trigger] computes(g, gs) implies self.pxi(i as int) == chan_map(true, fs, gs, old(self).pxi(i as int)) by {
        assert(self.pxi(i as int) =~= chan_map(true, fs, gs, old(self).pxi(i as int)));
    }
}
@@ fn image::Image::edit_channel
@ requires
old(self).wf(), forall|k: int| index <= k < old(self).data@.len() && (k - index) % (old(self).info.channels as int) == 0 ==> f.requires((#[trigger] old(self).data@[k],))
@ ensures
final(self).info == old(self).info, final(self).wf(),
forall|k: int| index <= k < old(self).data@.len() && (k - index) % (old(self).info.channels as int) == 0 ==> f.ensures((old(self).data@[k],), #[trigger] final(self).data@[k]),
forall|k: int| 0 <= k < old(self).data@.len() && !(index <= k && (k - index) % (old(self).info.channels as int) == 0) ==> #[trigger] final(self).data@[k] == old(self).data@[k],
index < old(self).info.channels ==> forall|g: spec_fn(T) -> T, i: int| #[trigger] computes(f, g) && 0 <= i < old(self).n() ==> #[trigger] final(self).pxi(i) == old(self).pxi(i).update(index as int, g(old(self).pxi(i)[index as int]))
@ loop 0
self.info == old(self).info, self.data@.len() == old(self).data@.len(),
forall|k: int| index <= k < $i && (k - index) % (old(self).info.channels as int) == 0 ==> f.ensures((old(self).data@[k],), #[trigger] self.data@[k]),
forall|k: int| 0 <= k < old(self).data@.len() && !(index <= k < $i && (k - index) % (old(self).info.channels as int) == 0) ==> #[trigger] self.data@[k] == old(self).data@[k]
@ loopstart 0
proof { lemma_stride(self.info.channels as int, g__0 - 1); }
@ end
proof {
    let (a, b, c) = (old(self).data@, self.data@, self.info.channels as int);
    assert forall|g: spec_fn(T) -> T, i: int| index < c && #[trigger] computes(f, g) && 0 <= i < self.n() implies #[trigger] chunk(b, c, i) == chunk(a, c, i).update(index as int, g(chunk(a, c, i)[index as int])) by {
        lemma_chunk_at(a, c, self.n()); lemma_chunk_at(b, c, self.n());
        assert forall|k: int| 0 <= k < c implies chunk(b, c, i)[k] == (if k == index { g(chunk(a, c, i)[k]) } else { chunk(a, c, i)[k] }) by {
            lemma_residue(c, i, k, index as int);
            assert(0 <= i * c + k < a.len());
            assert(b[i * c + k] == b[i * c + k]);
        }
        assert(chunk(b, c, i) =~= chunk(a, c, i).update(index as int, g(chunk(a, c, i)[index as int])));
    }
}

@@ item image::pixel_iter::PixelIter
@ derive
@@ mod image::pixel_iter
@ items
impl<'a, T: Number> PixelIter<'a, T> {
    /// Index of the position in a grid that is w wide.
    pub open spec fn raw(&self) -> int { self.y * (self.x_max + 1) + self.x }
    /// Number of items still to come.
    pub open spec fn left(&self) -> int { (self.x_max + 1) * (self.y_max + 1) - self.raw() }
    /// Number of items already produced.
    pub open spec fn pos(&self) -> int { self.image.n() - self.left() }
    pub open spec fn w(&self) -> int { self.image.info.width as int }
    pub open spec fn wf(&self) -> bool {
        &&& self.image.wf()
        &&& if self.image.n() == 0 { self.x == 1 && self.y == 0 && self.x_max == 0 && self.y_max == 0 } else {
            &&& self.x_max + 1 == self.image.info.width
            &&& self.y_max + 1 == self.image.info.height
            &&& self.x <= self.x_max + 1
            &&& self.y <= self.y_max
        }
    }
    pub proof fn lemma_pos(&self)
        requires self.wf(),
        ensures
            0 <= self.pos() <= self.image.n(), 0 <= self.y * (self.x_max + 1) <= self.raw() <= (self.x_max + 1) * (self.y_max + 1) <= u32::MAX,
            (self.y + 1) * (self.x_max + 1) == self.y * (self.x_max + 1) + self.x_max + 1,
            (self.pos() < self.image.n()) == (self.x <= self.x_max || self.y < self.y_max),
            self.image.n() > 0 ==> self.pos() == self.raw(),
            self.x <= self.x_max ==> self.pos() % self.w() == self.x && self.pos() / self.w() == self.y,
            self.image.n() > 0 && self.x > self.x_max ==> self.pos() % self.w() == 0 && self.pos() / self.w() == self.y + 1,
    {
        let w = self.x_max + 1; let y = self.y as int; let n = self.image.n(); let c = self.image.info.channels as int;
        assert(n >= 0 && c >= 1 ==> n <= n * c) by (nonlinear_arith);
        assert(self.x_max == 0 && self.y_max == 0 && y == 0 ==> w * (self.y_max + 1) == 1 && y * w == 0) by (nonlinear_arith) requires w == self.x_max + 1;
        assert(n > 0 ==> (self.x_max + 1) * (self.y_max + 1) == n);
        assert(w * (self.y_max + 1) == self.y_max * w + w) by (nonlinear_arith);
        assert(0 <= y * w) by (nonlinear_arith) requires 0 <= y, 0 <= w;
        assert(y < self.y_max ==> y * w + w <= self.y_max * w) by (nonlinear_arith) requires 0 <= y <= self.y_max, 0 <= w;
        assert((y + 1) * w == y * w + w) by (nonlinear_arith);
        assert(y <= self.y_max ==> y * w <= self.y_max * w) by (nonlinear_arith) requires 0 <= y <= self.y_max, 0 <= w;
        if self.image.n() > 0 {
            if self.x <= self.x_max { lemma_coords_unique(w, self.x as int, y); } else { lemma_coords_unique(w, 0, y + 1); }
        }
    }
}
@@ fn image::pixel_iter::PixelIter::new
@ requires
image.wf()
@ ensures
r.wf(), r.image == image, r.pos() == 0
@ start
proof {
    assert(image.info.width == 0 || image.info.height == 0 ==> image.info.width * image.info.height == 0) by (nonlinear_arith);
    assert((0int + 1) * (0int + 1) == 1 && 0int * (0int + 1) == 0) by (nonlinear_arith);
    assert(image.info.width > 0 && image.info.height > 0 ==> image.info.width * image.info.height > 0) by (nonlinear_arith);
}
@@ fn image::pixel_iter::<IntoIterator for &'a Image<T>>::into_iter
@ requires
self.wf()
@ ensures
r.wf(), r.image == self, r.pos() == 0
@@ fn image::pixel_iter::<Iterator for PixelIter>::next
@ requires
old(self).wf()
@ ensures
final(self).wf(), final(self).image == old(self).image,
r.is_some() == (old(self).pos() < old(self).image.n()),
r.is_none() ==> final(self).pos() == old(self).pos(),
r.is_some() ==> final(self).pos() == old(self).pos() + 1
    && r->Some_0.0 == old(self).pos() % old(self).w() && r->Some_0.1 == old(self).pos() / old(self).w()
    && r->Some_0.2@ == old(self).image.pxi(old(self).pos())
@ start
proof { self.lemma_pos(); }
@@ fn image::pixel_iter::<Iterator for PixelIter>::size_hint
@ requires
self.wf()
@ ensures
r.0 == self.image.n() - self.pos(), r.1 == Some(r.0)
@ start
proof { self.lemma_pos(); }
