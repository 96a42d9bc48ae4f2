@@ mod image::sub_image
@ items
impl<'a, T: Number> SubImage<'a, T> {
    pub open spec fn n(&self) -> int { self.info.width * self.info.height }
    /// One slice of `channels` values per position, in row-major order.
    pub open spec fn wf(&self) -> bool {
        &&& self.info.width * self.info.height <= u32::MAX
        &&& self.data@.len() == self.n()
        &&& forall|i: int| 0 <= i < self.data@.len() ==> (#[trigger] self.data@[i])@.len() == self.info.channels
    }
    pub open spec fn pxi(&self, i: int) -> Seq<T> { self.data@[i]@ }
    pub open spec fn px(&self, x: int, y: int) -> Seq<T> { self.data@[y * self.info.width + x]@ }
}
impl<T: Number> vstd::std_specs::core::IndexSpecImpl<usize> for SubImage<'_, T> {
    open spec fn index_req(&self, i: &usize) -> bool { *i < self.data@.len() }
}
@@ fn image::sub_image::SubImage::new
@ ensures
r.info.width == width, r.info.height == height, r.info.channels == channels, r.info.alpha == alpha, r.data@ == data@
@@ fn image::sub_image::SubImage::data
@ ensures
r@ == self.data@
@@ fn image::sub_image::SubImage::to_vec
@ requires
self.wf()
@ ensures
r@ == flat(slices_view(self.data@))
@ start
proof { clone_axiom::<T>(); }
@ loop 0
data@ == flat(slices_view(self.data@).take($i as int)),
@ loopend 0
proof { lemma_flat_step(slices_view(self.data@), $i - 1); }
@ end
proof { assert(slices_view(self.data@).take(self.data@.len() as int) =~= slices_view(self.data@)); }
@@ fn image::sub_image::<BaseImage for SubImage>::info
@ ensures
r == self.info
@@ fn image::sub_image::<BaseImage for SubImage>::get_pixel
@ requires
self.wf(), panic_ok() || (x < self.info.width && y < self.info.height)
@ ensures
x < self.info.width, y < self.info.height,
r@ == self.px(x as int, y as int)
@ start
proof { if x < self.info.width && y < self.info.height { lemma_idx(self.info.width as int, self.info.height as int, x as int, y as int); } }
@@ fn image::sub_image::<Index for SubImage>::index
@ ensures
r@ == self.data@[i as int]@
