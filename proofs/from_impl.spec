@@ mod image::from_impl
@ items
pub open spec fn conv_u8_f32(x: u8) -> f32 { i2f(x as int) }
impl crate::rt::RtInto<Image<f32>> for Image<u8> {
    open spec fn into_req(self) -> bool { self.wf() }
    open spec fn into_rel(self, r: Image<f32>) -> bool { r.info == self.info && r.wf() && forall|i: int| 0 <= i < self.data@.len() ==> #[trigger] r.data@[i] == conv_u8_f32(self.data@[i]) }
    fn rt_into(self) -> (r: Image<f32>) { from__From_Image_u8___for_Image_f32__(self) }
}
pub open spec fn conv_u8_f64(x: u8) -> f64 { i2d(x as int) }
impl crate::rt::RtInto<Image<f64>> for Image<u8> {
    open spec fn into_req(self) -> bool { self.wf() }
    open spec fn into_rel(self, r: Image<f64>) -> bool { r.info == self.info && r.wf() && forall|i: int| 0 <= i < self.data@.len() ==> #[trigger] r.data@[i] == conv_u8_f64(self.data@[i]) }
    fn rt_into(self) -> (r: Image<f64>) { from__From_Image_u8___for_Image_f64__(self) }
}
pub open spec fn conv_u16_f64(x: u16) -> f64 { i2d(x as int) }
impl crate::rt::RtInto<Image<f64>> for Image<u16> {
    open spec fn into_req(self) -> bool { self.wf() }
    open spec fn into_rel(self, r: Image<f64>) -> bool { r.info == self.info && r.wf() && forall|i: int| 0 <= i < self.data@.len() ==> #[trigger] r.data@[i] == conv_u16_f64(self.data@[i]) }
    fn rt_into(self) -> (r: Image<f64>) { from__From_Image_u16___for_Image_f64__(self) }
}
pub open spec fn conv_u32_f64(x: u32) -> f64 { i2d(x as int) }
impl crate::rt::RtInto<Image<f64>> for Image<u32> {
    open spec fn into_req(self) -> bool { self.wf() }
    open spec fn into_rel(self, r: Image<f64>) -> bool { r.info == self.info && r.wf() && forall|i: int| 0 <= i < self.data@.len() ==> #[trigger] r.data@[i] == conv_u32_f64(self.data@[i]) }
    fn rt_into(self) -> (r: Image<f64>) { from__From_Image_u32___for_Image_f64__(self) }
}
pub open spec fn conv_u64_f64(x: u64) -> f64 { i2d(x as int) }
impl crate::rt::RtInto<Image<f64>> for Image<u64> {
    open spec fn into_req(self) -> bool { self.wf() }
    open spec fn into_rel(self, r: Image<f64>) -> bool { r.info == self.info && r.wf() && forall|i: int| 0 <= i < self.data@.len() ==> #[trigger] r.data@[i] == conv_u64_f64(self.data@[i]) }
    fn rt_into(self) -> (r: Image<f64>) { from__From_Image_u64___for_Image_f64__(self) }
}
pub open spec fn conv_u128_f64(x: u128) -> f64 { i2d(x as int) }
impl crate::rt::RtInto<Image<f64>> for Image<u128> {
    open spec fn into_req(self) -> bool { self.wf() }
    open spec fn into_rel(self, r: Image<f64>) -> bool { r.info == self.info && r.wf() && forall|i: int| 0 <= i < self.data@.len() ==> #[trigger] r.data@[i] == conv_u128_f64(self.data@[i]) }
    fn rt_into(self) -> (r: Image<f64>) { from__From_Image_u128___for_Image_f64__(self) }
}
pub open spec fn conv_usize_f64(x: usize) -> f64 { i2d(x as int) }
impl crate::rt::RtInto<Image<f64>> for Image<usize> {
    open spec fn into_req(self) -> bool { self.wf() }
    open spec fn into_rel(self, r: Image<f64>) -> bool { r.info == self.info && r.wf() && forall|i: int| 0 <= i < self.data@.len() ==> #[trigger] r.data@[i] == conv_usize_f64(self.data@[i]) }
    fn rt_into(self) -> (r: Image<f64>) { from__From_Image_usize___for_Image_f64__(self) }
}
pub open spec fn conv_f32_f64(x: f32) -> f64 { f2d(x) }
impl crate::rt::RtInto<Image<f64>> for Image<f32> {
    open spec fn into_req(self) -> bool { self.wf() }
    open spec fn into_rel(self, r: Image<f64>) -> bool { r.info == self.info && r.wf() && forall|i: int| 0 <= i < self.data@.len() ==> #[trigger] r.data@[i] == conv_f32_f64(self.data@[i]) }
    fn rt_into(self) -> (r: Image<f64>) { from__From_Image_f32___for_Image_f64__(self) }
}
pub open spec fn conv_f64_u8(x: f64) -> u8 { sat(d2i(dround(x)), 0, 255) as u8 }
impl crate::rt::RtInto<Image<u8>> for Image<f64> {
    open spec fn into_req(self) -> bool { self.wf() }
    open spec fn into_rel(self, r: Image<u8>) -> bool { r.info == self.info && r.wf() && forall|i: int| 0 <= i < self.data@.len() ==> #[trigger] r.data@[i] == conv_f64_u8(self.data@[i]) }
    fn rt_into(self) -> (r: Image<u8>) { from__From_Image_f64___for_Image_u8__(self) }
}
pub open spec fn conv_f32_u8(x: f32) -> u8 { f2u8(fround(x)) }
impl crate::rt::RtInto<Image<u8>> for Image<f32> {
    open spec fn into_req(self) -> bool { self.wf() }
    open spec fn into_rel(self, r: Image<u8>) -> bool { r.info == self.info && r.wf() && forall|i: int| 0 <= i < self.data@.len() ==> #[trigger] r.data@[i] == conv_f32_u8(self.data@[i]) }
    fn rt_into(self) -> (r: Image<u8>) { from__From_Image_f32___for_Image_u8__(self) }
}
/// Widening keeps the value, and narrowing it again gives it back.
pub proof fn lemma_there_and_back()
    ensures
        forall|x: u8| conv_f32_u8(#[trigger] conv_u8_f32(x)) == x,
        forall|x: u8| conv_f64_u8(#[trigger] conv_u8_f64(x)) == x,
{ float_int_axioms(); }
@@ fn image::from_impl::<From<Image<u8>> for Image<f32>>::from
@ requires
img.wf()
@ ensures
r.info == img.info, r.wf(), forall|i: int| 0 <= i < img.data@.len() ==> #[trigger] r.data@[i] == conv_u8_f32(img.data@[i])
@ closure 0
|$0: u8| -> (r: f32)
    ensures r == conv_u8_f32($0),
===
===
@@ fn image::from_impl::<From<Image<u8>> for Image<f64>>::from
@ requires
img.wf()
@ ensures
r.info == img.info, r.wf(), forall|i: int| 0 <= i < img.data@.len() ==> #[trigger] r.data@[i] == conv_u8_f64(img.data@[i])
@ closure 0
|$0: u8| -> (r: f64)
    ensures r == conv_u8_f64($0),
===
===
@@ fn image::from_impl::<From<Image<u16>> for Image<f64>>::from
@ requires
img.wf()
@ ensures
r.info == img.info, r.wf(), forall|i: int| 0 <= i < img.data@.len() ==> #[trigger] r.data@[i] == conv_u16_f64(img.data@[i])
@ closure 0
|$0: u16| -> (r: f64)
    ensures r == conv_u16_f64($0),
===
===
@@ fn image::from_impl::<From<Image<u32>> for Image<f64>>::from
@ requires
img.wf()
@ ensures
r.info == img.info, r.wf(), forall|i: int| 0 <= i < img.data@.len() ==> #[trigger] r.data@[i] == conv_u32_f64(img.data@[i])
@ closure 0
|$0: u32| -> (r: f64)
    ensures r == conv_u32_f64($0),
===
===
@@ fn image::from_impl::<From<Image<u64>> for Image<f64>>::from
@ requires
img.wf()
@ ensures
r.info == img.info, r.wf(), forall|i: int| 0 <= i < img.data@.len() ==> #[trigger] r.data@[i] == conv_u64_f64(img.data@[i])
@ closure 0
|$0: u64| -> (r: f64)
    ensures r == conv_u64_f64($0),
===
===
@@ fn image::from_impl::<From<Image<u128>> for Image<f64>>::from
@ requires
img.wf()
@ ensures
r.info == img.info, r.wf(), forall|i: int| 0 <= i < img.data@.len() ==> #[trigger] r.data@[i] == conv_u128_f64(img.data@[i])
@ closure 0
|$0: u128| -> (r: f64)
    ensures r == conv_u128_f64($0),
===
===
@@ fn image::from_impl::<From<Image<usize>> for Image<f64>>::from
@ requires
img.wf()
@ ensures
r.info == img.info, r.wf(), forall|i: int| 0 <= i < img.data@.len() ==> #[trigger] r.data@[i] == conv_usize_f64(img.data@[i])
@ closure 0
|$0: usize| -> (r: f64)
    ensures r == conv_usize_f64($0),
===
===
@@ fn image::from_impl::<From<Image<f32>> for Image<f64>>::from
@ requires
img.wf()
@ ensures
r.info == img.info, r.wf(), forall|i: int| 0 <= i < img.data@.len() ==> #[trigger] r.data@[i] == conv_f32_f64(img.data@[i])
@ closure 0
|$0: f32| -> (r: f64)
    ensures r == conv_f32_f64($0),
===
===
@@ fn image::from_impl::<From<Image<f64>> for Image<u8>>::from
@ requires
img.wf()
@ ensures
r.info == img.info, r.wf(), forall|i: int| 0 <= i < img.data@.len() ==> #[trigger] r.data@[i] == conv_f64_u8(img.data@[i])
@ closure 0
|$0: f64| -> (r: u8)
    ensures r == conv_f64_u8($0),
===
===
@@ fn image::from_impl::<From<Image<f32>> for Image<u8>>::from
@ requires
img.wf()
@ ensures
r.info == img.info, r.wf(), forall|i: int| 0 <= i < img.data@.len() ==> #[trigger] r.data@[i] == conv_f32_u8(img.data@[i])
@ closure 0
|$0: f32| -> (r: u8)
    ensures r == conv_f32_u8($0),
===
===
