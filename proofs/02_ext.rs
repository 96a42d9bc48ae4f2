/// Contracts assumed for the `image` crate (decoding, encoding).
pub mod ext_image {
use vstd::prelude::*;
use crate::spec::*;
pub struct IoErr { }
pub struct ImgErr { }
pub enum ColorType { L8, La8, Rgb8, Rgba8, L16, La16, Rgb16, Rgba16, Bgr8, Bgra8, Other }
/// A decoded image as the `image` crate reports it.
pub struct DynamicImage { pub w: u32, pub h: u32, pub color: ColorType, pub bytes: Vec<u8> }
pub open spec fn ct_channels(c: ColorType) -> int {
    match c { ColorType::L8 => 1, ColorType::La8 => 2, ColorType::Rgb8 => 3, ColorType::Bgr8 => 3, ColorType::Rgba8 => 4, ColorType::Bgra8 => 4, _ => 0 }
}
pub open spec fn ct_alpha(c: ColorType) -> bool {
    match c { ColorType::La8 => true, ColorType::Rgba8 => true, ColorType::Bgra8 => true, _ => false }
}
/// What decoding the named file yields.
pub uninterp spec fn file_content(name: Seq<char>) -> DynamicImage;
/// The file can be opened, decoded, written.
pub uninterp spec fn can_open(name: Seq<char>) -> bool;
pub uninterp spec fn can_decode(name: Seq<char>) -> bool;
pub uninterp spec fn can_save(name: Seq<char>) -> bool;
/// The caller may touch the named file.
pub uninterp spec fn may_write(name: Seq<char>) -> bool;
/// The named file holds these bytes with this shape and this number of channels (last one alpha).
pub uninterp spec fn written(name: Seq<char>, w: u32, h: u32, channels: int, alpha: bool, data: Seq<u8>) -> bool;
pub trait GenericImageView {
    fn dimensions(&self) -> (u32, u32);
}
impl DynamicImage {
    pub fn dimensions(&self) -> (r: (u32, u32)) ensures r.0 == self.w, r.1 == self.h { (self.w, self.h) }
    #[verifier::external_body]
    pub fn color(&self) -> (r: ColorType) ensures r == self.color { unimplemented!() }
    pub fn as_bytes(&self) -> (r: &[u8]) ensures r@ == self.bytes@ { self.bytes.as_slice() }
}
pub mod io {
    use vstd::prelude::*;
    use super::*;
    pub struct Reader { pub name: Ghost<Seq<char>> }
    impl Reader {
        #[verifier::external_body]
        pub fn open(name: &str) -> (r: Result<Reader, IoErr>)
            ensures r.is_ok() == can_open(name@), r.is_ok() ==> r->Ok_0.name@ == name@,
        { unimplemented!() }
        #[verifier::external_body]
        pub fn decode(self) -> (r: Result<DynamicImage, ImgErr>)
            ensures r.is_ok() == can_decode(self.name@), r.is_ok() ==> r->Ok_0 == file_content(self.name@)
                && (ct_channels(r->Ok_0.color) > 0 ==> r->Ok_0.bytes@.len() == r->Ok_0.w * r->Ok_0.h * ct_channels(r->Ok_0.color)),
        { unimplemented!() }
    }
}
pub trait PixelKind {
    spec fn pk_channels() -> int;
    spec fn pk_alpha() -> bool;
}
pub struct Luma<T> { pub t: Ghost<Option<T>> }
pub struct LumaA<T> { pub t: Ghost<Option<T>> }
pub struct Rgb<T> { pub t: Ghost<Option<T>> }
pub struct Rgba<T> { pub t: Ghost<Option<T>> }
pub struct Bgr<T> { pub t: Ghost<Option<T>> }
pub struct Bgra<T> { pub t: Ghost<Option<T>> }
impl PixelKind for Luma<u8> { open spec fn pk_channels() -> int { 1 } open spec fn pk_alpha() -> bool { false } }
impl PixelKind for LumaA<u8> { open spec fn pk_channels() -> int { 2 } open spec fn pk_alpha() -> bool { true } }
impl PixelKind for Rgb<u8> { open spec fn pk_channels() -> int { 3 } open spec fn pk_alpha() -> bool { false } }
impl PixelKind for Rgba<u8> { open spec fn pk_channels() -> int { 4 } open spec fn pk_alpha() -> bool { true } }
/// The encoder swaps the channels: not the data as given.
impl PixelKind for Bgr<u8> { open spec fn pk_channels() -> int { -3 } open spec fn pk_alpha() -> bool { false } }
impl PixelKind for Bgra<u8> { open spec fn pk_channels() -> int { -4 } open spec fn pk_alpha() -> bool { true } }
#[verifier::reject_recursive_types(P)]
#[verifier::reject_recursive_types(C)]
pub struct ImageBuffer<P, C> { pub w: u32, pub h: u32, pub data: C, pub p: Ghost<Option<P>> }
impl<'a, P: PixelKind> ImageBuffer<P, &'a [u8]> {
    #[verifier::external_body]
    pub fn from_raw(w: u32, h: u32, data: &'a [u8]) -> (r: Option<ImageBuffer<P, &'a [u8]>>)
        ensures
            r.is_some() == (w * h * P::pk_channels() <= data@.len()),
            r.is_some() ==> r->Some_0.w == w && r->Some_0.h == h && r->Some_0.data@ == data@,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn save(&self, name: &str) -> (r: Result<(), ImgErr>)
        requires may_write(name@),
        ensures r.is_ok() == can_save(name@), r.is_ok() ==> written(name@, self.w, self.h, P::pk_channels(), P::pk_alpha(), self.data@),
    { unimplemented!() }
}
}
