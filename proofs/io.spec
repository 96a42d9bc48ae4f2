@@ mod io
@ items
/// Shapes a lossless encoder is given: gray, gray + alpha, RGB, RGBA.
pub open spec fn writable(channels: int, alpha: bool) -> bool {
    if alpha { channels == 2 || channels == 4 } else { channels == 1 || channels == 3 }
}
@@ fn io::from_color_type
@ ensures
r is Ok == (crate::ext_image::ct_channels(color) > 0),
r is Ok ==> r->Ok_0.0 as int == crate::ext_image::ct_channels(color) && r->Ok_0.1 == crate::ext_image::ct_alpha(color),
r is Err ==> r->Err_0 is UnsupportedColorTypeError
@@ fn io::read
@ requires
crate::ext_image::file_content(filename@).w * crate::ext_image::file_content(filename@).h * crate::ext_image::ct_channels(crate::ext_image::file_content(filename@).color) <= u32::MAX
@ ensures
r is Ok == (crate::ext_image::can_open(filename@) && crate::ext_image::can_decode(filename@) && crate::ext_image::ct_channels(crate::ext_image::file_content(filename@).color) > 0),
r is Ok ==> r->Ok_0.wf() && ({
    let f = crate::ext_image::file_content(filename@);
    r->Ok_0.info.width == f.w && r->Ok_0.info.height == f.h && r->Ok_0.info.channels as int == crate::ext_image::ct_channels(f.color)
        && r->Ok_0.info.alpha == crate::ext_image::ct_alpha(f.color) && r->Ok_0.data@ == f.bytes@
})
@ end
proof {
    let f = crate::ext_image::file_content(filename@);
    assert(width == f.w && height == f.h && channels as int == crate::ext_image::ct_channels(f.color));
    assert(width as int * height as int * channels as int == f.w * f.h * crate::ext_image::ct_channels(f.color));
}
@@ fn io::write
@ requires
input.wf(), writable(input.info.channels as int, input.info.alpha) ==> crate::ext_image::may_write(filename@)
@ ensures
r is Ok == (writable(input.info.channels as int, input.info.alpha) && crate::ext_image::can_save(filename@)),
!writable(input.info.channels as int, input.info.alpha) ==> r->Err_0 is UnsupportedColorTypeError,
r is Ok ==> crate::ext_image::written(filename@, input.info.width, input.info.height, input.info.channels as int, input.info.alpha, input.data@)
