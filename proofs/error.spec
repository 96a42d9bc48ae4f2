@@ mod error
@ items
#[verifier::external]
impl core::fmt::Debug for ImgProcError { fn fmt(&self, _f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { Ok(()) } }
impl From<crate::ext_image::IoErr> for ImgIoError { #[verifier::external_body] fn from(_e: crate::ext_image::IoErr) -> Self { unimplemented!() } }
impl From<crate::ext_image::ImgErr> for ImgIoError { #[verifier::external_body] fn from(_e: crate::ext_image::ImgErr) -> Self { unimplemented!() } }
/// An invalid-argument error.
pub open spec fn arg_err<T>(r: Result<T, ImgProcError>) -> bool { r is Err && r->Err_0 is InvalidArgError }
@@ fn error::messages::check_odd
@ requires
nrem_ok::<T>(val, lit_spec::<T>(2)), n_ok::<T>()
@ ensures
neq(nrem(val, lit_spec::<T>(2)), lit_spec::<T>(0)) ==> crate::error::arg_err(r),
!neq(nrem(val, lit_spec::<T>(2)), lit_spec::<T>(0)) ==> r is Ok
@@ fn error::messages::check_even
@ requires
nrem_ok::<T>(val, lit_spec::<T>(2)), n_ok::<T>()
@ ensures
!neq(nrem(val, lit_spec::<T>(2)), lit_spec::<T>(0)) ==> crate::error::arg_err(r),
neq(nrem(val, lit_spec::<T>(2)), lit_spec::<T>(0)) ==> r is Ok
@@ fn error::messages::check_non_neg
@ requires
n_ok::<T>()
@ ensures
nlt(val, lit_spec::<T>(0)) ==> crate::error::arg_err(r),
!nlt(val, lit_spec::<T>(0)) ==> r is Ok
@@ fn error::messages::check_equal
@ requires
peq_ok::<T>()
@ ensures
!peq(val_1, val_2) ==> crate::error::arg_err(r),
peq(val_1, val_2) ==> r is Ok
@@ fn error::messages::check_square
@ ensures
!feq(frem(fsqrt(val), 1.0), 0.0) ==> crate::error::arg_err(r),
feq(frem(fsqrt(val), 1.0), 0.0) ==> r is Ok
@ start
proof { float_axioms(); }
@@ fn error::messages::check_in_range
@ requires
n_ok::<T>()
@ ensures
nlt(val, min) || ngt(val, max) ==> crate::error::arg_err(r),
!(nlt(val, min) || ngt(val, max)) ==> r is Ok
@@ fn error::messages::check_grayscale
@ requires
input.info.channels >= 1
@ ensures
input.info.channels != (if input.info.alpha { 2int } else { 1int }) ==> crate::error::arg_err(r),
input.info.channels == (if input.info.alpha { 2int } else { 1int }) ==> r is Ok
