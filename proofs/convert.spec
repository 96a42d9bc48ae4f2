@@ mod convert
@ items
/// The affine map that takes `c0` to `s0` and `c1` to `s1`.
pub open spec fn affine(c: f32, c0: f32, s0: f32, c1: f32, s1: f32) -> f32 {
    fadd(fmul(fdiv(fsub(c, c0), fsub(c1, c0)), fsub(s1, s0)), s0)
}
pub open spec fn to_scale(c: u8, scale: u32) -> f32 { fmul(fdiv(i2f(c as int), 255.0f32), i2f(scale as int)) }
pub open spec fn of_scale(c: f32, scale: u32) -> u8 { f2u8(fround(fmul(fdiv(c, i2f(scale as int)), 255.0f32))) }
@@ fn convert::scale_channels
@ requires
input.wf()
@ ensures
r is Ok && r->Ok_0.info == input.info && r->Ok_0.wf(),
forall|i: int| 0 <= i < input.data@.len() ==> #[trigger] r->Ok_0.data@[i] == affine(input.data@[i], current_min, scaled_min, current_max, scaled_max)
@ start
proof { float_axioms(); lit_axioms(); }
@ closure 0
|$0: f32| -> (r: f32)
    ensures r == affine($0, current_min, scaled_min, current_max, scaled_max),
===
proof { float_axioms(); }
===
@@ fn convert::f32_to_u8_scale
@ requires
input.wf()
@ ensures
r.info == input.info, r.wf(),
forall|i: int| 0 <= i < input.data@.len() ==> #[trigger] r.data@[i] == of_scale(input.data@[i], scale)
@ start
proof { float_axioms(); lit_axioms(); }
@ closure 0
|$0: f32| -> (r: u8)
    ensures r == of_scale($0, scale),
===
proof { float_axioms(); }
===
@@ fn convert::u8_to_f32_scale
@ requires
input.wf()
@ ensures
r.info == input.info, r.wf(),
forall|i: int| 0 <= i < input.data@.len() ==> #[trigger] r.data@[i] == to_scale(input.data@[i], scale)
@ start
proof { float_axioms(); lit_axioms(); }
@ closure 0
|$0: u8| -> (r: f32)
    ensures r == to_scale($0, scale),
===
proof { float_axioms(); }
===
