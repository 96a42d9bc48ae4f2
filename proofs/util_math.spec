@@ fn util::math::vector_mul
@ requires
input@.len() <= 0xffff_ffff, mat@.len() == input@.len() * input@.len() ==> dot_ok(mat@, input@)
@ ensures
mat@.len() != input@.len() * input@.len() ==> crate::error::arg_err(r),
mat@.len() == input@.len() * input@.len() ==> r is Ok && r->Ok_0@ == mat_vec(mat@, input@)
@ start
proof { clone_axiom::<T>(); assert(input@.len() * input@.len() <= usize::MAX) by (nonlinear_arith) requires input@.len() <= 0xffff_ffff; }
@ loop 0
output@.len() == input@.len(), mat@.len() == input@.len() * input@.len(),
forall|k: int| 0 <= k < $i ==> #[trigger] output@[k] == dot(mat@, input@, k, input@.len() as int),
forall|k: int| $i <= k < output@.len() ==> #[trigger] output@[k] == lit_spec::<T>(0)
@ loop 1
output@.len() == input@.len(), mat@.len() == input@.len() * input@.len(),
forall|k: int| 0 <= k < i ==> #[trigger] output@[k] == dot(mat@, input@, k, input@.len() as int),
output@[i as int] == dot(mat@, input@, i as int, $i as int),
forall|k: int| i < k < output@.len() ==> #[trigger] output@[k] == lit_spec::<T>(0)
@ loopstart 0
proof { lemma_dot_len(mat@, input@, i as int, 0); }
@ loopstart 1
proof { lemma_dot_len(mat@, input@, i as int, j as int); assert(nmul_ok::<T>(mat@[input@.len() * i + j], input@[j as int])); }
@ end
proof { assert(output@ =~= mat_vec(mat@, input@)); }
@@ fn util::math::vector_mul_mut
@ requires
input@.len() <= 0xffff_ffff, mat@.len() == input@.len() * input@.len() ==> dot_ok(mat@, input@)
@ ensures
mat@.len() != input@.len() * input@.len() ==> crate::error::arg_err(r) && final(output)@ == old(output)@,
mat@.len() == input@.len() * input@.len() ==> r is Ok && final(output)@ == mat_vec(mat@, input@)
@ start
proof { clone_axiom::<T>(); assert(input@.len() * input@.len() <= usize::MAX) by (nonlinear_arith) requires input@.len() <= 0xffff_ffff; }
@ loop 0
output@.len() == $i, forall|k: int| 0 <= k < output@.len() ==> #[trigger] output@[k] == lit_spec::<T>(0)
@ loop 1
output@.len() == input@.len(), mat@.len() == input@.len() * input@.len(),
forall|k: int| 0 <= k < $i ==> #[trigger] output@[k] == dot(mat@, input@, k, input@.len() as int),
forall|k: int| $i <= k < output@.len() ==> #[trigger] output@[k] == lit_spec::<T>(0)
@ loop 2
output@.len() == input@.len(), mat@.len() == input@.len() * input@.len(),
forall|k: int| 0 <= k < i ==> #[trigger] output@[k] == dot(mat@, input@, k, input@.len() as int),
output@[i as int] == dot(mat@, input@, i as int, $i as int),
forall|k: int| i < k < output@.len() ==> #[trigger] output@[k] == lit_spec::<T>(0)
@ loopstart 1
proof { lemma_dot_len(mat@, input@, i as int, 0); }
@ loopstart 2
proof { lemma_dot_len(mat@, input@, i as int, j as int); assert(nmul_ok::<T>(mat@[input@.len() * i + j], input@[j as int])); }
@ end
proof { assert(output@ =~= mat_vec(mat@, input@)); }
@@ fn util::math::max_3
@ ensures
r == x || r == y || r == z,
!nan(x) && !nan(y) && !nan(z) ==> fle(x, r) && fle(y, r) && fle(z, r)
@ start
proof { float_axioms(); lemma_order(); }
@@ fn util::math::min_3
@ ensures
r == x || r == y || r == z,
!nan(x) && !nan(y) && !nan(z) ==> fle(r, x) && fle(r, y) && fle(r, z)
@ start
proof { float_axioms(); lemma_order(); }
@@ fn util::math::max_4
@ ensures
r == w || r == x || r == y || r == z,
!nan(w) && !nan(x) && !nan(y) && !nan(z) ==> fle(w, r) && fle(x, r) && fle(y, r) && fle(z, r)
@ start
proof { float_axioms(); lemma_order(); }
@@ fn util::math::min_4
@ ensures
r == w || r == x || r == y || r == z,
!nan(w) && !nan(x) && !nan(y) && !nan(z) ==> fle(r, w) && fle(r, x) && fle(r, y) && fle(r, z)
@ start
proof { float_axioms(); lemma_order(); }
@@ fn util::math::apply_1d_kernel @seq
@ requires
input.wf()
@ ensures
kernel@.len() % 2 == 0 || kernel@.len() != input.n() ==> crate::error::arg_err(r),
kernel@.len() % 2 == 1 && kernel@.len() == input.n() ==> r is Ok && final(output)@ == wpix(kernel@, slices_view(input.data@), input.info.channels as int)
@ start
proof { float_axioms(); lit_axioms(); }
@ loop 0
output@.len() == $i, forall|k: int| 0 <= k < output@.len() ==> #[trigger] output@[k] == 0.0f32
@ loop 1
output@.len() == input.info.channels, forall|k: int| 0 <= k < output@.len() ==> #[trigger] output@[k] == wsum(kernel@, slices_view(input.data@), k, $i as int)
@ loop 2
output@.len() == input.info.channels, forall|k: int| 0 <= k < $i ==> #[trigger] output@[k] == wsum(kernel@, slices_view(input.data@), k, i + 1),
forall|k: int| $i <= k < output@.len() ==> #[trigger] output@[k] == wsum(kernel@, slices_view(input.data@), k, i as int)
@ end
proof { assert(output@ =~= wpix(kernel@, slices_view(input.data@), input.info.channels as int)); }
@@ fn util::math::apply_1d_kernel @rayon
@ requires
input.wf()
@ ensures
kernel@.len() % 2 == 0 || kernel@.len() != input.n() ==> crate::error::arg_err(r),
kernel@.len() % 2 == 1 && kernel@.len() == input.n() ==> r is Ok && r->Ok_0@ == wpix(kernel@, slices_view(input.data@), input.info.channels as int)
@ start
proof { float_axioms(); lit_axioms(); clone_axiom::<f32>(); }
@ loop 0
output@.len() == input.info.channels, forall|k: int| 0 <= k < output@.len() ==> #[trigger] output@[k] == wsum(kernel@, slices_view(input.data@), k, $i as int)
@ loop 1
output@.len() == input.info.channels, forall|k: int| 0 <= k < $i ==> #[trigger] output@[k] == wsum(kernel@, slices_view(input.data@), k, i + 1),
forall|k: int| $i <= k < output@.len() ==> #[trigger] output@[k] == wsum(kernel@, slices_view(input.data@), k, i as int)
@ end
proof { assert(output@ =~= wpix(kernel@, slices_view(input.data@), input.info.channels as int)); }
@@ fn util::math::apply_2d_kernel @seq
@ requires
input.wf()
@ ensures
kernel@.len() % 2 == 0 || kernel@.len() != input.n() ==> crate::error::arg_err(r),
kernel@.len() % 2 == 1 && kernel@.len() == input.n() ==> r is Ok && final(output)@ == wpix(kernel@, slices_view(input.data@), input.info.channels as int)
@ start
proof { float_axioms(); lit_axioms(); assert(input.info.width * input.info.height <= usize::MAX); assert(input.info.width * input.info.height == input.info.height * input.info.width) by (nonlinear_arith); }
@ loop 0
output@.len() == $i, forall|k: int| 0 <= k < output@.len() ==> #[trigger] output@[k] == 0.0f32
@ loop 1
output@.len() == input.info.channels, forall|k: int| 0 <= k < output@.len() ==> #[trigger] output@[k] == wsum(kernel@, slices_view(input.data@), k, $i * width)
@ loopstart 1
proof { lemma_nn($i - 1, width as int); assert($i * width == ($i - 1) * width + width) by (nonlinear_arith); }
@ loop 2
output@.len() == input.info.channels, forall|k: int| 0 <= k < output@.len() ==> #[trigger] output@[k] == wsum(kernel@, slices_view(input.data@), k, y * width + $i)
@ loopstart 2
proof { lemma_idx(width as int, height as int, x as int, y as int); }
@ loop 3
output@.len() == input.info.channels, forall|k: int| 0 <= k < $i ==> #[trigger] output@[k] == wsum(kernel@, slices_view(input.data@), k, index + 1),
forall|k: int| $i <= k < output@.len() ==> #[trigger] output@[k] == wsum(kernel@, slices_view(input.data@), k, index as int)
@ end
proof { assert(output@ =~= wpix(kernel@, slices_view(input.data@), input.info.channels as int)); }
@@ fn util::math::apply_2d_kernel @rayon
@ requires
input.wf()
@ ensures
kernel@.len() % 2 == 0 || kernel@.len() != input.n() ==> crate::error::arg_err(r),
kernel@.len() % 2 == 1 && kernel@.len() == input.n() ==> r is Ok && r->Ok_0@ == wpix(kernel@, slices_view(input.data@), input.info.channels as int)
@ start
proof { float_axioms(); lit_axioms(); clone_axiom::<f32>(); assert(input.info.width * input.info.height <= usize::MAX); assert(input.info.width * input.info.height == input.info.height * input.info.width) by (nonlinear_arith); }
@ loop 0
output@.len() == input.info.channels, forall|k: int| 0 <= k < output@.len() ==> #[trigger] output@[k] == wsum(kernel@, slices_view(input.data@), k, $i * width)
@ loopstart 0
proof { lemma_nn($i - 1, width as int); assert($i * width == ($i - 1) * width + width) by (nonlinear_arith); }
@ loop 1
output@.len() == input.info.channels, forall|k: int| 0 <= k < output@.len() ==> #[trigger] output@[k] == wsum(kernel@, slices_view(input.data@), k, y * width + $i)
@ loopstart 1
proof { lemma_idx(width as int, height as int, x as int, y as int); }
@ loop 2
output@.len() == input.info.channels, forall|k: int| 0 <= k < $i ==> #[trigger] output@[k] == wsum(kernel@, slices_view(input.data@), k, index + 1),
forall|k: int| $i <= k < output@.len() ==> #[trigger] output@[k] == wsum(kernel@, slices_view(input.data@), k, index as int)
@ end
proof { assert(output@ =~= wpix(kernel@, slices_view(input.data@), input.info.channels as int)); }
@@ fn util::math::distance
@ ensures
r == dist(x_1 as int, y_1 as int, x_2 as int, y_2 as int)
@ start
proof { float_axioms(); }
@@ fn util::math::gaussian_fn
@ ensures
flt(sigma, 0.0f32) ==> crate::error::arg_err(r),
!flt(sigma, 0.0f32) ==> r is Ok && r->Ok_0 == gauss(x, sigma)
@ start
proof { float_axioms(); lit_axioms(); }
@@ fn util::math::cubic_weighting_fn
@ ensures
r == cubic_w(x)
@ start
proof { float_axioms(); }
@@ fn util::math::xyz_to_lab_fn
@ ensures
r == lab_f(num)
@ start
proof { float_axioms(); }
@@ fn util::math::lab_to_xyz_fn
@ ensures
r == lab_finv(num)
@ start
proof { float_axioms(); }
@@ fn util::math::clamp_zero
@ ensures
r == clamp0(x)
@ start
proof { float_axioms(); }
@@ fn util::math::sinc_norm
@ ensures
r == sinc(x)
@ start
proof { float_axioms(); }
@@ fn util::math::lanczos_kernel
@ ensures
r == lanczos(x, a)
@ start
proof { float_axioms(); }
