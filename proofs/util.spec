@@ fn util::xyz_tristimulus_vals
@ ensures
r == white_vals(*ref_white)
@@ fn util::generate_lookup_table
@ requires
forall|i: u8| #[trigger] f.requires((i,))
@ ensures
forall|i: int| 0 <= i < 256 ==> f.ensures((i as u8,), #[trigger] final(table)@[i])
@ loop 0
forall|i: int| 0 <= i < $i ==> f.ensures((i as u8,), #[trigger] table@[i])
@@ fn util::generate_gaussian_kernel
@ requires
size % 2 == 1 ==> size <= 46340
@ ensures
size % 2 == 0 ==> crate::error::arg_err(r),
size % 2 == 1 ==> r is Ok && r->Ok_0@ == gauss_k(size as int, sigma)
@ start
proof {
    float_axioms(); lit_axioms(); clone_axiom::<f32>();
    if size % 2 == 1 { assert(0 <= size * size <= 0x7fff_ffff) by (nonlinear_arith) requires 1 <= size <= 46340; }
}
@ loop 0
filter@.len() == size * size,
forall|p: int, q: int| 0 <= p < size && 0 <= q < size && imin(p, q) < $i ==> #[trigger] at2(filter@, size as int, p, q) == gauss_at(size as int, sigma, p, q)
@ loop 1
filter@.len() == size * size,
forall|p: int, q: int| 0 <= p < size && 0 <= q < size && (imin(p, q) < i || imin(p, q) == i && imax(p, q) < $i) ==> #[trigger] at2(filter@, size as int, p, q) == gauss_at(size as int, sigma, p, q)
@ loopstart 1
proof {
    lemma_coords_2d(size as int, size as int, j as int, i as int); lemma_coords_2d(size as int, size as int, i as int, j as int);
    lemma_offset(size as int, i as int, j as int);
    lemma_idx(size as int, size as int, j as int, i as int); lemma_idx(size as int, size as int, i as int, j as int);
}
let ghost f0 = filter@;
@ loopend 1
proof {
    let n = size as int;
    assert forall|p: int, q: int| 0 <= p < size && 0 <= q < size && (imin(p, q) < i || imin(p, q) == i && imax(p, q) < $i) implies #[trigger] at2(filter@, n, p, q) == gauss_at(n, sigma, p, q) by {
        if (p == i && q == j || p == j && q == i) && i <= j {
            assert(at2(filter@, n, p, q) == gauss_at(n, sigma, i as int, j as int));
        } else {
            assert(at2(f0, n, p, q) == gauss_at(n, sigma, p, q));
            assert(0 <= q + p * n < n * n) by { lemma_idx(n, n, q, p); }
            assert(p * n + q != i * n + j || i > j);
            assert(p * n + q != j * n + i || i > j);
        }
    }
}
@ end
proof {
    assert forall|t: int| 0 <= t < size * size implies #[trigger] filter@[t] == gauss_k(size as int, sigma)[t] by {
        lemma_coords_in(size as int, size as int, t);
        assert(at2(filter@, size as int, t / size as int, t % size as int) == gauss_at(size as int, sigma, t / size as int, t % size as int));
    }
    assert(filter@ =~= gauss_k(size as int, sigma));
}
@@ fn util::generate_log_kernel
@ requires
size % 2 == 1 ==> size <= 46340
@ ensures
size % 2 == 0 ==> crate::error::arg_err(r),
size % 2 == 1 ==> r is Ok && r->Ok_0@ == log_k(size as int, sigma)
@ start
proof {
    float_axioms(); lit_axioms(); clone_axiom::<f32>();
    if size % 2 == 1 { assert(0 <= size * size <= 0x7fff_ffff) by (nonlinear_arith) requires 1 <= size <= 46340; }
}
@ loop 0
filter@.len() == size * size,
forall|p: int, q: int| 0 <= p < size && 0 <= q < size && imin(p, q) < $i ==> #[trigger] at2(filter@, size as int, p, q) == log_at(size as int, sigma, p, q)
@ loop 1
filter@.len() == size * size,
forall|p: int, q: int| 0 <= p < size && 0 <= q < size && (imin(p, q) < i || imin(p, q) == i && imax(p, q) < $i) ==> #[trigger] at2(filter@, size as int, p, q) == log_at(size as int, sigma, p, q)
@ loopstart 1
proof {
    lemma_coords_2d(size as int, size as int, j as int, i as int); lemma_coords_2d(size as int, size as int, i as int, j as int);
    lemma_offset(size as int, i as int, j as int);
    lemma_idx(size as int, size as int, j as int, i as int); lemma_idx(size as int, size as int, i as int, j as int);
}
let ghost f0 = filter@;
@ loopend 1
proof {
    let n = size as int;
    assert forall|p: int, q: int| 0 <= p < size && 0 <= q < size && (imin(p, q) < i || imin(p, q) == i && imax(p, q) < $i) implies #[trigger] at2(filter@, n, p, q) == log_at(n, sigma, p, q) by {
        if (p == i && q == j || p == j && q == i) && i <= j {
            assert(at2(filter@, n, p, q) == log_at(n, sigma, i as int, j as int));
        } else {
            assert(at2(f0, n, p, q) == log_at(n, sigma, p, q));
            assert(0 <= q + p * n < n * n) by { lemma_idx(n, n, q, p); }
            assert(p * n + q != i * n + j || i > j);
            assert(p * n + q != j * n + i || i > j);
        }
    }
}
@ end
proof {
    assert forall|t: int| 0 <= t < size * size implies #[trigger] filter@[t] == log_k(size as int, sigma)[t] by {
        lemma_coords_in(size as int, size as int, t);
        assert(at2(filter@, size as int, t / size as int, t % size as int) == log_at(size as int, sigma, t / size as int, t % size as int));
    }
    assert(filter@ =~= log_k(size as int, sigma));
}
@@ fn util::generate_spatial_mat
@ attr
#[verifier::spinoff_prover]
#[verifier::rlimit(100)]
@ requires
size % 2 == 1, size <= 65535
@ ensures
flt(spatial, 0.0f32) ==> crate::error::arg_err(r),
!flt(spatial, 0.0f32) ==> r is Ok && r->Ok_0@ == spatial_k(size as int, spatial)
@ start
proof {
    float_axioms(); lit_axioms(); clone_axiom::<f32>();
    assert(0 <= size * size <= u32::MAX) by (nonlinear_arith) requires 1 <= size <= 65535;
}
let ghost n: int = size as int;
@ loopbefore 0
proof { float_sym_axioms(); lemma_ring_init(mat@, n, spatial); }
@ loop 0
mat@.len() == n * n, n * n > 0,
flt(spatial, 0.0f32) ==> $i == 0 && mat@[0] == 0.0f32,
ring_inv(mat@, n, spatial, $i as int, 0)
@ loop 1
mat@.len() == n * n,
flt(spatial, 0.0f32) ==> y == 0 && $i == 0 && mat@[0] == 0.0f32,
ring_inv(mat@, n, spatial, y as int, $i as int)
@ loopstart 1
let ghost m0 = mat@;
proof {
    let (yi, xi) = (y as int, x as int);
    lemma_idx(n, n, xi, yi); lemma_idx(n, n, yi, xi); lemma_idx(n, n, n - 1 - xi, n - 1 - yi); lemma_idx(n, n, n - 1 - yi, n - 1 - xi);
    lemma_idx(n, n, n - 1 - xi, yi); lemma_idx(n, n, n - 1 - yi, xi); lemma_idx(n, n, xi, n - 1 - yi); lemma_idx(n, n, yi, n - 1 - xi);
    if x == y { assert(xi * n == yi * n); assert((n - 1 - xi) * n == (n - 1 - yi) * n); }
    if flt(spatial, 0.0f32) { assert(0 * n == 0); assert(feq(mat@[0], 0.0f32)); }
}
@ loopend 1
proof {
    let (yi, xi) = (y as int, x as int);
    if feq(m0[ix(n, yi, xi)], 0.0f32) {
        assert(ring_set(m0, mat@, n, yi, xi, spatial_at(n, spatial, yi, xi)));
        lemma_ring_step(m0, mat@, n, spatial, yi, xi);
    } else { lemma_ring_skip(m0, n, spatial, yi, xi); }
}
@ loopend 0
proof { lemma_ring_row(mat@, n, spatial, y as int); }
@ end
proof { lemma_ring_done(mat@, n, spatial); }
@@ fn util::generate_summed_area_table
@ requires
input.wf(), exact_ops::<T>(), crate::image::summable(input)
@ ensures
r.info == input.info, r.wf(), crate::image::table_of(&r, crate::image::vals(input)), crate::image::sums_fit(&r)
@ start
proof { clone_axiom::<T>(); lemma_coords_all(input.info.width as int, input.info.height as int); }
@ loop 0
output.info == input.info, output.wf(),
forall|u: int, v: int, k: int| 0 <= u < width && 0 <= v < $i && 0 <= k < channels ==> is_int(#[trigger] output.px(u, v)[k]) && iv(output.px(u, v)[k]) == rect(chan_of(crate::image::vals(input), k), 0, u + 1, 0, v + 1)
@ loop 1
output.info == input.info, output.wf(),
forall|u: int, v: int, k: int| (0 <= u < width && 0 <= v < y || 0 <= u < $i && v == y) && 0 <= k < channels ==> is_int(#[trigger] output.px(u, v)[k]) && iv(output.px(u, v)[k]) == rect(chan_of(crate::image::vals(input), k), 0, u + 1, 0, v + 1)
@ loop 2
p_out@.len() == $i,
forall|k: int| 0 <= k < $i ==> is_int(#[trigger] p_out@[k]) && iv(p_out@[k]) == rect(chan_of(crate::image::vals(input), k), 0, x + 1, 0, y + 1)
@ loopstart 2
proof {
    let f = chan_of(crate::image::vals(input), c as int);
    lemma_sat_step(f, input.info.width as int, input.info.height as int, x as int, y as int);
    lemma_rect_empty(f, 0, y as int); lemma_rect_empty(f, 0, y + 1);
    assert(is_int(input.px(x as int, y as int)[c as int]));
    assert(f(x as int, y as int) == iv(p_in@[c as int]));
    assert(x > 0 ==> is_int(p_left@[c as int]) && iv(p_left@[c as int]) == rect(f, 0, x as int, 0, y + 1));
    assert(y > 0 ==> is_int(p_top@[c as int]) && iv(p_top@[c as int]) == rect(f, 0, x + 1, 0, y as int));
    assert(x > 0 && y > 0 ==> is_int(p_diag@[c as int]) && iv(p_diag@[c as int]) == rect(f, 0, x as int, 0, y as int));
    if int_min::<T>() == 0 { assert(nonneg(f, width as int, height as int)); lemma_sat_step_nn(f, input.info.width as int, input.info.height as int, x as int, y as int); }
}
@ before set_pixel 0
proof { assert(p_out@.len() == channels); }
@ end
proof { assert(crate::image::fits_with(&output, crate::image::vals(input))); }
@@ fn util::rectangular_intensity_sum
@ requires
summed_area_table.wf(), exact_ops::<T>(), crate::image::sums_fit(summed_area_table), x_0 <= x_1 < summed_area_table.info.width, y_0 <= y_1 < summed_area_table.info.height
@ ensures
r@.len() == summed_area_table.info.channels,
forall|f: spec_fn(int, int, int) -> int, k: int| #[trigger] crate::image::table_of(summed_area_table, f) && 0 <= k < r@.len() ==> is_int(#[trigger] r@[k]) && iv(r@[k]) == rect(chan_of(f, k), x_0 as int, x_1 + 1, y_0 as int, y_1 + 1)
@ start
proof { clone_axiom::<T>(); }
let ghost ff: spec_fn(int, int, int) -> int = choose|f: spec_fn(int, int, int) -> int| crate::image::fits_with(summed_area_table, f);
@ loop 0
sum@.len() == $i,
forall|k: int| 0 <= k < $i ==> is_int(#[trigger] sum@[k]) && iv(sum@[k]) == crate::image::corners(summed_area_table, x_0 as int, x_1 as int, y_0 as int, y_1 as int, k)
@ loopstart 0
proof {
    let f = chan_of(ff, i as int);
    assert(crate::image::fits_with(summed_area_table, ff));
    let (w, h) = (summed_area_table.info.width as int, summed_area_table.info.height as int);
    crate::image::lemma_corners(summed_area_table, ff, x_0 as int, x_1 as int, y_0 as int, y_1 as int, i as int);
    assert(is_int(summed_area_table.px(x_1 as int, y_1 as int)[i as int]));
    assert(x_0 > 0 ==> is_int(summed_area_table.px(x_0 - 1, y_1 as int)[i as int]));
    assert(y_0 > 0 ==> is_int(summed_area_table.px(x_1 as int, y_0 - 1)[i as int]));
    assert(x_0 > 0 && y_0 > 0 ==> is_int(summed_area_table.px(x_0 - 1, y_0 - 1)[i as int]));
}
@ end
proof {
    assert forall|f: spec_fn(int, int, int) -> int, k: int| #[trigger] crate::image::table_of(summed_area_table, f) && 0 <= k < sum@.len() implies is_int(#[trigger] sum@[k]) && iv(sum@[k]) == rect(chan_of(f, k), x_0 as int, x_1 + 1, y_0 as int, y_1 + 1) by {
        crate::image::lemma_corners_eq(summed_area_table, f, x_0 as int, x_1 as int, y_0 as int, y_1 as int, k);
    }
}
@@ mod util
@ items
pub open spec fn white_vals(w: White) -> (f32, f32, f32) { match w { White::D50 => (96.4212f32, 100.0f32, 82.5188f32), White::D65 => (95.0489f32, 100.0f32, 108.8840f32) } }

@@ mod util
@ items
/// The key a lightness value is counted under.
pub open spec fn qkey(v: f32, precision: f32) -> i32 { f2i32(fround(fmul(v, precision))) }
/// The keys of the pixels, row by row.
pub open spec fn qkeys(im: &Image<f32>, precision: f32) -> Seq<i32> { Seq::new(im.n() as nat, |i: int| qkey(im.pxi(i)[0], precision)) }
/// How many of the first `n` keys equal `k`, do not exceed `k`.
pub open spec fn cnt_eq(s: Seq<i32>, k: int, n: int) -> int
    decreases n
{
    if n <= 0 { 0 } else { cnt_eq(s, k, n - 1) + if s[n - 1] == k { 1int } else { 0 } }
}
pub open spec fn cnt_le(s: Seq<i32>, k: int, n: int) -> int
    decreases n
{
    if n <= 0 { 0 } else { cnt_le(s, k, n - 1) + if s[n - 1] <= k { 1int } else { 0 } }
}
/// The fraction of pixels whose key does not exceed `k`.
pub open spec fn percentile(s: Seq<i32>, k: int) -> f32 { fdiv(i2f(cnt_le(s, k, s.len() as int)), i2f(s.len() as int)) }
pub proof fn lemma_cnt(s: Seq<i32>, k: int, n: int)
    requires 0 <= n <= s.len(),
    ensures 0 <= cnt_eq(s, k, n) <= cnt_le(s, k, n) <= n, cnt_eq(s, k, n) > 0 <==> exists|j: int| 0 <= j < n && #[trigger] s[j] == k,
    decreases n,
{
    if n > 0 {
        lemma_cnt(s, k, n - 1);
        if s[n - 1] == k { } else {
            if cnt_eq(s, k, n) > 0 {
                let j = choose|j: int| 0 <= j < n - 1 && #[trigger] s[j] == k;
                assert(s[j] == k);
            }
        }
    }
}
/// No key strictly between `a` and `b`.
pub proof fn lemma_cnt_step(s: Seq<i32>, a: int, b: int, n: int)
    requires 0 <= n <= s.len(), a < b, forall|j: int| 0 <= j < s.len() ==> !(a < #[trigger] s[j] < b),
    ensures cnt_le(s, b, n) == cnt_le(s, a, n) + cnt_eq(s, b, n),
    decreases n,
{
    if n > 0 { lemma_cnt_step(s, a, b, n - 1); }
}
pub proof fn lemma_cnt_first(s: Seq<i32>, b: int, n: int)
    requires 0 <= n <= s.len(), forall|j: int| 0 <= j < s.len() ==> #[trigger] s[j] >= b,
    ensures cnt_le(s, b, n) == cnt_eq(s, b, n),
    decreases n,
{
    if n > 0 { lemma_cnt_first(s, b, n - 1); }
}
pub proof fn lemma_cnt_mono(s: Seq<i32>, a: int, b: int, n: int)
    requires 0 <= n <= s.len(), a <= b,
    ensures cnt_le(s, a, n) <= cnt_le(s, b, n), (forall|j: int| 0 <= j < n ==> #[trigger] s[j] <= b) ==> cnt_le(s, b, n) == n,
    decreases n,
{
    if n > 0 { lemma_cnt_mono(s, a, b, n - 1); }
}
/// The percentiles of the occurring keys do not decrease, lie in (0, 1] and reach 1.
pub proof fn lemma_percentiles(s: Seq<i32>, a: i32, b: i32)
    requires 0 < s.len() <= u32::MAX, s.contains(a), s.contains(b), a <= b,
    ensures
        fle(percentile(s, a as int), percentile(s, b as int)),
        flt(0.0f32, percentile(s, a as int)), fle(percentile(s, b as int), 1.0f32),
        (forall|j: int| 0 <= j < s.len() ==> #[trigger] s[j] <= b) ==> percentile(s, b as int) == 1.0f32,
{
    float_frac_axioms();
    let n = s.len() as int;
    let j = choose|j: int| 0 <= j < s.len() && #[trigger] s[j] == a;
    assert(s[j] == a as int);
    lemma_cnt(s, a as int, n); lemma_cnt(s, b as int, n);
    lemma_cnt_mono(s, a as int, b as int, n);
    assert(fdiv(i2f(n), i2f(n)) == 1.0f32);
}
@@ fn util::generate_histogram_percentiles
@ requires
input.wf(), input.n() <= i32::MAX
@ ensures
forall|k: i32| #[trigger] final(percentiles)@.contains_key(k) == (qkeys(input, precision).contains(k) || old(percentiles)@.contains_key(k)),
forall|k: i32| qkeys(input, precision).contains(k) ==> #[trigger] final(percentiles)@[k] == percentile(qkeys(input, precision), k as int),
forall|k: i32| !qkeys(input, precision).contains(k) && old(percentiles)@.contains_key(k) ==> #[trigger] final(percentiles)@[k] == old(percentiles)@[k]
@ start
proof { float_axioms(); int_ref_axioms(); lemma_coords_all(input.info.width as int, input.info.height as int); }
let ghost ks = qkeys(input, precision);
let ghost w = input.info.width as int;
@ loop 0
forall|k: i32| #[trigger] histogram@.contains_key(k) <==> cnt_eq(ks, k as int, $i * w) > 0,
forall|k: i32| histogram@.contains_key(k) ==> #[trigger] histogram@[k] == cnt_eq(ks, k as int, $i * w)
@ loopstart 0
proof { assert((y + 1) * w == y * w + w) by (nonlinear_arith); }
@ loop 1
forall|k: i32| #[trigger] histogram@.contains_key(k) <==> cnt_eq(ks, k as int, y * w + $i) > 0,
forall|k: i32| histogram@.contains_key(k) ==> #[trigger] histogram@[k] == cnt_eq(ks, k as int, y * w + $i)
@ loopstart 1
let ghost done = y * w + x;
proof {
    assert(0 <= done < input.n());
    assert(input.px(x as int, y as int) == input.pxi(done));
    assert forall|k: i32| 0 <= #[trigger] cnt_eq(ks, k as int, done) <= done by { lemma_cnt(ks, k as int, done); }
    assert forall|k: i32| #[trigger] cnt_eq(ks, k as int, done + 1) == cnt_eq(ks, k as int, done) + if ks[done] == k { 1int } else { 0 } by { }
}
@ loopbefore 2
proof { crate::rt::btree_entries(&histogram); }
let ghost es = histogram.entries();
proof {
    assert(input.info.height * w == input.n()) by (nonlinear_arith) requires w == input.info.width, input.n() == input.info.width * input.info.height;
    assert forall|k: i32| ks.contains(k) <==> #[trigger] histogram@.contains_key(k) by {
        lemma_cnt(ks, k as int, input.n());
        if histogram@.contains_key(k) { let j = choose|j: int| 0 <= j < input.n() && #[trigger] ks[j] == k as int; assert(ks[j] == k); }
        if ks.contains(k) { let j = choose|j: int| 0 <= j < ks.len() && #[trigger] ks[j] == k; assert(ks[j] == k as int); }
    }
}
let ghost old_p = percentiles@;
@ loop 2
es == histogram.entries(), $v@ == es,
sum == (if $i == 0 { 0int } else { cnt_le(ks, es[$i - 1].0 as int, input.n()) }),
forall|j: int| 0 <= j < $i ==> percentiles@.contains_key((#[trigger] es[j]).0) && percentiles@[es[j].0] == percentile(ks, es[j].0 as int),
forall|k: i32| (forall|j: int| 0 <= j < $i ==> (#[trigger] es[j]).0 != k) ==> #[trigger] percentiles@.contains_key(k) == old_p.contains_key(k),
forall|k: i32| (forall|j: int| 0 <= j < $i ==> (#[trigger] es[j]).0 != k) ==> #[trigger] percentiles@[k] == old_p[k]
@ loopstart 2
proof {
    let c = $i - 1;
    let b = es[c].0 as int;
    assert(*key == es[c].0 && *val == es[c].1);
    assert(histogram@.contains_key(es[c].0));
    assert forall|j: int| 0 <= j < ks.len() implies (c == 0 ==> #[trigger] ks[j] >= b) && (c > 0 ==> !(es[c - 1].0 < ks[j] < b)) by {
        assert(ks.contains(ks[j]));
        assert(histogram@.contains_key(ks[j]));
        let q = histogram.pos_of(ks[j]);
        assert(es[q].0 == ks[j]);
    }
    if c == 0 { lemma_cnt_first(ks, b, input.n()); } else { lemma_cnt_step(ks, es[c - 1].0 as int, b, input.n()); }
    lemma_cnt(ks, b, input.n());
}
@ loopafter 2
proof {
    assert forall|k: i32| #[trigger] ks.contains(k) implies percentiles@.contains_key(k) && percentiles@[k] == percentile(ks, k as int) by {
        assert(histogram@.contains_key(k));
        let q = histogram.pos_of(k);
        assert(es[q].0 == k);
    }
    assert forall|k: i32| !(#[trigger] ks.contains(k)) implies percentiles@.contains_key(k) == old_p.contains_key(k) && percentiles@[k] == old_p[k] by {
        assert(!histogram@.contains_key(k));
    }
}
