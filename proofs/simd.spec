@@ mod simd
@ items
/// `v + val`, saturated.
pub open spec fn add8(v: u8, val: int) -> u8 { if v + val < 0 { 0 } else if v + val > 255 { 255 } else { (v + val) as u8 } }
pub open spec fn add_f(val: int) -> spec_fn(u8) -> u8 { |v: u8| add8(v, val) }
/// Saturated add on channel `n`, or on all channels when there is no such channel.
pub open spec fn add_n(c: int, val: int, n: int, p: Seq<u8>) -> Seq<u8> {
    Seq::new(p.len(), |k: int| if n >= c || k == n { add8(p[k], val) } else { p[k] })
}
pub proof fn lemma_flat_chan(d: Seq<u8>, e: Seq<u8>, c: int, n: int, alpha: bool, val: int)
    requires
        c > 0, d.len() == n * c, e.len() == n * c,
        forall|k: int| 0 <= k < n * c ==> #[trigger] e[k] == added(d, k, alpha, c, val),
    ensures forall|i: int| 0 <= i < n ==> #[trigger] chunk(e, c, i) == chan_map(alpha, add_f(val), idf(), chunk(d, c, i)),
{
    lemma_chunk_at(d, c, n); lemma_chunk_at(e, c, n);
    assert forall|i: int| 0 <= i < n implies #[trigger] chunk(e, c, i) == chan_map(alpha, add_f(val), idf(), chunk(d, c, i)) by {
        assert forall|k: int| 0 <= k < c implies #[trigger] chunk(e, c, i)[k] == chan_map(alpha, add_f(val), idf(), chunk(d, c, i))[k] by {
            assert(0 <= i * c + k < n * c && chunk(d, c, i)[k] == d[i * c + k]);
            lemma_last_chan(c, i, k);
        }
        assert(chunk(e, c, i) =~= chan_map(alpha, add_f(val), idf(), chunk(d, c, i)));
    }
}
pub proof fn lemma_last_chan(c: int, i: int, k: int)
    requires c > 0, 0 <= i, 0 <= k < c,
    ensures ((i * c + k + 1) % c == 0) == (k == c - 1),
{
    assert(0 <= i * c) by (nonlinear_arith) requires 0 <= i, c > 0;
    if k == c - 1 { assert((i + 1) * c == i * c + c) by (nonlinear_arith); lemma_stride(c, i + 1); } else { lemma_stride(c, i); }
}
pub proof fn lemma_flat_n(d: Seq<u8>, e: Seq<u8>, c: int, n: int, val: int, m: int)
    requires
        c > 0, 0 <= m, d.len() == n * c, e.len() == n * c,
        forall|k: int| 0 <= k < n * c ==> #[trigger] e[k] == added_n(d, k, c, val, m),
    ensures forall|i: int| 0 <= i < n ==> #[trigger] chunk(e, c, i) == add_n(c, val, m, chunk(d, c, i)),
{
    lemma_chunk_at(d, c, n); lemma_chunk_at(e, c, n);
    assert forall|i: int| 0 <= i < n implies #[trigger] chunk(e, c, i) == add_n(c, val, m, chunk(d, c, i)) by {
        assert forall|k: int| 0 <= k < c implies #[trigger] chunk(e, c, i)[k] == add_n(c, val, m, chunk(d, c, i))[k] by {
            assert(0 <= i * c + k < n * c && chunk(d, c, i)[k] == d[i * c + k]);
            lemma_mod_chan(c, i, k);
        }
        assert(chunk(e, c, i) =~= add_n(c, val, m, chunk(d, c, i)));
    }
}
pub proof fn lemma_mod_chan(c: int, i: int, k: int)
    requires c > 0, 0 <= i, 0 <= k < c,
    ensures (i * c + k) % c == k,
{ lemma_coords_unique(c, k, i); }
@@ fn simd::adds_256_u8
@ requires
input.wf(), -255 <= val <= 255
@ ensures
r.info == input.info, r.wf(),
forall|i: int| 0 <= i < input.n() ==> #[trigger] r.pxi(i) == chan_map(input.info.alpha, add_f(val as int), idf(), input.pxi(i))
@ start
proof { crate::rt::lemma_i8(); crate::rt::lemma_ipow(); }
@ loop 0
invariant
data@.len() == num_bytes, i <= num_bytes, val_256.l@.len() == 32,
is_aligned ==> i % 32 == 0, !is_aligned ==> i == 0,
is_aligned ==> forall|k: int| 0 <= k < 32 ==> #[trigger] val_256.l@[k] == (if input.info.alpha && (k + 1) % (channels as int) == 0 { 0 } else if val < 0 { -val } else { val as int }),
forall|k: int| 0 <= k < i ==> #[trigger] data@[k] == added(input.data@, k, input.info.alpha, channels as int, val as int)
decreases num_bytes - i
@ loopend 0
proof {
    assert forall|k: int| 0 <= k < i implies #[trigger] data@[k] == added(input.data@, k, input.info.alpha, channels as int, val as int) by {
        let j = k - (i - 32);
        if j >= 0 { assert(data@[k] == res.l@[j]); assert(chunk.l@[j] == input.data@[k]); assert(val_256.l@[j] == val_256.l@[j]); if input.info.alpha { lemma_at32(i - 32, j, channels as int); } }
    }
}
@ loop 1
data@.len() == num_bytes,
forall|k: int| 0 <= k < $i ==> #[trigger] data@[k] == added(input.data@, k, input.info.alpha, channels as int, val as int)
@ end
proof { lemma_flat_chan(input.data@, data@, input.info.channels as int, input.n(), input.info.alpha, val as int); }
@@ mod simd
@ items
pub open spec fn added(d: Seq<u8>, k: int, alpha: bool, c: int, val: int) -> u8 { if alpha && (k + 1) % c == 0 { d[k] } else { add8(d[k], val) } }
pub open spec fn at32(i: int, k: int, c: int) -> bool { (i + k + 1) % c == (k + 1) % c }
pub proof fn lemma_at32(i: int, k: int, c: int)
    requires i % 32 == 0, c == 2 || c == 4,
    ensures at32(i, k, c),
{
    let t = i / 32;
    if c == 2 { vstd::arithmetic::div_mod::lemma_mod_multiples_vanish(16 * t, k + 1, 2); } else { vstd::arithmetic::div_mod::lemma_mod_multiples_vanish(8 * t, k + 1, 4); }
}

/// The vectors that select channel `n` of 3-channel pixels, of 4-channel pixels.
pub open spec fn mask3(n: u8, i: int) -> int {
    if n == 0 { crate::rt::byte4(0x80000080, 0x800000800000, -0x7FFFFF7FFFFF8000, 0x80000080000080, i) }
    else if n == 1 { crate::rt::byte4(0x8000008000, 0x80000080000080, 0x800000800000, -0x7FFFFF7FFFFF8000, i) }
    else { crate::rt::byte4(0x800000800000, -0x7FFFFF7FFFFF8000, 0x80000080000080, 0x800000800000, i) }
}
pub open spec fn chk3(n: u8, k: int) -> bool
    decreases k,
{
    if k <= 0 { true } else { chk3(n, k - 1) && ((mask3(n, k - 1) >= 128) == ((k - 1) % 3 == n)) }
}
pub proof fn lemma_chk3(n: u8, k: int)
    requires chk3(n, k),
    ensures forall|i: int| 0 <= i < k ==> (#[trigger] mask3(n, i) >= 128) == (i % 3 == n),
    decreases k,
{
    if k > 0 { lemma_chk3(n, k - 1); }
}
pub proof fn lemma_masks()
    ensures forall|n: u8, i: int| 0 <= n < 3 && 0 <= i < 30 ==> (#[trigger] mask3(n, i) >= 128) == (i % 3 == n),
{
    assert(chk3(0, 30)) by (compute);
    assert(chk3(1, 30)) by (compute);
    assert(chk3(2, 30)) by (compute);
    lemma_chk3(0, 30); lemma_chk3(1, 30); lemma_chk3(2, 30);
    assert forall|n: u8, i: int| 0 <= n < 3 && 0 <= i < 30 implies (#[trigger] mask3(n, i) >= 128) == (i % 3 == n) by { if n == 0 {} else if n == 1 {} else { assert(n == 2); } }
}

pub open spec fn mask4(n: u8) -> int { if n == 0 { 0x80 } else if n == 1 { 0x8000 } else if n == 2 { 0x800000 } else { -0x80000000 } }
pub open spec fn chk4(n: u8, k: int) -> bool
    decreases k,
{
    if k <= 0 { true } else { chk4(n, k - 1) && ((crate::rt::byte_of(mask4(n), (k - 1) % 4) >= 128) == ((k - 1) % 4 == n)) }
}
pub proof fn lemma_chk4(n: u8, k: int)
    requires chk4(n, k),
    ensures forall|i: int| 0 <= i < k ==> (crate::rt::byte_of(mask4(n), #[trigger] (i % 4)) >= 128) == (i % 4 == n),
    decreases k,
{
    if k > 0 { lemma_chk4(n, k - 1); }
}
pub proof fn lemma_masks4()
    ensures forall|n: u8, i: int| 0 <= n < 4 && 0 <= i < 32 ==> (#[trigger] crate::rt::byte_of(mask4(n), i % 4) >= 128) == (i % 4 == n),
{
    assert(chk4(0, 32)) by (compute); lemma_chk4(0, 32);
    assert(chk4(1, 32)) by (compute); lemma_chk4(1, 32);
    assert(chk4(2, 32)) by (compute); lemma_chk4(2, 32);
    assert(chk4(3, 32)) by (compute); lemma_chk4(3, 32);
    assert forall|n: u8, i: int| 0 <= n < 4 && 0 <= i < 32 implies (#[trigger] crate::rt::byte_of(mask4(n), i % 4) >= 128) == (i % 4 == n) by { if n == 0 {} else if n == 1 {} else if n == 2 {} else { assert(n == 3); } }
}
/// The value of byte `k` after the add on channel `n`.
pub open spec fn added_n(d: Seq<u8>, k: int, c: int, val: int, n: int) -> u8 { if n >= c || k % c == n { add8(d[k], val) } else { d[k] } }
pub proof fn lemma_same_mod(i: int, k: int, c: int)
    requires c == 3 && i % 30 == 0 || c == 4 && i % 32 == 0,
    ensures (i + k) % c == k % c,
{
    if c == 3 { vstd::arithmetic::div_mod::lemma_mod_multiples_vanish(10 * (i / 30), k, 3); } else { vstd::arithmetic::div_mod::lemma_mod_multiples_vanish(8 * (i / 32), k, 4); }
}
@@ fn simd::adds_n_256_u8
@ requires
input.wf(), -255 <= val <= 255,
!input.info.alpha && input.info.channels == 3 || input.info.alpha && input.info.channels == 4
@ ensures
r.info == input.info, r.wf(),
forall|i: int| 0 <= i < input.n() ==> #[trigger] r.pxi(i) == add_n(input.info.channels as int, val as int, n as int, input.pxi(i))
@ start
proof { crate::rt::lemma_i8(); }
let ghost c: int = input.info.channels as int;
@ loop 0
invariant
data@.len() == num_bytes, i <= num_bytes, val_256.l@.len() == 32,
input.info.alpha ==> step == 32, !input.info.alpha ==> step == 30, i % step == 0,
forall|k: int| 0 <= k < step ==> #[trigger] val_256.l@[k] == (if n < c && k % c != n { 0 } else if val < 0 { -val } else { val as int }),
forall|k: int| 0 <= k < i ==> #[trigger] data@[k] == added_n(input.data@, k, c, val as int, n as int)
decreases num_bytes - i
@ loopbefore 0
proof {
    assert forall|k: int| 0 <= k < step implies #[trigger] val_256.l@[k] == (if n < c && k % c != n { 0 } else if val < 0 { -val } else { val as int }) by {
        if input.info.alpha { if n < 4 { lemma_masks4(); assert(mask.l@[k] == crate::rt::byte_of(mask4(n), k % 4)); } } else { if n < 3 { lemma_masks(); assert(mask.l@[k] == mask3(n, k)); } }
    }
}
@ loopend 0
proof {
    assert forall|k: int| 0 <= k < i implies #[trigger] data@[k] == added_n(input.data@, k, c, val as int, n as int) by {
        let j = k - (i - step);
        if j >= 0 { assert(data@[k] == res.l@[j]); assert(chunk.l@[j] == input.data@[k]); assert(val_256.l@[j] == val_256.l@[j]); lemma_same_mod(i - step, j, c); }
    }
}
@ loop 1
data@.len() == num_bytes,
forall|k: int| 0 <= k < $i ==> #[trigger] data@[k] == added_n(input.data@, k, c, val as int, n as int)
@ end
proof { lemma_flat_n(input.data@, data@, c, input.n(), val as int, n as int); }
@@ mod simd
@ items
pub open spec fn lane(v: Seq<u8>, offset: int, step: int, j: int, k: int) -> u8 { v[offset + k * step + j] }
pub proof fn lemma_step_lt(g: int, n: int, s: int)
    requires s > 0,
    ensures g * s < n * s <==> g < n,
{
    assert(g * s < n * s <==> g < n) by (nonlinear_arith) requires s > 0;
}
@@ fn simd::deinterleave_3_256_u8
@ requires
input.wf(), input.info.channels >= 3, offset + 32 * input.info.channels <= input.data@.len()
@ ensures
r.0.l@.len() == 32, r.1.l@.len() == 32, r.2.l@.len() == 32,
forall|k: int| 0 <= k < 32 ==> #[trigger] r.0.l@[k] == lane(input.data@, offset as int, input.info.channels as int, 0, k),
forall|k: int| 0 <= k < 32 ==> #[trigger] r.1.l@[k] == lane(input.data@, offset as int, input.info.channels as int, 1, k),
forall|k: int| 0 <= k < 32 ==> #[trigger] r.2.l@[k] == lane(input.data@, offset as int, input.info.channels as int, 2, k)
@ loop 0
0 <= g__0 <= 32, r@.len() == g__0, g@.len() == g__0, b@.len() == g__0,
forall|k: int| 0 <= k < g__0 ==> #[trigger] r@[k] == lane(input.data@, offset as int, input.info.channels as int, 0, k),
forall|k: int| 0 <= k < g__0 ==> #[trigger] g@[k] == lane(input.data@, offset as int, input.info.channels as int, 1, k),
forall|k: int| 0 <= k < g__0 ==> #[trigger] b@[k] == lane(input.data@, offset as int, input.info.channels as int, 2, k)
@ loopstart 0
proof { let s = input.info.channels as int; lemma_step_lt(g__0 - 1, 32, s); assert((g__0 - 1) * s + s == g__0 * s) by (nonlinear_arith); assert(g__0 * s <= 32 * s) by (nonlinear_arith) requires g__0 <= 32, s > 0; }
@ loopafter 0
proof { let s = input.info.channels as int; lemma_step_lt(g__0, 32, s); }
@@ fn simd::deinterleave_4_256_u8
@ requires
input.wf(), input.info.channels >= 4, offset + 32 * input.info.channels <= input.data@.len()
@ ensures
r.0.l@.len() == 32, r.1.l@.len() == 32, r.2.l@.len() == 32, r.3.l@.len() == 32,
forall|k: int| 0 <= k < 32 ==> #[trigger] r.0.l@[k] == lane(input.data@, offset as int, input.info.channels as int, 0, k),
forall|k: int| 0 <= k < 32 ==> #[trigger] r.1.l@[k] == lane(input.data@, offset as int, input.info.channels as int, 1, k),
forall|k: int| 0 <= k < 32 ==> #[trigger] r.2.l@[k] == lane(input.data@, offset as int, input.info.channels as int, 2, k),
forall|k: int| 0 <= k < 32 ==> #[trigger] r.3.l@[k] == lane(input.data@, offset as int, input.info.channels as int, 3, k)
@ loop 0
0 <= g__0 <= 32, r@.len() == g__0, g@.len() == g__0, b@.len() == g__0, a@.len() == g__0,
forall|k: int| 0 <= k < g__0 ==> #[trigger] r@[k] == lane(input.data@, offset as int, input.info.channels as int, 0, k),
forall|k: int| 0 <= k < g__0 ==> #[trigger] g@[k] == lane(input.data@, offset as int, input.info.channels as int, 1, k),
forall|k: int| 0 <= k < g__0 ==> #[trigger] b@[k] == lane(input.data@, offset as int, input.info.channels as int, 2, k),
forall|k: int| 0 <= k < g__0 ==> #[trigger] a@[k] == lane(input.data@, offset as int, input.info.channels as int, 3, k)
@ loopstart 0
proof { let s = input.info.channels as int; lemma_step_lt(g__0 - 1, 32, s); assert((g__0 - 1) * s + s == g__0 * s) by (nonlinear_arith); assert(g__0 * s <= 32 * s) by (nonlinear_arith) requires g__0 <= 32, s > 0; }
@ loopafter 0
proof { let s = input.info.channels as int; lemma_step_lt(g__0, 32, s); }
@@ fn simd::avg_3_256_u8
@ requires
x.l@.len() == 32, y.l@.len() == 32, z.l@.len() == 32
@ ensures
r.l@.len() == 32,
forall|k: int| 0 <= k < 32 ==> #[trigger] r.l@[k] == (x.l@[k] + y.l@[k] + z.l@[k]) / 3
@ before _mm256_packus_epi16 0
proof {
    assert forall|j: int| 0 <= j < 16 implies #[trigger] crate::rt::w16(third_256, j) == 43691 by { }
    assert forall|j: int| 0 <= j < 16 implies #[trigger] crate::rt::w16(sum_lo, j) == sum3(x.l@, y.l@, z.l@, crate::rt::half(0, j)) by { }
    assert forall|j: int| 0 <= j < 16 implies #[trigger] crate::rt::w16(sum_hi, j) == sum3(x.l@, y.l@, z.l@, crate::rt::half(1, j)) by { }
    lemma_third();
    lemma_halves();
}
@@ mod simd
@ items
pub open spec fn sum3(x: Seq<u8>, y: Seq<u8>, z: Seq<u8>, i: int) -> int { x[i] + y[i] + z[i] }
pub proof fn lemma_third()
    ensures forall|s: int| 0 <= s <= 765 ==> (#[trigger] crate::rt::mulhi16(s, 43691)) / 2 == s / 3,
{
    reveal(crate::rt::mulhi16);
    assert forall|s: int| 0 <= s <= 765 implies (#[trigger] crate::rt::mulhi16(s, 43691)) / 2 == s / 3 by { assert(((s * 43691) / 0x1_0000) / 2 == s / 3); }
}
pub proof fn lemma_halves()
    ensures
        forall|i: int| 0 <= i < 32 && i % 16 < 8 ==> crate::rt::half(0, #[trigger] crate::rt::packed_from(i)) == i,
        forall|i: int| 0 <= i < 32 && i % 16 >= 8 ==> crate::rt::half(1, #[trigger] crate::rt::packed_from(i)) == i,
{}
@@ mod simd
@ items
pub proof fn lemma_pix_off(c: int, p: int)
    requires c > 0, p >= 0,
    ensures (p * c) / c == p, (p * c) % c == 0, p * c >= 0, (p + 1) * c == p * c + c,
{
    lemma_coords_unique(c, 0, p);
    assert((p + 1) * c == p * c + c) by (nonlinear_arith);
}
pub proof fn lemma_isum_bound(p: Seq<u8>, n: int)
    requires 0 <= n <= p.len(),
    ensures 0 <= crate::colorspace::isum(p, n) <= 255 * n,
    decreases n,
{
    if n > 0 { lemma_isum_bound(p, n - 1); }
}
pub proof fn lemma_isum_pre(p: Seq<u8>, q: Seq<u8>, n: int)
    requires 0 <= n <= p.len(), n <= q.len(), forall|k: int| 0 <= k < n ==> p[k] == q[k],
    ensures crate::colorspace::isum(p, n) == crate::colorspace::isum(q, n),
    decreases n,
{
    if n > 0 { lemma_isum_pre(p, q, n - 1); }
}
pub proof fn lemma_isum3(p: Seq<u8>)
    requires p.len() >= 3,
    ensures crate::colorspace::isum(p, 3) == p[0] + p[1] + p[2],
{
    reveal_with_fuel(crate::colorspace::isum, 4);
}
/// Truncated mean of the first `m` values.
pub open spec fn mean_first(p: Seq<u8>, m: int) -> int { crate::colorspace::isum(p, m) / m }
@@ mod simd
@ items
/// Storing a vector of 32 means after the first `d` pixels.
pub proof fn lemma_fits(i: int, c: int, d: int, n: int)
    requires c > 0, i == d * c, i + 32 * c <= n * c, 0 <= d,
    ensures i / c == d, d + 32 <= n, i + 32 * c == (d + 32) * c,
{
    lemma_pix_off(c, d);
    assert((d + 32) * c == d * c + 32 * c) by (nonlinear_arith);
    lemma_step_lt(n, d + 32, c);
}
pub proof fn lemma_mean_first(p: Seq<u8>, m: int)
    requires 0 < m <= p.len(),
    ensures 0 <= mean_first(p, m) <= 255,
{
    lemma_isum_bound(p, m);
    let s = crate::colorspace::isum(p, m);
    assert(0 <= s / m <= 255) by (nonlinear_arith) requires 0 <= s <= 255 * m, m > 0;
}
pub proof fn lemma_mean3(p: Seq<u8>, d: Seq<u8>, i: int, c: int, k: int, q: int)
    requires p.len() == c, c >= 3, i == (q - k) * c, forall|j: int| 0 <= j < c ==> p[j] == d[q * c + j],
    ensures mean_first(p, 3) == (lane(d, i, c, 0, k) + lane(d, i, c, 1, k) + lane(d, i, c, 2, k)) / 3,
{
    lemma_isum3(p);
    assert((q - k) * c + k * c == q * c) by (nonlinear_arith);
    assert(p[0] == d[q * c] && p[1] == d[q * c + 1] && p[2] == d[q * c + 2]);
}
pub proof fn lemma_one_chan(d: Seq<u8>, n: int)
    requires d.len() == n,
    ensures forall|i: int| 0 <= i < n ==> #[trigger] chunk(d, 1, i) == seq![d[i]],
{
    lemma_chunk_at(d, 1, n);
    assert forall|i: int| 0 <= i < n implies #[trigger] chunk(d, 1, i) == seq![d[i]] by { assert(chunk(d, 1, i)[0] == d[i * 1 + 0]); assert(chunk(d, 1, i) =~= seq![d[i]]); }
}
@@ fn simd::avg_256_u8
@ requires
input.wf(), !input.info.alpha
@ ensures
r.info.width == input.info.width, r.info.height == input.info.height, r.info.channels == 1, !r.info.alpha, r.wf(),
forall|i: int| 0 <= i < input.n() ==> #[trigger] r.pxi(i) == crate::colorspace::mean_of()(input.pxi(i))
@ start
let ghost gc: int = input.info.channels as int;
let ghost gn: int = input.n();
let ghost mut done: int = 0;
proof {
    lemma_chunk_at(input.data@, gc, gn);
    assert forall|p: int| 0 <= p < gn implies 0 <= #[trigger] mean_first(input.pxi(p), gc) <= 255 by { lemma_mean_first(input.pxi(p), gc); }
    assert(gn * gc <= u32::MAX);
}
@ loop 0
invariant
data@.len() == gn, i <= num_bytes, num_bytes == gn * gc, chunk_size == 32 * gc, channels == gc,
i == done * gc, 0 <= done <= gn, done > 0 ==> gc == 3,
forall|p: int| 0 <= p < done ==> #[trigger] data@[p] == mean_first(input.pxi(p), gc)
decreases num_bytes - i
@ loopstart 0
let ghost i0: int = i as int;
proof { lemma_fits(i as int, gc, done, gn); }
@ loopend 0
proof {
    assert forall|p: int| 0 <= p < done + 32 implies #[trigger] data@[p] == mean_first(input.pxi(p), gc) by {
        if p >= done {
            let k = p - done;
            assert(avg_rgb.l@[k] == (r.l@[k] + g.l@[k] + b.l@[k]) / 3);
            lemma_mean3(input.pxi(p), input.data@, i0, gc, k, p);
        }
    }
    done = done + 32;
}
@ loop 1
data@.len() == gn, s__1 == done * gc, 0 <= done <= gn, g__1 >= 0, done + g__1 <= gn,
forall|p: int| 0 <= p < done + g__1 ==> #[trigger] data@[p] == mean_first(input.pxi(p), gc)
@ loopstart 1
let ghost gp = done + g__1 - 1;
proof { assert(done * gc + (g__1 - 1) * gc == gp * gc) by (nonlinear_arith) requires gp == done + g__1 - 1; assert(j == gp * gc); lemma_step_lt(gp, gn, gc); lemma_pix_off(gc, gp); lemma_chan(gn, gc, gp); }
@ loop 2
sum == crate::colorspace::isum(input.pxi(gp), $i as int), 0 <= gp < gn, j == gp * gc
@ loopstart 2
proof { assert(input.pxi(gp)[$i - 1] == input.data@[gp * gc + ($i - 1)]); lemma_isum_bound(input.pxi(gp), $i as int); }
@ loopafter 1
proof { assert(done * gc + g__1 * gc == (done + g__1) * gc) by (nonlinear_arith); lemma_step_lt(done + g__1, gn, gc); }
@ end
proof {
    lemma_one_chan(data@, gn);
    assert forall|i: int| 0 <= i < gn implies #[trigger] chunk(data@, 1, i) == crate::colorspace::mean_of()(input.pxi(i)) by { assert(data@[i] == mean_first(input.pxi(i), gc)); }
}
@@ mod simd
@ items
pub open spec fn ev(d: Seq<u8>, p: int) -> int { d[2 * p] as int }
pub open spec fn od(d: Seq<u8>, p: int) -> u8 { d[2 * p + 1] }
pub proof fn lemma_two_chan(d: Seq<u8>, n: int)
    requires d.len() == 2 * n,
    ensures forall|i: int| 0 <= i < n ==> #[trigger] chunk(d, 2, i) == seq![ev(d, i) as u8, od(d, i)],
{
    lemma_chunk_at(d, 2, n);
    assert forall|i: int| 0 <= i < n implies #[trigger] chunk(d, 2, i) == seq![ev(d, i) as u8, od(d, i)] by {
        assert(chunk(d, 2, i)[0] == d[i * 2 + 0] && chunk(d, 2, i)[1] == d[i * 2 + 1]);
        assert(chunk(d, 2, i) =~= seq![ev(d, i) as u8, od(d, i)]);
    }
}
/// Where the grey values and the alpha values of the 32 pixels of a chunk end up.
pub proof fn lemma_interleave(a: Seq<u8>, b: Seq<u8>, lo: Seq<u8>, hi: Seq<u8>, d: Seq<u8>, o: int)
    requires
        forall|i: int| 0 <= i < 32 ==> #[trigger] lo[i] == (if i % 2 == 0 { a[crate::rt::half(0, i / 2)] } else { b[crate::rt::half(0, i / 2)] }),
        forall|i: int| 0 <= i < 32 ==> #[trigger] hi[i] == (if i % 2 == 0 { a[crate::rt::half(1, i / 2)] } else { b[crate::rt::half(1, i / 2)] }),
        forall|i: int| 0 <= i < 16 ==> #[trigger] d[o + i] == lo[i],
        forall|i: int| 16 <= i < 32 ==> #[trigger] d[o + i] == hi[i - 16],
        forall|i: int| 32 <= i < 48 ==> #[trigger] d[o + i] == lo[i - 16],
        forall|i: int| 48 <= i < 64 ==> #[trigger] d[o + i] == hi[i - 32],
    ensures forall|k: int| 0 <= k < 32 ==> d[o + #[trigger] (2 * k)] == a[k] && d[o + (2 * k + 1)] == b[k],
{
    assert forall|k: int| 0 <= k < 32 implies d[o + #[trigger] (2 * k)] == a[k] && d[o + (2 * k + 1)] == b[k] by {
        if k < 8 { assert(d[o + 2 * k] == lo[2 * k] && d[o + (2 * k + 1)] == lo[2 * k + 1]); }
        else if k < 16 { assert(d[o + 2 * k] == hi[2 * k - 16] && d[o + (2 * k + 1)] == hi[2 * k + 1 - 16]); }
        else if k < 24 { assert(d[o + 2 * k] == lo[2 * k - 16] && d[o + (2 * k + 1)] == lo[2 * k + 1 - 16]); }
        else { assert(d[o + 2 * k] == hi[2 * k - 32] && d[o + (2 * k + 1)] == hi[2 * k + 1 - 32]); }
    }
}
pub proof fn lemma_grey_alpha(p: Seq<u8>)
    requires p.len() >= 2,
    ensures pix_map(true, crate::colorspace::mean_of(), idf(), p) == seq![mean_first(p, p.len() - 1) as u8, p[p.len() - 1]],
{
    lemma_isum_pre(p, p.drop_last(), p.len() - 1);
    assert(pix_map(true, crate::colorspace::mean_of(), idf(), p) =~= seq![mean_first(p, p.len() - 1) as u8, p[p.len() - 1]]);
}
@@ fn simd::avg_alpha_256_u8
@ attr
#[verifier::spinoff_prover]
#[verifier::rlimit(100)]
@ requires
input.wf(), input.info.alpha, input.info.channels >= 2
@ ensures
r.info.width == input.info.width, r.info.height == input.info.height, r.info.channels == 2, r.info.alpha, r.wf(),
forall|i: int| 0 <= i < input.n() ==> #[trigger] r.pxi(i) == pix_map(true, crate::colorspace::mean_of(), idf(), input.pxi(i))
@ start
let ghost gc: int = input.info.channels as int;
let ghost gn: int = input.n();
let ghost mut done: int = 0;
proof {
    lemma_chunk_at(input.data@, gc, gn);
    assert forall|p: int| 0 <= p < gn implies 0 <= #[trigger] mean_first(input.pxi(p), gc - 1) <= 255 by { lemma_mean_first(input.pxi(p), gc - 1); }
    assert(gn * gc <= u32::MAX);
    assert(gn * 2 <= gn * gc) by (nonlinear_arith) requires gc >= 2, gn >= 0;
}
@ loop 0
invariant
data@.len() == 2 * gn, i <= num_bytes, num_bytes == gn * gc, chunk_size == 32 * gc, channels == gc,
i == done * gc, 0 <= done <= gn, done > 0 ==> gc == 4,
forall|p: int| 0 <= p < done ==> #[trigger] ev(data@, p) == mean_first(input.pxi(p), gc - 1),
forall|p: int| 0 <= p < done ==> #[trigger] od(data@, p) == input.pxi(p)[gc - 1]
decreases num_bytes - i
@ loopstart 0
let ghost i0: int = i as int;
let ghost d0: Seq<u8> = data@;
proof { lemma_fits(i as int, gc, done, gn); assert(i / 2 == 2 * done) by { assert(gc == 4); } }
@ loopend 0
proof {
    lemma_interleave(avg_rgb.l@, a.l@, unpacked_lo.l@, unpacked_hi.l@, data@, 2 * done);
    assert forall|p: int| 0 <= p < done + 32 implies #[trigger] ev(data@, p) == mean_first(input.pxi(p), gc - 1) by {
        if p >= done {
            let k = p - done;
            assert(data@[2 * done + 2 * k] == avg_rgb.l@[k]);
            assert(avg_rgb.l@[k] == (r.l@[k] + g.l@[k] + b.l@[k]) / 3);
            lemma_mean3(input.pxi(p), input.data@, i0, gc, k, p);
        } else { assert(data@[2 * p] == d0[2 * p]); assert(ev(d0, p) == mean_first(input.pxi(p), gc - 1)); }
    }
    assert forall|p: int| 0 <= p < done + 32 implies #[trigger] od(data@, p) == input.pxi(p)[gc - 1] by {
        if p >= done {
            let k = p - done;
            assert(data@[2 * done + 2 * k] == avg_rgb.l@[k]);
            assert(data@[2 * done + (2 * k + 1)] == a.l@[k]);
            assert(input.pxi(p)[3] == input.data@[p * gc + 3]);
            assert(done * gc + k * gc == p * gc) by (nonlinear_arith) requires k == p - done;
        } else { assert(data@[2 * p + 1] == d0[2 * p + 1]); assert(od(d0, p) == input.pxi(p)[gc - 1]); }
    }
    done = done + 32;
}
@ loop 1
data@.len() == 2 * gn, s__1 == done * gc, 0 <= done <= gn, g__1 >= 0, done + g__1 <= gn,
forall|p: int| 0 <= p < done + g__1 ==> #[trigger] ev(data@, p) == mean_first(input.pxi(p), gc - 1),
forall|p: int| 0 <= p < done + g__1 ==> #[trigger] od(data@, p) == input.pxi(p)[gc - 1]
@ loopstart 1
let ghost gp = done + g__1 - 1;
let ghost d1: Seq<u8> = data@;
proof { assert(done * gc + (g__1 - 1) * gc == gp * gc) by (nonlinear_arith) requires gp == done + g__1 - 1; assert(j == gp * gc); lemma_step_lt(gp, gn, gc); lemma_pix_off(gc, gp); lemma_chan(gn, gc, gp); }
@ loopend 1
proof {
    assert(input.pxi(gp)[gc - 1] == input.data@[gp * gc + (gc - 1)]);
    assert forall|p: int| 0 <= p < done + g__1 implies #[trigger] ev(data@, p) == mean_first(input.pxi(p), gc - 1) by { if p < gp { assert(ev(d1, p) == mean_first(input.pxi(p), gc - 1)); } else { assert(mean_first(input.pxi(gp), gc - 1) == sum as int / (gc - 1)); } }
    assert forall|p: int| 0 <= p < done + g__1 implies #[trigger] od(data@, p) == input.pxi(p)[gc - 1] by { if p < gp { assert(od(d1, p) == input.pxi(p)[gc - 1]); } }
}
@ loop 2
sum == crate::colorspace::isum(input.pxi(gp), $i as int), 0 <= gp < gn, j == gp * gc
@ loopstart 2
proof { assert(input.pxi(gp)[$i - 1] == input.data@[gp * gc + ($i - 1)]); lemma_isum_bound(input.pxi(gp), $i as int); }
@ loopafter 1
proof { assert(done * gc + g__1 * gc == (done + g__1) * gc) by (nonlinear_arith); lemma_step_lt(done + g__1, gn, gc); }
@ end
proof {
    lemma_two_chan(data@, gn);
    assert forall|i: int| 0 <= i < gn implies #[trigger] chunk(data@, 2, i) == pix_map(true, crate::colorspace::mean_of(), idf(), input.pxi(i)) by {
        lemma_grey_alpha(input.pxi(i));
        assert(ev(data@, i) == mean_first(input.pxi(i), gc - 1)); assert(od(data@, i) == input.pxi(i)[gc - 1]);
    }
}
@@ fn simd::avg_checked_256_u8
@ requires
input.wf(), 1 <= input.info.cn()
@ ensures
crate::colorspace::mapped(r.info, input.info, 1), r.wf(),
forall|i: int| 0 <= i < input.n() ==> #[trigger] r.pxi(i) == pix_map(input.info.alpha, crate::colorspace::mean_of(), idf(), input.pxi(i))
