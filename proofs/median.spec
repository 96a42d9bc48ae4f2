@@ mod filter::median
@ items
#[verifier::opaque]
/// How many of the first `m` pixels of a row have value `key` in channel `c`.
pub open spec fn pc(p: Seq<Seq<u8>>, c: int, m: int, key: int) -> int
    decreases m
{
    if m <= 0 { 0 } else { pc(p, c, m - 1, key) + if p[m - 1][c] == key { 1int } else { 0 } }
}
/// The same for the `len` pixels from `n` on.
pub open spec fn wc(p: Seq<Seq<u8>>, c: int, n: int, len: int, key: int) -> int { pc(p, c, n + len, key) - pc(p, c, n, key) }
pub open spec fn sgn(add: bool, x: int) -> int { if add { x } else { -x } }
pub proof fn lemma_pc(p: Seq<Seq<u8>>, c: int, a: int, b: int, key: int)
    requires 0 <= a <= b,
    ensures 0 <= pc(p, c, b, key) - pc(p, c, a, key) <= b - a,
    decreases b,
{
    reveal_with_fuel(pc, 2);
    if a < b { lemma_pc(p, c, a, b - 1, key); }
}
pub proof fn lemma_pc_all(p: Seq<Seq<u8>>, c: int, a: int, b: int)
    requires 0 <= a <= b,
    ensures forall|key: int| 0 <= #[trigger] pc(p, c, b, key) - pc(p, c, a, key) <= b - a,
{
    assert forall|key: int| 0 <= #[trigger] pc(p, c, b, key) - pc(p, c, a, key) <= b - a by { lemma_pc(p, c, a, b, key); }
}
pub open spec fn hit(p: Seq<Seq<u8>>, c: int, i: int, key: int) -> int { if p[i][c] == key { 1int } else { 0 } }
pub proof fn lemma_pc_step1(p: Seq<Seq<u8>>, c: int, i: int, key: int)
    requires 0 <= i,
    ensures pc(p, c, i + 1, key) == pc(p, c, i, key) + hit(p, c, i, key),
{
    reveal_with_fuel(pc, 2);
}
pub proof fn lemma_pc_step(p: Seq<Seq<u8>>, c: int, i: int)
    requires 0 <= i,
    ensures forall|key: int| #[trigger] pc(p, c, i + 1, key) == pc(p, c, i, key) + if p[i][c] == key { 1int } else { 0 },
{
    reveal_with_fuel(pc, 2);
}
impl PartialHistograms {
    pub open spec fn ok(&self) -> bool {
        self.n_cols == 2 * self.n_half + 1 && self.size == 2 * self.radius + 1 && self.data@.len() == self.n_cols && self.n_cols <= 0x100_0000 && self.radius <= 0x100_0000
    }
    /// Number of window values `key` for the pixel in column `n`.
    pub open spec fn hc(&self, n: int, key: int) -> int {
        self.data@[self.n_half as int]@[key] + if n == self.n_half { 0int } else { self.data@[n]@[key] as int }
    }
    /// All counts lie in `lo..=hi`.
    pub open spec fn within(&self, lo: int, hi: int) -> bool {
        forall|n: int, key: int| 0 <= n < self.n_cols && 0 <= key < 256 ==> lo <= #[trigger] self.hc(n, key) <= hi
    }
}
/// How many of the first `m` pixels of a row have a value below `v` in channel `c`.
#[verifier::opaque]
pub open spec fn pl(p: Seq<Seq<u8>>, c: int, m: int, v: int) -> int
    decreases m
{
    if m <= 0 { 0 } else { pl(p, c, m - 1, v) + if p[m - 1][c] < v { 1int } else { 0 } }
}
/// The same for the `len` pixels from `n` on.
pub open spec fn lw(p: Seq<Seq<u8>>, c: int, n: int, len: int, v: int) -> int { pl(p, c, n + len, v) - pl(p, c, n, v) }
pub proof fn lemma_pl(p: Seq<Seq<u8>>, c: int, m: int)
    requires 0 <= m,
    ensures
        forall|v: int| #[trigger] pl(p, c, m + 1, v) == pl(p, c, m, v) + if p[m][c] < v { 1int } else { 0 },
{
    reveal_with_fuel(pl, 2);
}
pub proof fn lemma_pl_pc(p: Seq<Seq<u8>>, c: int, m: int, v: int)
    ensures pc(p, c, m, v) == pl(p, c, m, v + 1) - pl(p, c, m, v), pl(p, c, m, 0) == 0, m >= 0 ==> pl(p, c, m, 256) == m,
    decreases m,
{
    reveal_with_fuel(pl, 2); reveal_with_fuel(pc, 2);
    if m > 0 { lemma_pl_pc(p, c, m - 1, v); }
}
impl PartialHistograms {
    /// Number of window values below `v` for the pixel in column `n`.
    pub open spec fn csum(&self, n: int, v: int) -> int
        decreases v
    {
        if v <= 0 { 0 } else { self.csum(n, v - 1) + self.hc(n, v - 1) }
    }
    /// `t` values in every window.
    pub open spec fn total(&self, t: int) -> bool {
        self.within(0, t) && 0 <= t <= 0x6000_0000 && forall|n: int| 0 <= n < self.n_cols ==> #[trigger] self.csum(n, 256) == t
    }
    pub proof fn lemma_csum(&self, n: int, a: int, b: int)
        requires forall|key: int| 0 <= key < 256 ==> 0 <= #[trigger] self.hc(n, key), 0 <= a <= b <= 256,
        ensures 0 <= self.csum(n, a) <= self.csum(n, b),
        decreases b,
    {
        if a < b { self.lemma_csum(n, a, b - 1); } else if a > 0 { self.lemma_csum(n, a - 1, a - 1); }
    }
}
impl MedianHist {
    pub open spec fn ok(&self) -> bool {
        self.data.ok() && self.sums@.len() == self.data.n_cols && (self.pivots@.len() == 0 || self.pivots@.len() == self.data.n_cols)
    }
    /// The sum of column `n` is the number of values below its pivot.
    pub open spec fn at(&self, n: int) -> bool { self.sums@[n] == self.data.csum(n, self.pivots@[n] as int) }
    pub open spec fn shape(&self, o: &MedianHist) -> bool {
        self.ok() && self.data.n_cols == o.data.n_cols && self.data.radius == o.data.radius && self.pivots@.len() == o.pivots@.len()
    }
}
/// `v` is the `center`-th smallest value of the window in column `n`.
pub open spec fn med_h(h: MedianHist, n: int, center: int, v: int) -> bool { h.data.csum(n, v) < center <= h.data.csum(n, v + 1) }
/// What `update` takes and does.
pub open spec fn upd_ok(a: MedianHist, p: Seq<Seq<u8>>, c: int) -> bool {
    a.ok() && p.len() == a.data.n_cols + 2 * a.data.radius && (forall|i: int| 0 <= i < p.len() ==> c < (#[trigger] p[i]).len())
    && a.data.within(0, 0x6000_0000) && forall|n: int| 0 <= n < a.data.n_cols ==> 0 <= #[trigger] a.sums@[n] <= 0x6000_0000
}
pub open spec fn upd(a: MedianHist, b: MedianHist, p: Seq<Seq<u8>>, c: int, add: bool) -> bool {
    b.shape(&a) && b.pivots@ == a.pivots@
    && (forall|n: int, key: int| 0 <= n < a.data.n_cols && 0 <= key < 256 ==> #[trigger] b.data.hc(n, key) == a.data.hc(n, key) + sgn(add, wc(p, c, n, a.data.size as int, key)))
    && (forall|n: int| 0 <= n < a.data.n_cols ==> #[trigger] b.sums@[n] == a.sums@[n] + if a.pivots@.len() == 0 { 0 } else { sgn(add, lw(p, c, n, a.data.size as int, a.pivots@[n] as int)) })
}
@@ fn filter::median::MedianHist::new
@ requires
n_cols % 2 == 1, n_cols <= 0x100_0000, radius <= 0x100_0000
@ ensures
r.ok(), r.data.n_cols == n_cols, r.data.radius == radius, r.pivots@.len() == 0,
forall|n: int, key: int| 0 <= n < n_cols && 0 <= key < 256 ==> #[trigger] r.data.hc(n, key) == 0,
forall|n: int| 0 <= n < n_cols ==> #[trigger] r.sums@[n] == 0
@@ fn filter::median::MedianHist::data
@ ensures
r == &self.data
@@ fn filter::median::MedianHist::sums
@ ensures
r@ == self.sums@
@@ fn filter::median::MedianHist::pivots
@ ensures
r@ == self.pivots@
@@ fn filter::median::MedianHist::init_pivots
@ requires
old(self).ok()
@ ensures
final(self).ok(), final(self).data == old(self).data, final(self).sums == old(self).sums, final(self).pivots@.len() == old(self).data.n_cols,
forall|n: int| 0 <= n < old(self).data.n_cols ==> #[trigger] final(self).pivots@[n] == 0
@@ fn filter::median::MedianHist::set_pivot
@ requires
index < old(self).pivots@.len()
@ ensures
final(self).data == old(self).data, final(self).sums == old(self).sums, final(self).pivots@ == old(self).pivots@.update(index as int, pivot)
@@ fn filter::median::MedianHist::set_sum
@ requires
index < old(self).sums@.len()
@ ensures
final(self).data == old(self).data, final(self).pivots == old(self).pivots, final(self).sums@ == old(self).sums@.update(index as int, sum)
@@ fn filter::median::MedianHist::update
@ requires
upd_ok(*old(self), slices_view(p_in@), channel_index as int)
@ ensures
upd(*old(self), *final(self), slices_view(p_in@), channel_index as int, add)
@ start
let ghost s0 = *self;
let ghost p = slices_view(p_in@);
proof { assert forall|i: int| 0 <= i < p_in@.len() implies channel_index < (#[trigger] p_in@[i])@.len() by { assert(p[i] == p_in@[i]@); } }
@ loop 0
self.data.n_cols == s0.data.n_cols, self.data.size == s0.data.size, self.pivots@ == s0.pivots@, self.sums@.len() == s0.sums@.len(),
forall|m: int| 0 <= m < $i ==> #[trigger] self.sums@[m] == s0.sums@[m] + sgn(add, lw(p, channel_index as int, m, s0.data.size as int, s0.pivots@[m] as int)),
forall|m: int| $i <= m < s0.data.n_cols ==> #[trigger] self.sums@[m] == s0.sums@[m]
@ loop 1
self.data.n_cols == s0.data.n_cols, self.data.size == s0.data.size, self.pivots@ == s0.pivots@, self.sums@.len() == s0.sums@.len(),
self.sums@[n as int] == s0.sums@[n as int] + sgn(add, pl(p, channel_index as int, $i as int, s0.pivots@[n as int] as int) - pl(p, channel_index as int, n as int, s0.pivots@[n as int] as int)),
0 <= pl(p, channel_index as int, $i as int, s0.pivots@[n as int] as int) - pl(p, channel_index as int, n as int, s0.pivots@[n as int] as int) <= $i - n,
forall|m: int| 0 <= m < n ==> #[trigger] self.sums@[m] == s0.sums@[m] + sgn(add, lw(p, channel_index as int, m, s0.data.size as int, s0.pivots@[m] as int)),
forall|m: int| n < m < s0.data.n_cols ==> #[trigger] self.sums@[m] == s0.sums@[m]
@ loopstart 1
proof { lemma_pl(p, channel_index as int, i as int); assert(p[i as int] == p_in@[i as int]@); }
@@ fn filter::median::PartialHistograms::new
@ requires
n_cols % 2 == 1, n_cols <= 0x100_0000, radius <= 0x100_0000
@ ensures
r.ok(), r.n_cols == n_cols, r.radius == radius,
forall|n: int, key: int| 0 <= n < n_cols && 0 <= key < 256 ==> #[trigger] r.hc(n, key) == 0
@@ fn filter::median::PartialHistograms::update
@ requires
old(self).ok(), p_in@.len() == old(self).n_cols + 2 * old(self).radius,
forall|i: int| 0 <= i < p_in@.len() ==> channel_index < (#[trigger] p_in@[i])@.len(),
old(self).within(0, 0x6000_0000)
@ ensures
final(self).ok(), final(self).n_cols == old(self).n_cols, final(self).radius == old(self).radius,
forall|n: int, key: int| 0 <= n < final(self).n_cols && 0 <= key < 256 ==> #[trigger] final(self).hc(n, key) == old(self).hc(n, key) + sgn(add, wc(slices_view(p_in@), channel_index as int, n, final(self).size as int, key))
@ start
let ghost d0 = self.data@;
let ghost p = slices_view(p_in@);
let ghost c = channel_index as int;
let ghost (nc, h, s, rr) = (self.n_cols as int, self.n_half as int, self.size as int, 2 * self.radius as int);
proof {
    assert forall|n: int, key: int| 0 <= n < nc && 0 <= key < 256 implies -0x6000_0000 <= #[trigger] d0[n]@[key] <= 0x6000_0000 by {
        assert(0 <= self.hc(n, key) <= 0x6000_0000);
        assert(0 <= self.hc(h, key) <= 0x6000_0000);
    }
}
@ loop 0
self.n_cols == nc, self.n_half == h, self.size == s, 2 * self.radius == rr, self.data@.len() == nc,
forall|m: int, key: int| 0 <= m < nc && 0 <= key < 256 ==> #[trigger] self.data@[m]@[key] == d0[m]@[key] + if m < $i || m > nc - 1 - $i { sgn(add, wc(p, c, m, s, key) - wc(p, c, h, s, key)) } else { 0 }
@ loop 1
self.n_cols == nc, self.n_half == h, self.size == s, 2 * self.radius == rr, self.data@.len() == nc,
forall|m: int, key: int| 0 <= m < nc && 0 <= key < 256 ==> #[trigger] self.data@[m]@[key] == d0[m]@[key] +
    if m < n || m > nc - 1 - n { sgn(add, wc(p, c, m, s, key) - wc(p, c, h, s, key)) }
    else if m == n { sgn(add, pc(p, c, $i as int, key) - pc(p, c, n as int, key) - (pc(p, c, $i + s, key) - pc(p, c, n + s, key))) }
    else if m == n_upper { sgn(add, pc(p, c, nc + rr - n, key) - pc(p, c, nc + rr - $i, key) - (pc(p, c, nc + rr - n - s, key) - pc(p, c, nc + rr - $i - s, key))) }
    else { 0 }
@ loopend 1
proof {
    let (u, l) = (nc + rr - i - 1, nc + rr - i - 1 - s);
    assert(i_upper == u && i_lower == l && n_upper == nc - 1 - n);
    assert forall|key: int| 0 <= key < 256 implies #[trigger] self.data@[n as int]@[key] == d1[n as int]@[key] + sgn(add, hit(p, c, i as int, key) - hit(p, c, i + s, key)) by { }
    assert forall|key: int| 0 <= key < 256 implies #[trigger] self.data@[n_upper as int]@[key] == d1[n_upper as int]@[key] + sgn(add, hit(p, c, u, key) - hit(p, c, l, key)) by { }
    assert forall|key: int| pc(p, c, $i as int, key) == #[trigger] pc(p, c, i as int, key) + hit(p, c, i as int, key) by { lemma_pc_step1(p, c, i as int, key); }
    assert forall|key: int| pc(p, c, $i + s, key) == #[trigger] pc(p, c, i + s, key) + hit(p, c, i + s, key) by { lemma_pc_step1(p, c, i + s, key); }
    assert forall|key: int| #[trigger] pc(p, c, nc + rr - i, key) == pc(p, c, nc + rr - $i, key) + hit(p, c, u, key) by { lemma_pc_step1(p, c, u, key); }
    assert forall|key: int| #[trigger] pc(p, c, nc + rr - i - s, key) == pc(p, c, nc + rr - $i - s, key) + hit(p, c, l, key) by { lemma_pc_step1(p, c, l, key); }
}
@ loopstart 1
let ghost d1 = self.data@;
proof {
    let (u, l) = (nc + rr - i - 1, nc + rr - i - 1 - s);
    lemma_pc_all(p, c, n as int, i as int); lemma_pc_all(p, c, n + s, i + s); lemma_pc_all(p, c, u + 1, nc + rr - n); lemma_pc_all(p, c, l + 1, nc + rr - n - s);
    lemma_pc_step(p, c, i as int); lemma_pc_step(p, c, i + s); lemma_pc_step(p, c, u); lemma_pc_step(p, c, l);
    assert(p[i as int] == p_in@[i as int]@ && p[i + s] == p_in@[i + s]@ && p[u] == p_in@[u]@ && p[l] == p_in@[l]@);
}
@ loopstart 2
proof {
    lemma_pc_all(p, c, h, i as int); lemma_pc_step(p, c, i as int);
    assert(p[i as int] == p_in@[i as int]@);
}
@ loop 2
self.n_cols == nc, self.n_half == h, self.size == s, 2 * self.radius == rr, self.data@.len() == nc,
forall|m: int, key: int| 0 <= m < nc && 0 <= key < 256 ==> #[trigger] self.data@[m]@[key] == d0[m]@[key] +
    if m == h { sgn(add, pc(p, c, $i as int, key) - pc(p, c, h, key)) } else { sgn(add, wc(p, c, m, s, key) - wc(p, c, h, s, key)) }
@@ fn filter::median::PartialHistograms::get_count
@ requires
self.ok(), key < 256, index < self.n_cols, -0x8000_0000 <= self.hc(index as int, key as int) <= 0x7fff_ffff
@ ensures
r == self.hc(index as int, key as int)
@@ mod filter::median
@ items
/// What `process_row_med` and the first row need: counts of `t` values in every window.
pub open spec fn hist_ok(h: MedianHist, nc: int, t: int) -> bool {
    h.ok() && h.data.n_cols == nc && h.pivots@.len() == nc && h.data.total(t)
}
pub open spec fn all_at(h: MedianHist) -> bool { forall|n: int| 0 <= n < h.data.n_cols ==> #[trigger] h.at(n) }
/// Column `n` of row `y` (columns from `x` on) holds the medians.
pub open spec fn med_px(hs: Seq<MedianHist>, n: int, center: int, p: Seq<u8>) -> bool {
    p.len() == hs.len() && forall|c: int| 0 <= c < hs.len() ==> #[trigger] med_h(hs[c], n, center, p[c] as int)
}
pub open spec fn row_done(o: &Image<u8>, b: &Image<u8>, hs: Seq<MedianHist>, nc: int, center: int, x: int, y: int) -> bool {
    b.info == o.info && b.wf()
    && (forall|u: int, v: int| 0 <= u < o.info.width && 0 <= v < o.info.height && !(v == y && x <= u < x + nc) ==> #[trigger] b.px(u, v) == o.px(u, v))
    && (forall|u: int| 0 <= u < o.info.width && x <= u < x + nc ==> med_px(hs, u - x, center, #[trigger] b.px(u, y)))
}
/// Every channel's counts cover `t` values.
pub open spec fn hists_ok(hs: Seq<MedianHist>, nc: int, t: int) -> bool { forall|c: int| 0 <= c < hs.len() ==> #[trigger] hist_ok(hs[c], nc, t) }
/// Column `i` has the sum of its median `v`, the rest is as it was.
pub open spec fn stepped(a: MedianHist, b: MedianHist, i: int, center: int, v: int) -> bool {
    b.data == a.data && b.pivots == a.pivots && b.sums@ == a.sums@.update(i, a.data.csum(i, v) as i32) && med_h(a, i, center, v) && 0 <= v < 256
}
/// The same counts, with sums that fit the pivots.
pub open spec fn kept(a: MedianHist, b: MedianHist) -> bool { b.data == a.data && b.shape(&a) && all_at(b) }
/// The counts are those of `a`.
pub open spec fn same_data(a: Seq<MedianHist>, b: Seq<MedianHist>) -> bool {
    a.len() == b.len() && forall|c: int| 0 <= c < a.len() ==> (#[trigger] b[c]).data == a[c].data
}
@@ fn filter::median::add_row_med
@ requires
forall|c: int| 0 <= c < old(histograms)@.len() ==> upd_ok(#[trigger] old(histograms)@[c], slices_view(p_in@), c)
@ ensures
final(histograms)@.len() == old(histograms)@.len(),
forall|c: int| 0 <= c < old(histograms)@.len() ==> upd(old(histograms)@[c], #[trigger] final(histograms)@[c], slices_view(p_in@), c, true)
@ start
let ghost h0 = histograms@;
@ loop 0
histograms@.len() == h0.len(),
forall|m: int| 0 <= m < $i ==> upd(h0[m], #[trigger] histograms@[m], slices_view(p_in@), m, true),
forall|m: int| $i <= m < h0.len() ==> #[trigger] histograms@[m] == h0[m]
@@ fn filter::median::remove_row_med
@ requires
forall|c: int| 0 <= c < old(histograms)@.len() ==> upd_ok(#[trigger] old(histograms)@[c], slices_view(p_in@), c)
@ ensures
final(histograms)@.len() == old(histograms)@.len(),
forall|c: int| 0 <= c < old(histograms)@.len() ==> upd(old(histograms)@[c], #[trigger] final(histograms)@[c], slices_view(p_in@), c, false)
@ start
let ghost h0 = histograms@;
@ loop 0
histograms@.len() == h0.len(),
forall|m: int| 0 <= m < $i ==> upd(h0[m], #[trigger] histograms@[m], slices_view(p_in@), m, false),
forall|m: int| $i <= m < h0.len() ==> #[trigger] histograms@[m] == h0[m]
@@ fn filter::median::set_pivots_med
@ requires
pivots@.len() <= old(histograms)@.len(), forall|c: int| 0 <= c < pivots@.len() ==> index < (#[trigger] old(histograms)@[c]).pivots@.len()
@ ensures
final(histograms)@.len() == old(histograms)@.len(),
forall|c: int| 0 <= c < pivots@.len() ==> (#[trigger] final(histograms)@[c]).data == old(histograms)@[c].data && final(histograms)@[c].sums == old(histograms)@[c].sums && final(histograms)@[c].pivots@ == old(histograms)@[c].pivots@.update(index as int, pivots@[c]),
forall|c: int| pivots@.len() <= c < old(histograms)@.len() ==> #[trigger] final(histograms)@[c] == old(histograms)@[c]
@ start
let ghost h0 = histograms@;
@ loop 0
histograms@.len() == h0.len(),
forall|c: int| 0 <= c < $i ==> (#[trigger] histograms@[c]).data == h0[c].data && histograms@[c].sums == h0[c].sums && histograms@[c].pivots@ == h0[c].pivots@.update(index as int, pivots@[c]),
forall|m: int| $i <= m < h0.len() ==> #[trigger] histograms@[m] == h0[m]
@@ fn filter::median::process_row_med
@ requires
old(output).wf(), y < old(output).info.height, old(histograms)@.len() == old(output).info.channels, x + n_cols <= u32::MAX, center >= 1,
exists|t: int| center <= t && #[trigger] hists_ok(old(histograms)@, n_cols as int, t),
forall|c: int| 0 <= c < old(histograms)@.len() ==> all_at(#[trigger] old(histograms)@[c])
@ ensures
row_done(old(output), final(output), old(histograms)@, n_cols as int, center as int, x as int, y as int),
final(histograms)@.len() == old(histograms)@.len(),
forall|c: int| 0 <= c < old(histograms)@.len() ==> kept(old(histograms)@[c], #[trigger] final(histograms)@[c])
@ start
let ghost h0 = histograms@;
let ghost o0 = *output;
let ghost t = choose|t: int| center <= t && #[trigger] hists_ok(h0, n_cols as int, t);
let ghost (nc, ctr) = (n_cols as int, center as int);
proof { assert forall|c: int| 0 <= c < h0.len() implies kept(h0[c], #[trigger] h0[c]) by { assert(hist_ok(h0[c], nc, t)); } }
@ loop 0
histograms@.len() == h0.len(), output.info == o0.info, output.wf(),
forall|c: int| 0 <= c < h0.len() ==> kept(h0[c], #[trigger] histograms@[c]),
forall|u: int, v: int| 0 <= u < o0.info.width && 0 <= v < o0.info.height && !(v == y && x <= u < x + nc) ==> #[trigger] output.px(u, v) == o0.px(u, v),
forall|u: int| 0 <= u < o0.info.width && x <= u < x + $i ==> med_px(h0, u - x, ctr, #[trigger] output.px(u, y as int))
@ loopstart 0
let ghost h1 = histograms@;
let ghost o1 = *output;
@ loop 1
h1.len() == h0.len(), p_out@.len() == $i, 
forall|m: int| 0 <= m < $i ==> stepped(h1[m], #[trigger] histograms@[m], i as int, ctr, p_out@[m] as int),
forall|m: int| $i <= m < h0.len() ==> #[trigger] histograms@[m] == h1[m]
@ loopstart 1
let ghost p1 = p_out@;
let ghost ck = p1.len() as int;
let ghost hc = *hist;
let ghost dt = hc.data;
proof { assert(hist_ok(h0[ck], nc, t)); assert(hc == h1[ck]); assert(kept(h0[ck], hc)); assert(hc.at(i as int));
    dt.lemma_csum(i as int, hc.pivots@[i as int] as int, 256); assert(dt.csum(i as int, 256) == t); }
@ loop 2
p_out@ == p1, *hist == hc, sum == dt.csum(i as int, g__2), sum < center
ensures p_out@.len() == ck + 1, p_out@.subrange(0, ck) == p1, stepped(hc, *hist, i as int, ctr, p_out@[ck] as int),
@ loopstart 2
proof { dt.lemma_csum(i as int, key as int, 256); dt.lemma_csum(i as int, key as int + 1, 256); assert(dt.hc(i as int, key as int) >= 0); }
@ loop 3
p_out@ == p1, *hist == hc, sum == dt.csum(i as int, $i as int), sum >= center
ensures p_out@.len() == ck + 1, p_out@.subrange(0, ck) == p1, stepped(hc, *hist, i as int, ctr, p_out@[ck] as int),
@ loopstart 3
proof { dt.lemma_csum(i as int, key as int, 256); dt.lemma_csum(i as int, key as int + 1, 256); assert(dt.hc(i as int, key as int) >= 0); }
@ before set_pivots_med 0
let ghost h2 = histograms@;
proof {
    assert forall|c: int| 0 <= c < h0.len() implies (#[trigger] h2[c]).pivots@.len() == nc && h2[c].data == h0[c].data && h2[c].sums@[i as int] == h0[c].data.csum(i as int, p_out@[c] as int) && med_h(h0[c], i as int, ctr, p_out@[c] as int) by {
        assert(kept(h0[c], h1[c])); assert(hist_ok(h0[c], nc, t)); assert(stepped(h1[c], h2[c], i as int, ctr, p_out@[c] as int));
        h0[c].data.lemma_csum(i as int, p_out@[c] as int, 256); assert(h0[c].data.csum(i as int, 256) == t);
    }
}
@ loopend 0
proof {
    assert forall|c: int| 0 <= c < h0.len() implies kept(h0[c], #[trigger] histograms@[c]) by {
        assert(kept(h0[c], h1[c])); assert(stepped(h1[c], h2[c], i as int, ctr, p_out@[c] as int));
        assert forall|n: int| 0 <= n < h0[c].data.n_cols implies #[trigger] histograms@[c].at(n) by { if n != i { assert(h1[c].at(n)); } else { assert(h2[c].sums@[n] == h0[c].data.csum(n, p_out@[c] as int)); } }
    }
    assert forall|c: int| 0 <= c < h0.len() implies #[trigger] med_h(h0[c], i as int, ctr, p_out@[c] as int) by { assert(h2[c].data == h0[c].data); }
}
@@ mod filter::median
@ items
/// What `#[derive(Clone)]` generates.
impl Clone for PartialHistograms {
    fn clone(&self) -> (r: Self)
        ensures r.data@ == self.data@, r.n_cols == self.n_cols, r.n_half == self.n_half, r.radius == self.radius, r.size == self.size,
    {
        let mut data: Vec<[i32; 256]> = Vec::new();
        let mut i: usize = 0;
        while i < self.data.len()
            invariant i <= self.data@.len(), data@ =~= self.data@.subrange(0, i as int),
            decreases self.data.len() - i,
        {
            data.push(self.data[i]);
            i = i + 1;
        }
        let r = PartialHistograms { data, n_cols: self.n_cols, n_half: self.n_half, radius: self.radius, size: self.size };
        assert(r.data@ =~= self.data@);
        r
    }
}
impl Clone for MedianHist {
    fn clone(&self) -> (r: Self)
        ensures r.data.data@ == self.data.data@, r.data.n_cols == self.data.n_cols, r.data.n_half == self.data.n_half, r.data.radius == self.data.radius, r.data.size == self.data.size, r.sums@ == self.sums@, r.pivots@ == self.pivots@,
            forall|n: int, key: int| #[trigger] r.data.hc(n, key) == self.data.hc(n, key),
    {
        let r = MedianHist { data: self.data.clone(), sums: self.sums.clone(), pivots: self.pivots.clone() };
        assert(r.sums@ =~= self.sums@);
        assert(r.pivots@ =~= self.pivots@);
        r
    }
}
/// The nearest coordinate in `0..n`.
pub open spec fn near(i: int, n: int) -> int { if i < 0 { 0 } else if i >= n { n - 1 } else { i } }
/// The pixel at (u, v), or the nearest one in the image.
pub open spec fn at_edge(im: &Image<u8>, u: int, v: int) -> Seq<u8> { im.px(near(u, im.info.width as int), near(v, im.info.height as int)) }
/// The pixels in row `j` that a block of `nc` columns from `x` on needs.
pub open spec fn row_of(im: &Image<u8>, x: int, r: int, nc: int, j: int) -> Seq<Seq<u8>> { Seq::new((nc + 2 * r) as nat, |k: int| at_edge(im, x - r + k, j)) }
/// How many of the `m` pixels from column `a` on in row `j` have a value below `v`.
pub open spec fn rl(im: &Image<u8>, c: int, a: int, m: int, j: int, v: int) -> int
    decreases m
{
    if m <= 0 { 0 } else { rl(im, c, a, m - 1, j, v) + if at_edge(im, a + m - 1, j)[c] < v { 1int } else { 0 } }
}
/// The same over `n` rows from `lo` on.
pub open spec fn wl(im: &Image<u8>, c: int, a: int, m: int, lo: int, n: int, v: int) -> int
    decreases n
{
    if n <= 0 { 0 } else { wl(im, c, a, m, lo, n - 1, v) + rl(im, c, a, m, lo + n - 1, v) }
}
/// How many values below `v` the kernel of radius `r` around (x, y) has.
pub open spec fn below(im: &Image<u8>, c: int, x: int, y: int, r: int, v: int) -> int { wl(im, c, x - r, 2 * r + 1, y - r, 2 * r + 1, v) }
/// Half the number of pixels in a kernel, rounded up.
pub open spec fn center_of(r: int) -> int { 2 * r * (r + 1) + 1 }
/// `v` is the median of the kernel of radius `r` around (x, y).
pub open spec fn is_median(im: &Image<u8>, c: int, x: int, y: int, r: int, v: int) -> bool {
    below(im, c, x, y, r, v) < center_of(r) <= below(im, c, x, y, r, v + 1)
}
pub open spec fn med_at(im: &Image<u8>, u: int, v: int, r: int, p: Seq<u8>) -> bool {
    p.len() == im.info.channels && forall|c: int| 0 <= c < p.len() ==> #[trigger] is_median(im, c, u, v, r, p[c] as int)
}
pub proof fn lemma_row(im: &Image<u8>, x: int, r: int, nc: int, j: int, c: int, n: int, m: int, v: int)
    requires 0 <= n, 0 <= m, n + m <= nc + 2 * r,
    ensures lw(row_of(im, x, r, nc, j), c, n, m, v) == rl(im, c, x - r + n, m, j, v),
    decreases m,
{
    reveal_with_fuel(pl, 2);
    if m > 0 { lemma_row(im, x, r, nc, j, c, n, m - 1, v); assert(row_of(im, x, r, nc, j)[n + m - 1] == at_edge(im, x - r + n + m - 1, j)); }
}
pub proof fn lemma_wl_first(im: &Image<u8>, c: int, a: int, m: int, lo: int, n: int, v: int)
    requires 1 <= n,
    ensures wl(im, c, a, m, lo, n, v) == rl(im, c, a, m, lo, v) + wl(im, c, a, m, lo + 1, n - 1, v),
    decreases n,
{
    reveal_with_fuel(wl, 2);
    if n > 1 { lemma_wl_first(im, c, a, m, lo, n - 1, v); }
}
pub proof fn lemma_rl(im: &Image<u8>, c: int, a: int, m: int, j: int, v: int)
    requires 0 <= m,
    ensures rl(im, c, a, m, j, 0) == 0, rl(im, c, a, m, j, 256) == m, 0 <= rl(im, c, a, m, j, v + 1) - rl(im, c, a, m, j, v) <= m, 0 <= rl(im, c, a, m, j, v) <= m,
    decreases m,
{
    if m > 0 { lemma_rl(im, c, a, m - 1, j, v); }
}
pub proof fn lemma_wl(im: &Image<u8>, c: int, a: int, m: int, lo: int, n: int, v: int)
    requires 0 <= m, 0 <= n,
    ensures wl(im, c, a, m, lo, n, 0) == 0, wl(im, c, a, m, lo, n, 256) == n * m, 0 <= wl(im, c, a, m, lo, n, v + 1) - wl(im, c, a, m, lo, n, v) <= n * m, 0 <= wl(im, c, a, m, lo, n, v) <= n * m,
    decreases n,
{
    if n > 0 {
        lemma_wl(im, c, a, m, lo, n - 1, v);
        lemma_rl(im, c, a, m, lo + n - 1, v);
        assert(n * m == (n - 1) * m + m) by (nonlinear_arith);
    } else { assert(n * m == 0) by (nonlinear_arith) requires n == 0; }
}
/// The counts are those of the `n` rows from `lo` on.
pub open spec fn rep(h: PartialHistograms, im: &Image<u8>, c: int, x: int, lo: int, n: int) -> bool {
    forall|k: int, v: int| 0 <= k < h.n_cols && 0 <= v <= 256 ==> #[trigger] h.csum(k, v) == wl(im, c, x - h.radius + k, 2 * h.radius + 1, lo, n, v)
}
/// A histogram of those rows, with sums that fit its pivots.
pub open spec fn hrep(h: MedianHist, im: &Image<u8>, c: int, x: int, r: int, nc: int, np: int, lo: int, n: int) -> bool {
    &&& h.ok() && h.data.n_cols == nc && h.data.radius == r && h.pivots@.len() == np
    &&& rep(h.data, im, c, x, lo, n)
    &&& np == 0 ==> forall|k: int| 0 <= k < nc ==> #[trigger] h.sums@[k] == 0
    &&& np > 0 ==> all_at(h)
}
pub open spec fn hreps(hs: Seq<MedianHist>, im: &Image<u8>, x: int, r: int, nc: int, np: int, lo: int, n: int) -> bool {
    hs.len() == im.info.channels && forall|c: int| 0 <= c < hs.len() ==> hrep(#[trigger] hs[c], im, c, x, r, nc, np, lo, n)
}
/// What `update` does to the counts.
pub open spec fn pupd(a: PartialHistograms, b: PartialHistograms, p: Seq<Seq<u8>>, c: int, add: bool) -> bool {
    b.ok() && b.n_cols == a.n_cols && b.radius == a.radius
    && forall|n: int, key: int| 0 <= n < a.n_cols && 0 <= key < 256 ==> #[trigger] b.hc(n, key) == a.hc(n, key) + sgn(add, wc(p, c, n, a.size as int, key))
}
pub proof fn lemma_upd(a: PartialHistograms, b: PartialHistograms, p: Seq<Seq<u8>>, c: int, add: bool, n: int, v: int)
    requires pupd(a, b, p, c, add), 0 <= n < a.n_cols, 0 <= v <= 256,
    ensures b.csum(n, v) == a.csum(n, v) + sgn(add, lw(p, c, n, a.size as int, v)),
    decreases v,
{
    let s = a.size as int;
    if v > 0 {
        lemma_upd(a, b, p, c, add, n, v - 1);
        lemma_pl_pc(p, c, n, v - 1);
        lemma_pl_pc(p, c, n + s, v - 1);
        assert(b.hc(n, v - 1) == a.hc(n, v - 1) + sgn(add, wc(p, c, n, s, v - 1)));
    } else { lemma_pl_pc(p, c, n, 0); lemma_pl_pc(p, c, n + s, 0); }
}
/// Counts of `n` rows from `lo` on, for blocks of `nc` columns.
pub open spec fn prep(h: PartialHistograms, im: &Image<u8>, c: int, x: int, r: int, nc: int, lo: int, n: int) -> bool {
    h.ok() && h.n_cols == nc && h.radius == r && rep(h, im, c, x, lo, n)
}
/// Adding the next row, removing the first row.
pub proof fn lemma_pnext(a: PartialHistograms, b: PartialHistograms, im: &Image<u8>, c: int, x: int, r: int, nc: int, lo: int, n: int, j: int, add: bool)
    requires
        prep(a, im, c, x, r, nc, lo, n), pupd(a, b, row_of(im, x, r, nc, j), c, add), 0 <= n,
        add ==> near(j, im.info.height as int) == near(lo + n, im.info.height as int), !add ==> near(j, im.info.height as int) == near(lo, im.info.height as int) && n >= 1,
    ensures prep(b, im, c, x, r, nc, if add { lo } else { lo + 1 }, if add { n + 1 } else { n - 1 }),
{
    let s = a.size as int;
    let p = row_of(im, x, r, nc, j);
    let (lo2, n2) = (if add { lo } else { lo + 1 }, if add { n + 1 } else { n - 1 });
    assert forall|k: int, v: int| 0 <= k < nc && 0 <= v <= 256 implies #[trigger] b.csum(k, v) == wl(im, c, x - r + k, s, lo2, n2, v) by {
        lemma_upd(a, b, p, c, add, k, v);
        assert(a.csum(k, v) == wl(im, c, x - r + k, s, lo, n, v));
        lemma_row(im, x, r, nc, j, c, k, s, v);
        lemma_same_row(im, c, x - r + k, s, j, if add { lo + n } else { lo }, v);
        if !add { lemma_wl_first(im, c, x - r + k, s, lo, n, v); }
    }
}
pub proof fn lemma_next(a: MedianHist, b: MedianHist, im: &Image<u8>, c: int, x: int, r: int, nc: int, np: int, lo: int, n: int, j: int, add: bool)
    requires
        hrep(a, im, c, x, r, nc, np, lo, n), upd(a, b, row_of(im, x, r, nc, j), c, add), 0 <= n,
        add ==> near(j, im.info.height as int) == near(lo + n, im.info.height as int), !add ==> near(j, im.info.height as int) == near(lo, im.info.height as int) && n >= 1,
    ensures hrep(b, im, c, x, r, nc, np, if add { lo } else { lo + 1 }, if add { n + 1 } else { n - 1 }),
{
    let s = a.data.size as int;
    let p = row_of(im, x, r, nc, j);
    lemma_pnext(a.data, b.data, im, c, x, r, nc, lo, n, j, add);
    if np > 0 {
        assert forall|k: int| 0 <= k < nc implies #[trigger] b.at(k) by {
            assert(a.at(k)); lemma_upd(a.data, b.data, p, c, add, k, a.pivots@[k] as int);
            assert(b.sums@[k] == a.sums@[k] + sgn(add, lw(p, c, k, s, a.pivots@[k] as int)));
        }
    } else {
        assert forall|k: int| 0 <= k < nc implies #[trigger] b.sums@[k] == 0 by { assert(a.sums@[k] == 0); }
    }
}
pub proof fn lemma_same_row(im: &Image<u8>, c: int, a: int, m: int, j: int, l: int, v: int)
    requires near(j, im.info.height as int) == near(l, im.info.height as int),
    ensures rl(im, c, a, m, j, v) == rl(im, c, a, m, l, v),
    decreases m,
{
    if m > 0 { lemma_same_row(im, c, a, m - 1, j, l, v); }
}
/// What holds for a histogram of `n` rows.
pub proof fn lemma_prep(h: PartialHistograms, im: &Image<u8>, c: int, x: int, r: int, nc: int, lo: int, n: int)
    requires prep(h, im, c, x, r, nc, lo, n), 0 <= n, n * (2 * r + 1) <= 0x6000_0000, 0 <= r,
    ensures h.total(n * (2 * r + 1)), h.within(0, 0x6000_0000),
{
    let s = 2 * r + 1;
    assert(0 <= n * s) by (nonlinear_arith) requires 0 <= n, 0 <= s;
    assert forall|k: int, key: int| 0 <= k < nc && 0 <= key < 256 implies 0 <= #[trigger] h.hc(k, key) <= n * s by {
        assert(h.csum(k, key + 1) == wl(im, c, x - r + k, s, lo, n, key + 1));
        assert(h.csum(k, key) == wl(im, c, x - r + k, s, lo, n, key));
        lemma_wl(im, c, x - r + k, s, lo, n, key);
    }
    assert forall|k: int| 0 <= k < nc implies #[trigger] h.csum(k, 256) == n * s by { lemma_wl(im, c, x - r + k, s, lo, n, 0); }
}
pub proof fn lemma_hrep(h: MedianHist, im: &Image<u8>, c: int, x: int, r: int, nc: int, np: int, lo: int, n: int)
    requires hrep(h, im, c, x, r, nc, np, lo, n), 0 <= n, n * (2 * r + 1) <= 0x6000_0000, 0 <= r,
    ensures
        h.data.total(n * (2 * r + 1)), h.data.within(0, 0x6000_0000),
        forall|k: int| 0 <= k < nc ==> 0 <= #[trigger] h.sums@[k] <= 0x6000_0000,
{
    let s = 2 * r + 1;
    lemma_prep(h.data, im, c, x, r, nc, lo, n);
    assert forall|k: int| 0 <= k < nc implies 0 <= #[trigger] h.sums@[k] <= 0x6000_0000 by {
        if np > 0 { assert(h.at(k)); let v = h.pivots@[k] as int; assert(h.data.csum(k, v) == wl(im, c, x - r + k, s, lo, n, v)); lemma_wl(im, c, x - r + k, s, lo, n, v); }
    }
}
pub proof fn lemma_zero(h: PartialHistograms, k: int, v: int)
    requires 0 <= k < h.n_cols, 0 <= v <= 256, forall|n: int, key: int| 0 <= n < h.n_cols && 0 <= key < 256 ==> #[trigger] h.hc(n, key) == 0,
    ensures h.csum(k, v) == 0,
    decreases v,
{
    if v > 0 { lemma_zero(h, k, v - 1); assert(h.hc(k, v - 1) == 0); }
}
pub proof fn lemma_fresh(h: MedianHist, im: &Image<u8>, c: int, x: int, r: int, nc: int, lo: int)
    requires h.ok(), h.data.n_cols == nc, h.data.radius == r, h.pivots@.len() == 0, 0 <= r,
        forall|n: int, key: int| 0 <= n < nc && 0 <= key < 256 ==> #[trigger] h.data.hc(n, key) == 0,
        forall|n: int| 0 <= n < nc ==> #[trigger] h.sums@[n] == 0,
    ensures hrep(h, im, c, x, r, nc, 0, lo, 0),
{
    assert forall|k: int, u: int| 0 <= k < nc && 0 <= u <= 256 implies #[trigger] h.data.csum(k, u) == 0 by { lemma_zero(h.data, k, u); }
}
/// Medians of the histograms are medians of the kernels.
pub proof fn lemma_med(hs: Seq<MedianHist>, im: &Image<u8>, x: int, r: int, nc: int, np: int, y: int, k: int, p: Seq<u8>)
    requires hreps(hs, im, x, r, nc, np, y - r, 2 * r + 1), 0 <= k < nc, med_px(hs, k, center_of(r), p), 0 <= r,
    ensures med_at(im, x + k, y, r, p),
{
    assert forall|c: int| 0 <= c < p.len() implies #[trigger] is_median(im, c, x + k, y, r, p[c] as int) by {
        assert(hrep(hs[c], im, c, x, r, nc, np, y - r, 2 * r + 1));
        assert(med_h(hs[c], k, center_of(r), p[c] as int));
        assert(hs[c].data.csum(k, p[c] as int) == wl(im, c, x - r + k, 2 * r + 1, y - r, 2 * r + 1, p[c] as int));
        assert(hs[c].data.csum(k, p[c] + 1) == wl(im, c, x - r + k, 2 * r + 1, y - r, 2 * r + 1, p[c] + 1));
    }
}
@@ mod filter::median
@ items
/// The first `n` pixels from column `a` on in row `j`.
pub open spec fn row_upto(v: Seq<&[u8]>, im: &Image<u8>, a: int, j: int, n: int) -> bool {
    v.len() == n && forall|k: int| 0 <= k < n ==> (#[trigger] v[k])@ == at_edge(im, a + k, j) && v[k]@.len() == im.info.channels
}
@@ fn filter::median::init_cols_med
@ requires
input.wf(), input.info.height >= 1, old(output).wf(), old(output).info == input.info, old(histograms)@.len() == input.info.channels,
radius <= 20000, x + n_cols + radius <= i32::MAX, x < input.info.width, n_cols <= 0x100_0000, n_cols % 2 == 1, center == center_of(radius as int), input.info.height + radius < i32::MAX,
input.info.width <= i32::MAX,
hreps(old(histograms)@, input, x as int, radius as int, n_cols as int, 0, -radius, 0)
@ ensures
hreps(final(histograms)@, input, x as int, radius as int, n_cols as int, n_cols as int, -radius, 2 * radius + 1),
final(output).info == input.info, final(output).wf(),
forall|u: int, v: int| 0 <= u < input.info.width && 0 <= v < input.info.height ==> if v == 0 && x <= u < x + n_cols { med_at(input, u, v, radius as int, #[trigger] final(output).px(u, v)) } else { final(output).px(u, v) == old(output).px(u, v) }
@ start
let ghost (nc, ctr, rr, sz) = (n_cols as int, center as int, radius as int, 2 * radius + 1);
let ghost o0 = *output;
let ghost xx = x as int;
let ghost mut hp = histograms@;
@ loop 0
hreps(histograms@, input, xx, rr, nc, 0, -rr, $i + rr), row_in@.len() == 0
@ loop 1
row_upto(row_in@, input, xx - rr, j as int, $i - $lo)
@ loopstart 1
proof { lemma_idx(input.info.width as int, input.info.height as int, near(i as int, input.info.width as int), near(j as int, input.info.height as int)); }
@ before add_row_med 0
let ghost hb = histograms@;
let ghost rv = slices_view(row_in@);
proof {
    assert(rv =~= row_of(input, xx, rr, nc, j as int));
    assert forall|c: int| 0 <= c < hb.len() implies upd_ok(#[trigger] hb[c], rv, c) by {
        assert((j + rr) * sz <= sz * sz) by (nonlinear_arith) requires 0 <= j + rr <= sz, sz >= 0;
        assert(sz * sz <= 40001 * 40001) by (nonlinear_arith) requires 0 <= sz <= 40001;
        lemma_hrep(hb[c], input, c, xx, rr, nc, 0, -rr, j + rr);
    }
}
@ after add_row_med 0
proof {
    assert forall|c: int| 0 <= c < histograms@.len() implies hrep(#[trigger] histograms@[c], input, c, xx, rr, nc, 0, -rr, j + rr + 1) by {
        lemma_next(hb[c], histograms@[c], input, c, xx, rr, nc, 0, -rr, j + rr, j as int, true);
    }
}
@ loopbefore 2
proof { hp = histograms@; }
@ loop 2
histograms@.len() == hp.len(),
forall|m: int| 0 <= m < $i ==> (#[trigger] histograms@[m]).data == hp[m].data && histograms@[m].sums == hp[m].sums && histograms@[m].ok() && histograms@[m].pivots@.len() == nc && forall|n: int| 0 <= n < nc ==> #[trigger] histograms@[m].pivots@[n] == 0,
forall|m: int| $i <= m < hp.len() ==> #[trigger] histograms@[m] == hp[m]
@ loopbefore 3
let ghost h0 = histograms@;
let ghost t = sz * sz;
proof {
    assert(sz * sz <= 40001 * 40001) by (nonlinear_arith) requires 0 <= sz <= 40001;
    assert(ctr <= t) by (nonlinear_arith) requires ctr == 2 * rr * (rr + 1) + 1, t == sz * sz, sz == 2 * rr + 1, rr >= 0;
    assert(ctr >= 1) by (nonlinear_arith) requires ctr == 2 * rr * (rr + 1) + 1, rr >= 0;
    assert forall|c: int| 0 <= c < h0.len() implies hrep(#[trigger] h0[c], input, c, xx, rr, nc, nc, -rr, sz) by {
        assert(hrep(hp[c], input, c, xx, rr, nc, 0, -rr, sz));
        assert forall|n: int| 0 <= n < nc implies #[trigger] h0[c].at(n) by { assert(h0[c].pivots@[n] == 0); assert(hp[c].sums@[n] == 0); }
    }
    assert forall|c: int| 0 <= c < h0.len() implies #[trigger] hist_ok(h0[c], nc, t) && kept(h0[c], h0[c]) by { lemma_hrep(h0[c], input, c, xx, rr, nc, nc, -rr, sz); }
}
@ loop 3
histograms@.len() == h0.len(), output.info == o0.info, output.wf(),
forall|c: int| 0 <= c < h0.len() ==> kept(h0[c], #[trigger] histograms@[c]),
forall|u: int, v: int| 0 <= u < o0.info.width && 0 <= v < o0.info.height ==> if v == 0 && xx <= u < xx + $i { med_at(input, u, v, rr, #[trigger] output.px(u, v)) } else { output.px(u, v) == o0.px(u, v) }
@ loopstart 3
let ghost h1 = histograms@;
let ghost o1 = *output;
@ loop 4
h1.len() == h0.len(), p_out@.len() == $i, 
forall|m: int| 0 <= m < $i ==> stepped(h1[m], #[trigger] histograms@[m], i as int, ctr, p_out@[m] as int),
forall|m: int| $i <= m < h0.len() ==> #[trigger] histograms@[m] == h1[m]
@ loopstart 4
let ghost p1 = p_out@;
let ghost ck = p1.len() as int;
let ghost hc = *hist;
let ghost dt = hc.data;
proof { assert(hist_ok(h0[ck], nc, t)); assert(hc == h1[ck]); assert(kept(h0[ck], hc)); assert(hc.at(i as int));
    assert(dt.csum(i as int, 256) == t); }
@ loop 5
p_out@ == p1, *hist == hc, sum == dt.csum(i as int, g__5), sum < center
ensures p_out@.len() == ck + 1, p_out@.subrange(0, ck) == p1, stepped(hc, *hist, i as int, ctr, p_out@[ck] as int),
@ loopstart 5
proof { dt.lemma_csum(i as int, key as int, 256); dt.lemma_csum(i as int, key as int + 1, 256); assert(dt.hc(i as int, key as int) >= 0); }
@ before set_pivots_med 0
let ghost h2 = histograms@;
proof {
    assert forall|c: int| 0 <= c < h0.len() implies (#[trigger] h2[c]).pivots@.len() == nc && h2[c].data == h0[c].data && h2[c].sums@[i as int] == h0[c].data.csum(i as int, p_out@[c] as int) && med_h(h0[c], i as int, ctr, p_out@[c] as int) by {
        assert(kept(h0[c], h1[c])); assert(hist_ok(h0[c], nc, t)); assert(stepped(h1[c], h2[c], i as int, ctr, p_out@[c] as int));
        h0[c].data.lemma_csum(i as int, p_out@[c] as int, 256); assert(h0[c].data.csum(i as int, 256) == t);
    }
    assert forall|c: int| 0 <= c < h0.len() implies #[trigger] med_h(h0[c], i as int, ctr, p_out@[c] as int) by { assert(h2[c].data == h0[c].data); }
    lemma_med(h0, input, xx, rr, nc, nc, 0, i as int, p_out@);
}
@ loopend 3
proof {
    assert forall|c: int| 0 <= c < h0.len() implies kept(h0[c], #[trigger] histograms@[c]) by {
        assert(kept(h0[c], h1[c])); assert(stepped(h1[c], h2[c], i as int, ctr, p_out@[c] as int));
        assert forall|n: int| 0 <= n < h0[c].data.n_cols implies #[trigger] histograms@[c].at(n) by { if n != i { assert(h1[c].at(n)); } else { assert(h2[c].sums@[n] == h0[c].data.csum(n, p_out@[c] as int)); } }
    }
}
@ loopafter 3
proof {
    assert forall|c: int| 0 <= c < h0.len() implies hrep(#[trigger] histograms@[c], input, c, xx, rr, nc, nc, -rr, sz) by { assert(kept(h0[c], histograms@[c])); }
}
@@ mod filter::median
@ items
/// What the block of `nc` columns from `x` on needs.
pub open spec fn block_ok(im: &Image<u8>, r: int, nc: int, x: int) -> bool {
    im.wf() && im.info.height >= 1 && 0 <= r <= 20000 && x + nc + r <= i32::MAX && 0 <= x < im.info.width && 1 <= nc <= 0x100_0000 && nc % 2 == 1 && im.info.height + r < i32::MAX && im.info.width <= i32::MAX
}
/// Column x..x+nc has the medians, the others are those of `o`; `n` rows are done.
pub open spec fn block_done(im: &Image<u8>, o: &Image<u8>, b: &Image<u8>, r: int, nc: int, x: int, n: int) -> bool {
    b.info == im.info && b.wf()
    && forall|u: int, v: int| 0 <= u < im.info.width && 0 <= v < im.info.height ==> if v < n && x <= u < x + nc { med_at(im, u, v, r, #[trigger] b.px(u, v)) } else { b.px(u, v) == o.px(u, v) }
}
@@ fn filter::median::process_cols_med
@ requires
block_ok(input, radius as int, n_cols as int, x as int), old(output).wf(), old(output).info == input.info
@ ensures
block_done(input, old(output), final(output), radius as int, n_cols as int, x as int, input.info.height as int)
@ start
let ghost (nc, rr, sz) = (n_cols as int, radius as int, 2 * radius + 1);
let ghost o0 = *output;
let ghost xx = x as int;
proof {
    assert(sz * sz <= 40001 * 40001) by (nonlinear_arith) requires 0 <= sz <= 40001;
    assert((sz + 1) * sz <= 0x6000_0000) by (nonlinear_arith) requires 0 <= sz <= 40001;
    assert((sz * sz) / 2 + 1 == center_of(rr)) by (nonlinear_arith) requires sz == 2 * rr + 1, rr >= 0;
    assert(center_of(rr) <= sz * sz && center_of(rr) >= 1) by (nonlinear_arith) requires sz == 2 * rr + 1, rr >= 0;
}
@ before init_cols_med 0
proof {
    assert forall|c: int| 0 <= c < histograms@.len() implies hrep(#[trigger] histograms@[c], input, c, xx, rr, nc, 0, -rr, 0) by { lemma_fresh(histograms@[c], input, c, xx, rr, nc, -rr); }
}
@ loop 0
hreps(histograms@, input, xx, rr, nc, nc, $i - 1 - rr, sz), block_done(input, &o0, output, rr, nc, xx, $i as int), row_in@.len() == 0, row_out@.len() == 0
@ loop 1
row_upto(row_in@, input, xx - rr, j + rr, $i - $lo), row_upto(row_out@, input, xx - rr, j - rr - 1, $i - $lo)
@ loopstart 1
proof {
    lemma_idx(input.info.width as int, input.info.height as int, near(i as int, input.info.width as int), near(j + rr, input.info.height as int));
    lemma_idx(input.info.width as int, input.info.height as int, near(i as int, input.info.width as int), near(j - rr - 1, input.info.height as int));
}
@ before add_row_med 0
let ghost hb = histograms@;
let ghost ri = slices_view(row_in@);
let ghost ro = slices_view(row_out@);
proof {
    assert(ri =~= row_of(input, xx, rr, nc, j + rr));
    assert(ro =~= row_of(input, xx, rr, nc, j - rr - 1));
    assert forall|c: int| 0 <= c < hb.len() implies upd_ok(#[trigger] hb[c], ri, c) by {
        assert(sz * sz <= 0x6000_0000);
        lemma_hrep(hb[c], input, c, xx, rr, nc, nc, j - 1 - rr, sz);
    }
}
@ before remove_row_med 0
let ghost hm = histograms@;
proof {
    assert forall|c: int| 0 <= c < hm.len() implies upd_ok(#[trigger] hm[c], ro, c) && hrep(hm[c], input, c, xx, rr, nc, nc, j - 1 - rr, sz + 1) by {
        lemma_next(hb[c], hm[c], input, c, xx, rr, nc, nc, j - 1 - rr, sz, j + rr, true);
        lemma_hrep(hm[c], input, c, xx, rr, nc, nc, j - 1 - rr, sz + 1);
    }
}
@ before process_row_med 0
let ghost hr = histograms@;
let ghost ob = *output;
proof {
    assert forall|c: int| 0 <= c < hr.len() implies hrep(#[trigger] hr[c], input, c, xx, rr, nc, nc, j - rr, sz) && hist_ok(hr[c], nc, sz * sz) by {
        lemma_next(hm[c], hr[c], input, c, xx, rr, nc, nc, j - 1 - rr, sz + 1, j - rr - 1, false);
        lemma_hrep(hr[c], input, c, xx, rr, nc, nc, j - rr, sz);
    }
    assert(hists_ok(hr, nc, sz * sz));
}
@ after process_row_med 0
proof {
    assert forall|c: int| 0 <= c < hr.len() implies hrep(#[trigger] histograms@[c], input, c, xx, rr, nc, nc, j - rr, sz) by { assert(kept(hr[c], histograms@[c])); }
    assert forall|u: int| 0 <= u < input.info.width && xx <= u < xx + nc implies med_at(input, u, j as int, rr, #[trigger] output.px(u, j as int)) by {
        lemma_med(hr, input, xx, rr, nc, nc, j as int, u - xx, output.px(u, j as int));
    }
    assert forall|u: int, v: int| 0 <= u < input.info.width && 0 <= v < input.info.height implies if v < j + 1 && xx <= u < xx + nc { med_at(input, u, v, rr, #[trigger] output.px(u, v)) } else { output.px(u, v) == o0.px(u, v) } by {
        if !(v == j && xx <= u < xx + nc) { assert(output.px(u, v) == ob.px(u, v)); }
    }
}
@@ mod filter::median
@ items
/// Images and radii whose coordinates fit the 32-bit arithmetic and whose counts fit 31 bits.
pub open spec fn med_dom(im: &Image<u8>, r: int) -> bool {
    im.wf() && r <= 20000 && im.info.width <= 0x7000_0000 && im.info.height <= 0x7000_0000
}
@@ fn filter::median::median_filter
@ requires
med_dom(input, radius as int)
@ ensures
r is Ok, r->Ok_0.info == input.info, r->Ok_0.wf(),
forall|u: int, v: int| 0 <= u < input.info.width && 0 <= v < input.info.height ==> med_at(input, u, v, radius as int, #[trigger] r->Ok_0.px(u, v))
@ start
proof { float_axioms(); lit_axioms(); lemma_cols(radius as int); }
@ loop 0
output.info == input.info, output.wf(), forall|u: int, v: int| 0 <= u < $i && 0 <= v < input.info.height ==> med_at(input, u, v, radius as int, #[trigger] output.px(u, v))
@ loopstart 0
let ghost ob = output;
@ after process_cols_med 0
proof {
    assert forall|u: int, v: int| 0 <= u < x + n_cols && u < input.info.width && 0 <= v < input.info.height implies med_at(input, u, v, radius as int, #[trigger] output.px(u, v)) by {
        if u < x { assert(med_at(input, u, v, radius as int, ob.px(u, v))); assert(output.px(u, v) == ob.px(u, v)); }
    }
}
@@ mod filter::median
@ items
impl MeanHist {
    /// `t` values per window, of which `trim` at each end are discarded.
    pub open spec fn ok(&self, t: int) -> bool {
        self.data.ok() && 0 <= self.trim && self.len >= 1 && 2 * self.trim + self.len == t && 0 <= t <= 0x6000_0000
    }
}
/// Rank `n`, moved into the ranks that participate.
pub open spec fn clip(n: int, trim: int, len: int) -> int { if n < trim { trim } else if n > trim + len { trim + len } else { n } }
/// Sum of the participating values below `k` of the window in column `n`.
pub open spec fn part(h: PartialHistograms, n: int, trim: int, len: int, k: int) -> int
    decreases k
{
    if k <= 0 { 0 } else { part(h, n, trim, len, k - 1) + (k - 1) * (clip(h.csum(n, k), trim, len) - clip(h.csum(n, k - 1), trim, len)) }
}
/// `s / len`, rounded to the nearest integer.
pub open spec fn rdiv(s: int, len: int) -> int { (2 * s + len) / (2 * len) }
pub proof fn lemma_part(h: PartialHistograms, n: int, trim: int, len: int, k: int)
    requires forall|key: int| 0 <= key < 256 ==> 0 <= #[trigger] h.hc(n, key), 0 <= k <= 256, 0 <= trim, 0 <= len,
    ensures 0 <= part(h, n, trim, len, k) <= 255 * (clip(h.csum(n, k), trim, len) - trim), 0 <= h.csum(n, k),
    decreases k,
{
    if k > 0 {
        lemma_part(h, n, trim, len, k - 1);
        assert(0 <= h.hc(n, k - 1));
        let d = clip(h.csum(n, k), trim, len) - clip(h.csum(n, k - 1), trim, len);
        assert(0 <= (k - 1) * d <= 255 * d) by (nonlinear_arith) requires 0 <= k - 1 <= 255, 0 <= d;
    }
}
impl Clone for MeanHist {
    fn clone(&self) -> (r: Self)
        ensures r.data.data@ == self.data.data@, r.data.n_cols == self.data.n_cols, r.data.n_half == self.data.n_half, r.data.radius == self.data.radius, r.data.size == self.data.size, r.trim == self.trim, r.len == self.len,
            forall|n: int, key: int| #[trigger] r.data.hc(n, key) == self.data.hc(n, key),
    {
        MeanHist { data: self.data.clone(), trim: self.trim, len: self.len }
    }
}
/// Sum of the participating values below `k` of the kernel around (x, y).
pub open spec fn trimmed(im: &Image<u8>, c: int, x: int, y: int, r: int, trim: int, len: int, k: int) -> int
    decreases k
{
    if k <= 0 { 0 } else { trimmed(im, c, x, y, r, trim, len, k - 1) + (k - 1) * (clip(below(im, c, x, y, r, k), trim, len) - clip(below(im, c, x, y, r, k - 1), trim, len)) }
}
/// The rounded mean of the kernel without its `alpha / 2` lowest and highest values.
pub open spec fn tmean(im: &Image<u8>, c: int, x: int, y: int, r: int, alpha: int) -> int {
    let len = (2 * r + 1) * (2 * r + 1) - alpha;
    rdiv(trimmed(im, c, x, y, r, alpha / 2, len, 256), len)
}
pub open spec fn mean_at(im: &Image<u8>, u: int, v: int, r: int, alpha: int, p: Seq<u8>) -> bool {
    p.len() == im.info.channels && forall|c: int| 0 <= c < p.len() ==> #[trigger] p[c] == tmean(im, c, u, v, r, alpha)
}
@@ fn filter::median::MeanHist::new
@ requires
n_cols % 2 == 1, n_cols <= 0x100_0000, radius <= 20000, alpha % 2 == 0, alpha < (2 * radius + 1) * (2 * radius + 1)
@ ensures
r.ok((2 * radius + 1) * (2 * radius + 1)), r.data.n_cols == n_cols, r.data.radius == radius, r.trim == alpha / 2, r.len == (2 * radius + 1) * (2 * radius + 1) - alpha,
forall|n: int, key: int| 0 <= n < n_cols && 0 <= key < 256 ==> #[trigger] r.data.hc(n, key) == 0
@ start
proof { let s = 2 * radius + 1; assert(s * s <= 40001 * 40001) by (nonlinear_arith) requires 0 <= s <= 40001; assert(0 <= s * s) by (nonlinear_arith) requires 0 <= s; }
@@ fn filter::median::MeanHist::data
@ ensures
r == &self.data
@@ fn filter::median::MeanHist::update
@ requires
old(self).data.ok(), p_in@.len() == old(self).data.n_cols + 2 * old(self).data.radius,
forall|i: int| 0 <= i < p_in@.len() ==> channel_index < (#[trigger] slices_view(p_in@)[i]).len(),
old(self).data.within(0, 0x6000_0000)
@ ensures
final(self).trim == old(self).trim, final(self).len == old(self).len, pupd(old(self).data, final(self).data, slices_view(p_in@), channel_index as int, add)
@ start
proof { let p = slices_view(p_in@); assert forall|i: int| 0 <= i < p_in@.len() implies channel_index < (#[trigger] p_in@[i])@.len() by { assert(p[i] == p_in@[i]@); } }
@@ fn filter::median::MeanHist::get_mean
@ requires
exists|t: int| #[trigger] self.ok(t) && self.data.total(t), index < self.data.n_cols
@ ensures
r == rdiv(part(self.data, index as int, self.trim as int, self.len as int, 256), self.len as int)
@ start
let ghost t = choose|t: int| #[trigger] self.ok(t) && self.data.total(t);
let ghost (n, tr, ln) = (index as int, self.trim as int, self.len as int);
let ghost dt = self.data;
proof { assert(dt.csum(n, 256) == t); assert forall|key: int| 0 <= key < 256 implies 0 <= #[trigger] dt.hc(n, key) <= t by { } }
@ loop 0
lower == tr - (if dt.csum(n, g__0) < tr { dt.csum(n, g__0) } else { tr }),
rest == tr + ln - clip(dt.csum(n, g__0), tr, ln),
sum == part(dt, n, tr, ln, g__0)
@ loopstart 0
proof {
    dt.lemma_csum(n, key as int, 256); dt.lemma_csum(n, key + 1, 256); lemma_part(dt, n, tr, ln, key as int); lemma_part(dt, n, tr, ln, key + 1);
    assert(0 <= dt.hc(n, key as int) <= t);
    let d = clip(dt.csum(n, key + 1), tr, ln) - clip(dt.csum(n, key as int), tr, ln);
    assert(d * key == key * d && 0 <= d * key <= 255 * d) by (nonlinear_arith) requires 0 <= d, 0 <= key <= 255;
}
@ loopafter 0
proof {
    lemma_part(dt, n, tr, ln, 256); assert(g__0 == 256); assert(dt.csum(n, 256) == t);
    let s = sum as int;
    assert((2 * s + ln) / (2 * ln) <= 255) by (nonlinear_arith) requires 0 <= s <= 255 * ln, ln >= 1;
    assert((2 * s + ln) / (2 * ln) >= 0) by (nonlinear_arith) requires 0 <= s, ln >= 1;
}
@@ mod filter::median
@ items
pub open spec fn mupd_ok(a: MeanHist, p: Seq<Seq<u8>>, c: int) -> bool {
    a.data.ok() && p.len() == a.data.n_cols + 2 * a.data.radius && (forall|i: int| 0 <= i < p.len() ==> c < (#[trigger] p[i]).len()) && a.data.within(0, 0x6000_0000)
}
pub open spec fn mupd(a: MeanHist, b: MeanHist, p: Seq<Seq<u8>>, c: int, add: bool) -> bool { b.trim == a.trim && b.len == a.len && pupd(a.data, b.data, p, c, add) }
/// A histogram of `n` rows from `lo` on.
pub open spec fn mrep(h: MeanHist, im: &Image<u8>, c: int, x: int, r: int, nc: int, alpha: int, lo: int, n: int) -> bool {
    h.ok((2 * r + 1) * (2 * r + 1)) && h.trim == alpha / 2 && h.len == (2 * r + 1) * (2 * r + 1) - alpha && prep(h.data, im, c, x, r, nc, lo, n)
}
pub open spec fn mreps(hs: Seq<MeanHist>, im: &Image<u8>, x: int, r: int, nc: int, alpha: int, lo: int, n: int) -> bool {
    hs.len() == im.info.channels && forall|c: int| 0 <= c < hs.len() ==> mrep(#[trigger] hs[c], im, c, x, r, nc, alpha, lo, n)
}
pub proof fn lemma_mfresh(h: MeanHist, im: &Image<u8>, c: int, x: int, r: int, nc: int, lo: int)
    requires h.data.ok(), h.data.n_cols == nc, h.data.radius == r, 0 <= r,
        forall|n: int, key: int| 0 <= n < nc && 0 <= key < 256 ==> #[trigger] h.data.hc(n, key) == 0,
    ensures prep(h.data, im, c, x, r, nc, lo, 0),
{
    assert forall|k: int, u: int| 0 <= k < nc && 0 <= u <= 256 implies #[trigger] h.data.csum(k, u) == 0 by { lemma_zero(h.data, k, u); }
}
pub proof fn lemma_trimmed(h: PartialHistograms, im: &Image<u8>, c: int, x: int, r: int, nc: int, y: int, k: int, trim: int, len: int, v: int)
    requires prep(h, im, c, x, r, nc, y - r, 2 * r + 1), 0 <= k < nc, 0 <= v <= 256,
    ensures part(h, k, trim, len, v) == trimmed(im, c, x + k, y, r, trim, len, v),
    decreases v,
{
    if v > 0 {
        lemma_trimmed(h, im, c, x, r, nc, y, k, trim, len, v - 1);
        assert(h.csum(k, v) == below(im, c, x + k, y, r, v));
        assert(h.csum(k, v - 1) == below(im, c, x + k, y, r, v - 1));
    }
}
/// What `get_mean` needs and returns.
pub proof fn lemma_mean(h: MeanHist, im: &Image<u8>, c: int, x: int, r: int, nc: int, alpha: int, y: int, k: int)
    requires mrep(h, im, c, x, r, nc, alpha, y - r, 2 * r + 1), 0 <= k < nc, 0 <= r <= 20000,
    ensures
        exists|t: int| #[trigger] h.ok(t) && h.data.total(t),
        rdiv(part(h.data, k, h.trim as int, h.len as int, 256), h.len as int) == tmean(im, c, x + k, y, r, alpha),
{
    let s = 2 * r + 1;
    assert(s * s <= 40001 * 40001) by (nonlinear_arith) requires 0 <= s <= 40001;
    lemma_prep(h.data, im, c, x, r, nc, y - r, s);
    assert(h.ok(s * s));
    lemma_trimmed(h.data, im, c, x, r, nc, y, k, h.trim as int, h.len as int, 256);
}
/// Column x..x+nc of the first `n` rows has the means, the others are those of `o`.
pub open spec fn mblock_done(im: &Image<u8>, o: &Image<u8>, b: &Image<u8>, r: int, alpha: int, nc: int, x: int, n: int) -> bool {
    b.info == im.info && b.wf()
    && forall|u: int, v: int| 0 <= u < im.info.width && 0 <= v < im.info.height ==> if v < n && x <= u < x + nc { mean_at(im, u, v, r, alpha, #[trigger] b.px(u, v)) } else { b.px(u, v) == o.px(u, v) }
}
/// The same, with `k` columns of row `y` done.
pub open spec fn mrow_done(im: &Image<u8>, o: &Image<u8>, b: &Image<u8>, r: int, alpha: int, x: int, y: int, k: int) -> bool {
    b.info == im.info && b.wf()
    && forall|u: int, v: int| 0 <= u < im.info.width && 0 <= v < im.info.height ==> if v == y && x <= u < x + k { mean_at(im, u, v, r, alpha, #[trigger] b.px(u, v)) } else { b.px(u, v) == o.px(u, v) }
}
@@ fn filter::median::add_row_mean
@ requires
forall|c: int| 0 <= c < old(histograms)@.len() ==> mupd_ok(#[trigger] old(histograms)@[c], slices_view(p_in@), c)
@ ensures
final(histograms)@.len() == old(histograms)@.len(),
forall|c: int| 0 <= c < old(histograms)@.len() ==> mupd(old(histograms)@[c], #[trigger] final(histograms)@[c], slices_view(p_in@), c, true)
@ start
let ghost h0 = histograms@;
@ loop 0
histograms@.len() == h0.len(),
forall|m: int| 0 <= m < $i ==> mupd(h0[m], #[trigger] histograms@[m], slices_view(p_in@), m, true),
forall|m: int| $i <= m < h0.len() ==> #[trigger] histograms@[m] == h0[m]
@@ fn filter::median::remove_row_mean
@ requires
forall|c: int| 0 <= c < old(histograms)@.len() ==> mupd_ok(#[trigger] old(histograms)@[c], slices_view(p_in@), c)
@ ensures
final(histograms)@.len() == old(histograms)@.len(),
forall|c: int| 0 <= c < old(histograms)@.len() ==> mupd(old(histograms)@[c], #[trigger] final(histograms)@[c], slices_view(p_in@), c, false)
@ start
let ghost h0 = histograms@;
@ loop 0
histograms@.len() == h0.len(),
forall|m: int| 0 <= m < $i ==> mupd(h0[m], #[trigger] histograms@[m], slices_view(p_in@), m, false),
forall|m: int| $i <= m < h0.len() ==> #[trigger] histograms@[m] == h0[m]
@@ mod filter::median
@ items
/// Each histogram gives the mean of column `k` of row `y`.
pub open spec fn means(hs: Seq<MeanHist>, nc: int) -> bool {
    forall|c: int| 0 <= c < hs.len() ==> (#[trigger] hs[c]).data.n_cols == nc && exists|t: int| #[trigger] hs[c].ok(t) && hs[c].data.total(t)
}
pub open spec fn mean_h(h: MeanHist, k: int) -> int { rdiv(part(h.data, k, h.trim as int, h.len as int, 256), h.len as int) }
pub open spec fn mean_px(hs: Seq<MeanHist>, k: int, p: Seq<u8>) -> bool { p.len() == hs.len() && forall|c: int| 0 <= c < p.len() ==> #[trigger] p[c] == mean_h(hs[c], k) }
@@ fn filter::median::process_row_mean
@ requires
old(output).wf(), y < old(output).info.height, old(histograms)@.len() == old(output).info.channels, x + n_cols <= u32::MAX, means(old(histograms)@, n_cols as int)
@ ensures
final(histograms)@ == old(histograms)@, final(output).info == old(output).info, final(output).wf(),
forall|u: int, v: int| 0 <= u < old(output).info.width && 0 <= v < old(output).info.height ==> if v == y && x <= u < x + n_cols { mean_px(old(histograms)@, u - x, #[trigger] final(output).px(u, v)) } else { final(output).px(u, v) == old(output).px(u, v) }
@ start
let ghost h0 = histograms@;
let ghost o0 = *output;
@ loop 0
histograms@ == h0, output.info == o0.info, output.wf(),
forall|u: int, v: int| 0 <= u < o0.info.width && 0 <= v < o0.info.height ==> if v == y && x <= u < x + $i { mean_px(h0, u - x, #[trigger] output.px(u, v)) } else { output.px(u, v) == o0.px(u, v) }
@ loop 1
histograms@ =~= h0, p_out@.len() == $i, forall|c: int| 0 <= c < $i ==> #[trigger] p_out@[c] == mean_h(h0[c], i as int)
@@ fn filter::median::init_cols_mean
@ requires
block_ok(input, radius as int, n_cols as int, x as int), old(output).wf(), old(output).info == input.info,
exists|alpha: int| #[trigger] mreps(old(histograms)@, input, x as int, radius as int, n_cols as int, alpha, -radius, 0)
@ ensures
forall|alpha: int| #[trigger] mreps(old(histograms)@, input, x as int, radius as int, n_cols as int, alpha, -radius, 0) ==>
    mreps(final(histograms)@, input, x as int, radius as int, n_cols as int, alpha, -radius, 2 * radius + 1) && mrow_done(input, old(output), final(output), radius as int, alpha, x as int, 0, n_cols as int)
@ start
let ghost (nc, rr, sz, xx) = (n_cols as int, radius as int, 2 * radius + 1, x as int);
let ghost al = choose|alpha: int| #[trigger] mreps(histograms@, input, x as int, radius as int, n_cols as int, alpha, -radius, 0);
let ghost (h00, o0) = (histograms@, *output);
proof {
    assert(sz * sz <= 40001 * 40001) by (nonlinear_arith) requires 0 <= sz <= 40001;
    assert forall|alpha: int| #[trigger] mreps(h00, input, xx, rr, nc, alpha, -rr, 0) implies alpha == al by { assert(mrep(h00[0], input, 0, xx, rr, nc, alpha, -rr, 0)); assert(mrep(h00[0], input, 0, xx, rr, nc, al, -rr, 0)); }
}
@ loop 0
mreps(histograms@, input, xx, rr, nc, al, -rr, $i + rr), row_in@.len() == 0
@ loop 1
row_upto(row_in@, input, xx - rr, j as int, $i - $lo)
@ loopstart 1
proof { lemma_idx(input.info.width as int, input.info.height as int, near(i as int, input.info.width as int), near(j as int, input.info.height as int)); }
@ before add_row_mean 0
let ghost hb = histograms@;
let ghost rv = slices_view(row_in@);
proof {
    assert(rv =~= row_of(input, xx, rr, nc, j as int));
    assert forall|c: int| 0 <= c < hb.len() implies mupd_ok(#[trigger] hb[c], rv, c) by {
        assert((j + rr) * sz <= sz * sz) by (nonlinear_arith) requires 0 <= j + rr <= sz, sz >= 0;
        lemma_prep(hb[c].data, input, c, xx, rr, nc, -rr, j + rr);
    }
}
@ after add_row_mean 0
proof {
    assert forall|c: int| 0 <= c < histograms@.len() implies mrep(#[trigger] histograms@[c], input, c, xx, rr, nc, al, -rr, j + rr + 1) by {
        lemma_pnext(hb[c].data, histograms@[c].data, input, c, xx, rr, nc, -rr, j + rr, j as int, true);
    }
}
@ loopbefore 2
let ghost h0 = histograms@;
@ loop 2
histograms@ == h0, mrow_done(input, &o0, output, rr, al, xx, 0, $i as int)
@ loopstart 2
proof { assert forall|c: int| 0 <= c < h0.len() implies mean_h(#[trigger] h0[c], i as int) == tmean(input, c, xx + i, 0, rr, al) && (exists|t: int| #[trigger] h0[c].ok(t) && h0[c].data.total(t)) by { lemma_mean(h0[c], input, c, xx, rr, nc, al, 0, i as int); } }
@ loop 3
histograms@ =~= h0, p_out@.len() == $i, forall|c: int| 0 <= c < $i ==> #[trigger] p_out@[c] == tmean(input, c, xx + i, 0, rr, al)
@@ fn filter::median::process_cols_mean
@ requires
block_ok(input, radius as int, n_cols as int, x as int), old(output).wf(), old(output).info == input.info, alpha % 2 == 0, alpha < (2 * radius + 1) * (2 * radius + 1)
@ ensures
mblock_done(input, old(output), final(output), radius as int, alpha as int, n_cols as int, x as int, input.info.height as int)
@ start
let ghost (nc, rr, sz) = (n_cols as int, radius as int, 2 * radius + 1);
let ghost (xx, al) = (x as int, alpha as int);
let ghost o0 = *output;
proof {
    assert(sz * sz <= 40001 * 40001) by (nonlinear_arith) requires 0 <= sz <= 40001;
    assert((sz + 1) * sz <= 0x6000_0000) by (nonlinear_arith) requires 0 <= sz <= 40001;
}
@ before init_cols_mean 0
proof {
    assert forall|c: int| 0 <= c < histograms@.len() implies mrep(#[trigger] histograms@[c], input, c, xx, rr, nc, al, -rr, 0) by { lemma_mfresh(histograms@[c], input, c, xx, rr, nc, -rr); }
    assert(mreps(histograms@, input, xx, rr, nc, al, -rr, 0));
}
@ loop 0
mreps(histograms@, input, xx, rr, nc, al, $i - 1 - rr, sz), mblock_done(input, &o0, output, rr, al, nc, xx, $i as int), row_in@.len() == 0, row_out@.len() == 0
@ loop 1
row_upto(row_in@, input, xx - rr, j + rr, $i - $lo), row_upto(row_out@, input, xx - rr, j - rr - 1, $i - $lo)
@ loopstart 1
proof {
    lemma_idx(input.info.width as int, input.info.height as int, near(i as int, input.info.width as int), near(j + rr, input.info.height as int));
    lemma_idx(input.info.width as int, input.info.height as int, near(i as int, input.info.width as int), near(j - rr - 1, input.info.height as int));
}
@ before add_row_mean 0
let ghost hb = histograms@;
let ghost ri = slices_view(row_in@);
let ghost ro = slices_view(row_out@);
proof {
    assert(ri =~= row_of(input, xx, rr, nc, j + rr));
    assert(ro =~= row_of(input, xx, rr, nc, j - rr - 1));
    assert forall|c: int| 0 <= c < hb.len() implies mupd_ok(#[trigger] hb[c], ri, c) by {
        assert(sz * sz <= 0x6000_0000);
        lemma_prep(hb[c].data, input, c, xx, rr, nc, j - 1 - rr, sz);
    }
}
@ before remove_row_mean 0
let ghost hm = histograms@;
proof {
    assert forall|c: int| 0 <= c < hm.len() implies mupd_ok(#[trigger] hm[c], ro, c) && mrep(hm[c], input, c, xx, rr, nc, al, j - 1 - rr, sz + 1) by {
        lemma_pnext(hb[c].data, hm[c].data, input, c, xx, rr, nc, j - 1 - rr, sz, j + rr, true);
        lemma_prep(hm[c].data, input, c, xx, rr, nc, j - 1 - rr, sz + 1);
    }
}
@ before process_row_mean 0
let ghost hr = histograms@;
let ghost ob = *output;
proof {
    assert forall|c: int| 0 <= c < hr.len() implies mrep(#[trigger] hr[c], input, c, xx, rr, nc, al, j - rr, sz) && hr[c].data.n_cols == nc && (exists|t: int| #[trigger] hr[c].ok(t) && hr[c].data.total(t)) by {
        lemma_pnext(hm[c].data, hr[c].data, input, c, xx, rr, nc, j - 1 - rr, sz + 1, j - rr - 1, false);
        lemma_mean(hr[c], input, c, xx, rr, nc, al, j as int, 0);
    }
}
@ after process_row_mean 0
proof {
    assert forall|u: int| 0 <= u < input.info.width && xx <= u < xx + nc implies mean_at(input, u, j as int, rr, al, #[trigger] output.px(u, j as int)) by {
        let p = output.px(u, j as int);
        assert(mean_px(hr, u - xx, p));
        assert forall|c: int| 0 <= c < p.len() implies #[trigger] p[c] == tmean(input, c, u, j as int, rr, al) by { lemma_mean(hr[c], input, c, xx, rr, nc, al, j as int, u - xx); }
    }
    assert forall|u: int, v: int| 0 <= u < input.info.width && 0 <= v < input.info.height implies if v < j + 1 && xx <= u < xx + nc { mean_at(input, u, v, rr, al, #[trigger] output.px(u, v)) } else { output.px(u, v) == o0.px(u, v) } by {
        if !(v == j && xx <= u < xx + nc) { assert(output.px(u, v) == ob.px(u, v)); }
    }
}
@@ fn filter::median::alpha_trimmed_mean_filter
@ requires
alpha % 2 == 0 && alpha < (2 * radius + 1) * (2 * radius + 1) ==> med_dom(input, radius as int)
@ ensures
!(alpha % 2 == 0 && alpha < (2 * radius + 1) * (2 * radius + 1)) ==> crate::error::arg_err(r),
alpha % 2 == 0 && alpha < (2 * radius + 1) * (2 * radius + 1) ==> r is Ok && r->Ok_0.info == input.info && r->Ok_0.wf()
    && forall|u: int, v: int| 0 <= u < input.info.width && 0 <= v < input.info.height ==> mean_at(input, u, v, radius as int, alpha as int, #[trigger] r->Ok_0.px(u, v))
@ start
proof { float_axioms(); lit_axioms(); if radius <= 20000 { lemma_cols(radius as int); } }
@ loop 0
output.info == input.info, output.wf(), forall|u: int, v: int| 0 <= u < $i && 0 <= v < input.info.height ==> mean_at(input, u, v, radius as int, alpha as int, #[trigger] output.px(u, v))
@ loopstart 0
let ghost ob = output;
@ after process_cols_mean 0
proof {
    assert forall|u: int, v: int| 0 <= u < x + n_cols && u < input.info.width && 0 <= v < input.info.height implies mean_at(input, u, v, radius as int, alpha as int, #[trigger] output.px(u, v)) by {
        if u < x { assert(mean_at(input, u, v, radius as int, alpha as int, ob.px(u, v))); assert(output.px(u, v) == ob.px(u, v)); }
    }
}
