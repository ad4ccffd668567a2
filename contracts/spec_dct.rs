// The forward DCT: what the transform computes (an integer matrix applied to rows, then to columns)
// and the proof that this is the mathematical DCT-II to within one unit.


/// x / n rounded to the nearest integer, halves upwards
pub open spec fn rdiv(x: int, n: int) -> int { (x + n / 2) / n }
/// row k of the integer matrix (2^13 times an orthogonal DCT row scaled by sqrt 8), applied to a vector
#[verifier::opaque]
pub open spec fn m8(k: int, a0: int, a1: int, a2: int, a3: int, a4: int, a5: int, a6: int, a7: int) -> int {
    if k == 0 { 8192 * a0 + 8192 * a1 + 8192 * a2 + 8192 * a3 + 8192 * a4 + 8192 * a5 + 8192 * a6 + 8192 * a7 }
    else if k == 1 { 11363 * a0 + 9633 * a1 + 6437 * a2 + 2260 * a3 - 2260 * a4 - 6437 * a5 - 9633 * a6 - 11363 * a7 }
    else if k == 2 { 10703 * a0 + 4433 * a1 - 4433 * a2 - 10703 * a3 - 10703 * a4 - 4433 * a5 + 4433 * a6 + 10703 * a7 }
    else if k == 3 { 9633 * a0 - 2259 * a1 - 11362 * a2 - 6436 * a3 + 6436 * a4 + 11362 * a5 + 2259 * a6 - 9633 * a7 }
    else if k == 4 { 8192 * a0 - 8192 * a1 - 8192 * a2 + 8192 * a3 + 8192 * a4 - 8192 * a5 - 8192 * a6 + 8192 * a7 }
    else if k == 5 { 6437 * a0 - 11362 * a1 + 2261 * a2 + 9633 * a3 - 9633 * a4 - 2261 * a5 + 11362 * a6 - 6437 * a7 }
    else if k == 6 { 4433 * a0 - 10704 * a1 + 10704 * a2 - 4433 * a3 - 4433 * a4 + 10704 * a5 - 10704 * a6 + 4433 * a7 }
    else { 2260 * a0 - 6436 * a1 + 9633 * a2 - 11363 * a3 + 11363 * a4 - 9633 * a5 + 6436 * a6 - 2260 * a7 }
}
/// row k of 2^30 * sqrt(2) * cos((2x+1) k pi / 16) (2^30 for k = 0), applied to a vector; see lemma_table
#[verifier::opaque]
pub open spec fn t8(k: int, a0: int, a1: int, a2: int, a3: int, a4: int, a5: int, a6: int, a7: int) -> int {
    if k == 0 { 1073741824 * a0 + 1073741824 * a1 + 1073741824 * a2 + 1073741824 * a3 + 1073741824 * a4 + 1073741824 * a5 + 1073741824 * a6 + 1073741824 * a7 }
    else if k == 1 { 1489322693 * a0 + 1262586814 * a1 + 843633538 * a2 + 296244703 * a3 - 296244703 * a4 - 843633538 * a5 - 1262586814 * a6 - 1489322693 * a7 }
    else if k == 2 { 1402911301 * a0 + 581104888 * a1 - 581104888 * a2 - 1402911301 * a3 - 1402911301 * a4 - 581104888 * a5 + 581104888 * a6 + 1402911301 * a7 }
    else if k == 3 { 1262586814 * a0 - 296244703 * a1 - 1489322693 * a2 - 843633538 * a3 + 843633538 * a4 + 1489322693 * a5 + 296244703 * a6 - 1262586814 * a7 }
    else if k == 4 { 1073741824 * a0 - 1073741824 * a1 - 1073741824 * a2 + 1073741824 * a3 + 1073741824 * a4 - 1073741824 * a5 - 1073741824 * a6 + 1073741824 * a7 }
    else if k == 5 { 843633538 * a0 - 1489322693 * a1 + 296244703 * a2 + 1262586814 * a3 - 1262586814 * a4 - 296244703 * a5 + 1489322693 * a6 - 843633538 * a7 }
    else if k == 6 { 581104888 * a0 - 1402911301 * a1 + 1402911301 * a2 - 581104888 * a3 - 581104888 * a4 + 1402911301 * a5 - 1402911301 * a6 + 581104888 * a7 }
    else { 296244703 * a0 - 843633538 * a1 + 1262586814 * a2 - 1489322693 * a3 + 1489322693 * a4 - 1262586814 * a5 + 843633538 * a6 - 296244703 * a7 }
}

pub open spec fn row8(k: int, s: Seq<i16>, y: int) -> int {
    m8(k, s[8 * y] as int, s[8 * y + 1] as int, s[8 * y + 2] as int, s[8 * y + 3] as int, s[8 * y + 4] as int, s[8 * y + 5] as int, s[8 * y + 6] as int, s[8 * y + 7] as int)
}
/// first pass: coefficient k of row y, kept with two extra bits
#[verifier::opaque]
pub open spec fn pass1(s: Seq<i16>, y: int, k: int) -> int { rdiv(row8(k, s, y), 2048) }
/// second pass: coefficient u of column x of the first pass
#[verifier::opaque]
pub open spec fn pass2(s: Seq<i16>, u: int, x: int) -> int {
    rdiv(m8(u, pass1(s, 0, x), pass1(s, 1, x), pass1(s, 2, x), pass1(s, 3, x), pass1(s, 4, x), pass1(s, 5, x), pass1(s, 6, x), pass1(s, 7, x)), 32768)
}
/// the transform: coefficient (u, x) at index 8u + x, times 8
#[verifier::opaque]
pub open spec fn fdct_fn(s: Seq<i16>) -> Seq<i16> { Seq::new(64, |i: int| pass2(s, i / 8, i % 8) as i16) }
/// level-shifted samples
pub open spec fn px_ok(s: Seq<i16>) -> bool {
    s.len() == 64 && forall|i: int| 0 <= i < 64 ==> -128 <= #[trigger] s[i] <= 127
}
pub open spec fn dct_ok(s: Seq<i16>) -> bool {
    &&& s.len() == 64
    &&& -8192 <= s[0] <= 8128
    &&& forall|i: int| 1 <= i < 64 ==> -8183 <= #[trigger] s[i] <= 8183
}
/// how far a first pass value can be from zero
#[verifier::opaque]
pub open spec fn p1_ok(k: int, v: int) -> bool {
    if k == 0 { -4096 <= v <= 4064 } else if k == 4 { -4080 <= v <= 4080 } else if k == 2 || k == 6 { -3785 <= v <= 3785 } else { -3712 <= v <= 3712 }
}

pub proof fn lemma_p1_one(k: int, a0: int, a1: int, a2: int, a3: int, a4: int, a5: int, a6: int, a7: int)
    requires 0 <= k < 8, -128 <= a0 <= 127 && -128 <= a1 <= 127 && -128 <= a2 <= 127 && -128 <= a3 <= 127 && -128 <= a4 <= 127 && -128 <= a5 <= 127 && -128 <= a6 <= 127 && -128 <= a7 <= 127,
    ensures p1_ok(k, rdiv(m8(k, a0, a1, a2, a3, a4, a5, a6, a7), 2048)),
{
    reveal(m8); reveal(t8); reveal(p1_ok);
}
pub proof fn lemma_p1(s: Seq<i16>, y: int, k: int)
    requires px_ok(s), 0 <= y < 8, 0 <= k < 8,
    ensures p1_ok(k, pass1(s, y, k)), -4096 <= pass1(s, y, k) <= 4096,
{
    reveal(pass1); reveal(p1_ok);
    lemma_p1_one(k, s[8 * y] as int, s[8 * y + 1] as int, s[8 * y + 2] as int, s[8 * y + 3] as int, s[8 * y + 4] as int, s[8 * y + 5] as int, s[8 * y + 6] as int, s[8 * y + 7] as int);
}
pub proof fn lemma_p2_one(u: int, x: int, a0: int, a1: int, a2: int, a3: int, a4: int, a5: int, a6: int, a7: int)
    requires 0 <= u < 8, 0 <= x < 8, p1_ok(x, a0), p1_ok(x, a1), p1_ok(x, a2), p1_ok(x, a3), p1_ok(x, a4), p1_ok(x, a5), p1_ok(x, a6), p1_ok(x, a7),
    ensures
        u == 0 && x == 0 ==> -8192 <= rdiv(m8(u, a0, a1, a2, a3, a4, a5, a6, a7), 32768) <= 8128,
        u != 0 || x != 0 ==> -8183 <= rdiv(m8(u, a0, a1, a2, a3, a4, a5, a6, a7), 32768) <= 8183,
{
    reveal(m8); reveal(t8); reveal(p1_ok);
}
pub proof fn lemma_p2(s: Seq<i16>, u: int, x: int)
    requires px_ok(s), 0 <= u < 8, 0 <= x < 8,
    ensures
        u == 0 && x == 0 ==> -8192 <= pass2(s, u, x) <= 8128,
        u != 0 || x != 0 ==> -8183 <= pass2(s, u, x) <= 8183,
{
    reveal(pass2);
    lemma_p1(s, 0, x); lemma_p1(s, 1, x); lemma_p1(s, 2, x); lemma_p1(s, 3, x); lemma_p1(s, 4, x); lemma_p1(s, 5, x); lemma_p1(s, 6, x); lemma_p1(s, 7, x);
    lemma_p2_one(u, x, pass1(s, 0, x), pass1(s, 1, x), pass1(s, 2, x), pass1(s, 3, x), pass1(s, 4, x), pass1(s, 5, x), pass1(s, 6, x), pass1(s, 7, x));
}
// ---- accuracy
/// error of the first pass, in units of 2^-28 of its result
pub open spec fn e1(k: int) -> int {
    if k == 0 { 134217728 }
    else if k == 1 { 179558912 }
    else if k == 2 { 190740992 }
    else if k == 3 { 216033280 }
    else if k == 4 { 134217728 }
    else if k == 5 { 210609664 }
    else if k == 6 { 209020416 }
    else { 173727232 }
}
pub proof fn lemma_a1_one(k: int, a0: int, a1: int, a2: int, a3: int, a4: int, a5: int, a6: int, a7: int)
    requires 0 <= k < 8, -128 <= a0 <= 127 && -128 <= a1 <= 127 && -128 <= a2 <= 127 && -128 <= a3 <= 127 && -128 <= a4 <= 127 && -128 <= a5 <= 127 && -128 <= a6 <= 127 && -128 <= a7 <= 127,
    ensures -e1(k) <= 0x10000000 * rdiv(m8(k, a0, a1, a2, a3, a4, a5, a6, a7), 2048) - t8(k, a0, a1, a2, a3, a4, a5, a6, a7) <= e1(k),
{
    reveal(m8); reveal(t8); reveal(p1_ok);
}
/// rows of the table are linear
pub proof fn lemma_t8_lin(u: int, a0: int, a1: int, a2: int, a3: int, a4: int, a5: int, a6: int, a7: int, p0: int, p1: int, p2: int, p3: int, p4: int, p5: int, p6: int, p7: int)
    requires 0 <= u < 8,
    ensures t8(u, 0x10000000 * a0 - p0, 0x10000000 * a1 - p1, 0x10000000 * a2 - p2, 0x10000000 * a3 - p3, 0x10000000 * a4 - p4, 0x10000000 * a5 - p5, 0x10000000 * a6 - p6, 0x10000000 * a7 - p7) == 0x10000000 * t8(u, a0, a1, a2, a3, a4, a5, a6, a7) - t8(u, p0, p1, p2, p3, p4, p5, p6, p7),
{
    reveal(t8);
}
/// a row of the table amplifies a bound by at most the sum of its entries
pub proof fn lemma_t8_bound(u: int, e: int, a0: int, a1: int, a2: int, a3: int, a4: int, a5: int, a6: int, a7: int)
    requires 0 <= u < 8, 0 <= e, -e <= a0 <= e, -e <= a1 <= e, -e <= a2 <= e, -e <= a3 <= e, -e <= a4 <= e, -e <= a5 <= e, -e <= a6 <= e, -e <= a7 <= e,
    ensures -8589934592 * e <= t8(u, a0, a1, a2, a3, a4, a5, a6, a7) <= 8589934592 * e,
{
    reveal(m8); reveal(t8); reveal(p1_ok);
}
/// the integer matrix against the table
pub proof fn lemma_m8_t8(u: int, a0: int, a1: int, a2: int, a3: int, a4: int, a5: int, a6: int, a7: int)
    requires 0 <= u < 8, -4096 <= a0 <= 4080 && -4096 <= a1 <= 4080 && -4096 <= a2 <= 4080 && -4096 <= a3 <= 4080 && -4096 <= a4 <= 4080 && -4096 <= a5 <= 4080 && -4096 <= a6 <= 4080 && -4096 <= a7 <= 4080,
    ensures -2618097664 <= 0x20000 * m8(u, a0, a1, a2, a3, a4, a5, a6, a7) - t8(u, a0, a1, a2, a3, a4, a5, a6, a7) <= 2618097664,
{
    reveal(m8); reveal(t8); reveal(p1_ok);
}
/// the second pass, for one column; p0..p7 are the exact first pass values (times 2^30)
pub proof fn lemma_a2_one(u: int, x: int, a0: int, a1: int, a2: int, a3: int, a4: int, a5: int, a6: int, a7: int, p0: int, p1: int, p2: int, p3: int, p4: int, p5: int, p6: int, p7: int)
    requires 0 <= u < 8, 0 <= x < 8, p1_ok(x, a0), p1_ok(x, a1), p1_ok(x, a2), p1_ok(x, a3), p1_ok(x, a4), p1_ok(x, a5), p1_ok(x, a6), p1_ok(x, a7),
        -e1(x) <= 0x10000000 * a0 - p0 <= e1(x), -e1(x) <= 0x10000000 * a1 - p1 <= e1(x), -e1(x) <= 0x10000000 * a2 - p2 <= e1(x), -e1(x) <= 0x10000000 * a3 - p3 <= e1(x), -e1(x) <= 0x10000000 * a4 - p4 <= e1(x), -e1(x) <= 0x10000000 * a5 - p5 <= e1(x), -e1(x) <= 0x10000000 * a6 - p6 <= e1(x), -e1(x) <= 0x10000000 * a7 - p7 <= e1(x),
    ensures -3 * 0x1000000000000000 < 0x1000000000000000 * rdiv(m8(u, a0, a1, a2, a3, a4, a5, a6, a7), 32768) - t8(u, p0, p1, p2, p3, p4, p5, p6, p7) < 3 * 0x1000000000000000,
{
    let o = rdiv(m8(u, a0, a1, a2, a3, a4, a5, a6, a7), 32768);
    assert(-16384 <= 32768 * o - m8(u, a0, a1, a2, a3, a4, a5, a6, a7) <= 16384);
    assert(0 <= e1(x) <= 216033280);
    assert(-4096 <= a0 <= 4080 && -4096 <= a1 <= 4080 && -4096 <= a2 <= 4080 && -4096 <= a3 <= 4080 && -4096 <= a4 <= 4080 && -4096 <= a5 <= 4080 && -4096 <= a6 <= 4080 && -4096 <= a7 <= 4080) by { reveal(p1_ok); }
    lemma_t8_lin(u, a0, a1, a2, a3, a4, a5, a6, a7, p0, p1, p2, p3, p4, p5, p6, p7);
    lemma_t8_bound(u, e1(x), 0x10000000 * a0 - p0, 0x10000000 * a1 - p1, 0x10000000 * a2 - p2, 0x10000000 * a3 - p3, 0x10000000 * a4 - p4, 0x10000000 * a5 - p5, 0x10000000 * a6 - p6, 0x10000000 * a7 - p7);
    lemma_m8_t8(u, a0, a1, a2, a3, a4, a5, a6, a7);
}
/// row y of the exact transform (times 2^30)
#[verifier::opaque]
pub open spec fn exact1(s: Seq<i16>, y: int, k: int) -> int {
    t8(k, s[8 * y] as int, s[8 * y + 1] as int, s[8 * y + 2] as int, s[8 * y + 3] as int, s[8 * y + 4] as int, s[8 * y + 5] as int, s[8 * y + 6] as int, s[8 * y + 7] as int)
}
/// 2^60 * 8 * the mathematical DCT-II coefficient (u, v), up to the rounding of the table to 30 bits
#[verifier::opaque]
pub open spec fn exact2(s: Seq<i16>, u: int, v: int) -> int {
    t8(u, exact1(s, 0, v), exact1(s, 1, v), exact1(s, 2, v), exact1(s, 3, v), exact1(s, 4, v), exact1(s, 5, v), exact1(s, 6, v), exact1(s, 7, v))
}
pub proof fn lemma_a1(s: Seq<i16>, y: int, k: int)
    requires px_ok(s), 0 <= y < 8, 0 <= k < 8,
    ensures -e1(k) <= 0x10000000 * pass1(s, y, k) - exact1(s, y, k) <= e1(k),
{
    reveal(pass1); reveal(exact1);
    lemma_a1_one(k, s[8 * y] as int, s[8 * y + 1] as int, s[8 * y + 2] as int, s[8 * y + 3] as int, s[8 * y + 4] as int, s[8 * y + 5] as int, s[8 * y + 6] as int, s[8 * y + 7] as int);
}
pub proof fn lemma_accurate2(s: Seq<i16>, u: int, v: int)
    requires px_ok(s), 0 <= u < 8, 0 <= v < 8,
    ensures
        -3 * 0x1000000000000000 < 0x1000000000000000 * pass2(s, u, v) - exact2(s, u, v) < 3 * 0x1000000000000000,
{
    reveal(pass2); reveal(exact2);
    lemma_p1(s, 0, v); lemma_p1(s, 1, v); lemma_p1(s, 2, v); lemma_p1(s, 3, v); lemma_p1(s, 4, v); lemma_p1(s, 5, v); lemma_p1(s, 6, v); lemma_p1(s, 7, v);
    lemma_a1(s, 0, v); lemma_a1(s, 1, v); lemma_a1(s, 2, v); lemma_a1(s, 3, v); lemma_a1(s, 4, v); lemma_a1(s, 5, v); lemma_a1(s, 6, v); lemma_a1(s, 7, v);
    lemma_a2_one(u, v, pass1(s, 0, v), pass1(s, 1, v), pass1(s, 2, v), pass1(s, 3, v), pass1(s, 4, v), pass1(s, 5, v), pass1(s, 6, v), pass1(s, 7, v),
        exact1(s, 0, v), exact1(s, 1, v), exact1(s, 2, v), exact1(s, 3, v), exact1(s, 4, v), exact1(s, 5, v), exact1(s, 6, v), exact1(s, 7, v));
}
/// **C05**: the transform is within 3/8 of a unit of the mathematical DCT (outputs carry a factor 8)
pub proof fn lemma_accurate(s: Seq<i16>, u: int, v: int)
    requires px_ok(s), 0 <= u < 8, 0 <= v < 8,
    ensures
        -3 * 0x1000000000000000 < 0x1000000000000000 * (fdct_fn(s)[8 * u + v] as int) - exact2(s, u, v) < 3 * 0x1000000000000000,
        dct_ok(fdct_fn(s)),
{
    reveal(fdct_fn);
    let f = fdct_fn(s);
    assert forall|i: int| 0 <= i < 64 implies f[i] as int == pass2(s, i / 8, i % 8) && (i == 0 ==> -8192 <= f[i] <= 8128) && (i != 0 ==> -8183 <= #[trigger] f[i] <= 8183) by { lemma_p2(s, i / 8, i % 8); }
    let i = 8 * u + v;
    assert(i / 8 == u && i % 8 == v);
    lemma_accurate2(s, u, v);
}
// ---- the table is the cosine table
/// 2^30 * sqrt(2) * cos(j pi / 16) for 1 <= j <= 7, rounded (exact for j = 4)
pub open spec fn cos8(j: int) -> int {
    if j == 1 { 1489322693 }
    else if j == 2 { 1402911301 }
    else if j == 3 { 1262586814 }
    else if j == 4 { 1073741824 }
    else if j == 5 { 843633538 }
    else if j == 6 { 581104888 }
    else { 296244703 }
}
/// the same for any j that is not a multiple of 8, by the symmetries of the cosine
pub open spec fn cos16(j: int) -> int {
    let r = j % 32;
    if r < 8 { cos8(r) } else if r < 16 { -cos8(16 - r) } else if r < 24 { -cos8(r - 16) } else { cos8(32 - r) }
}
/// entry (k, x) of the DCT matrix scaled by 2^30 sqrt(8): 1 for k = 0, otherwise sqrt(2) cos((2x + 1) k pi / 16)
pub open spec fn entry(k: int, x: int) -> int { if k == 0 { 0x40000000 } else { cos16((2 * x + 1) * k) } }
/// t8 is that matrix
pub proof fn lemma_t8_entries(k: int, a0: int, a1: int, a2: int, a3: int, a4: int, a5: int, a6: int, a7: int)
    requires 0 <= k < 8,
    ensures t8(k, a0, a1, a2, a3, a4, a5, a6, a7) == entry(k, 0) * a0 + entry(k, 1) * a1 + entry(k, 2) * a2 + entry(k, 3) * a3 + entry(k, 4) * a4 + entry(k, 5) * a5 + entry(k, 6) * a6 + entry(k, 7) * a7,
{
    reveal(t8);
    if k == 0 { assert(entry(0, 0) == 1073741824) by (compute_only); assert(entry(0, 1) == 1073741824) by (compute_only); assert(entry(0, 2) == 1073741824) by (compute_only); assert(entry(0, 3) == 1073741824) by (compute_only); assert(entry(0, 4) == 1073741824) by (compute_only); assert(entry(0, 5) == 1073741824) by (compute_only); assert(entry(0, 6) == 1073741824) by (compute_only); assert(entry(0, 7) == 1073741824) by (compute_only); }
    if k == 1 { assert(entry(1, 0) == 1489322693) by (compute_only); assert(entry(1, 1) == 1262586814) by (compute_only); assert(entry(1, 2) == 843633538) by (compute_only); assert(entry(1, 3) == 296244703) by (compute_only); assert(entry(1, 4) == -296244703) by (compute_only); assert(entry(1, 5) == -843633538) by (compute_only); assert(entry(1, 6) == -1262586814) by (compute_only); assert(entry(1, 7) == -1489322693) by (compute_only); }
    if k == 2 { assert(entry(2, 0) == 1402911301) by (compute_only); assert(entry(2, 1) == 581104888) by (compute_only); assert(entry(2, 2) == -581104888) by (compute_only); assert(entry(2, 3) == -1402911301) by (compute_only); assert(entry(2, 4) == -1402911301) by (compute_only); assert(entry(2, 5) == -581104888) by (compute_only); assert(entry(2, 6) == 581104888) by (compute_only); assert(entry(2, 7) == 1402911301) by (compute_only); }
    if k == 3 { assert(entry(3, 0) == 1262586814) by (compute_only); assert(entry(3, 1) == -296244703) by (compute_only); assert(entry(3, 2) == -1489322693) by (compute_only); assert(entry(3, 3) == -843633538) by (compute_only); assert(entry(3, 4) == 843633538) by (compute_only); assert(entry(3, 5) == 1489322693) by (compute_only); assert(entry(3, 6) == 296244703) by (compute_only); assert(entry(3, 7) == -1262586814) by (compute_only); }
    if k == 4 { assert(entry(4, 0) == 1073741824) by (compute_only); assert(entry(4, 1) == -1073741824) by (compute_only); assert(entry(4, 2) == -1073741824) by (compute_only); assert(entry(4, 3) == 1073741824) by (compute_only); assert(entry(4, 4) == 1073741824) by (compute_only); assert(entry(4, 5) == -1073741824) by (compute_only); assert(entry(4, 6) == -1073741824) by (compute_only); assert(entry(4, 7) == 1073741824) by (compute_only); }
    if k == 5 { assert(entry(5, 0) == 843633538) by (compute_only); assert(entry(5, 1) == -1489322693) by (compute_only); assert(entry(5, 2) == 296244703) by (compute_only); assert(entry(5, 3) == 1262586814) by (compute_only); assert(entry(5, 4) == -1262586814) by (compute_only); assert(entry(5, 5) == -296244703) by (compute_only); assert(entry(5, 6) == 1489322693) by (compute_only); assert(entry(5, 7) == -843633538) by (compute_only); }
    if k == 6 { assert(entry(6, 0) == 581104888) by (compute_only); assert(entry(6, 1) == -1402911301) by (compute_only); assert(entry(6, 2) == 1402911301) by (compute_only); assert(entry(6, 3) == -581104888) by (compute_only); assert(entry(6, 4) == -581104888) by (compute_only); assert(entry(6, 5) == 1402911301) by (compute_only); assert(entry(6, 6) == -1402911301) by (compute_only); assert(entry(6, 7) == 581104888) by (compute_only); }
    if k == 7 { assert(entry(7, 0) == 296244703) by (compute_only); assert(entry(7, 1) == -843633538) by (compute_only); assert(entry(7, 2) == 1262586814) by (compute_only); assert(entry(7, 3) == -1489322693) by (compute_only); assert(entry(7, 4) == 1489322693) by (compute_only); assert(entry(7, 5) == -1262586814) by (compute_only); assert(entry(7, 6) == 843633538) by (compute_only); assert(entry(7, 7) == -296244703) by (compute_only); }
}
/// With c = cos(j pi / 16) and t = 2^30 sqrt(2) c, the half-angle formula t^2 = 2^60 (1 + cos(2 j pi / 16)) applied
/// once (j even) or twice (j odd) ends at cos(4 pi / 16)^2 = 1/2. `ge(j, t)` says that a positive t is at least the true
/// value: the signs are those of cos(2 j pi / 16) and of cos(4 j pi / 16), each positive for j < 4 (resp. j = 1, 7).
pub open spec fn halves_lo(j: int, t: int) -> bool {
    let p60 = 0x1000000000000000int; let p119 = p60 * p60 / 2; let p237 = p119 * p119 / 2;
    let q = t * t - p60; let r = q * q - p119;
    if j == 2 { q > 0 && q * q < p119 }
    else if j == 6 { q < 0 && q * q > p119 }
    else if j == 1 { q > 0 && r > 0 && r * r < p237 }
    else if j == 3 { q > 0 && r < 0 && r * r > p237 }
    else if j == 5 { q < 0 && r < 0 && r * r < p237 }
    else { j == 7 && q < 0 && r > 0 && r * r > p237 }
}
pub open spec fn halves_hi(j: int, t: int) -> bool {
    let p60 = 0x1000000000000000int; let p119 = p60 * p60 / 2; let p237 = p119 * p119 / 2;
    let q = t * t - p60; let r = q * q - p119;
    if j == 2 { q > 0 && q * q > p119 }
    else if j == 6 { q < 0 && q * q < p119 }
    else if j == 1 { q > 0 && r > 0 && r * r > p237 }
    else if j == 3 { q > 0 && r < 0 && r * r < p237 }
    else if j == 5 { q < 0 && r < 0 && r * r > p237 }
    else { j == 7 && q < 0 && r > 0 && r * r < p237 }
}
/// every entry is within one of 2^30 sqrt(2) cos(j pi / 16)
pub proof fn lemma_cos8(j: int)
    requires 1 <= j <= 7, j != 4,
    ensures halves_lo(j, cos8(j) - 1), halves_hi(j, cos8(j) + 1), cos8(4) == 0x40000000,
{
    assert(halves_lo(1, cos8(1) - 1) && halves_hi(1, cos8(1) + 1)) by (compute_only);
    assert(halves_lo(2, cos8(2) - 1) && halves_hi(2, cos8(2) + 1)) by (compute_only);
    assert(halves_lo(3, cos8(3) - 1) && halves_hi(3, cos8(3) + 1)) by (compute_only);
    assert(halves_lo(5, cos8(5) - 1) && halves_hi(5, cos8(5) + 1)) by (compute_only);
    assert(halves_lo(6, cos8(6) - 1) && halves_hi(6, cos8(6) + 1)) by (compute_only);
    assert(halves_lo(7, cos8(7) - 1) && halves_hi(7, cos8(7) + 1)) by (compute_only);
}
// ---- shifts and constant products
pub proof fn lemma_shift_one(v: i32, n: i32)
    ensures
        n == 2 ==> v >> n == v as int / 4,
        n == 11 ==> v >> n == v as int / 2048,
        n == 15 ==> v >> n == v as int / 32768,
        n == 1 ==> 1i32 << n == 2,
        n == 10 ==> 1i32 << n == 1024,
        n == 14 ==> 1i32 << n == 16384,
        n == 2 && -0x10000000 <= v <= 0x10000000 ==> v << n == 4 * v,
{
    assert(v >> 2i32 == v as int / 4) by (bit_vector);
    assert(v >> 11i32 == v as int / 2048) by (bit_vector);
    assert(v >> 15i32 == v as int / 32768) by (bit_vector);
    assert(1i32 << 1i32 == 2 && 1i32 << 10i32 == 1024 && 1i32 << 14i32 == 16384) by (bit_vector);
    assert(-0x10000000 <= v <= 0x10000000 ==> v << 2i32 == 4 * v) by (bit_vector);
}
pub broadcast proof fn lemma_shr(v: i32, n: i32)
    ensures
        n == 2 ==> #[trigger] (v >> n) == v as int / 4,
        n == 11 ==> v >> n == v as int / 2048,
        n == 15 ==> v >> n == v as int / 32768,
{ lemma_shift_one(v, n); }
pub broadcast proof fn lemma_shl(v: i32, n: i32)
    ensures
        n == 2 && -0x10000000 <= v <= 0x10000000 ==> #[trigger] (v << n) == 4 * v,
        v == 1 && n == 1 ==> v << n == 2,
        v == 1 && n == 10 ==> v << n == 1024,
        v == 1 && n == 14 ==> v << n == 16384,
{ lemma_shift_one(v, n); }
/// marks the factors that lemma_scale makes linear
#[verifier::opaque]
pub open spec fn factor(c: int) -> bool { true }
/// the products by a negative constant that occur, made linear
pub broadcast proof fn lemma_scale(x: int, c: int)
    ensures
        #![trigger (x * c), factor(c)]
        c == -2446 ==> x * c == -(x * 2446),
        c == -3196 ==> x * c == -(x * 3196),
        c == -4433 ==> x * c == -(x * 4433),
        c == -6270 ==> x * c == -(x * 6270),
        c == -7373 ==> x * c == -(x * 7373),
        c == -9633 ==> x * c == -(x * 9633),
        c == -12299 ==> x * c == -(x * 12299),
        c == -15137 ==> x * c == -(x * 15137),
        c == -16069 ==> x * c == -(x * 16069),
        c == -16819 ==> x * c == -(x * 16819),
        c == -20995 ==> x * c == -(x * 20995),
        c == -25172 ==> x * c == -(x * 25172),
{
    broadcast use vstd::arithmetic::mul::group_mul_properties;
}
pub proof fn lemma_factors()
    ensures factor(-2446), factor(-3196), factor(-4433), factor(-6270), factor(-7373), factor(-9633), factor(-12299), factor(-15137), factor(-16069), factor(-16819), factor(-20995), factor(-25172),
{
    reveal(factor);
}
