// The lanes of the AVX2 transform, step by step.
use crate::simd::*;
use crate::spec_dct::*;
use core::arch::x86_64::__m256i;

/// element (r, c) of the 8x8 matrix held in four registers: rows 0..4 in the low halves, rows 4..8 in the high halves
pub open spec fn mat(i1: __m256i, i2: __m256i, i3: __m256i, i4: __m256i, r: int, c: int) -> i16 {
    if r == 0 { w16(i1)[c] } else if r == 1 { w16(i2)[c] } else if r == 2 { w16(i3)[c] } else if r == 3 { w16(i4)[c] }
    else if r == 4 { w16(i1)[8 + c] } else if r == 5 { w16(i2)[8 + c] } else if r == 6 { w16(i3)[8 + c] } else { w16(i4)[8 + c] }
}
/// output k of the one-dimensional transform in column j; inputs 1|0, 3|2, 4|5, 6|7 (low|high half)
pub open spec fn dct1(first: bool, k: int, i1: __m256i, i2: __m256i, i3: __m256i, i4: __m256i, j: int) -> int {
    rdiv(m8(k, w16(i1)[8 + j] as int, w16(i1)[j] as int, w16(i2)[8 + j] as int, w16(i2)[j] as int,
        w16(i3)[j] as int, w16(i3)[8 + j] as int, w16(i4)[j] as int, w16(i4)[8 + j] as int), div_of(first))
}
pub open spec fn div_of(first: bool) -> int { if first { 2048 } else { 32768 } }
pub open spec fn in_range(v: __m256i, first: bool) -> bool {
    forall|i: int| 0 <= i < 16 ==> (if first { -128 } else { -4096int }) <= #[trigger] w16(v)[i] <= (if first { 127 } else { 4080int })
}
/// the two halves exchanged
pub open spec fn swapped(p: __m256i, q: __m256i) -> bool {
    forall|j: int| 0 <= j < 8 ==> #[trigger] w16(q)[j] == w16(p)[8 + j] && w16(q)[8 + j] == w16(p)[j]
}
pub proof fn lemma_swap(p: __m256i, q: __m256i)
    requires is_permute2x128_si256(p, p, 1, q)
    ensures swapped(p, q), forall|i: int| 0 <= i < 16 ==> #[trigger] w16(q)[i] == w16(p)[if i < 8 { 8 + i } else { i - 8 }],
{
    reveal(is_permute2x128_si256);
}
/// words of a times constants (cl0, cl1 in the low half, ch0, ch1 in the high half), neighbours added
#[verifier::opaque]
pub open spec fn is_mul(a: __m256i, r: __m256i, cl0: int, cl1: int, ch0: int, ch1: int) -> bool {
    forall|i: int| 0 <= i < 8 ==> #[trigger] d32(r)[i] == if i < 4 { cl0 * w16(a)[2 * i] + cl1 * w16(a)[2 * i + 1] } else { ch0 * w16(a)[2 * i] + ch1 * w16(a)[2 * i + 1] }
}
/// doubleword of column j, low (h = 0) or high half of the words the pair (ml, mh) came from
pub open spec fn col(ml: __m256i, mh: __m256i, h: int, j: int) -> int {
    if j < 4 { d32(ml)[4 * h + j] as int } else { d32(mh)[4 * h + j - 4] as int }
}
pub proof fn lemma_cols(j: int, p: __m256i, q: __m256i, lo: __m256i, hi: __m256i, ml: __m256i, mh: __m256i, cl0: int, cl1: int, ch0: int, ch1: int)
    requires 0 <= j < 8, is_unpacklo_epi16(p, q, lo), is_unpackhi_epi16(p, q, hi), is_mul(lo, ml, cl0, cl1, ch0, ch1), is_mul(hi, mh, cl0, cl1, ch0, ch1),
    ensures
        col(ml, mh, 0, j) == cl0 * w16(p)[j] + cl1 * w16(q)[j],
        col(ml, mh, 1, j) == ch0 * w16(p)[8 + j] + ch1 * w16(q)[8 + j],
{
    reveal(is_unpacklo_epi16); reveal(is_unpackhi_epi16); reveal(is_mul);
    if j < 4 {
        assert(w16(lo)[2 * j] == w16(p)[j] && w16(lo)[2 * j + 1] == w16(q)[j]);
        assert(w16(lo)[2 * (4 + j)] == w16(p)[8 + j] && w16(lo)[2 * (4 + j) + 1] == w16(q)[8 + j]);
        assert(d32(ml)[j] == cl0 * w16(lo)[2 * j] + cl1 * w16(lo)[2 * j + 1]);
        assert(d32(ml)[4 + j] == ch0 * w16(lo)[2 * (4 + j)] + ch1 * w16(lo)[2 * (4 + j) + 1]);
    } else {
        assert(w16(hi)[2 * (j - 4)] == w16(p)[j] && w16(hi)[2 * (j - 4) + 1] == w16(q)[j]);
        assert(w16(hi)[2 * j] == w16(p)[8 + j] && w16(hi)[2 * j + 1] == w16(q)[8 + j]);
        assert(d32(mh)[j - 4] == cl0 * w16(hi)[2 * (j - 4)] + cl1 * w16(hi)[2 * (j - 4) + 1]);
        assert(d32(mh)[j] == ch0 * w16(hi)[2 * j] + ch1 * w16(hi)[2 * j + 1]);
    }
}
#[verifier::opaque]
pub open spec fn is_plus(a: __m256i, r: __m256i, n: int) -> bool {
    forall|i: int| 0 <= i < 8 && -0x7000_0000 <= d32(a)[i] <= 0x7000_0000 ==> #[trigger] d32(r)[i] == d32(a)[i] + n
}
#[verifier::opaque]
pub open spec fn is_shr(a: __m256i, r: __m256i, first: bool) -> bool {
    forall|i: int| 0 <= i < 8 ==> #[trigger] d32(r)[i] == d32(a)[i] as int / div_of(first)
}
/// rounding and packing of the pair (xl, xh), in column j
pub proof fn lemma_round(first: bool, j: int, xl: __m256i, xh: __m256i, al: __m256i, ah: __m256i, sl: __m256i, sh: __m256i, r: __m256i)
    requires
        0 <= j < 8,
        is_plus(xl, al, div_of(first) / 2), is_plus(xh, ah, div_of(first) / 2), is_shr(al, sl, first), is_shr(ah, sh, first), is_packs_epi32(sl, sh, r),
        -0x7000_0000 <= col(xl, xh, 0, j) <= 0x7000_0000, -0x7000_0000 <= col(xl, xh, 1, j) <= 0x7000_0000,
    ensures
        w16(r)[j] == sat16(rdiv(col(xl, xh, 0, j), div_of(first))),
        w16(r)[8 + j] == sat16(rdiv(col(xl, xh, 1, j), div_of(first))),
{
    reveal(is_plus); reveal(is_shr); reveal(is_packs_epi32);
    if j < 4 {
        assert(d32(al)[j] == d32(xl)[j] + div_of(first) / 2); assert(d32(al)[4 + j] == d32(xl)[4 + j] + div_of(first) / 2);
        assert(d32(sl)[j] == d32(al)[j] as int / div_of(first)); assert(d32(sl)[4 + j] == d32(al)[4 + j] as int / div_of(first));
    } else {
        assert(d32(ah)[j - 4] == d32(xh)[j - 4] + div_of(first) / 2); assert(d32(ah)[j] == d32(xh)[j] + div_of(first) / 2);
        assert(d32(sh)[j - 4] == d32(ah)[j - 4] as int / div_of(first)); assert(d32(sh)[j] == d32(ah)[j] as int / div_of(first));
    }
}
pub proof fn lemma_add_cols(j: int, ml: __m256i, mh: __m256i, zl: __m256i, zh: __m256i, xl: __m256i, xh: __m256i)
    requires
        0 <= j < 8, is_add_epi32(ml, zl, xl), is_add_epi32(mh, zh, xh),
        -0x3800_0000 <= col(ml, mh, 0, j) <= 0x3800_0000, -0x3800_0000 <= col(ml, mh, 1, j) <= 0x3800_0000,
        -0x3800_0000 <= col(zl, zh, 0, j) <= 0x3800_0000, -0x3800_0000 <= col(zl, zh, 1, j) <= 0x3800_0000,
    ensures
        col(xl, xh, 0, j) == col(ml, mh, 0, j) + col(zl, zh, 0, j),
        col(xl, xh, 1, j) == col(ml, mh, 1, j) + col(zl, zh, 1, j),
{
    reveal(is_add_epi32);
    if j < 4 {
        assert(d32(xl)[j] == d32(ml)[j] + d32(zl)[j]); assert(d32(xl)[4 + j] == d32(ml)[4 + j] + d32(zl)[4 + j]);
    } else {
        assert(d32(xh)[j - 4] == d32(mh)[j - 4] + d32(zh)[j - 4]); assert(d32(xh)[j] == d32(mh)[j] + d32(zh)[j]);
    }
}
pub open spec fn lo(first: bool) -> int { if first { -128 } else { -4096 } }
pub open spec fn hi(first: bool) -> int { if first { 127 } else { 4080 } }
pub proof fn lemma_m8_0(first: bool, a0: int, a1: int, a2: int, a3: int, a4: int, a5: int, a6: int, a7: int)
    requires lo(first) <= a0 <= hi(first), lo(first) <= a1 <= hi(first), lo(first) <= a2 <= hi(first), lo(first) <= a3 <= hi(first), lo(first) <= a4 <= hi(first), lo(first) <= a5 <= hi(first), lo(first) <= a6 <= hi(first), lo(first) <= a7 <= hi(first),
    ensures
        rdiv(m8(0, a0, a1, a2, a3, a4, a5, a6, a7), div_of(first)) == if first { 4 * ((a0 + a7 + a3 + a4) + (a1 + a6 + a2 + a5)) } else { ((a0 + a7 + a3 + a4) + (a1 + a6 + a2 + a5) + 2) / 4 },
{
    let s = (a0 + a7 + a3 + a4) + (a1 + a6 + a2 + a5);
    assert(m8(0, a0, a1, a2, a3, a4, a5, a6, a7) == 8192 * s) by { reveal(m8); }
    assert((8192 * s + 1024) / 2048 == 4 * s);
    assert((8192 * s + 16384) / 32768 == (s + 2) / 4);
}
pub proof fn lemma_m8_4(first: bool, a0: int, a1: int, a2: int, a3: int, a4: int, a5: int, a6: int, a7: int)
    requires lo(first) <= a0 <= hi(first), lo(first) <= a1 <= hi(first), lo(first) <= a2 <= hi(first), lo(first) <= a3 <= hi(first), lo(first) <= a4 <= hi(first), lo(first) <= a5 <= hi(first), lo(first) <= a6 <= hi(first), lo(first) <= a7 <= hi(first),
    ensures
        rdiv(m8(4, a0, a1, a2, a3, a4, a5, a6, a7), div_of(first)) == if first { 4 * ((a0 + a7 + a3 + a4) - (a1 + a6 + a2 + a5)) } else { ((a0 + a7 + a3 + a4) - (a1 + a6 + a2 + a5) + 2) / 4 },
{
    let s = (a0 + a7 + a3 + a4) - (a1 + a6 + a2 + a5);
    assert(m8(4, a0, a1, a2, a3, a4, a5, a6, a7) == 8192 * s) by { reveal(m8); }
    assert((8192 * s + 1024) / 2048 == 4 * s);
    assert((8192 * s + 16384) / 32768 == (s + 2) / 4);
}
pub proof fn lemma_m8_2(first: bool, a0: int, a1: int, a2: int, a3: int, a4: int, a5: int, a6: int, a7: int)
    requires lo(first) <= a0 <= hi(first), lo(first) <= a1 <= hi(first), lo(first) <= a2 <= hi(first), lo(first) <= a3 <= hi(first), lo(first) <= a4 <= hi(first), lo(first) <= a5 <= hi(first), lo(first) <= a6 <= hi(first), lo(first) <= a7 <= hi(first),
    ensures
        m8(2, a0, a1, a2, a3, a4, a5, a6, a7) == 10703 * (a0 + a7 - a3 - a4) + 4433 * (a1 + a6 - a2 - a5),
        -32768 <= rdiv(m8(2, a0, a1, a2, a3, a4, a5, a6, a7), div_of(first)) <= 32767,
{
    reveal(m8);
    if first { assert(-0x3ffffff <= m8(2, a0, a1, a2, a3, a4, a5, a6, a7) <= 0x3ffffff); } else { assert(-0x3ffffff0 <= m8(2, a0, a1, a2, a3, a4, a5, a6, a7) <= 0x3ffffff0); }
}
pub proof fn lemma_m8_6(first: bool, a0: int, a1: int, a2: int, a3: int, a4: int, a5: int, a6: int, a7: int)
    requires lo(first) <= a0 <= hi(first), lo(first) <= a1 <= hi(first), lo(first) <= a2 <= hi(first), lo(first) <= a3 <= hi(first), lo(first) <= a4 <= hi(first), lo(first) <= a5 <= hi(first), lo(first) <= a6 <= hi(first), lo(first) <= a7 <= hi(first),
    ensures
        m8(6, a0, a1, a2, a3, a4, a5, a6, a7) == -10704 * (a1 + a6 - a2 - a5) + 4433 * (a0 + a7 - a3 - a4),
        -32768 <= rdiv(m8(6, a0, a1, a2, a3, a4, a5, a6, a7), div_of(first)) <= 32767,
{
    reveal(m8);
    if first { assert(-0x3ffffff <= m8(6, a0, a1, a2, a3, a4, a5, a6, a7) <= 0x3ffffff); } else { assert(-0x3ffffff0 <= m8(6, a0, a1, a2, a3, a4, a5, a6, a7) <= 0x3ffffff0); }
}
pub proof fn lemma_m8_7(first: bool, a0: int, a1: int, a2: int, a3: int, a4: int, a5: int, a6: int, a7: int)
    requires lo(first) <= a0 <= hi(first), lo(first) <= a1 <= hi(first), lo(first) <= a2 <= hi(first), lo(first) <= a3 <= hi(first), lo(first) <= a4 <= hi(first), lo(first) <= a5 <= hi(first), lo(first) <= a6 <= hi(first), lo(first) <= a7 <= hi(first),
    ensures
        m8(7, a0, a1, a2, a3, a4, a5, a6, a7) == (-4927 * (a3 - a4) + -7373 * (a0 - a7)) + (-6436 * ((a3 - a4) + (a1 - a6)) + 9633 * ((a2 - a5) + (a0 - a7))),
        -32768 <= rdiv(m8(7, a0, a1, a2, a3, a4, a5, a6, a7), div_of(first)) <= 32767,
{
    reveal(m8);
    if first { assert(-0x3ffffff <= m8(7, a0, a1, a2, a3, a4, a5, a6, a7) <= 0x3ffffff); } else { assert(-0x3ffffff0 <= m8(7, a0, a1, a2, a3, a4, a5, a6, a7) <= 0x3ffffff0); }
}
pub proof fn lemma_m8_5(first: bool, a0: int, a1: int, a2: int, a3: int, a4: int, a5: int, a6: int, a7: int)
    requires lo(first) <= a0 <= hi(first), lo(first) <= a1 <= hi(first), lo(first) <= a2 <= hi(first), lo(first) <= a3 <= hi(first), lo(first) <= a4 <= hi(first), lo(first) <= a5 <= hi(first), lo(first) <= a6 <= hi(first), lo(first) <= a7 <= hi(first),
    ensures
        m8(5, a0, a1, a2, a3, a4, a5, a6, a7) == (-4176 * (a2 - a5) + -20995 * (a1 - a6)) + (6437 * ((a2 - a5) + (a0 - a7)) + 9633 * ((a3 - a4) + (a1 - a6))),
        -32768 <= rdiv(m8(5, a0, a1, a2, a3, a4, a5, a6, a7), div_of(first)) <= 32767,
{
    reveal(m8);
    if first { assert(-0x3ffffff <= m8(5, a0, a1, a2, a3, a4, a5, a6, a7) <= 0x3ffffff); } else { assert(-0x3ffffff0 <= m8(5, a0, a1, a2, a3, a4, a5, a6, a7) <= 0x3ffffff0); }
}
pub proof fn lemma_m8_3(first: bool, a0: int, a1: int, a2: int, a3: int, a4: int, a5: int, a6: int, a7: int)
    requires lo(first) <= a0 <= hi(first), lo(first) <= a1 <= hi(first), lo(first) <= a2 <= hi(first), lo(first) <= a3 <= hi(first), lo(first) <= a4 <= hi(first), lo(first) <= a5 <= hi(first), lo(first) <= a6 <= hi(first), lo(first) <= a7 <= hi(first),
    ensures
        m8(3, a0, a1, a2, a3, a4, a5, a6, a7) == (4177 * (a1 - a6) + -20995 * (a2 - a5)) + (-6436 * ((a3 - a4) + (a1 - a6)) + 9633 * ((a2 - a5) + (a0 - a7))),
        -32768 <= rdiv(m8(3, a0, a1, a2, a3, a4, a5, a6, a7), div_of(first)) <= 32767,
{
    reveal(m8);
    if first { assert(-0x3ffffff <= m8(3, a0, a1, a2, a3, a4, a5, a6, a7) <= 0x3ffffff); } else { assert(-0x3ffffff0 <= m8(3, a0, a1, a2, a3, a4, a5, a6, a7) <= 0x3ffffff0); }
}
pub proof fn lemma_m8_1(first: bool, a0: int, a1: int, a2: int, a3: int, a4: int, a5: int, a6: int, a7: int)
    requires lo(first) <= a0 <= hi(first), lo(first) <= a1 <= hi(first), lo(first) <= a2 <= hi(first), lo(first) <= a3 <= hi(first), lo(first) <= a4 <= hi(first), lo(first) <= a5 <= hi(first), lo(first) <= a6 <= hi(first), lo(first) <= a7 <= hi(first),
    ensures
        m8(1, a0, a1, a2, a3, a4, a5, a6, a7) == (4926 * (a0 - a7) + -7373 * (a3 - a4)) + (6437 * ((a2 - a5) + (a0 - a7)) + 9633 * ((a3 - a4) + (a1 - a6))),
        -32768 <= rdiv(m8(1, a0, a1, a2, a3, a4, a5, a6, a7), div_of(first)) <= 32767,
{
    reveal(m8);
    if first { assert(-0x3ffffff <= m8(1, a0, a1, a2, a3, a4, a5, a6, a7) <= 0x3ffffff); } else { assert(-0x3ffffff0 <= m8(1, a0, a1, a2, a3, a4, a5, a6, a7) <= 0x3ffffff0); }
}
/// the inputs of column j: the eight values dct1 is over
pub open spec fn x_of(n: int, i1: __m256i, i2: __m256i, i3: __m256i, i4: __m256i, j: int) -> int {
    if n == 0 { w16(i1)[8 + j] as int } else if n == 1 { w16(i1)[j] as int } else if n == 2 { w16(i2)[8 + j] as int } else if n == 3 { w16(i2)[j] as int }
    else if n == 4 { w16(i3)[j] as int } else if n == 5 { w16(i3)[8 + j] as int } else if n == 6 { w16(i4)[j] as int } else { w16(i4)[8 + j] as int }
}
/// the sums and differences the transform is made of
pub open spec fn stage(first: bool, j: int, i1: __m256i, i2: __m256i, i3: __m256i, i4: __m256i, g5: __m256i, g8: __m256i, u1: __m256i, u6: __m256i, z7: __m256i) -> bool {
    let (x0, x1, x2, x3) = (w16(i1)[8 + j] as int, w16(i1)[j] as int, w16(i2)[8 + j] as int, w16(i2)[j] as int);
    let (x4, x5, x6, x7) = (w16(i3)[j] as int, w16(i3)[8 + j] as int, w16(i4)[j] as int, w16(i4)[8 + j] as int);
    &&& w16(g5)[j] == x1 - x6 && w16(g5)[8 + j] == x0 - x7
    &&& w16(g8)[j] == x3 - x4 && w16(g8)[8 + j] == x2 - x5
    &&& w16(u1)[j] == x0 + x7 + x3 + x4 && w16(u1)[8 + j] == x1 + x6 + x2 + x5
    &&& w16(u6)[j] == x0 + x7 - x3 - x4 && w16(u6)[8 + j] == x1 + x6 - x2 - x5
    &&& w16(z7)[j] == (x3 - x4) + (x1 - x6) && w16(z7)[8 + j] == (x2 - x5) + (x0 - x7)
    &&& lo(first) <= x0 <= hi(first) && lo(first) <= x1 <= hi(first) && lo(first) <= x2 <= hi(first) && lo(first) <= x3 <= hi(first)
    &&& lo(first) <= x4 <= hi(first) && lo(first) <= x5 <= hi(first) && lo(first) <= x6 <= hi(first) && lo(first) <= x7 <= hi(first)
}
pub proof fn lemma_stage(first: bool, j: int, i1: __m256i, i2: __m256i, i3: __m256i, i4: __m256i, g5: __m256i, g6: __m256i, g7: __m256i, g8: __m256i, s6: __m256i, u1: __m256i, u6: __m256i, z7: __m256i)
    requires
        0 <= j < 8, in_range(i1, first), in_range(i2, first), in_range(i3, first), in_range(i4, first),
        is_sub_epi16(i1, i4, g5), is_add_epi16(i1, i4, g6), is_add_epi16(i2, i3, g7), is_sub_epi16(i2, i3, g8), is_permute2x128_si256(g6, g6, 1, s6),
        is_add_epi16(s6, g7, u1), is_sub_epi16(s6, g7, u6), is_add_epi16(g8, g5, z7),
    ensures stage(first, j, i1, i2, i3, i4, g5, g8, u1, u6, z7),
{
    reveal(is_add_epi16); reveal(is_sub_epi16);
    lemma_swap(g6, s6);
    assert(w16(i1)[j] + 0 == w16(i1)[j] && w16(i2)[j] + 0 == w16(i2)[j] && w16(i3)[j] + 0 == w16(i3)[j] && w16(i4)[j] + 0 == w16(i4)[j]);
    assert(w16(i1)[8 + j] + 0 == w16(i1)[8 + j] && w16(i2)[8 + j] + 0 == w16(i2)[8 + j] && w16(i3)[8 + j] + 0 == w16(i3)[8 + j] && w16(i4)[8 + j] + 0 == w16(i4)[8 + j]);
    assert(w16(g5)[j] == w16(i1)[j] - w16(i4)[j]); assert(w16(g5)[8 + j] == w16(i1)[8 + j] - w16(i4)[8 + j]);
    assert(w16(g6)[j] == w16(i1)[j] + w16(i4)[j]); assert(w16(g6)[8 + j] == w16(i1)[8 + j] + w16(i4)[8 + j]);
    assert(w16(g7)[j] == w16(i2)[j] + w16(i3)[j]); assert(w16(g7)[8 + j] == w16(i2)[8 + j] + w16(i3)[8 + j]);
    assert(w16(g8)[j] == w16(i2)[j] - w16(i3)[j]); assert(w16(g8)[8 + j] == w16(i2)[8 + j] - w16(i3)[8 + j]);
    assert(w16(s6)[j] == w16(g6)[8 + j] && w16(s6)[8 + j] == w16(g6)[j]);
    assert(w16(u1)[j] == w16(s6)[j] + w16(g7)[j]); assert(w16(u1)[8 + j] == w16(s6)[8 + j] + w16(g7)[8 + j]);
    assert(w16(u6)[j] == w16(s6)[j] - w16(g7)[j]); assert(w16(u6)[8 + j] == w16(s6)[8 + j] - w16(g7)[8 + j]);
    assert(w16(z7)[j] == w16(g8)[j] + w16(g5)[j]); assert(w16(z7)[8 + j] == w16(g8)[8 + j] + w16(g5)[8 + j]);
}
/// the high half negated
#[verifier::opaque]
pub open spec fn is_signed(a: __m256i, r: __m256i) -> bool { forall|i: int| 0 <= i < 16 && w16(a)[i] != i16::MIN ==> #[trigger] w16(r)[i] == if i < 8 { w16(a)[i] as int } else { -w16(a)[i] } }
/// the scaling of the outputs 0 and 4
#[verifier::opaque]
pub open spec fn is_dc(first: bool, w7: __m256i, o1: __m256i) -> bool {
    forall|i: int| 0 <= i < 16 && -0x2000 < w16(w7)[i] * (if first { 1 } else { 0int }) < 0x2000 && w16(w7)[i] <= 32765 ==> #[trigger] w16(o1)[i] == if first { 4 * w16(w7)[i] } else { (w16(w7)[i] + 2) / 4 }
}
pub proof fn lemma_even0(first: bool, j: int, i1: __m256i, i2: __m256i, i3: __m256i, i4: __m256i, g5: __m256i, g8: __m256i, u1: __m256i, u6: __m256i, z7: __m256i, v7: __m256i, n1: __m256i, w7: __m256i, o1: __m256i)
    requires
        0 <= j < 8, stage(first, j, i1, i2, i3, i4, g5, g8, u1, u6, z7),
        is_permute2x128_si256(u1, u1, 1, v7), is_signed(u1, n1), is_add_epi16(v7, n1, w7), is_dc(first, w7, o1),
    ensures
        w16(o1)[j] == dct1(first, 0, i1, i2, i3, i4, j), w16(o1)[8 + j] == dct1(first, 4, i1, i2, i3, i4, j),
{
    let (x0, x1, x2, x3) = (w16(i1)[8 + j] as int, w16(i1)[j] as int, w16(i2)[8 + j] as int, w16(i2)[j] as int);
    let (x4, x5, x6, x7) = (w16(i3)[j] as int, w16(i3)[8 + j] as int, w16(i4)[j] as int, w16(i4)[8 + j] as int);
    lemma_m8_0(first, x0, x1, x2, x3, x4, x5, x6, x7);
    lemma_m8_4(first, x0, x1, x2, x3, x4, x5, x6, x7);
    lemma_swap(u1, v7);
    reveal(is_signed); reveal(is_add_epi16); reveal(is_dc);
    assert(w16(v7)[j] == w16(u1)[8 + j] && w16(v7)[8 + j] == w16(u1)[j]);
    assert(w16(n1)[j] == w16(u1)[j]); assert(w16(n1)[8 + j] == -w16(u1)[8 + j]);
    assert(w16(w7)[j] == w16(v7)[j] + w16(n1)[j]); assert(w16(w7)[8 + j] == w16(v7)[8 + j] + w16(n1)[8 + j]);
    assert(w16(o1)[j] == if first { 4 * w16(w7)[j] } else { (w16(w7)[j] + 2) / 4 });
    assert(w16(o1)[8 + j] == if first { 4 * w16(w7)[8 + j] } else { (w16(w7)[8 + j] + 2) / 4 });
}
pub proof fn lemma_even2(first: bool, j: int, i1: __m256i, i2: __m256i, i3: __m256i, i4: __m256i, g5: __m256i, g8: __m256i, u1: __m256i, u6: __m256i, z7: __m256i, q7: __m256i, el: __m256i, eh: __m256i, ml: __m256i, mh: __m256i, al: __m256i, ah: __m256i, sl: __m256i, sh: __m256i, r: __m256i)
    requires
        0 <= j < 8, stage(first, j, i1, i2, i3, i4, g5, g8, u1, u6, z7),
        is_permute2x128_si256(u6, u6, 1, q7), is_unpacklo_epi16(u6, q7, el), is_unpackhi_epi16(u6, q7, eh),
        is_mul(el, ml, 10703, 4433, -10704, 4433), is_mul(eh, mh, 10703, 4433, -10704, 4433), is_plus(ml, al, div_of(first) / 2), is_plus(mh, ah, div_of(first) / 2), is_shr(al, sl, first), is_shr(ah, sh, first), is_packs_epi32(sl, sh, r),
    ensures
        w16(r)[j] == dct1(first, 2, i1, i2, i3, i4, j), w16(r)[8 + j] == dct1(first, 6, i1, i2, i3, i4, j),
{
    let (x0, x1, x2, x3) = (w16(i1)[8 + j] as int, w16(i1)[j] as int, w16(i2)[8 + j] as int, w16(i2)[j] as int);
    let (x4, x5, x6, x7) = (w16(i3)[j] as int, w16(i3)[8 + j] as int, w16(i4)[j] as int, w16(i4)[8 + j] as int);
    lemma_m8_2(first, x0, x1, x2, x3, x4, x5, x6, x7);
    lemma_m8_6(first, x0, x1, x2, x3, x4, x5, x6, x7);
    lemma_swap(u6, q7);
    lemma_cols(j, u6, q7, el, eh, ml, mh, 10703, 4433, -10704, 4433);
    lemma_round(first, j, ml, mh, al, ah, sl, sh, r);
}
pub proof fn lemma_odd75(first: bool, j: int, i1: __m256i, i2: __m256i, i3: __m256i, i4: __m256i, g5: __m256i, g8: __m256i, u1: __m256i, u6: __m256i, z7: __m256i, z2: __m256i, zl: __m256i, zh: __m256i, zml: __m256i, zmh: __m256i,
    q: __m256i, pl: __m256i, ph: __m256i, ml: __m256i, mh: __m256i, xl: __m256i, xh: __m256i, al: __m256i, ah: __m256i, sl: __m256i, sh: __m256i, r: __m256i)
    requires
        0 <= j < 8, stage(first, j, i1, i2, i3, i4, g5, g8, u1, u6, z7),
        is_permute2x128_si256(z7, z7, 1, z2), is_unpacklo_epi16(z7, z2, zl), is_unpackhi_epi16(z7, z2, zh),
        is_mul(zl, zml, -6436, 9633, 6437, 9633), is_mul(zh, zmh, -6436, 9633, 6437, 9633),
        is_permute2x128_si256(g5, g5, 1, q), is_unpacklo_epi16(g8, q, pl), is_unpackhi_epi16(g8, q, ph),
        is_mul(pl, ml, -4927, -7373, -4176, -20995), is_mul(ph, mh, -4927, -7373, -4176, -20995), is_add_epi32(ml, zml, xl), is_add_epi32(mh, zmh, xh),
        is_plus(xl, al, div_of(first) / 2), is_plus(xh, ah, div_of(first) / 2), is_shr(al, sl, first), is_shr(ah, sh, first), is_packs_epi32(sl, sh, r),
    ensures
        w16(r)[j] == dct1(first, 7, i1, i2, i3, i4, j), w16(r)[8 + j] == dct1(first, 5, i1, i2, i3, i4, j),
{
    let (x0, x1, x2, x3) = (w16(i1)[8 + j] as int, w16(i1)[j] as int, w16(i2)[8 + j] as int, w16(i2)[j] as int);
    let (x4, x5, x6, x7) = (w16(i3)[j] as int, w16(i3)[8 + j] as int, w16(i4)[j] as int, w16(i4)[8 + j] as int);
    lemma_m8_7(first, x0, x1, x2, x3, x4, x5, x6, x7);
    lemma_m8_5(first, x0, x1, x2, x3, x4, x5, x6, x7);
    lemma_swap(z7, z2);
    lemma_swap(g5, q);
    lemma_cols(j, z7, z2, zl, zh, zml, zmh, -6436, 9633, 6437, 9633);
    lemma_cols(j, g8, q, pl, ph, ml, mh, -4927, -7373, -4176, -20995);
    lemma_add_cols(j, ml, mh, zml, zmh, xl, xh);
    lemma_round(first, j, xl, xh, al, ah, sl, sh, r);
}
pub proof fn lemma_odd31(first: bool, j: int, i1: __m256i, i2: __m256i, i3: __m256i, i4: __m256i, g5: __m256i, g8: __m256i, u1: __m256i, u6: __m256i, z7: __m256i, z2: __m256i, zl: __m256i, zh: __m256i, zml: __m256i, zmh: __m256i,
    q: __m256i, pl: __m256i, ph: __m256i, ml: __m256i, mh: __m256i, xl: __m256i, xh: __m256i, al: __m256i, ah: __m256i, sl: __m256i, sh: __m256i, r: __m256i)
    requires
        0 <= j < 8, stage(first, j, i1, i2, i3, i4, g5, g8, u1, u6, z7),
        is_permute2x128_si256(z7, z7, 1, z2), is_unpacklo_epi16(z7, z2, zl), is_unpackhi_epi16(z7, z2, zh),
        is_mul(zl, zml, -6436, 9633, 6437, 9633), is_mul(zh, zmh, -6436, 9633, 6437, 9633),
        is_permute2x128_si256(g8, g8, 1, q), is_unpacklo_epi16(g5, q, pl), is_unpackhi_epi16(g5, q, ph),
        is_mul(pl, ml, 4177, -20995, 4926, -7373), is_mul(ph, mh, 4177, -20995, 4926, -7373), is_add_epi32(ml, zml, xl), is_add_epi32(mh, zmh, xh),
        is_plus(xl, al, div_of(first) / 2), is_plus(xh, ah, div_of(first) / 2), is_shr(al, sl, first), is_shr(ah, sh, first), is_packs_epi32(sl, sh, r),
    ensures
        w16(r)[j] == dct1(first, 3, i1, i2, i3, i4, j), w16(r)[8 + j] == dct1(first, 1, i1, i2, i3, i4, j),
{
    let (x0, x1, x2, x3) = (w16(i1)[8 + j] as int, w16(i1)[j] as int, w16(i2)[8 + j] as int, w16(i2)[j] as int);
    let (x4, x5, x6, x7) = (w16(i3)[j] as int, w16(i3)[8 + j] as int, w16(i4)[j] as int, w16(i4)[8 + j] as int);
    lemma_m8_3(first, x0, x1, x2, x3, x4, x5, x6, x7);
    lemma_m8_1(first, x0, x1, x2, x3, x4, x5, x6, x7);
    lemma_swap(z7, z2);
    lemma_swap(g8, q);
    lemma_cols(j, z7, z2, zl, zh, zml, zmh, -6436, 9633, 6437, 9633);
    lemma_cols(j, g5, q, pl, ph, ml, mh, 4177, -20995, 4926, -7373);
    lemma_add_cols(j, ml, mh, zml, zmh, xl, xh);
    lemma_round(first, j, xl, xh, al, ah, sl, sh, r);
}
/// column j of the outputs
#[verifier::opaque]
pub open spec fn dct_lane(first: bool, i1: __m256i, i2: __m256i, i3: __m256i, i4: __m256i, r0: __m256i, r1: __m256i, r2: __m256i, r3: __m256i, j: int) -> bool {
    &&& w16(r0)[j] == dct1(first, 0, i1, i2, i3, i4, j) && w16(r0)[8 + j] == dct1(first, 4, i1, i2, i3, i4, j)
    &&& w16(r1)[j] == dct1(first, 3, i1, i2, i3, i4, j) && w16(r1)[8 + j] == dct1(first, 1, i1, i2, i3, i4, j)
    &&& w16(r2)[j] == dct1(first, 2, i1, i2, i3, i4, j) && w16(r2)[8 + j] == dct1(first, 6, i1, i2, i3, i4, j)
    &&& w16(r3)[j] == dct1(first, 7, i1, i2, i3, i4, j) && w16(r3)[8 + j] == dct1(first, 5, i1, i2, i3, i4, j)
}
/// column j of a transposed matrix, in the layout that dct_lane takes
#[verifier::opaque]
pub open spec fn tr_lane(i1: __m256i, i2: __m256i, i3: __m256i, i4: __m256i, r0: __m256i, r1: __m256i, r2: __m256i, r3: __m256i, j: int) -> bool {
    &&& w16(r0)[j] == mat(i1, i2, i3, i4, j, 1) && w16(r0)[8 + j] == mat(i1, i2, i3, i4, j, 0)
    &&& w16(r1)[j] == mat(i1, i2, i3, i4, j, 3) && w16(r1)[8 + j] == mat(i1, i2, i3, i4, j, 2)
    &&& w16(r2)[j] == mat(i1, i2, i3, i4, j, 4) && w16(r2)[8 + j] == mat(i1, i2, i3, i4, j, 5)
    &&& w16(r3)[j] == mat(i1, i2, i3, i4, j, 6) && w16(r3)[8 + j] == mat(i1, i2, i3, i4, j, 7)
}
/// element (u, x) of the 8x8 matrix stored by rows in four registers
pub open spec fn rows_of(s0: __m256i, s1: __m256i, s2: __m256i, s3: __m256i, u: int, x: int) -> i16 {
    if u == 0 { w16(s0)[x] } else if u == 1 { w16(s0)[8 + x] } else if u == 2 { w16(s1)[x] } else if u == 3 { w16(s1)[8 + x] }
    else if u == 4 { w16(s2)[x] } else if u == 5 { w16(s2)[8 + x] } else if u == 6 { w16(s3)[x] } else { w16(s3)[8 + x] }
}
pub open spec fn is_load(s: Seq<i16>, p: int, r: __m256i) -> bool { forall|i: int| 0 <= i < 16 ==> #[trigger] w16(r)[i] == s[16 * p + i] }
pub proof fn lemma_rows(s: Seq<i16>, l0: __m256i, l1: __m256i, l2: __m256i, l3: __m256i, p0: __m256i, p1: __m256i, p2: __m256i, p3: __m256i, r: int, c: int)
    requires
        0 <= r < 8, 0 <= c < 8, is_load(s, 0, l0), is_load(s, 1, l1), is_load(s, 2, l2), is_load(s, 3, l3),
        is_permute2x128_si256(l0, l2, 0x20, p0), is_permute2x128_si256(l0, l2, 0x31, p1), is_permute2x128_si256(l1, l3, 0x20, p2), is_permute2x128_si256(l1, l3, 0x31, p3),
    ensures mat(p0, p1, p2, p3, r, c) == s[8 * r + c],
{
    reveal(is_permute2x128_si256);
    assert(r == 0 || r == 1 || r == 2 || r == 3 || r == 4 || r == 5 || r == 6 || r == 7);
}
pub proof fn lemma_in1(s: Seq<i16>, p0: __m256i, p1: __m256i, p2: __m256i, p3: __m256i, x0: __m256i, x1: __m256i, x2: __m256i, x3: __m256i)
    requires
        px_ok(s), forall|r: int, c: int| 0 <= r < 8 && 0 <= c < 8 ==> #[trigger] mat(p0, p1, p2, p3, r, c) == s[8 * r + c],
        forall|j: int| 0 <= j < 8 ==> #[trigger] tr_lane(p0, p1, p2, p3, x0, x1, x2, x3, j),
    ensures in_range(x0, true), in_range(x1, true), in_range(x2, true), in_range(x3, true),
{
    assert forall|i: int| #![trigger w16(x0)[i]] #![trigger w16(x1)[i]] #![trigger w16(x2)[i]] #![trigger w16(x3)[i]] 0 <= i < 16 implies -128 <= w16(x0)[i] <= 127 && -128 <= w16(x1)[i] <= 127 && -128 <= w16(x2)[i] <= 127 && -128 <= w16(x3)[i] <= 127 by {
        let j = i % 8;
        assert(tr_lane(p0, p1, p2, p3, x0, x1, x2, x3, j));
        reveal(tr_lane);
        assert forall|c: int| 0 <= c < 8 implies -128 <= #[trigger] mat(p0, p1, p2, p3, j, c) <= 127 by {}
    }
}
pub proof fn lemma_mid(s: Seq<i16>, p0: __m256i, p1: __m256i, p2: __m256i, p3: __m256i, x0: __m256i, x1: __m256i, x2: __m256i, x3: __m256i,
    d0: __m256i, d1: __m256i, d2: __m256i, d3: __m256i, q1: __m256i, q4: __m256i, r: int, c: int)
    requires
        0 <= r < 8, 0 <= c < 8, forall|r: int, c: int| 0 <= r < 8 && 0 <= c < 8 ==> #[trigger] mat(p0, p1, p2, p3, r, c) == s[8 * r + c],
        tr_lane(p0, p1, p2, p3, x0, x1, x2, x3, c), dct_lane(true, x0, x1, x2, x3, d0, d1, d2, d3, c),
        is_permute2x128_si256(d1, d3, 0x20, q4), is_permute2x128_si256(d1, d3, 0x31, q1),
    ensures mat(d0, q1, d2, q4, r, c) == pass1(s, c, r),
{
    reveal(is_permute2x128_si256); reveal(pass1);
    assert(dct1(true, r, x0, x1, x2, x3, c) == rdiv(row8(r, s, c), 2048)) by { reveal(tr_lane); }
    assert(r == 0 || r == 1 || r == 2 || r == 3 || r == 4 || r == 5 || r == 6 || r == 7);
    reveal(dct_lane);
}
pub proof fn lemma_in2(s: Seq<i16>, p0: __m256i, p1: __m256i, p2: __m256i, p3: __m256i, x0: __m256i, x1: __m256i, x2: __m256i, x3: __m256i)
    requires
        px_ok(s), forall|r: int, c: int| 0 <= r < 8 && 0 <= c < 8 ==> #[trigger] mat(p0, p1, p2, p3, r, c) == pass1(s, c, r),
        forall|j: int| 0 <= j < 8 ==> #[trigger] tr_lane(p0, p1, p2, p3, x0, x1, x2, x3, j),
    ensures in_range(x0, false), in_range(x1, false), in_range(x2, false), in_range(x3, false),
{
    assert forall|i: int| #![trigger w16(x0)[i]] #![trigger w16(x1)[i]] #![trigger w16(x2)[i]] #![trigger w16(x3)[i]] 0 <= i < 16 implies -4096 <= w16(x0)[i] <= 4080 && -4096 <= w16(x1)[i] <= 4080 && -4096 <= w16(x2)[i] <= 4080 && -4096 <= w16(x3)[i] <= 4080 by {
        let j = i % 8;
        assert(tr_lane(p0, p1, p2, p3, x0, x1, x2, x3, j));
        reveal(tr_lane);
        assert forall|c: int| 0 <= c < 8 implies -4096 <= #[trigger] mat(p0, p1, p2, p3, j, c) <= 4080 by { lemma_p1(s, c, j); reveal(p1_ok); }
    }
}
pub proof fn lemma_last(s: Seq<i16>, p0: __m256i, p1: __m256i, p2: __m256i, p3: __m256i, x0: __m256i, x1: __m256i, x2: __m256i, x3: __m256i,
    f0: __m256i, f1: __m256i, f2: __m256i, f4: __m256i, s0: __m256i, s1: __m256i, s2: __m256i, s3: __m256i, u: int, x: int)
    requires
        0 <= u < 8, 0 <= x < 8, forall|r: int, c: int| 0 <= r < 8 && 0 <= c < 8 ==> #[trigger] mat(p0, p1, p2, p3, r, c) == pass1(s, c, r),
        tr_lane(p0, p1, p2, p3, x0, x1, x2, x3, x), dct_lane(false, x0, x1, x2, x3, f0, f1, f2, f4, x),
        is_permute2x128_si256(f0, f1, 0x30, s0), is_permute2x128_si256(f2, f1, 0x20, s1), is_permute2x128_si256(f0, f4, 0x31, s2), is_permute2x128_si256(f2, f4, 0x21, s3),
    ensures rows_of(s0, s1, s2, s3, u, x) == pass2(s, u, x),
{
    reveal(is_permute2x128_si256); reveal(pass2);
    assert(dct1(false, u, x0, x1, x2, x3, x) == pass2(s, u, x)) by { reveal(tr_lane); }
    assert(u == 0 || u == 1 || u == 2 || u == 3 || u == 4 || u == 5 || u == 6 || u == 7);
    reveal(dct_lane);
}
/// the same for the word products of the AVX2 code
#[verifier::opaque]
pub open spec fn factor16(c: int) -> bool { true }
pub broadcast proof fn lemma_scale16(x: int, c: int)
    ensures
        #![trigger (x * c), factor16(c)]
        c == 4433 ==> x * c == (4433 * x),
        c == 10703 ==> x * c == (10703 * x),
        c == -10704 ==> x * c == -(10704 * x),
        c == 9633 ==> x * c == (9633 * x),
        c == -6436 ==> x * c == -(6436 * x),
        c == 6437 ==> x * c == (6437 * x),
        c == -20995 ==> x * c == -(20995 * x),
        c == -4176 ==> x * c == -(4176 * x),
        c == -7373 ==> x * c == -(7373 * x),
        c == -4927 ==> x * c == -(4927 * x),
        c == 4926 ==> x * c == (4926 * x),
        c == 4177 ==> x * c == (4177 * x),
{}
pub proof fn lemma_factors16()
    ensures factor16(4433), factor16(10703), factor16(-10704), factor16(9633), factor16(-6436), factor16(6437), factor16(-20995), factor16(-4176), factor16(-7373), factor16(-4927), factor16(4926), factor16(4177),
{ reveal(factor16); }
