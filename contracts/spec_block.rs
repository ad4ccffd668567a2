// Entropy coding of one block (T.81 F.1.2): which symbols and bits a block of quantized coefficients stands for
use crate::base::*;
use crate::spec_bits::*;
use crate::huffman::HuffmanTable;
pub use vstd::arithmetic::power2::pow2;

/// magnitude category SSSS of a non-negative number (T.81 table F.1)
pub open spec fn cat(a: nat) -> nat
    decreases a
{
    if a == 0 { 0 } else { 1 + cat(a / 2) }
}
pub open spec fn iabs(v: int) -> nat { if v < 0 { (-v) as nat } else { v as nat } }
pub open spec fn ssss(v: int) -> nat { cat(iabs(v)) }
/// additional bits: v for positive, v - 1 (in SSSS low bits) for negative numbers
pub open spec fn extra(v: int) -> int { if v >= 0 { v } else { v + pow2(ssss(v)) - 1 } }
pub open spec fn extra_bits(v: int) -> Seq<bool> { bits_of(extra(v) as u64, ssss(v)) }

pub open spec fn dc_bits(t: &HuffmanTable, diff: int) -> Seq<bool> {
    t.code_of(ssss(diff) as u8) + extra_bits(diff)
}
/// number of zero coefficients directly before position k, counted from `start`
pub open spec fn zrun(blk: Seq<i16>, start: int, k: int) -> nat
    decreases k - start
{
    if k <= start { 0 } else if blk[k - 1] == 0 { 1 + zrun(blk, start, k - 1) } else { 0 }
}
pub open spec fn ac_symbol(blk: Seq<i16>, start: int, k: int) -> u8 {
    (zrun(blk, start, k) % 16 * 16 + ssss(blk[k] as int)) as u8
}
pub open spec fn zrls(t: &HuffmanTable, n: nat) -> Seq<bool>
    decreases n
{
    if n == 0 { Seq::empty() } else { zrls(t, (n - 1) as nat) + t.code_of(0xF0) }
}
pub open spec fn ac_prefix(t: &HuffmanTable, blk: Seq<i16>, start: int, k: int) -> Seq<bool>
    decreases k - start
{
    if k <= start { Seq::empty() }
    else if blk[k - 1] == 0 { ac_prefix(t, blk, start, k - 1) }
    else {
        ac_prefix(t, blk, start, k - 1) + zrls(t, zrun(blk, start, k - 1) / 16)
            + (t.code_of(ac_symbol(blk, start, k - 1)) + extra_bits(blk[k - 1] as int))
    }
}
/// the band [start, end) of a block, with an end-of-block code unless the last coefficient is non-zero
pub open spec fn ac_bits(t: &HuffmanTable, blk: Seq<i16>, start: int, end: int) -> Seq<bool> {
    ac_prefix(t, blk, start, end) + if zrun(blk, start, end) > 0 { t.code_of(0) } else { Seq::empty() }
}
pub open spec fn block_bits(dc: &HuffmanTable, ac: &HuffmanTable, blk: Seq<i16>, pred: int) -> Seq<bool> {
    dc_bits(dc, blk[0] - pred) + ac_bits(ac, blk, 1, 64)
}
/// every symbol the band needs has a code
pub open spec fn ac_coded(t: &HuffmanTable, blk: Seq<i16>, start: int, end: int) -> bool {
    &&& forall|k: int| #![trigger blk[k]] start <= k < end && blk[k] != 0 ==>
            t.has(ac_symbol(blk, start, k)) && (zrun(blk, start, k) > 15 ==> t.has(0xF0))
    &&& zrun(blk, start, end) > 0 ==> t.has(0)
}
pub open spec fn coef_ok(v: i16) -> bool { -16383 <= v <= 16383 }

pub proof fn lemma_zrun_bound(blk: Seq<i16>, start: int, k: int)
    ensures zrun(blk, start, k) <= if k > start { k - start } else { 0 }
    decreases k - start
{
    if k > start { lemma_zrun_bound(blk, start, k - 1); }
}
pub proof fn lemma_cat_bounds(a: nat)
    ensures a < pow2(cat(a)), a > 0 ==> pow2((cat(a) - 1) as nat) <= a, a > 0 ==> cat(a) >= 1
    decreases a
{
    broadcast use vstd::arithmetic::power2::lemma_pow2_pos;
    vstd::arithmetic::power2::lemma2_to64();
    if a > 0 {
        lemma_cat_bounds(a / 2);
        vstd::arithmetic::power2::lemma_pow2_unfold(cat(a));
        if a / 2 > 0 { vstd::arithmetic::power2::lemma_pow2_unfold((cat(a) - 1) as nat); }
    }
}
/// cat(a) is the only n with 2^(n-1) <= a < 2^n
pub proof fn lemma_cat_unique(a: nat, n: nat)
    requires a < pow2(n), n > 0 ==> pow2((n - 1) as nat) <= a
    ensures cat(a) == n
{
    lemma_cat_bounds(a);
    vstd::arithmetic::power2::lemma2_to64();
    broadcast use vstd::arithmetic::power2::lemma_pow2_pos;
    if a > 0 {
        if cat(a) < n { vstd::arithmetic::power2::lemma_pow2_strictly_increases(cat(a), n); mono(cat(a), (n - 1) as nat); }
        if cat(a) > n { mono(n, (cat(a) - 1) as nat); }
    }
}
pub proof fn mono(a: nat, b: nat)
    requires a <= b
    ensures pow2(a) <= pow2(b)
{
    if a < b { vstd::arithmetic::power2::lemma_pow2_strictly_increases(a, b); }
}

/// the shift/mask computation of SSSS and of the additional bits
pub proof fn lemma_get_code(v: i16, t: i16, a: i16, lz: u32)
    requires
        coef_ok(v), a == iabs(v as int), t == (a << 1 | 1),
        lz_is(t, lz),
    ensures
        1 <= lz <= 15, ssss(v as int) == 15 - lz,
        0 <= extra(v as int) < pow2(ssss(v as int)),
        ({
            let n = (15 - lz) as u64;
            let w = if v < 0 { (v - 1) as i16 } else { v };
            let m = ((1i16 << (n as usize)) - 1) as i16;
            &&& 1i16 << (n as usize) >= 1
            &&& (w & m) as int == extra(v as int)
            &&& (extra(v as int) as u64) >> n == 0
        }),
{
    let au = a as u32;
    assert(t as u16 as u32 == 2 * au + 1) by (bit_vector) requires t == (a << 1 | 1), 0 <= a <= 16383, au == a as u32;
    let w2 = (2 * au + 1) as u32;
    if lz == 0 { assert(w2 >> 15 == 1 ==> w2 >= 32768) by (bit_vector); }
    if lz == 16 { assert(w2 >> 0 == 0 ==> w2 == 0) by (bit_vector); }
    let n = (15 - lz) as u32;
    let n1 = (16 - lz) as u32;
    assert(au < (1u32 << n) && (n > 0 ==> au >= (1u32 << sub(n, 1)))) by (bit_vector)
        requires w2 == 2 * au + 1, au <= 16383, n <= 14, n1 == n + 1, w2 >> n == 1, w2 >> n1 == 0;
    assert(n <= 14);
    vstd::arithmetic::power2::lemma2_to64();
    lemma_shl_pow2(n);
    if n > 0 { lemma_shl_pow2((n - 1) as u32); }
    lemma_cat_unique(iabs(v as int), n as nat);
    let nu = n as u64;
    let ns = n as usize;
    let w = if v < 0 { (v - 1) as i16 } else { v };
    assert(1i16 << ns >= 1) by (bit_vector) requires ns <= 14;
    let p = 1i16 << ns;
    let m = (p - 1) as i16;
    assert(p as int == (1u32 << n) as int) by (bit_vector) requires p == 1i16 << ns, ns <= 14, n == ns as u32;
    if v < 0 {
        // w = -a - 1, and a < p, so the low bits of w are p - 1 - a
        let wc = w;
        let r = (m - a) as i16;
        assert(wc & m == r) by (bit_vector) requires ns <= 14, p == 1i16 << ns, m == p - 1, wc == -a - 1, 0 <= a, a < p, r == m - a;
    } else {
        assert(w & m == w) by (bit_vector) requires ns <= 14, p == 1i16 << ns, m == p - 1, 0 <= w, w < p;
    }
    let e = extra(v as int) as u64;
    assert(e >> nu == 0) by (bit_vector) requires e < (1u32 << n) as u64, nu == n as u64, n <= 14;
}
pub proof fn lemma_shl_pow2(n: u32)
    requires n < 32
    ensures (1u32 << n) as nat == pow2(n as nat)
{
    vstd::arithmetic::power2::lemma2_to64();
    mono(n as nat, 31);
    vstd::bits::lemma_u32_shl_is_mul(1, n);
}
