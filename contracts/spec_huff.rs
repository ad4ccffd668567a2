// Huffman tables as announced in a DHT segment (T.81 annex C): lengths[i] codes of i + 1 bits, assigned to the
// values in order, each code one more than the last, with a zero appended when the length grows
use vstd::arithmetic::power2::*;

/// number of codes with at most n bits
pub open spec fn pos(l: Seq<u8>, n: int) -> nat
    decreases n
{
    if n <= 0 { 0 } else { pos(l, n - 1) + l[n - 1] as nat }
}
/// n-bit words covered by codes with at most n bits
pub open spec fn ksum(l: Seq<u8>, n: int) -> nat
    decreases n
{
    if n <= 0 { 0 } else { 2 * ksum(l, n - 1) + l[n - 1] as nat }
}
/// bits of the k-th code, looking at codes with at most n bits (0: there is no such code)
pub open spec fn size_at(l: Seq<u8>, k: int, n: int) -> nat
    decreases n
{
    if n <= 0 { 0 } else if k < pos(l, n - 1) { size_at(l, k, n - 1) } else if k < pos(l, n) { n as nat } else { 0 }
}
pub open spec fn size_of_nr(l: Seq<u8>, k: int) -> nat { size_at(l, k, 16) }
/// the k-th code
pub open spec fn code_nr(l: Seq<u8>, k: int) -> int {
    let s = size_of_nr(l, k) as int;
    2 * ksum(l, s - 1) + k - pos(l, s - 1)
}
/// a legal list of lengths: at most 256 codes, and neither too many codes nor an all-ones code
pub open spec fn lens_ok(l: Seq<u8>) -> bool {
    &&& l.len() == 16
    &&& pos(l, 16) <= 256
    &&& ksum(l, 16) < 65536
}
pub proof fn lemma_pos_mono(l: Seq<u8>, a: int, b: int)
    requires a <= b
    ensures pos(l, a) <= pos(l, b)
    decreases b
{
    if b > 0 && a < b { lemma_pos_mono(l, a, b - 1); }
}
pub proof fn lemma_size_at(l: Seq<u8>, k: int, n: int, m: int)
    requires 0 < n <= m, pos(l, n - 1) <= k < pos(l, n)
    ensures size_at(l, k, m) == n
    decreases m
{
    if m > n { lemma_pos_mono(l, n, m - 1); lemma_size_at(l, k, n, m - 1); }
}
pub proof fn lemma_size_at_inv(l: Seq<u8>, k: int, m: int)
    requires 0 <= k < pos(l, m), 0 <= m
    ensures
        1 <= size_at(l, k, m) <= m,
        pos(l, size_at(l, k, m) as int - 1) <= k < pos(l, size_at(l, k, m) as int),
    decreases m
{
    if m > 0 && k < pos(l, m - 1) { lemma_size_at_inv(l, k, m - 1); }
}
pub proof fn lemma_size_at_none(l: Seq<u8>, k: int, m: int)
    requires k >= pos(l, m)
    ensures size_at(l, k, m) == 0
{
    if m > 0 { lemma_pos_mono(l, m - 1, m); }
}
pub proof fn lemma_ksum_step(l: Seq<u8>, a: int, b: int)
    requires 0 <= a <= b
    ensures ksum(l, b) >= ksum(l, a) * pow2((b - a) as nat)
    decreases b - a
{
    vstd::arithmetic::power2::lemma2_to64();
    if a < b {
        lemma_ksum_step(l, a, b - 1);
        lemma_pow2_unfold((b - a) as nat);
        assert(ksum(l, a) * pow2((b - a) as nat) == 2 * (ksum(l, a) * pow2((b - 1 - a) as nat))) by (nonlinear_arith)
            requires pow2((b - a) as nat) == 2 * pow2((b - 1 - a) as nat);
    } else {
        assert(ksum(l, a) * 1 == ksum(l, a));
    }
}
/// no length is over-full, and none uses its all-ones word
pub proof fn lemma_ksum_room(l: Seq<u8>, n: int)
    requires lens_ok(l), 0 <= n <= 16
    ensures ksum(l, n) < pow2(n as nat)
{
    vstd::arithmetic::power2::lemma2_to64();
    lemma_ksum_step(l, n, 16);
    lemma_pow2_adds(n as nat, (16 - n) as nat);
    if ksum(l, n) >= pow2(n as nat) {
        assert(ksum(l, n) * pow2((16 - n) as nat) >= pow2(n as nat) * pow2((16 - n) as nat)) by (nonlinear_arith)
            requires ksum(l, n) >= pow2(n as nat), pow2((16 - n) as nat) >= 0;
    }
}
/// every code fits its size and is not all ones
pub proof fn lemma_code_fits(l: Seq<u8>, k: int)
    requires lens_ok(l), 0 <= k < pos(l, 16)
    ensures
        1 <= size_of_nr(l, k) <= 16,
        0 <= code_nr(l, k) < pow2(size_of_nr(l, k)) - 1,
        code_nr(l, k) < 65535,
        pos(l, size_of_nr(l, k) as int - 1) <= k < pos(l, size_of_nr(l, k) as int),
{
    lemma_size_at_inv(l, k, 16);
    let s = size_of_nr(l, k) as int;
    lemma_ksum_room(l, s);
    vstd::arithmetic::power2::lemma2_to64();
    crate::spec_block::mono(s as nat, 16);
}
pub proof fn lemma_ksum_zeros(l: Seq<u8>, a: int, b: int)
    requires 0 <= a <= b, pos(l, a) == pos(l, b)
    ensures ksum(l, b) == ksum(l, a) * pow2((b - a) as nat)
    decreases b - a
{
    vstd::arithmetic::power2::lemma2_to64();
    if a < b {
        lemma_pos_mono(l, a, b - 1);
        lemma_ksum_zeros(l, a, b - 1);
        lemma_pow2_unfold((b - a) as nat);
        assert(ksum(l, a) * pow2((b - a) as nat) == 2 * (ksum(l, a) * pow2((b - 1 - a) as nat))) by (nonlinear_arith)
            requires pow2((b - a) as nat) == 2 * pow2((b - 1 - a) as nat);
    } else {
        assert(ksum(l, a) * 1 == ksum(l, a));
    }
}
/// each code is one more than its predecessor, shifted left when the size grows (figure C.2)
pub proof fn lemma_code_next(l: Seq<u8>, k: int)
    requires lens_ok(l), 0 < k < pos(l, 16)
    ensures
        size_of_nr(l, k - 1) <= size_of_nr(l, k),
        code_nr(l, k) == (code_nr(l, k - 1) + 1) * pow2((size_of_nr(l, k) - size_of_nr(l, k - 1)) as nat),
{
    vstd::arithmetic::power2::lemma2_to64();
    lemma_code_fits(l, k); lemma_code_fits(l, k - 1);
    let s = size_of_nr(l, k) as int; let p = size_of_nr(l, k - 1) as int;
    if s < p { lemma_pos_mono(l, s, p - 1); }
    if s == p {
        assert((code_nr(l, k - 1) + 1) * 1 == code_nr(l, k - 1) + 1);
    } else {
        lemma_pos_mono(l, p, s - 1);
        lemma_ksum_zeros(l, p, s - 1);
        let d = (s - 1 - p) as nat;
        lemma_pow2_unfold(d + 1);
        assert(ksum(l, p) * pow2(d + 1) == 2 * (ksum(l, p) * pow2(d))) by (nonlinear_arith) requires pow2(d + 1) == 2 * pow2(d);
        assert(code_nr(l, k - 1) + 1 == ksum(l, p));
    }
}
pub proof fn lemma_code_first(l: Seq<u8>)
    requires lens_ok(l), 0 < pos(l, 16)
    ensures code_nr(l, 0) == 0
{
    lemma_code_fits(l, 0);
    let s = size_of_nr(l, 0) as int;
    lemma_pos_mono(l, 0, s - 1);
    assert(pos(l, 0) == 0 && pos(l, s - 1) <= 0);
    lemma_ksum_zeros(l, 0, s - 1);
    let z = ksum(l, 0) as int; let w = pow2((s - 1) as nat) as int;
    assert(z == 0);
    assert(z * w == 0) by (nonlinear_arith) requires z == 0;
}
/// no code is a prefix of another one
pub proof fn lemma_prefix_free(l: Seq<u8>, a: int, b: int)
    requires lens_ok(l), 0 <= a < b < pos(l, 16)
    ensures
        size_of_nr(l, a) <= size_of_nr(l, b),
        code_nr(l, b) >= (code_nr(l, a) + 1) * pow2((size_of_nr(l, b) - size_of_nr(l, a)) as nat),
    decreases b - a
{
    broadcast use lemma_pow2_pos;
    lemma_code_next(l, b);
    if a < b - 1 {
        lemma_prefix_free(l, a, b - 1);
        let x = code_nr(l, a) + 1;
        let y = code_nr(l, b - 1);
        let d1 = (size_of_nr(l, b - 1) - size_of_nr(l, a)) as nat;
        let d2 = (size_of_nr(l, b) - size_of_nr(l, b - 1)) as nat;
        lemma_pow2_adds(d1, d2);
        assert((y + 1) * pow2(d2) >= x * pow2(d1) * pow2(d2)) by (nonlinear_arith) requires y >= x * pow2(d1), pow2(d2) >= 0;
        assert(x * pow2(d1) * pow2(d2) == x * (pow2(d1) * pow2(d2))) by (nonlinear_arith);
    }
}
// ---- the sizes written out one by one
/// `sizes` lists the code sizes in order, zeros after the last one
pub open spec fn sizes_for(sizes: Seq<u8>, l: Seq<u8>) -> bool {
    &&& lens_ok(l)
    &&& sizes.len() == 256
    &&& forall|k: int| 0 <= k < 256 ==> #[trigger] sizes[k] == size_of_nr(l, k)
}
/// figure C.2
pub open spec fn chain_code(sizes: Seq<u8>, k: int) -> int
    decreases k
{
    if k <= 0 { 0 } else { (chain_code(sizes, k - 1) + 1) * pow2((sizes[k] - sizes[k - 1]) as nat) }
}
pub proof fn lemma_chain_code(sizes: Seq<u8>, l: Seq<u8>, k: int)
    requires sizes_for(sizes, l), 0 <= k < pos(l, 16)
    ensures chain_code(sizes, k) == code_nr(l, k)
    decreases k
{
    lemma_code_fits(l, k);
    if k == 0 { lemma_code_first(l); } else { lemma_chain_code(sizes, l, k - 1); lemma_code_next(l, k); }
}
/// shifting a 16-bit code left
pub proof fn lemma_shl16(c: u16, d: usize)
    requires d < 16, c as nat * pow2(d as nat) < 65536
    ensures (c << d) as nat == c as nat * pow2(d as nat)
{
    vstd::arithmetic::power2::lemma2_to64();
    crate::spec_block::lemma_shl_pow2(d as u32);
    let p = 1u32 << (d as u32);
    let c32 = c as u32;
    let d32 = d as u32;
    assert(c32 as int * p as int == c as nat * pow2(d as nat)) by (nonlinear_arith) requires p as nat == pow2(d as nat), c32 == c;
    crate::spec_block::mono(d as nat, 15);
    assert(c32 <= 65535 && p <= 32768);
    assert((c32 * p) as u32 == c32 * p);
    let prod = (c32 * p) as u32;
    assert((c << d) as u32 == prod) by (bit_vector)
        requires d < 16, c32 == c as u32, d32 == d as u32, p == 1u32 << d32, prod == mul(c32, p), prod < 65536, c32 <= 65535, p <= 32768;
}
