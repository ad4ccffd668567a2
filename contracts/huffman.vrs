//@ extra mod
use crate::spec_block::*;
use crate::spec_huff::*;
use crate::spec_tree::*;
use vstd::arithmetic::power2::*;
//@ extra HuffmanTable
    pub open spec fn size_of_code(&self, v: u8) -> nat { self.lookup_table[v as int].0 as nat }
    pub open spec fn has(&self, v: u8) -> bool { self.size_of_code(v) > 0 }
    pub open spec fn code_of(&self, v: u8) -> Seq<bool> {
        bits_of(self.lookup_table[v as int].1 as u64, self.size_of_code(v))
    }
    /// every code fits the length announced for it, and no length exceeds 16
    pub open spec fn codes_fit(&self) -> bool {
        forall|v: u8| #![trigger self.size_of_code(v)] self.size_of_code(v) <= 16
            && (self.has(v) ==> (self.lookup_table[v as int].1 as u64) >> (self.size_of_code(v) as u64) == 0)
    }
    /// the announced lengths and values are legal, and the codes in use are those a decoder derives from them
    #[verifier::opaque]
    pub open spec fn wf(&self) -> bool {
        &&& announces(self.length@, self.values@)
        &&& table_for(self.lookup_table@, self.length@, self.values@, self.values@.len() as int)
    }
//@ extra mod
/// a legal announcement: as many values as codes, no value twice
pub open spec fn announces(l: Seq<u8>, values: Seq<u8>) -> bool {
    &&& lens_ok(l)
    &&& values.len() == pos(l, 16)
    &&& values.no_duplicates()
}
/// the first n values have the code a decoder assigns to them, all other symbols have none
pub open spec fn table_for(t: Seq<(u8, u16)>, l: Seq<u8>, values: Seq<u8>, n: int) -> bool {
    &&& t.len() == 256
    &&& forall|k: int| 0 <= k < n ==> #[trigger] t[values[k] as int] == (size_of_nr(l, k) as u8, code_nr(l, k) as u16)
    &&& forall|v: u8| !values.take(n).contains(v) ==> (#[trigger] t[v as int]).0 == 0
}
/// a well-formed table: codes fit; what has a code is what is listed
pub proof fn lemma_wf(t: &HuffmanTable)
    requires t.wf()
    ensures
        t.codes_fit(),
        forall|v: u8| #[trigger] t.has(v) <==> t.values@.contains(v),
        t.values@.len() <= 256,
{
    reveal(HuffmanTable::wf);
    let l = t.length@; let vs = t.values@;
    assert(vs.take(vs.len() as int) =~= vs);
    assert forall|v: u8| #![trigger t.size_of_code(v)] t.size_of_code(v) <= 16
            && (t.has(v) ==> (t.lookup_table[v as int].1 as u64) >> (t.size_of_code(v) as u64) == 0) && (t.has(v) <==> vs.contains(v)) by {
        if vs.contains(v) {
            let k = choose|k: int| 0 <= k < vs.len() && vs[k] == v;
            lemma_code_fits(l, k);
            assert(t.lookup_table@[vs[k] as int] == (size_of_nr(l, k) as u8, code_nr(l, k) as u16));
            let s = size_of_nr(l, k) as u32;
            lemma_shl_pow2(s);
            let c = code_nr(l, k) as u64; let p = 1u32 << s; let s6 = s as u64;
            assert(c >> s6 == 0) by (bit_vector) requires c < p as u64, p == 1u32 << s, s6 == s as u64, s <= 16;
        } else {
            assert(t.lookup_table@[v as int].0 == 0);
            let c = t.lookup_table[v as int].1 as u64;
        }
    }
    assert forall|v: u8| #[trigger] t.has(v) <==> vs.contains(v) by { assert(t.size_of_code(v) <= 16); }
}
/// no symbol's code is a prefix of (or equal to) another symbol's code, and none consists of 1-bits only
pub proof fn lemma_wf_prefix_free(t: &HuffmanTable, u: u8, v: u8)
    requires t.wf(), t.has(u), t.has(v), u != v, t.size_of_code(u) <= t.size_of_code(v)
    ensures
        t.code_of(v).take(t.size_of_code(u) as int) != t.code_of(u),
        t.lookup_table[u as int].1 + 1 < pow2(t.size_of_code(u)),
{
    reveal(HuffmanTable::wf);
    broadcast use lemma_pow2_pos;
    lemma_wf(t);
    let l = t.length@; let vs = t.values@;
    let a = choose|k: int| 0 <= k < vs.len() && vs[k] == u;
    let b = choose|k: int| 0 <= k < vs.len() && vs[k] == v;
    assert(vs.contains(u) && vs.contains(v));
    assert(t.lookup_table@[vs[a] as int] == (size_of_nr(l, a) as u8, code_nr(l, a) as u16));
    assert(t.lookup_table@[vs[b] as int] == (size_of_nr(l, b) as u8, code_nr(l, b) as u16));
    lemma_code_fits(l, a); lemma_code_fits(l, b);
    let s = size_of_nr(l, a); let m = size_of_nr(l, b); let d = (m - s) as nat;
    let x = code_nr(l, a) as u64; let y = code_nr(l, b) as u64;
    lemma_shl_pow2(d as u32);
    let p = 1u32 << (d as u32);
    if a < b {
        lemma_prefix_free(l, a, b);
        assert(y as int >= (x + 1) * pow2(d));
    } else {
        lemma_prefix_free(l, b, a);
        assert(s == m && d == 0);
        vstd::arithmetic::power2::lemma2_to64();
        assert(pow2(0) == 1);
        assert((y + 1) * 1 == y + 1);
        assert(x >= y + 1);
    }
    let d6 = d as u64;
    let z = (y >> d6) as u64;
    vstd::bits::lemma_u64_shr_is_div(y, d6);
    assert(z != x) by {
        if z == x {
            vstd::arithmetic::div_mod::lemma_fundamental_div_mod(y as int, pow2(d) as int);
            if a < b {
                assert(y as int >= (x + 1) * pow2(d));
                assert((x + 1) * pow2(d) == pow2(d) * x + pow2(d)) by (nonlinear_arith);
                assert(y as int % pow2(d) as int >= pow2(d));
            } else {
                vstd::arithmetic::power2::lemma2_to64();
                assert(y as int / 1 == y);
            }
        }
    }
    if t.code_of(v).take(s as int) == t.code_of(u) {
        lemma_bits_split(y, m, s);
        assert(t.code_of(v).take(s as int) =~= bits_of(z, s));
        assert(m - s == d);
        lemma_bits_inj(z, x, s);
        assert(z < pow2(s)) by {
            lemma_pow2_adds(s, d);
            if z >= pow2(s) {
                vstd::arithmetic::div_mod::lemma_fundamental_div_mod(y as int, pow2(d) as int);
                assert(pow2(d) * z >= pow2(d) * pow2(s)) by (nonlinear_arith) requires z >= pow2(s), pow2(d) >= 0;
                assert(pow2(d) * pow2(s) == pow2(s) * pow2(d)) by (nonlinear_arith);
            }
        }
    }
}
pub proof fn lemma_bits_inj(a: u64, b: u64, n: nat)
    requires n <= 32, bits_of(a, n) == bits_of(b, n)
    ensures a < pow2(n) && b < pow2(n) ==> a == b
{
    if a < pow2(n) && b < pow2(n) {
        if n == 32 {
            vstd::arithmetic::power2::lemma2_to64();
            bits_eq(a, b, n);
            assert(a == b) by (bit_vector) requires a < 0x1_0000_0000, b < 0x1_0000_0000, (forall|j: u64| j < 32 ==> (a >> j) & 1 == (b >> j) & 1);
        } else {
            lemma_shl_pow2(n as u32);
            bits_eq(a, b, n);
            let p = 1u32 << (n as u32); let n6 = n as u64; let n3 = n as u32;
            assert(a == b) by (bit_vector) requires n6 < 32, n6 == n3 as u64, p == 1u32 << n3, a < p as u64, b < p as u64, (forall|j: u64| j < n6 ==> (a >> j) & 1 == (b >> j) & 1);
        }
    }
}
pub proof fn bits_eq(a: u64, b: u64, n: nat)
    requires n <= 32, bits_of(a, n) == bits_of(b, n)
    ensures forall|j: u64| j < n ==> #[trigger] (a >> j) & 1 == (b >> j) & 1
{
    assert forall|j: u64| j < n implies #[trigger] (a >> j) & 1 == (b >> j) & 1 by {
        let i = n - 1 - j;
        assert(bits_of(a, n)[i] == bits_of(b, n)[i]);
        assert((n - 1 - i) as u64 == j);
        assert(bits_of(a, n)[i] == ((a >> j) & 1 == 1));
        assert(bits_of(b, n)[i] == ((b >> j) & 1 == 1));
        assert((a >> j) & 1 == 0 || (a >> j) & 1 == 1) by (bit_vector);
        assert((b >> j) & 1 == 0 || (b >> j) & 1 == 1) by (bit_vector);
    }
}
//@ fn HuffmanTable::new
    requires announces(length@, values@),
    ensures res.wf(), res.length@ == length@, res.values@ == values@,
//@ at start
proof { reveal(HuffmanTable::wf); }
proof { assert(values@.take(values@.len() as int) =~= values@); }
//@ at end
proof { assert(__vx_r.values@ =~= values@); }
//@ fn HuffmanTable::get_for_value
    requires self.has(value),
    ensures *res == self.lookup_table[value as int],
//@ fn HuffmanTable::length
    ensures *res == self.length,
//@ fn HuffmanTable::values
    ensures res@ == self.values@,
//@ fn create_sizes
    requires lens_ok(code_lengths@),
    ensures sizes_for(res@, code_lengths@),
//@ loop 0
    invariant
        __s0@ == code_lengths@, lens_ok(code_lengths@),
        k == pos(code_lengths@, __k0 as int),
        forall|n: int| 0 <= n < k ==> #[trigger] sizes[n] == size_of_nr(code_lengths@, n),
        forall|n: int| k <= n < 256 ==> #[trigger] sizes[n] == 0,
//@ loop 0 start
let ghost k0 = k as int;
proof { lemma_pos_mono(code_lengths@, __k0 + 1, 16); }
//@ loop 1
    invariant
        lens_ok(code_lengths@), 0 <= __k0 < 16, i == __k0, length == code_lengths[__k0 as int],
        k0 == pos(code_lengths@, __k0 as int), k == k0 + __k1, k0 + length == pos(code_lengths@, __k0 + 1) <= 256,
        forall|n: int| 0 <= n < k ==> #[trigger] sizes[n] == size_of_nr(code_lengths@, n),
        forall|n: int| k <= n < 256 ==> #[trigger] sizes[n] == 0,
//@ loop 1 start
proof { lemma_size_at(code_lengths@, k as int, __k0 + 1, 16); }
//@ at end
proof {
    assert forall|n: int| 0 <= n < 256 implies #[trigger] sizes[n] == size_of_nr(code_lengths@, n) by {
        if n >= k { lemma_size_at_none(code_lengths@, n, 16); }
    }
}
//@ fn create_codes
    requires exists|l: Seq<u8>| sizes_for(sizes@, l),
    ensures forall|l: Seq<u8>, k: int| #![trigger sizes_for(sizes@, l), res[k]] sizes_for(sizes@, l) && 0 <= k < pos(l, 16) ==> res[k] == code_nr(l, k),
//@ at start
let ghost l = choose|l: Seq<u8>| sizes_for(sizes@, l);
proof {
    lemma_size_at_none(l, pos(l, 16) as int, 16);
    assert forall|n: int| 0 <= n < pos(l, 16) implies #[trigger] sizes[n] != 0 by { lemma_code_fits(l, n); }
}
//@ loop 0
    invariant_except_break
        __k0 == 0 ==> current_code == 0 && current_size == sizes[0],
        __k0 > 0 ==> current_size == sizes[__k0 - 1] && current_code == chain_code(sizes@, __k0 - 1) + 1,
    invariant
        sizes_for(sizes@, l), __k0 <= pos(l, 16), pos(l, 16) <= 256,
        forall|n: int| 0 <= n < pos(l, 16) ==> #[trigger] sizes[n] != 0,
        forall|n: int| 0 <= n < __k0 ==> #[trigger] codes[n] == chain_code(sizes@, n),
    ensures
        forall|n: int| 0 <= n < pos(l, 16) ==> #[trigger] codes[n] == chain_code(sizes@, n),
    decreases 256 - __k0,
//@ loop 0 start
proof {
    assert(sizes[__k0 as int] == size_of_nr(l, __k0 as int));
    if __k0 >= pos(l, 16) { lemma_size_at_none(l, __k0 as int, 16); }
    else {
        lemma_code_fits(l, __k0 as int);
        lemma_chain_code(sizes@, l, __k0 as int);
        if __k0 > 0 {
            assert(sizes[__k0 - 1] == size_of_nr(l, __k0 - 1));
            lemma_code_fits(l, __k0 - 1);
            lemma_code_next(l, __k0 as int);
            lemma_chain_code(sizes@, l, __k0 - 1);
            if sizes[__k0 as int] != sizes[__k0 - 1] {
                lemma_shl16((chain_code(sizes@, __k0 - 1) + 1) as u16, (sizes[__k0 as int] - sizes[__k0 - 1]) as usize);
            } else {
                vstd::arithmetic::power2::lemma2_to64();
                assert((chain_code(sizes@, __k0 - 1) + 1) * 1 == chain_code(sizes@, __k0 - 1) + 1);
            }
        }
    }
}
//@ at end
proof {
    assert forall|m: Seq<u8>, k: int| #![trigger sizes_for(sizes@, m), codes[k]] sizes_for(sizes@, m) && 0 <= k < pos(m, 16) implies codes[k] == code_nr(m, k) by {
        lemma_chain_code(sizes@, m, k);
        lemma_code_fits(m, k);
        assert(sizes[k] == size_of_nr(m, k));
        assert(sizes[k] == size_of_nr(l, k));
        if k >= pos(l, 16) { lemma_size_at_none(l, k, 16); }
    }
}
//@ fn create_lookup_table
    requires announces(code_length@, values@),
    ensures table_for(res@, code_length@, values@, values@.len() as int),
//@ loop 0
    invariant
        __s0@ == values@, announces(code_length@, values@), sizes_for(sizes@, code_length@),
        forall|k: int| 0 <= k < pos(code_length@, 16) ==> #[trigger] codes[k] == code_nr(code_length@, k),
        table_for(lookup_table@, code_length@, values@, __k0 as int),
//@ loop 0 start
let ghost t0 = lookup_table@;
proof { lemma_code_fits(code_length@, __k0 as int); }
//@ loop 0 end
proof {
    let vs = values@;
    assert(vs.take(__k0 + 1) =~= vs.take(__k0 as int).push(vs[__k0 as int]));
    assert forall|k: int| 0 <= k < __k0 + 1 implies #[trigger] lookup_table@[vs[k] as int] == (size_of_nr(code_length@, k) as u8, code_nr(code_length@, k) as u16) by {
        if k < __k0 { assert(vs[k] != vs[__k0 as int]); assert(t0[vs[k] as int] == lookup_table@[vs[k] as int]); }
    }
    assert forall|v: u8| !vs.take(__k0 + 1).contains(v) implies (#[trigger] lookup_table@[v as int]).0 == 0 by {
        assert(vs.take(__k0 + 1)[__k0 as int] == vs[__k0 as int]);
        assert(v != vs[__k0 as int]);
        if vs.take(__k0 as int).contains(v) {
            let j = choose|j: int| 0 <= j < __k0 && vs.take(__k0 as int)[j] == v;
            assert(vs.take(__k0 + 1)[j] == v);
        }
        assert(t0[v as int].0 == 0);
    }
}
//@ extra mod
/// which symbols the standard's tables have to provide: DC differences of 8-bit data, (run, size) pairs of AC coefficients
pub open spec fn dc_symbol_needed(v: u8) -> bool { v <= 11 }
pub open spec fn ac_symbol_needed(v: u8) -> bool { v == 0 || v == 0xF0 || 1 <= v % 16 <= 10 }
pub open spec fn dc_complete(t: &HuffmanTable) -> bool { forall|v: u8| dc_symbol_needed(v) ==> #[trigger] t.has(v) }
pub open spec fn ac_complete(t: &HuffmanTable) -> bool { forall|v: u8| ac_symbol_needed(v) ==> #[trigger] t.has(v) }
// evaluated on the tables of the source
// (halving recursion keeps the evaluation depth small)
pub open spec fn tin(a: Seq<u8>, v: u8, lo: nat, hi: nat) -> bool
    decreases hi - lo
{ if hi <= lo { false } else if hi == lo + 1 { a[lo as int] == v } else { tin(a, v, lo, (lo + hi) / 2) || tin(a, v, (lo + hi) / 2, hi) } }
pub open spec fn tdist(a: Seq<u8>, lo: nat, hi: nat) -> bool
    decreases hi - lo
{ if hi <= lo { true } else if hi == lo + 1 { !tin(a, a[lo as int], 0, lo) } else { tdist(a, lo, (lo + hi) / 2) && tdist(a, (lo + hi) / 2, hi) } }
pub open spec fn tcovers(a: Seq<u8>, ac: bool, lo: nat, hi: nat) -> bool
    decreases hi - lo
{
    if hi <= lo { true }
    else if hi == lo + 1 { (if ac { ac_symbol_needed(lo as u8) } else { dc_symbol_needed(lo as u8) }) ==> tin(a, lo as u8, 0, a.len()) }
    else { tcovers(a, ac, lo, (lo + hi) / 2) && tcovers(a, ac, (lo + hi) / 2, hi) }
}
pub open spec fn tseq<const N: usize>(a: [u8; N], lo: nat, hi: nat) -> Seq<u8>
    decreases hi - lo
{ if hi <= lo { Seq::empty() } else if hi == lo + 1 { seq![a[lo as int]] } else { tseq(a, lo, (lo + hi) / 2) + tseq(a, (lo + hi) / 2, hi) } }
pub proof fn lemma_tseq<const N: usize>(a: [u8; N], lo: nat, hi: nat)
    requires lo <= hi <= N
    ensures tseq(a, lo, hi) == a@.subrange(lo as int, hi as int)
    decreases hi - lo
{
    if hi > lo + 1 { lemma_tseq(a, lo, (lo + hi) / 2); lemma_tseq(a, (lo + hi) / 2, hi); }
    assert(tseq(a, lo, hi) =~= a@.subrange(lo as int, hi as int));
}
pub proof fn lemma_tin(a: Seq<u8>, v: u8, lo: nat, hi: nat)
    requires hi <= a.len()
    ensures tin(a, v, lo, hi) <==> exists|i: int| lo <= i < hi && a[i] == v
    decreases hi - lo
{ if hi > lo + 1 { lemma_tin(a, v, lo, (lo + hi) / 2); lemma_tin(a, v, (lo + hi) / 2, hi); } }
pub proof fn lemma_tdist(a: Seq<u8>, lo: nat, hi: nat)
    requires hi <= a.len(), tdist(a, lo, hi)
    ensures forall|i: int, j: int| 0 <= i < j && lo <= j < hi ==> a[i] != a[j]
    decreases hi - lo
{
    if hi == lo + 1 { lemma_tin(a, a[lo as int], 0, lo); }
    if hi > lo + 1 { lemma_tdist(a, lo, (lo + hi) / 2); lemma_tdist(a, (lo + hi) / 2, hi); }
}
pub proof fn lemma_tcovers(a: Seq<u8>, ac: bool, lo: nat, hi: nat, v: u8)
    requires lo <= v < hi, hi <= 256, tcovers(a, ac, lo, hi), if ac { ac_symbol_needed(v) } else { dc_symbol_needed(v) }
    ensures a.contains(v)
    decreases hi - lo
{
    if hi == lo + 1 {
        lemma_tin(a, v, 0, a.len());
        let i = choose|i: int| 0 <= i < a.len() && a[i] == v;
        assert(a[i] == v);
    } else if v < (lo + hi) / 2 { lemma_tcovers(a, ac, lo, (lo + hi) / 2, v); } else { lemma_tcovers(a, ac, (lo + hi) / 2, hi, v); }
}
pub open spec fn builtin_seq_ok(l: Seq<u8>, v: Seq<u8>, ac: bool) -> bool {
    tdist(v, 0, v.len()) && tcovers(v, ac, 0, 256) && pos(l, 16) == v.len() && v.len() <= 256 && ksum(l, 16) < 65536
}
pub open spec fn builtin_ok<const N: usize>(l: [u8; 16], v: [u8; N], n: nat, ac: bool) -> bool {
    builtin_seq_ok(tseq(l, 0, 16), tseq(v, 0, n), ac)
}
pub proof fn lemma_builtin<const N: usize>(l: [u8; 16], v: [u8; N], ac: bool)
    requires builtin_ok(l, v, N as nat, ac)
    ensures announces(l@, v@), forall|s: u8| (if ac { ac_symbol_needed(s) } else { dc_symbol_needed(s) }) ==> #[trigger] v@.contains(s)
{
    lemma_tseq(l, 0, 16); lemma_tseq(v, 0, N as nat);
    assert(l@.subrange(0, 16) =~= l@); assert(v@.subrange(0, N as int) =~= v@);
    lemma_tdist(v@, 0, N as nat);
    assert forall|s: u8| (if ac { ac_symbol_needed(s) } else { dc_symbol_needed(s) }) implies #[trigger] v@.contains(s) by { lemma_tcovers(v@, ac, 0, 256, s); }
}
//@ fn HuffmanTable::default_luma_dc
    ensures res.wf(), dc_complete(&res),
//@ at start
proof {
    assert(builtin_ok(DEFAULT_LUMA_DC_CODE_LENGTHS_C, DEFAULT_LUMA_DC_VALUES_C, 12, false)) by (compute_only);
    lemma_builtin(DEFAULT_LUMA_DC_CODE_LENGTHS_C, DEFAULT_LUMA_DC_VALUES_C, false);
}
//@ at end
proof { lemma_wf(&__vx_r); }
//@ fn HuffmanTable::default_luma_ac
    ensures res.wf(), ac_complete(&res),
//@ at start
proof {
    assert(builtin_ok(DEFAULT_LUMA_AC_CODE_LENGTHS_C, DEFAULT_LUMA_AC_VALUES_C, 162, true)) by (compute_only);
    lemma_builtin(DEFAULT_LUMA_AC_CODE_LENGTHS_C, DEFAULT_LUMA_AC_VALUES_C, true);
}
//@ at end
proof { lemma_wf(&__vx_r); }
//@ fn HuffmanTable::default_chroma_dc
    ensures res.wf(), dc_complete(&res),
//@ at start
proof {
    assert(builtin_ok(DEFAULT_CHROMA_DC_CODE_LENGTHS_C, DEFAULT_CHROMA_DC_VALUES_C, 12, false)) by (compute_only);
    lemma_builtin(DEFAULT_CHROMA_DC_CODE_LENGTHS_C, DEFAULT_CHROMA_DC_VALUES_C, false);
}
//@ at end
proof { lemma_wf(&__vx_r); }
//@ fn HuffmanTable::default_chroma_ac
    ensures res.wf(), ac_complete(&res),
//@ at start
proof {
    assert(builtin_ok(DEFAULT_CHROMA_AC_CODE_LENGTHS_C, DEFAULT_CHROMA_AC_VALUES_C, 162, true)) by (compute_only);
    lemma_builtin(DEFAULT_CHROMA_AC_CODE_LENGTHS_C, DEFAULT_CHROMA_AC_VALUES_C, true);
}
//@ at end
proof { lemma_wf(&__vx_r); }
//@ fn HuffmanTable::new_optimized
    requires
        freq[256] > 0, exists|a: int| 0 <= a < 256 && #[trigger] freq[a] > 0,
        isum(iseq(freq@)) <= u64::MAX, isum(active(freq@)) <= 255,
    ensures
        res.wf(), forall|v: u8| #[trigger] res.has(v) <==> freq[v as int] > 0,
//@ at start
let ghost f0 = freq@;
let ghost a0 = choose|a: int| 0 <= a < 256 && #[trigger] freq[a] > 0;
let ghost n = isum(active(f0));
let ghost mut t = f0_forest(f0);
//@ loop 0 before
proof { lemma_forest_init(f0, others@, codesize@); }
//@ loop 0
    invariant
        t.shape(freq@, others@), t.sized(freq@, codesize@), f0.len() == 257,
        forall|j: int| 0 <= j < 257 ==> (#[trigger] t.head[j] >= 0 <==> f0[j] > 0),
        isum(iseq(freq@)) <= u64::MAX,
        f0[256] > 0, 0 <= a0 < 256, f0[a0] > 0,
    ensures
        complete(codesize@, f0),
    decreases isum(active(freq@)),
//@ loop 1
    invariant
        __s1@ == freq@,
        absent(v1) ==> v1_min == u64::MAX && forall|j: int| 0 <= j < __k1 ==> #[trigger] freq[j] == 0,
        found(v1, freq@, -1),
//@ loop 1 after
proof {
    if absent(v1) {
        assert(t.head[a0] >= 0);
        assert(0 <= t.head[a0] < 257 && freq@[t.head[a0]] > 0) by { reveal(Forest::shape); }
        assert(freq[t.head[a0]] == 0);
    }
}
//@ loop 2
    invariant
        __s2@ == freq@,
        absent(v2) ==> v2_min == u64::MAX && forall|j: int| 0 <= j < __k2 && #[trigger] freq[j] > 0 ==> j == v1,
        found(v2, freq@, v1 as int),
//@ loop 2 after
proof {
    if absent(v2) { lemma_complete(t, f0, freq@, others@, codesize@, v1 as int, a0, 256); }
}
//@ before freq[v1] +=
let ghost fb = freq@;
let ghost ob = others@;
let ghost c0 = codesize@;
let ghost h1 = v1 as int;
let ghost h2 = v2 as int;
let ghost sum = (freq[v1 as int] + freq[v2 as int]) as u64;
proof {
    lemma_merge_freq(fb, h1, h2);
    lemma_sized_bound(t, fb, ob, c0);
    lemma_walk_start(t, fb, ob, c0, h1);
}
//@ loop 3 before
let ghost mut p = 0int;
proof { lemma_walk(t, fb, ob, codesize@, c0, h1, 0); }
//@ loop 3
    invariant
        t.shape(fb, ob), others@ == ob, 0 <= h1 < 257, c0.len() == 257, forall|j: int| 0 <= j < 257 ==> #[trigger] c0[j] <= 256,
        0 <= p < t.ch[h1].len(), v1 == t.ch[h1][p], v1 < 257, t.deeper(codesize@, c0, h1, p),
        others[v1 as int] >= -1, others[v1 as int] >= 0 <==> p + 1 < t.ch[h1].len(),
    decreases t.ch[h1].len() - p,
//@ loop 3 start
proof { lemma_walk(t, fb, ob, codesize@, c0, h1, p); p = p + 1; }
//@ loop 3 end
proof { lemma_walk(t, fb, ob, codesize@, c0, h1, p); }
//@ loop 3 after
let ghost mid = codesize@;
let ghost e = v1 as int;
proof {
    assert forall|j: int| 0 <= j < 257 && t.head[j] == h2 implies #[trigger] mid[j] <= 256 by {
        assert(mid[j] == c0[j] + if t.head[j] == h1 && t.at[j] <= p { 1int } else { 0 });
    }
    lemma_walk_start(t, fb, ob, mid, h2);
    lemma_elem(t, fb, ob, h1, t.ch[h1].len() - 1);
}
//@ loop 4 before
let ghost mut q = 0int;
proof { lemma_walk(t, fb, ob, codesize@, mid, h2, 0); lemma_elem(t, fb, ob, h2, 0); }
//@ loop 4
    invariant
        t.shape(fb, ob), others@ == ob.update(e, h2 as i32), 0 <= h1 < 257, 0 <= h2 < 257, h1 != h2, 0 <= e < 257, t.head[e] == h1, ob.len() == 257,
        mid.len() == 257, forall|j: int| 0 <= j < 257 && t.head[j] == h2 ==> #[trigger] mid[j] <= 256,
        0 <= q < t.ch[h2].len(), v2 == t.ch[h2][q], v2 < 257, t.deeper(codesize@, mid, h2, q),
        t.head[v2 as int] == h2,
        others[v2 as int] >= -1, others[v2 as int] >= 0 <==> q + 1 < t.ch[h2].len(),
    decreases t.ch[h2].len() - q,
//@ loop 4 start
proof { lemma_walk(t, fb, ob, codesize@, mid, h2, q); q = q + 1; }
//@ loop 4 end
proof { lemma_walk(t, fb, ob, codesize@, mid, h2, q); lemma_elem(t, fb, ob, h2, q); }
//@ loop 4 after
proof {
    lemma_merge(t, fb, ob, c0, mid, codesize@, h1, h2, e, sum);
    t = t.merge(h1, h2);
    assert(freq@ =~= fb.update(h1, sum).update(h2, 0));
}
//@ loop 5 before
proof { lemma_counted_init(bits@, codesize@, f0); }
//@ loop 5
    invariant
        __s5@ == codesize@, complete(codesize@, f0), n == isum(active(f0)), n <= 255,
        counted(bits@, codesize@, f0, __k5 as int),
//@ loop 5 start
proof { lemma_counted_step(bits@, codesize@, f0, __k5 as int); }
//@ loop 5 after
proof { lemma_counted_end(bits@, codesize@, f0); }
//@ loop 6
    invariant
        16 <= i <= 256, kraft1(bits@, i as int, n), n <= 255,
    decreases i,
//@ loop 7
    invariant
        16 < i <= 256, kraft1(bits@, i as int, n), n <= 255,
    decreases bits[i as int],
//@ loop 7 start
let ghost b0 = bits@;
proof { lemma_k3_room(b0, i as int, n); }
//@ loop 8
    invariant
        16 < i <= 256, j <= i - 2, bits@ == b0, b0.len() == 257, pos(cnt1(b0), j as int) > 0,
    decreases j,
//@ loop 8 start
proof { lemma_k3_down(b0, j as int); }
//@ loop 8 after
proof {
    lemma_k3_down(b0, j as int);
    lemma_k3_step(b0, i as int, j as int, n);
}
//@ loop 7 end
proof { assert(bits@ =~= k3_moved(b0, i as int, j as int)); }
//@ loop 7 after
proof { lemma_k3_next(bits@, i as int, n); }
//@ loop 9
    invariant
        i <= 16, kraft1(bits@, i as int, n), kraft1(bits@, 16, n),
    decreases i,
//@ loop 9 start
proof { lemma_k3_next(bits@, i as int, n); }
//@ loop 9 after
proof {
    lemma2_to64();
    assert(i >= 1);
    lemma_k3_drop(bits@, i as int, n);
}
//@ loop 10 before
proof { lemma_sorted_init(huffval@, codesize@); }
//@ loop 10
    invariant
        1 <= i <= 257, sorted(huffval@, k as int, codesize@, i as int, 0), complete(codesize@, f0), f0[256] > 0, n == isum(active(f0)), n <= 255,
//@ loop 11
    invariant
        1 <= i <= 256, 0 <= j <= 256, sorted(huffval@, k as int, codesize@, i as int, j as int), complete(codesize@, f0), f0[256] > 0, n == isum(active(f0)), n <= 255,
//@ loop 11 start
proof { lemma_sorted_step(huffval@, k as int, codesize@, f0, i as int, j as int); }
//@ loop 11 after
proof { lemma_sorted_next(huffval@, k as int, codesize@, i as int); }
//@ loop 12 before
proof { lemma_sorted_end(huffval@, k as int, codesize@, f0); }
//@ loop 12
    invariant
        forall|m: int| 0 <= m < __k12 ==> #[trigger] length[m] == bits[m + 1],
//@ before let values = huffval
proof {
    assert forall|m: int| 0 <= m < 16 implies #[trigger] length@[m] == cnt1(bits@)[m] by { assert(length[m] == bits[m + 1]); }
    pos_prefix(length@, cnt1(bits@), 16);
}
//@ after let values = huffval
proof {
    assert(values@ =~= huffval@.subrange(0, k as int));
    assert(lens_ok(length@));
}
//@ at end
proof {
    assert(__vx_r.values@ =~= huffval@.subrange(0, k as int));
    reveal(HuffmanTable::wf);
    lemma_wf(&__vx_r);
}
