// Scans: which bytes a sequence of coded units (MCUs) is written as, with restart intervals (T.81 E.1.4, F.1.1.5, G.1.2)
use crate::base::*;
use crate::spec_bits::*;
use crate::spec_block::*;
use crate::huffman::HuffmanTable;
use crate::writer::{JfifWrite, JfifWriter};

/// one component's share of a scan: coefficients ss..=se of `blocks`, `per` blocks in every MCU
pub ghost struct Part {
    pub dc: HuffmanTable,
    pub ac: HuffmanTable,
    pub blocks: Seq<Seq<i16>>,
    pub per: int,
    pub ss: int,
    pub se: int,
}
/// a scan: its SOS segment and what follows
pub ghost struct Scan {
    pub sos: Seq<u8>,
    pub parts: Seq<Part>,
    pub total: int,
}
/// first MCU of the restart interval of MCU k
#[verifier::opaque]
pub open spec fn istart(n: int, k: int) -> int { if n > 0 { k / n * n } else { 0 } }
/// the DC coefficient block g is predicted from
pub open spec fn pred(p: Part, n: int, g: int) -> int {
    if g == istart(n, g / p.per) * p.per { 0 } else { p.blocks[g - 1][0] as int }
}
pub open spec fn block_part(p: Part, n: int, g: int) -> Seq<bool> {
    (if p.ss == 0 { dc_bits(&p.dc, p.blocks[g][0] - pred(p, n, g)) } else { Seq::empty() })
    + (if p.se > 0 { ac_bits(&p.ac, p.blocks[g], if p.ss == 0 { 1 } else { p.ss }, p.se + 1) } else { Seq::empty() })
}
/// blocks a..b
pub open spec fn part_bits(p: Part, n: int, a: int, b: int) -> Seq<bool>
    decreases b - a
{
    if b <= a { Seq::empty() } else { part_bits(p, n, a, b - 1) + block_part(p, n, b - 1) }
}
/// MCU k: the blocks of its first i components
pub open spec fn unit_bits(ps: Seq<Part>, n: int, k: int, i: int) -> Seq<bool>
    decreases i
{
    if i <= 0 { Seq::empty() } else { unit_bits(ps, n, k, i - 1) + part_bits(ps[i - 1], n, k * ps[i - 1].per, k * ps[i - 1].per + ps[i - 1].per) }
}
/// MCUs a..b
pub open spec fn run_bits(ps: Seq<Part>, n: int, a: int, b: int) -> Seq<bool>
    decreases b - a
{
    if b <= a { Seq::empty() } else { run_bits(ps, n, a, b - 1) + unit_bits(ps, n, b - 1, ps.len() as int) }
}
/// an entropy-coded segment: padded with 1-bits to a byte boundary, zero bytes stuffed after FF
pub open spec fn ecs(ps: Seq<Part>, n: int, a: int, b: int) -> Seq<u8> { stuff(pack(pad1(run_bits(ps, n, a, b)))) }
pub open spec fn rst(i: int) -> Seq<u8> { seq![0xFFu8, (0xD0 + i % 8) as u8] }
/// the first j restart intervals, each followed by its marker
pub open spec fn intervals(ps: Seq<Part>, n: int, j: int) -> Seq<u8>
    decreases j
{
    if j <= 0 { Seq::empty() } else { intervals(ps, n, j - 1) + ecs(ps, n, (j - 1) * n, j * n) + rst(j - 1) }
}
/// number of restart markers before MCU k, the one directly before it not counted
#[verifier::opaque]
pub open spec fn nrst(n: int, k: int) -> int { if n > 0 && k > 0 { (k - 1) / n } else { 0 } }
pub open spec fn scan_data(ps: Seq<Part>, n: int, total: int) -> Seq<u8> {
    intervals(ps, n, nrst(n, total)) + ecs(ps, n, nrst(n, total) * n, total)
}
#[verifier::opaque]
pub open spec fn scan_bytes(s: Scan, n: int) -> Seq<u8> { s.sos + scan_data(s.parts, n, s.total) }
/// the first c scans
#[verifier::opaque]
pub open spec fn scans_bytes(s: Seq<Scan>, n: int, c: int) -> Seq<u8>
    decreases c
{
    if c <= 0 { Seq::empty() } else { scans_bytes(s, n, c - 1) + scan_bytes(s[c - 1], n) }
}

/// k MCUs have been written since `base`
#[verifier::opaque]
pub open spec fn scan_at<W: JfifWrite>(w: &JfifWriter<W>, base: Seq<u8>, ps: Seq<Part>, n: int, k: int) -> bool {
    w.at(base + intervals(ps, n, nrst(n, k)), run_bits(ps, n, nrst(n, k) * n, k))
}
/// the marker before MCU k has been written as well
#[verifier::opaque]
pub open spec fn scan_ready<W: JfifWrite>(w: &JfifWriter<W>, base: Seq<u8>, ps: Seq<Part>, n: int, k: int) -> bool {
    w.at(base + intervals(ps, n, nrst(n, k + 1)), run_bits(ps, n, nrst(n, k + 1) * n, k))
}
/// MCUs until the next restart marker
#[verifier::opaque]
pub open spec fn to_go(n: int, k: int) -> int { n - (k - nrst(n, k) * n) }

pub proof fn lemma_fresh<W: JfifWrite>(w: &JfifWriter<W>)
    requires w.fresh()
    ensures w.at(w.out(), Seq::empty())
{
    assert(pack(Seq::<bool>::empty()) =~= Seq::<u8>::empty());
    assert(Seq::<bool>::empty().take(0) =~= Seq::<bool>::empty());
    assert(stuff(Seq::<u8>::empty()) =~= Seq::<u8>::empty());
    assert(w.out() + Seq::<u8>::empty() =~= w.out());
    assert(Seq::<bool>::empty().skip(0) =~= bits_of(w.bit_buffer as u64, 0));
}
pub proof fn lemma_to_go(n: int, k: int)
    requires n >= 0, k >= 0
    ensures
        nrst(n, k) >= 0,
        n > 0 ==> 0 <= to_go(n, k) <= n,
        n > 0 && k > 0 ==> to_go(n, k) < n,
        n > 0 && to_go(n, k) == 0 ==> nrst(n, k + 1) == nrst(n, k) + 1 && nrst(n, k + 1) * n == k && istart(n, k) == k && k > 0 && to_go(n, k + 1) == n - 1,
        n == 0 || to_go(n, k) != 0 ==> nrst(n, k + 1) == nrst(n, k),
        n > 0 && to_go(n, k) != 0 ==> istart(n, k) == nrst(n, k) * n && to_go(n, k + 1) == to_go(n, k) - 1 && (k > 0 ==> istart(n, k) < k),
        n == 0 ==> istart(n, k) == 0 && nrst(n, k) == 0,
        k == 0 ==> nrst(n, k) == 0 && istart(n, 0) == 0,
        nrst(n, k + 1) * n == istart(n, k),
{
    reveal(nrst); reveal(istart); reveal(to_go);
    if n > 0 {
        assert(0int / n == 0) by (nonlinear_arith) requires n > 0;
        let q = k / n; let r = k % n;
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(k, n);
        assert(n * q == q * n) by (nonlinear_arith);
        assert(q >= 0) by (nonlinear_arith) requires q == k / n, k >= 0, n > 0;
        if k > 0 {
            if r == 0 {
                assert(q >= 1) by (nonlinear_arith) requires q * n == k, k > 0, n > 0;
                assert(n * (q - 1) == q * n - n) by (nonlinear_arith);
                assert((q - 1) * n == q * n - n) by (nonlinear_arith);
                vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(k - 1, n, q - 1, n - 1);
            } else {
                vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(k - 1, n, q, r - 1);
            }
        }
    } else {
        assert(0 * n == 0);
    }
}
/// a restart interval is complete: its bits were padded and written (wf), then the marker (w1)
pub proof fn lemma_restart<W: JfifWrite>(w0: &JfifWriter<W>, wf: &JfifWriter<W>, w1: &JfifWriter<W>, base: Seq<u8>, ps: Seq<Part>, n: int, k: int)
    requires
        n > 0, k >= 0, to_go(n, k) == 0, scan_at(w0, base, ps, n, k), wf.fresh(), wf.finalized(w0), w1.put(wf, rst(nrst(n, k))),
    ensures scan_ready(w1, base, ps, n, k), w1.wf()
{
    reveal(nrst); reveal(istart); reveal(to_go);
    reveal(scan_at); reveal(scan_ready); reveal(JfifWriter::finalized);
    lemma_to_go(n, k);
    lemma_fresh(w1);
    let j = nrst(n, k);
    assert(k == (j + 1) * n);
    assert(run_bits(ps, n, k, k) =~= Seq::<bool>::empty());
    assert(w1.out() =~= base + intervals(ps, n, j + 1));
}
/// the scan is complete
pub proof fn lemma_scan_end<W: JfifWrite>(w0: &JfifWriter<W>, w1: &JfifWriter<W>, out0: Seq<u8>, s: Scan, n: int)
    requires n >= 0, s.total >= 0, scan_at(w0, out0 + s.sos, s.parts, n, s.total), w1.finalized(w0),
    ensures w1.out() == out0 + scan_bytes(s, n)
{
    reveal(scan_at); reveal(scan_bytes); reveal(JfifWriter::finalized);
    assert(w1.out() =~= out0 + scan_bytes(s, n));
}
/// one more MCU
pub proof fn lemma_unit<W: JfifWrite>(w0: &JfifWriter<W>, w1: &JfifWriter<W>, base: Seq<u8>, ps: Seq<Part>, n: int, k: int)
    requires n >= 0, k >= 0, scan_ready(w0, base, ps, n, k), w1.ext(w0, unit_bits(ps, n, k, ps.len() as int))
    ensures scan_at(w1, base, ps, n, k + 1), w1.wf()
{
    reveal(nrst); reveal(istart); reveal(to_go);
    reveal(scan_at); reveal(scan_ready); reveal(JfifWriter::ext);
    lemma_to_go(n, k);
    if n > 0 {
        assert(istart(n, k) <= k);
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(k, n);
        assert(n * (k / n) == k / n * n) by (nonlinear_arith);
    }
    assert(nrst(n, k + 1) * n <= k);
}
/// the scan begins
pub proof fn lemma_scan_start<W: JfifWrite>(w: &JfifWriter<W>, ps: Seq<Part>, n: int)
    requires w.fresh(), n >= 0
    ensures scan_at(w, w.out(), ps, n, 0), w.wf()
{
    reveal(scan_at);
    lemma_fresh(w);
    lemma_to_go(n, 0);
    assert(w.out() + intervals(ps, n, 0) =~= w.out());
    assert(run_bits(ps, n, 0 * n, 0) =~= Seq::<bool>::empty());
}
pub proof fn lemma_step<W: JfifWrite>(w: &JfifWriter<W>, base: Seq<u8>, ps: Seq<Part>, n: int, k: int)
    requires n >= 0, k >= 0, scan_at(w, base, ps, n, k), n == 0 || to_go(n, k) != 0
    ensures scan_ready(w, base, ps, n, k)
{
    reveal(scan_at); reveal(scan_ready);
    lemma_to_go(n, k);
}
pub proof fn lemma_scans_step(out: Seq<u8>, base: Seq<u8>, s: Seq<Scan>, n: int, c: int)
    requires 0 <= c < s.len(), out == base + scans_bytes(s, n, c)
    ensures out + scan_bytes(s[c], n) == base + scans_bytes(s, n, c + 1)
{
    reveal(scans_bytes);
    assert(out + scan_bytes(s[c], n) =~= base + scans_bytes(s, n, c + 1));
}
pub proof fn lemma_full_block(p: Part, n: int, k: int)
    requires p.ss == 0, p.se == 63
    ensures block_part(p, n, k) == block_bits(&p.dc, &p.ac, p.blocks[k], pred(p, n, k))
{}
pub proof fn lemma_dc_block(p: Part, n: int, k: int)
    requires p.ss == 0, p.se == 0
    ensures block_part(p, n, k) == dc_bits(&p.dc, p.blocks[k][0] - pred(p, n, k))
{
    let d = dc_bits(&p.dc, p.blocks[k][0] - pred(p, n, k));
    assert(d + Seq::<bool>::empty() =~= d);
}
pub proof fn lemma_ac_block(p: Part, n: int, k: int)
    requires p.ss > 0, p.se > 0
    ensures block_part(p, n, k) == ac_bits(&p.ac, p.blocks[k], p.ss, p.se + 1)
{
    let d = ac_bits(&p.ac, p.blocks[k], p.ss, p.se + 1);
    assert(Seq::<bool>::empty() + d =~= d);
}
pub proof fn lemma_one_block(p: Part, n: int, k: int)
    requires p.per == 1
    ensures unit_bits(seq![p], n, k, 1) == block_part(p, n, k)
{
    let ps = seq![p];
    assert(k * 1 == k);
    assert(part_bits(p, n, k, k) =~= Seq::<bool>::empty());
    assert(part_bits(p, n, k, k + 1) =~= block_part(p, n, k));
    assert(unit_bits(ps, n, k, 0) =~= Seq::<bool>::empty());
    assert(unit_bits(ps, n, k, 1) =~= block_part(p, n, k));
}
/// prediction in a scan with one block per MCU
pub proof fn lemma_pred1(p: Part, n: int, k: int)
    requires p.per == 1, n >= 0, k >= 0
    ensures pred(p, n, k) == if k == 0 || (n > 0 && to_go(n, k) == 0) { 0int } else { p.blocks[k - 1][0] as int }
{
    reveal(nrst); reveal(istart); reveal(to_go);
    lemma_to_go(n, k);
    assert(k / 1 == k);
    assert(istart(n, k) * 1 == istart(n, k));
}
