//@ extra mod
use crate::spec_presets::*;
/// number of the preset in the published list
pub open spec fn preset_nr(t: QuantizationTableType) -> int {
    match t {
        QuantizationTableType::Default => 0,
        QuantizationTableType::Flat => 1,
        QuantizationTableType::CustomMsSsim => 2,
        QuantizationTableType::CustomPsnrHvs => 3,
        QuantizationTableType::ImageMagick => 4,
        QuantizationTableType::KleinSilversteinCarney => 5,
        QuantizationTableType::DentalXRays => 6,
        QuantizationTableType::VisualDetectionModel => 7,
        QuantizationTableType::ImprovedDetectionModel => 8,
        QuantizationTableType::Custom(_) => -1,
    }
}
pub open spec fn clamp(v: int, lo: int, hi: int) -> int { if v < lo { lo } else if v > hi { hi } else { v } }
/// the quality formula of the Independent JPEG Group
pub open spec fn ijg_scale(quality: int) -> int {
    let q = clamp(quality, 1, 100);
    if q < 50 { 5000int / q } else { 200 - 2 * q }
}
pub open spec fn ijg(v: int, quality: int) -> int { clamp((v * ijg_scale(quality) + 50) / 100, 1, 255) }
/// the divisor (before DCT scaling) that a table type, quality and plane stand for
pub open spec fn want_q(t: QuantizationTableType, quality: u8, luma: bool, i: int) -> int {
    match t {
        QuantizationTableType::Custom(c) => clamp(c[i] as int, 1, 255),
        _ => ijg(preset(luma, preset_nr(t))[i] as int, quality as int),
    }
}
/// fixed point reciprocal of a divisor and the rounding term used with it
pub open spec fn recip(d: int) -> (int, int) {
    let r = 32768int / d;
    let f = 32768int % d;
    if f == 0 { (r, d / 2) } else if f <= d / 2 { (r, d / 2 + 1) } else { (r + 1, d / 2) }
}
pub open spec fn iabs_(v: int) -> int { if v < 0 { -v } else { v } }
/// q is the quotient v / d up to two thirds of a step, exactly rounded for powers of two
pub open spec fn rounded(v: int, d: int, q: int) -> bool {
    &&& 3 * iabs_(q * d - v) <= 2 * d
    &&& 32768int % d == 0 ==> iabs_(q) == (iabs_(v) + d / 2) / d
    &&& v == 0 ==> q == 0
    &&& q > 0 ==> v > 0
    &&& q < 0 ==> v < 0
}
/// the quotient as a function of divisor and magnitude
pub open spec fn quant_abs(d: int, a: int) -> int { ((a + recip(d).1) * recip(d).0) / 32768 }
/// the quotient as a function of divisor and dividend
#[verifier::opaque]
pub open spec fn quant_fn(t: QuantizationTable, index: int, v: i16) -> i16 {
    let p = quant_abs(8 * t.q(index), iabs_(v as int));
    (if v < 0 { -p } else { p }) as i16
}
pub proof fn lemma_minus(x: int, c: int)
    requires c == -1
    ensures x * c == -x
{
    assert(x * c == -x) by (nonlinear_arith) requires c == -1;
}
pub proof fn lemma_shr15(x: i32)
    requires x >= 0
    ensures (x >> 15u32) == x / 32768
{
    assert(x >> 15u32 == x / 32768) by (bit_vector) requires x >= 0;
}
/// size of the product, and the quotient it yields
pub proof fn lemma_quant(d: int, v: int, m: int, c: int, p: int)
    requires 8 <= d <= 2040, d % 2 == 0, -9000 <= v <= 9000, m == recip(d).0, c == recip(d).1, p == (iabs_(v) + c) * m
    ensures
        0 <= p <= 11000 * 4097,
        0 <= iabs_(v) + c <= 11000,
        0 <= m <= 4097,
        quant_abs(d, iabs_(v)) == p / 32768,
        0 <= p / 32768 <= iabs_(v),
        rounded(v, d, if v < 0 { -(p / 32768) } else { p / 32768 }),
{
    let a = iabs_(v);
    assert(0 <= 32768int / d <= 4096) by (nonlinear_arith) requires d >= 8;
    assert(0 <= 32768int % d < d) by (nonlinear_arith) requires d >= 8;
    assert(0 <= p <= 11000 * 4097) by (nonlinear_arith) requires p == (a + c) * m, 0 <= a + c <= 11000, 0 <= m <= 4097;
    lemma_rounded(a, d, p / 32768);
    lemma_rounded_sign(a, d, p / 32768);
}
pub proof fn lemma_presets(luma: bool, t: int, i: int)
    requires 0 <= t < 9, 0 <= i < 64
    ensures
        preset(luma, t)[i] == (if luma { DEFAULT_LUMA_TABLES_C[t][i] } else { DEFAULT_CHROMA_TABLES_C[t][i] }),
        1 <= preset(luma, t)[i] <= 419,
{
    if luma { lemma_luma(t, i); } else { lemma_chroma(t, i); }
}
pub proof fn lemma_luma(t: int, i: int)
    requires 0 <= t < 9, 0 <= i < 64
    ensures
        preset_luma(t)[i] == DEFAULT_LUMA_TABLES_C[t][i],
        1 <= preset_luma(t)[i] <= 419,
{
}
pub proof fn lemma_chroma(t: int, i: int)
    requires 0 <= t < 9, 0 <= i < 64
    ensures
        preset_chroma(t)[i] == DEFAULT_CHROMA_TABLES_C[t][i],
        1 <= preset_chroma(t)[i] <= 419,
{
}
pub proof fn lemma_shift3(v: u16)
    requires 1 <= v <= 255
    ensures v << 3 == v * 8, (v << 3) != 0, ((v * 8) as u16 >> 3) == v
{
    assert(v << 3u16 == v * 8) by (bit_vector) requires v <= 255;
    let w = (v * 8) as u16;
    assert(w >> 3 == w / 8) by (bit_vector);
}
/// the reciprocal multiplication is a rounded division
pub proof fn lemma_rounded(a: int, d: int, q: int)
    requires
        0 <= a <= 9000, 8 <= d <= 2040, d % 2 == 0,
        q == ((a + recip(d).1) * recip(d).0) / 32768,
    ensures rounded(a, d, q), 0 <= q <= a
{
    let r = 32768int / d; let f = 32768int % d; let m = recip(d).0; let c = recip(d).1; let x = a + c;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(32768, d);
    assert(32768 == d * r + f);
    let g = 32768 - d * m;
    assert(d * (r + 1) == d * r + d) by (nonlinear_arith);
    assert(-d < 2 * g <= d);
    let n = x * m;
    assert(n >= 0) by (nonlinear_arith) requires n == x * m, x >= 0, m >= 0;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(n, 32768);
    // q * 32768 <= n < (q + 1) * 32768 and n * d == x * (32768 - g)
    assert(n * d == x * (32768 - g)) by (nonlinear_arith) requires n == x * m, d * m == 32768 - g;
    assert(q * d * 32768 <= x * (32768 - g)) by (nonlinear_arith) requires q * 32768 <= n, n * d == x * (32768 - g), d > 0;
    assert((q + 1) * d * 32768 > x * (32768 - g)) by (nonlinear_arith) requires (q + 1) * 32768 > n, n * d == x * (32768 - g), d > 0;
    let xg = x * g;
    assert(x * (32768 - g) == x * 32768 - xg) by (nonlinear_arith) requires xg == x * g;
    assert(2 * xg <= x * d && 2 * xg >= -(x * d)) by (nonlinear_arith) requires xg == x * g, -d < 2 * g <= d, x >= 0;
    assert(x <= 10021);
    assert(x * d <= 10021 * d) by (nonlinear_arith) requires x <= 10021, d > 0;
    let e = q * d;
    assert((q + 1) * d == e + d) by (nonlinear_arith) requires e == q * d;
    if g >= 0 { assert(xg >= 0) by (nonlinear_arith) requires xg == x * g, x >= 0, g >= 0; }
    else { assert(xg <= 0) by (nonlinear_arith) requires xg == x * g, x >= 0, g < 0; }
    assert(32768 * e <= 32768 * x - xg);
    assert(32768 * (e + d) > 32768 * x - xg);
    assert(q >= 0) by (nonlinear_arith) requires (q + 1) * 32768 > n, n >= 0;
    if f == 0 {
        assert(e <= x < e + d);
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(x, d, q, x - e);
    }
    if a == 0 && q >= 1 {
        assert(e >= d) by (nonlinear_arith) requires e == q * d, q >= 1, d > 0;
    }
    if q > a {
        assert(e >= 8 * a + 8) by (nonlinear_arith) requires e == q * d, q >= a + 1, d >= 8, a >= 0;
        assert(3 * (e - a) <= 2 * d);
        assert(e >= (a + 1) * d) by (nonlinear_arith) requires e == q * d, q >= a + 1, d >= 8;
        assert((a + 1) * d == a * d + d) by (nonlinear_arith);
        assert(a * d >= a) by (nonlinear_arith) requires a >= 0, d >= 8;
    }
}
pub proof fn lemma_pow2_divides(d: int)
    ensures d == 8 || d == 16 || d == 32 || d == 64 || d == 128 || d == 256 || d == 512 || d == 1024 ==> 32768int % d == 0
{}
//@ extra QuantizationTable
    /// the divisor, without the factor 8 of the DCT scaling
    pub open spec fn q(&self, i: int) -> int { (self.table[i]@ as int) / 8 }
    pub open spec fn q8(&self, i: int) -> u8 { self.q(i) as u8 }
    /// every divisor can be announced in an 8-bit table
    pub open spec fn fits8(&self) -> bool { forall|i: int| 0 <= i < 64 ==> 1 <= #[trigger] self.q(i) <= 255 }
    /// every reciprocal belongs to its divisor, and every divisor fits 8 bits
    pub open spec fn wf(&self) -> bool {
        &&& self.fits8()
        &&& forall|i: int| 0 <= i < 64 ==> (#[trigger] self.table[i])@ as int == 8 * self.q(i)
        &&& forall|i: int| 0 <= i < 64 ==> #[trigger] self.reciprocals[i] == recip(8 * self.q(i)).0
        &&& forall|i: int| 0 <= i < 64 ==> #[trigger] self.corrections[i] == recip(8 * self.q(i)).1
    }
//@ fn QuantizationTableType::index
    requires !(self is Custom),
    ensures res == preset_nr(*self), res < 9,
//@ fn compute_reciprocal
    requires 2 <= divisor <= 32768,
    ensures res.0 == recip(divisor as int).0, res.1 == recip(divisor as int).1, 0 <= res.0 <= 16384, 0 <= res.1 <= divisor,
//@ at start
proof {
    assert(1u32 << 15u32 == 32768) by (bit_vector);
    let d = divisor;
    assert(32768u32 / d <= 16384 && (32768u32 / d == 16384 ==> d == 2)) by (bit_vector) requires d >= 2;
}
//@ fn QuantizationTable::new_with_quality
    ensures
        res.wf(),
        forall|i: int| 0 <= i < 64 ==> #[trigger] res.q(i) == want_q(*table, quality, luma, i),
//@ at start
proof {
    if !(*table is Custom) {
        assert forall|i: int| 0 <= i < 64 implies #[trigger] preset(luma, preset_nr(*table))[i] == (if luma { DEFAULT_LUMA_TABLES_C[preset_nr(*table)][i] } else { DEFAULT_CHROMA_TABLES_C[preset_nr(*table)][i] })
            && preset(luma, preset_nr(*table))[i] <= 419 by { lemma_presets(luma, preset_nr(*table), i); }
    }
}
let ghost t0 = *table;
//@ loop 0
    invariant
        forall|k: int| 0 <= k < 64 ==> 1 <= #[trigger] want_q(t0, quality, luma, k) <= 255,
        forall|k: int| 0 <= k < 64 ==> (#[trigger] table[k])@ == 8 * want_q(t0, quality, luma, k),
        forall|k: int| 0 <= k < i ==> #[trigger] reciprocals[k] == recip(8 * want_q(t0, quality, luma, k)).0,
        forall|k: int| 0 <= k < i ==> #[trigger] corrections[k] == recip(8 * want_q(t0, quality, luma, k)).1,
//@ loop 0 start
proof { assert(table[__k0 as int]@ == 8 * want_q(t0, quality, luma, __k0 as int)); }
//@ fn QuantizationTable::get_user_table
    ensures forall|i: int| 0 <= i < 64 ==> (#[trigger] res[i])@ == 8 * clamp(table[i] as int, 1, 255),
//@ loop 0
    invariant
        __s0@ == table@,
        forall|k: int| 0 <= k < __k0 ==> (#[trigger] q_table[k])@ == 8 * clamp(table[k] as int, 1, 255),
//@ loop 0 start
proof { lemma_shift3(clamp(table[__k0 as int] as int, 1, 255) as u16); }
//@ fn QuantizationTable::get_with_quality
    requires forall|i: int| 0 <= i < 64 ==> #[trigger] table[i] <= 65535,
    ensures forall|i: int| 0 <= i < 64 ==> (#[trigger] res[i])@ == 8 * ijg(table[i] as int, quality as int),
//@ at start
let ghost quality0 = quality as int;
proof { lemma_scale(quality0); }
//@ loop 0
    invariant
        __s0@ == table@,
        scale as int == ijg_scale(quality0), scale <= 5000,
        forall|k: int| 0 <= k < __k0 ==> (#[trigger] q_table[k])@ == 8 * ijg(table[k] as int, quality0),
//@ loop 0 start
proof {
    let v0 = table[__k0 as int] as int;
    assert(0 <= v0 * scale <= 65535 * 5000) by (nonlinear_arith) requires 0 <= v0 <= 65535, 0 <= scale <= 5000;
    lemma_shift3(ijg(v0, quality0) as u16);
}
//@ extra mod
pub proof fn lemma_scale(quality: int)
    ensures 0 <= ijg_scale(quality) <= 5000
{
    let q = clamp(quality, 1, 100);
    assert(5000int / q <= 5000) by (nonlinear_arith) requires q >= 1;
    assert(5000int / q >= 0) by (nonlinear_arith) requires q >= 1;
}
//@ fn QuantizationTable::get
    requires index < 64, self.fits8(),
    ensures res == self.q(index as int),
//@ at start
proof {
    let w = self.table[index as int]@;
    assert(w >> 3 == w / 8) by (bit_vector);
    assert(self.q(index as int) <= 255);
}
//@ fn QuantizationTable::quantize
    requires index < 64, self.wf(), -9000 <= in_value <= 9000,
    ensures
        rounded(in_value as int, 8 * self.q(index as int), res as int),
        iabs_(res as int) <= iabs_(in_value as int),
        res == quant_fn(*self, index as int, in_value),
//@ at end
proof { reveal(quant_fn); }
//@ at start
proof {
    let d = 8 * self.q(index as int);
    let m = self.reciprocals[index as int] as int;
    let c = self.corrections[index as int] as int;
    assert(self.q(index as int) >= 1);
    assert(m == recip(d).0 && c == recip(d).1);
    let p = (iabs_(in_value as int) + c) * m;
    lemma_quant(d, in_value as int, m, c, p);
    assert(SHIFT == 15);
    let minus = -1int;
    assert forall|x: int| #[trigger] (x * minus) == -x by { lemma_minus(x, minus); }
    assert forall|x: i32| x >= 0 implies #[trigger] (x >> SHIFT) == x / 32768 by { lemma_shr15(x); }
}
//@ extra mod
pub proof fn lemma_rounded_sign(a: int, d: int, q: int)
    requires rounded(a, d, q), a >= 0, q >= 0
    ensures a > 0 ==> rounded(-a, d, -q)
{
    assert((-q) * d == -(q * d)) by (nonlinear_arith);
}
