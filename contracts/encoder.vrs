//@ extra mod
use crate::spec_block::*;
use crate::image_buffer::ncomp;
use crate::writer::{zz, lemma_ext_trans};
use crate::quantization::*;
pub open spec fn ceil_div_(a: int, b: int) -> int { (a + b - 1) / b }
/// number of bytes of a pixel
pub open spec fn pixel_bytes(c: ColorType) -> int {
    match c {
        ColorType::Luma => 1,
        ColorType::Rgb => 3, ColorType::Bgr => 3, ColorType::Ycbcr => 3,
        ColorType::Rgba => 4, ColorType::Bgra => 4, ColorType::Cmyk => 4, ColorType::CmykAsYcck => 4, ColorType::Ycck => 4,
    }
}
/// horizontal and vertical sampling factor of the subsampling modes
pub open spec fn factors(s: SamplingFactor) -> (int, int) {
    match s {
        SamplingFactor::F_1_1 => (1, 1), SamplingFactor::F_2_1 => (2, 1), SamplingFactor::F_1_2 => (1, 2), SamplingFactor::F_2_2 => (2, 2),
        SamplingFactor::F_4_1 => (4, 1), SamplingFactor::F_4_2 => (4, 2), SamplingFactor::F_1_4 => (1, 4), SamplingFactor::F_2_4 => (2, 4),
        SamplingFactor::R_4_4_4 => (1, 1), SamplingFactor::R_4_4_0 => (1, 2), SamplingFactor::R_4_4_1 => (1, 4), SamplingFactor::R_4_2_2 => (2, 1),
        SamplingFactor::R_4_2_0 => (2, 2), SamplingFactor::R_4_2_1 => (2, 4), SamplingFactor::R_4_1_1 => (4, 1), SamplingFactor::R_4_1_0 => (4, 2),
    }
}
/// categories of 16-bit numbers
pub proof fn lemma_cat_i16(a: nat)
    requires a <= 32767
    ensures cat(a) <= 15
{
    vstd::arithmetic::power2::lemma2_to64();
    lemma_cat_bounds(a);
    if cat(a) > 15 { mono(15, (cat(a) - 1) as nat); }
}
//@ fn JpegColorType::get_num_components
    ensures res == ncomp(self),
//@ fn ColorType::get_bytes_per_pixel
    ensures res == pixel_bytes(self),
//@ fn SamplingFactor::from_factors
    ensures
        res is Some ==> factors(res->Some_0) == (horizontal as int, vertical as int),
        res is None ==> forall|s: SamplingFactor| factors(s) != (horizontal as int, vertical as int),
//@ fn SamplingFactor::get_sampling_factors
    ensures res.0 == factors(self).0, res.1 == factors(self).1,
//@ at start
proof {
    assert((17u8 >> 4u8) & 7u8 == 1 && 17u8 & 15u8 == 1) by (bit_vector);
    assert((33u8 >> 4u8) & 7u8 == 2 && 33u8 & 15u8 == 1) by (bit_vector);
    assert((18u8 >> 4u8) & 7u8 == 1 && 18u8 & 15u8 == 2) by (bit_vector);
    assert((34u8 >> 4u8) & 7u8 == 2 && 34u8 & 15u8 == 2) by (bit_vector);
    assert((65u8 >> 4u8) & 7u8 == 4 && 65u8 & 15u8 == 1) by (bit_vector);
    assert((66u8 >> 4u8) & 7u8 == 4 && 66u8 & 15u8 == 2) by (bit_vector);
    assert((20u8 >> 4u8) & 7u8 == 1 && 20u8 & 15u8 == 4) by (bit_vector);
    assert((36u8 >> 4u8) & 7u8 == 2 && 36u8 & 15u8 == 4) by (bit_vector);
    assert((145u8 >> 4u8) & 7u8 == 1 && 145u8 & 15u8 == 1) by (bit_vector);
    assert((161u8 >> 4u8) & 7u8 == 2 && 161u8 & 15u8 == 1) by (bit_vector);
    assert((146u8 >> 4u8) & 7u8 == 1 && 146u8 & 15u8 == 2) by (bit_vector);
    assert((162u8 >> 4u8) & 7u8 == 2 && 162u8 & 15u8 == 2) by (bit_vector);
    assert((193u8 >> 4u8) & 7u8 == 4 && 193u8 & 15u8 == 1) by (bit_vector);
    assert((194u8 >> 4u8) & 7u8 == 4 && 194u8 & 15u8 == 2) by (bit_vector);
    assert((148u8 >> 4u8) & 7u8 == 1 && 148u8 & 15u8 == 4) by (bit_vector);
    assert((164u8 >> 4u8) & 7u8 == 2 && 164u8 & 15u8 == 4) by (bit_vector);
}
//@ fn SamplingFactor::supports_interleaved
    ensures res ==> factors(self).0 <= 2 && factors(self).1 <= 2,
//@ fn ceil_div
    requires 0 < div <= 0x10000, value <= isize::MAX,
    ensures res == ceil_div_(value as int, div as int),
//@ at start
proof { lemma_ceil_div(value as int, div as int); }
//@ fn get_num_bits
    requires value != i16::MIN,
    ensures res == ssss(value as int), res <= 15,
//@ at start
let ghost v0 = value as int;
proof { lemma_cat_i16(iabs(v0)); }
//@ loop 0
    invariant
        0 <= value, num_bits as nat + cat(value as nat) == ssss(v0), ssss(v0) <= 15,
    decreases value,
//@ loop 0 start
proof { let v = value; assert(v >> 1i16 == v / 2) by (bit_vector) requires v >= 0; }
//@ extra mod
pub proof fn lemma_ceil_div(v: int, d: int)
    requires 0 <= v, 0 < d
    ensures
        ceil_div_(v, d) == v / d + if v % d != 0 { 1int } else { 0 },
        ceil_div_(v, d) * d >= v, ceil_div_(v, d) * d < v + d, 0 <= ceil_div_(v, d) <= v, v > 0 ==> ceil_div_(v, d) >= 1,
        v % d != 0 ==> v / d < v,
{
    let c = ceil_div_(v, d);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(v, d);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(v + d - 1, d);
    assert(d * c == c * d) by (nonlinear_arith);
    let q = v / d;
    assert(d * q == q * d) by (nonlinear_arith);
    if v % d != 0 {
        assert((q + 1) * d == q * d + d) by (nonlinear_arith);
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(v + d - 1, d, q + 1, v % d - 1);
        assert(q < v) by (nonlinear_arith) requires d * q + v % d == v, v % d >= 1, q >= 0, d >= 1;
    } else {
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(v + d - 1, d, q, d - 1);
        assert(q <= v) by (nonlinear_arith) requires d * q == v, q >= 0, d >= 1;
    }
    assert(q >= 0) by (nonlinear_arith) requires q == v / d, v >= 0, d > 0;
    if v > 0 && c < 1 { assert(c * d <= 0) by (nonlinear_arith) requires c <= 0, d > 0; }
}
//@ fn get_block
    requires
        col_stride <= 4, row_stride <= 4, width <= 0x1_0000_0000, start_x <= 0x1_0000_0000, start_y <= 0x1_0000_0000,
        start_x + 7 * col_stride < width,
        (start_y + 7 * row_stride + 1) * width <= data@.len(),
    ensures
        forall|p: int| 0 <= p < 64 ==> #[trigger] res[p] == data[(start_y + p / 8 * row_stride) * width + start_x + p % 8 * col_stride] - 128,
//@ loop 0
    invariant
        col_stride <= 4, row_stride <= 4, width <= 0x1_0000_0000, start_x <= 0x1_0000_0000, start_y <= 0x1_0000_0000,
        start_x + 7 * col_stride < width,
        (start_y + 7 * row_stride + 1) * width <= data@.len(),
        forall|p: int| 0 <= p < 8 * (y as int) ==> #[trigger] block[p] == data[(start_y + p / 8 * row_stride) * width + start_x + p % 8 * col_stride] - 128,
//@ loop 1
    invariant
        0 <= y < 8,
        col_stride <= 4, row_stride <= 4, width <= 0x1_0000_0000, start_x <= 0x1_0000_0000, start_y <= 0x1_0000_0000,
        start_x + 7 * col_stride < width,
        (start_y + 7 * row_stride + 1) * width <= data@.len(),
        forall|p: int| 0 <= p < 8 * (y as int) + (x as int) ==> #[trigger] block[p] == data[(start_y + p / 8 * row_stride) * width + start_x + p % 8 * col_stride] - 128,
//@ loop 1 start
proof {
    lemma_block_index(x as int, y as int, start_x as int, start_y as int, col_stride as int, row_stride as int, width as int, data@.len() as int);
    assert forall|i: int| i == start_y + y * row_stride implies 0 <= #[trigger] (i * width) && i * width + start_x + x * col_stride < data@.len()
        && i * width == (start_y + y * row_stride) * width by {}
    assert(data@.len() <= usize::MAX) by { vstd::slice::axiom_spec_len(data); }
}
//@ loop 1 end
proof { assert((y * 8 + x) / 8 == y && (y * 8 + x) % 8 == x); }
//@ extra mod
pub proof fn lemma_block_index(x: int, y: int, sx: int, sy: int, cs: int, rs: int, w: int, len: int)
    requires
        0 <= x < 8, 0 <= y < 8, 0 <= sx <= 0x1_0000_0000, 0 <= sy <= 0x1_0000_0000, 0 <= cs <= 4, 0 <= rs <= 4, 0 <= w <= 0x1_0000_0000,
        sx + 7 * cs < w, (sy + 7 * rs + 1) * w <= len,
    ensures
        0 <= x * cs <= 28, 0 <= y * rs <= 28, x * cs <= 7 * cs,
        0 <= (sy + y * rs) * w, (sy + y * rs) * w + sx + x * cs < len,
{
    assert(0 <= x * cs <= 7 * cs) by (nonlinear_arith) requires 0 <= x < 8, 0 <= cs;
    assert(0 <= y * rs <= 7 * rs) by (nonlinear_arith) requires 0 <= y < 8, 0 <= rs;
    assert((sy + y * rs) * w + w <= (sy + 7 * rs + 1) * w) by (nonlinear_arith) requires 0 <= y * rs <= 7 * rs, 0 <= w, 0 <= sy;
    assert(0 <= (sy + y * rs) * w) by (nonlinear_arith) requires 0 <= y * rs, 0 <= w, 0 <= sy;
}
//@ extra mod
use crate::fdct::*;
use crate::writer::{zz_table, lemma_zigzag, ZIGZAG_C};
/// quantized coefficients in zig-zag order
pub open spec fn quantized(dct: Seq<i16>, t: &QuantizationTable) -> Seq<i16> {
    Seq::new(64, |k: int| quant_fn(*t, zz(k), dct[zz(k)]))
}
/// the range of quantized coefficients: categories up to 10, and up to 11 for differences of DC coefficients
pub open spec fn blk_ok(b: Seq<i16>) -> bool {
    &&& b.len() == 64
    &&& -1024 <= b[0] <= 1016
    &&& forall|k: int| 1 <= k < 64 ==> -1023 <= #[trigger] b[k] <= 1023
}
pub proof fn lemma_quant_range(v: int, q: int, r: int)
    requires rounded(v, 8 * q, r), 1 <= q <= 255
    ensures
        -8192 <= v <= 8128 ==> -1024 <= r <= 1016,
        -8183 <= v <= 8183 ==> -1023 <= r <= 1023,
{
    let d = 8 * q;
    if r >= 1017 { assert(r * d >= 1017 * d) by (nonlinear_arith) requires r >= 1017, d > 0; }
    if r >= 1024 { assert(r * d >= 1024 * d) by (nonlinear_arith) requires r >= 1024, d > 0; }
    if r <= -1024 { assert(r * d <= -1024 * d) by (nonlinear_arith) requires r <= -1024, d > 0; }
    if r <= -1025 { assert(r * d <= -1025 * d) by (nonlinear_arith) requires r <= -1025, d > 0; }
}
//@ fn Operations::fdct
    requires px_ok(old(data)@),
    ensures final(data)@ == fdct_fn(old(data)@), dct_ok(final(data)@),
//@ fn Operations::quantize_block
    requires table.wf(), dct_ok(block@),
    ensures final(q_block)@ == quantized(block@, table), blk_ok(final(q_block)@),
//@ loop 0
    invariant
        table.wf(), dct_ok(block@),
        forall|k: int| 0 <= k < i ==> #[trigger] q_block[k] == quantized(block@, table)[k],
        i > 0 ==> -1024 <= q_block[0] <= 1016,
        forall|k: int| 1 <= k < i ==> -1023 <= #[trigger] q_block[k] <= 1023,
//@ loop 0 start
proof {
    lemma_zigzag(i as int);
    let z = ZIGZAG_C[i as int];
    assert((z as usize) & 0x3f == z as usize) by (bit_vector) requires z < 64;
    let t = zz(i as int);
    assert(table.q(t) >= 1);
    assert forall|r: int| #[trigger] rounded(block[t] as int, 8 * table.q(t), r) implies
        (t == 0 ==> -1024 <= r <= 1016) && (t != 0 ==> -1023 <= r <= 1023) by { lemma_quant_range(block[t] as int, table.q(t), r); }
}
//@ at end
proof { assert(q_block@ =~= quantized(block@, table)); }
//@ extra mod
use crate::writer::{seg, m2, jfif_payload, dht_payload, dqt_payload, sof_payload, sos_payload, sof_type, nibbles_ok, comp_bytes};
use crate::huffman::{dc_complete, ac_complete, dc_symbol_needed, ac_symbol_needed};
/// application segments: number and content
pub open spec fn apps(s: Seq<(u8, Vec<u8>)>) -> Seq<(u8, Seq<u8>)> { Seq::new(s.len(), |i: int| (s[i].0, s[i].1@)) }
pub open spec fn app_ok(a: (u8, Seq<u8>)) -> bool { 1 <= a.0 <= 15 && a.1.len() <= 65533 }
pub open spec fn apps_ok(a: Seq<(u8, Seq<u8>)>) -> bool { forall|i: int| 0 <= i < a.len() ==> app_ok(#[trigger] a[i]) }
pub open spec fn app_bytes(a: Seq<(u8, Seq<u8>)>, n: int) -> Seq<u8>
    decreases n
{
    if n <= 0 { Seq::empty() } else { app_bytes(a, n - 1) + seg(Marker::APP(a[n - 1].0), a[n - 1].1) }
}
pub open spec fn comp(id: u8, table: u8, h: int, v: int) -> Component {
    Component { id, quantization_table: table, dc_huffman_table: table, ac_huffman_table: table, horizontal_sampling_factor: h as u8, vertical_sampling_factor: v as u8 }
}
/// the components of a colour model: only the luminance-like ones (Y, K) may have more samples than the others
pub open spec fn comps_of(c: JpegColorType, h: int, v: int) -> Seq<Component> {
    match c {
        JpegColorType::Luma => seq![comp(0, 0, 1, 1)],
        JpegColorType::Ycbcr => seq![comp(0, 0, h, v), comp(1, 1, 1, 1), comp(2, 1, 1, 1)],
        JpegColorType::Cmyk => seq![comp(0, 1, 1, 1), comp(1, 1, 1, 1), comp(2, 1, 1, 1), comp(3, 0, h, v)],
        JpegColorType::Ycck => seq![comp(0, 0, h, v), comp(1, 1, 1, 1), comp(2, 1, 1, 1), comp(3, 0, h, v)],
    }
}
/// the largest sampling factors among the components
pub open spec fn max_factors(c: JpegColorType, h: int, v: int) -> (int, int) {
    if c == JpegColorType::Luma { (1, 1) } else { (h, v) }
}
pub open spec fn icc_tag() -> Seq<u8> { seq![73u8, 67, 67, 95, 80, 82, 79, 70, 73, 76, 69, 0] }
pub open spec fn icc_count(len: int) -> int { ceil_div_(len, 65519) }
/// the i-th part of an ICC profile: tag, number (from 1), count, at most 65519 bytes of the profile
pub open spec fn icc_part(data: Seq<u8>, i: int) -> Seq<u8> {
    icc_tag() + seq![(i + 1) as u8, icc_count(data.len() as int) as u8]
        + data.subrange(i * 65519, if (i + 1) * 65519 <= data.len() { (i + 1) * 65519 } else { data.len() as int })
}
pub open spec fn icc_segs(data: Seq<u8>, n: int) -> Seq<(u8, Seq<u8>)> { Seq::new(n as nat, |i: int| (2u8, icc_part(data, i))) }
//@ extra Encoder
    /// what every public way of building and configuring an encoder maintains
    pub open spec fn inv(&self) -> bool {
        &&& self.writer.fresh()
        &&& self.components@.len() == 0
        &&& match self.progressive_scans { Some(n) => 2 <= n <= 64, None => true }
        &&& apps_ok(apps(self.app_segments@))
        &&& self.tables_ok() && self.tables_complete()
    }
    pub open spec fn tables_ok(&self) -> bool {
        self.huffman_tables[0].0.wf() && self.huffman_tables[0].1.wf() && self.huffman_tables[1].0.wf() && self.huffman_tables[1].1.wf()
    }
    pub open spec fn tables_complete(&self) -> bool {
        &&& dc_complete(&self.huffman_tables[0].0) && ac_complete(&self.huffman_tables[0].1)
        &&& dc_complete(&self.huffman_tables[1].0) && ac_complete(&self.huffman_tables[1].1)
    }
    /// everything but the sink, the components and the Huffman tables is the same
    pub open spec fn same_cfg(&self, o: &Self) -> bool {
        &&& self.density == o.density && self.quality == o.quality && self.quantization_tables == o.quantization_tables
        &&& self.sampling_factor == o.sampling_factor && self.progressive_scans == o.progressive_scans
        &&& self.restart_interval == o.restart_interval && self.optimize_huffman_table == o.optimize_huffman_table
        &&& self.app_segments == o.app_segments
    }
//@ fn Encoder::new
    ensures
        res.inv(), res.writer.out() == w.written(),
        res.density == Density::None, res.quality == quality, res.sampling_factor == (if quality < 90 { SamplingFactor::F_2_2 } else { SamplingFactor::F_1_1 }),
        res.progressive_scans is None, res.restart_interval is None, !res.optimize_huffman_table, res.app_segments@.len() == 0,
        res.quantization_tables[0] is Default, res.quantization_tables[1] is Default,
//@ fn Encoder::set_density
    ensures *final(self) == (Encoder { density, ..*old(self) }),
//@ fn Encoder::density
    ensures res == self.density,
//@ fn Encoder::set_sampling_factor
    ensures *final(self) == (Encoder { sampling_factor: sampling, ..*old(self) }),
//@ fn Encoder::sampling_factor
    ensures res == self.sampling_factor,
//@ fn Encoder::set_quantization_tables
    ensures *final(self) == (Encoder { quantization_tables: final(self).quantization_tables, ..*old(self) }),
        final(self).quantization_tables[0] == luma, final(self).quantization_tables[1] == chroma,
//@ fn Encoder::quantization_tables
    ensures *res == self.quantization_tables,
//@ fn Encoder::set_progressive
    ensures *final(self) == (Encoder { progressive_scans: if progressive { Some(4u8) } else { None }, ..*old(self) }),
//@ fn Encoder::set_progressive_scans
    requires 2 <= scans <= 64,
    ensures *final(self) == (Encoder { progressive_scans: Some(scans), ..*old(self) }),
//@ fn Encoder::progressive_scans
    ensures res == self.progressive_scans,
//@ fn Encoder::set_restart_interval
    ensures *final(self) == (Encoder { restart_interval: if interval == 0 { None } else { Some(interval) }, ..*old(self) }),
//@ fn Encoder::restart_interval
    ensures res == self.restart_interval,
//@ fn Encoder::set_optimized_huffman_tables
    ensures *final(self) == (Encoder { optimize_huffman_table, ..*old(self) }),
//@ fn Encoder::optimized_huffman_tables
    ensures res == self.optimize_huffman_table,
//@ fn Encoder::add_app_segment
    ensures
        *final(self) == (Encoder { app_segments: final(self).app_segments, ..*old(self) }),
        segment_nr == 0 || segment_nr > 15 ==> res == Err::<(), EncodingError>(EncodingError::InvalidAppSegment(segment_nr)),
        1 <= segment_nr <= 15 && data@.len() > 65533 ==> res == Err::<(), EncodingError>(EncodingError::AppSegmentTooLarge(data@.len() as usize)),
        1 <= segment_nr <= 15 && data@.len() <= 65533 ==> res is Ok,
        res is Err ==> final(self).app_segments == old(self).app_segments,
        res is Ok ==> apps(final(self).app_segments@) == apps(old(self).app_segments@).push((segment_nr, data@)),
//@ at end
proof {
    if __vx_r is Ok {
        let s = self.app_segments@;
        assert(s.last().1@ =~= data@);
        assert(apps(s) =~= apps(old(self).app_segments@).push((segment_nr, data@)));
    }
}
//@ fn Encoder::add_icc_profile
    ensures
        *final(self) == (Encoder { app_segments: final(self).app_segments, ..*old(self) }),
        icc_count(data@.len() as int) > 255 <==> res is Err,
        res is Err ==> res == Err::<(), EncodingError>(EncodingError::IccTooLarge(data@.len() as usize)) && final(self).app_segments == old(self).app_segments,
        res is Ok ==> apps(final(self).app_segments@) == apps(old(self).app_segments@) + icc_segs(data@, icc_count(data@.len() as int)),
//@ at start
let ghost data0 = data@;
proof { lemma_ceil_div(data@.len() as int, 65519); axiom_slice_len(data); }
//@ loop 0
    invariant
        MAX_CHUNK_LENGTH == 65519, MARKER@ =~= icc_tag(), num_chunks <= 255, num_chunks == icc_count(data0.len() as int),
        __s0@ == data0, __n0 == 65519, __c0 == num_chunks,
        *self == (Encoder { app_segments: self.app_segments, ..*old(self) }),
        apps(self.app_segments@) == apps(old(self).app_segments@) + icc_segs(data0, __k0 as int),
//@ loop 0 before
proof { assert(apps(self.app_segments@) =~= apps(old(self).app_segments@) + icc_segs(data0, 0)); }
//@ before self.add_app_segment(2, &chunk_data)
proof { assert(chunk_data@ =~= icc_part(data0, __k0 as int)); }
//@ loop 0 end
proof { assert(apps(self.app_segments@) =~= apps(old(self).app_segments@) + icc_segs(data0, __k0 + 1)); }
//@ fn Encoder::init_components
    ensures
        *final(self) == (Encoder { components: final(self).components, ..*old(self) }),
        final(self).components@ == old(self).components@ + comps_of(color, factors(old(self).sampling_factor).0, factors(old(self).sampling_factor).1),
//@ at end
proof { assert(self.components@ =~= old(self).components@ + comps_of(color, factors(old(self).sampling_factor).0, factors(old(self).sampling_factor).1)); }
//@ fn Encoder::get_max_sampling_size
    requires exists|c: JpegColorType, h: int, v: int| 1 <= h <= 4 && 1 <= v <= 4 && self.components@ == #[trigger] comps_of(c, h, v),
    ensures forall|c: JpegColorType, h: int, v: int| 1 <= h <= 4 && 1 <= v <= 4 && self.components@ == #[trigger] comps_of(c, h, v) ==>
        res.0 == max_factors(c, h, v).0 && res.1 == max_factors(c, h, v).1,
//@ loop 0
    invariant
        __s0@ == self.components@, __acc0 >= 1,
        forall|i: int| 0 <= i < __k0 ==> (#[trigger] self.components@[i]).horizontal_sampling_factor <= __acc0,
        __acc0 == 1 || exists|i: int| 0 <= i < __k0 && (#[trigger] self.components@[i]).horizontal_sampling_factor == __acc0,
//@ loop 1
    invariant
        __s1@ == self.components@, __acc1 >= 1,
        forall|i: int| 0 <= i < __k1 ==> (#[trigger] self.components@[i]).vertical_sampling_factor <= __acc1,
        __acc1 == 1 || exists|i: int| 0 <= i < __k1 && (#[trigger] self.components@[i]).vertical_sampling_factor == __acc1,
//@ extra mod
/// frame header, tables and restart interval
#[verifier::opaque]
pub open spec fn frame_bytes(width: u16, height: u16, comps: Seq<Component>, progressive: bool, q: [QuantizationTable; 2],
    ht: [(HuffmanTable, HuffmanTable); 2], ri: Option<u16>) -> Seq<u8>
{
    seg(sof_type(progressive), sof_payload(width, height, comps))
    + seg(Marker::DQT, dqt_payload(0, &q[0])) + seg(Marker::DQT, dqt_payload(1, &q[1]))
    + seg(Marker::DHT, dht_payload(CodingClass::Dc, 0, &ht[0].0)) + seg(Marker::DHT, dht_payload(CodingClass::Ac, 0, &ht[0].1))
    + (if comps.len() >= 3 {
        seg(Marker::DHT, dht_payload(CodingClass::Dc, 1, &ht[1].0)) + seg(Marker::DHT, dht_payload(CodingClass::Ac, 1, &ht[1].1))
    } else { Seq::empty() })
    + (match ri { Some(n) => seg(Marker::DRI, be16(n)), None => Seq::empty() })
}
pub open spec fn comps_nibbles(c: Seq<Component>) -> bool { forall|i: int| 0 <= i < c.len() ==> nibbles_ok(#[trigger] &c[i]) }
pub proof fn lemma_frame(w: Seq<u8>, a: Seq<u8>, b: Seq<u8>, c: Seq<u8>, d: Seq<u8>, e: Seq<u8>, f: Seq<u8>, g: Seq<u8>, h: Seq<u8>)
    ensures
        w + a + b + c + d + e + f + g + h == w + (a + b + c + d + e + (f + g) + h),
        w + a + b + c + d + e + h == w + (a + b + c + d + e + Seq::<u8>::empty() + h),
        w + Seq::<u8>::empty() == w,
        w + a + b + c + d + e + f + g + Seq::<u8>::empty() == w + a + b + c + d + e + f + g,
        w + a + b + c + d + e + Seq::<u8>::empty() == w + a + b + c + d + e,
{
    assert(w + a + b + c + d + e + f + g + h =~= w + (a + b + c + d + e + (f + g) + h));
    assert(w + a + b + c + d + e + h =~= w + (a + b + c + d + e + Seq::<u8>::empty() + h));
    assert(w + a + b + c + d + e + f + g + Seq::<u8>::empty() =~= w + a + b + c + d + e + f + g);
    assert(w + a + b + c + d + e + Seq::<u8>::empty() =~= w + a + b + c + d + e);
    assert(w + Seq::<u8>::empty() =~= w);
}
//@ fn Encoder::write_frame_header
    requires
        old(self).components@.len() == ncomp(image.i_color()), comps_nibbles(old(self).components@),
        old(self).tables_ok(), q_tables[0].wf(), q_tables[1].wf(),
    ensures errors_kept(res is Err, old(self).writer.w.failed(), final(self).writer.w.failed()),
        *final(self) == (Encoder { writer: final(self).writer, ..*old(self) }), final(self).writer.same_buf(&old(self).writer),
        res is Ok ==> final(self).writer.out() == old(self).writer.out() + frame_bytes(image.i_width(), image.i_height(), old(self).components@,
            old(self).progressive_scans is Some, *q_tables, old(self).huffman_tables, old(self).restart_interval),
//@ at start
proof { reveal(frame_bytes); }
proof {
    lemma_wf(&self.huffman_tables[0].0); lemma_wf(&self.huffman_tables[0].1);
    lemma_wf(&self.huffman_tables[1].0); lemma_wf(&self.huffman_tables[1].1);
}
//@ at end
proof {
    if __vx_r is Ok {
        let w = old(self).writer.out();
        let ht = self.huffman_tables;
        let a = seg(sof_type(self.progressive_scans is Some), sof_payload(image.i_width(), image.i_height(), self.components@));
        let b = seg(Marker::DQT, dqt_payload(0, &q_tables[0])); let c = seg(Marker::DQT, dqt_payload(1, &q_tables[1]));
        let d = seg(Marker::DHT, dht_payload(CodingClass::Dc, 0, &ht[0].0)); let e = seg(Marker::DHT, dht_payload(CodingClass::Ac, 0, &ht[0].1));
        let f = seg(Marker::DHT, dht_payload(CodingClass::Dc, 1, &ht[1].0)); let g = seg(Marker::DHT, dht_payload(CodingClass::Ac, 1, &ht[1].1));
        lemma_frame(w, a, b, c, d, e, f, g, match self.restart_interval { Some(n) => seg(Marker::DRI, be16(n)), None => Seq::empty() });
    }
}
//@ extra mod
use crate::huffman::lemma_wf;
use crate::writer::errors_kept;
//@ fn Encoder::init_rows
    requires old(self).components@.len() == 1 || old(self).components@.len() == 3 || old(self).components@.len() == 4,
    ensures *final(self) == *old(self), forall|c: int| 0 <= c < 4 ==> (#[trigger] res[c])@.len() == 0,
//@ fn Encoder::init_block_buffers
    requires old(self).components@.len() == 1 || old(self).components@.len() == 3 || old(self).components@.len() == 4,
    ensures *final(self) == *old(self), forall|c: int| 0 <= c < 4 ==> (#[trigger] res[c])@.len() == 0,
//@ extra mod
use crate::spec_enc::*;
pub open spec fn views(b: Seq<[i16; 64]>) -> Seq<Seq<i16>> { Seq::new(b.len(), |k: int| b[k]@) }
pub open spec fn blks_ok(b: Seq<Seq<i16>>) -> bool { forall|k: int| 0 <= k < b.len() ==> blk_ok(#[trigger] b[k]) }
/// every DC difference has a code
#[verifier::opaque]
pub open spec fn dc_covered(t: &HuffmanTable, b: Seq<Seq<i16>>, n: int) -> bool {
    forall|k: int| 0 <= k < b.len() ==> t.has(ssss((#[trigger] b[k])[0] - pred1(b, n, k)) as u8)
}
/// every symbol of the band start..end has a code
#[verifier::opaque]
pub open spec fn ac_covered(t: &HuffmanTable, b: Seq<Seq<i16>>, start: int, end: int) -> bool {
    forall|k: int| 0 <= k < b.len() ==> ac_coded(t, #[trigger] b[k], start, end)
}
/// a block of the range of quantized coefficients is coded by complete tables
pub proof fn lemma_complete(dc: &HuffmanTable, ac: &HuffmanTable, b: Seq<i16>, prev: int, start: int, end: int)
    requires blk_ok(b), -1024 <= prev <= 1016, 1 <= start <= end <= 64, dc_complete(dc), ac_complete(ac)
    ensures dc.has(ssss(b[0] - prev) as u8), ac_coded(ac, b, start, end)
{
    vstd::arithmetic::power2::lemma2_to64();
    lemma_cat_le((b[0] - prev) as int, 11);
    assert(dc_symbol_needed(ssss(b[0] - prev) as u8));
    assert forall|k: int| #![trigger b[k]] start <= k < end && b[k] != 0 implies ac.has(ac_symbol(b, start, k)) && (zrun(b, start, k) > 15 ==> ac.has(0xF0)) by {
        lemma_cat_le(b[k] as int, 10);
        lemma_cat_bounds(iabs(b[k] as int));
        assert(ac_symbol_needed(ac_symbol(b, start, k)));
        assert(ac_symbol_needed(0xF0));
    }
    assert(ac_symbol_needed(0));
}
pub proof fn lemma_cat_le(v: int, n: nat)
    requires iabs(v) < pow2(n)
    ensures ssss(v) <= n
{
    lemma_cat_bounds(iabs(v));
    if ssss(v) > n { mono(n, (ssss(v) - 1) as nat); }
}
//@ extra mod
/// the APP14 segment that tells decoders how four components are to be interpreted
pub open spec fn adobe(c: JpegColorType) -> Seq<u8> {
    if c == JpegColorType::Cmyk { seg(Marker::APP(14), adobe_payload(0)) }
    else if c == JpegColorType::Ycck { seg(Marker::APP(14), adobe_payload(2)) }
    else { Seq::empty() }
}
/// "Adobe", version 0, flags 0, flags 0, transform
pub open spec fn adobe_payload(transform: u8) -> Seq<u8> { seq![65u8, 100, 111, 98, 101, 0, 0, 0, 0, 0, 0, transform] }
//@ extra Encoder
    /// q are the quantization tables that the settings ask for
    pub open spec fn tables_for(&self, q: [QuantizationTable; 2]) -> bool {
        &&& q[0].wf() && q[1].wf()
        &&& forall|i: int| 0 <= i < 64 ==> #[trigger] q[0].q(i) == want_q(self.quantization_tables[0], self.quality, true, i)
        &&& forall|i: int| 0 <= i < 64 ==> #[trigger] q[1].q(i) == want_q(self.quantization_tables[1], self.quality, false, i)
    }
    /// everything before the frame header
    pub open spec fn prologue(&self, c: JpegColorType) -> Seq<u8> {
        m2(Marker::SOI) + seg(Marker::APP(0), jfif_payload(self.density)) + adobe(c) + app_bytes(apps(self.app_segments@), self.app_segments@.len() as int)
    }
    pub open spec fn progressive_bytes<I: ImageBuffer>(&self, image: &I, q: [QuantizationTable; 2], scans: int) -> Seq<u8> {
        scans_bytes(self.dc_scans(self.all_blocks(image, q)), self.interval(), self.components@.len() as int)
            + self.band_scans(self.all_blocks(image, q), scans - 1, scans - 1)
    }
    /// the scans: all components in one scan (at most 10 blocks in an MCU, T.81 B.2.3), one scan for each component, or progressive
    pub open spec fn scans_of<I: ImageBuffer>(&self, image: &I, q: [QuantizationTable; 2], d: Seq<u8>) -> bool {
        match self.progressive_scans {
            Some(n) => d == self.progressive_bytes(image, q, n as int),
            None => {
                ||| d == scans_bytes(self.seq_scans(self.all_blocks(image, q)), self.interval(), self.components@.len() as int)
                ||| (factors(self.sampling_factor).0 <= 2 && factors(self.sampling_factor).1 <= 2 && d == scan_bytes(self.mcu_scan(image, q), self.interval()))
            }
        }
    }
    /// out is the JPEG stream of the image
    #[verifier::opaque]
    pub open spec fn stream<I: ImageBuffer>(&self, image: &I, q: [QuantizationTable; 2], d: Seq<u8>, out: Seq<u8>) -> bool {
        self.scans_of(image, q, d) && out == self.prologue(image.i_color()) + self.frame(image, q) + d + m2(Marker::EOI)
    }
    /// what a successful encode has written after `before`; the tables of self are the ones used
    #[verifier::opaque]
    pub open spec fn encoded<I: ImageBuffer>(&self, image: &I, before: Seq<u8>) -> bool {
        exists|q: [QuantizationTable; 2], d: Seq<u8>, out: Seq<u8>| self.tables_for(q) && #[trigger] self.stream(image, q, d, out) && self.writer.out() == before + out
    }
//@ fn Encoder::encode_image_internal
//@ byref-self
    requires old(self).inv(), image.valid(),
    ensures
        res is Err && image.i_width() > 0 && image.i_height() > 0 ==> final(self).writer.w.failed(),
        res is Ok ==> errors_kept(false, old(self).writer.w.failed(), final(self).writer.w.failed()),
        final(self).same_cfg(old(self)),
        image.i_width() == 0 || image.i_height() == 0 ==> final(self).writer == old(self).writer
            && res == Err::<(), EncodingError>(EncodingError::ZeroImageDimensions { width: image.i_width(), height: image.i_height() }),
        res is Ok ==> final(self).comps_are(image.i_color()) && final(self).tables_ok() && final(self).writer.w.flushed(),
        !old(self).optimize_huffman_table ==> final(self).huffman_tables == old(self).huffman_tables,
        res is Ok ==> final(self).encoded(&image, old(self).writer.out()),
//@ at start
let ghost a = apps(self.app_segments@);
let ghost img = image;
//@ before self.writer.write_marker(Marker::SOI)
let ghost q0 = q_tables;
let ghost e1 = *self;
let ghost c = jpeg_color_type;
proof {
    lemma_factors(self.sampling_factor, c);
    assert(self.components@ =~= comps_of(c, factors(self.sampling_factor).0, factors(self.sampling_factor).1));
    assert(self.tables_for(q_tables));
}
//@ loop 0 before
let ghost out1 = self.writer.out();
proof {
    assert(out1 =~= old(self).writer.out() + (m2(Marker::SOI) + seg(Marker::APP(0), jfif_payload(e1.density)) + adobe(c)));
    assert(out1 + app_bytes(a, 0) =~= out1);
}
//@ loop 0
    invariant
        self.writer.w.failed() == old(self).writer.w.failed(),
        __s0@ == e1.app_segments@, a == apps(e1.app_segments@), apps_ok(a),
        *self == (Encoder { writer: self.writer, ..e1 }), e1 == (Encoder { writer: e1.writer, components: e1.components, ..*old(self) }), self.writer.fresh(),
        image.i_width() != 0 && image.i_height() != 0,
        self.writer.out() == out1 + app_bytes(a, __k0 as int),
//@ loop 0 start
let ghost k = __k0 as int;
let ghost w0 = self.writer.out();
proof { assert(a[k].0 == __s0[k].0 && a[k].1 == __s0[k].1@); }
//@ loop 0 end
proof { lemma_app_step(out1, a, k); }
//@ loop 0 after
let ghost w1 = self.writer.out();
let ghost e2 = *self;
proof { assert(w1 =~= old(self).writer.out() + e1.prologue(c)); }
//@ before self.writer.write_marker(Marker::EOI)
let ghost e3 = *self;
let ghost d = lemma_scans(&e2, &e3, &img, q0);
//@ at end
proof {
    if __vx_r is Ok { lemma_encoded(&e3, self, &img, q0, d, old(self).writer.out()); }
}
//@ extra mod
pub proof fn lemma_app_step(out: Seq<u8>, a: Seq<(u8, Seq<u8>)>, k: int)
    requires 0 <= k < a.len()
    ensures out + app_bytes(a, k) + seg(Marker::APP(a[k].0), a[k].1) == out + app_bytes(a, k + 1)
{
    assert(out + app_bytes(a, k) + seg(Marker::APP(a[k].0), a[k].1) =~= out + app_bytes(a, k + 1));
}
/// the scan data after the frame header
pub proof fn lemma_scans<W: JfifWrite, I: ImageBuffer>(e2: &Encoder<W>, e3: &Encoder<W>, image: &I, q: [QuantizationTable; 2]) -> (d: Seq<u8>)
    requires
        e3.components == e2.components, e3.same_cfg(e2),
        ({
            let w = e2.writer.out() + e3.frame(image, q);
            match e2.progressive_scans {
                Some(n) => e3.writer.out() == w + scans_bytes(e3.dc_scans(e3.all_blocks(image, q)), e3.interval(), e3.components@.len() as int) + e3.band_scans(e3.all_blocks(image, q), n - 1, n - 1),
                None => {
                    ||| e3.writer.out() == w + scans_bytes(e3.seq_scans(e3.all_blocks(image, q)), e3.interval(), e3.components@.len() as int)
                    ||| (factors(e3.sampling_factor).0 <= 2 && factors(e3.sampling_factor).1 <= 2 && e3.huffman_tables == e2.huffman_tables && e3.writer.out() == w + scan_bytes(e2.mcu_scan(image, q), e2.interval()))
                }
            }
        }),
    ensures e3.scans_of(image, q, d), e3.writer.out() == e2.writer.out() + e3.frame(image, q) + d
{
    let w = e2.writer.out() + e3.frame(image, q);
    match e2.progressive_scans {
        Some(n) => {
            let d = e3.progressive_bytes(image, q, n as int);
            assert(e3.writer.out() =~= w + d);
            d
        }
        None => {
            let d1 = scans_bytes(e3.seq_scans(e3.all_blocks(image, q)), e3.interval(), e3.components@.len() as int);
            if e3.writer.out() == w + d1 { d1 } else {
                assert(e3.mcu_parts(image, q) =~= e2.mcu_parts(image, q));
                scan_bytes(e3.mcu_scan(image, q), e3.interval())
            }
        }
    }
}
pub proof fn lemma_encoded<W: JfifWrite, I: ImageBuffer>(e3: &Encoder<W>, e4: &Encoder<W>, image: &I, q: [QuantizationTable; 2], d: Seq<u8>, before: Seq<u8>)
    requires
        e3.scans_of(image, q, d), *e4 == (Encoder { writer: e4.writer, ..*e3 }), e3.tables_for(q),
        e4.writer.out() == before + e3.prologue(image.i_color()) + e3.frame(image, q) + d + m2(Marker::EOI),
    ensures e4.encoded(image, before)
{
    reveal(Encoder::stream); reveal(Encoder::encoded);
    let out = e3.prologue(image.i_color()) + e3.frame(image, q) + d + m2(Marker::EOI);
    assert(e4.writer.out() =~= before + out);
    assert(e4.all_blocks(image, q) =~= e3.all_blocks(image, q));
    let b = e3.all_blocks(image, q);
    assert(e4.seq_scans(b) =~= e3.seq_scans(b));
    assert(e4.dc_scans(b) =~= e3.dc_scans(b));
    assert(e4.mcu_parts(image, q) =~= e3.mcu_parts(image, q));
    match e3.progressive_scans { Some(n) => { lemma_bands_same(e3, e4, b, n - 1, n - 1); } None => {} }
    assert(e4.stream(image, q, d, out));
}
//@ fn Encoder::encode_image
//@ byref-self
    requires old(self).inv(), image.valid(),
    ensures
        res is Err && image.i_width() > 0 && image.i_height() > 0 ==> final(self).writer.w.failed(),
        res is Ok ==> errors_kept(false, old(self).writer.w.failed(), final(self).writer.w.failed()),
        final(self).same_cfg(old(self)),
        image.i_width() == 0 || image.i_height() == 0 ==> final(self).writer == old(self).writer
            && res == Err::<(), EncodingError>(EncodingError::ZeroImageDimensions { width: image.i_width(), height: image.i_height() }),
        res is Ok ==> final(self).comps_are(image.i_color()) && final(self).tables_ok() && final(self).writer.w.flushed(),
        !old(self).optimize_huffman_table ==> final(self).huffman_tables == old(self).huffman_tables,
        res is Ok ==> final(self).encoded(&image, old(self).writer.out()),
//@ extra mod
/// the same pixels behind two types
pub open spec fn same_image<I: ImageBuffer, J: ImageBuffer>(a: &I, b: &J) -> bool {
    &&& a.i_color() == b.i_color() && a.i_width() == b.i_width() && a.i_height() == b.i_height()
    &&& forall|c: int, x: int, y: int| #[trigger] a.sample(c, x, y) == b.sample(c, x, y)
}
pub proof fn lemma_same_block<I: ImageBuffer, J: ImageBuffer>(a: &I, b: &J, c: int, sx: int, sy: int, hs: int, vs: int, q: &QuantizationTable)
    requires same_image(a, b)
    ensures coef_block(a, c, sx, sy, hs, vs, q) == coef_block(b, c, sx, sy, hs, vs, q)
{
    let f = |p: int| (a.sample(c, minint(sx + p % 8 * hs, a.i_width() - 1), minint(sy + p / 8 * vs, a.i_height() - 1)) - 128) as i16;
    let g = |p: int| (b.sample(c, minint(sx + p % 8 * hs, b.i_width() - 1), minint(sy + p / 8 * vs, b.i_height() - 1)) - 128) as i16;
    assert forall|p: int| #[trigger] f(p) == g(p) by { let _ = a.sample(c, minint(sx + p % 8 * hs, a.i_width() - 1), minint(sy + p / 8 * vs, a.i_height() - 1)); }
    assert(Seq::new(64, f) =~= Seq::new(64, g));
}
pub proof fn lemma_same_encoded<W: JfifWrite, I: ImageBuffer, J: ImageBuffer>(e: &Encoder<W>, a: &I, b: &J, before: Seq<u8>)
    requires same_image(a, b), e.encoded(a, before),
    ensures e.encoded(b, before)
{
    reveal(Encoder::encoded);
    let (q, d, out) = choose|q: [QuantizationTable; 2], d: Seq<u8>, out: Seq<u8>| e.tables_for(q) && #[trigger] e.stream(a, q, d, out) && e.writer.out() == before + out;
    assert forall|i: int| #[trigger] e.comp_blocks(a, q, i) == e.comp_blocks(b, q, i) by {
        assert forall|cols: int, rows: int, hs: int, vs: int, t: &QuantizationTable| #[trigger] plane_of(a, i, cols, rows, hs, vs, t) == plane_of(b, i, cols, rows, hs, vs, t) by {
            assert forall|k: int| #[trigger] coef_block(a, i, k % cols * 8 * hs, k / cols * 8 * vs, hs, vs, t) == coef_block(b, i, k % cols * 8 * hs, k / cols * 8 * vs, hs, vs, t) by { lemma_same_block(a, b, i, k % cols * 8 * hs, k / cols * 8 * vs, hs, vs, t); }
            assert(plane_of(a, i, cols, rows, hs, vs, t) =~= plane_of(b, i, cols, rows, hs, vs, t));
        }
        reveal(plane_blocks);
    }
    assert(e.all_blocks(a, q) =~= e.all_blocks(b, q));
    assert forall|i: int, c: Component, m: (int, int)| #[trigger] mcu_blocks(a, i, c, m, q) == mcu_blocks(b, i, c, m, q) by {
        reveal(mcu_blocks);
        assert forall|hf: int, vf: int, cols: int, t: &QuantizationTable, k: int, s: int| #[trigger] mcu_block(a, i, hf, vf, m, cols, t, k, s) == mcu_block(b, i, hf, vf, m, cols, t, k, s) by {
            reveal(mcu_block);
            let hs = m.0 / hf; let vs = m.1 / vf;
            lemma_same_block(a, b, i, k % cols * 8 * m.0 + s % hf * 8 * hs, k / cols * 8 * m.1 + s / hf * 8 * vs, hs, vs, t);
        }
        assert(mcu_blocks(a, i, c, m, q) =~= mcu_blocks(b, i, c, m, q));
    }
    assert(e.mcu_parts(a, q) =~= e.mcu_parts(b, q));
    assert(e.stream(b, q, d, out)) by { reveal(Encoder::stream); }
}
//@ fn Encoder::encode
//@ byref-self
    requires old(self).inv(),
    ensures
        res is Err && data@.len() >= width * height * pixel_bytes(color_type) && width > 0 && height > 0 ==> final(self).writer.w.failed(),
        res is Ok ==> errors_kept(false, old(self).writer.w.failed(), final(self).writer.w.failed()),
        final(self).same_cfg(old(self)),
        data@.len() < width * height * pixel_bytes(color_type) ==> final(self).writer == old(self).writer
            && res == Err::<(), EncodingError>(EncodingError::BadImageData { length: data@.len() as usize, required: (width * height * pixel_bytes(color_type)) as usize }),
        data@.len() >= width * height * pixel_bytes(color_type) && (width == 0 || height == 0) ==> final(self).writer == old(self).writer
            && res == Err::<(), EncodingError>(EncodingError::ZeroImageDimensions { width, height }),
        res is Ok ==> final(self).tables_ok() && final(self).writer.w.flushed(),
        !old(self).optimize_huffman_table ==> final(self).huffman_tables == old(self).huffman_tables,
        res is Ok ==> match color_type {
            ColorType::Luma => final(self).encoded(&GrayImage(data, width, height), old(self).writer.out()),
            ColorType::Rgb => final(self).encoded(&RgbImage(data, width, height), old(self).writer.out()),
            ColorType::Rgba => final(self).encoded(&RgbaImage(data, width, height), old(self).writer.out()),
            ColorType::Bgr => final(self).encoded(&BgrImage(data, width, height), old(self).writer.out()),
            ColorType::Bgra => final(self).encoded(&BgraImage(data, width, height), old(self).writer.out()),
            ColorType::Ycbcr => final(self).encoded(&YCbCrImage(data, width, height), old(self).writer.out()),
            ColorType::Cmyk => final(self).encoded(&CmykImage(data, width, height), old(self).writer.out()),
            ColorType::CmykAsYcck => final(self).encoded(&CmykAsYcckImage(data, width, height), old(self).writer.out()),
            ColorType::Ycck => final(self).encoded(&YcckImage(data, width, height), old(self).writer.out()),
        },
//@ at start
proof {
    let n = pixel_bytes(color_type);
    assert(width as int * height as int <= 65535 * 65535) by (nonlinear_arith) requires 0 <= width <= 65535, 0 <= height <= 65535;
    assert(width as int * height as int * n <= 65535 * 65535 * 4) by (nonlinear_arith) requires 0 <= width as int * height as int <= 65535 * 65535, 0 <= n <= 4;
    assert(0 <= width as int * height as int) by (nonlinear_arith) requires 0 <= width, 0 <= height;
//@ if simd
    assert forall|e: Self, before: Seq<u8>| #[trigger] e.encoded(&crate::avx2::RgbImageAVX2(data, width, height), before) implies e.encoded(&RgbImage(data, width, height), before) by {
        lemma_same_encoded(&e, &crate::avx2::RgbImageAVX2(data, width, height), &RgbImage(data, width, height), before);
    }
    assert forall|e: Self, before: Seq<u8>| #[trigger] e.encoded(&crate::avx2::RgbaImageAVX2(data, width, height), before) implies e.encoded(&RgbaImage(data, width, height), before) by {
        lemma_same_encoded(&e, &crate::avx2::RgbaImageAVX2(data, width, height), &RgbaImage(data, width, height), before);
    }
    assert forall|e: Self, before: Seq<u8>| #[trigger] e.encoded(&crate::avx2::BgrImageAVX2(data, width, height), before) implies e.encoded(&BgrImage(data, width, height), before) by {
        lemma_same_encoded(&e, &crate::avx2::BgrImageAVX2(data, width, height), &BgrImage(data, width, height), before);
    }
    assert forall|e: Self, before: Seq<u8>| #[trigger] e.encoded(&crate::avx2::BgraImageAVX2(data, width, height), before) implies e.encoded(&BgraImage(data, width, height), before) by {
        lemma_same_encoded(&e, &crate::avx2::BgraImageAVX2(data, width, height), &BgraImage(data, width, height), before);
    }
//@ endif
}
//@ fn Encoder::encode_blocks
    requires
        image.valid(), image.i_width() > 0, image.i_height() > 0,
        old(self).comps_are(image.i_color()), q_tables[0].wf(), q_tables[1].wf(),
    ensures
        *final(self) == *old(self),
        forall|i: int| 0 <= i < old(self).components@.len() ==> views((#[trigger] res[i])@) == old(self).comp_blocks(image, *q_tables, i) && blks_ok(views(res[i]@)),
//@ at start
let ghost color = image.i_color();
let ghost (fh, fv) = factors(self.sampling_factor);
let ghost m = max_factors(color, fh, fv);
let ghost w = image.i_width() as int;
let ghost h = image.i_height() as int;
proof {
    assert(self.components@ == comps_of(color, fh, fv));
    lemma_factors(self.sampling_factor, color);
    lemma_comps(self.components@, color, fh, fv);
    lemma_span(w, m.0); lemma_span(h, m.1);
    lemma_area(ceil_div_(w, 8 * m.0) * m.0, ceil_div_(h, 8 * m.1) * m.1);
}
//@ loop 0 before
let ghost bw = buffer_width as int;
let ghost rl = num_rows * 8;
proof {
    lemma_rows_empty(image, row@, 0, bw);
}
//@ loop 0
    invariant
        image.valid(), w == image.i_width() as int, h == image.i_height() as int, width == w, height == h, w > 0, h > 0,
        num_cols * 8 == bw, num_rows * 8 == rl, w <= bw < w + 32, h <= rl < h + 32, rl <= 65536,
        rows_ok(image, row@, 0, bw, y * bw),
//@ loop 0 start
let ghost yy = y as int;
let ghost r0 = row@;
//@ loop 1 before
proof { lemma_rows_fill(image, r0, row@, 0, bw, yy); }
//@ loop 1
    invariant
        image.valid(), w == image.i_width() as int, h == image.i_height() as int, width == w, height == h, w > 0, h > 0,
        num_cols * 8 == bw, w <= bw < w + 32, 0 <= yy,
        rows_ok(image, row@, 0, bw, yy * bw + __k1),
//@ loop 2 before
let ghost r1 = row@;
//@ loop 2
    invariant
        row@.len() == 4, r1.len() == 4,
        forall|c: int| 0 <= c < 4 ==> (#[trigger] row[c])@ == if c < __k2 { pad_last(r1[c]@) } else { r1[c]@ },
//@ loop 1 end
proof { lemma_rows_pad(image, r1, row@, 0, bw, yy, __k1 as int); }
//@ loop 0 end
proof { assert(yy * bw + bw == (yy + 1) * bw) by (nonlinear_arith); }
//@ loop 3
    invariant
        image.i_width() as int == w, image.i_height() as int == h, w > 0, h > 0, w <= bw < w + 32, h <= rl < h + 32, rl <= 65536, w <= 65535, h <= 65535,
        *self == *old(self), __s3@ == self.components@, self.comps_are(color), image.i_color() == color, (fh, fv) == factors(self.sampling_factor), m == max_factors(color, fh, fv),
        max_h_sampling == m.0, max_v_sampling == m.1, num_cols == ceil_div_(w, 8), num_rows == ceil_div_(h, 8), buffer_width == bw, width == w, height == h,
        bw == 8 * m.0 * ceil_div_(w, 8 * m.0), rl == 8 * m.1 * ceil_div_(h, 8 * m.1), q_tables[0].wf(), q_tables[1].wf(),
        rows_ok(image, row@, 0, bw, rl * bw),
        forall|j: int| 0 <= j < __k3 ==> views((#[trigger] blocks[j])@) == self.comp_blocks(image, *q_tables, j) && blks_ok(views(blocks[j]@)),
        forall|j: int| __k3 <= j < 4 ==> (#[trigger] blocks[j])@.len() == 0,
//@ loop 3 start
let ghost c = __k3 as int;
let ghost plane = self.comp_blocks(image, *q_tables, c);
let ghost blocks0 = blocks@;
proof {
    lemma_factors(self.sampling_factor, color);
    lemma_comps(self.components@, color, fh, fv);
    lemma_comp_factors(self.components@, color, fh, fv, c);
    lemma_plane_cols(w, component.horizontal_sampling_factor as int, m.0);
    lemma_plane_cols(h, component.vertical_sampling_factor as int, m.1);
}
//@ loop 4 before
proof {
    lemma_views_empty(blocks[c]@, plane, cols as int);
    assert(plane == plane_of(image, c, cols as int, rows as int, h_scale as int, v_scale as int, &q_tables[component.quantization_table as int])) by { reveal(plane_blocks); }
}
//@ loop 4
    invariant
        image.i_width() as int == w, image.i_height() as int == h, w > 0, h > 0, w <= bw < w + 32, h <= rl < h + 32, rl <= 65536, w <= 65535, h <= 65535,
        *self == *old(self), image.i_color() == color, c < ncomp(color), i == c, 0 <= c < 4, *component == self.components@[c], component.quantization_table < 2,
        buffer_width == bw, q_tables[0].wf(), q_tables[1].wf(),
        rows_ok(image, row@, 0, bw, rl * bw),
        plane == plane_of(image, c, cols as int, rows as int, h_scale as int, v_scale as int, &q_tables[component.quantization_table as int]),
        1 <= h_scale <= 4, 1 <= v_scale <= 4, cols * 8 * h_scale <= bw, rows * 8 * v_scale <= rl, cols >= 1,
        forall|j: int| 0 <= j < 4 && j != c ==> (#[trigger] blocks[j]) == blocks0[j],
        views(blocks[c]@) == plane.take(block_y * cols), blks_ok(views(blocks[c]@)),
//@ loop 4 start
proof { assert(block_y * cols + 0 == block_y * cols); }
//@ loop 5
    invariant
        image.i_width() as int == w, image.i_height() as int == h, w > 0, h > 0, w <= bw < w + 32, h <= rl < h + 32, rl <= 65536, w <= 65535, h <= 65535,
        *self == *old(self), image.i_color() == color, c < ncomp(color), i == c, 0 <= c < 4, *component == self.components@[c], component.quantization_table < 2,
        buffer_width == bw, q_tables[0].wf(), q_tables[1].wf(), 0 <= block_y < rows,
        rows_ok(image, row@, 0, bw, rl * bw),
        plane == plane_of(image, c, cols as int, rows as int, h_scale as int, v_scale as int, &q_tables[component.quantization_table as int]),
        1 <= h_scale <= 4, 1 <= v_scale <= 4, cols * 8 * h_scale <= bw, rows * 8 * v_scale <= rl, cols >= 1,
        forall|j: int| 0 <= j < 4 && j != c ==> (#[trigger] blocks[j]) == blocks0[j],
        views(blocks[c]@) == plane.take(block_y * cols + block_x), blks_ok(views(blocks[c]@)),
//@ loop 5 start
let ghost kk = block_y * cols + block_x;
let ghost bs0 = blocks[c]@;
proof {
    lemma_pos(block_x as int, cols as int, h_scale as int, bw);
    lemma_pos(block_y as int, rows as int, v_scale as int, rl);
    lemma_len(block_y as int * 8 * v_scale + 7 * v_scale + 1, rl, bw);
    lemma_row_len(image, row@, c, 0, bw, rl * bw);
    lemma_plane_index(image, c, cols as int, rows as int, h_scale as int, v_scale as int, &q_tables[component.quantization_table as int], block_x as int, block_y as int);
}
//@ after let mut block = get_block
proof { lemma_block_px(image, c, row[c]@, 0, bw, rl, block_x as int * 8 * h_scale, block_y as int * 8 * v_scale, h_scale as int, v_scale as int, block@, &q_tables[component.quantization_table as int]); }
//@ loop 5 end
proof { lemma_views_push(bs0, q_block, plane, kk); }
//@ loop 4 end
proof { assert(block_y * cols + cols == (block_y + 1) * cols) by (nonlinear_arith); }
//@ loop 3 end
proof {
    lemma_plane_all(plane, image, c, cols as int, rows as int, h_scale as int, v_scale as int, &q_tables[component.quantization_table as int]);
}
//@ extra mod
/// sample p of a buffer of rows of bw samples that begins with row y0: the last sample of a row and the last row are repeated
pub open spec fn px<I: ImageBuffer>(image: &I, c: int, y0: int, bw: int, p: int) -> u8 {
    image.sample(c, minint(p % bw, image.i_width() - 1), minint(y0 + p / bw, image.i_height() - 1))
}
pub open spec fn row_ok<I: ImageBuffer>(image: &I, c: int, r: Seq<u8>, y0: int, bw: int, len: int) -> bool {
    r.len() == len && forall|p: int| 0 <= p < len ==> #[trigger] r[p] == px(image, c, y0, bw, p)
}
pub open spec fn rows_ok<I: ImageBuffer>(image: &I, row: Seq<Vec<u8>>, y0: int, bw: int, len: int) -> bool {
    &&& row.len() == 4
    &&& forall|c: int| 0 <= c < 4 ==> if c < ncomp(image.i_color()) { row_ok(image, c, (#[trigger] row[c])@, y0, bw, len) } else { row[c]@.len() == 0 }
}
pub open spec fn pad_last(s: Seq<u8>) -> Seq<u8> { if s.len() > 0 { s.push(s[s.len() - 1]) } else { s } }
pub proof fn lemma_rows_empty<I: ImageBuffer>(image: &I, row: Seq<Vec<u8>>, y0: int, bw: int)
    requires row.len() == 4, forall|c: int| 0 <= c < 4 ==> (#[trigger] row[c])@.len() == 0
    ensures rows_ok(image, row, y0, bw, 0 * bw), rows_ok(image, row, y0, bw, 0)
{
    assert(0 * bw == 0);
}
pub proof fn lemma_rows_fill<I: ImageBuffer>(image: &I, r0: Seq<Vec<u8>>, r1: Seq<Vec<u8>>, y0: int, bw: int, yy: int)
    requires
        0 < image.i_width() <= bw, 0 < image.i_height(), rows_ok(image, r0, y0, bw, yy * bw), 0 <= yy, 0 <= y0, r1.len() == 4,
        forall|c: int| 0 <= c < 4 ==> (#[trigger] r1[c])@ == if c < ncomp(image.i_color()) {
            r0[c]@ + Seq::new(image.i_width() as nat, |x: int| image.sample(c, x, minint(y0 + yy, image.i_height() - 1)))
        } else { r0[c]@ },
    ensures rows_ok(image, r1, y0, bw, yy * bw + image.i_width())
{
    assert(0 <= yy * bw) by (nonlinear_arith) requires 0 <= yy, 0 < bw;
    assert forall|c: int| 0 <= c < ncomp(image.i_color()) implies row_ok(image, c, (#[trigger] r1[c])@, y0, bw, yy * bw + image.i_width()) by {
        assert(row_ok(image, c, r0[c]@, y0, bw, yy * bw));
        assert forall|p: int| 0 <= p < yy * bw + image.i_width() implies #[trigger] r1[c]@[p] == px(image, c, y0, bw, p) by {
            if p >= yy * bw {
                vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(p, bw, yy, p - yy * bw);
            } else {
                assert(r1[c]@[p] == r0[c]@[p]);
            }
        }
    }
    assert forall|c: int| 0 <= c < 4 implies if c < ncomp(image.i_color()) { row_ok(image, c, (#[trigger] r1[c])@, y0, bw, yy * bw + image.i_width()) } else { r1[c]@.len() == 0 } by {
        assert(if c < ncomp(image.i_color()) { row_ok(image, c, r0[c]@, y0, bw, yy * bw) } else { r0[c]@.len() == 0 });
    }
}
pub proof fn lemma_rows_pad<I: ImageBuffer>(image: &I, r0: Seq<Vec<u8>>, r1: Seq<Vec<u8>>, y0: int, bw: int, yy: int, x: int)
    requires
        0 < image.i_width() <= x < bw, rows_ok(image, r0, y0, bw, yy * bw + x), 0 <= yy, 0 <= y0, r1.len() == 4,
        forall|c: int| 0 <= c < 4 ==> (#[trigger] r1[c])@ == pad_last(r0[c]@),
    ensures rows_ok(image, r1, y0, bw, yy * bw + x + 1), rows_ok(image, r1, y0, bw, yy * bw + (x + 1))
{
    assert(0 <= yy * bw) by (nonlinear_arith) requires 0 <= yy, 0 < bw;
    let p = yy * bw + x;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(p, bw, yy, x);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(p - 1, bw, yy, x - 1);
    assert forall|c: int| 0 <= c < 4 implies if c < ncomp(image.i_color()) { row_ok(image, c, (#[trigger] r1[c])@, y0, bw, p + 1) } else { r1[c]@.len() == 0 } by {
        assert(if c < ncomp(image.i_color()) { row_ok(image, c, r0[c]@, y0, bw, p) } else { r0[c]@.len() == 0 });
        if c < ncomp(image.i_color()) {
            let s = r0[c]@;
            assert(s[p - 1] == px(image, c, y0, bw, p - 1));
            assert forall|i: int| 0 <= i < p + 1 implies #[trigger] r1[c]@[i] == px(image, c, y0, bw, i) by {
                if i < p { assert(r1[c]@[i] == s[i]); }
            }
        }
    }
}
/// rows / columns of a whole number of MCUs
pub proof fn lemma_span(w: int, m: int)
    requires 1 <= w <= 65535, m == 1 || m == 2 || m == 4
    ensures
        ({ let n = ceil_div_(w, 8 * m); 1 <= n <= w && w <= n * m * 8 < w + 32 && n * m * 8 == 8 * m * n && 1 <= n * m <= 8196 && n * 8 * m == 8 * m * n && n * 8 <= 8 * m * n && n * m * 8 <= 65536 && n * 8 * m <= 65536 }),
        1 <= ceil_div_(w, 8) <= 8192,
{
    lemma_ceil_div(w, 8 * m);
    lemma_ceil_div(w, 8);
    let n = ceil_div_(w, 8 * m);
    assert(n * m * 8 == n * (8 * m) && n * m * 8 == 8 * m * n && n * 8 * m == 8 * m * n) by (nonlinear_arith);
    assert(n * 8 <= 8 * m * n) by (nonlinear_arith) requires m >= 1, n >= 0;
}
pub proof fn lemma_pos(bx: int, cols: int, hs: int, bw: int)
    requires 0 <= bx < cols, 1 <= hs <= 4, cols * 8 * hs <= bw, bw <= 0x2_0000
    ensures 0 <= bx * 8 <= bw, 0 <= bx * 8 * hs, bx * 8 * hs + 7 * hs < bw, bx * 8 * hs <= bw
{
    assert((bx + 1) * 8 * hs <= cols * 8 * hs) by (nonlinear_arith) requires bx + 1 <= cols, hs >= 1;
    assert((bx + 1) * 8 * hs == bx * 8 * hs + 8 * hs) by (nonlinear_arith);
    assert(bx * 8 <= bx * 8 * hs) by (nonlinear_arith) requires bx >= 0, hs >= 1;
}
pub proof fn lemma_area(a: int, b: int)
    requires 0 <= a <= 8196, 0 <= b <= 8196
    ensures 0 <= a * b <= 67174416
{
    assert(0 <= a * b && a * b <= 8196 * 8196) by (nonlinear_arith) requires 0 <= a <= 8196, 0 <= b <= 8196;
}
pub proof fn lemma_factors(s: SamplingFactor, color: JpegColorType)
    ensures ({
        let (h, v) = factors(s);
        let m = max_factors(color, h, v);
        &&& (h == 1 || h == 2 || h == 4) && (v == 1 || v == 2 || v == 4) && (m.0 == 1 || m.0 == 2 || m.0 == 4) && (m.1 == 1 || m.1 == 2 || m.1 == 4)
    })
{
}
pub proof fn lemma_views_empty(b: Seq<[i16; 64]>, plane: Seq<Seq<i16>>, cols: int)
    requires b.len() == 0
    ensures views(b) == plane.take(0 * cols), blks_ok(views(b)), 0 * cols == 0
{
    assert(0 * cols == 0);
    assert(views(b) =~= plane.take(0 * cols));
}
pub proof fn lemma_plane_all<I: ImageBuffer>(plane: Seq<Seq<i16>>, image: &I, i: int, cols: int, rows: int, hs: int, vs: int, q: &QuantizationTable)
    requires plane == plane_of(image, i, cols, rows, hs, vs, q), 0 <= cols, 0 <= rows
    ensures plane.take(rows * cols) == plane
{
    assert(0 <= rows * cols && rows * cols == cols * rows) by (nonlinear_arith) requires 0 <= cols, 0 <= rows;
    assert(plane.take(rows * cols) =~= plane);
}
pub proof fn lemma_len(a: int, rl: int, bw: int)
    requires a <= rl, bw >= 0
    ensures a * bw <= rl * bw
{
    assert(a * bw <= rl * bw) by (nonlinear_arith) requires a <= rl, bw >= 0;
}
pub proof fn lemma_plane_index<I: ImageBuffer>(image: &I, i: int, cols: int, rows: int, hs: int, vs: int, q: &QuantizationTable, bx: int, by: int)
    requires 0 <= bx < cols, 0 <= by < rows
    ensures
        0 <= by * cols + bx < cols * rows, by * cols + bx < plane_of(image, i, cols, rows, hs, vs, q).len(),
        plane_of(image, i, cols, rows, hs, vs, q)[by * cols + bx] == coef_block(image, i, bx * 8 * hs, by * 8 * vs, hs, vs, q),
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(by * cols + bx, cols, by, bx);
    assert(by * cols + bx < cols * rows) by (nonlinear_arith) requires 0 <= bx < cols, 0 <= by, by + 1 <= rows;
    assert(0 <= by * cols) by (nonlinear_arith) requires 0 <= by, 0 < cols;
}
/// a block taken from the rows is a block of the image
pub proof fn lemma_block_px<I: ImageBuffer>(image: &I, c: int, r: Seq<u8>, y0: int, bw: int, rl: int, sx: int, sy: int, hs: int, vs: int, res: Seq<i16>, q: &QuantizationTable)
    requires
        row_ok(image, c, r, y0, bw, rl * bw), 0 <= sx, 0 <= sy, 1 <= hs, 1 <= vs, sx + 7 * hs < bw, sy + 7 * vs < rl, res.len() == 64,
        forall|p: int| 0 <= p < 64 ==> #[trigger] res[p] == r[(sy + p / 8 * vs) * bw + sx + p % 8 * hs] - 128,
    ensures px_ok(res), quantized(fdct_fn(res), q) == coef_block(image, c, sx, y0 + sy, hs, vs, q)
{
    let e = Seq::new(64, |p: int| (image.sample(c, minint(sx + p % 8 * hs, image.i_width() - 1), minint(y0 + sy + p / 8 * vs, image.i_height() - 1)) - 128) as i16);
    assert forall|p: int| 0 <= p < 64 implies #[trigger] res[p] == e[p] && -128 <= res[p] <= 127 by {
        let x = sx + p % 8 * hs; let y = sy + p / 8 * vs;
        assert(0 <= p % 8 * hs <= 7 * hs) by (nonlinear_arith) requires 0 <= p % 8 <= 7, 1 <= hs;
        assert(0 <= p / 8 * vs <= 7 * vs) by (nonlinear_arith) requires 0 <= p / 8 <= 7, 1 <= vs;
        let k = y * bw + x;
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(k, bw, y, x);
        assert(0 <= y * bw && y * bw + bw <= rl * bw) by (nonlinear_arith) requires 0 <= y, y + 1 <= rl, bw > 0;
        assert(r[k] == px(image, c, y0, bw, k));
        assert(k == (sy + p / 8 * vs) * bw + sx + p % 8 * hs);
    }
    assert(res =~= e);
}
pub proof fn lemma_views_push(b0: Seq<[i16; 64]>, x: [i16; 64], plane: Seq<Seq<i16>>, k: int)
    requires 0 <= k < plane.len(), views(b0) == plane.take(k), x@ == plane[k], blks_ok(views(b0)), blk_ok(plane[k])
    ensures views(b0.push(x)) == plane.take(k + 1), blks_ok(views(b0.push(x)))
{
    let b1 = b0.push(x);
    assert(views(b0).len() == k);
    assert forall|j: int| 0 <= j < b1.len() implies views(b1)[j] == plane.take(k + 1)[j] && blk_ok(#[trigger] views(b1)[j]) by {
        if j < k {
            assert(b1[j] == b0[j]);
            assert(views(b0)[j] == plane.take(k)[j]);
        }
    }
    assert(views(b1) =~= plane.take(k + 1));
}
pub proof fn lemma_row_len<I: ImageBuffer>(image: &I, row: Seq<Vec<u8>>, c: int, y0: int, bw: int, len: int)
    requires rows_ok(image, row, y0, bw, len), 0 <= c < ncomp(image.i_color())
    ensures row_ok(image, c, row[c]@, y0, bw, len), row[c]@.len() == len
{
}
//@ fn Encoder::encode_image_interleaved
    requires
        old(self).seq_ready(&image, q_tables), old(self).progressive_scans is None,
    ensures errors_kept(res is Err, old(self).writer.w.failed(), final(self).writer.w.failed()),
        *final(self) == (Encoder { writer: final(self).writer, ..*old(self) }),
        res is Ok ==> final(self).writer.fresh(),
        res is Ok ==> final(self).writer.out() == old(self).writer.out() + old(self).frame(&image, *q_tables)
            + scan_bytes(old(self).mcu_scan(&image, *q_tables), old(self).interval()),
//@ at start
let ghost color = image.i_color();
let ghost (fh, fv) = factors(self.sampling_factor);
let ghost m = max_factors(color, fh, fv);
let ghost w = image.i_width() as int;
let ghost h = image.i_height() as int;
let ghost n = self.interval();
let ghost cols = ceil_div_(w, 8 * m.0);
let ghost rows = ceil_div_(h, 8 * m.1);
let ghost ps = self.mcu_parts(&image, *q_tables);
proof {
    reveal(Encoder::seq_ready);
    assert(self.components@ == comps_of(color, fh, fv));
    lemma_factors(self.sampling_factor, color);
    lemma_comps(self.components@, color, fh, fv);
    lemma_span(w, m.0); lemma_span(h, m.1);
    lemma_area(cols, rows);
    assert(rows * cols == cols * rows) by (nonlinear_arith);
    assert(0 <= rows * cols <= 67174416);
    assert(0 <= 8 * m.0 * cols * (8 * m.1) <= 65600 * 32) by (nonlinear_arith) requires 0 <= 8 * m.0 * cols <= 65600, 0 <= 8 * m.1 <= 32;
    assert(8 * m.0 * cols * (8 * m.1) == 8 * m.0 * cols * 8 * m.1 && 8 * m.0 * cols * 8 <= 8 * m.0 * cols * (8 * m.1)) by (nonlinear_arith) requires 0 <= 8 * m.0 * cols, m.1 >= 1;
}
//@ after self.write_frame_header
let ghost out0 = self.writer.out();
let ghost scan = old(self).mcu_scan(&image, *q_tables);
//@ loop 0 before
let ghost s1 = *self;
let ghost out1 = self.writer.out();
let ghost bw = buffer_width as int;
proof {
    lemma_il_start(old(self), &s1, &image, q_tables);
    assert(out1 == out0 + scan.sos);
    lemma_scan_start(&self.writer, ps, n); lemma_to_go(n, 0); assert(nrst(n, 0) == 0 && to_go(n, 0) == n) by { reveal(nrst); reveal(to_go); }
    assert(prev_at(prev_dc@, ps, 0)) by { reveal(prev_at); }
    assert(0 * cols == 0);
}
//@ loop 0
    invariant
        self.writer.w.failed() == old(self).writer.w.failed(),
        il_env(&s1, &image, q_tables, ps, m, cols, rows, n), *self == (Encoder { writer: self.writer, ..s1 }), s1 == (Encoder { writer: s1.writer, ..*old(self) }),
        image.i_width() as int == w, image.i_height() as int == h, 0 < w <= bw, bw < w + 32, 0 < h, w <= 65535, h <= 65535, bw == 8 * m.0 * cols, 1 <= cols <= w, 1 <= rows <= h, rows * 8 * m.1 < h + 32, rows * 8 * m.1 <= 65536, 1 <= m.0 <= 4, 1 <= m.1 <= 4,
        max_h_sampling == m.0, max_v_sampling == m.1, num_cols == cols, num_rows == rows, buffer_width == bw, width == w, height == h, restart_interval == n,
        0 <= n, 0 <= restarts < 8, restarts == nrst(n, block_y * cols) % 8, n > 0 ==> restarts_to_go == to_go(n, block_y * cols),
        self.writer.wf(), scan_at(&self.writer, out1, ps, n, block_y * cols), prev_at(prev_dc@, ps, block_y * cols),
        0 <= block_y * cols <= rows * cols, rows * cols <= 67174416,
//@ loop 0 start
let ghost y0 = block_y * 8 * m.1;
proof {
    reveal(il_env);
    lemma_mcu_row(block_y as int, rows, m.1);
}
//@ loop 1
    invariant
        row@.len() == 4,
        forall|c: int| 0 <= c < __k1 ==> (#[trigger] row[c])@.len() == 0,
//@ loop 2 before
proof { lemma_rows_empty(&image, row@, y0, bw); }
//@ loop 2
    invariant
        image.i_width() as int == w, image.i_height() as int == h, 0 < w <= bw, bw < w + 32, 0 < h, w <= 65535, h <= 65535, 1 <= m.0 <= 4, 1 <= m.1 <= 4, 0 <= y0 <= 70000, y0 == block_y * 8 * m.1, image.valid(), 
        max_v_sampling == m.1, buffer_width == bw, width == w, height == h,
        y0 + 8 * m.1 <= 65536,
        0 <= block_y * 8 <= 70000, rows_ok(&image, row@, y0, bw, y * bw),
//@ loop 2 start
let ghost yy = y as int;
let ghost r0 = row@;
//@ loop 3 before
proof { lemma_rows_fill(&image, r0, row@, y0, bw, yy); }
//@ loop 3
    invariant
        image.i_width() as int == w, image.i_height() as int == h, 0 < w <= bw, bw < w + 32, 0 < h, w <= 65535, h <= 65535, 1 <= m.0 <= 4, 1 <= m.1 <= 4, 0 <= y0 <= 70000, y0 == block_y * 8 * m.1, image.valid(), 
        max_v_sampling == m.1, buffer_width == bw, width == w, height == h,
        0 <= yy,
        rows_ok(&image, row@, y0, bw, yy * bw + __k3),
//@ loop 4 before
let ghost r1 = row@;
//@ loop 4
    invariant
        row@.len() == 4, r1.len() == 4,
        forall|c: int| 0 <= c < 4 ==> (#[trigger] row[c])@ == if c < __k4 { pad_last(r1[c]@) } else { r1[c]@ },
//@ loop 3 end
proof { lemma_rows_pad(&image, r1, row@, y0, bw, yy, __k3 as int); }
//@ loop 2 end
proof { lemma_next(yy, bw); }
//@ loop 5 before
proof { assert(block_y * cols + 0 == block_y * cols); }
//@ loop 5
    invariant
        self.writer.w.failed() == old(self).writer.w.failed(),
        il_env(&s1, &image, q_tables, ps, m, cols, rows, n), *self == (Encoder { writer: self.writer, ..s1 }), s1 == (Encoder { writer: s1.writer, ..*old(self) }),
        image.i_width() as int == w, image.i_height() as int == h, 0 < w <= bw, bw < w + 32, 0 < h, w <= 65535, h <= 65535, bw == 8 * m.0 * cols, 1 <= cols <= w, 1 <= rows <= h, rows * 8 * m.1 < h + 32, rows * 8 * m.1 <= 65536, 1 <= m.0 <= 4, 1 <= m.1 <= 4,
        max_h_sampling == m.0, max_v_sampling == m.1, num_cols == cols, num_rows == rows, buffer_width == bw, width == w, height == h, restart_interval == n,
        0 <= n, 0 <= restarts < 8, restarts == nrst(n, block_y * cols + block_x) % 8, n > 0 ==> restarts_to_go == to_go(n, block_y * cols + block_x),
        self.writer.wf(), scan_at(&self.writer, out1, ps, n, block_y * cols + block_x), prev_at(prev_dc@, ps, block_y * cols + block_x),
        0 <= block_y < rows, 0 <= block_y * cols, y0 == block_y * 8 * m.1,
        rows_ok(&image, row@, y0, bw, 8 * m.1 * bw),
//@ loop 5 start
let ghost k = block_y * cols + block_x;
let ghost w0 = self.writer;
let ghost pdc = prev_dc@;
proof {
    lemma_to_go(n, k); lemma_to_go(n, k + 1); lemma_and7();
    assert(istart(n, 0) == 0) by { lemma_to_go(n, 0); }
    reveal(il_env);
}
//@ after self.writer.finalize_bit_buffer
let ghost wf = self.writer;
//@ after self.writer.write_marker
proof { lemma_restart(&w0, &wf, &self.writer, out1, ps, n, k); }
//@ loop 6 before
let ghost w1 = self.writer;
proof {
    if n == 0 || to_go(n, k) != 0 { lemma_step(&w1, out1, ps, n, k); }
    lemma_pers(&s1, &image, q_tables, ps, m, cols, rows, n);
    lemma_prev_start(pdc, prev_dc@, ps, n, k);
    lemma_ext_refl(&w1, ps, n, k);
}
//@ loop 6
    invariant
        self.writer.w.failed() == old(self).writer.w.failed(),
        il_env(&s1, &image, q_tables, ps, m, cols, rows, n), *self == (Encoder { writer: self.writer, ..s1 }), s1 == (Encoder { writer: s1.writer, ..*old(self) }),
        image.i_width() as int == w, image.i_height() as int == h, 0 < w <= bw, bw < w + 32, 0 < h, w <= 65535, h <= 65535, bw == 8 * m.0 * cols, 1 <= cols <= w, 1 <= rows <= h, rows * 8 * m.1 < h + 32, rows * 8 * m.1 <= 65536, 1 <= m.0 <= 4, 1 <= m.1 <= 4,
        max_h_sampling == m.0, max_v_sampling == m.1, num_cols == cols, num_rows == rows, buffer_width == bw, width == w, height == h, restart_interval == n,
        0 <= n, 0 <= block_y < rows, 0 <= block_x < cols, y0 == block_y * 8 * m.1, k == block_y * cols + block_x, 0 <= k,
        rows_ok(&image, row@, y0, bw, 8 * m.1 * bw), __s6@ == s1.components@,
        self.writer.wf(), self.writer.ext(&w1, unit_bits(ps, n, k, __k6 as int)), prev_in(prev_dc@, ps, n, k, __k6 as int, 0),
//@ loop 6 start
let ghost c = __k6 as int;
let ghost p = ps[c];
proof {
    lemma_il(&s1, &image, q_tables, ps, m, cols, rows, n, c);
    lemma_part_start(&w1, &self.writer, ps, n, k, c);
    assert(0 * component.horizontal_sampling_factor == 0);
}
//@ loop 7
    invariant
        self.writer.w.failed() == old(self).writer.w.failed(),
        il_env(&s1, &image, q_tables, ps, m, cols, rows, n), *self == (Encoder { writer: self.writer, ..s1 }), s1 == (Encoder { writer: s1.writer, ..*old(self) }),
        image.i_width() as int == w, image.i_height() as int == h, 0 < w <= bw, bw < w + 32, 0 < h, w <= 65535, h <= 65535, bw == 8 * m.0 * cols, 1 <= cols <= w, 1 <= rows <= h, rows * 8 * m.1 < h + 32, rows * 8 * m.1 <= 65536, 1 <= m.0 <= 4, 1 <= m.1 <= 4,
        max_h_sampling == m.0, max_v_sampling == m.1, num_cols == cols, num_rows == rows, buffer_width == bw, width == w, height == h, restart_interval == n,
        0 <= n, 0 <= block_y < rows, 0 <= block_x < cols, y0 == block_y * 8 * m.1, k == block_y * cols + block_x, 0 <= k,
        rows_ok(&image, row@, y0, bw, 8 * m.1 * bw), 0 <= c < s1.components@.len(), i == c, *component == s1.components@[c], p == ps[c],
        comp_env(&s1, p, c, m),
        self.writer.wf(), self.writer.ext(&w1, unit_bits(ps, n, k, c) + part_bits(p, n, k * p.per, k * p.per + v_offset * component.horizontal_sampling_factor)),
        prev_in(prev_dc@, ps, n, k, c, v_offset * component.horizontal_sampling_factor),
//@ loop 8
    invariant
        self.writer.w.failed() == old(self).writer.w.failed(),
        il_env(&s1, &image, q_tables, ps, m, cols, rows, n), *self == (Encoder { writer: self.writer, ..s1 }), s1 == (Encoder { writer: s1.writer, ..*old(self) }),
        image.i_width() as int == w, image.i_height() as int == h, 0 < w <= bw, bw < w + 32, 0 < h, w <= 65535, h <= 65535, bw == 8 * m.0 * cols, 1 <= cols <= w, 1 <= rows <= h, rows * 8 * m.1 < h + 32, rows * 8 * m.1 <= 65536, 1 <= m.0 <= 4, 1 <= m.1 <= 4,
        max_h_sampling == m.0, max_v_sampling == m.1, num_cols == cols, num_rows == rows, buffer_width == bw, width == w, height == h, restart_interval == n,
        0 <= n, 0 <= block_y < rows, 0 <= block_x < cols, y0 == block_y * 8 * m.1, k == block_y * cols + block_x, 0 <= k,
        rows_ok(&image, row@, y0, bw, 8 * m.1 * bw), 0 <= c < s1.components@.len(), i == c, *component == s1.components@[c], p == ps[c],
        comp_env(&s1, p, c, m), 0 <= v_offset < component.vertical_sampling_factor,
        self.writer.wf(), self.writer.ext(&w1, unit_bits(ps, n, k, c) + part_bits(p, n, k * p.per, k * p.per + (v_offset * component.horizontal_sampling_factor + h_offset))),
        prev_in(prev_dc@, ps, n, k, c, v_offset * component.horizontal_sampling_factor + h_offset),
//@ loop 7 start
proof { assert(v_offset * component.horizontal_sampling_factor + 0 == v_offset * component.horizontal_sampling_factor); }
//@ loop 8 start
let ghost wa = self.writer;
let ghost pdc1 = prev_dc@;
let ghost cnt = v_offset * component.horizontal_sampling_factor + h_offset;
proof {
    lemma_il(&s1, &image, q_tables, ps, m, cols, rows, n, c);
    lemma_mcu_pos(block_x as int, cols, component.horizontal_sampling_factor as int, m.0, h_offset as int);
    lemma_mcu_pos(0, 1, component.vertical_sampling_factor as int, m.1, v_offset as int);
    lemma_len(v_offset as int * 8 + 7 * (m.1 / component.vertical_sampling_factor as int) + 1, 8 * m.1, bw);
    lemma_row_len(&image, row@, c, y0, bw, 8 * m.1 * bw);
    lemma_mcu_index(&image, &s1, c, *q_tables, m, cols, rows, block_x as int, block_y as int, h_offset as int, v_offset as int);
}
//@ after let mut block = get_block
proof { lemma_block_px(&image, c, row[c]@, y0, bw, 8 * m.1, block_x as int * 8 * m.0 + h_offset * 8, v_offset as int * 8, m.0 / component.horizontal_sampling_factor as int, m.1 / component.vertical_sampling_factor as int,
    block@, &q_tables[component.quantization_table as int]); }
//@ before self.writer.write_block
proof {
    assert(q_block@ == p.blocks[k * p.per + cnt]);
    lemma_prev_range(pdc1, ps, n, k, c, cnt);
    lemma_complete(&p.dc, &p.ac, q_block@, prev_dc[c] as int, 1, 64);
    reveal(blk_ok); reveal(coef_ok);
}
//@ loop 8 end
proof {
    lemma_prev_range(pdc1, ps, n, k, c, cnt);
    lemma_mcu_step(&w1, &wa, &self.writer, ps, n, k, c, cnt);
    lemma_prev_step(pdc1, prev_dc@, ps, n, k, c, cnt);
}
//@ loop 7 end
proof { lemma_next(v_offset as int, component.horizontal_sampling_factor as int); }
//@ loop 6 end
proof { lemma_part_end(&w1, &self.writer, prev_dc@, ps, n, k, c); }
//@ loop 6 after
proof {
    lemma_pers(&s1, &image, q_tables, ps, m, cols, rows, n);
    lemma_unit(&w1, &self.writer, out1, ps, n, k);
    lemma_prev_end(prev_dc@, ps, n, k);
}
//@ loop 0 end
proof { lemma_next(block_y as int, cols); lemma_area2(block_y as int + 1, rows, cols); }
//@ loop 0 after
let ghost w2 = self.writer;
proof { lemma_comm(rows, cols); }
//@ at end
proof {
    if __vx_r is Ok { lemma_scan_end(&w2, &self.writer, out0, scan, n); }
}
//@ extra Encoder
    pub open spec fn mcu_parts<I: ImageBuffer>(&self, image: &I, q: [QuantizationTable; 2]) -> Seq<Part> {
        let m = max_factors(image.i_color(), factors(self.sampling_factor).0, factors(self.sampling_factor).1);
        Seq::new(self.components@.len(), |i: int| Part {
            dc: self.dc_of(i), ac: self.ac_of(i), blocks: mcu_blocks(image, i, self.components@[i], m, q),
            per: self.components@[i].vertical_sampling_factor * self.components@[i].horizontal_sampling_factor, ss: 0, se: 63,
        })
    }
    /// one scan with all components (T.81 A.2.3)
    pub open spec fn mcu_scan<I: ImageBuffer>(&self, image: &I, q: [QuantizationTable; 2]) -> Scan {
        let m = max_factors(image.i_color(), factors(self.sampling_factor).0, factors(self.sampling_factor).1);
        Scan {
            sos: seg(Marker::SOS, sos_payload(refs(self.components@), 0, 63)),
            parts: self.mcu_parts(image, q),
            total: ceil_div_(image.i_width() as int, 8 * m.0) * ceil_div_(image.i_height() as int, 8 * m.1),
        }
    }
//@ extra mod
/// block b of MCU k
#[verifier::opaque]
pub open spec fn mcu_block<I: ImageBuffer>(image: &I, i: int, hf: int, vf: int, m: (int, int), cols: int, q: &QuantizationTable, k: int, b: int) -> Seq<i16> {
    let hs = m.0 / hf; let vs = m.1 / vf;
    coef_block(image, i, k % cols * 8 * m.0 + b % hf * 8 * hs, k / cols * 8 * m.1 + b / hf * 8 * vs, hs, vs, q)
}
/// all blocks of a component in the order of a scan with all components
#[verifier::opaque]
pub open spec fn mcu_blocks<I: ImageBuffer>(image: &I, i: int, c: Component, m: (int, int), q: [QuantizationTable; 2]) -> Seq<Seq<i16>> {
    let cols = ceil_div_(image.i_width() as int, 8 * m.0);
    let rows = ceil_div_(image.i_height() as int, 8 * m.1);
    let per = c.vertical_sampling_factor * c.horizontal_sampling_factor;
    Seq::new((cols * rows * per) as nat, |g: int|
        mcu_block(image, i, c.horizontal_sampling_factor as int, c.vertical_sampling_factor as int, m, cols, &q[c.quantization_table as int], g / per, g % per))
}
/// the DC coefficient before block cnt of MCU k
#[verifier::opaque]
pub open spec fn lastdc(p: Part, n: int, k: int, cnt: int) -> int {
    if k * p.per + cnt == istart(n, k) * p.per { 0 } else { p.blocks[k * p.per + cnt - 1][0] as int }
}
#[verifier::opaque]
pub open spec fn prev_at(prev: Seq<i16>, ps: Seq<Part>, k: int) -> bool {
    &&& prev.len() == 4
    &&& forall|j: int| 0 <= j < ps.len() ==> -1024 <= #[trigger] prev[j] <= 1016 && prev[j] == if k == 0 { 0 } else { ps[j].blocks[k * ps[j].per - 1][0] as int }
}
#[verifier::opaque]
pub open spec fn prev_in(prev: Seq<i16>, ps: Seq<Part>, n: int, k: int, c: int, cnt: int) -> bool {
    &&& prev.len() == 4
    &&& forall|j: int| 0 <= j < ps.len() ==> -1024 <= #[trigger] prev[j] <= 1016 && prev[j] == lastdc(ps[j], n, k, if j < c { ps[j].per } else if j == c { cnt } else { 0 })
}
#[verifier::opaque]
pub open spec fn il_env<W: JfifWrite, I: ImageBuffer>(e: &Encoder<W>, image: &I, q: &[QuantizationTable; 2], ps: Seq<Part>, m: (int, int), cols: int, rows: int, n: int) -> bool {
    &&& image.valid() && image.i_width() > 0 && image.i_height() > 0
    &&& e.comps_are(image.i_color()) && q[0].wf() && q[1].wf()
    &&& e.tables_ok() && e.tables_complete()
    &&& n == e.interval() && m == max_factors(image.i_color(), factors(e.sampling_factor).0, factors(e.sampling_factor).1)
    &&& cols == ceil_div_(image.i_width() as int, 8 * m.0) && rows == ceil_div_(image.i_height() as int, 8 * m.1)
    &&& ps == e.mcu_parts(image, *q) && ps.len() == e.components@.len()
}
pub open spec fn comp_env<W: JfifWrite>(e: &Encoder<W>, p: Part, c: int, m: (int, int)) -> bool {
    let x = e.components@[c];
    &&& p.dc == e.dc_of(c) && p.ac == e.ac_of(c) && p.ss == 0 && p.se == 63 && p.per == x.vertical_sampling_factor * x.horizontal_sampling_factor
    &&& p.dc.codes_fit() && p.ac.codes_fit() && dc_complete(&p.dc) && ac_complete(&p.ac)
    &&& 1 <= x.horizontal_sampling_factor <= 4 && 1 <= x.vertical_sampling_factor <= 4
    &&& (x.horizontal_sampling_factor == 1 || x.horizontal_sampling_factor == m.0)
    &&& (x.vertical_sampling_factor == 1 || x.vertical_sampling_factor == m.1)
    &&& (m.0 == 1 || m.0 == 2 || m.0 == 4) && (m.1 == 1 || m.1 == 2 || m.1 == 4)
    &&& x.quantization_table < 2 && x.dc_huffman_table < 2 && x.ac_huffman_table < 2
    &&& p.per >= 1 && c < 4
}
pub proof fn lemma_il_start<W: JfifWrite, I: ImageBuffer>(e0: &Encoder<W>, e: &Encoder<W>, image: &I, q: &[QuantizationTable; 2])
    requires e0.seq_ready(image, q), *e == (Encoder { writer: e.writer, ..*e0 })
    ensures ({
        let m = max_factors(image.i_color(), factors(e0.sampling_factor).0, factors(e0.sampling_factor).1);
        il_env(e, image, q, e0.mcu_parts(image, *q), m, ceil_div_(image.i_width() as int, 8 * m.0), ceil_div_(image.i_height() as int, 8 * m.1), e0.interval())
    })
{
    reveal(il_env);
    assert(e.mcu_parts(image, *q) =~= e0.mcu_parts(image, *q));
}
pub proof fn lemma_il<W: JfifWrite, I: ImageBuffer>(e: &Encoder<W>, image: &I, q: &[QuantizationTable; 2], ps: Seq<Part>, m: (int, int), cols: int, rows: int, n: int, c: int)
    requires il_env(e, image, q, ps, m, cols, rows, n), 0 <= c < e.components@.len()
    ensures
        comp_env(e, ps[c], c, m), ps.len() == e.components@.len(), ps.len() <= 4,
        ps[c].blocks == mcu_blocks(image, c, e.components@[c], m, *q), q[0].wf(), q[1].wf(), c < ncomp(image.i_color()),
        cols == ceil_div_(image.i_width() as int, 8 * m.0), rows == ceil_div_(image.i_height() as int, 8 * m.1),
{
    reveal(il_env);
    lemma_factors(e.sampling_factor, image.i_color());
    lemma_comps(e.components@, image.i_color(), factors(e.sampling_factor).0, factors(e.sampling_factor).1);
    lemma_comp_factors(e.components@, image.i_color(), factors(e.sampling_factor).0, factors(e.sampling_factor).1, c);
    lemma_wf(&e.huffman_tables[0].0); lemma_wf(&e.huffman_tables[0].1);
    lemma_wf(&e.huffman_tables[1].0); lemma_wf(&e.huffman_tables[1].1);
    let x = e.components@[c];
    assert(x.vertical_sampling_factor * x.horizontal_sampling_factor >= 1) by (nonlinear_arith) requires x.vertical_sampling_factor >= 1, x.horizontal_sampling_factor >= 1;
}
pub proof fn lemma_ext_refl<W: JfifWrite>(w: &JfifWriter<W>, ps: Seq<Part>, n: int, k: int)
    requires w.wf()
    ensures w.ext(w, unit_bits(ps, n, k, 0))
{
    reveal(JfifWriter::ext);
    assert forall|base: Seq<u8>, bits: Seq<bool>| #[trigger] w.at(base, bits) implies w.at(base, bits + unit_bits(ps, n, k, 0)) by {
        assert(bits + unit_bits(ps, n, k, 0) =~= bits);
    }
}
pub proof fn lemma_part_start<W: JfifWrite>(w1: &JfifWriter<W>, wa: &JfifWriter<W>, ps: Seq<Part>, n: int, k: int, c: int)
    requires wa.ext(w1, unit_bits(ps, n, k, c))
    ensures wa.ext(w1, unit_bits(ps, n, k, c) + part_bits(ps[c], n, k * ps[c].per, k * ps[c].per + 0))
{
    assert(unit_bits(ps, n, k, c) + part_bits(ps[c], n, k * ps[c].per, k * ps[c].per + 0) =~= unit_bits(ps, n, k, c));
}
pub proof fn lemma_istart(n: int, k: int)
    requires n >= 0, k >= 0
    ensures 0 <= istart(n, k) <= k
{
    reveal(istart);
    if n > 0 {
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(k, n);
        assert(n * (k / n) == k / n * n) by (nonlinear_arith);
        assert(k / n * n >= 0) by (nonlinear_arith) requires k >= 0, n > 0;
    }
}
pub proof fn lemma_mul_lt(a: int, b: int, p: int)
    requires 0 <= a <= b, p >= 1
    ensures a * p <= b * p, a < b ==> a * p + p <= b * p, 0 <= a * p
{
    assert(a * p <= b * p && 0 <= a * p) by (nonlinear_arith) requires 0 <= a <= b, p >= 1;
    if a < b { assert(a * p + p <= b * p) by (nonlinear_arith) requires a + 1 <= b, p >= 1; }
}
pub proof fn lemma_mcu_step<W: JfifWrite>(w1: &JfifWriter<W>, wa: &JfifWriter<W>, wb: &JfifWriter<W>, ps: Seq<Part>, n: int, k: int, c: int, cnt: int)
    requires
        n >= 0, k >= 0, 0 <= c < ps.len(), 0 <= cnt < ps[c].per, ps[c].ss == 0, ps[c].se == 63,
        wa.ext(w1, unit_bits(ps, n, k, c) + part_bits(ps[c], n, k * ps[c].per, k * ps[c].per + cnt)),
        wb.ext(wa, block_bits(&ps[c].dc, &ps[c].ac, ps[c].blocks[k * ps[c].per + cnt], lastdc(ps[c], n, k, cnt))),
    ensures wb.ext(w1, unit_bits(ps, n, k, c) + part_bits(ps[c], n, k * ps[c].per, k * ps[c].per + (cnt + 1)))
{
    reveal(lastdc);
    let p = ps[c];
    let g = k * p.per + cnt;
    let u = unit_bits(ps, n, k, c);
    let b0 = part_bits(p, n, k * p.per, g);
    let x = block_part(p, n, g);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(g, p.per, k, cnt);
    lemma_full_block(p, n, g);
    assert(part_bits(p, n, k * p.per, g + 1) == b0 + x);
    lemma_ext_trans(w1, wa, wb, u + b0, x);
    assert((u + b0) + x =~= u + part_bits(p, n, k * p.per, g + 1));
}
pub proof fn lemma_part_end<W: JfifWrite>(w1: &JfifWriter<W>, wb: &JfifWriter<W>, prev: Seq<i16>, ps: Seq<Part>, n: int, k: int, c: int)
    requires
        0 <= c < ps.len(),
        wb.ext(w1, unit_bits(ps, n, k, c) + part_bits(ps[c], n, k * ps[c].per, k * ps[c].per + ps[c].per)), prev_in(prev, ps, n, k, c, ps[c].per),
    ensures wb.ext(w1, unit_bits(ps, n, k, c + 1)), prev_in(prev, ps, n, k, c + 1, 0)
{
    reveal(prev_in); reveal(lastdc);
}
pub proof fn lemma_prev_start(pdc: Seq<i16>, prev: Seq<i16>, ps: Seq<Part>, n: int, k: int)
    requires
        n >= 0, k >= 0, prev_at(pdc, ps, k), prev.len() == 4, ps.len() <= 4, forall|j: int| 0 <= j < ps.len() ==> (#[trigger] ps[j]).per >= 1,
        if n > 0 && to_go(n, k) == 0 { forall|j: int| 0 <= j < 4 ==> #[trigger] prev[j] == 0 } else { prev == pdc },
    ensures prev_in(prev, ps, n, k, 0, 0)
{
    reveal(prev_at); reveal(prev_in); reveal(lastdc);
    lemma_to_go(n, k); lemma_istart(n, k);
    assert forall|j: int| 0 <= j < ps.len() implies -1024 <= #[trigger] prev[j] <= 1016 && prev[j] == lastdc(ps[j], n, k, 0) by {
        assert(ps[j].per >= 1);
        lemma_mul_lt(istart(n, k), k, ps[j].per);
        if n > 0 && to_go(n, k) == 0 {} else { assert(-1024 <= pdc[j] <= 1016); }
    }
}
pub proof fn lemma_prev_range(prev: Seq<i16>, ps: Seq<Part>, n: int, k: int, c: int, cnt: int)
    requires prev_in(prev, ps, n, k, c, cnt), 0 <= c < ps.len()
    ensures -1024 <= prev[c] <= 1016, prev[c] == lastdc(ps[c], n, k, cnt)
{
    reveal(prev_in);
}
pub proof fn lemma_prev_step(prev: Seq<i16>, prev2: Seq<i16>, ps: Seq<Part>, n: int, k: int, c: int, cnt: int)
    requires
        n >= 0, k >= 0, prev_in(prev, ps, n, k, c, cnt), 0 <= c < ps.len(), 0 <= cnt < ps[c].per, ps.len() <= 4, blk_ok(ps[c].blocks[k * ps[c].per + cnt]),
        prev2 == prev.update(c, ps[c].blocks[k * ps[c].per + cnt][0]),
    ensures prev_in(prev2, ps, n, k, c, cnt + 1)
{
    reveal(prev_in); reveal(lastdc);
    lemma_istart(n, k); lemma_mul_lt(istart(n, k), k, ps[c].per);
    assert forall|j: int| 0 <= j < ps.len() implies -1024 <= #[trigger] prev2[j] <= 1016 && prev2[j] == lastdc(ps[j], n, k, if j < c { ps[j].per } else if j == c { cnt + 1 } else { 0 }) by {
        assert(-1024 <= prev[j] <= 1016);
    }
}
pub proof fn lemma_prev_end(prev: Seq<i16>, ps: Seq<Part>, n: int, k: int)
    requires n >= 0, k >= 0, prev_in(prev, ps, n, k, ps.len() as int, 0), forall|j: int| 0 <= j < ps.len() ==> (#[trigger] ps[j]).per >= 1
    ensures prev_at(prev, ps, k + 1)
{
    reveal(prev_in); reveal(prev_at); reveal(lastdc);
    lemma_istart(n, k);
    assert forall|j: int| 0 <= j < ps.len() implies -1024 <= #[trigger] prev[j] <= 1016 && prev[j] == ps[j].blocks[(k + 1) * ps[j].per - 1][0] by {
        assert(ps[j].per >= 1);
        lemma_mul_lt(istart(n, k), k, ps[j].per);
        assert((k + 1) * ps[j].per == k * ps[j].per + ps[j].per) by (nonlinear_arith);
    }
}
pub proof fn lemma_pers<W: JfifWrite, I: ImageBuffer>(e: &Encoder<W>, image: &I, q: &[QuantizationTable; 2], ps: Seq<Part>, m: (int, int), cols: int, rows: int, n: int)
    requires il_env(e, image, q, ps, m, cols, rows, n)
    ensures forall|j: int| 0 <= j < ps.len() ==> (#[trigger] ps[j]).per >= 1, ps.len() <= 4, ps.len() == e.components@.len()
{
    reveal(il_env);
    lemma_comps(e.components@, image.i_color(), factors(e.sampling_factor).0, factors(e.sampling_factor).1);
    assert forall|j: int| 0 <= j < ps.len() implies (#[trigger] ps[j]).per >= 1 by { lemma_il(e, image, q, ps, m, cols, rows, n, j); }
}
pub proof fn lemma_mcu_pos(bx: int, cols: int, f: int, m: int, o: int)
    requires 0 <= bx < cols <= 0x1_0000, m == 1 || m == 2 || m == 4, f == 1 || f == m, 0 <= o < f
    ensures
        1 <= m / f <= 4, o * 8 + 7 * (m / f) < 8 * m, bx * 8 * m + o * 8 + 7 * (m / f) < 8 * m * cols, 0 <= bx * 8 * m, bx * 8 * m <= 0x20_0000, 0 <= bx * 8, o * 8 * (m / f) == o * 8,
{
    if m == 1 { assert(1int / 1 == 1); } else if m == 2 { assert(2int / 1 == 2 && 2int / 2 == 1); } else { assert(4int / 1 == 4 && 4int / 4 == 1); }
    assert(m / f == if f == 1 { m } else { 1 });
    assert(bx * 8 * m + 8 * m <= 8 * m * cols && 0 <= bx * 8 * m) by (nonlinear_arith) requires 0 <= bx, bx + 1 <= cols, m >= 1;
    assert(bx * 8 * m <= 0x1_0000 * 8 * 4) by (nonlinear_arith) requires 0 <= bx <= 0x1_0000, 1 <= m <= 4;
}
pub proof fn lemma_area2(a: int, b: int, c: int)
    requires 0 <= a <= b, 0 <= c
    ensures 0 <= a * c <= b * c
{
    assert(0 <= a * c <= b * c) by (nonlinear_arith) requires 0 <= a <= b, 0 <= c;
}
pub proof fn lemma_mcu_row(by: int, rows: int, m: int)
    requires 0 <= by < rows, m >= 1
    ensures 0 <= by * 8 * m, by * 8 <= by * 8 * m, by * 8 * m + 8 * m <= rows * 8 * m
{
    assert(by * 8 * m == by * (8 * m) && rows * 8 * m == rows * (8 * m)) by (nonlinear_arith);
    lemma_mul_lt(by, rows, 8 * m);
    assert(by * 8 <= by * 8 * m) by (nonlinear_arith) requires 0 <= by * 8, m >= 1;
}
pub proof fn lemma_comm(a: int, b: int)
    ensures a * b == b * a
{
    assert(a * b == b * a) by (nonlinear_arith);
}
pub proof fn lemma_next(a: int, b: int)
    ensures a * b + b == (a + 1) * b, a * b + 0 == a * b
{
    assert(a * b + b == (a + 1) * b) by (nonlinear_arith);
}
pub proof fn lemma_mcu_index<W: JfifWrite, I: ImageBuffer>(image: &I, e: &Encoder<W>, c: int, q: [QuantizationTable; 2], m: (int, int), cols: int, rows: int, bx: int, by: int, ho: int, vo: int)
    requires
        0 <= bx < cols, 0 <= by < rows, 0 <= ho < e.components@[c].horizontal_sampling_factor, 0 <= vo < e.components@[c].vertical_sampling_factor, cols <= 0x1_0000, rows <= 0x1_0000,
        cols == ceil_div_(image.i_width() as int, 8 * m.0), rows == ceil_div_(image.i_height() as int, 8 * m.1),
        ({ let x = e.components@[c];
            &&& (x.horizontal_sampling_factor == 1 || x.horizontal_sampling_factor == m.0)
            &&& (x.vertical_sampling_factor == 1 || x.vertical_sampling_factor == m.1)
            &&& (m.0 == 1 || m.0 == 2 || m.0 == 4) && (m.1 == 1 || m.1 == 2 || m.1 == 4)
        }),
    ensures ({
        let x = e.components@[c];
        let hf = x.horizontal_sampling_factor as int; let vf = x.vertical_sampling_factor as int;
        let g = (by * cols + bx) * (vf * hf) + (vo * hf + ho);
        &&& 0 <= vo * hf + ho < vf * hf
        &&& 0 <= g < mcu_blocks(image, c, x, m, q).len()
        &&& mcu_blocks(image, c, x, m, q)[g] == coef_block(image, c, bx * 8 * m.0 + ho * 8, by * 8 * m.1 + vo * 8, m.0 / hf, m.1 / vf, &q[x.quantization_table as int])
    })
{
    reveal(mcu_blocks); reveal(mcu_block);
    let x = e.components@[c];
    let hf = x.horizontal_sampling_factor as int; let vf = x.vertical_sampling_factor as int;
    let k = by * cols + bx; let b = vo * hf + ho; let per = vf * hf;
    let g = k * per + b;
    lemma_mcu_pos(bx, cols, hf, m.0, ho); lemma_mcu_pos(by, rows, vf, m.1, vo);
    assert(0 <= vo * hf && vo * hf + hf <= vf * hf) by (nonlinear_arith) requires 0 <= vo, vo + 1 <= vf, hf >= 1;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(b, hf, vo, ho);
    assert(0 <= by * cols && by * cols + cols <= rows * cols && rows * cols == cols * rows) by (nonlinear_arith) requires 0 <= by, by + 1 <= rows, cols >= 1;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(k, cols, by, bx);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(g, per, k, b);
    assert(0 <= k * per && k * per + per <= cols * rows * per) by (nonlinear_arith) requires 0 <= k, k + 1 <= cols * rows, per >= 1;
}
//@ extra mod
use crate::spec_tree::*;
// ---- counting symbols for optimized tables
pub open spec fn ge(f: Seq<u64>, g: Seq<u64>) -> bool { f.len() == 257 && g.len() == 257 && forall|v: int| 0 <= v < 257 ==> f[v] <= #[trigger] g[v] }
pub open spec fn atmost(f: Seq<u64>, n: int) -> bool { f.len() == 257 && forall|v: int| 0 <= v < 257 ==> #[trigger] f[v] <= n + 1 }
pub open spec fn needed(ac: bool, v: u8) -> bool { if ac { ac_symbol_needed(v) } else { dc_symbol_needed(v) } }
/// nothing is counted that cannot occur; the reserved symbol is
pub open spec fn only(f: Seq<u64>, ac: bool) -> bool {
    f.len() == 257 && f[256] > 0 && forall|v: u8| #[trigger] f[v as int] > 0 ==> needed(ac, v)
}
#[verifier::opaque]
pub open spec fn dc_seen(f: Seq<u64>, b: Seq<Seq<i16>>, n: int, upto: int) -> bool {
    forall|k: int| 0 <= k < upto ==> f[ssss((#[trigger] b[k])[0] - pred1(b, n, k)) as u8 as int] > 0
}
#[verifier::opaque]
pub open spec fn band_seen(f: Seq<u64>, blk: Seq<i16>, start: int, end: int) -> bool {
    forall|k: int| #![trigger blk[k]] start <= k < end && blk[k] != 0 ==> f[ac_symbol(blk, start, k) as int] > 0 && (zrun(blk, start, k) > 15 ==> f[0xF0] > 0)
}
pub open spec fn blk_seen(f: Seq<u64>, blk: Seq<i16>, start: int, end: int) -> bool {
    band_seen(f, blk, start, end) && (zrun(blk, start, end) > 0 ==> f[0] > 0)
}
#[verifier::opaque]
pub open spec fn ac_seen(f: Seq<u64>, b: Seq<Seq<i16>>, start: int, end: int, upto: int) -> bool {
    forall|k: int| 0 <= k < upto ==> blk_seen(f, #[trigger] b[k], start, end)
}
#[verifier::opaque]
pub open spec fn all_ac_seen(f: Seq<u64>, scans: Option<u8>, b: Seq<Seq<i16>>) -> bool {
    match scans {
        Some(m) => forall|s: int| 0 <= s < m - 1 ==> ac_seen(f, b, #[trigger] band_start(m - 1, s), band_start(m - 1, s + 1), b.len() as int),
        None => ac_seen(f, b, 1, 64, b.len() as int),
    }
}
#[verifier::opaque]
pub open spec fn ac_all_covered(t: &HuffmanTable, scans: Option<u8>, b: Seq<Seq<i16>>) -> bool {
    match scans {
        Some(m) => forall|s: int| 0 <= s < m - 1 ==> ac_covered(t, b, #[trigger] band_start(m - 1, s), band_start(m - 1, s + 1)),
        None => ac_covered(t, b, 1, 64),
    }
}
pub proof fn lemma_ge_refl(f: Seq<u64>) requires f.len() == 257 ensures ge(f, f) {}
pub proof fn lemma_ge_trans(f: Seq<u64>, g: Seq<u64>, h: Seq<u64>)
    requires ge(f, g), ge(g, h)
    ensures ge(f, h)
{
    assert forall|v: int| 0 <= v < 257 implies f[v] <= #[trigger] h[v] by { assert(g[v] <= h[v]); assert(f[v] <= g[v]); }
}
/// one more symbol v
pub proof fn lemma_bump(f: Seq<u64>, ac: bool, v: u8, n: int)
    requires only(f, ac), atmost(f, n), 0 <= n <= 0x1000_0000_0000, needed(ac, v)
    ensures
        f[v as int] < 0x2000_0000_0000,
        ({ let g = f.update(v as int, (f[v as int] + 1) as u64); ge(f, g) && only(g, ac) && atmost(g, n + 1) && g[v as int] > 0 }),
{
    assert(f[v as int] <= n + 1);
}
pub proof fn lemma_atmost(f: Seq<u64>, n: int, m: int)
    requires atmost(f, n), n <= m
    ensures atmost(f, m)
{
    assert forall|v: int| 0 <= v < 257 implies #[trigger] f[v] <= m + 1 by { assert(f[v] <= n + 1); }
}
pub proof fn lemma_dc_seen_mono(f: Seq<u64>, g: Seq<u64>, b: Seq<Seq<i16>>, n: int, upto: int)
    requires dc_seen(f, b, n, upto), ge(f, g)
    ensures dc_seen(g, b, n, upto)
{
    reveal(dc_seen);
    assert forall|k: int| 0 <= k < upto implies g[ssss((#[trigger] b[k])[0] - pred1(b, n, k)) as u8 as int] > 0 by {
        let v = ssss(b[k][0] - pred1(b, n, k)) as u8 as int;
        assert(f[v] <= g[v]);
    }
}
pub proof fn lemma_dc_seen_step(f: Seq<u64>, g: Seq<u64>, b: Seq<Seq<i16>>, n: int, k: int)
    requires dc_seen(f, b, n, k), ge(f, g), 0 <= k < b.len(), g[ssss(b[k][0] - pred1(b, n, k)) as u8 as int] > 0
    ensures dc_seen(g, b, n, k + 1)
{
    lemma_dc_seen_mono(f, g, b, n, k);
    reveal(dc_seen);
}
pub proof fn lemma_band_seen_mono(f: Seq<u64>, g: Seq<u64>, blk: Seq<i16>, start: int, end: int)
    requires band_seen(f, blk, start, end), ge(f, g)
    ensures band_seen(g, blk, start, end)
{
    reveal(band_seen);
    assert forall|k: int| #![trigger blk[k]] start <= k < end && blk[k] != 0 implies g[ac_symbol(blk, start, k) as int] > 0 && (zrun(blk, start, k) > 15 ==> g[0xF0] > 0) by {
        let v = ac_symbol(blk, start, k) as int;
        assert(f[v] <= g[v]); assert(f[0xF0] <= g[0xF0]);
    }
}
pub proof fn lemma_band_seen_empty(f: Seq<u64>, blk: Seq<i16>, start: int)
    ensures band_seen(f, blk, start, start)
{ reveal(band_seen); }
pub proof fn lemma_band_seen_step(f: Seq<u64>, g: Seq<u64>, blk: Seq<i16>, start: int, k: int)
    requires band_seen(f, blk, start, k), ge(f, g), blk[k] != 0 ==> g[ac_symbol(blk, start, k) as int] > 0 && (zrun(blk, start, k) > 15 ==> g[0xF0] > 0)
    ensures band_seen(g, blk, start, k + 1)
{
    lemma_band_seen_mono(f, g, blk, start, k);
    reveal(band_seen);
}
pub proof fn lemma_ac_seen_mono(f: Seq<u64>, g: Seq<u64>, b: Seq<Seq<i16>>, start: int, end: int, upto: int)
    requires ac_seen(f, b, start, end, upto), ge(f, g)
    ensures ac_seen(g, b, start, end, upto)
{
    reveal(ac_seen);
    assert forall|k: int| 0 <= k < upto implies blk_seen(g, #[trigger] b[k], start, end) by {
        assert(blk_seen(f, b[k], start, end));
        lemma_band_seen_mono(f, g, b[k], start, end);
        assert(f[0] <= g[0]);
    }
}
pub proof fn lemma_ac_seen_empty(f: Seq<u64>, b: Seq<Seq<i16>>, start: int, end: int)
    ensures ac_seen(f, b, start, end, 0)
{ reveal(ac_seen); }
pub proof fn lemma_ac_seen_step(f: Seq<u64>, g: Seq<u64>, b: Seq<Seq<i16>>, start: int, end: int, k: int)
    requires ac_seen(f, b, start, end, k), ge(f, g), 0 <= k < b.len(), blk_seen(g, b[k], start, end)
    ensures ac_seen(g, b, start, end, k + 1)
{
    lemma_ac_seen_mono(f, g, b, start, end, k);
    reveal(ac_seen);
}
pub proof fn lemma_all_ac_seen_mono(f: Seq<u64>, g: Seq<u64>, scans: Option<u8>, b: Seq<Seq<i16>>)
    requires all_ac_seen(f, scans, b), ge(f, g)
    ensures all_ac_seen(g, scans, b)
{
    reveal(all_ac_seen);
    match scans {
        Some(m) => {
            assert forall|s: int| 0 <= s < m - 1 implies ac_seen(g, b, #[trigger] band_start(m - 1, s), band_start(m - 1, s + 1), b.len() as int) by {
                lemma_ac_seen_mono(f, g, b, band_start(m - 1, s), band_start(m - 1, s + 1), b.len() as int);
            }
        }
        None => { lemma_ac_seen_mono(f, g, b, 1, 64, b.len() as int); }
    }
}
/// a symbol that has been counted: new_optimized may be used
pub proof fn lemma_freq_ready(f: Seq<u64>, ac: bool, n: int, v: u8)
    requires only(f, ac), atmost(f, n), 0 <= n <= 0x1000_0000_0000, f[v as int] > 0
    ensures isum(iseq(f)) <= u64::MAX, isum(active(f)) <= 255, f[256] > 0, exists|a: int| 0 <= a < 256 && #[trigger] f[a] > 0
{
    assert(0 <= v as int && (v as int) < 256 && f[v as int] > 0);
    assert forall|i: int| 0 <= i < iseq(f).len() implies #[trigger] iseq(f)[i] <= n + 1 by { assert(f[i] <= n + 1); }
    isum_bound(iseq(f), n + 1);
    assert(257 * (n + 1) <= u64::MAX) by (nonlinear_arith) requires n <= 0x1000_0000_0000;
    let a = active(f);
    assert(!needed(ac, 12) && !needed(ac, 13));
    assert(f[12u8 as int] == 0 && f[13u8 as int] == 0);
    assert(a[12] == 0 && a[13] == 0);
    isum_update(a, 12, 1); isum_update(a.update(12, 1), 13, 1);
    let c = a.update(12, 1).update(13, 1);
    assert forall|i: int| 0 <= i < c.len() implies #[trigger] c[i] <= 1 by {}
    isum_bound(c, 1);
}
pub proof fn lemma_seen_dc(f: Seq<u64>, b: Seq<Seq<i16>>, n: int)
    requires dc_seen(f, b, n, b.len() as int), b.len() > 0
    ensures exists|v: u8| #[trigger] f[v as int] > 0
{
    reveal(dc_seen);
    let v = ssss(b[0][0] - pred1(b, n, 0)) as u8;
    assert(f[v as int] > 0);
}
pub proof fn lemma_seen_ac(f: Seq<u64>, scans: Option<u8>, b: Seq<Seq<i16>>)
    requires all_ac_seen(f, scans, b), b.len() > 0, match scans { Some(m) => 2 <= m <= 64, None => true }
    ensures exists|v: u8| #[trigger] f[v as int] > 0
{
    reveal(all_ac_seen); reveal(ac_seen); reveal(band_seen);
    let (s, e) = match scans { Some(m) => (band_start(m - 1, 0), band_start(m - 1, 1)), None => (1int, 64int) };
    match scans { Some(m) => { lemma_band(m - 1, 0); assert(ac_seen(f, b, band_start(m - 1, 0), band_start(m - 1, 1), b.len() as int)); } None => {} }
    assert(blk_seen(f, b[0], s, e));
    let blk = b[0];
    if blk[e - 1] != 0 { assert(f[ac_symbol(blk, s, e - 1) as int] > 0); } else { assert(zrun(blk, s, e) > 0); assert(f[0u8 as int] > 0); }
}
pub proof fn lemma_dc_now_covered(f: Seq<u64>, t: &HuffmanTable, b: Seq<Seq<i16>>, n: int)
    requires dc_seen(f, b, n, b.len() as int), forall|v: u8| #[trigger] t.has(v) <==> f[v as int] > 0
    ensures dc_covered(t, b, n)
{
    reveal(dc_seen); reveal(dc_covered);
    assert forall|k: int| 0 <= k < b.len() implies t.has(ssss((#[trigger] b[k])[0] - pred1(b, n, k)) as u8) by {}
}
pub proof fn lemma_ac_now_covered(f: Seq<u64>, t: &HuffmanTable, b: Seq<Seq<i16>>, start: int, end: int)
    requires ac_seen(f, b, start, end, b.len() as int), forall|v: u8| #[trigger] t.has(v) <==> f[v as int] > 0
    ensures ac_covered(t, b, start, end)
{
    reveal(ac_seen); reveal(ac_covered); reveal(band_seen);
    assert forall|k: int| 0 <= k < b.len() implies ac_coded(t, #[trigger] b[k], start, end) by {
        assert(blk_seen(f, b[k], start, end));
        let blk = b[k];
        assert forall|j: int| #![trigger blk[j]] start <= j < end && blk[j] != 0 implies t.has(ac_symbol(blk, start, j)) && (zrun(blk, start, j) > 15 ==> t.has(0xF0)) by {
            assert(f[ac_symbol(blk, start, j) as int] > 0);
            assert(zrun(blk, start, j) > 15 ==> f[0xF0u8 as int] > 0);
        }
        assert(zrun(blk, start, end) > 0 ==> f[0u8 as int] > 0);
    }
}
pub proof fn lemma_all_now_covered(f: Seq<u64>, t: &HuffmanTable, scans: Option<u8>, b: Seq<Seq<i16>>)
    requires all_ac_seen(f, scans, b), forall|v: u8| #[trigger] t.has(v) <==> f[v as int] > 0
    ensures ac_all_covered(t, scans, b)
{
    reveal(all_ac_seen); reveal(ac_all_covered);
    match scans {
        Some(m) => {
            assert forall|s: int| 0 <= s < m - 1 implies ac_covered(t, b, #[trigger] band_start(m - 1, s), band_start(m - 1, s + 1)) by {
                lemma_ac_now_covered(f, t, b, band_start(m - 1, s), band_start(m - 1, s + 1));
            }
        }
        None => { lemma_ac_now_covered(f, t, b, 1, 64); }
    }
}
/// the symbol of a coefficient can occur
pub proof fn lemma_symbol_needed(blk: Seq<i16>, start: int, k: int)
    requires blk_ok(blk), 1 <= start <= k < 64
    ensures
        zrun(blk, start, k) <= 62, blk[k] != 0 ==> 1 <= ssss(blk[k] as int) <= 10 && needed(true, ac_symbol(blk, start, k)),
        blk[k] != 0 ==> ac_symbol(blk, start, k) == zrun(blk, start, k) % 16 * 16 + ssss(blk[k] as int),
        zrun(blk, start, k + 1) <= 63, blk[k] == 0 ==> zrun(blk, start, k + 1) == zrun(blk, start, k) + 1, blk[k] != 0 ==> zrun(blk, start, k + 1) == 0,
        needed(true, 0xF0), needed(true, 0),
{
    vstd::arithmetic::power2::lemma2_to64();
    lemma_zrun_bound(blk, start, k);
    assert(-1023 <= blk[k] <= 1023);
    lemma_cat_le(blk[k] as int, 10);
    lemma_cat_bounds(iabs(blk[k] as int));
}
pub proof fn lemma_diff_needed(b: Seq<Seq<i16>>, n: int, k: int)
    requires blks_ok(b), 0 <= k < b.len(), n >= 0
    ensures
        -2040 <= b[k][0] - pred1(b, n, k) <= 2040, needed(false, ssss(b[k][0] - pred1(b, n, k)) as u8), ssss(b[k][0] - pred1(b, n, k)) <= 11,
        istart(n, k) == k <==> k == 0 || (n > 0 && k % n == 0),
{
    reveal(istart);
    vstd::arithmetic::power2::lemma2_to64();
    assert(blk_ok(b[k]));
    if n > 0 {
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(k, n);
        assert(n * (k / n) == k / n * n) by (nonlinear_arith);
        if k == 0 { assert(0int / n == 0); assert(k / n == 0); assert(k / n * n == 0); }
    }
    if istart(n, k) != k { assert(blk_ok(b[k - 1])); }
    lemma_cat_le((b[k][0] - pred1(b, n, k)) as int, 11);
}
pub proof fn lemma_comp_tables(c: Seq<Component>, color: JpegColorType, h: int, v: int)
    requires c == comps_of(color, h, v)
    ensures
        c.len() == 1 || c.len() == 3 || c.len() == 4,
        forall|i: int| 0 <= i < c.len() ==> (#[trigger] c[i]).dc_huffman_table == c[i].ac_huffman_table && c[i].dc_huffman_table < (if c.len() == 1 { 1int } else { 2 }),
        exists|i: int| 0 <= i < c.len() && (#[trigger] c[i]).dc_huffman_table == 0,
        c.len() > 1 ==> exists|i: int| 0 <= i < c.len() && (#[trigger] c[i]).dc_huffman_table == 1,
{
    assert(c[0].dc_huffman_table == 0 || c[3].dc_huffman_table == 0);
    if c.len() > 1 { assert(c[1].dc_huffman_table == 1); }
}
//@ fn Encoder::optimize_huffman_table
    requires
        exists|c: JpegColorType| old(self).comps_are(c),
        match old(self).progressive_scans { Some(m) => 2 <= m <= 64, None => true },
        old(self).tables_ok(),
        forall|i: int| 0 <= i < old(self).components@.len() ==> blks_ok(views((#[trigger] blocks[i])@)) && 0 < blocks[i]@.len() <= 67108864,
    ensures
        *final(self) == (Encoder { huffman_tables: final(self).huffman_tables, ..*old(self) }),
        final(self).tables_ok(),
        forall|i: int| 0 <= i < old(self).components@.len() ==> final(self).covers(i, views((#[trigger] blocks[i])@)),
//@ at start
let ghost nc = self.components@.len() as int;
let ghost ri = self.interval();
let ghost ps = self.progressive_scans;
let ghost comps = self.components@;
proof {
    let c = choose|c: JpegColorType| old(self).comps_are(c);
    lemma_comp_tables(comps, c, factors(self.sampling_factor).0, factors(self.sampling_factor).1);
}
//@ loop 0
    invariant
        *self == (Encoder { huffman_tables: self.huffman_tables, ..*old(self) }), self.tables_ok(),
        nc == comps.len(), ri == self.interval(), ps == self.progressive_scans, comps == self.components@, nc == 1 || nc == 3 || nc == 4,
        max_tables == (if nc == 1 { 1int } else { 2 }),
        match ps { Some(m) => 2 <= m <= 64, None => true },
        forall|i: int| 0 <= i < nc ==> blks_ok(views((#[trigger] blocks[i])@)) && 0 < blocks[i]@.len() <= 67108864,
        forall|i: int| 0 <= i < nc ==> (#[trigger] comps[i]).dc_huffman_table == comps[i].ac_huffman_table && comps[i].dc_huffman_table < max_tables,
        exists|i: int| 0 <= i < nc && (#[trigger] comps[i]).dc_huffman_table == 0,
        nc > 1 ==> exists|i: int| 0 <= i < nc && (#[trigger] comps[i]).dc_huffman_table == 1,
        forall|i: int| 0 <= i < nc && (#[trigger] comps[i]).dc_huffman_table < table ==>
            dc_covered(&self.dc_of(i), views(blocks[i]@), ri) && ac_all_covered(&self.ac_of(i), ps, views(blocks[i]@)),
//@ loop 0 start
let ghost e0 = *self;
//@ loop 1
    invariant
        *self == e0, __s1@ == comps, nc == comps.len(), nc <= 4, ri == self.interval(), ps == self.progressive_scans, comps == self.components@,
        match ps { Some(m) => 2 <= m <= 64, None => true },
        forall|i: int| 0 <= i < nc ==> blks_ok(views((#[trigger] blocks[i])@)) && 0 < blocks[i]@.len() <= 67108864,
        forall|i: int| 0 <= i < nc ==> (#[trigger] comps[i]).dc_huffman_table == comps[i].ac_huffman_table,
        had_dc <==> exists|i: int| 0 <= i < __k1 && (#[trigger] comps[i]).dc_huffman_table == table,
        had_ac <==> exists|i: int| 0 <= i < __k1 && (#[trigger] comps[i]).dc_huffman_table == table,
        only(dc_freq@, false), only(ac_freq@, true), atmost(dc_freq@, 67108864 * __k1), atmost(ac_freq@, 1374389534720 * __k1),
        forall|i: int| 0 <= i < __k1 && (#[trigger] comps[i]).dc_huffman_table == table ==>
            dc_seen(dc_freq@, views(blocks[i]@), ri, blocks[i]@.len() as int) && all_ac_seen(ac_freq@, ps, views(blocks[i]@)),
//@ loop 1 start
let ghost gd = dc_freq@;
let ghost ga = ac_freq@;
let ghost bi = views(blocks[__k1 as int]@);
proof {
    assert(blks_ok(bi)); assert(bi.len() == blocks[__k1 as int]@.len());
    lemma_ge_refl(gd); lemma_ge_refl(ga);
    assert(*component == comps[__k1 as int]);
}
//@ loop 2 before
proof { assert(dc_seen(dc_freq@, bi, ri, 0)) by { reveal(dc_seen); } }
//@ loop 2
    invariant
        __s2@ == blocks[__k1 as int]@, bi == views(__s2@), blks_ok(bi), bi.len() <= 67108864, 0 <= __k1 < 4, restart_interval as int == ri, 0 <= ri <= 65535,
        prev_dc == (if __k2 == 0 { 0 } else { bi[__k2 - 1][0] as int }),
        dc_seen(dc_freq@, bi, ri, __k2 as int), ge(gd, dc_freq@), only(dc_freq@, false), atmost(dc_freq@, 67108864 * __k1 + __k2),
//@ loop 2 start
let ghost g2 = dc_freq@;
proof { assert(bi[__k2 as int] == block@); assert(blk_ok(block@)); lemma_diff_needed(bi, ri, __k2 as int);
    lemma_bump(dc_freq@, false, ssss(bi[__k2 as int][0] - pred1(bi, ri, __k2 as int)) as u8, 67108864 * __k1 + __k2);
}
//@ loop 2 end
proof {
    let v = ssss(bi[__k2 as int][0] - pred1(bi, ri, __k2 as int)) as u8 as int;
    assert(num_bits as int == v);
    assert(dc_freq@ =~= g2.update(v, (g2[v] + 1) as u64));
    lemma_dc_seen_step(g2, dc_freq@, bi, ri, __k2 as int);
    lemma_ge_trans(gd, g2, dc_freq@);
}
//@ loop 3 before
let ghost m1 = scans as int;
//@ loop 3
    invariant
        m1 == scans, ps == Some((m1 + 1) as u8), 1 <= m1 <= 63, values_per_scan == 63int / m1, i == __k1, 0 <= __k1 < nc, nc <= 4, blocks[__k1 as int]@.len() > 0,
        bi == views(blocks[__k1 as int]@), blks_ok(bi), bi.len() <= 67108864,
        forall|s: int| 0 <= s < scan ==> ac_seen(ac_freq@, bi, #[trigger] band_start(m1, s), band_start(m1, s + 1), bi.len() as int),
        ge(ga, ac_freq@), only(ac_freq@, true), atmost(ac_freq@, 1374389534720 * __k1 + 21474836480 * scan),
//@ loop 3 start
let ghost g3 = ac_freq@;
proof { lemma_band(m1, scan as int); }
//@ loop 3 end
proof {
    assert(start == band_start(m1, scan as int) && end == band_start(m1, scan + 1));
    lemma_ge_trans(ga, g3, ac_freq@);
    lemma_atmost(ac_freq@, 1374389534720 * __k1 + 21474836480 * scan + 320 * bi.len(), 1374389534720 * __k1 + 21474836480 * (scan + 1));
    assert forall|s: int| 0 <= s < scan + 1 implies ac_seen(ac_freq@, bi, #[trigger] band_start(m1, s), band_start(m1, s + 1), bi.len() as int) by {
        if s < scan { lemma_ac_seen_mono(g3, ac_freq@, bi, band_start(m1, s), band_start(m1, s + 1), bi.len() as int); }
    }
}
//@ loop 3 after
proof { reveal(all_ac_seen); assert(ps->Some_0 - 1 == m1); lemma_atmost(ac_freq@, 1374389534720 * __k1 + 21474836480 * m1, 1374389534720 * (__k1 + 1)); }
//@ loop 4 before
proof { lemma_ac_seen_empty(ac_freq@, bi, (start as int), (end as int)); lemma_ge_refl(ac_freq@); }
let ghost p4 = ac_freq@;
//@ loop 4
    invariant
        __s4@ == blocks[__k1 as int]@, bi == views(__s4@), blks_ok(bi), bi.len() <= 67108864, 1 <= (start as int) < (end as int) <= 64, 0 <= (1374389534720 * __k1 + 21474836480 * scan) <= 0x0800_0000_0000,
        ac_seen(ac_freq@, bi, (start as int), (end as int), __k4 as int), ge(p4, ac_freq@), only(ac_freq@, true), atmost(ac_freq@, (1374389534720 * __k1 + 21474836480 * scan) + 320 * __k4),
//@ loop 4 start
let ghost g4 = ac_freq@;
let ghost blk = bi[__k4 as int];
let ghost n4 = (1374389534720 * __k1 + 21474836480 * scan) + 320 * __k4;
proof { assert(blk == block@); assert(blk_ok(blk)); lemma_band_seen_empty(ac_freq@, blk, (start as int)); lemma_ge_refl(ac_freq@); }
//@ loop 5
    invariant
        __s5@ == blk.subrange((start as int), (end as int)), blk_ok(blk), 1 <= (start as int) < (end as int) <= 64, 0 <= n4 <= 0x0900_0000_0000,
        zero_run as nat == zrun(blk, (start as int), (start as int) + __k5), zero_run <= 63, blk.len() == 64,
        band_seen(ac_freq@, blk, (start as int), (start as int) + __k5), ge(g4, ac_freq@), only(ac_freq@, true), atmost(ac_freq@, n4 + 5 * __k5),
//@ loop 5 start
let ghost k = (start as int) + __k5;
let ghost g5 = ac_freq@;
let ghost n5 = n4 + 5 * __k5;
proof { assert(value == blk[k]); lemma_symbol_needed(blk, (start as int), k); }
//@ loop 6 before
let ghost mut j = 0int;
proof { lemma_ge_refl(ac_freq@); }
//@ loop 6
    invariant
        0 <= j, 16 * j + zero_run == zrun(blk, (start as int), k), zrun(blk, (start as int), k) <= 62, 0 <= n5 <= 0x0a00_0000_0000, needed(true, 0xF0),
        ge(g5, ac_freq@), only(ac_freq@, true), atmost(ac_freq@, n5 + j), j > 0 ==> ac_freq@[0xF0] > 0,
    decreases zero_run,
//@ loop 6 start
let ghost g6 = ac_freq@;
proof { lemma_bump(ac_freq@, true, 0xF0, n5 + j); }
//@ loop 6 end
proof {
    assert(ac_freq@ =~= g6.update(0xF0u8 as int, (g6[0xF0u8 as int] + 1) as u64));
    lemma_ge_trans(g5, g6, ac_freq@); j = j + 1;
}
//@ loop 6 after
proof { assert(j <= 3); lemma_atmost(ac_freq@, n5 + j, n5 + 4); }
//@ before #0 ac_freq[symbol as usize]
let ghost h5 = ac_freq@;
proof {
    let z = zero_run; let s = num_bits;
    assert((z << 4u8) | s == z * 16 + s) by (bit_vector) requires z < 16, s < 16;
    assert(symbol == ac_symbol(blk, (start as int), k));
    lemma_bump(ac_freq@, true, symbol, n5 + 4);
}
//@ after #0 ac_freq[symbol as usize]
proof {
    assert(ac_freq@ =~= h5.update(symbol as int, (h5[symbol as int] + 1) as u64));
    assert(h5[0xF0] <= ac_freq@[0xF0]);
    lemma_ge_trans(g5, h5, ac_freq@);
}
//@ loop 5 end
proof {
    lemma_ge_trans(g4, g5, ac_freq@);
    lemma_band_seen_step(g5, ac_freq@, blk, (start as int), k);
    lemma_atmost(ac_freq@, if value == 0 { n5 } else { n5 + 5 }, n5 + 5);
}
//@ loop 5 after
let ghost e5 = ac_freq@;
proof { lemma_symbol_needed(blk, (start as int), (end as int) - 1); lemma_bump(ac_freq@, true, 0, n4 + 5 * ((end as int) - (start as int))); }
//@ loop 4 end
proof {
    let g = ac_freq@;
    if zero_run > 0 { assert(g =~= e5.update(0u8 as int, (e5[0u8 as int] + 1) as u64)); } else { assert(g =~= e5); }
    lemma_ge_trans(g4, e5, g);
    lemma_band_seen_mono(e5, g, blk, (start as int), (end as int));
    lemma_ac_seen_step(g4, g, bi, (start as int), (end as int), __k4 as int);
    lemma_ge_trans(p4, g4, g);
    lemma_atmost(g, if zero_run > 0 { n4 + 5 * ((end as int) - (start as int)) + 1 } else { n4 + 5 * ((end as int) - (start as int)) }, n4 + 320);
}
//@ loop 7 before
proof { lemma_ac_seen_empty(ac_freq@, bi, 1int, 64int); lemma_ge_refl(ac_freq@); }
let ghost p7 = ac_freq@;
//@ loop 7
    invariant
        __s7@ == blocks[__k1 as int]@, bi == views(__s7@), blks_ok(bi), bi.len() <= 67108864, 1 <= 1int < 64int <= 64, 0 <= (1374389534720 * __k1) <= 0x0800_0000_0000,
        ac_seen(ac_freq@, bi, 1int, 64int, __k7 as int), ge(p7, ac_freq@), only(ac_freq@, true), atmost(ac_freq@, (1374389534720 * __k1) + 320 * __k7),
//@ loop 7 start
let ghost g7 = ac_freq@;
let ghost blk = bi[__k7 as int];
let ghost n7 = (1374389534720 * __k1) + 320 * __k7;
proof { assert(blk == block@); assert(blk_ok(blk)); lemma_band_seen_empty(ac_freq@, blk, 1int); lemma_ge_refl(ac_freq@); }
//@ loop 8
    invariant
        __s8@ == blk.subrange(1int, 64int), blk_ok(blk), 1 <= 1int < 64int <= 64, 0 <= n7 <= 0x0900_0000_0000,
        zero_run as nat == zrun(blk, 1int, 1int + __k8), zero_run <= 63, blk.len() == 64,
        band_seen(ac_freq@, blk, 1int, 1int + __k8), ge(g7, ac_freq@), only(ac_freq@, true), atmost(ac_freq@, n7 + 5 * __k8),
//@ loop 8 start
let ghost k = 1int + __k8;
let ghost g8 = ac_freq@;
let ghost n8 = n7 + 5 * __k8;
proof { assert(value == blk[k]); lemma_symbol_needed(blk, 1int, k); }
//@ loop 9 before
let ghost mut j = 0int;
proof { lemma_ge_refl(ac_freq@); }
//@ loop 9
    invariant
        0 <= j, 16 * j + zero_run == zrun(blk, 1int, k), zrun(blk, 1int, k) <= 62, 0 <= n8 <= 0x0a00_0000_0000, needed(true, 0xF0),
        ge(g8, ac_freq@), only(ac_freq@, true), atmost(ac_freq@, n8 + j), j > 0 ==> ac_freq@[0xF0] > 0,
    decreases zero_run,
//@ loop 9 start
let ghost g9 = ac_freq@;
proof { lemma_bump(ac_freq@, true, 0xF0, n8 + j); }
//@ loop 9 end
proof {
    assert(ac_freq@ =~= g9.update(0xF0u8 as int, (g9[0xF0u8 as int] + 1) as u64));
    lemma_ge_trans(g8, g9, ac_freq@); j = j + 1;
}
//@ loop 9 after
proof { assert(j <= 3); lemma_atmost(ac_freq@, n8 + j, n8 + 4); }
//@ before #1 ac_freq[symbol as usize]
let ghost h8 = ac_freq@;
proof {
    let z = zero_run; let s = num_bits;
    assert((z << 4u8) | s == z * 16 + s) by (bit_vector) requires z < 16, s < 16;
    assert(symbol == ac_symbol(blk, 1int, k));
    lemma_bump(ac_freq@, true, symbol, n8 + 4);
}
//@ after #1 ac_freq[symbol as usize]
proof {
    assert(ac_freq@ =~= h8.update(symbol as int, (h8[symbol as int] + 1) as u64));
    assert(h8[0xF0] <= ac_freq@[0xF0]);
    lemma_ge_trans(g8, h8, ac_freq@);
}
//@ loop 8 end
proof {
    lemma_ge_trans(g7, g8, ac_freq@);
    lemma_band_seen_step(g8, ac_freq@, blk, 1int, k);
    lemma_atmost(ac_freq@, if value == 0 { n8 } else { n8 + 5 }, n8 + 5);
}
//@ loop 8 after
let ghost e8 = ac_freq@;
proof { lemma_symbol_needed(blk, 1int, 64int - 1); lemma_bump(ac_freq@, true, 0, n7 + 5 * (64int - 1int)); }
//@ loop 7 end
proof {
    let g = ac_freq@;
    if zero_run > 0 { assert(g =~= e8.update(0u8 as int, (e8[0u8 as int] + 1) as u64)); } else { assert(g =~= e8); }
    lemma_ge_trans(g7, e8, g);
    lemma_band_seen_mono(e8, g, blk, 1int, 64int);
    lemma_ac_seen_step(g7, g, bi, 1int, 64int, __k7 as int);
    lemma_ge_trans(p7, g7, g);
    lemma_atmost(g, if zero_run > 0 { n7 + 5 * (64int - 1int) + 1 } else { n7 + 5 * (64int - 1int) }, n7 + 320);
}
//@ loop 7 after
proof { reveal(all_ac_seen); lemma_atmost(ac_freq@, 1374389534720 * __k1 + 320 * bi.len(), 1374389534720 * (__k1 + 1)); }
//@ loop 1 end
proof {
    lemma_atmost(dc_freq@, if comps[__k1 as int].dc_huffman_table == table { 67108864 * __k1 + bi.len() } else { 67108864 * __k1 }, 67108864 * (__k1 + 1));
    lemma_atmost(ac_freq@, if comps[__k1 as int].dc_huffman_table == table { 1374389534720 * (__k1 + 1) } else { 1374389534720 * __k1 }, 1374389534720 * (__k1 + 1));
    assert forall|c: int| 0 <= c < __k1 + 1 && (#[trigger] comps[c]).dc_huffman_table == table implies
        dc_seen(dc_freq@, views(blocks[c]@), ri, blocks[c]@.len() as int) && all_ac_seen(ac_freq@, ps, views(blocks[c]@)) by {
        if c < __k1 {
            lemma_dc_seen_mono(gd, dc_freq@, views(blocks[c]@), ri, blocks[c]@.len() as int);
            lemma_all_ac_seen_mono(ga, ac_freq@, ps, views(blocks[c]@));
        }
    }
}
//@ loop 1 after
proof {
    let w = choose|c: int| 0 <= c < nc && (#[trigger] comps[c]).dc_huffman_table == table;
    assert(comps[w].dc_huffman_table == table);
    assert(had_dc && had_ac);
    assert(blocks[w]@.len() > 0);
    lemma_seen_dc(dc_freq@, views(blocks[w]@), ri); lemma_seen_ac(ac_freq@, ps, views(blocks[w]@));
    let a = choose|v: u8| #[trigger] dc_freq@[v as int] > 0; let b = choose|v: u8| #[trigger] ac_freq@[v as int] > 0;
    lemma_freq_ready(dc_freq@, false, 67108864 * nc, a); lemma_freq_ready(ac_freq@, true, 1374389534720 * nc, b);
}
//@ loop 0 end
proof {
    assert forall|c: int| 0 <= c < nc && (#[trigger] comps[c]).dc_huffman_table < table + 1 implies
        dc_covered(&self.dc_of(c), views(blocks[c]@), ri) && ac_all_covered(&self.ac_of(c), ps, views(blocks[c]@)) by {
        if comps[c].dc_huffman_table == table {
            lemma_dc_now_covered(dc_freq@, &self.dc_of(c), views(blocks[c]@), ri);
            lemma_all_now_covered(ac_freq@, &self.ac_of(c), ps, views(blocks[c]@));
        }
    }
}
//@ loop 0 after
proof {
    assert forall|i: int| 0 <= i < nc implies self.covers(i, views((#[trigger] blocks[i])@)) by {
        assert(comps[i].dc_huffman_table < max_tables);
        reveal(Encoder::covers); reveal(ac_all_covered);
    }
}
//@ extra Encoder
    pub open spec fn comps_are(&self, c: JpegColorType) -> bool {
        self.components@ == comps_of(c, factors(self.sampling_factor).0, factors(self.sampling_factor).1)
    }
    pub open spec fn interval(&self) -> int { match self.restart_interval { Some(n) => n as int, None => 0 } }
    pub open spec fn comp_blocks<I: ImageBuffer>(&self, image: &I, q: [QuantizationTable; 2], i: int) -> Seq<Seq<i16>> {
        plane_blocks(image, i, self.components@[i], max_factors(image.i_color(), factors(self.sampling_factor).0, factors(self.sampling_factor).1), q)
    }
    pub open spec fn all_blocks<I: ImageBuffer>(&self, image: &I, q: [QuantizationTable; 2]) -> Seq<Seq<Seq<i16>>> {
        Seq::new(self.components@.len(), |i: int| self.comp_blocks(image, q, i))
    }
    pub open spec fn dc_of(&self, i: int) -> HuffmanTable { self.huffman_tables[self.components@[i].dc_huffman_table as int].0 }
    pub open spec fn ac_of(&self, i: int) -> HuffmanTable { self.huffman_tables[self.components@[i].ac_huffman_table as int].1 }
    /// the tables of component i have a code for everything in its blocks
    pub open spec fn covers(&self, i: int, b: Seq<Seq<i16>>) -> bool {
        &&& dc_covered(&self.dc_of(i), b, self.interval())
        &&& match self.progressive_scans {
                Some(m) => forall|s: int| 0 <= s < m - 1 ==> ac_covered(&self.ac_of(i), b, #[trigger] band_start(m - 1, s), band_start(m - 1, s + 1)),
                None => ac_covered(&self.ac_of(i), b, 1, 64),
            }
    }
    /// one scan for each component
    pub open spec fn seq_scans(&self, b: Seq<Seq<Seq<i16>>>) -> Seq<Scan> {
        Seq::new(self.components@.len(), |i: int| Scan {
            sos: seg(Marker::SOS, sos_payload(seq![&self.components@[i]], 0, 63)),
            parts: seq![Part { dc: self.dc_of(i), ac: self.ac_of(i), blocks: b[i], per: 1, ss: 0, se: 63 }],
            total: b[i].len() as int,
        })
    }
    pub open spec fn dc_scans(&self, b: Seq<Seq<Seq<i16>>>) -> Seq<Scan> {
        Seq::new(self.components@.len(), |i: int| Scan {
            sos: seg(Marker::SOS, sos_payload(seq![&self.components@[i]], 0, 0)),
            parts: seq![Part { dc: self.dc_of(i), ac: self.ac_of(i), blocks: b[i], per: 1, ss: 0, se: 0 }],
            total: b[i].len() as int,
        })
    }
    /// coefficients start .. end - 1
    pub open spec fn ac_scans(&self, b: Seq<Seq<Seq<i16>>>, start: int, end: int) -> Seq<Scan> {
        Seq::new(self.components@.len(), |i: int| Scan {
            sos: seg(Marker::SOS, sos_payload(seq![&self.components@[i]], start as u8, (end - 1) as u8)),
            parts: seq![Part { dc: self.dc_of(i), ac: self.ac_of(i), blocks: b[i], per: 1, ss: start, se: end - 1 }],
            total: b[i].len() as int,
        })
    }
    pub open spec fn band_scans(&self, b: Seq<Seq<Seq<i16>>>, m: int, k: int) -> Seq<u8>
        decreases k
    {
        if k <= 0 { Seq::empty() } else {
            self.band_scans(b, m, k - 1)
                + scans_bytes(self.ac_scans(b, band_start(m, k - 1), band_start(m, k)), self.interval(), self.components@.len() as int)
        }
    }
    pub open spec fn frame<I: ImageBuffer>(&self, image: &I, q: [QuantizationTable; 2]) -> Seq<u8> {
        frame_bytes(image.i_width(), image.i_height(), self.components@, self.progressive_scans is Some, q, self.huffman_tables, self.restart_interval)
    }
//@ extra mod
/// first coefficient of band s when 1..63 is divided into m bands
pub open spec fn band_start(m: int, s: int) -> int { if s >= m { 64 } else { 1 + s * (63int / m) } }
/// the first DC coefficient of a restart interval is predicted from 0
pub open spec fn pred1(b: Seq<Seq<i16>>, n: int, k: int) -> int { if istart(n, k) == k { 0 } else { b[k - 1][0] as int } }
/// a quantized block of component c: sx, sy is its first sample position in the image, hs, vs are the distances between samples
pub open spec fn coef_block<I: ImageBuffer>(image: &I, c: int, sx: int, sy: int, hs: int, vs: int, q: &QuantizationTable) -> Seq<i16> {
    quantized(fdct_fn(Seq::new(64, |p: int| (image.sample(c, minint(sx + p % 8 * hs, image.i_width() - 1), minint(sy + p / 8 * vs, image.i_height() - 1)) - 128) as i16)), q)
}
pub open spec fn minint(a: int, b: int) -> int { if a < b { a } else { b } }
/// number of blocks of a component with the given factors in a scan of its own (T.81 A.1.1, A.2.2)
pub open spec fn plane_cols(width: int, f: int, max: int) -> int { ceil_div_(ceil_div_(width * f, max), 8) }
/// all blocks of a component in the order of a scan of its own
pub open spec fn plane_blocks<I: ImageBuffer>(image: &I, i: int, c: Component, max: (int, int), q: [QuantizationTable; 2]) -> Seq<Seq<i16>> {
    let cols = plane_cols(image.i_width() as int, c.horizontal_sampling_factor as int, max.0);
    let rows = plane_cols(image.i_height() as int, c.vertical_sampling_factor as int, max.1);
    let hs = max.0 / c.horizontal_sampling_factor as int;
    let vs = max.1 / c.vertical_sampling_factor as int;
    plane_of(image, i, cols, rows, hs, vs, &q[c.quantization_table as int])
}
/// cols * rows blocks, line by line
pub open spec fn plane_of<I: ImageBuffer>(image: &I, i: int, cols: int, rows: int, hs: int, vs: int, q: &QuantizationTable) -> Seq<Seq<i16>> {
    Seq::new((cols * rows) as nat, |k: int| coef_block(image, i, k % cols * 8 * hs, k / cols * 8 * vs, hs, vs, q))
}
//@ fn Encoder::encode_image_sequential
    requires
        old(self).seq_ready(&image, q_tables), old(self).progressive_scans is None,
    ensures errors_kept(res is Err, old(self).writer.w.failed(), final(self).writer.w.failed()),
        *final(self) == (Encoder { writer: final(self).writer, huffman_tables: final(self).huffman_tables, ..*old(self) }),
        !old(self).optimize_huffman_table ==> final(self).huffman_tables == old(self).huffman_tables,
        final(self).tables_ok(),
        res is Ok ==> final(self).writer.fresh(),
        res is Ok ==> final(self).writer.out() == old(self).writer.out() + final(self).frame(&image, *q_tables)
            + scans_bytes(final(self).seq_scans(final(self).all_blocks(&image, *q_tables)), final(self).interval(), final(self).components@.len() as int),
//@ extra Encoder
    pub open spec fn seq_ready<I: ImageBuffer>(&self, image: &I, q_tables: &[QuantizationTable; 2]) -> bool {
        &&& image.valid() && image.i_width() > 0 && image.i_height() > 0
        &&& self.comps_are(image.i_color()) && q_tables[0].wf() && q_tables[1].wf()
        &&& self.writer.fresh() && self.tables_ok() && self.tables_complete()
    }
//@ at start
//@ after let blocks = self.encode_blocks
let ghost b = old(self).all_blocks(&image, *q_tables);
proof {
    assert forall|i: int| 0 <= i < self.components@.len() implies blks_ok(views((#[trigger] blocks[i])@)) && 0 < blocks[i]@.len() <= 67108864 by {
        lemma_plane_blocks(self, &image, q_tables, i);
        assert(views(blocks[i]@).len() == blocks[i]@.len());
    }
}
//@ before self.write_frame_header
let ghost sm = *self;
proof {
    lemma_blocks_for(old(self), self, &image, q_tables, blocks@, b);
    lemma_comps(self.components@, image.i_color(), factors(self.sampling_factor).0, factors(self.sampling_factor).1);
}
//@ loop 0 before
let ghost s1 = *self;
let ghost n = self.interval();
let ghost base = self.writer.out();
let ghost scans = self.seq_scans(b);
proof {
    reveal(scans_bytes);
    assert(base + scans_bytes(scans, n, 0) =~= base);
    lemma_blocks_same(&sm, self, blocks@, b);
}
//@ loop 0
    invariant
        self.writer.w.failed() == old(self).writer.w.failed(),
        0 <= n, n == s1.interval(), s1.progressive_scans is None, __s0@ == s1.components@,
        s1 == (Encoder { writer: s1.writer, huffman_tables: s1.huffman_tables, ..*old(self) }),
        !old(self).optimize_huffman_table ==> s1.huffman_tables == old(self).huffman_tables,
        *self == (Encoder { writer: self.writer, ..s1 }), s1.tables_ok(),
        self.writer.fresh(), scans == s1.seq_scans(b), blocks_for(&s1, blocks@, b), s1.components@.len() <= 4,
        self.writer.out() == base + scans_bytes(scans, n, __k0 as int),
//@ loop 0 start
let ghost out0 = self.writer.out();
let ghost c = __k0 as int;
proof { lemma_comp_ready(&s1, blocks@, b, c); }
//@ loop 1 before
let ghost out1 = self.writer.out();
let ghost bi = b[c];
let ghost part = Part { dc: s1.dc_of(c), ac: s1.ac_of(c), blocks: bi, per: 1, ss: 0, se: 63 };
let ghost ps = seq![part];
let ghost scan = Scan { sos: seg(Marker::SOS, sos_payload(seq![&s1.components@[c]], 0, 63)), parts: ps, total: bi.len() as int };
proof {
    assert([component]@ =~= seq![&s1.components@[c]]);
    assert(scans[c] == scan && out1 == out0 + scan.sos);
    lemma_scan_start(&self.writer, ps, n); lemma_to_go(n, 0); assert(nrst(n, 0) == 0 && to_go(n, 0) == n) by { reveal(nrst); reveal(to_go); }
    reveal(Encoder::covers);
}
//@ loop 1
    invariant
        self.writer.w.failed() == old(self).writer.w.failed(),
        n == restart_interval as int, n == s1.interval(),
        s1 == (Encoder { writer: s1.writer, huffman_tables: s1.huffman_tables, ..*old(self) }),
        !old(self).optimize_huffman_table ==> s1.huffman_tables == old(self).huffman_tables,
        *self == (Encoder { writer: self.writer, ..s1 }), s1.tables_ok(),
        __s1@ == blocks[c]@, views(__s1@) == bi, blks_ok(bi), i == c, 0 <= c < s1.components@.len(), c < 4, *component == s1.components@[c],
        component.dc_huffman_table < 2, component.ac_huffman_table < 2,
        part.dc == s1.dc_of(c), part.ac == s1.ac_of(c), part.blocks == bi, part.per == 1, part.ss == 0, part.se == 63, ps == seq![part],
        part.dc.codes_fit(), part.ac.codes_fit(), dc_covered(&part.dc, bi, n), ac_covered(&part.ac, bi, 1, 64),
        prev_dc == if __k1 == 0 { 0 } else { bi[__k1 - 1][0] as int },
        0 <= restarts < 8, restarts == nrst(n, __k1 as int) % 8,
        n > 0 ==> restarts_to_go == to_go(n, __k1 as int),
        self.writer.wf(), scan_at(&self.writer, out1, ps, n, __k1 as int),
//@ loop 1 start
let ghost k = __k1 as int;
let ghost w0 = self.writer;
proof {
    lemma_to_go(n, k); lemma_to_go(n, k + 1); lemma_pred1(part, n, k); lemma_one_block(part, n, k); lemma_full_block(part, n, k);
    assert(bi[k] == block@); lemma_and7();
    lemma_covered(&part.dc, &part.ac, bi, n, k, 1, 64);
    assert(pred(part, n, k) == pred1(bi, n, k)) by { reveal(pred1); reveal(istart); }
}
//@ after self.writer.finalize_bit_buffer
let ghost wf = self.writer;
//@ after self.writer.write_marker
proof { lemma_restart(&w0, &wf, &self.writer, out1, ps, n, k); }
//@ before self.writer.write_block
let ghost w1 = self.writer;
proof { if n == 0 || to_go(n, k) != 0 { lemma_step(&w1, out1, ps, n, k); } }
//@ after self.writer.write_block
proof { lemma_unit(&w1, &self.writer, out1, ps, n, k); }
//@ loop 1 after
let ghost w2 = self.writer;
//@ loop 0 end
proof {
    lemma_scan_end(&w2, &self.writer, out0, scan, n);
    lemma_scans_step(out0, base, scans, n, c);
}
//@ at end
proof {
    if __vx_r is Ok {
        assert(self.all_blocks(&image, *q_tables) =~= b);
        assert(self.seq_scans(b) =~= scans);
    }
}
//@ extra mod
pub proof fn lemma_and7()
    ensures forall|r: i32| 0 <= r <= 8 ==> #[trigger] (r & 7) == r % 8
{
    assert(forall|r: i32| 0 <= r <= 8 ==> #[trigger] (r & 7) == r % 8) by (bit_vector);
}
pub open spec fn coefs_ok(b: Seq<i16>) -> bool { forall|k: int| 1 <= k < 64 ==> coef_ok(#[trigger] b[k]) }
pub proof fn lemma_covered(dc: &HuffmanTable, ac: &HuffmanTable, b: Seq<Seq<i16>>, n: int, k: int, start: int, end: int)
    requires dc_covered(dc, b, n), ac_covered(ac, b, start, end), 0 <= k < b.len(), blks_ok(b)
    ensures dc.has(ssss(b[k][0] - pred1(b, n, k)) as u8), ac_coded(ac, b[k], start, end), coefs_ok(b[k]), -1024 <= b[k][0] <= 1016,
        k > 0 ==> -1024 <= b[k - 1][0] <= 1016
{
    reveal(dc_covered); reveal(ac_covered);
    if k > 0 { assert(blk_ok(b[k - 1])); }
}
pub proof fn lemma_comps(c: Seq<Component>, color: JpegColorType, h: int, v: int)
    requires c == comps_of(color, h, v), 1 <= h <= 4, 1 <= v <= 4
    ensures c.len() == ncomp(color), ncomp(color) == 1 || ncomp(color) == 3 || ncomp(color) == 4, comps_nibbles(c), forall|i: int| 0 <= i < c.len() ==> nibbles_ok(#[trigger] &c[i]),
        forall|i: int| 0 <= i < c.len() ==> (#[trigger] c[i]).dc_huffman_table < 2 && c[i].ac_huffman_table < 2 && c[i].quantization_table < 2,
{
}
pub open spec fn blocks_for<W: JfifWrite>(e: &Encoder<W>, blocks: Seq<Vec<[i16; 64]>>, b: Seq<Seq<Seq<i16>>>) -> bool {
    &&& blocks.len() == 4 && b.len() == e.components@.len()
    &&& forall|i: int| 0 <= i < e.components@.len() ==> comp_ready(e, #[trigger] b[i], blocks[i]@, i)
}
pub open spec fn comp_ready<W: JfifWrite>(e: &Encoder<W>, b: Seq<Seq<i16>>, v: Seq<[i16; 64]>, i: int) -> bool {
    &&& views(v) == b && blks_ok(b) && e.covers(i, b)
    &&& e.components@[i].dc_huffman_table < 2 && e.components@[i].ac_huffman_table < 2 && nibbles_ok(&e.components@[i])
}
pub proof fn lemma_comp_ready<W: JfifWrite>(e: &Encoder<W>, blocks: Seq<Vec<[i16; 64]>>, b: Seq<Seq<Seq<i16>>>, i: int)
    requires blocks_for(e, blocks, b), 0 <= i < e.components@.len(), e.tables_ok()
    ensures comp_ready(e, b[i], blocks[i]@, i), blocks.len() == 4, b.len() == e.components@.len(),
        e.dc_of(i).codes_fit(), e.ac_of(i).codes_fit(),
{
    lemma_wf(&e.huffman_tables[0].0); lemma_wf(&e.huffman_tables[0].1);
    lemma_wf(&e.huffman_tables[1].0); lemma_wf(&e.huffman_tables[1].1);
}
pub proof fn lemma_blocks_same<W: JfifWrite>(e: &Encoder<W>, e2: &Encoder<W>, blocks: Seq<Vec<[i16; 64]>>, b: Seq<Seq<Seq<i16>>>)
    requires blocks_for(e, blocks, b), *e2 == (Encoder { writer: e2.writer, ..*e })
    ensures blocks_for(e2, blocks, b)
{
    assert forall|i: int| 0 <= i < e2.components@.len() implies comp_ready(e2, #[trigger] b[i], blocks[i]@, i) by {
        assert(comp_ready(e, b[i], blocks[i]@, i));
    }
}
/// after encode_blocks and, when asked for, optimize_huffman_table
pub proof fn lemma_blocks_for<W: JfifWrite, I: ImageBuffer>(e0: &Encoder<W>, e: &Encoder<W>, image: &I, q: &[QuantizationTable; 2], blocks: Seq<Vec<[i16; 64]>>, b: Seq<Seq<Seq<i16>>>)
    requires
        e0.seq_ready(image, q), blocks.len() == 4, b == e0.all_blocks(image, *q),
        match e0.progressive_scans { Some(m) => 2 <= m <= 64, None => true },
        *e == (Encoder { huffman_tables: e.huffman_tables, ..*e0 }),
        forall|i: int| 0 <= i < e0.components@.len() ==> views((#[trigger] blocks[i])@) == e0.comp_blocks(image, *q, i) && blks_ok(views(blocks[i]@)),
        e.huffman_tables == e0.huffman_tables || forall|i: int| 0 <= i < e0.components@.len() ==> e.covers(i, views((#[trigger] blocks[i])@)),
    ensures
        blocks_for(e, blocks, b), b == e.all_blocks(image, *q),
{
    lemma_comps(e.components@, image.i_color(), factors(e.sampling_factor).0, factors(e.sampling_factor).1);
    assert forall|i: int| 0 <= i < e.components@.len() implies comp_ready(e, #[trigger] b[i], blocks[i]@, i) by {
        assert(b[i] == views(blocks[i]@));
        if e.huffman_tables == e0.huffman_tables { lemma_complete_covers(e, i, b[i]); }
    }
    assert(b =~= e.all_blocks(image, *q));
}
pub proof fn lemma_plane_blocks<W: JfifWrite, I: ImageBuffer>(e: &Encoder<W>, image: &I, q: &[QuantizationTable; 2], i: int)
    requires e.seq_ready(image, q), 0 <= i < e.components@.len()
    ensures 0 < e.comp_blocks(image, *q, i).len() <= 67108864
{
    let (h, v) = factors(e.sampling_factor);
    let m = max_factors(image.i_color(), h, v);
    lemma_comp_factors(e.components@, image.i_color(), h, v, i);
    let c = e.components@[i];
    lemma_plane_cols(image.i_width() as int, c.horizontal_sampling_factor as int, m.0);
    lemma_plane_cols(image.i_height() as int, c.vertical_sampling_factor as int, m.1);
    let cols = plane_cols(image.i_width() as int, c.horizontal_sampling_factor as int, m.0);
    let rows = plane_cols(image.i_height() as int, c.vertical_sampling_factor as int, m.1);
    lemma_plane_most(image.i_width() as int, c.horizontal_sampling_factor as int, m.0);
    lemma_plane_most(image.i_height() as int, c.vertical_sampling_factor as int, m.1);
    assert(1 <= cols * rows <= 67108864) by (nonlinear_arith) requires 1 <= cols <= 8192, 1 <= rows <= 8192;
}
pub proof fn lemma_plane_most(w: int, f: int, m: int)
    requires 1 <= w <= 65535, f == 1 || f == m, m == 1 || m == 2 || m == 4
    ensures plane_cols(w, f, m) <= 8192
{
    lemma_plane_cols(w, f, m);
    lemma_ceil_div(w, 8);
    lemma_ceil_div(ceil_div_(w, 8), m / f);
}
/// the factors of a component divide the largest ones
pub proof fn lemma_comp_factors(c: Seq<Component>, color: JpegColorType, h: int, v: int, i: int)
    requires c == comps_of(color, h, v), h == 1 || h == 2 || h == 4, v == 1 || v == 2 || v == 4, 0 <= i < c.len()
    ensures ({
        let m = max_factors(color, h, v);
        &&& (c[i].horizontal_sampling_factor == 1 || c[i].horizontal_sampling_factor == m.0)
        &&& (c[i].vertical_sampling_factor == 1 || c[i].vertical_sampling_factor == m.1)
        &&& (m.0 == 1 || m.0 == 2 || m.0 == 4) && (m.1 == 1 || m.1 == 2 || m.1 == 4)
        &&& c[i].quantization_table < 2 && c[i].dc_huffman_table < 2 && c[i].ac_huffman_table < 2
    })
{
}
pub proof fn lemma_plane_cols(w: int, f: int, m: int)
    requires 1 <= w, f == 1 || f == m, m == 1 || m == 2 || m == 4
    ensures
        plane_cols(w, f, m) >= 1, (m / f) * f == m, m / f == 1 || m / f == 2 || m / f == 4,
        plane_cols(w, f, m) == ceil_div_(ceil_div_(w, 8), m / f), plane_cols(w, f, m) == ceil_div_(w, 8 * (m / f)),
        plane_cols(w, f, m) * 8 * (m / f) <= 8 * m * ceil_div_(w, 8 * m),
{
    if m == 1 { lemma_plane_1(w); } else if m == 2 { if f == 1 { lemma_plane_2(w); } else { lemma_plane_same2(w); } }
    else { if f == 1 { lemma_plane_4(w); } else { lemma_plane_same4(w); } }
    let c = plane_cols(w, f, m);
    let e = ceil_div_(w, 8 * m);
    let h = m / f;
    assert(ceil_div_(ceil_div_(w, 8), h) == ceil_div_(w, 8 * h)) by {
        if h == 1 { assert(ceil_div_(w, 8) == (w + 7) / 8); }
        else if h == 2 { assert(((w + 7) / 8 + 1) / 2 == (w + 15) / 16); }
        else { assert(((w + 7) / 8 + 3) / 4 == (w + 31) / 32); }
    }
    assert(h == 1 ==> c * 8 * h == 8 * c) by (nonlinear_arith);
    assert(h == 2 ==> c * 8 * h == 16 * c) by (nonlinear_arith);
    assert(h == 4 ==> c * 8 * h == 32 * c) by (nonlinear_arith);
    assert(m == 1 ==> 8 * m * e == 8 * e) by (nonlinear_arith);
    assert(m == 2 ==> 8 * m * e == 16 * e) by (nonlinear_arith);
    assert(m == 4 ==> 8 * m * e == 32 * e) by (nonlinear_arith);
}
proof fn lemma_plane_1(w: int) requires 1 <= w
    ensures ({ let c = plane_cols(w, 1, 1); c >= 1 && c == ceil_div_(ceil_div_(w, 8), 1) && 8 * c <= 8 * ceil_div_(w, 8) }), 1int / 1 == 1
{
    assert(ceil_div_(w, 8) == (w + 7) / 8);
    assert(ceil_div_(w, 8) == (w + 7) / 8);
    assert(ceil_div_(w * 1, 1) == (w * 1 + 0) / 1);
    assert(plane_cols(w, 1, 1) == ((w * 1 + 0) / 1 + 7) / 8);
    assert(ceil_div_(ceil_div_(w, 8), 1) == ((w + 7) / 8 + 0) / 1);
}
proof fn lemma_plane_2(w: int) requires 1 <= w
    ensures ({ let c = plane_cols(w, 1, 2); c >= 1 && c == ceil_div_(ceil_div_(w, 8), 2) && 16 * c <= 16 * ceil_div_(w, 16) }), 2int / 1 == 2
{
    assert(ceil_div_(w, 8) == (w + 7) / 8);
    assert(ceil_div_(w, 16) == (w + 15) / 16);
    assert(ceil_div_(w * 1, 2) == (w * 1 + 1) / 2);
    assert(plane_cols(w, 1, 2) == ((w * 1 + 1) / 2 + 7) / 8);
    assert(ceil_div_(ceil_div_(w, 8), 2) == ((w + 7) / 8 + 1) / 2);
}
proof fn lemma_plane_same2(w: int) requires 1 <= w
    ensures ({ let c = plane_cols(w, 2, 2); c >= 1 && c == ceil_div_(ceil_div_(w, 8), 1) && 8 * c <= 16 * ceil_div_(w, 16) }), 2int / 2 == 1
{
    let c = (w + 7) / 8;
    let e = (w + 15) / 16;
    assert(ceil_div_(w, 8) == c && ceil_div_(w, 16) == e);
    assert(ceil_div_(w * 2, 2) == (w * 2 + 1) / 2 && (w * 2 + 1) / 2 == w);
    assert(ceil_div_(c, 1) == c / 1 && c / 1 == c);
    assert(8 * c <= w + 7 && w <= 16 * e && w + 7 < 8 * c + 8);
    assert(8 * c < 8 * (2 * e + 1)); assert(c < 2 * e + 1); assert(c <= 2 * e);
    assert(8 * c <= 16 * e);
}
proof fn lemma_plane_4(w: int) requires 1 <= w
    ensures ({ let c = plane_cols(w, 1, 4); c >= 1 && c == ceil_div_(ceil_div_(w, 8), 4) && 32 * c <= 32 * ceil_div_(w, 32) }), 4int / 1 == 4
{
    assert(ceil_div_(w, 8) == (w + 7) / 8);
    assert(ceil_div_(w, 32) == (w + 31) / 32);
    assert(ceil_div_(w * 1, 4) == (w * 1 + 3) / 4);
    assert(plane_cols(w, 1, 4) == ((w * 1 + 3) / 4 + 7) / 8);
    assert(ceil_div_(ceil_div_(w, 8), 4) == ((w + 7) / 8 + 3) / 4);
}
proof fn lemma_plane_same4(w: int) requires 1 <= w
    ensures ({ let c = plane_cols(w, 4, 4); c >= 1 && c == ceil_div_(ceil_div_(w, 8), 1) && 8 * c <= 32 * ceil_div_(w, 32) }), 4int / 4 == 1
{
    let c = (w + 7) / 8;
    let e = (w + 31) / 32;
    assert(ceil_div_(w, 8) == c && ceil_div_(w, 32) == e);
    assert(ceil_div_(w * 4, 4) == (w * 4 + 3) / 4 && (w * 4 + 3) / 4 == w);
    assert(ceil_div_(c, 1) == c / 1 && c / 1 == c);
    assert(8 * c <= w + 7 && w <= 32 * e && w + 7 < 8 * c + 8);
    assert(8 * c < 8 * (4 * e + 1)); assert(c < 4 * e + 1); assert(c <= 4 * e);
    assert(8 * c <= 32 * e);
}
pub proof fn lemma_complete_covers<W: JfifWrite>(e: &Encoder<W>, i: int, b: Seq<Seq<i16>>)
    requires
        0 <= i < e.components@.len(), e.components@[i].dc_huffman_table < 2, e.components@[i].ac_huffman_table < 2,
        e.tables_complete(), blks_ok(b), match e.progressive_scans { Some(m) => 2 <= m <= 64, None => true },
    ensures e.covers(i, b)
{
    reveal(dc_covered); reveal(ac_covered);
    let n = e.interval();
    assert forall|k: int| 0 <= k < b.len() implies e.dc_of(i).has(ssss((#[trigger] b[k])[0] - pred1(b, n, k)) as u8) && ac_coded(&e.ac_of(i), b[k], 1, 64) by {
        let p = pred1(b, n, k);
        assert(blk_ok(b[k]));
        if istart(n, k) != k {
            if k == 0 { lemma_to_go(n, 0); }
            assert(blk_ok(b[k - 1]));
        }
        lemma_complete(&e.dc_of(i), &e.ac_of(i), b[k], p, 1, 64);
    }
    match e.progressive_scans {
        Some(m) => {
            assert forall|s: int| 0 <= s < m - 1 implies ac_covered(&e.ac_of(i), b, #[trigger] band_start(m - 1, s), band_start(m - 1, s + 1)) by {
                lemma_band(m - 1, s);
                assert forall|k: int| 0 <= k < b.len() implies ac_coded(&e.ac_of(i), #[trigger] b[k], band_start(m - 1, s), band_start(m - 1, s + 1)) by {
                    lemma_complete(&e.dc_of(i), &e.ac_of(i), b[k], 0, band_start(m - 1, s), band_start(m - 1, s + 1));
                }
            }
        }
        None => {}
    }
}
//@ fn Encoder::encode_image_progressive
    requires
        old(self).seq_ready(&image, q_tables), old(self).progressive_scans == Some(scans), 2 <= scans <= 64,
    ensures errors_kept(res is Err, old(self).writer.w.failed(), final(self).writer.w.failed()),
        *final(self) == (Encoder { writer: final(self).writer, huffman_tables: final(self).huffman_tables, ..*old(self) }),
        !old(self).optimize_huffman_table ==> final(self).huffman_tables == old(self).huffman_tables,
        final(self).tables_ok(),
        res is Ok ==> final(self).writer.fresh(),
        res is Ok ==> final(self).writer.out() == old(self).writer.out() + final(self).frame(&image, *q_tables)
            + scans_bytes(final(self).dc_scans(final(self).all_blocks(&image, *q_tables)), final(self).interval(), final(self).components@.len() as int)
            + final(self).band_scans(final(self).all_blocks(&image, *q_tables), scans - 1, scans - 1),
//@ at start
let ghost m = scans - 1;
//@ after let blocks = self.encode_blocks
let ghost b = old(self).all_blocks(&image, *q_tables);
proof {
    assert forall|i: int| 0 <= i < self.components@.len() implies blks_ok(views((#[trigger] blocks[i])@)) && 0 < blocks[i]@.len() <= 67108864 by {
        lemma_plane_blocks(self, &image, q_tables, i);
        assert(views(blocks[i]@).len() == blocks[i]@.len());
    }
}
//@ before self.write_frame_header
let ghost sm = *self;
proof {
    lemma_blocks_for(old(self), self, &image, q_tables, blocks@, b);
    lemma_comps(self.components@, image.i_color(), factors(self.sampling_factor).0, factors(self.sampling_factor).1);
}
//@ loop 0 before
let ghost s1 = *self;
let ghost n = self.interval();
let ghost base = self.writer.out();
let ghost scans1 = self.dc_scans(b);
proof {
    reveal(scans_bytes);
    assert(base + scans_bytes(scans1, n, 0) =~= base);
    lemma_blocks_same(&sm, self, blocks@, b);
}
//@ loop 0
    invariant
        self.writer.w.failed() == old(self).writer.w.failed(),
        0 <= n, n == s1.interval(), s1.progressive_scans == Some(scans), __s0@ == s1.components@,
        s1 == (Encoder { writer: s1.writer, huffman_tables: s1.huffman_tables, ..*old(self) }),
        !old(self).optimize_huffman_table ==> s1.huffman_tables == old(self).huffman_tables,
        *self == (Encoder { writer: self.writer, ..s1 }), s1.tables_ok(),
        self.writer.fresh(), scans1 == s1.dc_scans(b), blocks_for(&s1, blocks@, b), s1.components@.len() <= 4,
        self.writer.out() == base + scans_bytes(scans1, n, __k0 as int),
//@ loop 0 start
let ghost out0 = self.writer.out();
let ghost c = __k0 as int;
proof { lemma_comp_ready(&s1, blocks@, b, c); }
//@ loop 1 before
let ghost out1 = self.writer.out();
let ghost bi = b[c];
let ghost part = Part { dc: s1.dc_of(c), ac: s1.ac_of(c), blocks: bi, per: 1, ss: 0, se: 0 };
let ghost ps = seq![part];
let ghost scan = Scan { sos: seg(Marker::SOS, sos_payload(seq![&s1.components@[c]], 0, 0)), parts: ps, total: bi.len() as int };
proof {
    assert([component]@ =~= seq![&s1.components@[c]]);
    assert(scans1[c] == scan && out1 == out0 + scan.sos && c < scans1.len()) by { reveal(Encoder::dc_scans); }
    lemma_scan_start(&self.writer, ps, n); lemma_to_go(n, 0); assert(nrst(n, 0) == 0 && to_go(n, 0) == n) by { reveal(nrst); reveal(to_go); }
    reveal(Encoder::covers);
}
//@ loop 1
    invariant
        self.writer.w.failed() == old(self).writer.w.failed(),
        n == restart_interval as int, n == s1.interval(),
        s1 == (Encoder { writer: s1.writer, huffman_tables: s1.huffman_tables, ..*old(self) }),
        !old(self).optimize_huffman_table ==> s1.huffman_tables == old(self).huffman_tables,
        *self == (Encoder { writer: self.writer, ..s1 }), s1.tables_ok(),
        __s1@ == blocks[c]@, views(__s1@) == bi, blks_ok(bi), i == c, 0 <= c < s1.components@.len(), c < 4, *component == s1.components@[c],
        component.dc_huffman_table < 2, component.ac_huffman_table < 2,
        part.dc == s1.dc_of(c), part.ac == s1.ac_of(c), part.blocks == bi, part.per == 1, part.ss == 0, part.se == 0, ps == seq![part],
        part.dc.codes_fit(), part.ac.codes_fit(), dc_covered(&part.dc, bi, n),
        prev_dc == if __k1 == 0 { 0 } else { bi[__k1 - 1][0] as int },
        0 <= restarts < 8, restarts == nrst(n, __k1 as int) % 8,
        n > 0 ==> restarts_to_go == to_go(n, __k1 as int),
        self.writer.wf(), scan_at(&self.writer, out1, ps, n, __k1 as int),
//@ loop 1 start
let ghost k = __k1 as int;
let ghost w0 = self.writer;
proof {
    lemma_to_go(n, k); lemma_to_go(n, k + 1); lemma_pred1(part, n, k); lemma_one_block(part, n, k); lemma_dc_block(part, n, k);
    assert(bi[k] == block@); lemma_and7();
    lemma_dc_covered(&part.dc, bi, n, k);
    assert(pred(part, n, k) == pred1(bi, n, k)) by { reveal(pred1); reveal(istart); }
}
//@ after self.writer.finalize_bit_buffer
let ghost wf = self.writer;
//@ after self.writer.write_marker
proof { lemma_restart(&w0, &wf, &self.writer, out1, ps, n, k); }
//@ before self.writer.write_dc
let ghost w1 = self.writer;
proof { if n == 0 || to_go(n, k) != 0 { lemma_step(&w1, out1, ps, n, k); } }
//@ after self.writer.write_dc
proof { lemma_unit(&w1, &self.writer, out1, ps, n, k); }
//@ loop 1 after
let ghost w2 = self.writer;
//@ loop 0 end
proof {
    lemma_scan_end(&w2, &self.writer, out0, scan, n);
    lemma_scans_step(out0, base, scans1, n, c);
}
//@ loop 2 before
let ghost base2 = self.writer.out();
proof {
    reveal(Encoder::band_scans);
    assert(base2 + s1.band_scans(b, m, 0) =~= base2);
    assert(scans1.len() == s1.components@.len()) by { reveal(Encoder::dc_scans); }
    lemma_band(m, 0);
}
//@ loop 2
    invariant
        self.writer.w.failed() == old(self).writer.w.failed(),
        0 <= n, n == s1.interval(), s1.progressive_scans is Some, s1.progressive_scans->Some_0 == m + 1, m == scans, 1 <= scans <= 63,
        values_per_scan == 63int / m, 1 <= values_per_scan <= 63,
        s1 == (Encoder { writer: s1.writer, huffman_tables: s1.huffman_tables, ..*old(self) }),
        !old(self).optimize_huffman_table ==> s1.huffman_tables == old(self).huffman_tables,
        *self == (Encoder { writer: self.writer, ..s1 }), s1.tables_ok(),
        self.writer.fresh(), blocks_for(&s1, blocks@, b), s1.components@.len() <= 4,
        self.writer.out() == base2 + s1.band_scans(b, m, scan as int),
//@ loop 2 start
proof { lemma_band(m, scan as int); }
//@ loop 3 before
let ghost base3 = self.writer.out();
let ghost scans3 = s1.ac_scans(b, start as int, end as int);
proof {
    reveal(scans_bytes);
    assert(base3 + scans_bytes(scans3, n, 0) =~= base3);
    assert(start == band_start(m, scan as int) && end == band_start(m, scan + 1)) by { reveal(band_start); }
}
//@ loop 3
    invariant
        self.writer.w.failed() == old(self).writer.w.failed(),
        0 <= n, n == s1.interval(), __s3@ == s1.components@, s1.progressive_scans is Some, s1.progressive_scans->Some_0 == m + 1, 1 <= m <= 63,
        0 <= scan < m, 1 <= start < end <= 64, start == band_start(m, scan as int), end == band_start(m, scan + 1),
        s1 == (Encoder { writer: s1.writer, huffman_tables: s1.huffman_tables, ..*old(self) }),
        !old(self).optimize_huffman_table ==> s1.huffman_tables == old(self).huffman_tables,
        *self == (Encoder { writer: self.writer, ..s1 }), s1.tables_ok(),
        self.writer.fresh(), scans3 == s1.ac_scans(b, start as int, end as int), blocks_for(&s1, blocks@, b), s1.components@.len() <= 4,
        self.writer.out() == base3 + scans_bytes(scans3, n, __k3 as int),
//@ loop 3 start
let ghost out0 = self.writer.out();
let ghost c = __k3 as int;
proof { lemma_comp_ready(&s1, blocks@, b, c); }
//@ loop 4 before
let ghost out1 = self.writer.out();
let ghost bi = b[c];
let ghost part = Part { dc: s1.dc_of(c), ac: s1.ac_of(c), blocks: bi, per: 1, ss: start as int, se: end - 1 };
let ghost ps = seq![part];
let ghost scan_ = Scan { sos: seg(Marker::SOS, sos_payload(seq![&s1.components@[c]], start as u8, (end - 1) as u8)), parts: ps, total: bi.len() as int };
proof {
    assert([component]@ =~= seq![&s1.components@[c]]);
    assert(scans3[c] == scan_ && out1 == out0 + scan_.sos && c < scans3.len()) by { reveal(Encoder::ac_scans); }
    lemma_scan_start(&self.writer, ps, n); lemma_to_go(n, 0); assert(nrst(n, 0) == 0 && to_go(n, 0) == n) by { reveal(nrst); reveal(to_go); }
    reveal(Encoder::covers);
    let mm = s1.progressive_scans->Some_0;
    assert(mm - 1 == m);
    assert(ac_covered(&part.ac, bi, band_start(mm - 1, scan as int), band_start(mm - 1, scan + 1)));
}
//@ loop 4
    invariant
        self.writer.w.failed() == old(self).writer.w.failed(),
        n == restart_interval as int, n == s1.interval(),
        s1 == (Encoder { writer: s1.writer, huffman_tables: s1.huffman_tables, ..*old(self) }),
        !old(self).optimize_huffman_table ==> s1.huffman_tables == old(self).huffman_tables,
        *self == (Encoder { writer: self.writer, ..s1 }), s1.tables_ok(),
        __s4@ == blocks[c]@, views(__s4@) == bi, blks_ok(bi), i == c, 0 <= c < s1.components@.len(), c < 4, *component == s1.components@[c],
        component.dc_huffman_table < 2, component.ac_huffman_table < 2, 1 <= start < end <= 64,
        part.dc == s1.dc_of(c), part.ac == s1.ac_of(c), part.blocks == bi, part.per == 1, part.ss == start, part.se == end - 1, ps == seq![part],
        part.dc.codes_fit(), part.ac.codes_fit(), ac_covered(&part.ac, bi, start as int, end as int),
        0 <= restarts < 8, restarts == nrst(n, __k4 as int) % 8,
        n > 0 ==> restarts_to_go == to_go(n, __k4 as int),
        self.writer.wf(), scan_at(&self.writer, out1, ps, n, __k4 as int),
//@ loop 4 start
let ghost k = __k4 as int;
let ghost w0 = self.writer;
proof {
    lemma_to_go(n, k); lemma_to_go(n, k + 1); lemma_one_block(part, n, k); lemma_ac_block(part, n, k);
    assert(bi[k] == block@); lemma_and7();
    lemma_ac_covered(&part.ac, bi, k, start as int, end as int);
}
//@ after #2 self.writer.finalize_bit_buffer
let ghost wf = self.writer;
//@ after #1 self.writer.write_marker
proof { lemma_restart(&w0, &wf, &self.writer, out1, ps, n, k); }
//@ before self.writer.write_ac_block
let ghost w1 = self.writer;
proof { if n == 0 || to_go(n, k) != 0 { lemma_step(&w1, out1, ps, n, k); } }
//@ after self.writer.write_ac_block
proof { lemma_unit(&w1, &self.writer, out1, ps, n, k); }
//@ loop 4 after
let ghost w2 = self.writer;
//@ loop 3 end
proof {
    lemma_scan_end(&w2, &self.writer, out0, scan_, n);
    lemma_scans_step(out0, base3, scans3, n, c);
}
//@ loop 2 end
proof { lemma_band_step(&s1, self.writer.out(), base2, base3, b, m, scan as int); }
//@ at end
proof {
    if __vx_r is Ok {
        assert(self.all_blocks(&image, *q_tables) =~= b);
        reveal(Encoder::dc_scans);
        assert(self.dc_scans(b) =~= scans1);
        lemma_bands_same(&s1, self, b, m, m);
    }
}
//@ extra mod
pub proof fn lemma_dc_covered(dc: &HuffmanTable, b: Seq<Seq<i16>>, n: int, k: int)
    requires dc_covered(dc, b, n), 0 <= k < b.len(), blks_ok(b)
    ensures dc.has(ssss(b[k][0] - pred1(b, n, k)) as u8), -1024 <= b[k][0] <= 1016, k > 0 ==> -1024 <= b[k - 1][0] <= 1016
{
    reveal(dc_covered); reveal(ac_covered);
    if k > 0 { assert(blk_ok(b[k - 1])); }
}
pub proof fn lemma_ac_covered(ac: &HuffmanTable, b: Seq<Seq<i16>>, k: int, start: int, end: int)
    requires ac_covered(ac, b, start, end), 0 <= k < b.len(), blks_ok(b)
    ensures ac_coded(ac, b[k], start, end), coefs_ok(b[k])
{
    reveal(dc_covered); reveal(ac_covered);
}
/// the bands are not empty and lie within 1..63
pub proof fn lemma_band(m: int, s: int)
    requires 1 <= m <= 63, 0 <= s < m
    ensures 1 <= band_start(m, s) < band_start(m, s + 1) <= 64, 0 <= s * (63int / m) <= 62, s * (63int / m) + 63int / m <= 63, 1 <= 63int / m <= 63,
        s + 1 < m ==> band_start(m, s + 1) == band_start(m, s) + 63int / m,
{
    let v = 63int / m;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(63, m);
    assert(1 <= v) by (nonlinear_arith) requires 63 == m * v + 63int % m, 0 <= 63int % m < m, 1 <= m <= 63;
    assert(v <= 63) by (nonlinear_arith) requires 63 == m * v + 63int % m, 0 <= 63int % m < m, 1 <= m <= 63;
    assert(s * v + v <= m * v) by (nonlinear_arith) requires s + 1 <= m, v >= 1;
    assert((s + 1) * v == s * v + v) by (nonlinear_arith);
    assert(0 <= s * v) by (nonlinear_arith) requires 0 <= s, v >= 1;
}
pub proof fn lemma_band_step<W: JfifWrite>(e: &Encoder<W>, out: Seq<u8>, base: Seq<u8>, base3: Seq<u8>, b: Seq<Seq<Seq<i16>>>, m: int, s: int)
    requires
        0 <= s, base3 == base + e.band_scans(b, m, s),
        out == base3 + scans_bytes(e.ac_scans(b, band_start(m, s), band_start(m, s + 1)), e.interval(), e.components@.len() as int),
    ensures out == base + e.band_scans(b, m, s + 1)
{
    assert(out =~= base + e.band_scans(b, m, s + 1));
}
pub proof fn lemma_bands_same<W: JfifWrite>(e: &Encoder<W>, e2: &Encoder<W>, b: Seq<Seq<Seq<i16>>>, m: int, k: int)
    requires *e2 == (Encoder { writer: e2.writer, ..*e })
    ensures e.band_scans(b, m, k) == e2.band_scans(b, m, k)
    decreases k
{
    if k > 0 {
        lemma_bands_same(e, e2, b, m, k - 1);
        assert(e.ac_scans(b, band_start(m, k - 1), band_start(m, k)) =~= e2.ac_scans(b, band_start(m, k - 1), band_start(m, k)));
    }
}
