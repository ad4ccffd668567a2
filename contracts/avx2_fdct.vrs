//@ if simd
//@ module avx2::fdct
//@ extra mod
pub use crate::simd::*;
pub use crate::spec_dct::*;
pub use crate::spec_simd::*;
//@ fn fdct_avx2
    requires px_ok(old(data)@),
    ensures final(data)@ == fdct_fn(old(data)@), dct_ok(final(data)@),
//@ fn fdct_avx2_internal
    requires px_ok(old(data)@),
    ensures final(data)@ == fdct_fn(old(data)@), dct_ok(final(data)@),
//@ after let in_data
let ghost s = data@;
//@ after let ymm7 = crate::simd::vx_loadu
let ghost (l0, l1, l2, l3) = (ymm4, ymm5, ymm6, ymm7);
//@ after let ymm3 = _mm256_permute2x128_si256(ymm5, ymm7, 0x31)
let ghost (p0, p1, p2, p3) = (ymm0, ymm1, ymm2, ymm3);
//@ after #0 let (ymm0, ymm1, ymm2, ymm3) = do_transpose
let ghost (x0, x1, x2, x3) = (ymm0, ymm1, ymm2, ymm3);
proof {
    assert forall|r: int, c: int| 0 <= r < 8 && 0 <= c < 8 implies #[trigger] mat(p0, p1, p2, p3, r, c) == s[8 * r + c] by { lemma_rows(s, l0, l1, l2, l3, p0, p1, p2, p3, r, c); }
    lemma_in1(s, p0, p1, p2, p3, x0, x1, x2, x3);
}
//@ after let (ymm0, ymm1, ymm2, ymm3) = do_dct(true
let ghost (d0, d1, d2, d3) = (ymm0, ymm1, ymm2, ymm3);
//@ after let ymm1 = _mm256_permute2x128_si256(ymm1, ymm3, 0x31)
let ghost (q1, q4) = (ymm1, ymm4);
proof {
    assert forall|r: int, c: int| 0 <= r < 8 && 0 <= c < 8 implies #[trigger] mat(d0, q1, d2, q4, r, c) == pass1(s, c, r) by {
        assert(tr_lane(p0, p1, p2, p3, x0, x1, x2, x3, c) && dct_lane(true, x0, x1, x2, x3, d0, d1, d2, d3, c));
        lemma_mid(s, p0, p1, p2, p3, x0, x1, x2, x3, d0, d1, d2, d3, q1, q4, r, c);
    }
}
//@ after let (ymm0, ymm1, ymm2, ymm4) = do_transpose
let ghost (y0, y1, y2, y4) = (ymm0, ymm1, ymm2, ymm4);
proof { lemma_in2(s, d0, q1, d2, q4, y0, y1, y2, y4); }
//@ after let (ymm0, ymm1, ymm2, ymm4) = do_dct(false
let ghost (f0, f1, f2, f4) = (ymm0, ymm1, ymm2, ymm4);
//@ after let ymm7 = _mm256_permute2x128_si256(ymm2, ymm4, 0x21)
proof {
    assert forall|u: int, x: int| 0 <= u < 8 && 0 <= x < 8 implies #[trigger] rows_of(ymm3, ymm5, ymm6, ymm7, u, x) == pass2(s, u, x) by {
        assert(tr_lane(d0, q1, d2, q4, y0, y1, y2, y4, x) && dct_lane(false, y0, y1, y2, y4, f0, f1, f2, f4, x));
        lemma_last(s, d0, q1, d2, q4, y0, y1, y2, y4, f0, f1, f2, f4, ymm3, ymm5, ymm6, ymm7, u, x);
    }
}
//@ at end
proof {
    reveal(fdct_fn);
    assert forall|i: int| 0 <= i < 64 implies data@[i] as int == pass2(s, i / 8, i % 8) && (i == 0 ==> -8192 <= data@[i] <= 8128) && (i != 0 ==> -8183 <= #[trigger] data@[i] <= 8183) by {
        lemma_p2(s, i / 8, i % 8);
        assert(rows_of(ymm3, ymm5, ymm6, ymm7, i / 8, i % 8) == pass2(s, i / 8, i % 8));
        let u = i / 8;
        assert(u == 0 || u == 1 || u == 2 || u == 3 || u == 4 || u == 5 || u == 6 || u == 7);
    }
    assert(data@ =~= fdct_fn(s));
}
//@ fn fdct_avx2_internal::PW_F130_F054_MF130_F054
    ensures forall|i: int| 0 <= i < 16 ==> #[trigger] w16(res)[i] == if i % 2 == 1 { 4433int } else if i < 8 { 10703 } else { -10704 },
//@ fn fdct_avx2_internal::PW_MF078_F117_F078_F117
    ensures forall|i: int| 0 <= i < 16 ==> #[trigger] w16(res)[i] == if i % 2 == 1 { 9633int } else if i < 8 { -6436 } else { 6437 },
//@ fn fdct_avx2_internal::PW_MF060_MF089_MF050_MF256
    ensures forall|i: int| 0 <= i < 16 ==> #[trigger] w16(res)[i] == if i < 8 { if i % 2 == 1 { -7373int } else { -4927int } } else { if i % 2 == 1 { -20995 } else { -4176 } },
//@ fn fdct_avx2_internal::PW_F050_MF256_F060_MF089
    ensures forall|i: int| 0 <= i < 16 ==> #[trigger] w16(res)[i] == if i < 8 { if i % 2 == 1 { -20995int } else { 4177int } } else { if i % 2 == 1 { -7373 } else { 4926 } },
//@ fn fdct_avx2_internal::PD_DESCALE_P
    ensures forall|i: int| 0 <= i < 8 ==> #[trigger] d32(res)[i] == if first_pass { 1024int } else { 16384int },
//@ at start
proof { assert(1i32 << 10i32 == 1024 && 1i32 << 14i32 == 16384) by (bit_vector); }
//@ fn fdct_avx2_internal::PW_DESCALE_P2X
    ensures forall|i: int| 0 <= i < 16 ==> #[trigger] w16(res)[i] == 2,
//@ at start
proof { assert(1i16 << 1i32 == 2) by (bit_vector); }
//@ fn fdct_avx2_internal::do_transpose
    ensures
        forall|j: int| 0 <= j < 8 ==> #[trigger] tr_lane(i1, i2, i3, i4, res.0, res.1, res.2, res.3, j),
//@ at start
proof { reveal(is_unpacklo_epi16); reveal(is_unpackhi_epi16); reveal(is_unpacklo_epi32); reveal(is_unpackhi_epi32); reveal(is_permute4x64_epi64); reveal(tr_lane); }
//@ fn fdct_avx2_internal::do_dct
    requires in_range(i1, first_pass), in_range(i2, first_pass), in_range(i3, first_pass), in_range(i4, first_pass),
    ensures
        forall|j: int| 0 <= j < 8 ==> #[trigger] dct_lane(first_pass, i1, i2, i3, i4, res.0, res.1, res.2, res.3, j),
//@ after let t8 = _mm256_sub_epi16(i2, i3)
let ghost (g5, g6, g7, g8) = (t5, t6, t7, t8);
proof { lemma_factors16(); }
//@ after let t6 = _mm256_permute2x128_si256(t6, t6, 0x01)
let ghost s6 = t6;
//@ after let t6 = _mm256_sub_epi16(t6, t7)
let ghost (u1, u6) = (t1, t6);
//@ after let t7 = _mm256_permute2x128_si256(t1, t1, 0x01)
let ghost v7 = t7;
//@ after let t1 = _mm256_sign_epi16
let ghost n1 = t1;
proof { assert(is_signed(u1, n1)) by { reveal(is_sign_epi16); reveal(is_signed); assert forall|i: int| 0 <= i < 16 implies i == 0 || i == 1 || i == 2 || i == 3 || i == 4 || i == 5 || i == 6 || i == 7 || i == 8 || i == 9 || i == 10 || i == 11 || i == 12 || i == 13 || i == 14 || #[trigger] sat16(i) == 15 by {} } }
//@ after let t7 = _mm256_add_epi16(t7, t1)
let ghost w7 = t7;
//@ after let t1 = if first_pass
let ghost o1 = t1;
proof { assert(is_dc(first_pass, w7, o1)) by { reveal(is_slli_epi16); reveal(is_srai_epi16); reveal(is_add_epi16); reveal(is_dc); } }
//@ after let t7 = _mm256_permute2x128_si256(t6, t6, 0x01)
let ghost q7 = t7;
//@ after let t6 = _mm256_unpackhi_epi16(t6, t7)
let ghost (el, eh) = (t2, t6);
//@ after let t6 = _mm256_madd_epi16(t6, PW_F130_F054_MF130_F054())
let ghost (eml, emh) = (t2, t6);
proof {
    assert(is_mul(el, eml, 10703, 4433, -10704, 4433)) by { reveal(is_madd_epi16); reveal(is_mul); broadcast use lemma_scale16; }
    assert(is_mul(eh, emh, 10703, 4433, -10704, 4433)) by { reveal(is_madd_epi16); reveal(is_mul); broadcast use lemma_scale16; }
}
//@ after let t6 = _mm256_add_epi32(t6, PD_DESCALE_P(first_pass))
let ghost (eal, eah) = (t2, t6);
proof {
    assert(is_plus(eml, eal, div_of(first_pass) / 2)) by { reveal(is_add_epi32); reveal(is_plus); }
    assert(is_plus(emh, eah, div_of(first_pass) / 2)) by { reveal(is_add_epi32); reveal(is_plus); }
}
//@ after let t6 = if first_pass
let ghost (esl, esh) = (t2, t6);
proof {
    assert(is_shr(eal, esl, first_pass)) by { reveal(is_srai_epi32); reveal(is_shr); }
    assert(is_shr(eah, esh, first_pass)) by { reveal(is_srai_epi32); reveal(is_shr); }
}
//@ after let t3 = _mm256_packs_epi32
let ghost o3 = t3;
//@ after let t7 = _mm256_add_epi16(t8, t5)
let ghost z7 = t7;
//@ after let t2 = _mm256_permute2x128_si256(t7, t7, 0x01)
let ghost z2 = t2;
//@ after let t7 = _mm256_unpackhi_epi16(t7, t2)
let ghost (zl, zh) = (t6, t7);
//@ after let t7 = _mm256_madd_epi16(t7, PW_MF078_F117_F078_F117())
let ghost (zml, zmh) = (t6, t7);
proof {
    assert(is_mul(zl, zml, -6436, 9633, 6437, 9633)) by { reveal(is_madd_epi16); reveal(is_mul); broadcast use lemma_scale16; }
    assert(is_mul(zh, zmh, -6436, 9633, 6437, 9633)) by { reveal(is_madd_epi16); reveal(is_mul); broadcast use lemma_scale16; }
}
//@ after let t4 = _mm256_permute2x128_si256(t5, t5, 0x01)
let ghost mq = t4;
//@ after let t4 = _mm256_unpackhi_epi16(t8, t4)
let ghost (ml, mh) = (t2, t4);
//@ after let t4 = _mm256_madd_epi16(t4, PW_MF060_MF089_MF050_MF256())
let ghost (mml, mmh) = (t2, t4);
proof {
    assert(is_mul(ml, mml, -4927, -7373, -4176, -20995)) by { reveal(is_madd_epi16); reveal(is_mul); broadcast use lemma_scale16; }
    assert(is_mul(mh, mmh, -4927, -7373, -4176, -20995)) by { reveal(is_madd_epi16); reveal(is_mul); broadcast use lemma_scale16; }
}
//@ after let t4 = _mm256_add_epi32(t4, t7)
let ghost (mxl, mxh) = (t2, t4);
//@ after let t4 = _mm256_add_epi32(t4, PD_DESCALE_P(first_pass))
let ghost (mal, mah) = (t2, t4);
proof {
    assert(is_plus(mxl, mal, div_of(first_pass) / 2)) by { reveal(is_add_epi32); reveal(is_plus); }
    assert(is_plus(mxh, mah, div_of(first_pass) / 2)) by { reveal(is_add_epi32); reveal(is_plus); }
}
//@ after let t4 = if first_pass
let ghost (msl, msh) = (t2, t4);
proof {
    assert(is_shr(mal, msl, first_pass)) by { reveal(is_srai_epi32); reveal(is_shr); }
    assert(is_shr(mah, msh, first_pass)) by { reveal(is_srai_epi32); reveal(is_shr); }
}
//@ after let t4 = _mm256_packs_epi32
let ghost o4 = t4;
//@ after let t2 = _mm256_permute2x128_si256(t8, t8, 0x01)
let ghost hq = t2;
//@ after let t5 = _mm256_unpackhi_epi16(t5, t2)
let ghost (hl, hh) = (t8, t5);
//@ after let t5 = _mm256_madd_epi16(t5, PW_F050_MF256_F060_MF089())
let ghost (hml, hmh) = (t8, t5);
proof {
    assert(is_mul(hl, hml, 4177, -20995, 4926, -7373)) by { reveal(is_madd_epi16); reveal(is_mul); broadcast use lemma_scale16; }
    assert(is_mul(hh, hmh, 4177, -20995, 4926, -7373)) by { reveal(is_madd_epi16); reveal(is_mul); broadcast use lemma_scale16; }
}
//@ after let t5 = _mm256_add_epi32(t5, t7)
let ghost (hxl, hxh) = (t8, t5);
//@ after let t5 = _mm256_add_epi32(t5, PD_DESCALE_P(first_pass))
let ghost (hal, hah) = (t8, t5);
proof {
    assert(is_plus(hxl, hal, div_of(first_pass) / 2)) by { reveal(is_add_epi32); reveal(is_plus); }
    assert(is_plus(hxh, hah, div_of(first_pass) / 2)) by { reveal(is_add_epi32); reveal(is_plus); }
}
//@ after let t5 = if first_pass
let ghost (hsl, hsh) = (t8, t5);
proof {
    assert(is_shr(hal, hsl, first_pass)) by { reveal(is_srai_epi32); reveal(is_shr); }
    assert(is_shr(hah, hsh, first_pass)) by { reveal(is_srai_epi32); reveal(is_shr); }
}
//@ at end
proof {
    assert forall|j: int| 0 <= j < 8 implies #[trigger] dct_lane(first_pass, i1, i2, i3, i4, __vx_r.0, __vx_r.1, __vx_r.2, __vx_r.3, j) by {
        reveal(dct_lane);
        lemma_stage(first_pass, j, i1, i2, i3, i4, g5, g6, g7, g8, s6, u1, u6, z7);
        lemma_even0(first_pass, j, i1, i2, i3, i4, g5, g8, u1, u6, z7, v7, n1, w7, o1);
        lemma_even2(first_pass, j, i1, i2, i3, i4, g5, g8, u1, u6, z7, q7, el, eh, eml, emh, eal, eah, esl, esh, o3);
        lemma_odd75(first_pass, j, i1, i2, i3, i4, g5, g8, u1, u6, z7, z2, zl, zh, zml, zmh, mq, ml, mh, mml, mmh, mxl, mxh, mal, mah, msl, msh, o4);
        lemma_odd31(first_pass, j, i1, i2, i3, i4, g5, g8, u1, u6, z7, z2, zl, zh, zml, zmh, hq, hl, hh, hml, hmh, hxl, hxh, hal, hah, hsl, hsh, __vx_r.1);
    }
}
