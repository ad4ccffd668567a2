// Trusted: what the AVX2 instructions compute (Intel intrinsics guide), over two views of a 256-bit
// register. Cases that wrap around are left unspecified, so every use has to show that it does not wrap.
use core::arch::x86_64::*;

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExM256i(__m256i);

/// the register as 16 signed words, lowest first
pub uninterp spec fn w16(v: __m256i) -> Seq<i16>;
/// the register as 8 signed doublewords, lowest first
pub uninterp spec fn d32(v: __m256i) -> Seq<i32>;
pub open spec fn fits16(x: int) -> bool { -32768 <= x <= 32767 }
pub open spec fn fits32(x: int) -> bool { -0x8000_0000 <= x <= 0x7fff_ffff }
pub open spec fn sat16(x: int) -> int { if x < -32768 { -32768 } else if x > 32767 { 32767 } else { x } }
pub open spec fn p2(k: int) -> int {
    if k <= 0 { 1 } else if k == 1 { 2 } else if k == 2 { 4 } else if k == 3 { 8 } else if k == 4 { 16 } else if k == 5 { 32 } else if k == 6 { 64 } else if k == 7 { 128 }
    else if k == 8 { 256 } else if k == 9 { 512 } else if k == 10 { 1024 } else if k == 11 { 2048 } else if k == 12 { 4096 } else if k == 13 { 8192 } else if k == 14 { 16384 }
    else if k == 15 { 32768 } else if k == 16 { 65536 } else { vstd::arithmetic::power2::pow2(k as nat) as int }
}
/// word i of half `sel` of the pair (a, b); bit 3 of the selector clears
pub open spec fn half128(a: __m256i, b: __m256i, sel: int, i: int) -> i16 {
    if sel >= 8 { 0 } else if sel == 0 || sel == 4 { w16(a)[i] } else if sel == 1 || sel == 5 { w16(a)[8 + i] } else if sel == 2 || sel == 6 { w16(b)[i] } else { w16(b)[8 + i] }
}

#[verifier::opaque]
pub open spec fn is_add_epi16(a: __m256i, b: __m256i, r: __m256i) -> bool {
    forall|i: int| 0 <= i < 16 && fits16(w16(a)[i] + w16(b)[i]) ==> #[trigger] w16(r)[i] == w16(a)[i] + w16(b)[i]
}
pub assume_specification[ core::arch::x86_64::_mm256_add_epi16 ](a: __m256i, b: __m256i) -> (r: __m256i)
    ensures is_add_epi16(a, b, r);
#[verifier::opaque]
pub open spec fn is_sub_epi16(a: __m256i, b: __m256i, r: __m256i) -> bool {
    forall|i: int| 0 <= i < 16 && fits16(w16(a)[i] - w16(b)[i]) ==> #[trigger] w16(r)[i] == w16(a)[i] - w16(b)[i]
}
pub assume_specification[ core::arch::x86_64::_mm256_sub_epi16 ](a: __m256i, b: __m256i) -> (r: __m256i)
    ensures is_sub_epi16(a, b, r);
#[verifier::opaque]
pub open spec fn is_add_epi32(a: __m256i, b: __m256i, r: __m256i) -> bool {
    forall|i: int| 0 <= i < 8 && fits32(d32(a)[i] + d32(b)[i]) ==> #[trigger] d32(r)[i] == d32(a)[i] + d32(b)[i]
}
pub assume_specification[ core::arch::x86_64::_mm256_add_epi32 ](a: __m256i, b: __m256i) -> (r: __m256i)
    ensures is_add_epi32(a, b, r);
#[verifier::opaque]
pub open spec fn is_sub_epi32(a: __m256i, b: __m256i, r: __m256i) -> bool {
    forall|i: int| 0 <= i < 8 && fits32(d32(a)[i] - d32(b)[i]) ==> #[trigger] d32(r)[i] == d32(a)[i] - d32(b)[i]
}
pub assume_specification[ core::arch::x86_64::_mm256_sub_epi32 ](a: __m256i, b: __m256i) -> (r: __m256i)
    ensures is_sub_epi32(a, b, r);
#[verifier::opaque]
pub open spec fn is_mullo_epi32(a: __m256i, b: __m256i, r: __m256i) -> bool {
    forall|i: int| 0 <= i < 8 && fits32(d32(a)[i] * d32(b)[i]) ==> #[trigger] d32(r)[i] == d32(a)[i] * d32(b)[i]
}
pub assume_specification[ core::arch::x86_64::_mm256_mullo_epi32 ](a: __m256i, b: __m256i) -> (r: __m256i)
    ensures is_mullo_epi32(a, b, r);
/// products of neighbouring words, added
#[verifier::opaque]
pub open spec fn is_madd_epi16(a: __m256i, b: __m256i, r: __m256i) -> bool {
    forall|i: int| 0 <= i < 8 && fits32(w16(a)[2 * i] * w16(b)[2 * i] + w16(a)[2 * i + 1] * w16(b)[2 * i + 1])
        ==> #[trigger] d32(r)[i] == w16(a)[2 * i] * w16(b)[2 * i] + w16(a)[2 * i + 1] * w16(b)[2 * i + 1]
}
pub assume_specification[ core::arch::x86_64::_mm256_madd_epi16 ](a: __m256i, b: __m256i) -> (r: __m256i)
    ensures is_madd_epi16(a, b, r);
#[verifier::opaque]
pub open spec fn is_packs_epi32(a: __m256i, b: __m256i, r: __m256i) -> bool {
    forall|i: int| 0 <= i < 16 ==> #[trigger] w16(r)[i] == sat16(
        if i < 4 { d32(a)[i] } else if i < 8 { d32(b)[i - 4] } else if i < 12 { d32(a)[i - 4] } else { d32(b)[i - 8] } as int)
}
pub assume_specification[ core::arch::x86_64::_mm256_packs_epi32 ](a: __m256i, b: __m256i) -> (r: __m256i)
    ensures is_packs_epi32(a, b, r);
#[verifier::opaque]
pub open spec fn is_permute2x128_si256(a: __m256i, b: __m256i, imm: int, r: __m256i) -> bool {
    0 <= imm <= 255 ==> forall|i: int| 0 <= i < 16 ==> #[trigger] w16(r)[i] == half128(a, b, if i < 8 { imm % 16 } else { imm / 16 }, i % 8)
}
pub assume_specification<const IMM8: i32>[ core::arch::x86_64::_mm256_permute2x128_si256::<IMM8> ](a: __m256i, b: __m256i) -> (r: __m256i)
    ensures is_permute2x128_si256(a, b, IMM8 as int, r);
#[verifier::opaque]
pub open spec fn is_permute4x64_epi64(a: __m256i, imm: int, r: __m256i) -> bool {
    0 <= imm <= 255 ==> forall|i: int| 0 <= i < 16 ==> #[trigger] w16(r)[i]
        == w16(a)[4 * ((if i < 4 { imm } else if i < 8 { imm / 4 } else if i < 12 { imm / 16 } else { imm / 64 }) % 4) + i % 4]
}
pub assume_specification<const IMM8: i32>[ core::arch::x86_64::_mm256_permute4x64_epi64::<IMM8> ](a: __m256i) -> (r: __m256i)
    ensures is_permute4x64_epi64(a, IMM8 as int, r);
#[verifier::opaque]
pub open spec fn is_unpacklo_epi16(a: __m256i, b: __m256i, r: __m256i) -> bool {
    forall|i: int| 0 <= i < 16 ==> #[trigger] w16(r)[i] == w16(if i % 2 == 0 { a } else { b })[i / 8 * 8 + i % 8 / 2]
}
pub assume_specification[ core::arch::x86_64::_mm256_unpacklo_epi16 ](a: __m256i, b: __m256i) -> (r: __m256i)
    ensures is_unpacklo_epi16(a, b, r);
#[verifier::opaque]
pub open spec fn is_unpackhi_epi16(a: __m256i, b: __m256i, r: __m256i) -> bool {
    forall|i: int| 0 <= i < 16 ==> #[trigger] w16(r)[i] == w16(if i % 2 == 0 { a } else { b })[i / 8 * 8 + 4 + i % 8 / 2]
}
pub assume_specification[ core::arch::x86_64::_mm256_unpackhi_epi16 ](a: __m256i, b: __m256i) -> (r: __m256i)
    ensures is_unpackhi_epi16(a, b, r);
#[verifier::opaque]
pub open spec fn is_unpacklo_epi32(a: __m256i, b: __m256i, r: __m256i) -> bool {
    forall|i: int| 0 <= i < 16 ==> #[trigger] w16(r)[i] == w16(if i % 4 < 2 { a } else { b })[i / 8 * 8 + i % 8 / 4 * 2 + i % 2]
}
pub assume_specification[ core::arch::x86_64::_mm256_unpacklo_epi32 ](a: __m256i, b: __m256i) -> (r: __m256i)
    ensures is_unpacklo_epi32(a, b, r);
#[verifier::opaque]
pub open spec fn is_unpackhi_epi32(a: __m256i, b: __m256i, r: __m256i) -> bool {
    forall|i: int| 0 <= i < 16 ==> #[trigger] w16(r)[i] == w16(if i % 4 < 2 { a } else { b })[i / 8 * 8 + 4 + i % 8 / 4 * 2 + i % 2]
}
pub assume_specification[ core::arch::x86_64::_mm256_unpackhi_epi32 ](a: __m256i, b: __m256i) -> (r: __m256i)
    ensures is_unpackhi_epi32(a, b, r);
#[verifier::opaque]
pub open spec fn is_sign_epi16(a: __m256i, b: __m256i, r: __m256i) -> bool {
    forall|i: int| 0 <= i < 16 && w16(a)[i] != i16::MIN ==> #[trigger] w16(r)[i]
        == if w16(b)[i] < 0 { -w16(a)[i] } else if w16(b)[i] == 0 { 0 } else { w16(a)[i] as int }
}
pub assume_specification[ core::arch::x86_64::_mm256_sign_epi16 ](a: __m256i, b: __m256i) -> (r: __m256i)
    ensures is_sign_epi16(a, b, r);
#[verifier::opaque]
pub open spec fn is_slli_epi16(a: __m256i, imm: int, r: __m256i) -> bool {
    0 <= imm <= 15 ==> forall|i: int| 0 <= i < 16 && fits16(w16(a)[i] * p2(imm)) ==> #[trigger] w16(r)[i] == w16(a)[i] * p2(imm)
}
pub assume_specification<const IMM8: i32>[ core::arch::x86_64::_mm256_slli_epi16::<IMM8> ](a: __m256i) -> (r: __m256i)
    ensures is_slli_epi16(a, IMM8 as int, r);
#[verifier::opaque]
pub open spec fn is_srai_epi16(a: __m256i, imm: int, r: __m256i) -> bool {
    0 <= imm <= 15 ==> forall|i: int| 0 <= i < 16 ==> #[trigger] w16(r)[i] == w16(a)[i] as int / p2(imm)
}
pub assume_specification<const IMM8: i32>[ core::arch::x86_64::_mm256_srai_epi16::<IMM8> ](a: __m256i) -> (r: __m256i)
    ensures is_srai_epi16(a, IMM8 as int, r);
#[verifier::opaque]
pub open spec fn is_srai_epi32(a: __m256i, imm: int, r: __m256i) -> bool {
    0 <= imm <= 31 ==> forall|i: int| 0 <= i < 8 ==> #[trigger] d32(r)[i] == d32(a)[i] as int / p2(imm)
}
pub assume_specification<const IMM8: i32>[ core::arch::x86_64::_mm256_srai_epi32::<IMM8> ](a: __m256i) -> (r: __m256i)
    ensures is_srai_epi32(a, IMM8 as int, r);
#[verifier::opaque]
pub open spec fn is_srli_epi32(a: __m256i, imm: int, r: __m256i) -> bool {
    0 <= imm <= 31 ==> forall|i: int| 0 <= i < 8 && d32(a)[i] >= 0 ==> #[trigger] d32(r)[i] == d32(a)[i] as int / p2(imm)
}
pub assume_specification<const IMM8: i32>[ core::arch::x86_64::_mm256_srli_epi32::<IMM8> ](a: __m256i) -> (r: __m256i)
    ensures is_srli_epi32(a, IMM8 as int, r);
pub assume_specification[ core::arch::x86_64::_mm256_set1_epi16 ](a: i16) -> (r: __m256i)
    ensures forall|i: int| 0 <= i < 16 ==> #[trigger] w16(r)[i] == a;
pub assume_specification[ core::arch::x86_64::_mm256_set1_epi32 ](a: i32) -> (r: __m256i)
    ensures forall|i: int| 0 <= i < 8 ==> #[trigger] d32(r)[i] == a;
pub assume_specification[ core::arch::x86_64::_mm256_set_epi16 ](e15: i16, e14: i16, e13: i16, e12: i16, e11: i16, e10: i16, e9: i16, e8: i16, e7: i16, e6: i16, e5: i16, e4: i16, e3: i16, e2: i16, e1: i16, e0: i16) -> (r: __m256i)
    ensures
        w16(r)[0] == e0, w16(r)[1] == e1, w16(r)[2] == e2, w16(r)[3] == e3, w16(r)[4] == e4, w16(r)[5] == e5, w16(r)[6] == e6, w16(r)[7] == e7,
        w16(r)[8] == e8, w16(r)[9] == e9, w16(r)[10] == e10, w16(r)[11] == e11, w16(r)[12] == e12, w16(r)[13] == e13, w16(r)[14] == e14, w16(r)[15] == e15;
pub assume_specification[ core::arch::x86_64::_mm256_set_epi32 ](e7: i32, e6: i32, e5: i32, e4: i32, e3: i32, e2: i32, e1: i32, e0: i32) -> (r: __m256i)
    ensures
        d32(r)[0] == e0, d32(r)[1] == e1, d32(r)[2] == e2, d32(r)[3] == e3, d32(r)[4] == e4, d32(r)[5] == e5, d32(r)[6] == e6, d32(r)[7] == e7;

/// is_x86_feature_detected!: either answer is possible
#[verifier::external_body]
pub exec fn vx_feature_detected() -> (r: bool) { unimplemented!() }
/// _mm256_loadu_si256 at register position p of the words s
#[verifier::external_body]
pub exec fn vx_loadu(s: &[i16; 64], p: crate::base::VxMut) -> (r: __m256i)
    requires p.i < 4
    ensures forall|i: int| 0 <= i < 16 ==> #[trigger] w16(r)[i] == s@[16 * p.i + i]
{ unimplemented!() }
/// _mm256_storeu_si256
#[verifier::external_body]
pub exec fn vx_storeu(s: &mut [i16; 64], p: crate::base::VxMut, v: __m256i)
    requires p.i < 4
    ensures forall|k: int| 0 <= k < 64 ==> #[trigger] final(s)@[k] == if 16 * p.i <= k < 16 * p.i + 16 { w16(v)[k - 16 * p.i] } else { old(s)@[k] }
{ unimplemented!() }
/// transmute::<__m256i, [i32; 8]>
#[verifier::external_body]
pub exec fn vx_i32x8(v: __m256i) -> (r: [i32; 8])
    ensures forall|i: int| 0 <= i < 8 ==> #[trigger] r@[i] == d32(v)[i]
{ unimplemented!() }
