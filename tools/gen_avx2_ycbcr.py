#!/usr/bin/env python3
"""Writes contracts/avx2_ycbcr.vrs: the four pixel layouts share one contract."""
T=[('RgbImage',3,0,1,2),('RgbaImage',4,0,1,2),('BgrImage',3,2,1,0),('BgraImage',4,2,1,0)]
o='''//@ module avx2::ycbcr
//@ extra mod
pub use crate::simd::*;
pub use crate::spec_simd::*;
pub use crate::image_buffer::*;
/// the first x entries of `row` have been written behind o; b already has its final length
#[verifier::opaque]
pub open spec fn row_done(o: Seq<u8>, b: Seq<u8>, row: Seq<u8>, x: int) -> bool {
    0 <= x <= row.len() && b.len() == o.len() + row.len() && b.take(o.len() as int + x) =~= o + row.take(x)
}
pub proof fn lemma_start(o: Seq<u8>, b: Seq<u8>, row: Seq<u8>)
    requires b.len() == o.len() + row.len(), forall|i: int| 0 <= i < o.len() ==> #[trigger] b[i] == o[i],
    ensures row_done(o, b, row, 0),
{
    reveal(row_done);
    assert(b.take(o.len() as int) =~= o + row.take(0));
}
pub proof fn lemma_step(o: Seq<u8>, b0: Seq<u8>, b: Seq<u8>, row: Seq<u8>, x: int)
    requires row_done(o, b0, row, x), x < row.len(), b == b0.update(o.len() as int + x, row[x]),
    ensures row_done(o, b, row, x + 1),
{
    reveal(row_done);
    assert forall|i: int| 0 <= i < o.len() + x + 1 implies #[trigger] b.take(o.len() as int + x + 1)[i] == (o + row.take(x + 1))[i] by {
        if i < o.len() + x {
            assert(b0.take(o.len() as int + x)[i] == (o + row.take(x))[i]);
        }
    }
    assert(b.take(o.len() as int + x + 1) =~= o + row.take(x + 1));
}
pub proof fn lemma_len(o: Seq<u8>, b: Seq<u8>, row: Seq<u8>, x: int)
    requires row_done(o, b, row, x),
    ensures b.len() == o.len() + row.len(), 0 <= x <= row.len(),
{ reveal(row_done); }
pub proof fn lemma_done(o: Seq<u8>, b: Seq<u8>, row: Seq<u8>)
    requires row_done(o, b, row, row.len() as int),
    ensures b == o + row,
{
    reveal(row_done);
    assert(b.take(b.len() as int) =~= b);
    assert(row.take(row.len() as int) =~= row);
}
/// pixels loaded from d with n bytes each, the first in the highest doubleword
#[verifier::opaque]
pub open spec fn is_px(d: Seq<u8>, p: int, n: int, r: __m256i) -> bool { forall|k: int| 0 <= k < 8 ==> d32(r)[7 - k] == #[trigger] d[p + k * n] }
pub proof fn lemma_px(d: Seq<u8>, p: int, n: int, r: __m256i, k: int)
    requires is_px(d, p, n, r), 0 <= k < 8
    ensures d32(r)[7 - k] == d[p + k * n]
{ reveal(is_px); let _ = d[p + k * n]; }
/// all doublewords are v
#[verifier::opaque]
pub open spec fn is_all(c: __m256i, v: int) -> bool { forall|i: int| 0 <= i < 8 ==> #[trigger] d32(c)[i] == v }
/// small multiples of samples, all three added / the second subtracted / the last two subtracted
#[verifier::opaque]
pub open spec fn is_comb(a: __m256i, b: __m256i, c: __m256i, sb: int, sc: int, r: __m256i) -> bool {
    forall|i: int| 0 <= i < 8 && -0x100_0000 <= d32(a)[i] <= 0x100_0000 && -0x100_0000 <= d32(b)[i] <= 0x100_0000 && -0x100_0000 <= d32(c)[i] <= 0x100_0000
        ==> #[trigger] d32(r)[i] == d32(a)[i] + (if sb > 0 { d32(b)[i] as int } else { -d32(b)[i] }) + (if sc > 0 { d32(c)[i] as int } else { -d32(c)[i] })
}
pub proof fn lemma_mul(c: int, cv: __m256i, r: __m256i, m: __m256i, i: int)
    requires 0 <= i < 8, is_all(cv, c), is_mullo_epi32(cv, r, m), 0 <= d32(r)[i] <= 255, -65536 <= c <= 65536,
    ensures d32(m)[i] == c * d32(r)[i], -0x100_0000 <= d32(m)[i] <= 0x100_0000,
{
    reveal(is_all); reveal(is_mullo_epi32);
    let x = d32(r)[i] as int;
    assert(d32(cv)[i] == c);
    assert(d32(cv)[i] * d32(r)[i] == c * x);
    assert(-0x100_0000 <= c * x <= 0x100_0000) by (nonlinear_arith) requires 0 <= x <= 255, -65536 <= c <= 65536;
}
/// one component: the products, their combination with the given signs, rounded and shifted
#[verifier::opaque]
pub open spec fn comp(r: __m256i, g: __m256i, b: __m256i, cr: int, cg: int, cb: int, sb: int, sc: int, n: int, v: __m256i) -> bool {
    exists|cvr: __m256i, cvg: __m256i, cvb: __m256i, mr: __m256i, mg: __m256i, mb: __m256i, s: __m256i, t: __m256i| {
        &&& #[trigger] is_mullo_epi32(cvr, r, mr) && #[trigger] is_mullo_epi32(cvg, g, mg) && #[trigger] is_mullo_epi32(cvb, b, mb)
        &&& is_all(cvr, cr) && is_all(cvg, cg) && is_all(cvb, cb)
        &&& #[trigger] is_comb(mr, mg, mb, sb, sc, s) && #[trigger] is_plus(s, t, n) && is_srli_epi32(t, 16, v)
    }
}
pub proof fn lemma_comp(r: __m256i, g: __m256i, b: __m256i, cr: int, cg: int, cb: int, sb: int, sc: int, n: int, v: __m256i, i: int)
    requires
        0 <= i < 8, comp(r, g, b, cr, cg, cb, sb, sc, n, v), 0 <= d32(r)[i] <= 255, 0 <= d32(g)[i] <= 255, 0 <= d32(b)[i] <= 255,
        -65536 <= cr <= 65536, -65536 <= cg <= 65536, -65536 <= cb <= 65536, -0x100_0000 <= n <= 0x100_0000,
        cr * d32(r)[i] + (if sb > 0 { cg * d32(g)[i] } else { -(cg * d32(g)[i]) }) + (if sc > 0 { cb * d32(b)[i] } else { -(cb * d32(b)[i]) }) + n >= 0,
    ensures d32(v)[i] == (cr * d32(r)[i] + (if sb > 0 { cg * d32(g)[i] } else { -(cg * d32(g)[i]) }) + (if sc > 0 { cb * d32(b)[i] } else { -(cb * d32(b)[i]) }) + n) / 65536,
{
    reveal(comp);
    let (cvr, cvg, cvb, mr, mg, mb, s, t) = choose|cvr: __m256i, cvg: __m256i, cvb: __m256i, mr: __m256i, mg: __m256i, mb: __m256i, s: __m256i, t: __m256i| {
        &&& #[trigger] is_mullo_epi32(cvr, r, mr) && #[trigger] is_mullo_epi32(cvg, g, mg) && #[trigger] is_mullo_epi32(cvb, b, mb)
        &&& is_all(cvr, cr) && is_all(cvg, cg) && is_all(cvb, cb)
        &&& #[trigger] is_comb(mr, mg, mb, sb, sc, s) && #[trigger] is_plus(s, t, n) && is_srli_epi32(t, 16, v)
    };
    lemma_mul(cr, cvr, r, mr, i); lemma_mul(cg, cvg, g, mg, i); lemma_mul(cb, cvb, b, mb, i);
    reveal(is_comb); reveal(is_plus); reveal(is_srli_epi32);
    assert(d32(s)[i] == d32(mr)[i] + (if sb > 0 { d32(mg)[i] as int } else { -d32(mg)[i] }) + (if sc > 0 { d32(mb)[i] as int } else { -d32(mb)[i] }));
    assert(d32(t)[i] == d32(s)[i] + n);
    assert(d32(v)[i] == d32(t)[i] as int / p2(16));
}
/// the eight pixels of one step of the loop
pub proof fn lemma_ycc8(r: __m256i, g: __m256i, b: __m256i, yv: __m256i, cbv: __m256i, crv: __m256i, i: int, pr: u8, pg: u8, pb: u8)
    requires
        0 <= i < 8, comp(r, g, b, 19595, 38470, 7471, 1, 1, 32767, yv), comp(r, g, b, -11059, 21709, 32768, -1, 1, 8421375, cbv), comp(r, g, b, 32768, 27439, 5329, -1, -1, 8421375, crv),
        d32(r)[i] == pr, d32(g)[i] == pg, d32(b)[i] == pb,
    ensures d32(yv)[i] as u8 == ycc(pr, pg, pb).0, d32(cbv)[i] as u8 == ycc(pr, pg, pb).1, d32(crv)[i] as u8 == ycc(pr, pg, pb).2,
{
    reveal(ycc);
    lemma_neg(-11059, pr as int);
    lemma_comp(r, g, b, 19595, 38470, 7471, 1, 1, 32767, yv, i);
    lemma_comp(r, g, b, -11059, 21709, 32768, -1, 1, 8421375, cbv, i);
    lemma_comp(r, g, b, 32768, 27439, 5329, -1, -1, 8421375, crv, i);
}
'''
def comp(nm, sb, sc, coefs):
    a,b,c=coefs
    return f'''//@ before let {nm}: [i32; 8]
let ghost v{nm} = {nm};
proof {{
    assert(comp(r, g, b, {a}, {b}, {c}, {sb}, {sc}, {32767 if nm=='y' else 8421375}, v{nm})) by {{
        reveal(comp);
        assert(is_mullo_epi32({nm}mulr, r, {nm}r) && is_mullo_epi32({nm}mulg, g, {nm}g) && is_mullo_epi32({nm}mulb, b, {nm}b));
        assert(is_comb({nm}r, {nm}g, {nm}b, {sb}, {sc}, s{nm}) && is_plus(s{nm}, t{nm}, {32767 if nm=='y' else 8421375}) && is_srli_epi32(t{nm}, 16, v{nm}));
    }}
}}
'''
def cap(nm, sb, sc):
    first={'y':'let y = _mm256_add_epi32(_mm256_add_epi32','cb':'let cb = _mm256_add_epi32(_mm256_sub_epi32','cr':'let cr = _mm256_sub_epi32(_mm256_sub_epi32'}[nm]
    r=f'''//@ after {first}
let ghost s{nm} = {nm};
proof {{ assert(is_comb({nm}r, {nm}g, {nm}b, {sb}, {sc}, s{nm})) by {{ reveal(is_comb); reveal(is_add_epi32); reveal(is_sub_epi32); }} }}
//@ before let {nm} = _mm256_srli_epi32
let ghost t{nm} = {nm};
proof {{ assert(is_plus(s{nm}, t{nm}, {32767 if nm=='y' else 8421375})) by {{ reveal(is_plus); reveal(is_add_epi32); {'' if nm=='y' else 'assert(128i32 << 16i32 == 8388608) by (bit_vector); '}}} }}
'''
    return r
CO=[('y',1,1,(19595,38470,7471)),('cb',-1,1,(-11059,21709,32768)),('cr',-1,-1,(32768,27439,5329))]
for (t,n,o1,o2,o3) in T:
    A=t+'AVX2'
    o+=f'''//@ extra ImageBuffer for {A}
    open spec fn i_color(&self) -> JpegColorType {{ JpegColorType::Ycbcr }}
    open spec fn i_width(&self) -> u16 {{ self.1 }}
    open spec fn i_height(&self) -> u16 {{ self.2 }}
    open spec fn valid(&self) -> bool {{ self.1 * self.2 * {n} <= self.0@.len() }}
    open spec fn sample(&self, c: int, x: int, y: int) -> u8 {{ crate::image_buffer::smp_{t}(self.0@, self.1 as int, c, x, y) }}
//@ fn {A}::get_jpeg_color_type@ImageBuffer
//@ fn {A}::width@ImageBuffer
//@ fn {A}::height@ImageBuffer
//@ fn {A}::fill_buffers@ImageBuffer
//@ at end
proof {{
    assert forall|c: int| 0 <= c < 4 implies (#[trigger] buffers[c])@ == if c < ncomp(self.i_color()) {{
            old(buffers)[c]@ + Seq::new(self.i_width() as nat, |x: int| self.sample(c, x, y as int))
        }} else {{ old(buffers)[c]@ }} by {{
        if c < 3 {{ assert(row_{t}(self.0@, self.1 as int, c, y as int) =~= Seq::new(self.i_width() as nat, |x: int| self.sample(c, x, y as int))); }}
    }}
}}
'''
    # load3
    o+=f'''//@ fn {A}::fill_buffers_avx2::load3
    requires data.i + 7 * {n} < data.s@.len(),
    ensures is_px(data.s@, data.i as int, {n}, res),
//@ at start
proof {{ reveal(is_px); }}
'''
    inv0='self.valid(), 0 <= row < self.2, (row + 1) * self.1 * %d <= self.0@.len(), wd == self.1, data.s == self.0,'%n
    rows='r0 == row_%s(self.0@, wd, 0, row), r1 == row_%s(self.0@, wd, 1, row), r2 == row_%s(self.0@, wd, 2, row), r0.len() == wd, r1.len() == wd, r2.len() == wd,'%(t,t,t)
    ob='b0 == old(buffers)[0]@, b1 == old(buffers)[1]@, b2 == old(buffers)[2]@, buffers[3]@ == old(buffers)[3]@, b0.len() + wd <= isize::MAX, b1.len() + wd <= isize::MAX, b2.len() + wd <= isize::MAX,'
    consts=' '.join(f'is_all({nm}mul{x}, {v}),' for nm,_,_,cs in CO for x,v in zip('rgb',cs))
    def pos(x): return f'row_done(b0, buffers[0]@, r0, {x}), row_done(b1, buffers[1]@, r1, {x}), row_done(b2, buffers[2]@, r2, {x}), y_buffer.i == b0.len() + {x}, cb_buffer.i == b1.len() + {x}, cr_buffer.i == b2.len() + {x},'
    o+=f'''//@ fn {A}::fill_buffers_avx2
//@ attr #[verifier::rlimit(30)]
    requires self.valid(), y < self.i_height(),
    ensures
        forall|c: int| 0 <= c < 4 ==> (#[trigger] final(buffers)[c])@ == if c < 3 {{ old(buffers)[c]@ + row_{t}(self.0@, self.1 as int, c, y as int) }} else {{ old(buffers)[c]@ }},
//@ before let mut y_buffer
let ghost row = y as int; let ghost wd = self.1 as int;
let ghost (b0, b1, b2) = (buffers[0]@, buffers[1]@, buffers[2]@);
let ghost (r0, r1, r2) = (row_{t}(self.0@, wd, 0, row), row_{t}(self.0@, wd, 1, row), row_{t}(self.0@, wd, 2, row));
proof {{
    lemma_lines(row, self.2 as int, wd, {n}, self.0@.len() as int);
    assert(0 <= row * wd && row * wd <= 65535 * 65535) by (nonlinear_arith) requires 0 <= row <= 65535, 0 <= wd <= 65535;
    assert(row * wd * {n} + wd * {n} == (row + 1) * wd * {n}) by (nonlinear_arith);
    assert(0 <= row * wd * {n} <= 4 * 65535 * 65535) by (nonlinear_arith) requires 0 <= row * wd <= 65535 * 65535;
    crate::base::axiom_vec_len(&buffers[0]); crate::base::axiom_vec_len(&buffers[1]); crate::base::axiom_vec_len(&buffers[2]);
}}
//@ before let ymulr
proof {{
    lemma_start(b0, buffers[0]@, r0); lemma_start(b1, buffers[1]@, r1); lemma_start(b2, buffers[2]@, r2);
    crate::base::axiom_vec_len(&buffers[0]); crate::base::axiom_vec_len(&buffers[1]); crate::base::axiom_vec_len(&buffers[2]);
}}
//@ loop 0 before
proof {{ reveal(is_all); }}
//@ loop 0
    invariant
        {inv0}
        {rows}
        {ob}
        {consts}
        {pos('8 * __k0')}
        data.i == row * wd * {n} + 8 * __k0 * {n},
//@ loop 0 start
let ghost p0 = data.i as int;
proof {{ lemma_pixel(row, wd, {n}, 8 * __k0 + 7, self.0@.len() as int); }}
'''
    for nm,sb,sc,cs in CO: o+=cap(nm,sb,sc)
    for nm,sb,sc,cs in CO: o+=comp(nm,sb,sc,cs)
    o+=f'''//@ loop 1 before
proof {{
    assert forall|k: int| 0 <= k < 8 implies (#[trigger] y[7 - k]) as u8 == r0[8 * __k0 + k] && cb[7 - k] as u8 == r1[8 * __k0 + k] && cr[7 - k] as u8 == r2[8 * __k0 + k] by {{
        lemma_pixel(row, wd, {n}, 8 * __k0 + k, self.0@.len() as int);
        lemma_px(self.0@, p0 + {o1}, {n}, r, k); lemma_px(self.0@, p0 + {o2}, {n}, g, k); lemma_px(self.0@, p0 + {o3}, {n}, b, k);
        let q = (row * wd + 8 * __k0 + k) * {n};
        assert(q == p0 + k * {n});
        lemma_ycc8(r, g, b, vy, vcb, vcr, 7 - k, self.0@[q + {o1}], self.0@[q + {o2}], self.0@[q + {o3}]);
    }}
}}
let ghost (ya, cba, cra) = (y@, cb@, cr@);
proof {{ assert forall|k: int| #![trigger cba[7 - k]] #![trigger cra[7 - k]] 0 <= k < 8 implies cba[7 - k] as u8 == r1[8 * __k0 + k] && cra[7 - k] as u8 == r2[8 * __k0 + k] by {{ let _ = y[7 - k]; }} }}
'''
    for li,(nm,arr,bi) in enumerate((('y','ya',0),('cb','cba',1),('cr','cra',2)),1):
        cnt=['8 * __k0','8 * __k0','8 * __k0']
        for q in range(3):
            if q<bi: cnt[q]='8 * __k0 + 8'
            if q==bi: cnt[q]=f'8 * __k0 + __k{li}'
        others=' '.join(f'buffers[{q}]@ == e{li}_{q},' for q in range(3) if q!=bi)+f' buffers[3]@ == old(buffers)[3]@,'
        pb=['y_buffer','cb_buffer','cr_buffer'][bi]
        if li>1:
            o+=f'//@ loop {li} before\n'
        else: o+=''
        o+=f'let ghost (e{li}_0, e{li}_1, e{li}_2) = (buffers[0]@, buffers[1]@, buffers[2]@);\n' if li>1 else 'let ghost (e1_0, e1_1, e1_2) = (buffers[0]@, buffers[1]@, buffers[2]@);\n'
        o+=f'''//@ loop {li}
    invariant
        __s{li}@ == {arr}, {arr}.len() == 8, r{bi}.len() == wd, 8 * __k0 + 8 <= wd, b{bi}.len() + wd <= isize::MAX,
        forall|k: int| 0 <= k < 8 ==> (#[trigger] {arr}[7 - k]) as u8 == r{bi}[8 * __k0 + k],
        {others}
        row_done(b{bi}, buffers[{bi}]@, r{bi}, {cnt[bi]}), {pb}.i == b{bi}.len() + {cnt[bi]},
//@ loop {li} start
let ghost w{li} = buffers[{bi}]@;
proof {{ lemma_len(b{bi}, w{li}, r{bi}, {cnt[bi]}); assert({nm} == {arr}[7 - __k{li}]); }}
//@ loop {li} end
proof {{ lemma_step(b{bi}, w{li}, buffers[{bi}]@, r{bi}, {cnt[bi]}); }}
'''
    full='8 * (self.1 / 8) as int'
    o+=f'''//@ loop 4
    invariant
        {inv0}
        {rows}
        {ob}
        {pos('wd / 8 * 8 + __k4')}
        data.i == row * wd * {n} + (wd / 8 * 8 + __k4) * {n},
//@ loop 4 start
let ghost (f0, f1, f2) = (buffers[0]@, buffers[1]@, buffers[2]@);
proof {{
    lemma_pixel(row, wd, {n}, wd / 8 * 8 + __k4, self.0@.len() as int);
    lemma_len(b0, f0, r0, wd / 8 * 8 + __k4); lemma_len(b1, f1, r1, wd / 8 * 8 + __k4); lemma_len(b2, f2, r2, wd / 8 * 8 + __k4);
}}
//@ loop 4 end
proof {{ lemma_step(b0, f0, buffers[0]@, r0, wd / 8 * 8 + __k4); lemma_step(b1, f1, buffers[1]@, r1, wd / 8 * 8 + __k4); lemma_step(b2, f2, buffers[2]@, r2, wd / 8 * 8 + __k4); }}
//@ loop 4 after
proof {{ lemma_done(b0, buffers[0]@, r0); lemma_done(b1, buffers[1]@, r1); lemma_done(b2, buffers[2]@, r2); }}
'''
open('/verif/contracts/avx2_ycbcr.vrs','w').write('//@ if simd\n'+o)
