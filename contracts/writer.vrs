//@ item BUFFER_SIZE
    ensures BUFFER_SIZE == 64
//@ extra mod
pub open spec fn segment(m: Marker, data: Seq<u8>) -> Seq<u8> {
    seq![0xFFu8, crate::marker::marker_byte(m)] + be16((data.len() + 2) as u16) + data
}
pub open spec fn marker2(m: Marker) -> Seq<u8> { seq![0xFFu8, crate::marker::marker_byte(m)] }
use crate::marker::marker_ok;
/// a call that made the sink report an error reports an error itself, and only then
pub open spec fn errors_kept(err: bool, before: bool, after: bool) -> bool { if err { after } else { after == before } }
//@ if std
/// std::io::Write: what its documentation promises of write, write_all and flush (assumed of the caller's sink)
#[verifier::external_trait_specification]
#[verifier::external_trait_extension(WriteSpec via WriteSpecImpl)]
pub trait ExWrite {
    type ExternalTraitSpecificationFor: std::io::Write;
    spec fn io_written(&self) -> Seq<u8>;
    spec fn io_flushed(&self) -> bool;
    spec fn io_failed(&self) -> bool;
    fn write(&mut self, buf: &[u8]) -> (res: std::io::Result<usize>)
        ensures errors_kept(res is Err, old(self).io_failed(), final(self).io_failed()),
            res matches Ok(n) ==> n <= buf@.len() && final(self).io_written() == old(self).io_written() + buf@.take(n as int);
    fn write_all(&mut self, buf: &[u8]) -> (res: std::io::Result<()>)
        ensures errors_kept(res is Err, old(self).io_failed(), final(self).io_failed()),
            res is Ok ==> final(self).io_written() == old(self).io_written() + buf@;
    fn flush(&mut self) -> (res: std::io::Result<()>)
        ensures errors_kept(res is Err, old(self).io_failed(), final(self).io_failed()),
            final(self).io_written() == old(self).io_written(), res is Ok ==> final(self).io_flushed();
}
//@ extra JfifWrite for W
    open spec fn written(&self) -> Seq<u8> { self.io_written() }
    open spec fn flushed(&self) -> bool { self.io_flushed() }
    open spec fn failed(&self) -> bool { self.io_failed() }
//@ fn W::write_all@JfifWrite
//@ fn W::flush@JfifWrite
//@ endif
//@ if !std
//@ extra JfifWrite for &W
    open spec fn written(&self) -> Seq<u8> { (**self).written() }
    open spec fn flushed(&self) -> bool { (**self).flushed() }
    open spec fn failed(&self) -> bool { (**self).failed() }
//@ extra JfifWrite for Vec
    open spec fn written(&self) -> Seq<u8> { self@ }
    open spec fn flushed(&self) -> bool { true }
    open spec fn failed(&self) -> bool { false }
//@ fn &W::write_all@JfifWrite
//@ fn &W::flush@JfifWrite
//@ fn Vec::write_all@JfifWrite
//@ endif
//@ extra JfifWrite
    /// everything this sink has accepted so far
    spec fn written(&self) -> Seq<u8>;
    /// nothing is buffered any more: all of written() has reached its destination
    spec fn flushed(&self) -> bool;
    /// a call of this sink has returned an error
    spec fn failed(&self) -> bool;
//@ fn JfifWrite::write_all
    ensures errors_kept(res is Err, (*old(self)).failed(), (*final(self)).failed()),
        res is Ok ==> (*final(self)).written() == (*old(self)).written() + buf@,
//@ fn JfifWrite::flush
//@ attr #[verifier::external_body]
    ensures errors_kept(res is Err, (*old(self)).failed(), (*final(self)).failed()),
        (*final(self)).written() == (*old(self)).written(),
        res is Ok ==> (*final(self)).flushed(),
//@ fn JfifWriter::flush
    ensures errors_kept(res is Err, old(self).w.failed(), final(self).w.failed()),
        final(self).put(old(self), Seq::empty()), final(self).same_buf(old(self)),
        res is Ok ==> final(self).w.flushed(),
//@ at end
proof { assert(self.out() =~= old(self).out() + Seq::<u8>::empty()); }
//@ extra JfifWriter
    pub open spec fn wf(&self) -> bool { 0 <= self.free_bits <= 64 }
    pub open spec fn fresh(&self) -> bool { self.free_bits == 64 }
    pub open spec fn out(&self) -> Seq<u8> { self.w.written() }
    /// `bits` is everything put into the current entropy-coded segment, which starts after `base`
    pub open spec fn at(&self, base: Seq<u8>, bits: Seq<bool>) -> bool {
        let p = 64 - self.free_bits;
        let n = bits.len() - p;
        &&& self.wf()
        &&& n >= 0
        &&& n % 8 == 0
        &&& self.out() == base + stuff(pack(bits.take(n)))
        &&& bits.skip(n) == bits_of(self.bit_buffer as u64, p as nat)
    }
    pub open spec fn same_buf(&self, o: &Self) -> bool {
        self.bit_buffer == o.bit_buffer && self.free_bits == o.free_bits
    }
    /// exactly `more` bits were appended to the entropy-coded segment
    #[verifier::opaque]
    pub open spec fn ext(&self, old: &Self, more: Seq<bool>) -> bool {
        &&& self.wf()
        &&& forall|base: Seq<u8>, bits: Seq<bool>| #[trigger] old.at(base, bits) ==> self.at(base, bits + more)
    }
    /// the entropy-coded segment was padded with 1-bits and written completely
    #[verifier::opaque]
    pub open spec fn finalized(&self, old: &Self) -> bool {
        forall|base: Seq<u8>, bits: Seq<bool>| #[trigger] old.at(base, bits) ==> self.out() == base + stuff(pack(pad1(bits)))
    }
    /// exactly `bytes` were written and the bit buffer is untouched
    pub open spec fn put(&self, old: &Self, bytes: Seq<u8>) -> bool {
        self.same_buf(old) && self.out() == old.out() + bytes
    }
//@ fn JfifWriter::new
    ensures res.fresh(), res.out() == w.written(),
//@ fn JfifWriter::write
    ensures errors_kept(res is Err, old(self).w.failed(), final(self).w.failed()),
        res is Ok ==> final(self).put(old(self), buf@), final(self).same_buf(old(self)),
//@ fn JfifWriter::write_u8
    ensures errors_kept(res is Err, old(self).w.failed(), final(self).w.failed()),
        res is Ok ==> final(self).put(old(self), seq![value]), final(self).same_buf(old(self)),
//@ at end
proof { assert([value]@ =~= seq![value]); }
//@ fn JfifWriter::write_u16
    ensures errors_kept(res is Err, old(self).w.failed(), final(self).w.failed()),
        res is Ok ==> final(self).put(old(self), be16(value)), final(self).same_buf(old(self)),
//@ fn JfifWriter::finalize_bit_buffer
    requires old(self).wf(),
    ensures errors_kept(res is Err, old(self).w.failed(), final(self).w.failed()),
        res is Ok ==> final(self).fresh() && final(self).finalized(old(self)),
//@ at start
proof { reveal(JfifWriter::ext); reveal(JfifWriter::finalized); }
let ghost s0 = *self;
proof { assert((0x7Fu64 >> 7u64) == 0) by (bit_vector); }
//@ after self.write_bits
let ghost s1 = *self;
//@ after self.flush_bit_buffer
let ghost s2 = *self;
//@ at end
proof {
    assert forall|base: Seq<u8>, bits: Seq<bool>| #[trigger] s0.at(base, bits) implies
        self.out() == base + stuff(pack(pad1(bits))) by {
        let x = bits + bits_of(0x7F, 7);
        assert(s1.at(base, x));
        assert(s2.at(base, x));
        assert forall|i: int| 0 <= i < 7 implies bits_of(0x7Fu64, 7)[i] by {
            let j = (6 - i) as u64;
            assert((0x7Fu64 >> j) & 1 == 1) by (bit_vector) requires j < 7;
        }
        let n = x.len() - (64 - s2.free_bits);
        assert(n == pad1(bits).len());
        assert(x.take(n) =~= pad1(bits));
    }
}
//@ fn JfifWriter::flush_bit_buffer
    requires old(self).wf(),
    ensures errors_kept(res is Err, old(self).w.failed(), final(self).w.failed()),
        res is Ok ==> final(self).wf() && final(self).free_bits > 56,
        res is Ok ==> forall|base: Seq<u8>, bits: Seq<bool>| #[trigger] old(self).at(base, bits) ==> final(self).at(base, bits),
//@ loop 0
    invariant
        self.w.failed() == old(self).w.failed(),
        self.wf(),
        forall|base: Seq<u8>, bits: Seq<bool>| #[trigger] old(self).at(base, bits) ==> self.at(base, bits),
    decreases 64 - self.free_bits,
//@ loop 0 start
let ghost s0 = *self;
//@ loop 0 end
proof {
    assert forall|base: Seq<u8>, bits: Seq<bool>| #[trigger] old(self).at(base, bits) implies self.at(base, bits) by {
        assert(s0.at(base, bits));
        lemma_advance(&s0, self, base, bits);
    }
}
//@ fn JfifWriter::flush_byte_from_bit_buffer
    requires 0 <= free_bits <= 56,
    ensures errors_kept(res is Err, old(self).w.failed(), final(self).w.failed()),
        res is Ok ==> final(self).put(old(self), stuff1(((old(self).bit_buffer as u64 >> ((56 - free_bits) as u64)) & 0xFF) as u8)),
        final(self).same_buf(old(self)),
//@ at start
proof {
    let s = (56 - free_bits) as u64; let v = self.bit_buffer as u64;
    assert((v >> s) & 0xFF <= 0xFF) by (bit_vector);
    assert((v >> s) as u8 == ((v >> s) & 0xFF) as u8) by (bit_vector);
    assert((v >> s) % 256 == (v >> s) & 0xFF) by (bit_vector);
}
//@ at end
proof {
    assert(seq![0xFFu8] + seq![0u8] =~= seq![0xFFu8, 0u8]);
    assert(self.out() =~= old(self).out() + stuff1(((old(self).bit_buffer as u64 >> ((56 - free_bits) as u64)) & 0xFF) as u8));
}
//@ fn JfifWriter::write_bit_buffer
    ensures errors_kept(res is Err, old(self).w.failed(), final(self).w.failed()),
        res is Ok ==> final(self).put(old(self), stuff(pack(bits_of(old(self).bit_buffer as u64, 64)))),
        final(self).same_buf(old(self)),
//@ at start
let ghost word = self.bit_buffer as u64;
let ghost pk = pack(bits_of(word, 64));
proof {
    assert forall|k: int| 0 <= k < 8 implies #[trigger] pk[k] == ((word >> ((56 - 8 * k) as u64)) & 0xFF) as u8 by {
        lemma_byte_of_word(word, 64, (8 * k) as nat);
    }
}
//@ loop 0
    invariant
        self.w.failed() == old(self).w.failed(),
        pk.len() == 8,
        self.same_buf(old(self)), word == old(self).bit_buffer as u64,
        forall|k: int| 0 <= k < 8 ==> #[trigger] pk[k] == ((word >> ((56 - 8 * k) as u64)) & 0xFF) as u8,
        self.out() == old(self).out() + stuff(pk.take(i as int)),
//@ loop 0 before
proof { assert(stuff(pk.take(0)) =~= Seq::<u8>::empty()); assert(self.out() =~= old(self).out() + stuff(pk.take(0))); }
//@ loop 0 end
proof {
    assert(pk.take(i as int + 1) =~= pk.take(i as int).push(pk[i as int]));
    lemma_stuff_push(pk.take(i as int), pk[i as int]);
    assert(self.out() =~= old(self).out() + stuff(pk.take(i as int + 1)));
}
//@ loop 0 after
proof { assert(pk.take(8) =~= pk); }
//@ before self.w.write_all(&self.bit_buffer.to_be_bytes())
proof {
    let y = self.bit_buffer.wrapping_add(0x0101010101010101) as u64;
    lemma_wrapping_add(word, y);
    lemma_no_ff(word, y);
    assert forall|k: int| 0 <= k < 8 implies #[trigger] pk[k] != 0xFF by {
        let i = (7 - k) as u64;
        assert(mul(8u64, i) == (56 - 8 * k) as u64);
    }
    lemma_stuff_no_ff(pk);
    assert(pk =~= (self.bit_buffer).be()) by {
        assert forall|i: int| 0 <= i < 8 implies pk[i] == self.bit_buffer.be()[i] by { assert(56 - 8 * i == 8 * (7 - i)); }
    }
}
//@ fn JfifWriter::write_bits
    requires
        old(self).wf(),
        size <= 32,
        (value as u64) >> (size as u64) == 0,
    ensures errors_kept(res is Err, old(self).w.failed(), final(self).w.failed()),
        res is Ok ==> final(self).wf() && final(self).ext(old(self), bits_of(value as u64, size as nat)),
//@ at start
proof { reveal(JfifWriter::ext); reveal(JfifWriter::finalized); }
let ghost s0 = *self;
let ghost v0 = value as u64;
let ghost n0 = size as nat;
//@ at end
proof {
    if __vx_r is Ok {
        assert forall|base: Seq<u8>, bits: Seq<bool>| #[trigger] s0.at(base, bits) implies self.at(base, bits + bits_of(v0, n0)) by {
            if 64 - s0.free_bits + n0 <= 64 && self.free_bits == s0.free_bits - n0 { lemma_write_fits(&s0, self, v0, n0, base, bits); }
            else { lemma_write_spills(&s0, self, v0, n0, base, bits); }
        }
    }
}
//@ extra mod
pub proof fn lemma_write_fits<W: JfifWrite>(s0: &JfifWriter<W>, s1: &JfifWriter<W>, v0: u64, n0: nat, base: Seq<u8>, bits: Seq<bool>)
    requires
        s0.at(base, bits), n0 <= 32, v0 >> (n0 as u64) == 0, 64 - s0.free_bits + n0 <= 64,
        s1.out() == s0.out(), s1.free_bits == s0.free_bits - n0,
        s1.bit_buffer as u64 == ((s0.bit_buffer as u64) << (n0 as u64)) | v0,
    ensures s1.at(base, bits + bits_of(v0, n0))
{
    let more = bits_of(v0, n0);
    let p = (64 - s0.free_bits) as nat;
    let n = bits.len() - p;
    let all = bits + more;
    lemma_bits_append(s0.bit_buffer as u64, p, v0, n0);
    assert(all.take(n) =~= bits.take(n));
    assert(all.skip(n) =~= bits.skip(n) + more);
}
pub proof fn lemma_write_spills<W: JfifWrite>(s0: &JfifWriter<W>, s1: &JfifWriter<W>, v0: u64, n0: nat, base: Seq<u8>, bits: Seq<bool>)
    requires
        s0.at(base, bits), n0 <= 32, v0 >> (n0 as u64) == 0, 64 - s0.free_bits + n0 >= 64,
        s1.bit_buffer as u64 == v0, s1.free_bits == s0.free_bits - n0 + 64,
        s1.out() == s0.out() + stuff(pack(bits_of(((s0.bit_buffer as u64) << (s0.free_bits as u64)) | (v0 >> ((n0 - s0.free_bits) as u64)), 64))),
    ensures s1.at(base, bits + bits_of(v0, n0))
{
    let more = bits_of(v0, n0);
    let p = (64 - s0.free_bits) as nat;
    let n = bits.len() - p;
    let all = bits + more;
    let f = (64 - p) as nat;
    let r = (n0 - f) as nat;
    lemma_bits_split(v0, n0, f);
    let t = v0 >> (r as u64);
    assert((v0 >> (r as u64)) >> (f as u64) == 0) by {
        let ru = r as u64; let fu = f as u64; let nu = n0 as u64;
        assert((v0 >> ru) >> fu == 0) by (bit_vector) requires v0 >> nu == 0, nu == add(ru, fu), nu <= 32, ru <= 32, fu <= 32;
    }
    lemma_bits_append(s0.bit_buffer as u64, p, t, f);
    let word = (s0.bit_buffer as u64) << (f as u64) | t;
    let w64 = bits_of(word, 64);
    assert(bits.skip(n) + bits_of(t, f) == w64);
    assert(all.take(n + 64) =~= bits.take(n) + w64) by {
        assert forall|i: int| n <= i < n + 64 implies all[i] == #[trigger] (bits.take(n) + w64)[i] by {
            if i < bits.len() { assert(bits[i] == bits.skip(n)[i - n]); }
            else { assert(more[i - bits.len()] == bits_of(t, f)[i - bits.len()]); }
        }
    }
    assert(all.skip(n + 64) =~= bits_of(v0, r)) by {
        let l = all.skip(n + 64); let rr = bits_of(v0, r);
        assert forall|i: int| 0 <= i < r implies #[trigger] l[i] == rr[i] by { assert(l[i] == more[f + i]); }
    }
    lemma_pack_concat(bits.take(n), w64);
    lemma_stuff_concat(pack(bits.take(n)), pack(w64));
    assert(s1.out() =~= base + stuff(pack(all.take(n + 64))));
}
//@ extra-before JfifWriter
pub proof fn lemma_advance<W: JfifWrite>(s0: &JfifWriter<W>, s1: &JfifWriter<W>, base: Seq<u8>, bits: Seq<bool>)
    requires
        s0.at(base, bits), s0.free_bits <= 56, s1.free_bits == s0.free_bits + 8, s1.bit_buffer == s0.bit_buffer,
        s1.out() == s0.out() + stuff1(((s0.bit_buffer as u64 >> ((56 - s0.free_bits) as u64)) & 0xFF) as u8),
    ensures s1.at(base, bits)
{
    let p = (64 - s0.free_bits) as nat;
    let n = bits.len() - p;
    let buf = s0.bit_buffer as u64;
    let b = ((buf >> ((p - 8) as u64)) & 0xFF) as u8;
    lemma_byte_of_word(buf, p, 0);
    let x = bits.take(n);
    let y = bits.subrange(n, n + 8);
    assert(bits.take(n + 8) =~= x + y);
    lemma_pack_concat(x, y);
    assert(bits.skip(n) == bits_of(buf, p));
    assert forall|i: int| 0 <= i < 8 implies y[i] == bits_of(buf, p)[i] by { assert(y[i] == bits.skip(n)[i]); }
    assert(pack(y) =~= seq![b]);
    assert(pack(x + y) =~= pack(x).push(b));
    lemma_stuff_push(pack(x), b);
    assert(bits.skip(n + 8) =~= bits_of(buf, (p - 8) as nat)) by {
        let l = bits.skip(n + 8);
        let r = bits_of(buf, (p - 8) as nat);
        assert forall|i: int| 0 <= i < p - 8 implies #[trigger] l[i] == r[i] by {
            assert(l[i] == bits.skip(n)[i + 8]);
        }
    }
    assert(s1.out() =~= base + stuff(pack(bits.take(n + 8))));
}
//@ extra mod
use crate::spec_block::*;
//@ fn JfifWriter::huffman_encode
    requires old(self).wf(), table.codes_fit(), table.has(val),
    ensures errors_kept(res is Err, old(self).w.failed(), final(self).w.failed()),
        res is Ok ==> final(self).wf() && final(self).ext(old(self), table.code_of(val)),
//@ at start
proof { assert(table.size_of_code(val) <= 16); }
//@ fn JfifWriter::huffman_encode_value
    requires
        old(self).wf(), table.codes_fit(), table.has(symbol), size <= 15,
        (value as u64) >> (size as u64) == 0,
    ensures errors_kept(res is Err, old(self).w.failed(), final(self).w.failed()),
        res is Ok ==> final(self).wf() && final(self).ext(old(self), table.code_of(symbol) + bits_of(value as u64, size as nat)),
//@ at start
let ghost sz0 = size as nat;
let ghost v0 = value as u64;
proof {
    let c = table.lookup_table[symbol as int].1;
    let n = table.size_of_code(symbol) as u64;
    let s = size as u64;
    assert(table.size_of_code(symbol) <= 16);
    lemma_bits_append(c as u64, n as nat, v0, sz0);
    let s32 = size as u32; let v32 = value as u32;
    assert((c as u64) >> n == 0 && v0 >> s == 0);
    assert((v32 | ((c as u32) << s32)) as u64 == ((c as u64) << s) | v0) by (bit_vector)
        requires s32 <= 15, s == s32 as u64, v0 == v32 as u64;
    assert(v32 | ((c as u32) << s32) == ((c as u32) << s32) | v32) by (bit_vector);
    assert((((c as u64) << s) | v0) >> add(s, n) == 0) by (bit_vector)
        requires (c as u64) >> n == 0, v0 >> s == 0, n <= 16, s <= 15;
}
//@ fn JfifWriter::write_block
    requires
        old(self).wf(), dc_table.codes_fit(), ac_table.codes_fit(),
        -16383 <= block[0] - prev_dc <= 16383, dc_table.has(ssss(block[0] - prev_dc) as u8),
        forall|k: int| 1 <= k < 64 ==> coef_ok(#[trigger] block[k]),
        ac_coded(ac_table, block@, 1, 64),
    ensures errors_kept(res is Err, old(self).w.failed(), final(self).w.failed()),
        res is Ok ==> final(self).wf() && final(self).ext(old(self), block_bits(dc_table, ac_table, block@, prev_dc as int)),
//@ at start
let ghost s0 = *self;
//@ after self.write_dc
let ghost s1 = *self;
//@ at end
proof {
    if __vx_r is Ok { lemma_ext_trans(&s0, &s1, self, dc_bits(dc_table, block[0] - prev_dc), ac_bits(ac_table, block@, 1, 64)); }
}
//@ fn JfifWriter::write_dc
    requires
        old(self).wf(), dc_table.codes_fit(),
        -16383 <= value - prev_dc <= 16383, dc_table.has(ssss(value - prev_dc) as u8),
    ensures errors_kept(res is Err, old(self).w.failed(), final(self).w.failed()),
        res is Ok ==> final(self).wf() && final(self).ext(old(self), dc_bits(dc_table, value - prev_dc)),
//@ fn JfifWriter::write_ac_block
    requires
        old(self).wf(), ac_table.codes_fit(), start <= end <= 64,
        forall|k: int| start <= k < end ==> coef_ok(#[trigger] block[k]),
        ac_coded(ac_table, block@, start as int, end as int),
    ensures errors_kept(res is Err, old(self).w.failed(), final(self).w.failed()),
        res is Ok ==> final(self).wf() && final(self).ext(old(self), ac_bits(ac_table, block@, start as int, end as int)),
//@ at start
proof { reveal(JfifWriter::ext); reveal(JfifWriter::finalized); }
let ghost s0 = *self;
//@ loop 0
    invariant
        self.w.failed() == old(self).w.failed(),
        self.wf(), ac_table.codes_fit(), start <= end <= 64,
        __s0@ == block@.subrange(start as int, end as int),
        forall|k: int| start <= k < end ==> coef_ok(#[trigger] block[k]),
        ac_coded(ac_table, block@, start as int, end as int),
        zero_run as nat == zrun(block@, start as int, start + __k0), zero_run <= 64,
        self.ext(&s0, ac_prefix(ac_table, block@, start as int, start + __k0)),
//@ loop 0 before
proof { lemma_ext_refl(self); }
//@ loop 0 start
let ghost k = start + __k0;
let ghost pre = ac_prefix(ac_table, block@, start as int, k);
proof { lemma_zrun_bound(block@, start as int, k); assert(value == block@[k]); lemma_zrun_bound(block@, start as int, k + 1); }
//@ loop 1
    invariant
        self.w.failed() == old(self).w.failed(),
        self.wf(), ac_table.codes_fit(), zero_run <= 64,
        zero_run > 15 ==> ac_table.has(0xF0),
        exists|j: nat| #[trigger] zrls_at(j) && 16 * j + zero_run == zrun(block@, start as int, k) && self.ext(&s0, pre + zrls(ac_table, j)),
    decreases zero_run,
//@ loop 1 before
proof { assert(zrls_at(0)); assert(pre + zrls(ac_table, 0) =~= pre); }
//@ loop 1 start
let ghost s1 = *self;
let ghost j0 = choose|j: nat| #[trigger] zrls_at(j) && 16 * j + zero_run == zrun(block@, start as int, k) && self.ext(&s0, pre + zrls(ac_table, j));
//@ loop 1 end
proof {
    assert(zrls_at(j0 + 1));
    lemma_ext_trans(&s0, &s1, self, pre + zrls(ac_table, j0), ac_table.code_of(0xF0));
    assert(pre + zrls(ac_table, j0) + ac_table.code_of(0xF0) =~= pre + zrls(ac_table, j0 + 1));
}
//@ loop 1 after
let ghost s2 = *self;
proof {
    let r = zrun(block@, start as int, k);
    let j = choose|j: nat| #[trigger] zrls_at(j) && 16 * j + zero_run == zrun(block@, start as int, k) && self.ext(&s0, pre + zrls(ac_table, j));
    assert(j == r / 16 && zero_run == r % 16);
}
//@ before self.huffman_encode_value(
proof {
    let z: u8 = zero_run; let s: u8 = size;
    assert((z << 4u8) | s == z * 16 + s && s | (z << 4u8) == z * 16 + s && (z << 4u8) == z * 16) by (bit_vector) requires z < 16, s < 16;
}
//@ after self.huffman_encode_value(
proof {
    let r = zrun(block@, start as int, k);
    let q = pre + zrls(ac_table, r / 16);
    let c = ac_table.code_of((r % 16 * 16 + ssss(block@[k] as int)) as u8) + extra_bits(block@[k] as int);
    lemma_ext_trans(&s0, &s2, self, q, c);
}
//@ loop 0 after
let ghost s3 = *self;
//@ at end
proof {
    let t = ac_prefix(ac_table, block@, start as int, end as int);
    if zrun(block@, start as int, end as int) > 0 { lemma_ext_trans(&s0, &s3, self, t, ac_table.code_of(0)); }
    else { assert(t + Seq::<bool>::empty() =~= t); }
}
//@ extra mod
pub open spec fn zrls_at(j: nat) -> bool { true }
pub proof fn lemma_ext_refl<W: JfifWrite>(a: &JfifWriter<W>)
    requires a.wf()
    ensures a.ext(a, Seq::empty())
{
    reveal(JfifWriter::ext);
    assert forall|base: Seq<u8>, bits: Seq<bool>| #[trigger] a.at(base, bits) implies a.at(base, bits + Seq::<bool>::empty()) by {
        assert(bits + Seq::<bool>::empty() =~= bits);
    }
}
pub proof fn lemma_ext_trans<W: JfifWrite>(a: &JfifWriter<W>, b: &JfifWriter<W>, c: &JfifWriter<W>, x: Seq<bool>, y: Seq<bool>)
    requires b.ext(a, x), c.ext(b, y)
    ensures c.ext(a, x + y)
{
    reveal(JfifWriter::ext);
    assert forall|base: Seq<u8>, bits: Seq<bool>| #[trigger] a.at(base, bits) implies c.at(base, bits + (x + y)) by {
        assert(b.at(base, bits + x));
        assert(c.at(base, bits + x + y));
        assert(bits + x + y =~= bits + (x + y));
    }
}
//@ fn get_code
    requires coef_ok(value),
    ensures
        res.0 == ssss(value as int), res.1 == extra(value as int), res.0 <= 15,
        (res.1 as u64) >> (res.0 as u64) == 0,
//@ at start
proof {
    let a = iabs(value as int) as i16;
    assert forall|lz: u32| #[trigger] lz_is((a << 1 | 1), lz) implies get_code_post(value, lz) by {
        lemma_get_code(value, (a << 1 | 1), a, lz);
    }
}
//@ extra mod
pub open spec fn get_code_post(v: i16, lz: u32) -> bool {
    let n = (15 - lz) as u64;
    let w = if v < 0 { (v - 1) as i16 } else { v };
    let m = ((1i16 << (n as usize)) - 1) as i16;
    &&& 1 <= lz <= 15
    &&& ssss(v as int) == n
    &&& 1i16 << (n as usize) >= 1
    &&& (w & m) as int == extra(v as int)
    &&& 0 <= extra(v as int)
    &&& (extra(v as int) as u64) >> n == 0
}

//@ extra mod
use crate::marker::{marker_byte};
pub open spec fn m2(m: Marker) -> Seq<u8> { seq![0xFFu8, marker_byte(m)] }
/// marker, length (which counts itself), payload
pub open spec fn seg(m: Marker, data: Seq<u8>) -> Seq<u8> { m2(m) + be16((data.len() + 2) as u16) + data }
pub open spec fn jfif_payload(d: Density) -> Seq<u8> {
    let (u, x, y) = match d {
        Density::None => (0u8, 1u16, 1u16),
        Density::Inch { x, y } => (1u8, x, y),
        Density::Centimeter { x, y } => (2u8, x, y),
    };
    seq![0x4Au8, 0x46, 0x49, 0x46, 0, 1, 2, u] + be16(x) + be16(y) + seq![0u8, 0]
}
pub open spec fn dht_payload(class: CodingClass, dest: u8, t: &HuffmanTable) -> Seq<u8> {
    seq![(match class { CodingClass::Dc => dest as int, CodingClass::Ac => 16 + dest }) as u8] + t.length@ + t.values@
}
/// zig-zag order (T.81 figure A.6): position of coefficient k of the scan order in the 8x8 block
pub open spec fn zz(k: int) -> int { zz_table()[k] }
pub open spec fn zz_table() -> Seq<int> {
    seq![0, 1, 8, 16, 9, 2, 3, 10, 17, 24, 32, 25, 18, 11, 4, 5, 12, 19, 26, 33, 40, 48, 41, 34, 27, 20,
    13, 6, 7, 14, 21, 28, 35, 42, 49, 56, 57, 50, 43, 36, 29, 22, 15, 23, 30, 37, 44, 51, 58, 59,
    52, 45, 38, 31, 39, 46, 53, 60, 61, 54, 47, 55, 62, 63]
}
pub open spec fn dqt_payload(dest: u8, t: &QuantizationTable) -> Seq<u8> {
    seq![dest] + Seq::new(64, |k: int| t.q8(zz(k)))
}
pub open spec fn comp_bytes(c: Seq<Component>, n: int) -> Seq<u8>
    decreases n
{
    if n <= 0 { Seq::empty() }
    else {
        comp_bytes(c, n - 1) + seq![c[n - 1].id, (c[n - 1].horizontal_sampling_factor * 16 + c[n - 1].vertical_sampling_factor) as u8, c[n - 1].quantization_table]
    }
}
pub open spec fn sof_payload(width: u16, height: u16, c: Seq<Component>) -> Seq<u8> {
    seq![8u8] + be16(height) + be16(width) + seq![c.len() as u8] + comp_bytes(c, c.len() as int)
}
pub open spec fn sof_type(progressive: bool) -> Marker {
    Marker::SOF(if progressive { SOFType::ProgressiveDCT } else { SOFType::BaselineDCT })
}
pub open spec fn scan_comp_bytes(c: Seq<&Component>, n: int) -> Seq<u8>
    decreases n
{
    if n <= 0 { Seq::empty() }
    else { scan_comp_bytes(c, n - 1) + seq![c[n - 1].id, (c[n - 1].dc_huffman_table * 16 + c[n - 1].ac_huffman_table) as u8] }
}
pub open spec fn sos_payload(c: Seq<&Component>, ss: u8, se: u8) -> Seq<u8> {
    seq![c.len() as u8] + scan_comp_bytes(c, c.len() as int) + seq![ss, se, 0u8]
}
pub proof fn lemma_comp_bytes_len(c: Seq<Component>, n: int)
    ensures comp_bytes(c, n).len() == if n > 0 { 3 * n } else { 0 }
    decreases n
{ if n > 0 { lemma_comp_bytes_len(c, n - 1); } }
pub proof fn lemma_scan_comp_bytes_len(c: Seq<&Component>, n: int)
    ensures scan_comp_bytes(c, n).len() == if n > 0 { 2 * n } else { 0 }
    decreases n
{ if n > 0 { lemma_scan_comp_bytes_len(c, n - 1); } }
pub open spec fn nibbles_ok(c: &Component) -> bool {
    c.horizontal_sampling_factor < 16 && c.vertical_sampling_factor < 16 && c.dc_huffman_table < 16 && c.ac_huffman_table < 16
}
pub proof fn lemma_nibbles(a: u8, b: u8)
    requires a < 16, b < 16
    ensures (a << 4u8) | b == a * 16 + b
{
    assert((a << 4u8) | b == a * 16 + b) by (bit_vector) requires a < 16, b < 16;
}
//@ fn JfifWriter::write_marker
    requires marker_ok(marker),
    ensures errors_kept(res is Err, old(self).w.failed(), final(self).w.failed()),
        res is Ok ==> final(self).put(old(self), m2(marker)), final(self).same_buf(old(self)),
//@ at end
proof { assert([0xFFu8, marker_byte(marker)]@ =~= m2(marker)); }
//@ fn JfifWriter::write_segment
    requires marker_ok(marker), data@.len() <= 65533,
    ensures errors_kept(res is Err, old(self).w.failed(), final(self).w.failed()),
        res is Ok ==> final(self).put(old(self), seg(marker, data@)), final(self).same_buf(old(self)),
//@ at end
proof { assert(self.out() =~= old(self).out() + seg(marker, data@)); }
//@ fn JfifWriter::write_header
    ensures errors_kept(res is Err, old(self).w.failed(), final(self).w.failed()),
        res is Ok ==> final(self).put(old(self), seg(Marker::APP(0), jfif_payload(*density))), final(self).same_buf(old(self)),
//@ at end
proof {
    if __vx_r is Ok { assert(self.out() =~= old(self).out() + seg(Marker::APP(0), jfif_payload(*density))); }
}
//@ fn JfifWriter::write_huffman_segment
    requires destination < 4, table.values@.len() <= 256,
    ensures errors_kept(res is Err, old(self).w.failed(), final(self).w.failed()),
        res is Ok ==> final(self).put(old(self), seg(Marker::DHT, dht_payload(class, destination, table))), final(self).same_buf(old(self)),
//@ at start
proof {
    let d = destination;
    assert((0u8 << 4u8) | d == d) by (bit_vector) requires d < 4;
    assert((1u8 << 4u8) | d == 16 + d) by (bit_vector) requires d < 4;
}
//@ at end
proof { assert(self.out() =~= old(self).out() + seg(Marker::DHT, dht_payload(class, destination, table))); }
//@ fn JfifWriter::write_quantization_segment
    requires destination < 4, table.fits8(),
    ensures errors_kept(res is Err, old(self).w.failed(), final(self).w.failed()),
        res is Ok ==> final(self).put(old(self), seg(Marker::DQT, dqt_payload(destination, table))), final(self).same_buf(old(self)),
//@ loop 0
    invariant
        self.w.failed() == old(self).w.failed(),
        self.same_buf(old(self)), table.fits8(),
        __s0@ == ZIGZAG_C@,
        self.out() =~= old(self).out() + (m2(Marker::DQT) + be16(67) + dqt_payload(destination, table).take(1 + __k0)),
//@ loop 0 start
proof { lemma_zigzag(__k0 as int); }
//@ at end
proof { assert(dqt_payload(destination, table).take(65) =~= dqt_payload(destination, table)); }
//@ extra mod
pub proof fn lemma_zigzag(k: int)
    requires 0 <= k < 64
    ensures ZIGZAG_C[k] == zz(k), 0 <= zz(k) < 64
{
}
//@ fn JfifWriter::write_dri
    ensures errors_kept(res is Err, old(self).w.failed(), final(self).w.failed()),
        res is Ok ==> final(self).put(old(self), seg(Marker::DRI, be16(restart_interval))), final(self).same_buf(old(self)),
//@ at end
proof { if __vx_r is Ok { assert(self.out() =~= old(self).out() + seg(Marker::DRI, be16(restart_interval))); } }
//@ fn JfifWriter::write_frame_header
    requires components@.len() <= 4, forall|i: int| 0 <= i < components@.len() ==> nibbles_ok(#[trigger] &components@[i]),
    ensures errors_kept(res is Err, old(self).w.failed(), final(self).w.failed()),
        res is Ok ==> final(self).put(old(self), seg(sof_type(progressive), sof_payload(width, height, components@))),
        final(self).same_buf(old(self)),
//@ at start
proof { lemma_comp_bytes_len(components@, components@.len() as int); }
//@ loop 0
    invariant
        self.w.failed() == old(self).w.failed(),
        self.same_buf(old(self)), components@.len() <= 4, __s0@ == components@,
        forall|i: int| 0 <= i < components@.len() ==> nibbles_ok(#[trigger] &components@[i]),
        self.out() =~= old(self).out() + (m2(sof_type(progressive)) + be16((8 + 3 * components@.len()) as u16) + (seq![8u8] + be16(height) + be16(width) + seq![components@.len() as u8] + comp_bytes(components@, __k0 as int))),
//@ loop 0 start
proof { lemma_nibbles(component.horizontal_sampling_factor, component.vertical_sampling_factor); }
//@ fn JfifWriter::write_scan_header
    requires components@.len() <= 4, forall|i: int| 0 <= i < components@.len() ==> nibbles_ok(#[trigger] components@[i]),
    ensures errors_kept(res is Err, old(self).w.failed(), final(self).w.failed()),
        res is Ok ==> final(self).put(old(self), seg(Marker::SOS, match spectral { Some(p) => sos_payload(components@, p.0, p.1), None => sos_payload(components@, 0, 63) })),
        final(self).same_buf(old(self)),
//@ at start
proof { lemma_scan_comp_bytes_len(components@, components@.len() as int); }
//@ loop 0
    invariant
        self.w.failed() == old(self).w.failed(),
        self.same_buf(old(self)), components@.len() <= 4, __s0@ == components@,
        forall|i: int| 0 <= i < components@.len() ==> nibbles_ok(#[trigger] components@[i]),
        self.out() =~= old(self).out() + (m2(Marker::SOS) + be16((6 + 2 * components@.len()) as u16) + (seq![components@.len() as u8] + scan_comp_bytes(components@, __k0 as int))),
//@ loop 0 start
proof { lemma_nibbles(component.dc_huffman_table, component.ac_huffman_table); }
//@ at end
proof {
    let p = match spectral { Some(p) => sos_payload(components@, p.0, p.1), None => sos_payload(components@, 0, 63) };
    assert(self.out() =~= old(self).out() + seg(Marker::SOS, p));
}
