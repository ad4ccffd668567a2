// Bit streams: MSB first, packed into bytes, with a zero byte stuffed after every 0xFF (T.81 F.1.2.3)

/// the n low bits of v, most significant first
pub open spec fn bits_of(v: u64, n: nat) -> Seq<bool> {
    Seq::new(n, |i: int| (v >> ((n - 1 - i) as u64)) & 1 == 1)
}
pub open spec fn b2u(b: bool) -> u8 { if b { 1u8 } else { 0u8 } }
pub open spec fn byte_at(bits: Seq<bool>, o: int) -> u8 {
    (b2u(bits[o]) << 7u8) | (b2u(bits[o + 1]) << 6u8) | (b2u(bits[o + 2]) << 5u8) | (b2u(bits[o + 3]) << 4u8)
    | (b2u(bits[o + 4]) << 3u8) | (b2u(bits[o + 5]) << 2u8) | (b2u(bits[o + 6]) << 1u8) | b2u(bits[o + 7])
}
pub open spec fn pack(bits: Seq<bool>) -> Seq<u8> {
    Seq::new(bits.len() / 8, |k: int| byte_at(bits, 8 * k))
}
/// fill the last byte with 1-bits
pub open spec fn pad1(bits: Seq<bool>) -> Seq<bool> {
    bits + Seq::new(((8 - bits.len() % 8) % 8) as nat, |i: int| true)
}
pub open spec fn stuff1(b: u8) -> Seq<u8> { if b == 0xFF { seq![b, 0u8] } else { seq![b] } }
pub open spec fn stuff(s: Seq<u8>) -> Seq<u8>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else { stuff(s.drop_last()) + stuff1(s.last()) }
}

pub proof fn lemma_stuff_push(s: Seq<u8>, b: u8)
    ensures stuff(s.push(b)) == stuff(s) + stuff1(b)
{
    assert(s.push(b).drop_last() =~= s);
}
pub proof fn lemma_stuff_concat(a: Seq<u8>, b: Seq<u8>)
    ensures stuff(a + b) == stuff(a) + stuff(b)
    decreases b.len()
{
    if b.len() == 0 {
        assert(a + b =~= a);
        assert(stuff(a) + stuff(b) =~= stuff(a));
    } else {
        lemma_stuff_concat(a, b.drop_last());
        assert((a + b).drop_last() =~= a + b.drop_last());
        assert((a + b).last() == b.last());
        assert(stuff(a + b) =~= stuff(a) + stuff(b));
    }
}
pub proof fn lemma_stuff_no_ff(s: Seq<u8>)
    requires forall|i: int| 0 <= i < s.len() ==> s[i] != 0xFF
    ensures stuff(s) == s
    decreases s.len()
{
    if s.len() > 0 {
        lemma_stuff_no_ff(s.drop_last());
        assert(stuff(s) =~= s);
    } else {
        assert(stuff(s) =~= s);
    }
}
pub proof fn lemma_pack_concat(a: Seq<bool>, b: Seq<bool>)
    requires a.len() % 8 == 0
    ensures pack(a + b) == pack(a) + pack(b)
{
    let ab = a + b;
    assert(pack(ab).len() == pack(a).len() + pack(b).len());
    assert forall|k: int| 0 <= k < pack(ab).len() implies pack(ab)[k] == (pack(a) + pack(b))[k] by {
        if k < pack(a).len() {
        } else {
            let j = k - a.len() / 8;
            assert(8 * k == a.len() + 8 * j);
        }
    }
    assert(pack(ab) =~= pack(a) + pack(b));
}
/// one byte out of a 64-bit word
pub proof fn lemma_byte_of_word(v: u64, n: nat, o: nat)
    requires n <= 64, o + 8 <= n
    ensures byte_at(bits_of(v, n), o as int) == ((v >> ((n - 8 - o) as u64)) & 0xFF) as u8
{
    let s = (n - 8 - o) as u64;
    let b = bits_of(v, n);
    let c0 = (v >> ((s + 7) as u64)) & 1 == 1; let c1 = (v >> ((s + 6) as u64)) & 1 == 1;
    let c2 = (v >> ((s + 5) as u64)) & 1 == 1; let c3 = (v >> ((s + 4) as u64)) & 1 == 1;
    let c4 = (v >> ((s + 3) as u64)) & 1 == 1; let c5 = (v >> ((s + 2) as u64)) & 1 == 1;
    let c6 = (v >> ((s + 1) as u64)) & 1 == 1; let c7 = (v >> s) & 1 == 1;
    assert(s + 7 < 64);
    assert(((if c0 {1u8} else {0u8}) << 7u8) | ((if c1 {1u8} else {0u8}) << 6u8) | ((if c2 {1u8} else {0u8}) << 5u8)
         | ((if c3 {1u8} else {0u8}) << 4u8) | ((if c4 {1u8} else {0u8}) << 3u8) | ((if c5 {1u8} else {0u8}) << 2u8)
         | ((if c6 {1u8} else {0u8}) << 1u8) | (if c7 {1u8} else {0u8}) == ((v >> s) & 0xFF) as u8) by (bit_vector)
        requires s + 7 < 64, c0 == ((v >> ((s + 7) as u64)) & 1 == 1), c1 == ((v >> ((s + 6) as u64)) & 1 == 1),
            c2 == ((v >> ((s + 5) as u64)) & 1 == 1), c3 == ((v >> ((s + 4) as u64)) & 1 == 1),
            c4 == ((v >> ((s + 3) as u64)) & 1 == 1), c5 == ((v >> ((s + 2) as u64)) & 1 == 1),
            c6 == ((v >> ((s + 1) as u64)) & 1 == 1), c7 == ((v >> s) & 1 == 1);
    assert(b[o as int] == c0 && b[o as int + 1] == c1 && b[o as int + 2] == c2 && b[o as int + 3] == c3);
    assert(b[o as int + 4] == c4 && b[o as int + 5] == c5 && b[o as int + 6] == c6 && b[o as int + 7] == c7);
}
/// appending `size` bits below the p pending ones
pub proof fn lemma_bits_append(buf: u64, p: nat, value: u64, size: nat)
    requires p + size <= 64, size <= 32, value >> (size as u64) == 0
    ensures bits_of(((buf << (size as u64)) | value), p + size) == bits_of(buf, p) + bits_of(value, size)
{
    let w = (buf << (size as u64)) | value;
    let s = size as u64;
    assert forall|i: int| 0 <= i < p + size implies
        bits_of(w, p + size)[i] == (bits_of(buf, p) + bits_of(value, size))[i] by {
        if i < p {
            let j = (p - 1 - i) as u64;
            assert(((((buf << s) | value) >> ((s + j) as u64)) & 1) == ((buf >> j) & 1)) by (bit_vector)
                requires s + j < 64, s <= 32, value >> s == 0;
        } else {
            let j = (p + size - 1 - i) as u64;
            assert(((((buf << s) | value) >> j) & 1) == ((value >> j) & 1)) by (bit_vector)
                requires j < s, s <= 32;
        }
    }
    assert(bits_of(w, p + size) =~= bits_of(buf, p) + bits_of(value, size));
}
/// the top f bits of a value of size bits
pub proof fn lemma_bits_split(value: u64, size: nat, f: nat)
    requires f <= size <= 32
    ensures bits_of(value, size) == bits_of(value >> ((size - f) as u64), f) + bits_of(value, (size - f) as nat)
{
    let r = (size - f) as nat;
    let t = value >> (r as u64);
    assert forall|i: int| 0 <= i < size implies
        bits_of(value, size)[i] == (bits_of(t, f) + bits_of(value, r))[i] by {
        if i < f {
            let j = (f - 1 - i) as u64;
            let q = r as u64;
            assert(((value >> q) >> j) & 1 == (value >> ((q + j) as u64)) & 1) by (bit_vector)
                requires q + j < 64;
        }
    }
    assert(bits_of(value, size) =~= bits_of(t, f) + bits_of(value, r));
}
pub proof fn lemma_shr_lt(v: u64, n: u64)
    requires n < 64, v < (1u64 << n)
    ensures v >> n == 0
{
    assert(v >> n == 0) by (bit_vector) requires n < 64, v < (1u64 << n);
}
/// the word has no 0xFF byte when the filter is zero
pub proof fn lemma_no_ff(x: u64, y: u64)
    requires y == add(x, 0x0101010101010101u64), x & 0x8080808080808080u64 & !y == 0
    ensures forall|i: u64| i < 8 ==> ((x >> #[trigger] mul(8u64, i)) & 0xFF) as u8 != 0xFFu8
{
    assert forall|i: u64| i < 8 implies ((x >> #[trigger] mul(8u64, i)) & 0xFF) as u8 != 0xFFu8 by {
        assert(((x >> mul(8u64, i)) & 0xFF) as u8 != 0xFFu8) by (bit_vector)
            requires i < 8, x & 0x8080808080808080u64 & !add(x, 0x0101010101010101u64) == 0;
    }
}

pub proof fn lemma_wrapping_add(x: u64, y: u64)
    requires y == if x + 0x0101010101010101 > u64::MAX { x + 0x0101010101010101 - 0x1_0000_0000_0000_0000 } else { x + 0x0101010101010101 }
    ensures y == add(x, 0x0101010101010101u64)
{
    if x <= 0xfefefefefefefefeu64 {
        assert(add(x, 0x0101010101010101u64) == x + 0x0101010101010101u64);
    } else {
        let z = (x - 0xfefefefefefefeff) as u64;
        assert(z == sub(x, 0xfefefefefefefeffu64));
        assert(add(x, 0x0101010101010101u64) == sub(x, 0xfefefefefefefeffu64)) by (bit_vector);
    }
}
