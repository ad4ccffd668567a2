//@ extra mod
pub use crate::spec_dct::*;
broadcast use {lemma_shr, lemma_shl, lemma_scale};
//@ fn descale
    requires n == 2 || n == 11 || n == 15, -0x3fff0000 <= x <= 0x3fff0000,
    ensures
        n == 2 ==> res == rdiv(x as int, 4),
        n == 11 ==> res == rdiv(x as int, 2048),
        n == 15 ==> res == rdiv(x as int, 32768),
//@ fn into_el
    ensures -32768 <= v <= 32767 ==> res == v,
//@ fn fdct
//@ attr #[verifier::rlimit(100)]
    requires px_ok(old(data)@),
    ensures final(data)@ == fdct_fn(old(data)@), dct_ok(final(data)@),
//@ at start
let ghost s = data@;
//@ loop 0
    invariant
        px_ok(s), data@ == s,
        forall|i: int| 0 <= i < 64 && i / 8 < y ==> #[trigger] data2@[i] == pass1(s, i / 8, i % 8),
//@ loop 0 start
proof { lemma_factors(); }
//@ loop 0 end
proof {
    assert(data2@[8 * y + 0] == rdiv(m8(0, s[8 * y + 0] as int, s[8 * y + 1] as int, s[8 * y + 2] as int, s[8 * y + 3] as int, s[8 * y + 4] as int, s[8 * y + 5] as int, s[8 * y + 6] as int, s[8 * y + 7] as int), 2048)) by { reveal(m8); }
    assert(data2@[8 * y + 1] == rdiv(m8(1, s[8 * y + 0] as int, s[8 * y + 1] as int, s[8 * y + 2] as int, s[8 * y + 3] as int, s[8 * y + 4] as int, s[8 * y + 5] as int, s[8 * y + 6] as int, s[8 * y + 7] as int), 2048)) by { reveal(m8); }
    assert(data2@[8 * y + 2] == rdiv(m8(2, s[8 * y + 0] as int, s[8 * y + 1] as int, s[8 * y + 2] as int, s[8 * y + 3] as int, s[8 * y + 4] as int, s[8 * y + 5] as int, s[8 * y + 6] as int, s[8 * y + 7] as int), 2048)) by { reveal(m8); }
    assert(data2@[8 * y + 3] == rdiv(m8(3, s[8 * y + 0] as int, s[8 * y + 1] as int, s[8 * y + 2] as int, s[8 * y + 3] as int, s[8 * y + 4] as int, s[8 * y + 5] as int, s[8 * y + 6] as int, s[8 * y + 7] as int), 2048)) by { reveal(m8); }
    assert(data2@[8 * y + 4] == rdiv(m8(4, s[8 * y + 0] as int, s[8 * y + 1] as int, s[8 * y + 2] as int, s[8 * y + 3] as int, s[8 * y + 4] as int, s[8 * y + 5] as int, s[8 * y + 6] as int, s[8 * y + 7] as int), 2048)) by { reveal(m8); }
    assert(data2@[8 * y + 5] == rdiv(m8(5, s[8 * y + 0] as int, s[8 * y + 1] as int, s[8 * y + 2] as int, s[8 * y + 3] as int, s[8 * y + 4] as int, s[8 * y + 5] as int, s[8 * y + 6] as int, s[8 * y + 7] as int), 2048)) by { reveal(m8); }
    assert(data2@[8 * y + 6] == rdiv(m8(6, s[8 * y + 0] as int, s[8 * y + 1] as int, s[8 * y + 2] as int, s[8 * y + 3] as int, s[8 * y + 4] as int, s[8 * y + 5] as int, s[8 * y + 6] as int, s[8 * y + 7] as int), 2048)) by { reveal(m8); }
    assert(data2@[8 * y + 7] == rdiv(m8(7, s[8 * y + 0] as int, s[8 * y + 1] as int, s[8 * y + 2] as int, s[8 * y + 3] as int, s[8 * y + 4] as int, s[8 * y + 5] as int, s[8 * y + 6] as int, s[8 * y + 7] as int), 2048)) by { reveal(m8); }
    reveal(pass1);
    assert forall|i: int| 0 <= i < 64 && i / 8 < y + 1 implies #[trigger] data2@[i] == pass1(s, i / 8, i % 8) by {
        if i / 8 == y { let k = i % 8; assert(i == 8 * y + k); assert(k == 0 || k == 1 || k == 2 || k == 3 || k == 4 || k == 5 || k == 6 || k == 7); }
    }
}
//@ loop 1
    invariant
        px_ok(s),
        forall|i: int| 0 <= i < 64 ==> #[trigger] data2@[i] == pass1(s, i / 8, i % 8),
        forall|i: int| 0 <= i < 64 && i % 8 < x ==> #[trigger] data@[i] == pass2(s, i / 8, i % 8),
//@ loop 1 start
proof {
    lemma_factors();
    lemma_p1(s, 0, x as int); lemma_p1(s, 1, x as int); lemma_p1(s, 2, x as int); lemma_p1(s, 3, x as int);
    lemma_p1(s, 4, x as int); lemma_p1(s, 5, x as int); lemma_p1(s, 6, x as int); lemma_p1(s, 7, x as int);
    assert(-4096 <= data2@[0 + x] <= 4096 && -4096 <= data2@[8 + x] <= 4096 && -4096 <= data2@[16 + x] <= 4096 && -4096 <= data2@[24 + x] <= 4096 && -4096 <= data2@[32 + x] <= 4096 && -4096 <= data2@[40 + x] <= 4096 && -4096 <= data2@[48 + x] <= 4096 && -4096 <= data2@[56 + x] <= 4096);
}
//@ loop 1 end
proof {
    assert(data@[0 + x] == rdiv(m8(0, data2@[0 + x] as int, data2@[8 + x] as int, data2@[16 + x] as int, data2@[24 + x] as int, data2@[32 + x] as int, data2@[40 + x] as int, data2@[48 + x] as int, data2@[56 + x] as int), 32768)) by { reveal(m8); }
    assert(data@[8 + x] == rdiv(m8(1, data2@[0 + x] as int, data2@[8 + x] as int, data2@[16 + x] as int, data2@[24 + x] as int, data2@[32 + x] as int, data2@[40 + x] as int, data2@[48 + x] as int, data2@[56 + x] as int), 32768)) by { reveal(m8); }
    assert(data@[16 + x] == rdiv(m8(2, data2@[0 + x] as int, data2@[8 + x] as int, data2@[16 + x] as int, data2@[24 + x] as int, data2@[32 + x] as int, data2@[40 + x] as int, data2@[48 + x] as int, data2@[56 + x] as int), 32768)) by { reveal(m8); }
    assert(data@[24 + x] == rdiv(m8(3, data2@[0 + x] as int, data2@[8 + x] as int, data2@[16 + x] as int, data2@[24 + x] as int, data2@[32 + x] as int, data2@[40 + x] as int, data2@[48 + x] as int, data2@[56 + x] as int), 32768)) by { reveal(m8); }
    assert(data@[32 + x] == rdiv(m8(4, data2@[0 + x] as int, data2@[8 + x] as int, data2@[16 + x] as int, data2@[24 + x] as int, data2@[32 + x] as int, data2@[40 + x] as int, data2@[48 + x] as int, data2@[56 + x] as int), 32768)) by { reveal(m8); }
    assert(data@[40 + x] == rdiv(m8(5, data2@[0 + x] as int, data2@[8 + x] as int, data2@[16 + x] as int, data2@[24 + x] as int, data2@[32 + x] as int, data2@[40 + x] as int, data2@[48 + x] as int, data2@[56 + x] as int), 32768)) by { reveal(m8); }
    assert(data@[48 + x] == rdiv(m8(6, data2@[0 + x] as int, data2@[8 + x] as int, data2@[16 + x] as int, data2@[24 + x] as int, data2@[32 + x] as int, data2@[40 + x] as int, data2@[48 + x] as int, data2@[56 + x] as int), 32768)) by { reveal(m8); }
    assert(data@[56 + x] == rdiv(m8(7, data2@[0 + x] as int, data2@[8 + x] as int, data2@[16 + x] as int, data2@[24 + x] as int, data2@[32 + x] as int, data2@[40 + x] as int, data2@[48 + x] as int, data2@[56 + x] as int), 32768)) by { reveal(m8); }
    reveal(pass2);
    assert forall|i: int| 0 <= i < 64 && i % 8 < x + 1 implies #[trigger] data@[i] == pass2(s, i / 8, i % 8) by {
        if i % 8 == x { let u = i / 8; assert(i == 8 * u + x); assert(u == 0 || u == 1 || u == 2 || u == 3 || u == 4 || u == 5 || u == 6 || u == 7); }
    }
}
//@ at end
proof {
    reveal(fdct_fn);
    assert forall|i: int| 0 <= i < 64 implies data@[i] as int == pass2(s, i / 8, i % 8) && (i == 0 ==> -8192 <= data@[i] <= 8128) && (i != 0 ==> -8183 <= #[trigger] data@[i] <= 8183) by { lemma_p2(s, i / 8, i % 8); }
    assert(data@ =~= fdct_fn(s));
}
