
// ---- helpers used by the loop rewriting (verified, not assumed)
pub open spec fn chunk_count(len: nat, n: nat) -> nat { if n == 0 { 0 } else { (len + n - 1) as nat / n } }

pub exec fn vx_min(a: usize, b: usize) -> (r: usize)
    ensures r == if a < b { a } else { b }
{ if a < b { a } else { b } }

pub exec fn vx_chunks_exact_count<T>(s: &[T], n: usize) -> (r: usize)
    requires n > 0
    ensures r == s@.len() / n as nat
{ s.len() / n }

pub exec fn vx_chunk_exact<'a, T>(s: &'a [T], n: usize, k: usize) -> (r: &'a [T])
    requires n > 0, k < s@.len() / n as nat
    ensures r@ == s@.subrange(k * n, k * n + n), k * n + n <= s@.len()
{
    let l = s.len();
    assert(0 <= k * n && k * n + n <= l) by (nonlinear_arith)
        requires n > 0, 0 <= k < l as nat / n as nat;
    &s[k * n..k * n + n]
}

pub exec fn vx_chunks_count<T>(s: &[T], n: usize) -> (r: usize)
    requires n > 0
    ensures r == chunk_count(s@.len(), n as nat)
{
    let l = s.len();
    proof {
        assert((l % n == 0) ==> (l + n - 1) / (n as int) == l / n) by (nonlinear_arith) requires n > 0;
        assert((l % n != 0) ==> (l + n - 1) / (n as int) == l / n + 1) by (nonlinear_arith) requires n > 0;
        assert(l % n != 0 ==> l / n < l) by (nonlinear_arith) requires n > 0;
    }
    if l % n == 0 { l / n } else { l / n + 1 }
}

pub exec fn vx_chunk<'a, T>(s: &'a [T], n: usize, k: usize) -> (r: &'a [T])
    requires n > 0, k < chunk_count(s@.len(), n as nat)
    ensures
        k * n < s@.len(),
        r@ == s@.subrange(k * n, if k * n + n <= s@.len() { k * n + n } else { s@.len() as int }),
{
    let l = s.len();
    assert(0 <= k * n < l) by (nonlinear_arith)
        requires n > 0, 0 <= k < (l + n - 1) as nat / n as nat;
    let a = k * n;
    if s.len() - a < n { &s[a..s.len()] } else { &s[a..a + n] }
}

pub open spec fn refs<'a, T>(s: Seq<T>) -> Seq<&'a T> { Seq::new(s.len(), |i: int| &s[i]) }
pub exec fn vx_collect_refs<'a, T>(s: &'a [T]) -> (r: alloc::vec::Vec<&'a T>)
    ensures r@ == refs(s@), r@.len() == s@.len(), forall|i: int| 0 <= i < s@.len() ==> *#[trigger] r@[i] == s@[i]
{
    let mut r: alloc::vec::Vec<&'a T> = alloc::vec::Vec::new();
    for i in 0..s.len()
        invariant r@.len() == i, forall|k: int| 0 <= k < i ==> *#[trigger] r@[k] == s@[k],
    { r.push(&s[i]); }
    assert(r@ =~= refs(s@));
    r
}

// ---- trusted: big-endian bytes of the primitive integers (core::num)
pub trait VxBytes<const N: usize>: Sized {
    spec fn be(self) -> Seq<u8>;
    fn vx_to_be_bytes(self) -> (r: [u8; N]) ensures r@ == self.be();
}
impl VxBytes<2> for u16 {
    open spec fn be(self) -> Seq<u8> { be16(self) }
    #[verifier::external_body]
    fn vx_to_be_bytes(self) -> (r: [u8; 2]) { self.to_be_bytes() }
}
impl VxBytes<8> for usize {
    open spec fn be(self) -> Seq<u8> { Seq::new(8, |i: int| (((self as u64) >> ((8 * (7 - i)) as u64)) & 0xFF) as u8) }
    #[verifier::external_body]
    fn vx_to_be_bytes(self) -> (r: [u8; 8]) { self.to_be_bytes() }
}
pub open spec fn be16(v: u16) -> Seq<u8> { seq![(v / 256) as u8, (v % 256) as u8] }

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExIoError(std::io::Error);

pub assume_specification<T: Clone>[ <[T]>::to_vec ](s: &[T]) -> (r: alloc::vec::Vec<T>)
    ensures r@.len() == s@.len(), forall|i: int| 0 <= i < s@.len() ==> cloned(#[trigger] s@[i], r@[i]);
pub assume_specification[ i16::leading_zeros ](v: i16) -> (r: u32)
    ensures lz_is(v, r);
/// r is the number of leading zero bits of the 16-bit pattern of v
pub open spec fn lz_is(v: i16, r: u32) -> bool {
    &&& r <= 16
    &&& (v as u16 as u32) >> ((16 - r) as u32) == 0
    &&& r < 16 ==> (v as u16 as u32) >> ((15 - r) as u32) == 1
}
pub assume_specification[ i16::abs ](v: i16) -> (r: i16)
    requires v != i16::MIN
    ensures r == if v < 0 { -v } else { v as int };
pub assume_specification[ i32::abs ](v: i32) -> (r: i32)
    requires v != i32::MIN
    ensures r == if v < 0 { -v } else { v as int };
pub assume_specification[ i16::is_negative ](v: i16) -> (r: bool)
    ensures r == (v < 0);
// widening conversions for which vstd has no specification
pub assume_specification[ <i16 as From<u8>>::from ](b: u8) -> (r: i16)
    ensures r == b as i16;
pub assume_specification[ <i32 as From<u8>>::from ](b: u8) -> (r: i32)
    ensures r == b as i32;
pub assume_specification[ <i64 as From<u8>>::from ](b: u8) -> (r: i64)
    ensures r == b as i64;
pub assume_specification[ <i32 as From<u16>>::from ](b: u16) -> (r: i32)
    ensures r == b as i32;
pub assume_specification[ <i64 as From<u16>>::from ](b: u16) -> (r: i64)
    ensures r == b as i64;
pub assume_specification[ <i64 as From<u32>>::from ](b: u32) -> (r: i64)
    ensures r == b as i64;
pub assume_specification[ <i16 as From<bool>>::from ](b: bool) -> (r: i16)
    ensures r == b as i16;
pub assume_specification[ <i32 as From<bool>>::from ](b: bool) -> (r: i32)
    ensures r == b as i32;
pub assume_specification[ <u32 as From<bool>>::from ](b: bool) -> (r: u32)
    ensures r == b as u32;
pub assume_specification[ <u16 as From<bool>>::from ](b: bool) -> (r: u16)
    ensures r == b as u16;
pub assume_specification[ <u8 as From<bool>>::from ](b: bool) -> (r: u8)
    ensures r == b as u8;
pub assume_specification[ i16::unsigned_abs ](v: i16) -> (r: u16)
    ensures r == if v < 0 { -v } else { v as int };
pub assume_specification[ i32::unsigned_abs ](v: i32) -> (r: u32)
    ensures r == if v < 0 { -v } else { v as int };
pub assume_specification[ u8::abs_diff ](a: u8, b: u8) -> (r: u8)
    ensures r == if a < b { b - a } else { a - b };
pub assume_specification[ usize::div_ceil ](a: usize, b: usize) -> (r: usize)
    requires b != 0
    ensures r == (a + b - 1) / b as int;
pub assume_specification<T>[ core::mem::replace::<T> ](dest: &mut T, src: T) -> (r: T)
    ensures r == *old(dest), *final(dest) == src;
pub assume_specification<T, const N: usize>[ <[T; N] as AsRef<[T]>>::as_ref ](s: &[T; N]) -> (r: &[T])
    ensures r@ == s@;
pub assume_specification[ <usize as From<bool>>::from ](b: bool) -> (r: usize)
    ensures r == if b { 1usize } else { 0usize };

// ---- R11: cursors in place of raw pointers
/// `*const T` into the slice s, at element i; i may be the end
pub struct VxPtr<'a, T> { pub s: &'a [T], pub i: usize }
impl<'a, T> Clone for VxPtr<'a, T> { fn clone(&self) -> (r: Self) ensures r == *self { VxPtr { s: self.s, i: self.i } } }
impl<'a, T> Copy for VxPtr<'a, T> {}
pub exec fn vx_as_ptr<'a, T>(s: &'a [T]) -> (r: VxPtr<'a, T>)
    ensures r.s == s, r.i == 0
{ VxPtr { s, i: 0 } }
impl<'a, T: Copy> VxPtr<'a, T> {
    pub exec fn add(self, k: usize) -> (r: Self)
        requires self.i + k <= self.s@.len()
        ensures r.s == self.s, r.i == self.i + k
    { proof { vstd::slice::axiom_spec_len(self.s); } VxPtr { s: self.s, i: self.i + k } }
    pub exec fn offset(self, k: isize) -> (r: Self)
        requires 0 <= self.i + k <= self.s@.len()
        ensures r.s == self.s, r.i == self.i + k
    { proof { vstd::slice::axiom_spec_len(self.s); } VxPtr { s: self.s, i: if k >= 0 { self.i + k as usize } else { self.i - (-(k as i128)) as usize } } }
    pub exec fn vx_read(self) -> (r: T)
        requires self.i < self.s@.len()
        ensures r == self.s@[self.i as int]
    { self.s[self.i] }
}
/// `*mut T`: the position only, the vector or array it points into is named at each use
pub struct VxMut { pub i: usize }
impl Clone for VxMut { fn clone(&self) -> (r: Self) ensures r == *self { VxMut { i: self.i } } }
impl Copy for VxMut {}
pub exec fn vx_as_mut_ptr() -> (r: VxMut) ensures r.i == 0 { VxMut { i: 0 } }
impl VxMut {
    pub exec fn add(self, k: usize) -> (r: Self)
        requires self.i + k <= isize::MAX
        ensures r.i == self.i + k
    { VxMut { i: self.i + k } }
    pub exec fn offset(self, k: isize) -> (r: Self)
        requires 0 <= self.i + k <= isize::MAX
        ensures r.i == self.i + k
    { VxMut { i: if k >= 0 { self.i + k as usize } else { self.i - (-(k as i128)) as usize } } }
}
pub exec fn vx_write<T>(v: &mut alloc::vec::Vec<T>, p: VxMut, x: T)
    requires p.i < old(v)@.len()
    ensures final(v)@ == old(v)@.update(p.i as int, x)
{ v.set(p.i, x); }
pub exec fn vx_read_mut<T: Copy>(v: &alloc::vec::Vec<T>, p: VxMut) -> (r: T)
    requires p.i < v@.len()
    ensures r == v@[p.i as int]
{ v[p.i] }
/// the capacity is not modelled: that n does not exceed it is assumed; new elements are arbitrary
pub assume_specification<T, A: core::alloc::Allocator>[ alloc::vec::Vec::<T, A>::set_len ](v: &mut alloc::vec::Vec<T, A>, n: usize)
    ensures final(v)@.len() == n, forall|i: int| 0 <= i < n && i < old(v)@.len() ==> #[trigger] final(v)@[i] == old(v)@[i];
/// a vector never holds more than isize::MAX bytes
pub axiom fn axiom_vec_len(v: &alloc::vec::Vec<u8>)
    ensures v@.len() <= isize::MAX;
/// nor does a slice of bytes
pub axiom fn axiom_slice_len(s: &[u8])
    ensures s@.len() <= isize::MAX;
