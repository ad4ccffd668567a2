// Construction of a Huffman code (T.81 annex K.2): the forest of merged symbols, counts of code lengths
use vstd::arithmetic::power2::*;
use crate::spec_huff::*;

pub open spec fn isum(s: Seq<int>) -> int
    decreases s.len()
{
    if s.len() == 0 { 0 } else { isum(s.drop_last()) + s.last() }
}
pub proof fn isum_update(s: Seq<int>, i: int, v: int)
    requires 0 <= i < s.len()
    ensures isum(s.update(i, v)) == isum(s) + v - s[i]
    decreases s.len()
{
    if i == s.len() - 1 { assert(s.update(i, v).drop_last() =~= s.drop_last()); }
    else { isum_update(s.drop_last(), i, v); assert(s.update(i, v).drop_last() =~= s.drop_last().update(i, v)); }
}
pub proof fn isum_le(a: Seq<int>, b: Seq<int>)
    requires a.len() == b.len(), forall|i: int| 0 <= i < a.len() ==> #[trigger] a[i] <= b[i]
    ensures isum(a) <= isum(b)
    decreases a.len()
{
    if a.len() > 0 {
        assert forall|i: int| 0 <= i < a.len() - 1 implies #[trigger] a.drop_last()[i] <= b.drop_last()[i] by { assert(a[i] <= b[i]); }
        isum_le(a.drop_last(), b.drop_last());
        assert(a[a.len() - 1] <= b[b.len() - 1]);
    }
}
pub proof fn isum_double(a: Seq<int>, b: Seq<int>, c: Seq<int>)
    requires a.len() == b.len() == c.len(), forall|i: int| 0 <= i < a.len() ==> 2 * #[trigger] a[i] == b[i] + c[i]
    ensures 2 * isum(a) == isum(b) + isum(c)
    decreases a.len()
{
    if a.len() > 0 {
        assert forall|i: int| 0 <= i < a.len() - 1 implies 2 * #[trigger] a.drop_last()[i] == b.drop_last()[i] + c.drop_last()[i] by { assert(2 * a[i] == b[i] + c[i]); }
        isum_double(a.drop_last(), b.drop_last(), c.drop_last());
        assert(2 * a[a.len() - 1] == b[b.len() - 1] + c[c.len() - 1]);
    }
}
pub proof fn isum_nonneg(a: Seq<int>)
    requires forall|i: int| 0 <= i < a.len() ==> 0 <= #[trigger] a[i]
    ensures isum(a) >= 0
    decreases a.len()
{
    if a.len() > 0 {
        assert forall|i: int| 0 <= i < a.len() - 1 implies 0 <= #[trigger] a.drop_last()[i] by { assert(0 <= a[i]); }
        isum_nonneg(a.drop_last());
        assert(0 <= a[a.len() - 1]);
    }
}
pub proof fn isum_two(a: Seq<int>, i: int, j: int)
    requires forall|i: int| 0 <= i < a.len() ==> 0 <= #[trigger] a[i], 0 <= i < a.len(), 0 <= j < a.len()
    ensures isum(a) >= a[i], i != j ==> isum(a) >= a[i] + a[j]
{
    isum_update(a, i, 0);
    isum_nonneg(a.update(i, 0));
    if i != j { isum_update(a.update(i, 0), j, 0); isum_nonneg(a.update(i, 0).update(j, 0)); }
}
pub proof fn isum_bound(a: Seq<int>, b: int)
    requires forall|i: int| 0 <= i < a.len() ==> #[trigger] a[i] <= b
    ensures isum(a) <= a.len() * b
    decreases a.len()
{
    if a.len() > 0 {
        assert forall|i: int| 0 <= i < a.len() - 1 implies #[trigger] a.drop_last()[i] <= b by { assert(a[i] <= b); }
        isum_bound(a.drop_last(), b);
        assert(a[a.len() - 1] <= b);
        assert((a.len() - 1) * b + b == a.len() * b) by (nonlinear_arith);
    } else { assert(0 * b == 0); }
}
pub proof fn isum_take(a: Seq<int>, k: int)
    requires forall|i: int| 0 <= i < a.len() ==> 0 <= #[trigger] a[i], 0 <= k <= a.len()
    ensures isum(a.take(k)) <= isum(a), k < a.len() ==> isum(a.take(k + 1)) == isum(a.take(k)) + a[k]
    decreases a.len()
{
    if k < a.len() {
        assert(a.take(k + 1).drop_last() =~= a.take(k));
        if k + 1 < a.len() || true {
            isum_tail(a, k);
        }
    } else { assert(a.take(k) =~= a); }
}
pub proof fn isum_tail(a: Seq<int>, k: int)
    requires forall|i: int| 0 <= i < a.len() ==> 0 <= #[trigger] a[i], 0 <= k <= a.len()
    ensures isum(a.take(k)) <= isum(a)
    decreases a.len()
{
    if k < a.len() {
        assert forall|i: int| 0 <= i < a.len() - 1 implies 0 <= #[trigger] a.drop_last()[i] by { assert(0 <= a[i]); }
        isum_tail(a.drop_last(), k);
        assert(a.drop_last().take(k) =~= a.take(k));
        assert(0 <= a[a.len() - 1]);
    } else { assert(a.take(k) =~= a); }
}

// ---- counts of code lengths: pos and ksum of an updated list
pub proof fn pos_update(l: Seq<u8>, i: int, v: u8, n: int)
    requires 0 <= i < l.len(), 0 <= n <= l.len()
    ensures pos(l.update(i, v), n) == if i < n { pos(l, n) + v - l[i] } else { pos(l, n) as int }
    decreases n
{
    if n > 0 { pos_update(l, i, v, n - 1); }
}
pub proof fn ksum_update(l: Seq<u8>, i: int, v: u8, n: int)
    requires 0 <= i < l.len(), 0 <= n <= l.len()
    ensures ksum(l.update(i, v), n) == if i < n { ksum(l, n) + (v - l[i]) * pow2((n - 1 - i) as nat) } else { ksum(l, n) as int }
    decreases n
{
    if n > 0 {
        ksum_update(l, i, v, n - 1);
        if i < n - 1 {
            lemma_pow2_unfold((n - 1 - i) as nat);
            assert(2 * ((v - l[i]) * pow2((n - 2 - i) as nat)) == (v - l[i]) * pow2((n - 1 - i) as nat)) by (nonlinear_arith)
                requires pow2((n - 1 - i) as nat) == 2 * pow2((n - 2 - i) as nat);
        } else if i == n - 1 {
            lemma2_to64();
            assert((v - l[i]) * 1 == v - l[i]);
        }
    }
}
pub proof fn pos_zero(l: Seq<u8>, n: int)
    requires 0 <= n <= l.len(), forall|i: int| 0 <= i < n ==> #[trigger] l[i] == 0
    ensures pos(l, n) == 0, ksum(l, n) == 0
    decreases n
{
    if n > 0 { pos_zero(l, n - 1); assert(l[n - 1] == 0); }
}
pub proof fn ksum_of_pos_zero(l: Seq<u8>, n: int)
    requires pos(l, n) == 0
    ensures ksum(l, n) == 0
    decreases n
{
    if n > 0 { lemma_pos_mono(l, n - 1, n); ksum_of_pos_zero(l, n - 1); }
}
pub proof fn pos_two(l: Seq<u8>, i: int, j: int, n: int)
    requires 0 <= i < n, 0 <= j < n, n <= l.len()
    ensures pos(l, n) >= l[i], i != j ==> pos(l, n) >= l[i] + l[j]
    decreases n
{
    lemma_pos_mono(l, 0, n);
    pos_update(l, i, 0, n);
    let m = l.update(i, 0);
    lemma_pos_mono(m, 0, n);
    if i != j { pos_update(m, j, 0, n); lemma_pos_mono(m.update(j, 0), 0, n); }
}
pub proof fn pos_prefix(l: Seq<u8>, m: Seq<u8>, n: int)
    requires 0 <= n <= l.len(), n <= m.len(), forall|i: int| 0 <= i < n ==> #[trigger] l[i] == m[i]
    ensures pos(l, n) == pos(m, n), ksum(l, n) == ksum(m, n)
    decreases n
{
    if n > 0 { pos_prefix(l, m, n - 1); assert(l[n - 1] == m[n - 1]); }
}
pub open spec fn cnt1(b: Seq<u8>) -> Seq<u8> { b.subrange(1, 257) }

// ---- figure K.1: trees of merged symbols; head[j] is the first symbol of the tree that holds j (-1: j does not occur)
pub ghost struct Forest {
    pub head: Seq<int>,
    pub at: Seq<int>,
    pub ch: Seq<Seq<int>>,
}
pub open spec fn f0_forest(freq: Seq<u64>) -> Forest {
    Forest {
        head: Seq::new(257, |j: int| if freq[j] > 0 { j } else { -1 }),
        at: Seq::new(257, |j: int| 0),
        ch: Seq::new(257, |j: int| if freq[j] > 0 { seq![j] } else { Seq::empty() }),
    }
}
pub open spec fn kterm(t: Forest, cs: Seq<usize>, v: int) -> Seq<int> {
    Seq::new(257, |j: int| if t.head[j] == v { pow2((256 - cs[j]) as nat) as int } else { 0 })
}
pub open spec fn iseq(f: Seq<u64>) -> Seq<int> { Seq::new(f.len(), |j: int| f[j] as int) }
pub open spec fn active(f: Seq<u64>) -> Seq<int> { Seq::new(f.len(), |j: int| if f[j] > 0 { 1 } else { 0 }) }
impl Forest {
    #[verifier::opaque]
    pub open spec fn shape(self, f: Seq<u64>, o: Seq<i32>) -> bool {
        &&& self.head.len() == 257 && self.at.len() == 257 && self.ch.len() == 257 && f.len() == 257 && o.len() == 257
        &&& forall|j: int| 0 <= j < 257 ==> -1 <= #[trigger] self.head[j] < 257
        &&& forall|j: int| 0 <= j < 257 && #[trigger] self.head[j] >= 0 ==> f[self.head[j]] > 0 && 0 <= self.at[j] < self.ch[self.head[j]].len() && self.ch[self.head[j]][self.at[j]] == j
        &&& forall|v: int| 0 <= v < 257 && #[trigger] f[v] > 0 ==> self.ch[v].len() > 0 && self.ch[v][0] == v
        &&& forall|v: int, p: int| 0 <= v < 257 && 0 <= p < self.ch[v].len() ==> 0 <= #[trigger] self.ch[v][p] < 257 && self.head[self.ch[v][p]] == v && self.at[self.ch[v][p]] == p
        &&& forall|v: int, p: int| 0 <= v < 257 && 0 <= p < self.ch[v].len() - 1 ==> o[#[trigger] self.ch[v][p]] == self.ch[v][p + 1]
        &&& forall|v: int| 0 <= v < 257 && #[trigger] self.ch[v].len() > 0 ==> o[self.ch[v].last()] == -1
    }
    /// code lengths: the codes of a tree use up the whole code space of the tree
    #[verifier::opaque]
    pub open spec fn sized(self, f: Seq<u64>, cs: Seq<usize>) -> bool {
        &&& cs.len() == 257
        &&& forall|j: int| 0 <= j < 257 && self.head[j] < 0 ==> #[trigger] cs[j] == 0
        &&& forall|j: int| 0 <= j < 257 && self.head[j] >= 0 ==> #[trigger] cs[j] < self.ch[self.head[j]].len() && (self.ch[self.head[j]].len() >= 2 ==> cs[j] >= 1)
        &&& forall|v: int| 0 <= v < 257 && #[trigger] f[v] > 0 ==> isum(kterm(self, cs, v)) == pow2(256)
    }
    /// the tree of v2 joins that of v1
    pub open spec fn merge(self, v1: int, v2: int) -> Forest {
        Forest {
            head: Seq::new(257, |j: int| if self.head[j] == v2 { v1 } else { self.head[j] }),
            at: Seq::new(257, |j: int| if self.head[j] == v2 { self.at[j] + self.ch[v1].len() } else { self.at[j] }),
            ch: self.ch.update(v1, self.ch[v1] + self.ch[v2]).update(v2, Seq::empty()),
        }
    }
    /// one level deeper: all of v's tree up to position p
    pub open spec fn deeper(self, cs: Seq<usize>, old: Seq<usize>, v: int, p: int) -> bool {
        &&& cs.len() == 257
        &&& forall|j: int| 0 <= j < 257 ==> #[trigger] cs[j] == old[j] + if self.head[j] == v && self.at[j] <= p { 1int } else { 0 }
    }
}
pub proof fn lemma_chain_len(s: Seq<int>)
    requires s.no_duplicates(), forall|p: int| 0 <= p < s.len() ==> 0 <= #[trigger] s[p] < 257
    ensures s.len() <= 257
{
    s.unique_seq_to_set();
    vstd::set_lib::lemma_int_range(0, 257);
    assert(s.to_set().subset_of(vstd::set_lib::set_int_range(0, 257)));
    vstd::set_lib::lemma_len_subset(s.to_set(), vstd::set_lib::set_int_range(0, 257));
}
pub proof fn lemma_forest_init(f: Seq<u64>, o: Seq<i32>, cs: Seq<usize>)
    requires f.len() == 257, o.len() == 257, cs.len() == 257,
        forall|j: int| 0 <= j < 257 ==> #[trigger] o[j] == -1, forall|j: int| 0 <= j < 257 ==> #[trigger] cs[j] == 0
    ensures f0_forest(f).shape(f, o), f0_forest(f).sized(f, cs)
{
    let t = f0_forest(f);
    reveal(Forest::shape); reveal(Forest::sized);
    assert forall|v: int| 0 <= v < 257 && #[trigger] f[v] > 0 implies isum(kterm(t, cs, v)) == pow2(256) by {
        let z = Seq::new(257, |j: int| 0int);
        isum_le(z, z); isum_zero(z);
        isum_update(z, v, pow2(256) as int);
        assert(cs[v] == 0);
        assert(kterm(t, cs, v) =~= z.update(v, pow2(256) as int));
    }
}
pub proof fn isum_zero(z: Seq<int>)
    requires forall|i: int| 0 <= i < z.len() ==> #[trigger] z[i] == 0
    ensures isum(z) == 0
{
    isum_bound(z, 0); isum_nonneg(z);
}
/// what a walk along a tree meets next
pub proof fn lemma_walk(t: Forest, f: Seq<u64>, o: Seq<i32>, cs: Seq<usize>, old: Seq<usize>, v: int, p: int)
    requires t.shape(f, o), old.len() == 257, forall|j: int| 0 <= j < 257 && t.head[j] == v ==> #[trigger] old[j] <= 256, 0 <= v < 257, 0 <= p < t.ch[v].len(), t.deeper(cs, old, v, p)
    ensures
        0 <= t.ch[v][p] < 257,
        t.ch[v].len() <= 257, o[t.ch[v][p]] >= -1,
        o[t.ch[v][p]] >= 0 <==> p + 1 < t.ch[v].len(),
        o[t.ch[v][p]] >= 0 ==> o[t.ch[v][p]] == t.ch[v][p + 1],
        o[t.ch[v][p]] >= 0 ==> 0 <= t.ch[v][p + 1] < 257 && cs[t.ch[v][p + 1]] <= 256 && t.deeper(cs.update(t.ch[v][p + 1], (cs[t.ch[v][p + 1]] + 1) as usize), old, v, p + 1),
{
    reveal(Forest::shape); reveal(Forest::sized);
    let c = t.ch[v];
    assert(c.no_duplicates()) by {
        assert forall|a: int, b: int| 0 <= a < c.len() && 0 <= b < c.len() && a != b implies c[a] != c[b] by { assert(t.at[t.ch[v][a]] == a && t.at[t.ch[v][b]] == b); }
    }
    lemma_chain_len(c);
    if p + 1 < c.len() {
        let x = c[p + 1];
        assert(t.ch[v][p + 1] == x);
        assert(t.at[x] == p + 1 && t.head[x] == v);
        assert(cs[x] == old[x]);
        let n = cs.update(x, (cs[x] + 1) as usize);
        assert forall|j: int| 0 <= j < 257 implies #[trigger] n[j] == old[j] + if t.head[j] == v && t.at[j] <= p + 1 { 1int } else { 0 } by {
            assert(cs[j] == old[j] + if t.head[j] == v && t.at[j] <= p { 1int } else { 0 });
            if j != x && t.head[j] == v && t.at[j] == p + 1 { assert(t.ch[t.head[j]][t.at[j]] == j); }
        }
    } else {
        assert(c.last() == c[p]);
        assert(o[t.ch[v].last()] == -1);
    }
}
pub proof fn lemma_walk_start(t: Forest, f: Seq<u64>, o: Seq<i32>, old: Seq<usize>, v: int)
    requires t.shape(f, o), old.len() == 257, forall|j: int| 0 <= j < 257 && t.head[j] == v ==> #[trigger] old[j] <= 256, 0 <= v < 257, f[v] > 0
    ensures
        t.ch[v].len() > 0, t.ch[v][0] == v, old[v] <= 256,
        t.deeper(old.update(v, (old[v] + 1) as usize), old, v, 0),
{
    reveal(Forest::shape); reveal(Forest::sized);
    let c = t.ch[v];
    assert(t.ch[v][0] == v);
    assert(t.head[v] == v && t.at[v] == 0);
    assert(c.no_duplicates()) by {
        assert forall|a: int, b: int| 0 <= a < c.len() && 0 <= b < c.len() && a != b implies c[a] != c[b] by { assert(t.at[t.ch[v][a]] == a && t.at[t.ch[v][b]] == b); }
    }
    lemma_chain_len(c);
    let n = old.update(v, (old[v] + 1) as usize);
    assert forall|j: int| 0 <= j < 257 implies #[trigger] n[j] == old[j] + if t.head[j] == v && t.at[j] <= 0 { 1int } else { 0 } by {
        if j != v && t.head[j] == v && t.at[j] == 0 { assert(t.ch[t.head[j]][t.at[j]] == j); }
    }
}
/// linking the end of v1's tree to v2 makes one tree of the two
pub proof fn lemma_merge(t: Forest, f: Seq<u64>, o: Seq<i32>, old: Seq<usize>, mid: Seq<usize>, cs: Seq<usize>, v1: int, v2: int, e: int, sum: u64)
    requires
        t.shape(f, o), t.sized(f, old), 0 <= v1 < 257, 0 <= v2 < 257, v1 != v2, f[v1] > 0, f[v2] > 0, sum > 0,
        t.deeper(mid, old, v1, t.ch[v1].len() - 1), t.deeper(cs, mid, v2, t.ch[v2].len() - 1),
        e == t.ch[v1].last(),
    ensures
        t.merge(v1, v2).shape(f.update(v1, sum).update(v2, 0), o.update(e, v2 as i32)),
        t.merge(v1, v2).sized(f.update(v1, sum).update(v2, 0), cs),
{
    lemma_merge_shape(t, f, o, v1, v2, e, sum);
    lemma_merge_sized(t, f, o, old, mid, cs, v1, v2, e, sum);
}
pub proof fn lemma_merge_shape(t: Forest, f: Seq<u64>, o: Seq<i32>, v1: int, v2: int, e: int, sum: u64)
    requires
        t.shape(f, o), 0 <= v1 < 257, 0 <= v2 < 257, v1 != v2, f[v1] > 0, f[v2] > 0, sum > 0, e == t.ch[v1].last(),
    ensures t.merge(v1, v2).shape(f.update(v1, sum).update(v2, 0), o.update(e, v2 as i32)),
{
    let u = t.merge(v1, v2); let g = f.update(v1, sum).update(v2, 0); let o2 = o.update(e, v2 as i32);
    assert(t.head.len() == 257 && t.ch.len() == 257 && f.len() == 257 && o.len() == 257) by { reveal(Forest::shape); }
    assert forall|j: int| 0 <= j < 257 implies -1 <= #[trigger] u.head[j] < 257 by { lemma_merge_head(t, f, o, v1, v2, sum, j); }
    assert forall|j: int| 0 <= j < 257 && #[trigger] u.head[j] >= 0 implies g[u.head[j]] > 0 && 0 <= u.at[j] < u.ch[u.head[j]].len() && u.ch[u.head[j]][u.at[j]] == j by {
        lemma_merge_head(t, f, o, v1, v2, sum, j);
    }
    assert forall|v: int| 0 <= v < 257 && #[trigger] g[v] > 0 implies u.ch[v].len() > 0 && u.ch[v][0] == v by {
        assert(f[v] > 0);
        assert(t.ch[v].len() > 0 && t.ch[v][0] == v) by { reveal(Forest::shape); }
    }
    assert forall|v: int, p: int| 0 <= v < 257 && 0 <= p < u.ch[v].len() implies 0 <= #[trigger] u.ch[v][p] < 257 && u.head[u.ch[v][p]] == v && u.at[u.ch[v][p]] == p by {
        lemma_merge_elem(t, f, o, v1, v2, e, v, p);
    }
    assert forall|v: int, p: int| 0 <= v < 257 && 0 <= p < u.ch[v].len() - 1 implies o2[#[trigger] u.ch[v][p]] == u.ch[v][p + 1] by {
        lemma_merge_elem(t, f, o, v1, v2, e, v, p);
    }
    assert forall|v: int| 0 <= v < 257 && #[trigger] u.ch[v].len() > 0 implies o2[u.ch[v].last()] == -1 by {
        lemma_merge_elem(t, f, o, v1, v2, e, v, u.ch[v].len() - 1);
    }
    assert(u.head.len() == 257 && u.at.len() == 257 && u.ch.len() == 257 && g.len() == 257 && o2.len() == 257);
    assert(u.shape(g, o2)) by { reveal(Forest::shape); }
}
pub proof fn lemma_merge_head(t: Forest, f: Seq<u64>, o: Seq<i32>, v1: int, v2: int, sum: u64, j: int)
    requires t.shape(f, o), 0 <= v1 < 257, 0 <= v2 < 257, v1 != v2, f[v1] > 0, f[v2] > 0, sum > 0, 0 <= j < 257
    ensures ({
        let u = t.merge(v1, v2); let g = f.update(v1, sum).update(v2, 0);
        -1 <= u.head[j] < 257 && (u.head[j] >= 0 ==> g[u.head[j]] > 0 && 0 <= u.at[j] < u.ch[u.head[j]].len() && u.ch[u.head[j]][u.at[j]] == j)
    })
{
    let u = t.merge(v1, v2);
    let c = t.ch[v1]; let d = t.ch[v2]; let h = t.head[j];
    assert(t.head.len() == 257 && t.ch.len() == 257 && f.len() == 257 && -1 <= h < 257 && (h >= 0 ==> f[h] > 0 && 0 <= t.at[j] < t.ch[h].len() && t.ch[h][t.at[j]] == j)) by { reveal(Forest::shape); }
    assert(u.ch[v1] == c + d);
    if h == v2 { assert((c + d)[t.at[j] + c.len()] == d[t.at[j]]); }
    else if h == v1 { assert((c + d)[t.at[j]] == c[t.at[j]]); }
}
pub proof fn lemma_merge_elem(t: Forest, f: Seq<u64>, o: Seq<i32>, v1: int, v2: int, e: int, v: int, p: int)
    requires t.shape(f, o), 0 <= v1 < 257, 0 <= v2 < 257, v1 != v2, f[v1] > 0, f[v2] > 0, e == t.ch[v1].last(), 0 <= v < 257, 0 <= p < t.merge(v1, v2).ch[v].len()
    ensures ({
        let u = t.merge(v1, v2); let o2 = o.update(e, v2 as i32); let x = u.ch[v][p];
        &&& 0 <= x < 257 && u.head[x] == v && u.at[x] == p
        &&& p + 1 < u.ch[v].len() ==> o2[x] == u.ch[v][p + 1]
        &&& p + 1 == u.ch[v].len() ==> o2[x] == -1
    })
{
    let u = t.merge(v1, v2);
    let c = t.ch[v1]; let d = t.ch[v2];
    assert(t.ch[v1].len() > 0 && t.ch[v2].len() > 0 && t.head.len() == 257 && t.at.len() == 257 && t.ch.len() == 257 && f.len() == 257 && o.len() == 257 && t.ch[v2][0] == v2) by { reveal(Forest::shape); }
    assert(u.ch[v1] == c + d); assert(u.ch[v2].len() == 0);
    lemma_elem(t, f, o, v1, c.len() - 1);
    if v == v1 {
        if p < c.len() {
            assert(u.ch[v][p] == t.ch[v1][p]);
            lemma_elem(t, f, o, v1, p);
            if p == c.len() - 1 { assert(u.ch[v][p + 1] == t.ch[v2][0]); } else { assert(u.ch[v][p + 1] == t.ch[v1][p + 1]); }
        } else {
            lemma_elem(t, f, o, v2, p - c.len());
            assert(u.ch[v][p] == t.ch[v2][p - c.len()]);
            if p + 1 < u.ch[v].len() { assert(u.ch[v][p + 1] == t.ch[v2][p + 1 - c.len()]); }
        }
    } else {
        assert(u.ch[v] == t.ch[v]);
        lemma_elem(t, f, o, v, p);
    }
}
pub proof fn lemma_elem(t: Forest, f: Seq<u64>, o: Seq<i32>, v: int, p: int)
    requires t.shape(f, o), 0 <= v < 257, 0 <= p < t.ch[v].len()
    ensures
        0 <= t.ch[v][p] < 257, t.head[t.ch[v][p]] == v, t.at[t.ch[v][p]] == p,
        p + 1 < t.ch[v].len() ==> o[t.ch[v][p]] == t.ch[v][p + 1],
        p + 1 == t.ch[v].len() ==> o[t.ch[v][p]] == -1,
{
    reveal(Forest::shape);
    assert(t.head[t.ch[v][p]] == v);
}
pub proof fn lemma_merge_sized(t: Forest, f: Seq<u64>, o: Seq<i32>, old: Seq<usize>, mid: Seq<usize>, cs: Seq<usize>, v1: int, v2: int, e: int, sum: u64)
    requires
        t.shape(f, o), t.sized(f, old), 0 <= v1 < 257, 0 <= v2 < 257, v1 != v2, f[v1] > 0, f[v2] > 0, sum > 0,
        t.deeper(mid, old, v1, t.ch[v1].len() - 1), t.deeper(cs, mid, v2, t.ch[v2].len() - 1),
        e == t.ch[v1].last(),
    ensures t.merge(v1, v2).sized(f.update(v1, sum).update(v2, 0), cs),
{
    let u = t.merge(v1, v2); let g = f.update(v1, sum).update(v2, 0);
    let c = t.ch[v1]; let d = t.ch[v2];
    assert(t.ch[v1].len() > 0 && t.ch[v2].len() > 0 && t.ch.len() == 257 && f.len() == 257 && t.head.len() == 257) by { reveal(Forest::shape); }
    assert(u.ch[v1] == c + d); assert(u.ch[v2].len() == 0);
    assert forall|v: int| 0 <= v < 257 && v != v1 && v != v2 implies #[trigger] u.ch[v] == t.ch[v] by {}
    assert forall|j: int| 0 <= j < 257 implies #[trigger] cs[j] == old[j] + if t.head[j] == v1 || t.head[j] == v2 { 1int } else { 0 } by {
        assert(mid[j] == old[j] + if t.head[j] == v1 && t.at[j] <= c.len() - 1 { 1int } else { 0 });
        assert(cs[j] == mid[j] + if t.head[j] == v2 && t.at[j] <= d.len() - 1 { 1int } else { 0 });
        if t.head[j] >= 0 { assert(0 <= t.at[j] < t.ch[t.head[j]].len()) by { reveal(Forest::shape); } }
    }
    lemma_two_chains(t, f, o, v1, v2);
    assert forall|j: int| 0 <= j < 257 implies (t.head[j] < 0 ==> #[trigger] old[j] == 0) && (t.head[j] >= 0 ==> t.head[j] < 257 && f[t.head[j]] > 0 && old[j] < t.ch[t.head[j]].len() && (t.ch[t.head[j]].len() >= 2 ==> old[j] >= 1)) by { reveal(Forest::shape); reveal(Forest::sized); }
    assert forall|j: int| 0 <= j < 257 && u.head[j] < 0 implies #[trigger] cs[j] == 0 by { assert(old[j] == 0); }
    assert forall|j: int| 0 <= j < 257 && u.head[j] >= 0 implies #[trigger] cs[j] < u.ch[u.head[j]].len() && (u.ch[u.head[j]].len() >= 2 ==> cs[j] >= 1) by {
        assert(old[j] < t.ch[t.head[j]].len());
    }
    assert forall|v: int| 0 <= v < 257 && #[trigger] g[v] > 0 implies isum(kterm(u, cs, v)) == pow2(256) by {
        assert(f[v] > 0);
        if v == v1 {
            let a = kterm(u, cs, v); let b = kterm(t, old, v1); let bb = kterm(t, old, v2);
            assert forall|j: int| 0 <= j < 257 implies 2 * #[trigger] a[j] == b[j] + bb[j] by {
                assert(cs[j] == old[j] + if t.head[j] == v1 || t.head[j] == v2 { 1int } else { 0 });
                if t.head[j] == v1 || t.head[j] == v2 {
                    assert(old[j] < t.ch[t.head[j]].len());
                    lemma_pow2_unfold((256 - old[j]) as nat);
                }
            }
            isum_double(a, b, bb);
            assert(isum(b) == pow2(256) && isum(bb) == pow2(256)) by { reveal(Forest::sized); }
        } else {
            assert(kterm(u, cs, v) =~= kterm(t, old, v)) by {
                assert forall|j: int| 0 <= j < 257 implies kterm(u, cs, v)[j] == kterm(t, old, v)[j] by {
                    assert(cs[j] == old[j] + if t.head[j] == v1 || t.head[j] == v2 { 1int } else { 0 });
                }
            }
            assert(isum(kterm(t, old, v)) == pow2(256)) by { reveal(Forest::sized); }
        }
    }
    assert(cs.len() == 257);
    reveal(Forest::sized);
}
pub proof fn lemma_chain_len_of(t: Forest, f: Seq<u64>, o: Seq<i32>, v: int)
    requires t.shape(f, o), 0 <= v < 257
    ensures t.ch[v].len() <= 257
{
    reveal(Forest::shape);
    let c = t.ch[v];
    assert(c.no_duplicates()) by {
        assert forall|a: int, b: int| 0 <= a < c.len() && 0 <= b < c.len() && a != b implies c[a] != c[b] by { assert(t.at[t.ch[v][a]] == a && t.at[t.ch[v][b]] == b); }
    }
    assert forall|p: int| 0 <= p < c.len() implies 0 <= #[trigger] c[p] < 257 by { assert(0 <= t.ch[v][p] < 257); }
    lemma_chain_len(c);
}
/// two trees together have at most 257 symbols
pub proof fn lemma_two_chains(t: Forest, f: Seq<u64>, o: Seq<i32>, v1: int, v2: int)
    requires t.shape(f, o), 0 <= v1 < 257, 0 <= v2 < 257, v1 != v2
    ensures t.ch[v1].len() + t.ch[v2].len() <= 257
{
    reveal(Forest::shape);
    let s = t.ch[v1] + t.ch[v2]; let n = t.ch[v1].len();
    assert(s.no_duplicates()) by {
        assert forall|a: int, b: int| 0 <= a < s.len() && 0 <= b < s.len() && a != b implies s[a] != s[b] by {
            if a < n { assert(s[a] == t.ch[v1][a]); } else { assert(s[a] == t.ch[v2][a - n]); }
            if b < n { assert(s[b] == t.ch[v1][b]); } else { assert(s[b] == t.ch[v2][b - n]); }
        }
    }
    assert forall|p: int| 0 <= p < s.len() implies 0 <= #[trigger] s[p] < 257 by {
        if p < n { assert(s[p] == t.ch[v1][p]); } else { assert(s[p] == t.ch[v2][p - n]); }
    }
    lemma_chain_len(s);
}
/// a complete code: every symbol that occurs has a length, and the codes use up the code space
#[verifier::opaque]
pub open spec fn complete(cs: Seq<usize>, f: Seq<u64>) -> bool {
    &&& cs.len() == 257 && f.len() == 257
    &&& forall|j: int| 0 <= j < 257 ==> #[trigger] cs[j] <= 256 && (cs[j] > 0 <==> f[j] > 0)
    &&& isum(kterms(cs)) == pow2(256)
}
pub open spec fn kterms(cs: Seq<usize>) -> Seq<int> { Seq::new(257, |j: int| if cs[j] > 0 { pow2((256 - cs[j]) as nat) as int } else { 0 }) }
/// one tree left
pub proof fn lemma_complete(t: Forest, f0: Seq<u64>, f: Seq<u64>, o: Seq<i32>, cs: Seq<usize>, v: int, a: int, b: int)
    requires
        t.shape(f, o), t.sized(f, cs), 0 <= v < 257, f[v] > 0,
        f0.len() == 257,
        forall|j: int| 0 <= j < 257 ==> (#[trigger] t.head[j] >= 0 <==> f0[j] > 0),
        forall|j: int| 0 <= j < 257 && #[trigger] f[j] > 0 ==> j == v,
        0 <= a < 257, 0 <= b < 257, a != b, f0[a] > 0, f0[b] > 0,
    ensures complete(cs, f0)
{
    reveal(Forest::shape); reveal(Forest::sized); reveal(complete);
    assert(t.head[a] == v && t.head[b] == v);
    assert(t.ch[v][t.at[a]] == a && t.ch[v][t.at[b]] == b);
    lemma_chain_len_of(t, f, o, v);
    assert forall|j: int| 0 <= j < 257 implies #[trigger] cs[j] <= 256 && (cs[j] > 0 <==> f0[j] > 0) by {
        assert(t.head[j] >= 0 <==> f0[j] > 0);
        if t.head[j] >= 0 { assert(f[t.head[j]] > 0); assert(cs[j] < t.ch[t.head[j]].len()); } else { assert(cs[j] == 0); }
    }
    assert forall|j: int| 0 <= j < 257 implies #[trigger] kterms(cs)[j] == kterm(t, cs, v)[j] by {
        assert(cs[j] <= 256 && (cs[j] > 0 <==> f0[j] > 0));
        assert(t.head[j] >= 0 <==> f0[j] > 0);
        if t.head[j] >= 0 { assert(f[t.head[j]] > 0); }
    }
    assert(kterms(cs) =~= kterm(t, cs, v));
}

pub proof fn lemma_sized_bound(t: Forest, f: Seq<u64>, o: Seq<i32>, cs: Seq<usize>)
    requires t.shape(f, o), t.sized(f, cs)
    ensures cs.len() == 257, t.head.len() == 257, o.len() == 257, forall|j: int| 0 <= j < 257 ==> #[trigger] cs[j] <= 256
{
    reveal(Forest::shape); reveal(Forest::sized);
    assert forall|j: int| 0 <= j < 257 implies #[trigger] cs[j] <= 256 by {
        if t.head[j] >= 0 { lemma_chain_len_of(t, f, o, t.head[j]); assert(cs[j] < t.ch[t.head[j]].len()); } else { assert(cs[j] == 0); }
    }
}
/// merging keeps the sum of the frequencies and leaves one tree less
pub proof fn lemma_merge_freq(f: Seq<u64>, v1: int, v2: int)
    requires f.len() == 257, 0 <= v1 < 257, 0 <= v2 < 257, v1 != v2, f[v1] > 0, f[v2] > 0, isum(iseq(f)) <= u64::MAX
    ensures
        f[v1] + f[v2] <= u64::MAX,
        ({ let g = f.update(v1, (f[v1] + f[v2]) as u64).update(v2, 0);
           isum(iseq(g)) == isum(iseq(f)) && 0 <= isum(active(g)) && isum(active(g)) == isum(active(f)) - 1 }),
{
    let s = iseq(f);
    isum_two(s, v1, v2);
    let g = f.update(v1, (f[v1] + f[v2]) as u64).update(v2, 0);
    isum_update(s, v1, s[v1] + s[v2]);
    isum_update(s.update(v1, s[v1] + s[v2]), v2, 0);
    assert(iseq(g) =~= s.update(v1, s[v1] + s[v2]).update(v2, 0));
    isum_update(active(f), v2, 0);
    assert(active(g) =~= active(f).update(v2, 0));
    isum_nonneg(active(g));
}
// ---- figure K.2
pub proof fn lemma_cnt1(b: Seq<u8>, s: int, v: u8)
    requires b.len() == 257, 1 <= s < 257
    ensures cnt1(b.update(s, v)) == cnt1(b).update(s - 1, v), cnt1(b)[s - 1] == b[s], cnt1(b).len() == 256
{
    assert(cnt1(b.update(s, v)) =~= cnt1(b).update(s - 1, v));
}
/// b counts the lengths of the first k symbols
#[verifier::opaque]
pub open spec fn counted(b: Seq<u8>, cs: Seq<usize>, f: Seq<u64>, k: int) -> bool {
    &&& b.len() == 257
    &&& pos(cnt1(b), 256) == isum(active(f).take(k))
    &&& ksum(cnt1(b), 256) == isum(kterms(cs).take(k))
}
pub proof fn lemma_counted_init(b: Seq<u8>, cs: Seq<usize>, f: Seq<u64>)
    requires b.len() == 257, forall|i: int| 0 <= i < 257 ==> #[trigger] b[i] == 0, f.len() == 257
    ensures counted(b, cs, f, 0)
{
    reveal(counted);
    pos_zero(cnt1(b), 256);
    assert(active(f).take(0) =~= Seq::empty()); assert(kterms(cs).take(0) =~= Seq::empty());
}
pub proof fn lemma_counted_step(b: Seq<u8>, cs: Seq<usize>, f: Seq<u64>, k: int)
    requires counted(b, cs, f, k), complete(cs, f), 0 <= k < 257, isum(active(f)) <= 255
    ensures
        cs[k] <= 256,
        cs[k] == 0 ==> counted(b, cs, f, k + 1),
        cs[k] > 0 ==> b[cs[k] as int] < 255 && counted(b.update(cs[k] as int, (b[cs[k] as int] + 1) as u8), cs, f, k + 1),
{
    reveal(counted); reveal(complete);
    assert(cs[k] <= 256 && (cs[k] > 0 <==> f[k] > 0));
    isum_take(active(f), k); isum_take(kterms(cs), k);
    if cs[k] > 0 {
        let s = cs[k] as int; let l = cnt1(b);
        isum_take(active(f), k + 1);
        pos_two(l, s - 1, s - 1, 256);
        let v = (b[s] + 1) as u8;
        lemma_cnt1(b, s, v);
        pos_update(l, s - 1, v, 256); ksum_update(l, s - 1, v, 256);
        assert(1 * pow2((256 - s) as nat) == pow2((256 - s) as nat));
    }
}
pub open spec fn kraft1(b: Seq<u8>, i: int, n: int) -> bool {
    b.len() == 257 && ksum(cnt1(b), i) == pow2(i as nat) && pos(cnt1(b), i) == n
}
pub proof fn lemma_counted_end(b: Seq<u8>, cs: Seq<usize>, f: Seq<u64>)
    requires counted(b, cs, f, 257), complete(cs, f)
    ensures kraft1(b, 256, isum(active(f)))
{
    reveal(counted); reveal(complete);
    assert(active(f).take(257) =~= active(f)); assert(kterms(cs).take(257) =~= kterms(cs));
}
// ---- figure K.3
/// no code of length i: the code space of length i - 1 is used up
pub proof fn lemma_k3_next(b: Seq<u8>, i: int, n: int)
    requires kraft1(b, i, n), 0 <= i <= 256, b[i] == 0
    ensures i >= 1, kraft1(b, i - 1, n)
{
    lemma2_to64();
    if i > 0 {
        assert(cnt1(b)[i - 1] == b[i]);
        lemma_pow2_unfold(i as nat);
    }
}
pub proof fn lemma_k3_room(b: Seq<u8>, i: int, n: int)
    requires kraft1(b, i, n), 16 < i <= 256, b[i] > 0
    ensures b[i] >= 2, pos(cnt1(b), i - 2) > 0
{
    let l = cnt1(b);
    lemma2_to64();
    assert(l[i - 1] == b[i] && l[i - 2] == b[i - 1]);
    lemma_pow2_unfold(i as nat);
    if pos(l, i - 2) == 0 {
        ksum_of_pos_zero(l, i - 2);
        assert(ksum(l, i - 1) == l[i - 2]);
        crate::spec_block::mono(16, i as nat);
    }
}
pub proof fn lemma_k3_down(b: Seq<u8>, j: int)
    requires b.len() == 257, 0 <= j <= 256, pos(cnt1(b), j) > 0
    ensures j >= 1, b[j] == 0 ==> pos(cnt1(b), j - 1) > 0
{
    if j >= 1 { assert(cnt1(b)[j - 1] == b[j]); }
}
/// two codes of length i become one of length i - 1; a code of length j makes room for the other
/// Figure K.3's move, whatever the order of its four updates
pub open spec fn k3_moved(b: Seq<u8>, i: int, j: int) -> Seq<u8> {
    let b1 = b.update(i, (b[i] - 2) as u8);
    let b2 = b1.update(i - 1, (b1[i - 1] + 1) as u8);
    let b3 = b2.update(j + 1, (b2[j + 1] + 2) as u8);
    b3.update(j, (b3[j] - 1) as u8)
}
pub proof fn lemma_k3_step(b: Seq<u8>, i: int, j: int, n: int)
    requires kraft1(b, i, n), 16 < i <= 256, 1 <= j <= i - 2, b[i] >= 2, b[j] >= 1, n <= 255
    ensures ({
        let b1 = b.update(i, (b[i] - 2) as u8);
        let b2 = b1.update(i - 1, (b1[i - 1] + 1) as u8);
        let b3 = b2.update(j + 1, (b2[j + 1] + 2) as u8);
        let b4 = b3.update(j, (b3[j] - 1) as u8);
        &&& b1[i - 1] < 255
        &&& b2[j + 1] <= 253
        &&& b3[j] >= 1
        &&& b4[i] == b[i] - 2
        &&& kraft1(b4, i, n)
        &&& b4 == k3_moved(b, i, j)
    })
{
    let b1 = b.update(i, (b[i] - 2) as u8);
    let b2 = b1.update(i - 1, (b1[i - 1] + 1) as u8);
    let b3 = b2.update(j + 1, (b2[j + 1] + 2) as u8);
    let b4 = b3.update(j, (b3[j] - 1) as u8);
    let l = cnt1(b);
    assert(l[i - 1] == b[i] && l[i - 2] == b[i - 1] && l[j] == b[j + 1] && l[j - 1] == b[j]);
    pos_two(l, i - 1, i - 2, i);
    lemma_cnt1(b, i, b1[i]);
    pos_update(l, i - 1, b1[i], i); ksum_update(l, i - 1, b1[i], i);
    let l1 = cnt1(b1);
    pos_two(l1, i - 2, j - 1, i);
    assert(l1[i - 2] == b[i - 1] && l1[j - 1] == b[j]);
    lemma_cnt1(b1, i - 1, b2[i - 1]);
    pos_update(l1, i - 2, b2[i - 1], i); ksum_update(l1, i - 2, b2[i - 1], i);
    let l2 = cnt1(b2);
    pos_two(l2, j, j - 1, i);
    assert(l2[j] == b2[j + 1] && l2[j - 1] == b2[j]);
    lemma_cnt1(b2, j + 1, b3[j + 1]);
    pos_update(l2, j, b3[j + 1], i); ksum_update(l2, j, b3[j + 1], i);
    let l3 = cnt1(b3);
    assert(l3[j - 1] == b3[j]);
    lemma_cnt1(b3, j, b4[j]);
    pos_update(l3, j - 1, b4[j], i); ksum_update(l3, j - 1, b4[j], i);
    lemma2_to64();
    let d = (i - 1 - j) as nat;
    lemma_pow2_unfold(d + 1);
    assert(pow2(d + 1) == 2 * pow2(d));
    let p0 = pow2(0) as int; let p1 = pow2(1) as int; let pd = pow2(d) as int; let pe = pow2(d + 1) as int;
    assert(p0 == 1 && p1 == 2 && pe == 2 * pd);
    let x1 = b1[i] - l[i - 1];
    let x2 = b2[i - 1] - l1[i - 2];
    let x3 = b3[j + 1] - l2[j];
    let x4 = b4[j] - l3[j - 1];
    assert(x1 == -2);
    assert(x2 == 1);
    assert(x3 == 2);
    assert(x4 == -1);
    assert(x1 * p0 == -2) by (nonlinear_arith) requires x1 == -2, p0 == 1;
    assert(x2 * p1 == 2) by (nonlinear_arith) requires x2 == 1, p1 == 2;
    assert(x3 * pd == 2 * pd) by (nonlinear_arith) requires x3 == 2;
    assert(x4 * pe == -pe) by (nonlinear_arith) requires x4 == -1;
}
/// the code for the reserved symbol is dropped from the longest ones
pub proof fn lemma_k3_drop(b: Seq<u8>, i: int, n: int)
    requires kraft1(b, 16, n), 1 <= i <= 16, b[i] > 0
    ensures ({
        let b1 = b.update(i, (b[i] - 1) as u8);
        pos(cnt1(b1), 16) == n - 1 && ksum(cnt1(b1), 16) < 65536 && cnt1(b1).len() == 256
    })
{
    let b1 = b.update(i, (b[i] - 1) as u8);
    lemma_cnt1(b, i, b1[i]);
    pos_update(cnt1(b), i - 1, b1[i], 16); ksum_update(cnt1(b), i - 1, b1[i], 16);
    lemma2_to64();
    lemma_pow2_pos((16 - i) as nat);
    let p = pow2((16 - i) as nat);
    assert((b1[i] - cnt1(b)[i - 1]) * p == -p) by (nonlinear_arith) requires b1[i] - cnt1(b)[i - 1] == -1;
}
// ---- figure K.4
pub open spec fn is_listed(cs: Seq<usize>, i: int, j: int, x: int) -> bool { 1 <= cs[x] < i || (cs[x] == i && x < j) }
pub open spec fn listed(cs: Seq<usize>, i: int, j: int) -> Seq<int> { Seq::new(256, |x: int| if is_listed(cs, i, j, x) { 1 } else { 0 }) }
/// h[0..k] are the symbols with codes shorter than i, and those below j of length i, each once
#[verifier::opaque]
pub open spec fn sorted(h: Seq<u8>, k: int, cs: Seq<usize>, i: int, j: int) -> bool {
    &&& h.len() == 256 && cs.len() == 257 && 0 <= k <= 256
    &&& k == isum(listed(cs, i, j))
    &&& forall|a: int| 0 <= a < k ==> is_listed(cs, i, j, #[trigger] h[a] as int)
    &&& forall|a: int, b: int| 0 <= a < b < k ==> h[a] != h[b]
    &&& forall|x: u8| #[trigger] is_listed(cs, i, j, x as int) ==> h.take(k).contains(x)
}
pub proof fn lemma_sorted_init(h: Seq<u8>, cs: Seq<usize>)
    requires h.len() == 256, cs.len() == 257
    ensures sorted(h, 0, cs, 1, 0)
{
    reveal(sorted);
    isum_zero(listed(cs, 1, 0));
}
pub proof fn lemma_listed_bound(cs: Seq<usize>, f: Seq<u64>, i: int, j: int)
    requires complete(cs, f), f[256] > 0, i >= 1
    ensures isum(listed(cs, i, j)) < isum(active(f)), i == 257 && j == 0 ==> isum(listed(cs, i, j)) == isum(active(f)) - 1
{
    reveal(complete);
    let a = active(f).take(256);
    isum_take(active(f), 256);
    assert(active(f).take(257) =~= active(f));
    assert forall|x: int| 0 <= x < 256 implies #[trigger] listed(cs, i, j)[x] <= a[x] && (i == 257 && j == 0 ==> listed(cs, i, j)[x] == a[x]) by {
        assert(cs[x] <= 256 && (cs[x] > 0 <==> f[x] > 0));
    }
    isum_le(listed(cs, i, j), a);
    if i == 257 && j == 0 { isum_le(a, listed(cs, i, j)); }
}
pub proof fn lemma_sorted_step(h: Seq<u8>, k: int, cs: Seq<usize>, f: Seq<u64>, i: int, j: int)
    requires sorted(h, k, cs, i, j), complete(cs, f), f[256] > 0, isum(active(f)) <= 255, 0 <= j < 256, 1 <= i <= 256
    ensures
        k < 255,
        cs[j] == i ==> sorted(h.update(k, j as u8), k + 1, cs, i, j + 1),
        cs[j] != i ==> sorted(h, k, cs, i, j + 1),
{
    reveal(sorted);
    lemma_listed_bound(cs, f, i, j);
    let s = listed(cs, i, j); let s1 = listed(cs, i, j + 1);
    if cs[j] == i {
        isum_update(s, j, 1);
        assert(s[j] == 0);
        assert(s1 =~= s.update(j, 1));
        let h1 = h.update(k, j as u8);
        assert forall|a: int| 0 <= a < k + 1 implies is_listed(cs, i, j + 1, #[trigger] h1[a] as int) by {
            if a < k { assert(h1[a] == h[a]); assert(is_listed(cs, i, j, h[a] as int)); }
        }
        assert forall|a: int, b: int| 0 <= a < b < k + 1 implies h1[a] != h1[b] by {
            assert(h1[a] == h[a]); assert(is_listed(cs, i, j, h[a] as int));
            if b == k { assert(h1[b] == j as u8); }
        }
        assert forall|x: u8| #[trigger] is_listed(cs, i, j + 1, x as int) implies h1.take(k + 1).contains(x) by {
            if x as int == j { assert(h1.take(k + 1)[k] == x); }
            else {
                assert(is_listed(cs, i, j, x as int));
                let a = choose|a: int| 0 <= a < k && h.take(k)[a] == x;
                assert(h1.take(k + 1)[a] == x);
            }
        }
    } else {
        assert(s1 =~= s);
        assert forall|a: int| 0 <= a < k implies is_listed(cs, i, j + 1, #[trigger] h[a] as int) by { assert(is_listed(cs, i, j, h[a] as int)); }
        assert forall|x: u8| #[trigger] is_listed(cs, i, j + 1, x as int) implies h.take(k).contains(x) by { assert(is_listed(cs, i, j, x as int)); }
    }
}
pub proof fn lemma_sorted_next(h: Seq<u8>, k: int, cs: Seq<usize>, i: int)
    requires sorted(h, k, cs, i, 256), i >= 1
    ensures sorted(h, k, cs, i + 1, 0)
{
    reveal(sorted);
    assert(listed(cs, i, 256) =~= listed(cs, i + 1, 0));
    assert forall|a: int| 0 <= a < k implies is_listed(cs, i + 1, 0, #[trigger] h[a] as int) by { assert(is_listed(cs, i, 256, h[a] as int)); }
    assert forall|x: u8| #[trigger] is_listed(cs, i + 1, 0, x as int) implies h.take(k).contains(x) by { assert(is_listed(cs, i, 256, x as int)); }
}
pub proof fn lemma_sorted_end(h: Seq<u8>, k: int, cs: Seq<usize>, f: Seq<u64>)
    requires sorted(h, k, cs, 257, 0), complete(cs, f), f[256] > 0
    ensures
        0 <= k <= 256, k == isum(active(f)) - 1, h.len() == 256,
        h.subrange(0, k).no_duplicates(),
        forall|x: u8| #[trigger] h.subrange(0, k).contains(x) <==> f[x as int] > 0,
{
    reveal(sorted); 
    lemma_listed_bound(cs, f, 257, 0);
    reveal(complete);
    let v = h.subrange(0, k);
    assert(h.take(k) =~= v);
    assert forall|x: u8| #[trigger] v.contains(x) <==> f[x as int] > 0 by {
        assert(cs[x as int] <= 256 && (cs[x as int] > 0 <==> f[x as int] > 0));
        if v.contains(x) { let a = choose|a: int| 0 <= a < k && v[a] == x; assert(is_listed(cs, 257, 0, h[a] as int)); }
        if f[x as int] > 0 { assert(is_listed(cs, 257, 0, x as int)); }
    }
}
/// the outcome of a search: a symbol that occurs, other than x
pub open spec fn found(v: Option<usize>, f: Seq<u64>, x: int) -> bool { v is Some ==> v->0 < 257 && f[v->0 as int] > 0 && v->0 != x }
pub open spec fn absent(v: Option<usize>) -> bool { v is None }
