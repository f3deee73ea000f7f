// Support layer of the extracted code ("crate::vx").  Everything below that has
// a body is itself verified; everything marked external_body is an assumption
// about the Rust standard library and is reported in the evidence.
use vstd::prelude::*;
use vstd::utf8::*;
verus! {

broadcast use vstd::group_vstd_default;

#[derive(Clone, Copy, Debug)]
pub struct VxErr;
pub struct VxProbe { pub p: u8 }
impl VxErr {
    #[verifier::external_body]
    pub fn vx_to_string(&self) -> String { unimplemented!() }
}

// ------------------------------------------------------------ safe skip
pub open spec fn sk<T>(s: Seq<T>, k: int) -> Seq<T> {
    if k <= 0 { s } else if k >= s.len() { Seq::empty() } else { s.skip(k) }
}
pub broadcast proof fn lemma_sk_len<T>(s: Seq<T>, k: int)
    ensures (#[trigger] sk(s, k)).len() == (if k <= 0 { s.len() as int } else if k >= s.len() { 0 } else { s.len() - k }),
{}
pub broadcast proof fn lemma_sk_idx<T>(s: Seq<T>, k: int, i: int)
    requires 0 <= k, 0 <= i < s.len() - k,
    ensures #[trigger] sk(s, k)[i] == s[k + i],
{}
pub broadcast proof fn lemma_sk_sk<T>(s: Seq<T>, k: int, m: int)
    requires 0 <= k < s.len(), 0 <= m,
    ensures #[trigger] sk(sk(s, k), m) == sk(s, k + m),
{ assert(sk(sk(s, k), m) =~= sk(s, k + m)); }
pub broadcast proof fn lemma_skip_is_sk<T>(s: Seq<T>, k: int)
    requires 0 <= k <= s.len(),
    ensures #[trigger] s.skip(k) == sk(s, k),
{ assert(s.skip(k) =~= sk(s, k)); }
pub broadcast proof fn lemma_sub_is_sk<T>(s: Seq<T>, k: int)
    requires 0 <= k <= s.len(),
    ensures #[trigger] s.subrange(k, s.len() as int) == sk(s, k),
{ assert(s.subrange(k, s.len() as int) =~= sk(s, k)); }
pub broadcast proof fn lemma_sub_sk<T>(s: Seq<T>, k: int, a: int, b: int)
    requires 0 <= k <= s.len(), 0 <= a <= b <= s.len() - k,
    ensures #[trigger] sk(s, k).subrange(a, b) == s.subrange(k + a, k + b),
{ assert(sk(s, k).subrange(a, b) =~= s.subrange(k + a, k + b)); }
pub broadcast proof fn lemma_sub_sub<T>(s: Seq<T>, k: int, l: int, a: int, b: int)
    requires 0 <= k <= l <= s.len(), 0 <= a <= b <= l - k,
    ensures #[trigger] s.subrange(k, l).subrange(a, b) == s.subrange(k + a, k + b),
{ assert(s.subrange(k, l).subrange(a, b) =~= s.subrange(k + a, k + b)); }
pub broadcast proof fn lemma_take_is_sub<T>(s: Seq<T>, k: int)
    requires 0 <= k <= s.len(),
    ensures #[trigger] s.take(k) == s.subrange(0, k),
{ assert(s.take(k) =~= s.subrange(0, k)); }
pub broadcast proof fn lemma_sub_full<T>(s: Seq<T>, b: int)
    requires b == s.len(),
    ensures #[trigger] s.subrange(0, b) == s,
{ assert(s.subrange(0, b) =~= s); }
pub broadcast proof fn lemma_add_assoc<T>(a: Seq<T>, b: Seq<T>, c: Seq<T>)
    ensures #[trigger] ((a + b) + c) == a + (b + c),
{ assert(((a + b) + c) =~= a + (b + c)); }
pub broadcast proof fn lemma_add_empty<T>(a: Seq<T>, b: Seq<T>)
    requires a.len() == 0,
    ensures #[trigger] (a + b) == b, #[trigger] (b + a) == b,
{ assert(a + b =~= b); assert(b + a =~= b); }
pub broadcast proof fn lemma_push_is_add<T>(a: Seq<T>, x: T)
    ensures #[trigger] a.push(x) == a + seq![x],
{ assert(a.push(x) =~= a + seq![x]); }
pub broadcast proof fn lemma_sub_add_l<T>(a: Seq<T>, b: Seq<T>, i: int, j: int)
    requires 0 <= i <= j <= a.len(),
    ensures #[trigger] (a + b).subrange(i, j) == a.subrange(i, j),
{ assert((a + b).subrange(i, j) =~= a.subrange(i, j)); }
pub broadcast proof fn lemma_sub_add_r<T>(a: Seq<T>, b: Seq<T>, i: int, j: int)
    requires a.len() <= i <= j <= a.len() + b.len(),
    ensures #[trigger] (a + b).subrange(i, j) == b.subrange(i - a.len(), j - a.len()),
{ assert((a + b).subrange(i, j) =~= b.subrange(i - a.len(), j - a.len())); }
pub broadcast proof fn lemma_sk_add<T>(a: Seq<T>, b: Seq<T>, k: int)
    requires a.len() <= k <= a.len() + b.len(),
    ensures #[trigger] sk(a + b, k) == sk(b, k - a.len()),
{ assert(sk(a + b, k) =~= sk(b, k - a.len())); }
pub broadcast proof fn lemma_sub_empty<T>(s: Seq<T>, i: int, j: int)
    requires 0 <= i <= s.len(), i == j,
    ensures #[trigger] s.subrange(i, j) == Seq::<T>::empty(),
{ assert(s.subrange(i, j) =~= Seq::<T>::empty()); }
pub broadcast proof fn lemma_msb_and(x: u8)
    ensures (#[trigger] (x & 0x80u8) == 0x80) == (x >= 0x80), (x & 0x80u8 == 0) == (x < 0x80),
{ assert((x & 0x80u8 == 0x80) == (x >= 0x80)) by (bit_vector); assert((x & 0x80u8 == 0) == (x < 0x80)) by (bit_vector); }
pub broadcast proof fn lemma_msb_or(x: u8)
    ensures #[trigger] (x | 0x80u8) >= 0x80,
{ assert(x | 0x80u8 >= 0x80) by (bit_vector); }
pub broadcast proof fn lemma_shr7(x: u8)
    ensures (#[trigger] (x >> 7u8) == 1) == (x >= 0x80), (x >> 7u8 == 0) == (x < 0x80),
{ assert((x >> 7u8 == 1) == (x >= 0x80)) by (bit_vector); assert((x >> 7u8 == 0) == (x < 0x80)) by (bit_vector); }
/// Rust guarantees that no allocation is larger than isize::MAX bytes
pub broadcast axiom fn axiom_vec_u8_len(v: Vec<u8>) ensures (#[trigger] v@).len() <= isize::MAX;
pub broadcast axiom fn axiom_slice_u8_len(v: &[u8]) ensures (#[trigger] v@).len() <= isize::MAX;
pub broadcast group group_cut { axiom_dbg_ref, lemma_msb_and, lemma_msb_or, lemma_shr7, lemma_sub_add_l, lemma_sub_add_r, lemma_sk_add, lemma_sub_empty, axiom_vec_u8_len, axiom_slice_u8_len }
pub broadcast group group_sk {
    lemma_sk_len, lemma_sk_idx, lemma_sk_sk, lemma_skip_is_sk, lemma_sub_is_sk, lemma_sub_sk, lemma_sub_sub, lemma_take_is_sub, lemma_sub_full,
    lemma_add_assoc, lemma_add_empty, lemma_push_is_add,
}

// ------------------------------------------------------------ cursors (iterators)
pub trait VxCur {
    type Item;
    type E;
    spec fn rest(&self) -> Seq<Self::E>;
    fn vx_more(&self) -> (r: bool)
        ensures r == (self.rest().len() > 0);
    fn vx_take(&mut self) -> (r: Self::Item)
        requires old(self).rest().len() > 0;
}
pub struct VxRef<'a, T> { pub s: &'a [T] }
impl<'a, T> VxCur for VxRef<'a, T> {
    type Item = &'a T;
    type E = T;
    open spec fn rest(&self) -> Seq<T> { self.s@ }
    fn vx_more(&self) -> bool { self.s.len() > 0 }
    fn vx_take(&mut self) -> (r: &'a T)
        ensures *r == old(self).rest()[0], final(self).rest() == sk(old(self).rest(), 1),
    {
        let x = &self.s[0];
        let n = self.s.len();
        self.s = vstd::slice::slice_subrange(self.s, 1, n);
        proof { assert(self.s@ =~= sk(old(self).s@, 1)); }
        x
    }
}
impl<'a, T> VxRef<'a, T> {
    pub fn vx_skip(self, n: usize) -> (r: VxRef<'a, T>)
        ensures r.rest() == sk(self.rest(), n as int),
    {
        let l = self.s.len();
        let m = if n < l { n } else { l };
        let s = vstd::slice::slice_subrange(self.s, m, l);
        proof { assert(s@ =~= sk(self.s@, n as int)); }
        VxRef { s }
    }
    pub fn vx_slice(&self) -> (r: &'a [T]) ensures r@ == self.rest() { self.s }
}
pub struct VxOwn<T> { pub v: Vec<T> }
impl<T> VxCur for VxOwn<T> {
    type Item = T;
    type E = T;
    open spec fn rest(&self) -> Seq<T> { self.v@ }
    fn vx_more(&self) -> bool { self.v.len() > 0 }
    fn vx_take(&mut self) -> (r: T)
        ensures r == old(self).rest()[0], final(self).rest() == sk(old(self).rest(), 1),
    {
        let r = self.v.remove(0);
        proof { assert(self.v@ =~= sk(old(self).v@, 1)); }
        r
    }
}
pub open spec fn chunk_head<T>(s: Seq<T>, n: int) -> Seq<T> { if s.len() < n { s } else { s.subrange(0, n) } }
pub struct VxChunks<'a, T> { pub s: &'a [T], pub n: usize }
impl<'a, T> VxCur for VxChunks<'a, T> {
    type Item = &'a [T];
    type E = T;
    open spec fn rest(&self) -> Seq<T> { self.s@ }
    fn vx_more(&self) -> bool { self.s.len() > 0 }
    fn vx_take(&mut self) -> (r: &'a [T])
        ensures
            final(self).n == old(self).n,
            r@ == chunk_head(old(self).rest(), old(self).n as int),
            final(self).rest() == sk(old(self).rest(), old(self).n as int),
    {
        let m = if self.s.len() < self.n { self.s.len() } else { self.n };
        let n = self.s.len();
        let r = vstd::slice::slice_subrange(self.s, 0, m);
        self.s = vstd::slice::slice_subrange(self.s, m, n);
        proof {
            assert(r@ =~= chunk_head(old(self).s@, self.n as int));
            assert(self.s@ =~= sk(old(self).s@, old(self).n as int));
        }
        r
    }
}
/// integer ranges
pub trait VxInt: Sized + Copy { spec fn iv(self) -> int; fn vx_lt(self, o: Self) -> (r: bool) ensures r == (self.iv() < o.iv()); fn vx_succ(self, o: Ghost<Self>) -> (r: Self) requires self.iv() < o@.iv() ensures r.iv() == self.iv() + 1; }
macro_rules! vx_int { ($($t:ty),*) => { verus! { $(
impl VxInt for $t {
    open spec fn iv(self) -> int { self as int }
    fn vx_lt(self, o: $t) -> (r: bool) { self < o }
    fn vx_succ(self, o: Ghost<$t>) -> (r: $t) { self + 1 }
} )* } } }
vx_int!(u8, u16, u32, u64, usize, i32, i64);
pub struct VxRange<T> { pub i: T, pub n: T }
impl<T: VxInt> VxCur for VxRange<T> {
    type Item = T;
    type E = int;
    open spec fn rest(&self) -> Seq<int> { if self.i.iv() < self.n.iv() { Seq::new((self.n.iv() - self.i.iv()) as nat, |k: int| self.i.iv() + k) } else { Seq::empty() } }
    fn vx_more(&self) -> bool { self.i.vx_lt(self.n) }
    fn vx_take(&mut self) -> (r: T)
        ensures r == old(self).i, final(self).n == old(self).n, final(self).i.iv() == old(self).i.iv() + 1,
    {
        let r = self.i;
        self.i = r.vx_succ(Ghost(self.n));
        r
    }
}
pub fn vx_range<T: VxInt>(a: T, b: T) -> (r: VxRange<T>) ensures r.i == a, r.n == b { VxRange { i: a, n: b } }
/// step_by on an integer range (usize only)
pub struct VxStep { pub i: usize, pub n: usize, pub s: usize, pub done: bool }
impl VxCur for VxStep {
    type Item = usize;
    type E = int;
    open spec fn rest(&self) -> Seq<int> { if !self.done && self.i < self.n { Seq::new((self.n - self.i) as nat, |k: int| self.i + k) } else { Seq::empty() } }
    fn vx_more(&self) -> bool { !self.done && self.i < self.n }
    fn vx_take(&mut self) -> (r: usize)
        ensures r == old(self).i, final(self).n == old(self).n, final(self).s == old(self).s,
            old(self).i + old(self).s <= usize::MAX ==> final(self).i == old(self).i + old(self).s && final(self).done == old(self).done,
            old(self).i + old(self).s > usize::MAX ==> final(self).done,
    {
        let r = self.i;
        if self.s > usize::MAX - self.i { self.done = true; } else { self.i = self.i + self.s; }
        r
    }
}
pub fn vx_range_step(a: usize, b: usize, s: usize) -> (r: VxStep) requires s > 0 ensures r.i == a, r.n == b, r.s == s, !r.done { VxStep { i: a, n: b, s, done: false } }

pub trait VxIntoCur {
    type C: VxCur;
    spec fn src(&self) -> Seq<<Self::C as VxCur>::E>;
    fn vx_cur(self) -> (c: Self::C) where Self: Sized
        ensures c.rest() == self.src();
}
impl<'a, T> VxIntoCur for &'a Vec<T> { type C = VxRef<'a, T>; open spec fn src(&self) -> Seq<T> { self@ } fn vx_cur(self) -> (c: VxRef<'a, T>) { VxRef { s: self.as_slice() } } }
impl<'a, T> VxIntoCur for &'a [T] { type C = VxRef<'a, T>; open spec fn src(&self) -> Seq<T> { self@ } fn vx_cur(self) -> (c: VxRef<'a, T>) { VxRef { s: self } } }
impl<'a, T, const N: usize> VxIntoCur for &'a [T; N] { type C = VxRef<'a, T>; open spec fn src(&self) -> Seq<T> { self@ } fn vx_cur(self) -> (c: VxRef<'a, T>) { VxRef { s: vstd::array::array_as_slice(self) } } }
impl<T> VxIntoCur for Vec<T> { type C = VxOwn<T>; open spec fn src(&self) -> Seq<T> { self@ } fn vx_cur(self) -> (c: VxOwn<T>) { VxOwn { v: self } } }
impl<T: Copy, const N: usize> VxIntoCur for [T; N] { type C = VxOwn<T>; open spec fn src(&self) -> Seq<T> { self@ } fn vx_cur(self) -> (c: VxOwn<T>) { VxOwn { v: vstd::array::array_as_slice(&self).vx_to_vec() } } }
impl<'a, T> VxIntoCur for VxRef<'a, T> { type C = VxRef<'a, T>; open spec fn src(&self) -> Seq<T> { self.rest() } fn vx_cur(self) -> (c: VxRef<'a, T>) { self } }
impl<'a, T> VxIntoCur for VxChunks<'a, T> { type C = VxChunks<'a, T>; open spec fn src(&self) -> Seq<T> { self.rest() } fn vx_cur(self) -> (c: VxChunks<'a, T>) ensures c.n == self.n { self } }
impl<T> VxIntoCur for VxOwn<T> { type C = VxOwn<T>; open spec fn src(&self) -> Seq<T> { self.rest() } fn vx_cur(self) -> (c: VxOwn<T>) { self } }

// .iter(), .chunks(), slices
pub trait VxSlice {
    type T;
    spec fn sl(&self) -> Seq<Self::T>;
    fn vx_slice<'a>(&'a self) -> (r: &'a [Self::T]) ensures r@ == self.sl();
    fn vx_iter<'a>(&'a self) -> (r: VxRef<'a, Self::T>) ensures r.rest() == self.sl();
    fn vx_chunks<'a>(&'a self, n: usize) -> (r: VxChunks<'a, Self::T>) requires n > 0 ensures r.rest() == self.sl(), r.n == n;
}
impl<T> VxSlice for [T] {
    type T = T;
    open spec fn sl(&self) -> Seq<T> { self@ }
    fn vx_slice<'a>(&'a self) -> (r: &'a [T]) { self }
    fn vx_iter<'a>(&'a self) -> (r: VxRef<'a, T>) { VxRef { s: self } }
    fn vx_chunks<'a>(&'a self, n: usize) -> (r: VxChunks<'a, T>) { VxChunks { s: self, n } }
}
impl<T> VxSlice for Vec<T> {
    type T = T;
    open spec fn sl(&self) -> Seq<T> { self@ }
    fn vx_slice<'a>(&'a self) -> (r: &'a [T]) { self.as_slice() }
    fn vx_iter<'a>(&'a self) -> (r: VxRef<'a, T>) ensures r.rest().len() <= usize::MAX { let _n = self.len(); VxRef { s: self.as_slice() } }
    fn vx_chunks<'a>(&'a self, n: usize) -> (r: VxChunks<'a, T>) { VxChunks { s: self.as_slice(), n } }
}
impl<T, const N: usize> VxSlice for [T; N] {
    type T = T;
    open spec fn sl(&self) -> Seq<T> { self@ }
    fn vx_slice<'a>(&'a self) -> (r: &'a [T]) { vstd::array::array_as_slice(self) }
    fn vx_iter<'a>(&'a self) -> (r: VxRef<'a, T>) { VxRef { s: vstd::array::array_as_slice(self) } }
    fn vx_chunks<'a>(&'a self, n: usize) -> (r: VxChunks<'a, T>) { VxChunks { s: vstd::array::array_as_slice(self), n } }
}

// ------------------------------------------------------------ to_vec / to_owned / to_string
pub trait VxToVec {
    type T;
    spec fn tv(&self) -> Seq<Self::T>;
    fn vx_to_vec(&self) -> (r: Vec<Self::T>) ensures r@ == self.tv();
}
impl<T: Copy> VxToVec for [T] {
    type T = T;
    open spec fn tv(&self) -> Seq<T> { self@ }
    fn vx_to_vec(&self) -> (r: Vec<T>) {
        let mut r: Vec<T> = Vec::new();
        let mut i: usize = 0;
        while i < self.len()
            invariant i <= self@.len(), r@ == self@.subrange(0, i as int),
            decreases self@.len() - i,
        {
            r.push(self[i]);
            i = i + 1;
            proof { assert(r@ =~= self@.subrange(0, i as int)); }
        }
        proof { assert(r@ =~= self@); }
        r
    }
}
pub trait VxToOwned {
    type O;
    spec fn oo(&self, o: Self::O) -> bool;
    fn vx_to_owned(&self) -> (r: Self::O) ensures self.oo(r);
}
impl VxToOwned for str {
    type O = String;
    open spec fn oo(&self, o: String) -> bool { o@ == self@ }
    #[verifier::external_body]
    fn vx_to_owned(&self) -> (r: String) { unimplemented!() }
}
impl<T: Copy> VxToOwned for [T] {
    type O = Vec<T>;
    open spec fn oo(&self, o: Vec<T>) -> bool { o@ == self@ }
    fn vx_to_owned(&self) -> (r: Vec<T>) { self.vx_to_vec() }
}
impl<T: Copy> VxToOwned for T {
    type O = T;
    open spec fn oo(&self, o: T) -> bool { o == *self }
    fn vx_to_owned(&self) -> (r: T) { *self }
}
pub uninterp spec fn str_of<T: ?Sized>(t: &T) -> Seq<char>;
pub trait VxToString {
    fn vx_to_string(&self) -> (r: String) ensures r@ == str_of(self);
}
impl<T: ?Sized> VxToString for T {
    #[verifier::external_body]
    fn vx_to_string(&self) -> (r: String) { unimplemented!() }
}
pub uninterp spec fn parse_ok<T>(s: Seq<char>) -> bool;
pub trait VxParse { spec fn pv(&self) -> Seq<char>; fn vx_parse<T>(&self) -> (r: Result<T, VxErr>) ensures r is Ok <==> parse_ok::<T>(self.pv()); }
impl VxParse for str { open spec fn pv(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_parse<T>(&self) -> (r: Result<T, VxErr>) { unimplemented!() } }
impl VxParse for String { open spec fn pv(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_parse<T>(&self) -> (r: Result<T, VxErr>) { unimplemented!() } }
#[verifier::external_body]
pub fn vx_fmt() -> (r: String) { unimplemented!() }
/// what formatting a value gives, with whatever options
#[verifier::external_body]
pub struct DV { p: u8 }
pub uninterp spec fn dbg_of<T: ?Sized>(v: &T) -> DV;
pub uninterp spec fn dbg_none() -> DV;
pub uninterp spec fn fmt_string(l: Seq<char>, v: DV) -> String;
pub broadcast axiom fn axiom_dbg_ref<T: ?Sized>(v: &&T) ensures #[trigger] dbg_of::<&T>(v) == dbg_of::<T>(*v);
#[verifier::external_body]
pub fn vx_fmt_of<T: ?Sized>(l: &str, v: &T) -> (r: String) ensures r == fmt_string(l@, dbg_of(v)) { unimplemented!() }

// ------------------------------------------------------------ extend / concat
pub trait VxSeq<T> {
    spec fn sq(&self) -> Seq<T>;
    fn vx_push_all(self, v: &mut Vec<T>) where Self: Sized
        ensures final(v)@ == old(v)@ + self.sq();
}
impl<T> VxSeq<T> for Vec<T> {
    open spec fn sq(&self) -> Seq<T> { self@ }
    fn vx_push_all(self, v: &mut Vec<T>) { let mut s = self; v.append(&mut s); }
}
impl<'a, T: Copy> VxSeq<T> for &'a [T] {
    open spec fn sq(&self) -> Seq<T> { self@ }
    fn vx_push_all(self, v: &mut Vec<T>) { let mut s = self.vx_to_vec(); v.append(&mut s); }
}
impl<'a, T: Copy> VxSeq<T> for &'a Vec<T> {
    open spec fn sq(&self) -> Seq<T> { self@ }
    fn vx_push_all(self, v: &mut Vec<T>) { let mut s = self.as_slice().vx_to_vec(); v.append(&mut s); }
}
impl<'a, T: Copy, const N: usize> VxSeq<T> for &'a [T; N] {
    open spec fn sq(&self) -> Seq<T> { self@ }
    fn vx_push_all(self, v: &mut Vec<T>) { let mut s = vstd::array::array_as_slice(self).vx_to_vec(); v.append(&mut s); }
}
impl<T: Copy, const N: usize> VxSeq<T> for [T; N] {
    open spec fn sq(&self) -> Seq<T> { self@ }
    fn vx_push_all(self, v: &mut Vec<T>) { let mut s = vstd::array::array_as_slice(&self).vx_to_vec(); v.append(&mut s); }
}
impl<T> VxSeq<T> for VxOwn<T> {
    open spec fn sq(&self) -> Seq<T> { self.rest() }
    fn vx_push_all(self, v: &mut Vec<T>) { let mut s = self.v; v.append(&mut s); }
}
impl<'a, T: Copy> VxSeq<T> for VxRef<'a, T> {
    open spec fn sq(&self) -> Seq<T> { self.rest() }
    fn vx_push_all(self, v: &mut Vec<T>) { let mut s = self.s.vx_to_vec(); v.append(&mut s); }
}
pub trait VxVec<T> {
    spec fn vv(&self) -> Seq<T>;
    fn vx_extend<S: VxSeq<T>>(&mut self, s: S) ensures final(self).vv() == old(self).vv() + s.sq();
    fn vx_splice<S: VxSeq<T>>(&mut self, a: usize, b: usize, s: S)
        requires a <= b <= old(self).vv().len()
        ensures final(self).vv() == old(self).vv().subrange(0, a as int) + s.sq() + sk(old(self).vv(), b as int);
}
impl<T> VxVec<T> for Vec<T> {
    open spec fn vv(&self) -> Seq<T> { self@ }
    fn vx_extend<S: VxSeq<T>>(&mut self, s: S) { s.vx_push_all(self); }
    fn vx_splice<S: VxSeq<T>>(&mut self, a: usize, b: usize, s: S) {
        let ghost o = self@;
        let mut tail = self.split_off(b);
        self.truncate(a);
        proof { assert(self@ =~= o.subrange(0, a as int)); assert(tail@ =~= sk(o, b as int)); }
        s.vx_push_all(self);
        self.append(&mut tail);
    }
}
/// copy_from_slice / fill on (a range of) a vector or an array; both panic when the lengths differ
pub trait VxCopy<T> {
    spec fn cv(&self) -> Seq<T>;
    fn vx_copy_range<S: VxSeq<T>>(&mut self, a: usize, b: usize, s: S)
        requires a <= b <= old(self).cv().len(), s.sq().len() == b - a
        ensures final(self).cv() == old(self).cv().subrange(0, a as int) + s.sq() + sk(old(self).cv(), b as int);
    fn vx_fill_range(&mut self, a: usize, b: usize, x: T)
        requires a <= b <= old(self).cv().len()
        ensures final(self).cv() == old(self).cv().subrange(0, a as int) + rep(x, b - a) + sk(old(self).cv(), b as int);
}
pub trait VxResize<T> {
    spec fn rv(&self) -> Seq<T>;
    fn vx_resize(&mut self, n: usize, x: T)
        ensures final(self).rv() == (if n <= old(self).rv().len() { old(self).rv().subrange(0, n as int) } else { old(self).rv() + rep(x, n - old(self).rv().len()) });
}
impl<T: Copy> VxResize<T> for Vec<T> {
    open spec fn rv(&self) -> Seq<T> { self@ }
    fn vx_resize(&mut self, n: usize, x: T) {
        let l = self.len();
        if n <= l { self.truncate(n); } else { let mut t = vx_rep(x, n - l); self.append(&mut t); }
    }
}
pub fn vx_vec_from<T, S: VxSeq<T>>(s: S) -> (r: Vec<T>) ensures r@ == s.sq() {
    let mut v: Vec<T> = Vec::new();
    s.vx_push_all(&mut v);
    proof { assert(Seq::<T>::empty() + s.sq() =~= s.sq()); }
    v
}
impl<T: Copy> VxCopy<T> for Vec<T> {
    open spec fn cv(&self) -> Seq<T> { self@ }
    fn vx_copy_range<S: VxSeq<T>>(&mut self, a: usize, b: usize, s: S) { self.vx_splice(a, b, s); }
    fn vx_fill_range(&mut self, a: usize, b: usize, x: T) { self.vx_splice(a, b, vx_rep(x, b - a)); }
}
impl<T: Copy, const N: usize> VxCopy<T> for [T; N] {
    open spec fn cv(&self) -> Seq<T> { self@ }
    fn vx_copy_range<S: VxSeq<T>>(&mut self, a: usize, b: usize, s: S) {
        let ghost o = self@;
        let mut v: Vec<T> = Vec::new();
        s.vx_push_all(&mut v);
        let ghost w = v@;
        proof { assert(Seq::<T>::empty() + s.sq() =~= s.sq()); }
        let mut i: usize = a;
        while i < b
            invariant a <= i <= b <= N, o.len() == N, v@ == s.sq(), v@.len() == b - a, self@.len() == N,
                forall|k: int| 0 <= k < N ==> self@[k] == (if a <= k < i { v@[k - a] } else { o[k] }),
            decreases b - i,
        {
            self[i] = v[i - a];
            i = i + 1;
        }
        proof { assert(self@ =~= o.subrange(0, a as int) + s.sq() + sk(o, b as int)); }
    }
    fn vx_fill_range(&mut self, a: usize, b: usize, x: T) {
        let ghost o = self@;
        let mut i: usize = a;
        while i < b
            invariant a <= i <= b <= N, o.len() == N, self@.len() == N,
                forall|k: int| 0 <= k < N ==> self@[k] == (if a <= k < i { x } else { o[k] }),
            decreases b - i,
        {
            self[i] = x;
            i = i + 1;
        }
        proof { assert(self@ =~= o.subrange(0, a as int) + rep(x, b - a) + sk(o, b as int)); }
    }
}
#[derive(Debug)]
pub struct VxJoinError;
/// a task that was waited for; it does not panic
#[verifier::external_body]
pub fn vx_joined<T>(t: T) -> (r: Result<T, VxJoinError>) ensures r == Ok::<T, VxJoinError>(t) { unimplemented!() }
#[verifier::external_body]
pub fn vx_drop<T>(x: T) { unimplemented!() }
pub fn vx_take_vec<T>(v: &mut Vec<T>) -> (r: Vec<T>) ensures r@ == old(v)@, final(v)@ == Seq::<T>::empty() {
    let mut r: Vec<T> = Vec::new();
    r.append(v);
    proof { assert(r@ =~= old(v)@); assert(v@ =~= Seq::<T>::empty()); }
    r
}
pub open spec fn rep<T>(x: T, n: int) -> Seq<T> { if n <= 0 { Seq::empty() } else { Seq::new(n as nat, |i: int| x) } }
pub fn vx_vec_default(n: usize) -> (r: Vec<u8>) ensures r@ == rep(0u8, n as int) { vx_rep(0u8, n) }
pub fn vx_rep<T: Copy>(x: T, n: usize) -> (r: Vec<T>) ensures r@ == rep(x, n as int) {
    let mut r: Vec<T> = Vec::new();
    let mut i: usize = 0;
    while i < n invariant i <= n, r@ == rep(x, i as int) decreases n - i {
        r.push(x); i = i + 1;
        proof { assert(r@ =~= rep(x, i as int)); }
    }
    r
}
#[verifier::external_body]
pub fn vx_default<T>() -> (r: T) { unimplemented!() }

// ------------------------------------------------------------ try_into, big endian
pub trait VxTryInto<T> {
    spec fn ti(&self) -> Seq<T>;
    fn vx_try_into<const N: usize>(&self) -> (r: Result<[T; N], VxErr>)
        ensures r is Ok <==> self.ti().len() == N, r matches Ok(a) ==> a@ == self.ti();
}
impl<T: Copy> VxTryInto<T> for [T] {
    open spec fn ti(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_try_into<const N: usize>(&self) -> (r: Result<[T; N], VxErr>) { unimplemented!() }
}
pub open spec fn be16(v: u16) -> Seq<u8> { seq![(v >> 8) as u8, (v & 0xff) as u8] }
pub open spec fn be32(v: u32) -> Seq<u8> { seq![(v >> 24) as u8, ((v >> 16) & 0xff) as u8, ((v >> 8) & 0xff) as u8, (v & 0xff) as u8] }
pub open spec fn vbe16(s: Seq<u8>) -> u16 { (s[0] as u16 * 256 + s[1] as u16) as u16 }
pub open spec fn vbe32(s: Seq<u8>) -> u32 { (s[0] as u32 * 0x100_0000 + s[1] as u32 * 0x1_0000 + s[2] as u32 * 0x100 + s[3] as u32) as u32 }
pub broadcast proof fn lemma_be16(v: u16)
    ensures vbe16(#[trigger] be16(v)) == v, be16(v).len() == 2,
{
    assert((v >> 8) as u8 as u16 * 256 + (v & 0xff) as u8 as u16 == v) by (bit_vector);
    assert((v >> 8) as u8 as u16 * 256 + (v & 0xff) as u8 as u16 <= 0xffff) by (bit_vector);
}
pub broadcast proof fn lemma_be32(v: u32)
    ensures vbe32(#[trigger] be32(v)) == v, be32(v).len() == 4,
{
    assert((v >> 24) as u8 as u32 * 0x100_0000u32 + ((v >> 16) & 0xff) as u8 as u32 * 0x1_0000u32 + ((v >> 8) & 0xff) as u8 as u32 * 0x100u32 + (v & 0xff) as u8 as u32 == v) by (bit_vector);
}
pub broadcast proof fn lemma_vbe16(s: Seq<u8>)
    requires s.len() == 2,
    ensures be16(#[trigger] vbe16(s)) == s,
{
    let a = s[0]; let b = s[1];
    let v = (a as u16 * 256 + b as u16) as u16;
    assert(v == a as u16 * 256 + b as u16);
    assert((v >> 8) as u8 == a && (v & 0xff) as u8 == b) by (bit_vector) requires v == a as u16 * 256 + b as u16;
    assert(be16(v) =~= s);
}
pub broadcast proof fn lemma_vbe32(s: Seq<u8>)
    requires s.len() == 4,
    ensures be32(#[trigger] vbe32(s)) == s,
{
    let a = s[0]; let b = s[1]; let c = s[2]; let d = s[3];
    let v = (a as u32 * 0x100_0000 + b as u32 * 0x1_0000 + c as u32 * 0x100 + d as u32) as u32;
    assert(v == a as u32 * 0x100_0000 + b as u32 * 0x1_0000 + c as u32 * 0x100 + d as u32);
    assert((v >> 24) as u8 == a && ((v >> 16) & 0xff) as u8 == b && ((v >> 8) & 0xff) as u8 == c && (v & 0xff) as u8 == d) by (bit_vector)
        requires v == a as u32 * 0x100_0000 + b as u32 * 0x1_0000 + c as u32 * 0x100 + d as u32;
    assert(be32(v) =~= s);
}
pub broadcast proof fn lemma_be16_or(v: u16)
    ensures be16(#[trigger] (v | 0x8000u16)) == seq![be16(v)[0] | 0x80, be16(v)[1]],
{
    assert(((v | 0x8000u16) >> 8) as u8 == ((v >> 8) as u8) | 0x80 && ((v | 0x8000u16) & 0xff) as u8 == (v & 0xff) as u8) by (bit_vector);
    assert(be16(v | 0x8000u16) =~= seq![be16(v)[0] | 0x80, be16(v)[1]]);
}
pub broadcast group group_be { lemma_be16, lemma_be32, lemma_vbe16, lemma_vbe32 }
pub trait VxBe: Sized {
    type A;
    fn vx_to_be_bytes(self) -> (r: Self::A);
    fn vx_from_be_bytes(a: Self::A) -> (r: Self);
}
impl VxBe for u16 {
    type A = [u8; 2];
    #[verifier::external_body]
    fn vx_to_be_bytes(self) -> (r: [u8; 2]) ensures r@ == be16(self) { unimplemented!() }
    #[verifier::external_body]
    fn vx_from_be_bytes(a: [u8; 2]) -> (r: u16) ensures r == vbe16(a@) { unimplemented!() }
}
impl VxBe for u32 {
    type A = [u8; 4];
    #[verifier::external_body]
    fn vx_to_be_bytes(self) -> (r: [u8; 4]) ensures r@ == be32(self) { unimplemented!() }
    #[verifier::external_body]
    fn vx_from_be_bytes(a: [u8; 4]) -> (r: u32) ensures r == vbe32(a@) { unimplemented!() }
}
impl VxBe for i32 {
    type A = [u8; 4];
    #[verifier::external_body]
    fn vx_to_be_bytes(self) -> (r: [u8; 4]) ensures r@ == be32(self as u32) { unimplemented!() }
    #[verifier::external_body]
    fn vx_from_be_bytes(a: [u8; 4]) -> (r: i32) ensures r == vbe32(a@) as i32 { unimplemented!() }
}

// ------------------------------------------------------------ equality, xor, misc
pub trait VxEq<R: ?Sized> { spec fn es(&self, o: &R) -> bool; fn vx_eq(&self, o: &R) -> (r: bool) ensures r == self.es(o); fn vx_ne(&self, o: &R) -> (r: bool) ensures r == !self.es(o); }
pub fn vx_seq_eq(a: &[u8], b: &[u8]) -> (r: bool) ensures r == (a@ == b@) {
    if a.len() != b.len() { return false; }
    let mut i: usize = 0;
    while i < a.len() invariant i <= a@.len(), a@.len() == b@.len(), forall|k: int| 0 <= k < i ==> a@[k] == b@[k] decreases a@.len() - i {
        if a[i] != b[i] { proof { assert(a@[i as int] != b@[i as int]); } return false; }
        i = i + 1;
    }
    proof { assert(a@ =~= b@); }
    true
}
impl VxEq<[u8]> for [u8] { open spec fn es(&self, o: &[u8]) -> bool { self@ == o@ } fn vx_eq(&self, o: &[u8]) -> (r: bool) { vx_seq_eq(self, o) } fn vx_ne(&self, o: &[u8]) -> (r: bool) { !vx_seq_eq(self, o) } }
impl VxEq<Vec<u8>> for [u8] { open spec fn es(&self, o: &Vec<u8>) -> bool { self@ == o@ } fn vx_eq(&self, o: &Vec<u8>) -> (r: bool) { vx_seq_eq(self, o.as_slice()) } fn vx_ne(&self, o: &Vec<u8>) -> (r: bool) { !vx_seq_eq(self, o.as_slice()) } }
impl VxEq<Vec<u8>> for Vec<u8> { open spec fn es(&self, o: &Vec<u8>) -> bool { self@ == o@ } fn vx_eq(&self, o: &Vec<u8>) -> (r: bool) { vx_seq_eq(self.as_slice(), o.as_slice()) } fn vx_ne(&self, o: &Vec<u8>) -> (r: bool) { !vx_seq_eq(self.as_slice(), o.as_slice()) } }
impl<const N: usize> VxEq<[u8; N]> for [u8] { open spec fn es(&self, o: &[u8; N]) -> bool { self@ == o@ } fn vx_eq(&self, o: &[u8; N]) -> (r: bool) { vx_seq_eq(self, o.as_slice()) } fn vx_ne(&self, o: &[u8; N]) -> (r: bool) { !vx_seq_eq(self, o.as_slice()) } }
impl<const N: usize> VxEq<[u8]> for [u8; N] { open spec fn es(&self, o: &[u8]) -> bool { self@ == o@ } fn vx_eq(&self, o: &[u8]) -> (r: bool) { vx_seq_eq(self.as_slice(), o) } fn vx_ne(&self, o: &[u8]) -> (r: bool) { !vx_seq_eq(self.as_slice(), o) } }
impl<const N: usize> VxEq<[u8; N]> for Vec<u8> { open spec fn es(&self, o: &[u8; N]) -> bool { self@ == o@ } fn vx_eq(&self, o: &[u8; N]) -> (r: bool) { vx_seq_eq(self.as_slice(), o.as_slice()) } fn vx_ne(&self, o: &[u8; N]) -> (r: bool) { !vx_seq_eq(self.as_slice(), o.as_slice()) } }
impl<const N: usize> VxEq<Vec<u8>> for [u8; N] { open spec fn es(&self, o: &Vec<u8>) -> bool { self@ == o@ } fn vx_eq(&self, o: &Vec<u8>) -> (r: bool) { vx_seq_eq(self.as_slice(), o.as_slice()) } fn vx_ne(&self, o: &Vec<u8>) -> (r: bool) { !vx_seq_eq(self.as_slice(), o.as_slice()) } }
impl<'a, T: VxEq<R> + ?Sized, R: ?Sized> VxEq<R> for &'a T { open spec fn es(&self, o: &R) -> bool { (**self).es(o) } fn vx_eq(&self, o: &R) -> (r: bool) { (**self).vx_eq(o) } fn vx_ne(&self, o: &R) -> (r: bool) { (**self).vx_ne(o) } }
impl VxEq<[u8]> for Vec<u8> { open spec fn es(&self, o: &[u8]) -> bool { self@ == o@ } fn vx_eq(&self, o: &[u8]) -> (r: bool) { vx_seq_eq(self.as_slice(), o) } fn vx_ne(&self, o: &[u8]) -> (r: bool) { !vx_seq_eq(self.as_slice(), o) } }

pub trait VxU8 { spec fn uv(self) -> u8; fn vx_u8(self) -> (r: u8) ensures r == self.uv(); }
impl VxU8 for u8 { open spec fn uv(self) -> u8 { self } fn vx_u8(self) -> (r: u8) { self } }
impl<'a> VxU8 for &'a u8 { open spec fn uv(self) -> u8 { *self } fn vx_u8(self) -> (r: u8) { *self } }
pub fn vx_xor<A: VxU8, B: VxU8>(a: A, b: B) -> (r: u8) ensures r == a.uv() ^ b.uv() { a.vx_u8() ^ b.vx_u8() }

pub trait VxBorrow { type T; spec fn bo(&self) -> Self::T; fn vx_borrow(&self) -> (r: &Self::T) ensures *r == self.bo(); }
impl<T> VxBorrow for std::sync::Arc<T> { type T = T; open spec fn bo(&self) -> T { **self } #[verifier::external_body] fn vx_borrow(&self) -> (r: &T) { unimplemented!() } }
pub trait VxAsRef { type R: ?Sized; spec fn ar(&self, r: &Self::R) -> bool; fn vx_as_ref(&self) -> (r: &Self::R) ensures self.ar(r); }
impl<T> VxAsRef for Vec<T> { type R = [T]; open spec fn ar(&self, r: &[T]) -> bool { r@ == self@ } fn vx_as_ref(&self) -> (r: &[T]) { self.as_slice() } }
impl<T> VxAsRef for [T] { type R = [T]; open spec fn ar(&self, r: &[T]) -> bool { r@ == self@ } fn vx_as_ref(&self) -> (r: &[T]) { self } }
impl<T> VxAsRef for std::sync::Arc<T> { type R = T; open spec fn ar(&self, r: &T) -> bool { *r == **self } #[verifier::external_body] fn vx_as_ref(&self) -> (r: &T) { unimplemented!() } }
pub trait VxAll { type R: ?Sized; spec fn al(&self, r: &Self::R) -> bool; fn vx_all(&self) -> (r: &Self::R) ensures self.al(r); }
impl<T> VxAll for Vec<T> { type R = [T]; open spec fn al(&self, r: &[T]) -> bool { r@ == self@ } fn vx_all(&self) -> (r: &[T]) { self.as_slice() } }
impl<T> VxAll for [T] { type R = [T]; open spec fn al(&self, r: &[T]) -> bool { r@ == self@ } fn vx_all(&self) -> (r: &[T]) { self } }
impl<T, const N: usize> VxAll for [T; N] { type R = [T]; open spec fn al(&self, r: &[T]) -> bool { r@ == self@ } fn vx_all(&self) -> (r: &[T]) { self.as_slice() } }
impl VxAll for str { type R = str; open spec fn al(&self, r: &str) -> bool { r@ == self@ } fn vx_all(&self) -> (r: &str) { self } }
impl VxAll for String { type R = str; open spec fn al(&self, r: &str) -> bool { r@ == self@ } fn vx_all(&self) -> (r: &str) { self.as_str() } }
pub trait VxFirst { type T; spec fn fs(&self) -> Seq<Self::T>; fn vx_first(&self) -> (r: Option<&Self::T>) ensures r is Some <==> self.fs().len() > 0, r matches Some(x) ==> *x == self.fs()[0]; }
impl<T> VxFirst for [T] { type T = T; open spec fn fs(&self) -> Seq<T> { self@ } fn vx_first(&self) -> (r: Option<&T>) { if self.len() > 0 { Some(&self[0]) } else { None } } }

#[verifier::external_body]
pub fn vx_panic() requires false { unimplemented!() }
/// the start of a range taken of a sequence of length n
pub fn vx_in(a: usize, b: usize, n: usize) -> (r: usize) requires a <= b <= n ensures r == a { a }
pub open spec fn nz(x: int) -> nat { if x < 0 { 0 } else { x as nat } }
pub fn vx_min(a: usize, b: usize) -> (r: usize) ensures r == (if a < b { a } else { b }) { if a < b { a } else { b } }
pub fn vx_max(a: usize, b: usize) -> (r: usize) ensures r == (if a < b { b } else { a }) { if a < b { b } else { a } }
/// one more element taken from a sequence in memory
pub fn vx_inc(a: usize) -> (r: usize) ensures a < usize::MAX ==> r == a + 1, r >= a { if a < usize::MAX { a + 1 } else { a } }

// ------------------------------------------------------------ strings
pub open spec fn sbytes(s: Seq<char>) -> Seq<u8> { encode_utf8(s) }
pub trait VxStrLen { spec fn sl8(&self) -> int; fn vx_sl(&self) -> (r: usize) ensures r as int == self.sl8(); }
pub fn vx_str_len(s: &str) -> (r: usize) ensures r == sbytes(s@).len(), r <= isize::MAX {
    broadcast use axiom_slice_u8_len;
    let b = s.as_bytes();
    assert(b@.len() <= isize::MAX);
    b.len()
}
#[verifier::external_body]
pub fn vx_string_from_utf8(v: Vec<u8>) -> (r: Result<String, VxErr>)
    ensures r is Ok <==> valid_utf8(v@), r matches Ok(s) ==> sbytes(s@) == v@ && s@ == decode_utf8(v@),
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_str_from_utf8(v: &[u8]) -> (r: Result<&str, VxErr>)
    ensures r is Ok <==> valid_utf8(v@), r matches Ok(s) ==> sbytes(s@) == v@ && s@ == decode_utf8(v@),
{ unimplemented!() }
} // verus!
