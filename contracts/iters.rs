// ---------------------------------------------------------------- iteration (std's contracts)
pub trait VNext: Sized {
    type Item;
    spec fn left(&self) -> Seq<Self::Item>;
    fn v_next(&mut self) -> (r: Option<Self::Item>)
        ensures
            old(self).left().len() == 0 ==> r is None && final(self).left() == old(self).left(),
            old(self).left().len() > 0 ==> r == Some(old(self).left()[0]) && final(self).left() == old(self).left().skip(1);
}
pub trait VIntoIter: VNext {
    fn v_into_iter(self) -> (r: Self) ensures r == self;
}
impl<I: VNext> VIntoIter for I {
    fn v_into_iter(self) -> (r: Self) { self }
}
/// slice.iter(): at counts the elements given out
pub struct VIter<'a, T> { pub s: &'a [T], pub at: usize }
impl<'a, T> VNext for VIter<'a, T> {
    type Item = &'a T;
    open spec fn left(&self) -> Seq<&'a T> {
        if self.at <= self.s@.len() { Seq::new((self.s@.len() - self.at) as nat, |i: int| &self.s@[self.at + i]) } else { Seq::empty() }
    }
    fn v_next(&mut self) -> (r: Option<&'a T>)
        ensures
            final(self).s == old(self).s,
            r is Some <==> old(self).at < old(self).s@.len(),
            r is Some ==> *r->0 == old(self).s@[old(self).at as int] && final(self).at == old(self).at + 1,
            r is None ==> final(self).at == old(self).at,
    {
        if self.at < self.s.len() {
            let r = &self.s[self.at];
            self.at += 1;
            proof { assert(self.left() =~= old(self).left().skip(1)); }
            Some(r)
        } else { None }
    }
}
pub trait VSlice<T> {
    spec fn elems(&self) -> Seq<T>;
    fn v_iter<'a>(&'a self) -> (r: VIter<'a, T>)
        ensures r.s@ == self.elems(), r.at == 0;
}
impl<T> VSlice<T> for [T] {
    open spec fn elems(&self) -> Seq<T> { self@ }
    fn v_iter<'a>(&'a self) -> (r: VIter<'a, T>) { VIter { s: self, at: 0 } }
}
impl<T> VSlice<T> for Vec<T> {
    open spec fn elems(&self) -> Seq<T> { self@ }
    fn v_iter<'a>(&'a self) -> (r: VIter<'a, T>) { VIter { s: self.as_slice(), at: 0 } }
}
/// a..b
pub trait VRangeIter: Sized {
    type It;
    spec fn started(self, r: Self::It) -> bool;
    fn v_into_iter(self) -> (r: Self::It) ensures self.started(r);
}
pub struct VRange { pub at: u64, pub end: u64 }
impl VRangeIter for core::ops::Range<u64> {
    type It = VRange;
    open spec fn started(self, r: VRange) -> bool { r.at == self.start && r.end == self.end }
    fn v_into_iter(self) -> (r: VRange) { VRange { at: self.start, end: self.end } }
}
impl VRange {
    pub fn v_next(&mut self) -> (r: Option<u64>)
        ensures
            final(self).end == old(self).end,
            r is Some <==> old(self).at < old(self).end,
            r is Some ==> r->0 == old(self).at && final(self).at == old(self).at + 1,
            r is None ==> final(self).at == old(self).at,
    {
        if self.at < self.end { let r = self.at; self.at += 1; Some(r) } else { None }
    }
}
pub mod sums {
use super::*;
pub open spec fn sum_of(s: Seq<u64>) -> nat
    decreases s.len()
{
    if s.len() == 0 { 0 } else { sum_of(s.drop_last()) + s.last() as nat }
}
pub open spec fn count_of<T>(s: Seq<T>, p: spec_fn(T) -> bool) -> nat
    decreases s.len()
{
    if s.len() == 0 { 0 } else { count_of(s.drop_last(), p) + (if p(s.last()) { 1nat } else { 0nat }) }
}
}
pub use sums::*;
pub trait IsU64: Sized { spec fn n(&self) -> u64; }
impl IsU64 for u64 { open spec fn n(&self) -> u64 { *self } }
impl<'a> VIter<'a, u64> {
    #[verifier::external_body]
    pub fn sum<S: IsU64>(self) -> (r: S)
        requires self.at == 0, sum_of(self.s@) <= u64::MAX,
        ensures r.n() == sum_of(self.s@),
    { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
#[verifier::reject_recursive_types(F)]
pub struct VFilter<'a, T, F> { s: &'a [T], f: F }
impl<'a, T, F> VFilter<'a, T, F> {
    pub uninterp spec fn src(&self) -> Seq<T>;
    pub uninterp spec fn f(&self) -> F;
}
impl<'a, T, F: Fn(&&'a T) -> bool> VFilter<'a, T, F> {
    #[verifier::external_body]
    pub fn count(self) -> (r: usize)
        requires forall|i: int| 0 <= i < self.src().len() ==> self.f().requires((&&#[trigger] self.src()[i],)),
        ensures
            forall|p: spec_fn(T) -> bool|
                (forall|i: int, b: bool| 0 <= i < self.src().len() && #[trigger] self.f().ensures((&&self.src()[i],), b) ==> b == p(self.src()[i]))
                ==> r == #[trigger] count_of(self.src(), p),
    { unimplemented!() }
}
impl<'a, T> VIter<'a, T> {
    #[verifier::external_body]
    pub fn position<F: Fn(&'a T) -> bool>(self, f: F) -> (r: Option<usize>)
        requires self.at == 0, forall|i: int| 0 <= i < self.s@.len() ==> f.requires((&#[trigger] self.s@[i],)),
        ensures
            r is Some ==> r->0 < self.s@.len() && f.ensures((&self.s@[r->0 as int],), true),
            r is Some ==> forall|i: int| 0 <= i < r->0 ==> f.ensures((&#[trigger] self.s@[i],), false),
            r is None ==> forall|i: int| 0 <= i < self.s@.len() ==> f.ensures((&#[trigger] self.s@[i],), false),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn filter<F: Fn(&&'a T) -> bool>(self, f: F) -> (r: VFilter<'a, T, F>)
        requires self.at == 0,
        ensures r.src() == self.s@, r.f() == f,
    { unimplemented!() }
}
pub trait VOpt<T>: Sized {
    spec fn opt(self) -> Option<T>;
    fn v_is_some_and<F: FnOnce(T) -> bool>(self, f: F) -> (r: bool)
        requires self.opt() is Some ==> f.requires((self.opt()->0,)),
        ensures
            self.opt() is None ==> !r,
            self.opt() is Some ==> f.ensures((self.opt()->0,), r);
}
impl<T> VOpt<T> for Option<T> {
    open spec fn opt(self) -> Option<T> { self }
    fn v_is_some_and<F: FnOnce(T) -> bool>(self, f: F) -> (r: bool) {
        match self { Some(x) => f(x), None => false }
    }
}
pub trait VPut {
    spec fn all(&self) -> Seq<u8>;
    /// self[a..b].copy_from_slice(x)
    fn v_put(&mut self, a: usize, b: usize, x: &[u8])
        requires a <= b <= old(self).all().len(), x@.len() == b - a,
        ensures final(self).all() == old(self).all().take(a as int) + x@ + old(self).all().skip(b as int);
}
impl VPut for Vec<u8> {
    open spec fn all(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn v_put(&mut self, a: usize, b: usize, x: &[u8]) { unimplemented!() }
}
impl VPut for [u8] {
    open spec fn all(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn v_put(&mut self, a: usize, b: usize, x: &[u8]) { unimplemented!() }
}
pub open spec fn flat_le(s: Seq<u64>) -> Seq<u8>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else { flat_le(s.drop_last()) + s.last().le() }
}
/// .flat_map(|x| x.to_le_bytes()).collect::<Vec<u8>>()
impl<'a> VIter<'a, u64> {
    #[verifier::external_body]
    pub fn flat_le_vec(self) -> (r: Vec<u8>)
        requires self.at == 0,
        ensures r@ == flat_le(self.s@),
    { unimplemented!() }
}

/// std::ops::RangeInclusive, its two ends
pub struct RangeInclusive<T> { pub a: T, pub b: T }
impl<T> RangeInclusive<T> {
    pub fn new(a: T, b: T) -> (r: Self) ensures r.a == a, r.b == b { RangeInclusive { a, b } }
    pub fn start(&self) -> (r: &T) ensures *r == self.a { &self.a }
    pub fn end(&self) -> (r: &T) ensures *r == self.b { &self.b }
}
