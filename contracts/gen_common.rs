// traits and types the generated code uses
pub struct Opaque { x: u8 }
/// a user's enum, stored as one byte: `From<&Kind> for u8` and `TryFrom<u8> for Kind` are assumed to be inverse to
/// each other (the documented obligation on such an enum)
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Kind { k: u8 }
pub uninterp spec fn kind_byte(k: Kind) -> u8;
pub uninterp spec fn kind_ok(b: u8) -> bool;
pub uninterp spec fn kind_of(b: u8) -> Kind;
pub mod kinds {
use super::*;
pub broadcast axiom fn kind_back(b: u8)
    ensures kind_ok(b) ==> kind_byte(#[trigger] kind_of(b)) == b;
pub broadcast axiom fn kind_forth(k: Kind)
    ensures kind_ok(#[trigger] kind_byte(k)), kind_of(kind_byte(k)) == k;
pub broadcast group all { kind_back, kind_forth }
}
/// the array of the given bytes
pub uninterp spec fn arr<const N: usize>(s: Seq<u8>) -> [u8; N];
pub axiom fn arr_bytes<const N: usize>(s: Seq<u8>)
    ensures s.len() == N ==> arr::<N>(s)@ == s;
pub broadcast axiom fn arr_of<const N: usize>(a: [u8; N])
    ensures arr::<N>(#[trigger] a@) == a;
/// an array is its bytes
pub axiom fn array_ext<const N: usize>(a: [u8; N], b: [u8; N])
    ensures a@ == b@ ==> a == b;

impl Kind {
    #[verifier::external_body]
    pub fn v_u8(&self) -> (r: u8) ensures r == kind_byte(*self) { unimplemented!() }
}
#[verifier::external_body]
pub fn v_kind(b: u8) -> (r: Result<Kind, Error>)
    ensures
        r is Ok <==> kind_ok(b),
        r is Ok ==> r->Ok_0 == kind_of(b),
        r is Err ==> r->Err_0 is FailedConverting,
{ unimplemented!() }
pub open spec fn bool_byte(b: bool) -> u8 { if b { 1u8 } else { 0u8 } }
#[verifier::external_body]
pub fn v_flag(b: bool) -> (r: u8) ensures r == bool_byte(b) { b as u8 }
pub open spec fn one(b: u8) -> Seq<u8> { seq![b] }
pub open spec fn at(s: Seq<u8>, o: int, n: int) -> Seq<u8> { s.subrange(o, o + n) }

/// the bytes of a buffer after e was put at offset o; said for what was filled so far (the next offset)
pub open spec fn filled_in(old_b: Seq<u8>, b: Seq<u8>, o: int, e: Seq<u8>) -> bool {
    &&& b.len() == old_b.len()
    &&& b.take(o + e.len()) == (if o == 0 { e } else { old_b.take(o) + e })
    &&& o + e.len() == b.len() ==> b == (if o == 0 { e } else { old_b.take(o) + e })
    &&& forall|i: int| o + e.len() <= i < b.len() ==> #[trigger] b[i] == old_b[i]
}
pub open spec fn first(e: Seq<u8>, n: int) -> Seq<u8> { if n == e.len() { e } else { e.take(n) } }
/// `unsafe { copy_nonoverlapping }` of the first n bytes of an array to an offset of a buffer
#[verifier::external_body]
pub fn v_copy(b: &mut [u8], o: usize, e: &[u8], n: usize)
    requires
        o + n <= old(b)@.len(),
        n <= e@.len(),
    ensures
        filled_in(old(b)@, final(b)@, o as int, first(e@, n as int)),
{ b[o..o + n].copy_from_slice(&e[..n]) }
/// `b[o..m].copy_from_slice(e)`
#[verifier::external_body]
pub fn v_put_at(b: &mut [u8], o: usize, m: usize, e: &[u8])
    requires
        o <= m <= old(b)@.len(),
        m - o == e@.len(),
    ensures
        filled_in(old(b)@, final(b)@, o as int, e@),
{ b[o..m].copy_from_slice(e) }
/// `a == b` on slices
#[verifier::external_body]
pub fn v_same(a: &[u8], b: &[u8]) -> (r: bool) ensures r <==> a@ == b@ { a == b }
/// `<&[u8; N]>::try_from(s)`
#[verifier::external_body]
pub fn v_aref<'a, const N: usize>(s: &'a [u8]) -> (r: Result<&'a [u8; N], core::array::TryFromSliceError>)
    ensures
        r is Ok <==> s@.len() == N,
        r is Ok ==> r->Ok_0@ == s@,
{ <&[u8; N]>::try_from(s) }

/// signed numbers (two's complement) and floats (their IEEE bits, taken as opaque)
pub mod signed {
use super::*;

pub closed spec fn bits8(v: i8) -> u8 { if v >= 0 { v as u8 } else { (v + 0x100) as u8 } }
pub closed spec fn of_bits8(u: u8) -> i8 { if u < 0x80 { u as i8 } else { (u - 0x100) as i8 } }
impl VLe<1> for i8 {
    open spec fn le(self) -> Seq<u8> { bits8(self).le() }
    open spec fn of_le(s: Seq<u8>) -> Self { of_bits8(u8::of_le(s)) }
    #[verifier::external_body]
    fn v_to_le_bytes(self) -> (r: [u8; 1]) { self.to_le_bytes() }
    #[verifier::external_body]
    fn v_from_le_bytes(a: [u8; 1]) -> (r: Self) { <i8>::from_le_bytes(a) }
}
pub proof fn le_i8(v: i8)
    ensures v.le().len() == 1, i8::of_le(v.le()) == v
{ le8(bits8(v)); }
pub proof fn el_i8(s: Seq<u8>)
    requires s.len() == 1
    ensures i8::of_le(s).le() == s
{ el8(s); assert(bits8(of_bits8(u8::of_le(s))) == u8::of_le(s)); }

pub closed spec fn bits16(v: i16) -> u16 { if v >= 0 { v as u16 } else { (v + 0x10000) as u16 } }
pub closed spec fn of_bits16(u: u16) -> i16 { if u < 0x8000 { u as i16 } else { (u - 0x10000) as i16 } }
impl VLe<2> for i16 {
    open spec fn le(self) -> Seq<u8> { bits16(self).le() }
    open spec fn of_le(s: Seq<u8>) -> Self { of_bits16(u16::of_le(s)) }
    #[verifier::external_body]
    fn v_to_le_bytes(self) -> (r: [u8; 2]) { self.to_le_bytes() }
    #[verifier::external_body]
    fn v_from_le_bytes(a: [u8; 2]) -> (r: Self) { <i16>::from_le_bytes(a) }
}
pub proof fn le_i16(v: i16)
    ensures v.le().len() == 2, i16::of_le(v.le()) == v
{ le16(bits16(v)); }
pub proof fn el_i16(s: Seq<u8>)
    requires s.len() == 2
    ensures i16::of_le(s).le() == s
{ el16(s); assert(bits16(of_bits16(u16::of_le(s))) == u16::of_le(s)); }

pub closed spec fn bits32(v: i32) -> u32 { if v >= 0 { v as u32 } else { (v + 0x100000000) as u32 } }
pub closed spec fn of_bits32(u: u32) -> i32 { if u < 0x80000000 { u as i32 } else { (u - 0x100000000) as i32 } }
impl VLe<4> for i32 {
    open spec fn le(self) -> Seq<u8> { bits32(self).le() }
    open spec fn of_le(s: Seq<u8>) -> Self { of_bits32(u32::of_le(s)) }
    #[verifier::external_body]
    fn v_to_le_bytes(self) -> (r: [u8; 4]) { self.to_le_bytes() }
    #[verifier::external_body]
    fn v_from_le_bytes(a: [u8; 4]) -> (r: Self) { <i32>::from_le_bytes(a) }
}
pub proof fn le_i32(v: i32)
    ensures v.le().len() == 4, i32::of_le(v.le()) == v
{ le32(bits32(v)); }
pub proof fn el_i32(s: Seq<u8>)
    requires s.len() == 4
    ensures i32::of_le(s).le() == s
{ el32(s); assert(bits32(of_bits32(u32::of_le(s))) == u32::of_le(s)); }

pub closed spec fn bits64(v: i64) -> u64 { if v >= 0 { v as u64 } else { (v + 0x10000000000000000) as u64 } }
pub closed spec fn of_bits64(u: u64) -> i64 { if u < 0x8000000000000000 { u as i64 } else { (u - 0x10000000000000000) as i64 } }
impl VLe<8> for i64 {
    open spec fn le(self) -> Seq<u8> { bits64(self).le() }
    open spec fn of_le(s: Seq<u8>) -> Self { of_bits64(u64::of_le(s)) }
    #[verifier::external_body]
    fn v_to_le_bytes(self) -> (r: [u8; 8]) { self.to_le_bytes() }
    #[verifier::external_body]
    fn v_from_le_bytes(a: [u8; 8]) -> (r: Self) { <i64>::from_le_bytes(a) }
}
pub proof fn le_i64(v: i64)
    ensures v.le().len() == 8, i64::of_le(v.le()) == v
{ le64(bits64(v)); }
pub proof fn el_i64(s: Seq<u8>)
    requires s.len() == 8
    ensures i64::of_le(s).le() == s
{ el64(s); assert(bits64(of_bits64(u64::of_le(s))) == u64::of_le(s)); }

pub closed spec fn bits128(v: i128) -> u128 { if v >= 0 { v as u128 } else { (v + 0x100000000000000000000000000000000) as u128 } }
pub closed spec fn of_bits128(u: u128) -> i128 { if u < 0x80000000000000000000000000000000 { u as i128 } else { (u - 0x100000000000000000000000000000000) as i128 } }
impl VLe<16> for i128 {
    open spec fn le(self) -> Seq<u8> { bits128(self).le() }
    open spec fn of_le(s: Seq<u8>) -> Self { of_bits128(u128::of_le(s)) }
    #[verifier::external_body]
    fn v_to_le_bytes(self) -> (r: [u8; 16]) { self.to_le_bytes() }
    #[verifier::external_body]
    fn v_from_le_bytes(a: [u8; 16]) -> (r: Self) { <i128>::from_le_bytes(a) }
}
pub proof fn le_i128(v: i128)
    ensures v.le().len() == 16, i128::of_le(v.le()) == v
{ le128(bits128(v)); }
pub proof fn el_i128(s: Seq<u8>)
    requires s.len() == 16
    ensures i128::of_le(s).le() == s
{ el128(s); assert(bits128(of_bits128(u128::of_le(s))) == u128::of_le(s)); }

pub uninterp spec fn fbits32(v: f32) -> u32;
pub uninterp spec fn of_fbits32(u: u32) -> f32;
/// to_bits and from_bits are inverse to each other
pub axiom fn fbits_inv32(v: f32, u: u32)
    ensures of_fbits32(fbits32(v)) == v, fbits32(of_fbits32(u)) == u;
impl VLe<4> for f32 {
    open spec fn le(self) -> Seq<u8> { fbits32(self).le() }
    open spec fn of_le(s: Seq<u8>) -> Self { of_fbits32(u32::of_le(s)) }
    #[verifier::external_body]
    fn v_to_le_bytes(self) -> (r: [u8; 4]) { self.to_le_bytes() }
    #[verifier::external_body]
    fn v_from_le_bytes(a: [u8; 4]) -> (r: Self) { <f32>::from_le_bytes(a) }
}
pub proof fn le_f32(v: f32)
    ensures v.le().len() == 4, f32::of_le(v.le()) == v
{ le32(fbits32(v)); fbits_inv32(v, 0); }
pub proof fn el_f32(s: Seq<u8>)
    requires s.len() == 4
    ensures f32::of_le(s).le() == s
{ el32(s); fbits_inv32(0.0f32, u32::of_le(s)); }

pub uninterp spec fn fbits64(v: f64) -> u64;
pub uninterp spec fn of_fbits64(u: u64) -> f64;
/// to_bits and from_bits are inverse to each other
pub axiom fn fbits_inv64(v: f64, u: u64)
    ensures of_fbits64(fbits64(v)) == v, fbits64(of_fbits64(u)) == u;
impl VLe<8> for f64 {
    open spec fn le(self) -> Seq<u8> { fbits64(self).le() }
    open spec fn of_le(s: Seq<u8>) -> Self { of_fbits64(u64::of_le(s)) }
    #[verifier::external_body]
    fn v_to_le_bytes(self) -> (r: [u8; 8]) { self.to_le_bytes() }
    #[verifier::external_body]
    fn v_from_le_bytes(a: [u8; 8]) -> (r: Self) { <f64>::from_le_bytes(a) }
}
pub proof fn le_f64(v: f64)
    ensures v.le().len() == 8, f64::of_le(v.le()) == v
{ le64(fbits64(v)); fbits_inv64(v, 0); }
pub proof fn el_f64(s: Seq<u8>)
    requires s.len() == 8
    ensures f64::of_le(s).le() == s
{ el64(s); fbits_inv64(0.0f64, u64::of_le(s)); }
}
pub use signed::*;
