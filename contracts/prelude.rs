// Shared specifications. Everything marked external_body / axiom here is part of the trusted base:
// contracts assumed for std, crc32fast, and the conversions thiserror generates.
#![allow(unused_imports, unused_variables, unused_mut, dead_code, unused_braces, unused_assignments, non_snake_case)]
use vstd::prelude::*;
use core::marker::PhantomData;
use vstd::slice::*;
use vstd::std_specs::cmp::*;
use vstd::std_specs::convert::*;

verus! {
// 64-bit targets
global size_of usize == 8;


// ---------------------------------------------------------------- std::io
pub mod sio {
    use super::*;

    /// std::io::Error: opaque
    #[verifier::external_body]
    pub struct Error { k: u8 }
    #[verifier::external]
    impl std::fmt::Debug for Error { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } }
    pub type Result<T> = core::result::Result<T, Error>;
    pub enum SeekFrom { Start(u64), End(i64), Current(i64) }
    #[derive(Clone, Copy)]
    pub enum ErrorKind { WriteZero, InvalidData, Other }
    impl Error {
        pub uninterp spec fn kind_spec(&self) -> ErrorKind;
        #[verifier::external_body]
        pub fn new<M>(k: ErrorKind, m: M) -> (r: Error) ensures r.kind_spec() == k { unimplemented!() }
        #[verifier::external_body]
        pub fn other<M>(m: M) -> (r: Error) ensures r.kind_spec() == ErrorKind::Other { unimplemented!() }
    }

    /// What a byte source / sink is, for the contracts.
    /// rest: bytes still to be read (for a buffered source: undelivered ones);
    /// data, pos: whole content and position of a seekable one; out: every byte accepted so far;
    /// filled: bytes shown by the last fill_buf and not consumed; faulty: operations may fail by themselves.
    pub trait Stream {
        spec fn rest(&self) -> Seq<u8>;
        spec fn data(&self) -> Seq<u8>;
        spec fn pos(&self) -> nat;
        spec fn seekable(&self) -> bool;
        spec fn filled(&self) -> nat;
        spec fn out(&self) -> Seq<u8>;
        spec fn faulty(&self) -> bool;
    }
    pub open spec fn tail(d: Seq<u8>, p: nat) -> Seq<u8> {
        if p <= d.len() { d.skip(p as int) } else { Seq::empty() }
    }
    /// a and b are the same source, n bytes later
    pub open spec fn advanced<T: Stream + ?Sized>(a: &T, b: &T, n: nat) -> bool {
        &&& n <= a.rest().len()
        &&& b.rest() == a.rest().skip(n as int)
        &&& same_source(a, b)
        &&& a.seekable() ==> b.pos() == a.pos() + n
    }
    pub open spec fn same_source<T: Stream + ?Sized>(a: &T, b: &T) -> bool {
        &&& b.faulty() == a.faulty()
        &&& b.seekable() == a.seekable()
        &&& b.out() == a.out()
        &&& a.seekable() ==> b.data() == a.data()
    }
    pub open spec fn put(d: Seq<u8>, p: nat, b: Seq<u8>) -> Seq<u8> {
        let pad = if p <= d.len() { d.take(p as int) } else { d + Seq::new((p - d.len()) as nat, |i: int| 0u8) };
        if b.len() == 0 { d } else {
            pad + b + (if p + b.len() <= d.len() { d.skip((p + b.len()) as int) } else { Seq::empty() })
        }
    }
    /// a sink that has accepted exactly the bytes s in between
    pub open spec fn wrote<T: Stream + ?Sized>(a: &T, b: &T, s: Seq<u8>) -> bool {
        &&& b.out() == a.out() + s
        &&& b.faulty() == a.faulty()
        &&& b.seekable() == a.seekable()
        &&& a.seekable() ==> b.data() == put(a.data(), a.pos(), s) && b.pos() == a.pos() + s.len()
    }
    /// ... a prefix of s, not more
    pub open spec fn wrote_part<T: Stream + ?Sized>(a: &T, b: &T, s: Seq<u8>) -> bool {
        exists|k: nat| k <= s.len() && #[trigger] wrote(a, b, s.take(k as int))
    }

    pub trait Read: Stream {
        fn read(&mut self, buf: &mut [u8]) -> (r: Result<usize>)
            ensures
                final(buf)@.len() == old(buf)@.len(),
                r is Ok ==> r->Ok_0 <= old(buf)@.len(),
                r is Ok ==> advanced(old(self), final(self), r->Ok_0 as nat),
                r is Ok ==> final(buf)@.take(r->Ok_0 as int) == old(self).rest().take(r->Ok_0 as int),
                r is Ok && r->Ok_0 == 0 && old(buf)@.len() > 0 ==> old(self).rest().len() == 0,
                r is Ok ==> final(self).filled() + r->Ok_0 >= old(self).filled(),
                r is Err ==> old(self).faulty(),
                r is Err ==> advanced(old(self), final(self), 0);
        fn read_exact(&mut self, buf: &mut [u8]) -> (r: Result<()>)
            ensures
                final(buf)@.len() == old(buf)@.len(),
                same_source(old(self), final(self)),
                r is Ok ==> advanced(old(self), final(self), old(buf)@.len()),
                r is Ok ==> final(buf)@ == old(self).rest().take(old(buf)@.len() as int),
                r is Ok ==> final(self).filled() + old(buf)@.len() >= old(self).filled(),
                r is Err ==> old(self).faulty() || old(self).rest().len() < old(buf)@.len();
    }
    pub trait Seek: Stream {
        fn seek(&mut self, to: SeekFrom) -> (r: Result<u64>)
            requires to is End ==> to->End_0 == 0, !(to is Current),
            ensures
                same_source(old(self), final(self)),
                final(self).seekable(),
                final(self).rest() == tail(final(self).data(), final(self).pos()),
                r is Ok ==> r->Ok_0 == final(self).pos(),
                r is Ok && to is Start ==> final(self).pos() == to->Start_0,
                r is Ok && to is End ==> final(self).pos() == final(self).data().len(),
                r is Err ==> old(self).faulty();
        fn stream_position(&mut self) -> (r: Result<u64>)
            ensures
                same_source(old(self), final(self)),
                final(self).seekable(),
                final(self).rest() == tail(final(self).data(), final(self).pos()),
                final(self).rest() == old(self).rest(),
                final(self).pos() == old(self).pos(),
                r is Ok ==> r->Ok_0 == old(self).pos(),
                r is Err ==> old(self).faulty();
    }
    pub trait BufRead: Read {
        fn fill_buf(&mut self) -> (r: Result<&[u8]>)
            ensures
                advanced(old(self), final(self), 0),
                r is Ok ==> final(self).filled() == r->Ok_0@.len(),
                r is Ok ==> r->Ok_0@.len() >= old(self).filled(),
                r is Ok ==> r->Ok_0@.len() <= old(self).rest().len(),
                r is Ok ==> r->Ok_0@ == old(self).rest().take(r->Ok_0@.len() as int),
                r is Ok && r->Ok_0@.len() == 0 ==> old(self).rest().len() == 0,
                r is Err ==> old(self).faulty();
        fn consume(&mut self, amt: usize)
            requires amt <= old(self).filled(), amt <= old(self).rest().len(),
            ensures
                advanced(old(self), final(self), amt as nat),
                final(self).filled() == old(self).filled() - amt;
    }
    /// std::io::IoSlice: a borrowed byte string
    #[derive(Clone, Copy)]
    pub struct IoSlice<'a> { pub s: &'a [u8] }
    impl<'a> IoSlice<'a> {
        pub fn new(s: &'a [u8]) -> (r: IoSlice<'a>) ensures r.s@ == s@ { IoSlice { s } }
        pub fn len(&self) -> (r: usize) ensures r == self.s@.len() { self.s.len() }
        /// &self[a..]
        pub fn v_from(&self, a: usize) -> (r: &'a [u8])
            requires a <= self.s@.len(),
            ensures r@ == self.s@.skip(a as int),
        { proof { assert(self.s@.subrange(a as int, self.s@.len() as int) =~= self.s@.skip(a as int)); } vstd::slice::slice_subrange(self.s, a, self.s.len()) }
    }
    pub open spec fn joined(v: Seq<IoSlice>) -> Seq<u8>
        decreases v.len()
    {
        if v.len() == 0 { Seq::empty() } else { joined(v.drop_last()) + v.last().s@ }
    }
    pub trait Write: Stream {
        fn write_vectored(&mut self, bufs: &[IoSlice<'_>]) -> (r: Result<usize>)
            ensures
                r is Ok ==> r->Ok_0 <= joined(bufs@).len() && wrote(old(self), final(self), joined(bufs@).take(r->Ok_0 as int)),
                r is Err ==> old(self).faulty() && wrote(old(self), final(self), Seq::empty());
        fn write(&mut self, buf: &[u8]) -> (r: Result<usize>)
            ensures
                r is Ok ==> r->Ok_0 <= buf@.len() && wrote(old(self), final(self), buf@.take(r->Ok_0 as int)),
                r is Err ==> old(self).faulty() && wrote(old(self), final(self), Seq::empty());
        fn write_all(&mut self, buf: &[u8]) -> (r: Result<()>)
            ensures
                r is Ok ==> wrote(old(self), final(self), buf@),
                r is Err ==> old(self).faulty() && wrote_part(old(self), final(self), buf@);
        fn flush(&mut self) -> (r: Result<()>)
            ensures
                wrote(old(self), final(self), Seq::empty()),
                final(self).rest() == old(self).rest(),
                final(self).pos() == old(self).pos(),
                final(self).data() == old(self).data(),
                r is Err ==> old(self).faulty();
    }

    // ------- Vec<u8> as a sink: proved, not assumed
    impl Stream for Vec<u8> {
        open spec fn rest(&self) -> Seq<u8> { Seq::empty() }
        open spec fn data(&self) -> Seq<u8> { self@ }
        open spec fn pos(&self) -> nat { 0 }
        open spec fn seekable(&self) -> bool { false }
        open spec fn filled(&self) -> nat { 0 }
        open spec fn out(&self) -> Seq<u8> { self@ }
        open spec fn faulty(&self) -> bool { false }
    }

    // ------- Cursor over bytes
    pub trait AsBytes { spec fn bytes(&self) -> Seq<u8>; }
    impl AsBytes for Vec<u8> { open spec fn bytes(&self) -> Seq<u8> { self@ } }
    impl<'a> AsBytes for &'a [u8] { open spec fn bytes(&self) -> Seq<u8> { self@ } }
    impl<'a> AsBytes for &'a mut Vec<u8> { open spec fn bytes(&self) -> Seq<u8> { (*self)@ } }
    #[verifier::external_body]
    #[verifier::reject_recursive_types(B)]
    pub struct Cursor<B> { b: B, at: u64 }
    impl<B: AsBytes> Stream for Cursor<B> {
        open spec fn rest(&self) -> Seq<u8> { tail(self.data(), self.pos()) }
        uninterp spec fn data(&self) -> Seq<u8>;
        uninterp spec fn pos(&self) -> nat;
        open spec fn seekable(&self) -> bool { true }
        open spec fn filled(&self) -> nat { self.rest().len() }
        uninterp spec fn out(&self) -> Seq<u8>;
        open spec fn faulty(&self) -> bool { false }
    }
    impl<B: AsBytes> Cursor<B> {
        #[verifier::external_body]
        pub fn new(b: B) -> (r: Cursor<B>)
            ensures r.data() == b.bytes(), r.pos() == 0
        { unimplemented!() }
    }
    impl<B: AsBytes> Read for Cursor<B> {
        #[verifier::external_body]
        fn read(&mut self, buf: &mut [u8]) -> (r: Result<usize>) { unimplemented!() }
        #[verifier::external_body]
        fn read_exact(&mut self, buf: &mut [u8]) -> (r: Result<()>) { unimplemented!() }
    }
    impl<B: AsBytes> Seek for Cursor<B> {
        #[verifier::external_body]
        fn seek(&mut self, to: SeekFrom) -> (r: Result<u64>) { unimplemented!() }
        #[verifier::external_body]
        fn stream_position(&mut self) -> (r: Result<u64>) { unimplemented!() }
    }
    impl<B: AsBytes> BufRead for Cursor<B> {
        #[verifier::external_body]
        fn fill_buf(&mut self) -> (r: Result<&[u8]>)
            ensures r is Ok && r->Ok_0@ == old(self).rest()
        { unimplemented!() }
        #[verifier::external_body]
        fn consume(&mut self, amt: usize) { unimplemented!() }
    }

    // ------- a byte slice as a source: reading moves its start
    impl<'a> Stream for &'a [u8] {
        open spec fn rest(&self) -> Seq<u8> { self@ }
        open spec fn data(&self) -> Seq<u8> { self@ }
        open spec fn pos(&self) -> nat { 0 }
        open spec fn seekable(&self) -> bool { false }
        open spec fn filled(&self) -> nat { self@.len() }
        open spec fn out(&self) -> Seq<u8> { Seq::empty() }
        open spec fn faulty(&self) -> bool { false }
    }
    impl<'a> Read for &'a [u8] {
        #[verifier::external_body]
        fn read(&mut self, buf: &mut [u8]) -> (r: Result<usize>) { unimplemented!() }
        #[verifier::external_body]
        fn read_exact(&mut self, buf: &mut [u8]) -> (r: Result<()>) { unimplemented!() }
    }
    impl<'a> BufRead for &'a [u8] {
        #[verifier::external_body]
        fn fill_buf(&mut self) -> (r: Result<&[u8]>)
            ensures r is Ok && r->Ok_0@ == old(self)@
        { unimplemented!() }
        #[verifier::external_body]
        fn consume(&mut self, amt: usize) { unimplemented!() }
    }

    // ------- std::io::BufReader around a borrowed source
    #[verifier::external_body]
    #[verifier::accept_recursive_types(T)]
    pub struct BufReader<T> { p: core::marker::PhantomData<T> }
    impl<'a, R: Read> BufReader<&'a mut R> {
        #[verifier::external_body]
        pub fn new(inner: &'a mut R) -> (r: Self)
            ensures r.rest() == old(inner).rest(), r.faulty() == old(inner).faulty(), r.filled() == 0
        { unimplemented!() }
    }
    impl<T> Stream for BufReader<T> {
        uninterp spec fn rest(&self) -> Seq<u8>;
        uninterp spec fn data(&self) -> Seq<u8>;
        uninterp spec fn pos(&self) -> nat;
        uninterp spec fn seekable(&self) -> bool;
        uninterp spec fn filled(&self) -> nat;
        uninterp spec fn out(&self) -> Seq<u8>;
        uninterp spec fn faulty(&self) -> bool;
    }
    impl<T> Read for BufReader<T> {
        #[verifier::external_body]
        fn read(&mut self, buf: &mut [u8]) -> (r: Result<usize>) { unimplemented!() }
        #[verifier::external_body]
        fn read_exact(&mut self, buf: &mut [u8]) -> (r: Result<()>) { unimplemented!() }
    }
    impl<T> BufRead for BufReader<T> {
        #[verifier::external_body]
        fn fill_buf(&mut self) -> (r: Result<&[u8]>) { unimplemented!() }
        #[verifier::external_body]
        fn consume(&mut self, amt: usize) { unimplemented!() }
    }

    // ------- lemmas
    pub proof fn lemma_put_put(d: Seq<u8>, p: nat, a: Seq<u8>, b: Seq<u8>)
        ensures put(put(d, p, a), p + a.len(), b) == put(d, p, a + b)
    {
        assert(put(put(d, p, a), p + a.len(), b) =~= put(d, p, a + b));
    }
    pub proof fn lemma_wrote_none<T: Stream + ?Sized>(x: &T)
        ensures wrote(x, x, Seq::empty())
    { assert(x.out() + Seq::<u8>::empty() =~= x.out()); }
    pub proof fn lemma_wrote<T: Stream + ?Sized>(x: &T, y: &T, z: &T, a: Seq<u8>, b: Seq<u8>)
        requires wrote(x, y, a), wrote(y, z, b)
        ensures wrote(x, z, a + b)
    {
        lemma_put_put(x.data(), x.pos(), a, b);
        assert(x.out() + a + b =~= x.out() + (a + b));
    }
    pub proof fn lemma_wrote_part<T: Stream + ?Sized>(x: &T, y: &T, z: &T, a: Seq<u8>, b: Seq<u8>)
        requires wrote(x, y, a), wrote_part(y, z, b)
        ensures wrote_part(x, z, a + b)
    {
        let k = choose|k: nat| k <= b.len() && #[trigger] wrote(y, z, b.take(k as int));
        lemma_wrote(x, y, z, a, b.take(k as int));
        assert(a + b.take(k as int) =~= (a + b).take((a.len() + k) as int));
        assert(wrote(x, z, (a + b).take((a.len() + k) as int)));
    }
    pub proof fn lemma_part_of_more<T: Stream + ?Sized>(x: &T, y: &T, a: Seq<u8>, b: Seq<u8>)
        requires wrote_part(x, y, a)
        ensures wrote_part(x, y, a + b)
    {
        let k = choose|k: nat| k <= a.len() && #[trigger] wrote(x, y, a.take(k as int));
        assert(a.take(k as int) =~= (a + b).take(k as int));
        assert(wrote(x, y, (a + b).take(k as int)));
    }
}

// ---------------------------------------------------------------- crc32fast
// the assumption on crc32fast: that it computes the function below
/// CRC-32 (ISO-HDLC), the checksum of crc32fast
pub mod crcs {
use super::*;
pub open spec fn crc_bit(s: u32) -> u32 { if s & 1 == 1 { (s >> 1) ^ 0xEDB88320u32 } else { s >> 1 } }
pub open spec fn crc_byte(s: u32, b: u8) -> u32 {
    crc_bit(crc_bit(crc_bit(crc_bit(crc_bit(crc_bit(crc_bit(crc_bit(s ^ (b as u32)))))))))
}
pub open spec fn crc_run(s: u32, bs: Seq<u8>) -> u32 decreases bs.len()
{ if bs.len() == 0 { s } else { crc_byte(crc_run(s, bs.drop_last()), bs.last()) } }
pub closed spec fn crc32_of(s: Seq<u8>) -> u32 { !crc_run(!0u32, s) }
pub proof fn crc32_def(s: Seq<u8>) ensures crc32_of(s) == !crc_run(!0u32, s) {}
}
pub use crcs::*;
pub mod crcx {
    use super::*;
    #[verifier::external_body]
    pub struct Hasher { h: u32 }
    impl Hasher {
        pub uninterp spec fn fed(&self) -> Seq<u8>;
        #[verifier::external_body]
        pub fn new() -> (r: Hasher) ensures r.fed() == Seq::<u8>::empty() { unimplemented!() }
        #[verifier::external_body]
        pub fn update(&mut self, b: &[u8]) ensures final(self).fed() == old(self).fed() + b@ { unimplemented!() }
        #[verifier::external_body]
        pub fn finalize(self) -> (r: u32) ensures r == crc32_of(self.fed()) { unimplemented!() }
    }
}

// ---------------------------------------------------------------- core
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExTryFromSliceError(core::array::TryFromSliceError);

/// little-endian numbers: to_le_bytes / from_le_bytes
pub mod le {
use super::*;
pub trait VLe<const N: usize>: Sized {
    spec fn le(self) -> Seq<u8>;
    spec fn of_le(s: Seq<u8>) -> Self;
    fn v_to_le_bytes(self) -> (r: [u8; N])
        ensures r@ == self.le();
    fn v_from_le_bytes(a: [u8; N]) -> (r: Self)
        ensures r == Self::of_le(a@);
}
impl VLe<1> for u8 {
    open spec fn le(self) -> Seq<u8> { let v = self; seq![v as u8] }
    open spec fn of_le(s: Seq<u8>) -> Self { (s[0] as u8) }
    #[verifier::external_body]
    fn v_to_le_bytes(self) -> (r: [u8; 1]) { self.to_le_bytes() }
    #[verifier::external_body]
    fn v_from_le_bytes(a: [u8; 1]) -> (r: Self) { <u8>::from_le_bytes(a) }
}
pub proof fn le8(v: u8)
    ensures v.le().len() == 1, u8::of_le(v.le()) == v
{
    assert((v as u8 as u8) == v) by (bit_vector);
}
pub proof fn el8(s: Seq<u8>)
    requires s.len() == 1
    ensures u8::of_le(s).le() == s
{
    let b0 = s[0];
    assert(((b0 as u8)) as u8 == b0) by (bit_vector);
    assert(u8::of_le(s).le() =~= s);
}
impl VLe<2> for u16 {
    open spec fn le(self) -> Seq<u8> { let v = self; seq![v as u8, (v >> 8) as u8] }
    open spec fn of_le(s: Seq<u8>) -> Self { (s[0] as u16) | ((s[1] as u16) << 8) }
    #[verifier::external_body]
    fn v_to_le_bytes(self) -> (r: [u8; 2]) { self.to_le_bytes() }
    #[verifier::external_body]
    fn v_from_le_bytes(a: [u8; 2]) -> (r: Self) { <u16>::from_le_bytes(a) }
}
pub proof fn le16(v: u16)
    ensures v.le().len() == 2, u16::of_le(v.le()) == v
{
    assert((v as u8 as u16) | (((v >> 8) as u8 as u16) << 8) == v) by (bit_vector);
}
pub proof fn el16(s: Seq<u8>)
    requires s.len() == 2
    ensures u16::of_le(s).le() == s
{
    let b0 = s[0]; let b1 = s[1];
    assert(((b0 as u16) | ((b1 as u16) << 8)) as u8 == b0) by (bit_vector); assert((((b0 as u16) | ((b1 as u16) << 8)) >> 8) as u8 == b1) by (bit_vector);
    assert(u16::of_le(s).le() =~= s);
}
impl VLe<4> for u32 {
    open spec fn le(self) -> Seq<u8> { let v = self; seq![v as u8, (v >> 8) as u8, (v >> 16) as u8, (v >> 24) as u8] }
    open spec fn of_le(s: Seq<u8>) -> Self { (s[0] as u32) | ((s[1] as u32) << 8) | ((s[2] as u32) << 16) | ((s[3] as u32) << 24) }
    #[verifier::external_body]
    fn v_to_le_bytes(self) -> (r: [u8; 4]) { self.to_le_bytes() }
    #[verifier::external_body]
    fn v_from_le_bytes(a: [u8; 4]) -> (r: Self) { <u32>::from_le_bytes(a) }
}
pub proof fn le32(v: u32)
    ensures v.le().len() == 4, u32::of_le(v.le()) == v
{
    assert((v as u8 as u32) | (((v >> 8) as u8 as u32) << 8) | (((v >> 16) as u8 as u32) << 16) | (((v >> 24) as u8 as u32) << 24) == v) by (bit_vector);
}
pub proof fn el32(s: Seq<u8>)
    requires s.len() == 4
    ensures u32::of_le(s).le() == s
{
    let b0 = s[0]; let b1 = s[1]; let b2 = s[2]; let b3 = s[3];
    assert(((b0 as u32) | ((b1 as u32) << 8) | ((b2 as u32) << 16) | ((b3 as u32) << 24)) as u8 == b0) by (bit_vector); assert((((b0 as u32) | ((b1 as u32) << 8) | ((b2 as u32) << 16) | ((b3 as u32) << 24)) >> 8) as u8 == b1) by (bit_vector); assert((((b0 as u32) | ((b1 as u32) << 8) | ((b2 as u32) << 16) | ((b3 as u32) << 24)) >> 16) as u8 == b2) by (bit_vector); assert((((b0 as u32) | ((b1 as u32) << 8) | ((b2 as u32) << 16) | ((b3 as u32) << 24)) >> 24) as u8 == b3) by (bit_vector);
    assert(u32::of_le(s).le() =~= s);
}
impl VLe<8> for u64 {
    open spec fn le(self) -> Seq<u8> { let v = self; seq![v as u8, (v >> 8) as u8, (v >> 16) as u8, (v >> 24) as u8, (v >> 32) as u8, (v >> 40) as u8, (v >> 48) as u8, (v >> 56) as u8] }
    open spec fn of_le(s: Seq<u8>) -> Self { (s[0] as u64) | ((s[1] as u64) << 8) | ((s[2] as u64) << 16) | ((s[3] as u64) << 24) | ((s[4] as u64) << 32) | ((s[5] as u64) << 40) | ((s[6] as u64) << 48) | ((s[7] as u64) << 56) }
    #[verifier::external_body]
    fn v_to_le_bytes(self) -> (r: [u8; 8]) { self.to_le_bytes() }
    #[verifier::external_body]
    fn v_from_le_bytes(a: [u8; 8]) -> (r: Self) { <u64>::from_le_bytes(a) }
}
pub proof fn le64(v: u64)
    ensures v.le().len() == 8, u64::of_le(v.le()) == v
{
    assert((v as u8 as u64) | (((v >> 8) as u8 as u64) << 8) | (((v >> 16) as u8 as u64) << 16) | (((v >> 24) as u8 as u64) << 24) | (((v >> 32) as u8 as u64) << 32) | (((v >> 40) as u8 as u64) << 40) | (((v >> 48) as u8 as u64) << 48) | (((v >> 56) as u8 as u64) << 56) == v) by (bit_vector);
}
pub proof fn el64(s: Seq<u8>)
    requires s.len() == 8
    ensures u64::of_le(s).le() == s
{
    let b0 = s[0]; let b1 = s[1]; let b2 = s[2]; let b3 = s[3]; let b4 = s[4]; let b5 = s[5]; let b6 = s[6]; let b7 = s[7];
    assert(((b0 as u64) | ((b1 as u64) << 8) | ((b2 as u64) << 16) | ((b3 as u64) << 24) | ((b4 as u64) << 32) | ((b5 as u64) << 40) | ((b6 as u64) << 48) | ((b7 as u64) << 56)) as u8 == b0) by (bit_vector); assert((((b0 as u64) | ((b1 as u64) << 8) | ((b2 as u64) << 16) | ((b3 as u64) << 24) | ((b4 as u64) << 32) | ((b5 as u64) << 40) | ((b6 as u64) << 48) | ((b7 as u64) << 56)) >> 8) as u8 == b1) by (bit_vector); assert((((b0 as u64) | ((b1 as u64) << 8) | ((b2 as u64) << 16) | ((b3 as u64) << 24) | ((b4 as u64) << 32) | ((b5 as u64) << 40) | ((b6 as u64) << 48) | ((b7 as u64) << 56)) >> 16) as u8 == b2) by (bit_vector); assert((((b0 as u64) | ((b1 as u64) << 8) | ((b2 as u64) << 16) | ((b3 as u64) << 24) | ((b4 as u64) << 32) | ((b5 as u64) << 40) | ((b6 as u64) << 48) | ((b7 as u64) << 56)) >> 24) as u8 == b3) by (bit_vector); assert((((b0 as u64) | ((b1 as u64) << 8) | ((b2 as u64) << 16) | ((b3 as u64) << 24) | ((b4 as u64) << 32) | ((b5 as u64) << 40) | ((b6 as u64) << 48) | ((b7 as u64) << 56)) >> 32) as u8 == b4) by (bit_vector); assert((((b0 as u64) | ((b1 as u64) << 8) | ((b2 as u64) << 16) | ((b3 as u64) << 24) | ((b4 as u64) << 32) | ((b5 as u64) << 40) | ((b6 as u64) << 48) | ((b7 as u64) << 56)) >> 40) as u8 == b5) by (bit_vector); assert((((b0 as u64) | ((b1 as u64) << 8) | ((b2 as u64) << 16) | ((b3 as u64) << 24) | ((b4 as u64) << 32) | ((b5 as u64) << 40) | ((b6 as u64) << 48) | ((b7 as u64) << 56)) >> 48) as u8 == b6) by (bit_vector); assert((((b0 as u64) | ((b1 as u64) << 8) | ((b2 as u64) << 16) | ((b3 as u64) << 24) | ((b4 as u64) << 32) | ((b5 as u64) << 40) | ((b6 as u64) << 48) | ((b7 as u64) << 56)) >> 56) as u8 == b7) by (bit_vector);
    assert(u64::of_le(s).le() =~= s);
}
impl VLe<16> for u128 {
    open spec fn le(self) -> Seq<u8> { let v = self; seq![v as u8, (v >> 8) as u8, (v >> 16) as u8, (v >> 24) as u8, (v >> 32) as u8, (v >> 40) as u8, (v >> 48) as u8, (v >> 56) as u8, (v >> 64) as u8, (v >> 72) as u8, (v >> 80) as u8, (v >> 88) as u8, (v >> 96) as u8, (v >> 104) as u8, (v >> 112) as u8, (v >> 120) as u8] }
    open spec fn of_le(s: Seq<u8>) -> Self { (s[0] as u128) | ((s[1] as u128) << 8) | ((s[2] as u128) << 16) | ((s[3] as u128) << 24) | ((s[4] as u128) << 32) | ((s[5] as u128) << 40) | ((s[6] as u128) << 48) | ((s[7] as u128) << 56) | ((s[8] as u128) << 64) | ((s[9] as u128) << 72) | ((s[10] as u128) << 80) | ((s[11] as u128) << 88) | ((s[12] as u128) << 96) | ((s[13] as u128) << 104) | ((s[14] as u128) << 112) | ((s[15] as u128) << 120) }
    #[verifier::external_body]
    fn v_to_le_bytes(self) -> (r: [u8; 16]) { self.to_le_bytes() }
    #[verifier::external_body]
    fn v_from_le_bytes(a: [u8; 16]) -> (r: Self) { <u128>::from_le_bytes(a) }
}
pub proof fn le128(v: u128)
    ensures v.le().len() == 16, u128::of_le(v.le()) == v
{
    assert((v as u8 as u128) | (((v >> 8) as u8 as u128) << 8) | (((v >> 16) as u8 as u128) << 16) | (((v >> 24) as u8 as u128) << 24) | (((v >> 32) as u8 as u128) << 32) | (((v >> 40) as u8 as u128) << 40) | (((v >> 48) as u8 as u128) << 48) | (((v >> 56) as u8 as u128) << 56) | (((v >> 64) as u8 as u128) << 64) | (((v >> 72) as u8 as u128) << 72) | (((v >> 80) as u8 as u128) << 80) | (((v >> 88) as u8 as u128) << 88) | (((v >> 96) as u8 as u128) << 96) | (((v >> 104) as u8 as u128) << 104) | (((v >> 112) as u8 as u128) << 112) | (((v >> 120) as u8 as u128) << 120) == v) by (bit_vector);
}
pub proof fn el128(s: Seq<u8>)
    requires s.len() == 16
    ensures u128::of_le(s).le() == s
{
    let b0 = s[0]; let b1 = s[1]; let b2 = s[2]; let b3 = s[3]; let b4 = s[4]; let b5 = s[5]; let b6 = s[6]; let b7 = s[7]; let b8 = s[8]; let b9 = s[9]; let b10 = s[10]; let b11 = s[11]; let b12 = s[12]; let b13 = s[13]; let b14 = s[14]; let b15 = s[15];
    assert(((b0 as u128) | ((b1 as u128) << 8) | ((b2 as u128) << 16) | ((b3 as u128) << 24) | ((b4 as u128) << 32) | ((b5 as u128) << 40) | ((b6 as u128) << 48) | ((b7 as u128) << 56) | ((b8 as u128) << 64) | ((b9 as u128) << 72) | ((b10 as u128) << 80) | ((b11 as u128) << 88) | ((b12 as u128) << 96) | ((b13 as u128) << 104) | ((b14 as u128) << 112) | ((b15 as u128) << 120)) as u8 == b0) by (bit_vector); assert((((b0 as u128) | ((b1 as u128) << 8) | ((b2 as u128) << 16) | ((b3 as u128) << 24) | ((b4 as u128) << 32) | ((b5 as u128) << 40) | ((b6 as u128) << 48) | ((b7 as u128) << 56) | ((b8 as u128) << 64) | ((b9 as u128) << 72) | ((b10 as u128) << 80) | ((b11 as u128) << 88) | ((b12 as u128) << 96) | ((b13 as u128) << 104) | ((b14 as u128) << 112) | ((b15 as u128) << 120)) >> 8) as u8 == b1) by (bit_vector); assert((((b0 as u128) | ((b1 as u128) << 8) | ((b2 as u128) << 16) | ((b3 as u128) << 24) | ((b4 as u128) << 32) | ((b5 as u128) << 40) | ((b6 as u128) << 48) | ((b7 as u128) << 56) | ((b8 as u128) << 64) | ((b9 as u128) << 72) | ((b10 as u128) << 80) | ((b11 as u128) << 88) | ((b12 as u128) << 96) | ((b13 as u128) << 104) | ((b14 as u128) << 112) | ((b15 as u128) << 120)) >> 16) as u8 == b2) by (bit_vector); assert((((b0 as u128) | ((b1 as u128) << 8) | ((b2 as u128) << 16) | ((b3 as u128) << 24) | ((b4 as u128) << 32) | ((b5 as u128) << 40) | ((b6 as u128) << 48) | ((b7 as u128) << 56) | ((b8 as u128) << 64) | ((b9 as u128) << 72) | ((b10 as u128) << 80) | ((b11 as u128) << 88) | ((b12 as u128) << 96) | ((b13 as u128) << 104) | ((b14 as u128) << 112) | ((b15 as u128) << 120)) >> 24) as u8 == b3) by (bit_vector); assert((((b0 as u128) | ((b1 as u128) << 8) | ((b2 as u128) << 16) | ((b3 as u128) << 24) | ((b4 as u128) << 32) | ((b5 as u128) << 40) | ((b6 as u128) << 48) | ((b7 as u128) << 56) | ((b8 as u128) << 64) | ((b9 as u128) << 72) | ((b10 as u128) << 80) | ((b11 as u128) << 88) | ((b12 as u128) << 96) | ((b13 as u128) << 104) | ((b14 as u128) << 112) | ((b15 as u128) << 120)) >> 32) as u8 == b4) by (bit_vector); assert((((b0 as u128) | ((b1 as u128) << 8) | ((b2 as u128) << 16) | ((b3 as u128) << 24) | ((b4 as u128) << 32) | ((b5 as u128) << 40) | ((b6 as u128) << 48) | ((b7 as u128) << 56) | ((b8 as u128) << 64) | ((b9 as u128) << 72) | ((b10 as u128) << 80) | ((b11 as u128) << 88) | ((b12 as u128) << 96) | ((b13 as u128) << 104) | ((b14 as u128) << 112) | ((b15 as u128) << 120)) >> 40) as u8 == b5) by (bit_vector); assert((((b0 as u128) | ((b1 as u128) << 8) | ((b2 as u128) << 16) | ((b3 as u128) << 24) | ((b4 as u128) << 32) | ((b5 as u128) << 40) | ((b6 as u128) << 48) | ((b7 as u128) << 56) | ((b8 as u128) << 64) | ((b9 as u128) << 72) | ((b10 as u128) << 80) | ((b11 as u128) << 88) | ((b12 as u128) << 96) | ((b13 as u128) << 104) | ((b14 as u128) << 112) | ((b15 as u128) << 120)) >> 48) as u8 == b6) by (bit_vector); assert((((b0 as u128) | ((b1 as u128) << 8) | ((b2 as u128) << 16) | ((b3 as u128) << 24) | ((b4 as u128) << 32) | ((b5 as u128) << 40) | ((b6 as u128) << 48) | ((b7 as u128) << 56) | ((b8 as u128) << 64) | ((b9 as u128) << 72) | ((b10 as u128) << 80) | ((b11 as u128) << 88) | ((b12 as u128) << 96) | ((b13 as u128) << 104) | ((b14 as u128) << 112) | ((b15 as u128) << 120)) >> 56) as u8 == b7) by (bit_vector); assert((((b0 as u128) | ((b1 as u128) << 8) | ((b2 as u128) << 16) | ((b3 as u128) << 24) | ((b4 as u128) << 32) | ((b5 as u128) << 40) | ((b6 as u128) << 48) | ((b7 as u128) << 56) | ((b8 as u128) << 64) | ((b9 as u128) << 72) | ((b10 as u128) << 80) | ((b11 as u128) << 88) | ((b12 as u128) << 96) | ((b13 as u128) << 104) | ((b14 as u128) << 112) | ((b15 as u128) << 120)) >> 64) as u8 == b8) by (bit_vector); assert((((b0 as u128) | ((b1 as u128) << 8) | ((b2 as u128) << 16) | ((b3 as u128) << 24) | ((b4 as u128) << 32) | ((b5 as u128) << 40) | ((b6 as u128) << 48) | ((b7 as u128) << 56) | ((b8 as u128) << 64) | ((b9 as u128) << 72) | ((b10 as u128) << 80) | ((b11 as u128) << 88) | ((b12 as u128) << 96) | ((b13 as u128) << 104) | ((b14 as u128) << 112) | ((b15 as u128) << 120)) >> 72) as u8 == b9) by (bit_vector); assert((((b0 as u128) | ((b1 as u128) << 8) | ((b2 as u128) << 16) | ((b3 as u128) << 24) | ((b4 as u128) << 32) | ((b5 as u128) << 40) | ((b6 as u128) << 48) | ((b7 as u128) << 56) | ((b8 as u128) << 64) | ((b9 as u128) << 72) | ((b10 as u128) << 80) | ((b11 as u128) << 88) | ((b12 as u128) << 96) | ((b13 as u128) << 104) | ((b14 as u128) << 112) | ((b15 as u128) << 120)) >> 80) as u8 == b10) by (bit_vector); assert((((b0 as u128) | ((b1 as u128) << 8) | ((b2 as u128) << 16) | ((b3 as u128) << 24) | ((b4 as u128) << 32) | ((b5 as u128) << 40) | ((b6 as u128) << 48) | ((b7 as u128) << 56) | ((b8 as u128) << 64) | ((b9 as u128) << 72) | ((b10 as u128) << 80) | ((b11 as u128) << 88) | ((b12 as u128) << 96) | ((b13 as u128) << 104) | ((b14 as u128) << 112) | ((b15 as u128) << 120)) >> 88) as u8 == b11) by (bit_vector); assert((((b0 as u128) | ((b1 as u128) << 8) | ((b2 as u128) << 16) | ((b3 as u128) << 24) | ((b4 as u128) << 32) | ((b5 as u128) << 40) | ((b6 as u128) << 48) | ((b7 as u128) << 56) | ((b8 as u128) << 64) | ((b9 as u128) << 72) | ((b10 as u128) << 80) | ((b11 as u128) << 88) | ((b12 as u128) << 96) | ((b13 as u128) << 104) | ((b14 as u128) << 112) | ((b15 as u128) << 120)) >> 96) as u8 == b12) by (bit_vector); assert((((b0 as u128) | ((b1 as u128) << 8) | ((b2 as u128) << 16) | ((b3 as u128) << 24) | ((b4 as u128) << 32) | ((b5 as u128) << 40) | ((b6 as u128) << 48) | ((b7 as u128) << 56) | ((b8 as u128) << 64) | ((b9 as u128) << 72) | ((b10 as u128) << 80) | ((b11 as u128) << 88) | ((b12 as u128) << 96) | ((b13 as u128) << 104) | ((b14 as u128) << 112) | ((b15 as u128) << 120)) >> 104) as u8 == b13) by (bit_vector); assert((((b0 as u128) | ((b1 as u128) << 8) | ((b2 as u128) << 16) | ((b3 as u128) << 24) | ((b4 as u128) << 32) | ((b5 as u128) << 40) | ((b6 as u128) << 48) | ((b7 as u128) << 56) | ((b8 as u128) << 64) | ((b9 as u128) << 72) | ((b10 as u128) << 80) | ((b11 as u128) << 88) | ((b12 as u128) << 96) | ((b13 as u128) << 104) | ((b14 as u128) << 112) | ((b15 as u128) << 120)) >> 112) as u8 == b14) by (bit_vector); assert((((b0 as u128) | ((b1 as u128) << 8) | ((b2 as u128) << 16) | ((b3 as u128) << 24) | ((b4 as u128) << 32) | ((b5 as u128) << 40) | ((b6 as u128) << 48) | ((b7 as u128) << 56) | ((b8 as u128) << 64) | ((b9 as u128) << 72) | ((b10 as u128) << 80) | ((b11 as u128) << 88) | ((b12 as u128) << 96) | ((b13 as u128) << 104) | ((b14 as u128) << 112) | ((b15 as u128) << 120)) >> 120) as u8 == b15) by (bit_vector);
    assert(u128::of_le(s).le() =~= s);
}
}
pub use le::*;
/// `try_into()`
pub trait VTryInto<T>: Sized {
    type E;
    spec fn conv(self, r: Result<T, Self::E>) -> bool;
    fn v_try_into(self) -> (r: Result<T, Self::E>)
        ensures self.conv(r);
}
impl<'a, const N: usize> VTryInto<[u8; N]> for &'a [u8] {
    type E = core::array::TryFromSliceError;
    open spec fn conv(self, r: Result<[u8; N], core::array::TryFromSliceError>) -> bool {
        &&& r is Ok <==> self@.len() == N
        &&& r is Ok ==> r->Ok_0@ == self@
    }
    #[verifier::external_body]
    fn v_try_into(self) -> (r: Result<[u8; N], core::array::TryFromSliceError>) { <[u8; N]>::try_from(self) }
}
impl<const N: usize> VTryInto<[u8; N]> for Vec<u8> {
    type E = Vec<u8>;
    open spec fn conv(self, r: Result<[u8; N], Vec<u8>>) -> bool {
        &&& r is Ok <==> self@.len() == N
        &&& r is Ok ==> r->Ok_0@ == self@
    }
    #[verifier::external_body]
    fn v_try_into(self) -> (r: Result<[u8; N], Vec<u8>>) { <[u8; N]>::try_from(self) }
}
/// is x among the elements of s (spelled out for short sequences)
pub open spec fn among(s: Seq<u8>, x: u8) -> bool {
    (s.len() > 0 && s[0] == x) || (s.len() > 1 && s[1] == x) || (s.len() > 2 && s[2] == x) || (s.len() > 3 && s[3] == x)
    || (s.len() > 4 && s[4] == x) || (s.len() > 5 && s[5] == x) || (s.len() > 6 && s[6] == x) || (s.len() > 7 && s[7] == x)
    || (s.len() > 8 && s.skip(8).contains(x))
}
pub trait VContains {
    fn v_contains(&self, x: &u8) -> (r: bool);
}
impl<const N: usize> VContains for [u8; N] {
    #[verifier::external_body]
    fn v_contains(&self, x: &u8) -> (r: bool)
        ensures r <==> among(self@, *x)
    { self.contains(x) }
}
pub trait VPrefix {
    fn v_starts_with(&self, needle: &[u8]) -> (r: bool);
}
impl VPrefix for [u8] {
    #[verifier::external_body]
    fn v_starts_with(&self, needle: &[u8]) -> (r: bool)
        ensures r <==> (needle@.len() <= self@.len() && self@.subrange(0, needle@.len() as int) == needle@)
    { self.starts_with(needle) }
}

pub trait VToVec {
    fn v_to_vec(&self) -> (r: Vec<u8>);
}
impl VToVec for [u8] {
    fn v_to_vec(&self) -> (r: Vec<u8>)
        ensures r@ == self@
    { let mut v: Vec<u8> = Vec::new(); v.extend_from_slice(self); proof { assert(v@ =~= self@); } v }
}
pub trait VSat: Sized {
    spec fn sat_sub(self, o: Self) -> Self;
    spec fn sat_add(self, o: Self) -> Self;
    spec fn sat_mul(self, o: Self) -> Self;
    fn v_saturating_sub(self, o: Self) -> (r: Self) ensures r == self.sat_sub(o);
    fn v_saturating_add(self, o: Self) -> (r: Self) ensures r == self.sat_add(o);
    fn v_saturating_mul(self, o: Self) -> (r: Self) ensures r == self.sat_mul(o);
}
macro_rules! vsat { ($t:ident) => { verus! {
    impl VSat for $t {
        open spec fn sat_sub(self, o: Self) -> Self { if self >= o { (self - o) as $t } else { 0 } }
        open spec fn sat_add(self, o: Self) -> Self { if self + o <= $t::MAX { (self + o) as $t } else { $t::MAX } }
        open spec fn sat_mul(self, o: Self) -> Self { if self * o <= $t::MAX { (self * o) as $t } else { $t::MAX } }
        #[verifier::external_body]
        fn v_saturating_sub(self, o: Self) -> (r: Self) { self.saturating_sub(o) }
        #[verifier::external_body]
        fn v_saturating_add(self, o: Self) -> (r: Self) { self.saturating_add(o) }
        #[verifier::external_body]
        fn v_saturating_mul(self, o: Self) -> (r: Self) { self.saturating_mul(o) }
    }
} } }
vsat!(u64);
vsat!(usize);

pub assume_specification[ <u8 as From<bool>>::from ](b: bool) -> (r: u8)
    ensures r == (if b { 1u8 } else { 0u8 });

pub mod ax {
    use super::*;
    /// == on byte arrays compares the bytes
    pub broadcast axiom fn array_eq<const N: usize>(a: [u8; N], b: [u8; N])
        ensures
            <[u8; N] as PartialEqSpec<[u8; N]>>::obeys_eq_spec(),
            #[trigger] PartialEqSpec::eq_spec(&a, &b) <==> a@ == b@;
    /// a seekable source: rest is what lies behind the position
    pub broadcast axiom fn seek_law<T: sio::Seek>(t: &T)
        ensures #[trigger] sio::Stream::seekable(t);
    pub broadcast axiom fn seek_rest<T: sio::Seek>(t: &T)
        ensures #[trigger] sio::Stream::rest(t) == sio::tail(t.data(), t.pos());
    /// a source delivers less than 2^63 bytes
    pub axiom fn finite<T: sio::Stream>(t: &T)
        ensures t.rest().len() <= i64::MAX;
    // sequence algebra (proved)
    pub broadcast proof fn sub_sub(s: Seq<u8>, a: int, b: int, c: int, d: int)
        requires 0 <= a <= b <= s.len(), 0 <= c <= d <= b - a
        ensures #[trigger] s.subrange(a, b).subrange(c, d) == s.subrange(a + c, a + d)
    { assert(s.subrange(a, b).subrange(c, d) =~= s.subrange(a + c, a + d)); }
    pub broadcast proof fn sub_all(s: Seq<u8>, b: int)
        requires b == s.len()
        ensures #[trigger] s.subrange(0, b) == s
    { assert(s.subrange(0, b) =~= s); }
    pub broadcast proof fn sub_none(s: Seq<u8>, a: int)
        requires 0 <= a <= s.len()
        ensures #[trigger] s.subrange(a, a) == Seq::<u8>::empty()
    { assert(s.subrange(a, a) =~= Seq::<u8>::empty()); }
    pub broadcast proof fn add_assoc(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>)
        ensures #[trigger] ((a + b) + c) == a + (b + c)
    { assert((a + b) + c =~= a + (b + c)); }
    pub broadcast proof fn add_left(a: Seq<u8>)
        ensures #[trigger] (Seq::<u8>::empty() + a) == a
    { assert(Seq::<u8>::empty() + a =~= a); }
    pub broadcast proof fn add_right(a: Seq<u8>)
        ensures #[trigger] (a + Seq::<u8>::empty()) == a
    { assert(a + Seq::<u8>::empty() =~= a); }
    pub broadcast proof fn one_byte(a: [u8; 1])
        ensures #[trigger] a@ == seq![a@[0]]
    { assert(a@ =~= seq![a@[0]]); }
    pub broadcast proof fn le_len32(a: u32)
        ensures #[trigger] a.le().len() == 4
    {}
    pub broadcast proof fn le_len64(a: u64)
        ensures #[trigger] a.le().len() == 8
    {}
    pub broadcast proof fn le_inj32(a: u32, b: u32)
        ensures (#[trigger] a.le() == #[trigger] b.le()) ==> a == b
    { le32(a); le32(b); }
    pub broadcast proof fn wrote_then_none<T: sio::Stream + ?Sized>(x: &T, y: &T, z: &T, s: Seq<u8>)
        requires #[trigger] sio::wrote(x, y, s), #[trigger] sio::wrote(y, z, Seq::empty())
        ensures sio::wrote(x, z, s)
    { sio::lemma_wrote(x, y, z, s, Seq::empty()); assert(s + Seq::<u8>::empty() =~= s); }
    pub broadcast proof fn part_none<T: sio::Stream + ?Sized>(x: &T, s: Seq<u8>)
        ensures #[trigger] sio::wrote_part(x, x, s)
    { assert(s.take(0) =~= Seq::<u8>::empty()); sio::lemma_wrote_none(x); assert(sio::wrote(x, x, s.take(0))); }
    pub broadcast proof fn part_more<T: sio::Stream + ?Sized>(x: &T, y: &T, a: Seq<u8>, b: Seq<u8>)
        requires #[trigger] sio::wrote_part(x, y, a)
        ensures #[trigger] sio::wrote_part(x, y, a + b)
    { sio::lemma_part_of_more(x, y, a, b); }
    pub broadcast proof fn part_all<T: sio::Stream + ?Sized>(x: &T, y: &T, a: Seq<u8>, b: Seq<u8>)
        requires #[trigger] sio::wrote(x, y, a)
        ensures #[trigger] sio::wrote_part(x, y, a + b)
    { assert((a + b).take(a.len() as int) =~= a); assert(sio::wrote(x, y, (a + b).take(a.len() as int))); }
    pub broadcast proof fn part_then<T: sio::Stream + ?Sized>(x: &T, y: &T, z: &T, a: Seq<u8>, b: Seq<u8>)
        requires #[trigger] sio::wrote(x, y, a), #[trigger] sio::wrote_part(y, z, b)
        ensures sio::wrote_part(x, z, a + b)
    { sio::lemma_wrote_part(x, y, z, a, b); }
    pub broadcast proof fn then<T: sio::Stream + ?Sized>(x: &T, y: &T, z: &T, a: Seq<u8>, b: Seq<u8>)
        requires #[trigger] sio::wrote(x, y, a), #[trigger] sio::wrote(y, z, b)
        ensures sio::wrote(x, z, a + b)
    { sio::lemma_wrote(x, y, z, a, b); }
    pub broadcast proof fn take_add(a: Seq<u8>, b: Seq<u8>, n: int)
        requires a.len() <= n <= a.len() + b.len()
        ensures #[trigger] (a + b).take(n) == a + b.take(n - a.len())
    { assert((a + b).take(n) =~= a + b.take(n - a.len())); }
    pub broadcast proof fn skip_skip(s: Seq<u8>, a: int, b: int)
        requires 0 <= a, 0 <= b, a + b <= s.len()
        ensures #[trigger] s.skip(a).skip(b) == s.skip(a + b)
    { assert(s.skip(a).skip(b) =~= s.skip(a + b)); }
    pub broadcast proof fn skip_none(s: Seq<u8>)
        ensures #[trigger] s.skip(0) == s
    { assert(s.skip(0) =~= s); }
    pub broadcast proof fn skip_take(s: Seq<u8>, a: int, b: int)
        requires 0 <= a, 0 <= b, a + b <= s.len()
        ensures #[trigger] s.skip(a).take(b) == s.subrange(a, a + b)
    { assert(s.skip(a).take(b) =~= s.subrange(a, a + b)); }
    pub broadcast group reading { seek_law, seek_rest, skip_skip, skip_none, skip_take }
    // how far a sink has got in a string s
    pub broadcast proof fn got_none<T: sio::Stream + ?Sized>(x: &T, s: Seq<u8>)
        ensures #[trigger] sio::wrote(x, x, s.take(0))
    { assert(s.take(0) =~= Seq::<u8>::empty()); sio::lemma_wrote_none(x); }
    pub broadcast proof fn got<T: sio::Stream + ?Sized>(x: &T, y: &T, z: &T, s: Seq<u8>, n: int, t: Seq<u8>)
        requires #[trigger] sio::wrote(x, y, s.take(n)), #[trigger] sio::wrote(y, z, t), 0 <= n, n + t.len() <= s.len(), s.subrange(n, n + t.len()) == t
        ensures sio::wrote(x, z, s.take(n + t.len()))
    { sio::lemma_wrote(x, y, z, s.take(n), t); assert(s.take(n) + t =~= s.take(n + t.len())); }
    pub broadcast proof fn got_some<T: sio::Stream + ?Sized>(x: &T, y: &T, z: &T, s: Seq<u8>, n: int, t: Seq<u8>, k: int)
        requires #[trigger] sio::wrote(x, y, s.take(n)), #[trigger] sio::wrote(y, z, t.take(k)), 0 <= n, n + t.len() <= s.len(), s.subrange(n, n + t.len()) == t, 0 <= k <= t.len()
        ensures sio::wrote(x, z, s.take(n + k))
    { sio::lemma_wrote(x, y, z, s.take(n), t.take(k)); assert(s.take(n) + t.take(k) =~= s.take(n + k)); }
    pub broadcast proof fn got_part<T: sio::Stream + ?Sized>(x: &T, y: &T, z: &T, s: Seq<u8>, n: int, t: Seq<u8>)
        requires #[trigger] sio::wrote(x, y, s.take(n)), #[trigger] sio::wrote_part(y, z, t), 0 <= n, n + t.len() <= s.len(), s.subrange(n, n + t.len()) == t
        ensures sio::wrote_part(x, z, s)
    {
        let k = choose|k: nat| k <= t.len() && #[trigger] sio::wrote(y, z, t.take(k as int));
        got_some(x, y, z, s, n, t, k as int);
        assert(sio::wrote(x, z, s.take(n + k)));
        assert(sio::wrote(x, z, s.take((n + k) as nat as int)));
    }
    pub broadcast proof fn took(s: Seq<u8>, n: int, t: Seq<u8>)
        requires 0 <= n, n + t.len() <= s.len(), s.subrange(n, n + t.len()) == t
        ensures #[trigger] (s.take(n) + t) == s.take(n + t.len())
    { assert(s.take(n) + t =~= s.take(n + t.len())); }
    pub broadcast proof fn take_all(s: Seq<u8>, n: int)
        requires n == s.len()
        ensures #[trigger] s.take(n) == s
    { assert(s.take(n) =~= s); }
    pub broadcast group progress { got_none, got, got_some, got_part, took, take_all, sub_none, part_none }
    pub broadcast group seq { add_assoc, add_left, add_right }
    pub broadcast group parts { part_none, part_more, part_all, part_then, then, take_add }
    pub broadcast group io { wrote_then_none }
    pub broadcast group core { one_byte, le_inj32, array_eq, seek_law, seek_rest, sub_sub, sub_all, sub_none, add_assoc, add_left, add_right }
}

// ---------------------------------------------------------------- brec: shared types
