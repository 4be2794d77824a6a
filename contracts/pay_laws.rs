// ---------------------------------------------------------------- payloads: what an implementation of brec's traits promises
// (conditions on the user's types; for String-free Vec<u8> and for the defaults they are proved in unit pay)
pub trait PayloadHooks {}
pub trait PayloadEncode: PayloadHooks {
    /// the encoded body
    spec fn enc(&self) -> Seq<u8>;
    spec fn enc_fails(&self) -> bool;
    fn encode(&self) -> (r: sio::Result<Vec<u8>>)
        ensures r is Ok ==> r->Ok_0@ == self.enc(), r is Err <==> self.enc_fails();
}
pub trait PayloadEncodeReferred {
    /// the encoded body where it is there without encoding
    spec fn refd(&self) -> Option<Seq<u8>>;
    spec fn ref_fails(&self) -> bool;
    fn encode_referred(&self) -> (r: sio::Result<Option<&[u8]>>)
        ensures
            r is Ok ==> (r->Ok_0 is Some <==> self.refd() is Some),
            r is Ok && r->Ok_0 is Some ==> r->Ok_0->0@ == self.refd()->0,
            r is Err <==> self.ref_fails();
}
/// the bytes a payload's body has in a packet
pub open spec fn body<T: PayloadEncode + PayloadEncodeReferred + ?Sized>(p: &T) -> Seq<u8> {
    match p.refd() { Some(b) => b, None => p.enc() }
}
pub open spec fn body_fails<T: PayloadEncode + PayloadEncodeReferred + ?Sized>(p: &T) -> bool {
    p.ref_fails() || (p.refd() is None && p.enc_fails())
}
pub trait PayloadDecode<T>: PayloadHooks {
    /// the value decoding gives, a function of the bytes
    spec fn dec(s: Seq<u8>) -> Option<T>;
    fn decode(buf: &[u8]) -> (r: sio::Result<T>)
        ensures r is Ok ==> Self::dec(buf@) == Some(r->Ok_0), r is Err ==> Self::dec(buf@) is None;
}
pub trait PayloadSignature {
    spec fn sig_spec(&self) -> ByteBlock;
    fn sig(&self) -> (r: ByteBlock)
        ensures r == self.sig_spec();
}
pub trait StaticPayloadSignature {
    spec fn ssig_spec() -> ByteBlock;
    fn ssig() -> (r: ByteBlock)
        ensures r == Self::ssig_spec();
}
pub trait PayloadSize {
    spec fn size_spec(&self) -> u64;
    spec fn size_fails(&self) -> bool;
    fn size(&self) -> (r: sio::Result<u64>)
        ensures r is Ok ==> r->Ok_0 == self.size_spec(), r is Err <==> self.size_fails();
}
pub trait PayloadCrc: PayloadEncode + PayloadHooks + PayloadEncodeReferred {
    spec fn crc_spec(&self) -> ByteBlock;
    spec fn crc_fails(&self) -> bool;
    spec fn crc_size_spec() -> nat;
    fn crc(&self) -> (r: sio::Result<ByteBlock>)
        ensures r is Ok ==> r->Ok_0 == self.crc_spec(), r is Err <==> self.crc_fails();
    fn crc_size() -> (r: usize)
        ensures r == Self::crc_size_spec(), r <= 128;
}
/// why a payload whose bytes are all there is refused
pub open spec fn pay_bad<T: PayloadDecode<T> + PayloadCrc>(h: PayloadHeader, s: Seq<u8>, e: Error) -> bool {
    let d = T::dec(s.take(h.len as int));
    if d is None { e is Io } else { (d->0.crc_fails() && e is Io) || (h.crc != d->0.crc_spec() && e is CrcDismatch) }
}
/// v is what the header and the bytes that follow stand for
pub open spec fn pay_is<T: PayloadDecode<T> + PayloadCrc + StaticPayloadSignature>(h: PayloadHeader, s: Seq<u8>, v: T) -> bool {
    &&& h.sig == T::ssig_spec()
    &&& h.crc == v.crc_spec() && !v.crc_fails()
    &&& h.len <= s.len()
    &&& T::dec(s.take(h.len as int)) == Some(v)
}
/// C15, stream read: a is the source before, b after
pub open spec fn pay_read<T: PayloadDecode<T> + PayloadCrc + StaticPayloadSignature, B: sio::Stream>(a: &B, b: &B, h: PayloadHeader, r: Result<T, Error>) -> bool {
    &&& sio::same_source(a, b)
    &&& r is Ok ==> pay_is(h, a.rest(), r->Ok_0) && sio::advanced(a, b, h.len as nat)
    &&& h.sig != T::ssig_spec() ==> r is Err && r->Err_0 is SignatureDismatch && sio::advanced(a, b, 0)
    &&& r is Err && r->Err_0 is SignatureDismatch ==> h.sig != T::ssig_spec() && sio::advanced(a, b, 0)
    &&& r is Err && !a.faulty() && h.sig == T::ssig_spec() && a.rest().len() >= h.len ==> pay_bad::<T>(h, a.rest(), r->Err_0)
}
/// C15, seekable read
pub open spec fn pay_try<T: PayloadDecode<T> + PayloadCrc + StaticPayloadSignature, B: sio::Stream>(a: &B, b: &B, h: PayloadHeader, r: Result<ReadStatus<T>, Error>) -> bool {
    &&& sio::same_source(a, b)
    &&& r is Ok && r->Ok_0 is Success ==> pay_is(h, a.rest(), r->Ok_0->Success_0) && sio::advanced(a, b, h.len as nat)
    &&& r is Ok && r->Ok_0 is NotEnoughData ==> a.rest().len() < h.len && r->Ok_0->NotEnoughData_0 == h.len - a.rest().len()
            && sio::advanced(a, b, 0)
    &&& r is Err && r->Err_0 is SignatureDismatch ==> h.sig != T::ssig_spec() && sio::advanced(a, b, 0)
    &&& r is Err && !a.faulty() && h.sig != T::ssig_spec() ==> r->Err_0 is SignatureDismatch && sio::advanced(a, b, 0)
    &&& r is Err && !a.faulty() && h.sig == T::ssig_spec() ==> a.rest().len() >= h.len && pay_bad::<T>(h, a.rest(), r->Err_0)
}
/// C15, buffered read
pub open spec fn pay_tryb<T: PayloadDecode<T> + PayloadCrc + StaticPayloadSignature, B: sio::Stream>(a: &B, b: &B, h: PayloadHeader, r: Result<ReadStatus<T>, Error>) -> bool {
    &&& r is Ok ==> r->Ok_0 is Success
    &&& pay_read(a, b, h, match r { Ok(ReadStatus::Success(v)) => Ok(v), Ok(_) => arbitrary(), Err(e) => Err(e) })
}
pub trait ReadPayloadFrom<T: Sized + PayloadDecode<T> + PayloadHooks + StaticPayloadSignature + PayloadCrc> {
    fn read_payload<B: sio::Read>(buf: &mut B, header: &PayloadHeader) -> (r: Result<T, Error>)
        ensures pay_read(old(buf), final(buf), *header, r);
}
/// the header of a payload, and the payload as it stands in a packet
pub open spec fn hdr_for<T: PayloadSignature + PayloadSize + PayloadCrc>(p: &T) -> PayloadHeader {
    PayloadHeader { sig: p.sig_spec(), crc: p.crc_spec(), len: p.size_spec() as u32 }
}
pub open spec fn framed<T: PayloadSignature + PayloadSize + PayloadCrc>(p: &T) -> Seq<u8> {
    phdr_bytes(hdr_for(p)) + body(p)
}
pub open spec fn framing_fails<T: PayloadSignature + PayloadSize + PayloadCrc>(p: &T) -> bool {
    p.size_spec() > u32::MAX || p.size_fails() || p.crc_fails() || body_fails(p)
}
