//@ include prelude.rs
//@ raw
use sio::Stream as _;
broadcast use {ax::core, ax::parts, axe::from_io};
//@ item brec/src/error.rs enum Error
//@ include errors.rs
//@ item brec/src/traits/read/status.rs enum ReadStatus
//@ item brec/src/traits/props/byte_block.rs enum ByteBlock
//@ item brec/src/payload/header/mod.rs struct PayloadHeader
//@ include bb_spec.rs
//@ include iters.rs
//@ item brec/src/traits/write/slices.rs enum SliceSlot
//@ item brec/src/traits/write/slices.rs struct IoSlices
//@ include slices_spec.rs
//@ include pay_laws.rs
//@ include text_spec.rs
//@ include crc_laws.rs
//@ include pkt_laws.rs
//@ raw
pub open spec fn crc_block(b: Seq<u8>, c: ByteBlock) -> bool { c is Len4 && bb(c) == crc32_of(b).le() }
#[verifier::reject_recursive_types(T)]
pub struct Defaults<T> { p: PhantomData<T> }
impl PayloadHooks for Vec<u8> {}
impl PayloadHooks for String {}
//@ stub pay.vc * *
//@ item @gen/exp.rs struct PlRec
//@ item @gen/exp.rs struct PlFree
//@ item @gen/exp.rs struct PlRaw
//@ item @gen/exp.rs enum Payload
//@ include gen_pay_spec.rs

//@ absent @gen/exp.rs WritePayloadWithHeaderTo@PlRec::write
//@ absent @gen/exp.rs WritePayloadWithHeaderTo@PlRec::write_all
//@ absent @gen/exp.rs WriteVectoredPayloadWithHeaderTo@PlRec::slices
//@ absent @gen/exp.rs WriteVectoredPayloadWithHeaderTo@PlRec::write_vectored
//@ absent @gen/exp.rs WriteVectoredPayloadWithHeaderTo@PlRec::write_vectored_all
//@ absent @gen/exp.rs ReadPayloadFrom@PlRec::read
//@ absent @gen/exp.rs TryReadPayloadFrom@PlRec::try_read
//@ absent @gen/exp.rs TryReadPayloadFromBuffered@PlRec::try_read
//@ absent @gen/exp.rs PayloadCrc@PlRec::crc
//@ absent @gen/exp.rs PayloadCrc@PlRec::crc_size
//@ absent @gen/exp.rs WritePayloadWithHeaderTo@PlFree::write
//@ absent @gen/exp.rs WritePayloadWithHeaderTo@PlFree::write_all
//@ absent @gen/exp.rs WriteVectoredPayloadWithHeaderTo@PlFree::slices
//@ absent @gen/exp.rs WriteVectoredPayloadWithHeaderTo@PlFree::write_vectored
//@ absent @gen/exp.rs WriteVectoredPayloadWithHeaderTo@PlFree::write_vectored_all
//@ absent @gen/exp.rs ReadPayloadFrom@PlFree::read
//@ absent @gen/exp.rs TryReadPayloadFrom@PlFree::try_read
//@ absent @gen/exp.rs TryReadPayloadFromBuffered@PlFree::try_read
//@ absent @gen/exp.rs WritePayloadWithHeaderTo@PlRaw::write
//@ absent @gen/exp.rs WritePayloadWithHeaderTo@PlRaw::write_all
//@ absent @gen/exp.rs WriteVectoredPayloadWithHeaderTo@PlRaw::slices
//@ absent @gen/exp.rs WriteVectoredPayloadWithHeaderTo@PlRaw::write_vectored
//@ absent @gen/exp.rs WriteVectoredPayloadWithHeaderTo@PlRaw::write_vectored_all
//@ absent @gen/exp.rs ReadPayloadFrom@PlRaw::read
//@ absent @gen/exp.rs TryReadPayloadFrom@PlRaw::try_read
//@ absent @gen/exp.rs TryReadPayloadFromBuffered@PlRaw::try_read
//@ absent brec/src/payload/defaults/vec_u8.rs WritePayloadWithHeaderTo@Vec::write
//@ absent brec/src/payload/defaults/vec_u8.rs WritePayloadWithHeaderTo@Vec::write_all
//@ absent brec/src/payload/defaults/vec_u8.rs WriteVectoredPayloadWithHeaderTo@Vec::slices
//@ absent brec/src/payload/defaults/vec_u8.rs WriteVectoredPayloadWithHeaderTo@Vec::write_vectored
//@ absent brec/src/payload/defaults/vec_u8.rs WriteVectoredPayloadWithHeaderTo@Vec::write_vectored_all
//@ absent brec/src/payload/defaults/vec_u8.rs ReadPayloadFrom@Vec::read
//@ absent brec/src/payload/defaults/vec_u8.rs TryReadPayloadFrom@Vec::try_read
//@ absent brec/src/payload/defaults/vec_u8.rs TryReadPayloadFromBuffered@Vec::try_read
//@ absent brec/src/payload/defaults/vec_u8.rs PayloadCrc@Vec::crc
//@ absent brec/src/payload/defaults/vec_u8.rs PayloadCrc@Vec::crc_size
//@ absent brec/src/payload/defaults/string.rs WritePayloadWithHeaderTo@String::write
//@ absent brec/src/payload/defaults/string.rs WritePayloadWithHeaderTo@String::write_all
//@ absent brec/src/payload/defaults/string.rs WriteVectoredPayloadWithHeaderTo@String::slices
//@ absent brec/src/payload/defaults/string.rs WriteVectoredPayloadWithHeaderTo@String::write_vectored
//@ absent brec/src/payload/defaults/string.rs WriteVectoredPayloadWithHeaderTo@String::write_vectored_all
//@ absent brec/src/payload/defaults/string.rs ReadPayloadFrom@String::read
//@ absent brec/src/payload/defaults/string.rs TryReadPayloadFrom@String::try_read
//@ absent brec/src/payload/defaults/string.rs TryReadPayloadFromBuffered@String::try_read
//@ absent brec/src/payload/defaults/string.rs PayloadCrc@String::crc
//@ absent brec/src/payload/defaults/string.rs PayloadCrc@String::crc_size
//@ absent @gen/exp.rs PayloadCrc@Payload::crc_size

//@ fn @gen/exp.rs PayloadEncode@PlRec::encode
:props C15 C05
:rewrite bincode::serialize(self).map_err($..e) =>> bincodex::serialize(self)
:impl_extra
    open spec fn enc(&self) -> Seq<u8> { bincodex::ser(*self) }
    open spec fn enc_fails(&self) -> bool { bincodex::ser_fails(*self) }

//@ fn @gen/exp.rs PayloadEncodeReferred@PlRec::encode
:props C15 C05
:impl_extra
    open spec fn refd(&self) -> Option<Seq<u8>> { None }
    open spec fn ref_fails(&self) -> bool { false }

//@ fn @gen/exp.rs PayloadDecode@PlRec::decode
:props C15
:rewrite bincode::deserialize(buf).map_err($..e) =>> bincodex::deserialize::<PlRec>(buf)
:impl_extra
    open spec fn dec(s: Seq<u8>) -> Option<PlRec> { bincodex::de::<PlRec>(s) }

//@ fn @gen/exp.rs PayloadSize@PlRec::size
:props C15 C05
:rewrite bincode::serialized_size(self).map_err($..e) =>> bincodex::serialized_size(self)
:impl_extra
    open spec fn size_spec(&self) -> u64 { bincodex::ser(*self).len() as u64 }
    open spec fn size_fails(&self) -> bool { bincodex::ser_fails(*self) }

//@ fn @gen/exp.rs PayloadSignature@PlRec::sig
:props C15 C03
:impl_extra
    open spec fn sig_spec(&self) -> ByteBlock { PlRec::ssig_spec() }
:start
    proof { lemma_named(); }

//@ fn @gen/exp.rs StaticPayloadSignature@PlRec::ssig
:props C15 C03
:impl_extra
    open spec fn ssig_spec() -> ByteBlock { ByteBlock::Len4(arr4(seq![179u8, 37u8, 200u8, 44u8])) }
:start
    proof { lemma_named(); }


//@ fn @gen/exp.rs PayloadEncode@PlFree::encode
:props C15 C05
:rewrite bincode::serialize(self).map_err($..e) =>> bincodex::serialize(self)
:impl_extra
    open spec fn enc(&self) -> Seq<u8> { bincodex::ser(*self) }
    open spec fn enc_fails(&self) -> bool { bincodex::ser_fails(*self) }

//@ fn @gen/exp.rs PayloadEncodeReferred@PlFree::encode
:props C15 C05
:impl_extra
    open spec fn refd(&self) -> Option<Seq<u8>> { None }
    open spec fn ref_fails(&self) -> bool { false }

//@ fn @gen/exp.rs PayloadDecode@PlFree::decode
:props C15
:rewrite bincode::deserialize(buf).map_err($..e) =>> bincodex::deserialize::<PlFree>(buf)
:impl_extra
    open spec fn dec(s: Seq<u8>) -> Option<PlFree> { bincodex::de::<PlFree>(s) }

//@ fn @gen/exp.rs PayloadSize@PlFree::size
:props C15 C05
:rewrite bincode::serialized_size(self).map_err($..e) =>> bincodex::serialized_size(self)
:impl_extra
    open spec fn size_spec(&self) -> u64 { bincodex::ser(*self).len() as u64 }
    open spec fn size_fails(&self) -> bool { bincodex::ser_fails(*self) }

//@ fn @gen/exp.rs PayloadSignature@PlFree::sig
:props C15 C03
:impl_extra
    open spec fn sig_spec(&self) -> ByteBlock { PlFree::ssig_spec() }
:start
    proof { lemma_named(); }

//@ fn @gen/exp.rs StaticPayloadSignature@PlFree::ssig
:props C15 C03
:impl_extra
    open spec fn ssig_spec() -> ByteBlock { ByteBlock::Len4(arr4(seq![242u8, 130u8, 214u8, 45u8])) }
:start
    proof { lemma_named(); }


//@ fn @gen/exp.rs PayloadCrc@PlFree::crc
:props C15 C05
:impl_extra
    open spec fn crc_spec(&self) -> ByteBlock { ByteBlock::Len4(arr4(seq![0u8, 0u8, 0u8, 0u8])) }
    open spec fn crc_fails(&self) -> bool { false }
    open spec fn crc_size_spec() -> nat { 4 }
:start
    proof { lemma_named(); }

//@ fn @gen/exp.rs PayloadCrc@PlFree::crc_size
:props C15 C05

//@ raw
// ---------------------------------------------------------------- the default methods (unit pay), for each type
impl PayloadCrc for PlRec {
    open spec fn crc_spec(&self) -> ByteBlock { ByteBlock::Len4(arr4(crc32_of(body(self)).le())) }
    open spec fn crc_fails(&self) -> bool { body_fails(self) }
    open spec fn crc_size_spec() -> nat { 4 }
    fn crc(&self) -> sio::Result<ByteBlock> { proof { lemma_named(); } DefaultCrc::default_crc(self) }
    fn crc_size() -> usize { <PlRec as DefaultCrc>::default_crc_size() }
}
impl WritePayloadWithHeaderTo for PlRec {}
impl WriteVectoredPayloadWithHeaderTo for PlRec {}
impl ReadPayloadFrom<PlRec> for PlRec {
    fn read_payload<B: sio::Read>(buf: &mut B, header: &PayloadHeader) -> Result<PlRec, Error> { Defaults::<PlRec>::read_payload(buf, header) }
}
impl TryReadPayloadFrom<PlRec> for PlRec {
    fn try_read_payload<B: sio::Read + sio::Seek>(buf: &mut B, header: &PayloadHeader) -> Result<ReadStatus<PlRec>, Error> { Defaults::<PlRec>::try_read_payload(buf, header) }
}
impl TryReadPayloadFromBuffered<PlRec> for PlRec {
    fn try_read_payload_buffered<B: sio::BufRead>(buf: &mut B, header: &PayloadHeader) -> Result<ReadStatus<PlRec>, Error> { Defaults::<PlRec>::try_read_payload_buffered(buf, header) }
}
impl WritePayloadWithHeaderTo for PlFree {}
impl WriteVectoredPayloadWithHeaderTo for PlFree {}
impl ReadPayloadFrom<PlFree> for PlFree {
    fn read_payload<B: sio::Read>(buf: &mut B, header: &PayloadHeader) -> Result<PlFree, Error> { Defaults::<PlFree>::read_payload(buf, header) }
}
impl TryReadPayloadFrom<PlFree> for PlFree {
    fn try_read_payload<B: sio::Read + sio::Seek>(buf: &mut B, header: &PayloadHeader) -> Result<ReadStatus<PlFree>, Error> { Defaults::<PlFree>::try_read_payload(buf, header) }
}
impl TryReadPayloadFromBuffered<PlFree> for PlFree {
    fn try_read_payload_buffered<B: sio::BufRead>(buf: &mut B, header: &PayloadHeader) -> Result<ReadStatus<PlFree>, Error> { Defaults::<PlFree>::try_read_payload_buffered(buf, header) }
}
// the user's own checksum, 8 bytes long
impl PayloadCrc for PlRaw {
    open spec fn crc_spec(&self) -> ByteBlock { ByteBlock::Len8(raw_crc(*self)) }
    open spec fn crc_fails(&self) -> bool { false }
    open spec fn crc_size_spec() -> nat { 4 }
    #[verifier::external_body]
    fn crc(&self) -> sio::Result<ByteBlock> { unimplemented!() }
    fn crc_size() -> usize { <PlRaw as DefaultCrc>::default_crc_size() }
}
impl WritePayloadWithHeaderTo for PlRaw {}
impl WriteVectoredPayloadWithHeaderTo for PlRaw {}
impl ReadPayloadFrom<PlRaw> for PlRaw {
    fn read_payload<B: sio::Read>(buf: &mut B, header: &PayloadHeader) -> Result<PlRaw, Error> { Defaults::<PlRaw>::read_payload(buf, header) }
}
impl TryReadPayloadFrom<PlRaw> for PlRaw {
    fn try_read_payload<B: sio::Read + sio::Seek>(buf: &mut B, header: &PayloadHeader) -> Result<ReadStatus<PlRaw>, Error> { Defaults::<PlRaw>::try_read_payload(buf, header) }
}
impl TryReadPayloadFromBuffered<PlRaw> for PlRaw {
    fn try_read_payload_buffered<B: sio::BufRead>(buf: &mut B, header: &PayloadHeader) -> Result<ReadStatus<PlRaw>, Error> { Defaults::<PlRaw>::try_read_payload_buffered(buf, header) }
}
impl PayloadCrc for Vec<u8> {
    open spec fn crc_spec(&self) -> ByteBlock { ByteBlock::Len4(arr4(crc32_of(body(self)).le())) }
    open spec fn crc_fails(&self) -> bool { body_fails(self) }
    open spec fn crc_size_spec() -> nat { 4 }
    fn crc(&self) -> sio::Result<ByteBlock> { proof { lemma_named(); } DefaultCrc::default_crc(self) }
    fn crc_size() -> usize { <Vec<u8> as DefaultCrc>::default_crc_size() }
}
impl WritePayloadWithHeaderTo for Vec<u8> {}
impl WriteVectoredPayloadWithHeaderTo for Vec<u8> {}
impl ReadPayloadFrom<Vec<u8>> for Vec<u8> {
    fn read_payload<B: sio::Read>(buf: &mut B, header: &PayloadHeader) -> Result<Vec<u8>, Error> { Defaults::<Vec<u8>>::read_payload(buf, header) }
}
impl TryReadPayloadFrom<Vec<u8>> for Vec<u8> {
    fn try_read_payload<B: sio::Read + sio::Seek>(buf: &mut B, header: &PayloadHeader) -> Result<ReadStatus<Vec<u8>>, Error> { Defaults::<Vec<u8>>::try_read_payload(buf, header) }
}
impl TryReadPayloadFromBuffered<Vec<u8>> for Vec<u8> {
    fn try_read_payload_buffered<B: sio::BufRead>(buf: &mut B, header: &PayloadHeader) -> Result<ReadStatus<Vec<u8>>, Error> { Defaults::<Vec<u8>>::try_read_payload_buffered(buf, header) }
}
impl PayloadCrc for String {
    open spec fn crc_spec(&self) -> ByteBlock { ByteBlock::Len4(arr4(crc32_of(body(self)).le())) }
    open spec fn crc_fails(&self) -> bool { body_fails(self) }
    open spec fn crc_size_spec() -> nat { 4 }
    fn crc(&self) -> sio::Result<ByteBlock> { proof { lemma_named(); } DefaultCrc::default_crc(self) }
    fn crc_size() -> usize { <String as DefaultCrc>::default_crc_size() }
}
impl WritePayloadWithHeaderTo for String {}
impl WriteVectoredPayloadWithHeaderTo for String {}
impl ReadPayloadFrom<String> for String {
    fn read_payload<B: sio::Read>(buf: &mut B, header: &PayloadHeader) -> Result<String, Error> { Defaults::<String>::read_payload(buf, header) }
}
impl TryReadPayloadFrom<String> for String {
    fn try_read_payload<B: sio::Read + sio::Seek>(buf: &mut B, header: &PayloadHeader) -> Result<ReadStatus<String>, Error> { Defaults::<String>::try_read_payload(buf, header) }
}
impl TryReadPayloadFromBuffered<String> for String {
    fn try_read_payload_buffered<B: sio::BufRead>(buf: &mut B, header: &PayloadHeader) -> Result<ReadStatus<String>, Error> { Defaults::<String>::try_read_payload_buffered(buf, header) }
}
impl PayloadHooks for Payload {}

//@ fn @gen/exp.rs PayloadEncode@Payload::encode
:props C15 C05
:impl_extra
    open spec fn enc(&self) -> Seq<u8> { match *self { Payload::PlRec(p) => p.enc(), Payload::PlFree(p) => p.enc(), Payload::PlRaw(p) => p.enc(), Payload::Bytes(p) => p.enc(), Payload::String(p) => p.enc() } }
    open spec fn enc_fails(&self) -> bool { match *self { Payload::PlRec(p) => p.enc_fails(), Payload::PlFree(p) => p.enc_fails(), Payload::PlRaw(p) => p.enc_fails(), Payload::Bytes(p) => p.enc_fails(), Payload::String(p) => p.enc_fails() } }

//@ fn @gen/exp.rs PayloadEncodeReferred@Payload::encode
:props C15 C05
:impl_extra
    open spec fn refd(&self) -> Option<Seq<u8>> { match *self { Payload::PlRec(p) => p.refd(), Payload::PlFree(p) => p.refd(), Payload::PlRaw(p) => p.refd(), Payload::Bytes(p) => p.refd(), Payload::String(p) => p.refd() } }
    open spec fn ref_fails(&self) -> bool { match *self { Payload::PlRec(p) => p.ref_fails(), Payload::PlFree(p) => p.ref_fails(), Payload::PlRaw(p) => p.ref_fails(), Payload::Bytes(p) => p.ref_fails(), Payload::String(p) => p.ref_fails() } }

//@ fn @gen/exp.rs PayloadSignature@Payload::sig
:props C15 C03
:impl_extra
    open spec fn sig_spec(&self) -> ByteBlock { match *self { Payload::PlRec(p) => p.sig_spec(), Payload::PlFree(p) => p.sig_spec(), Payload::PlRaw(p) => p.sig_spec(), Payload::Bytes(p) => p.sig_spec(), Payload::String(p) => p.sig_spec() } }

//@ fn @gen/exp.rs PayloadCrc@Payload::crc
:props C15 C05
:impl_extra
    open spec fn crc_spec(&self) -> ByteBlock { match *self { Payload::PlRec(p) => p.crc_spec(), Payload::PlFree(p) => p.crc_spec(), Payload::PlRaw(p) => p.crc_spec(), Payload::Bytes(p) => p.crc_spec(), Payload::String(p) => p.crc_spec() } }
    open spec fn crc_fails(&self) -> bool { match *self { Payload::PlRec(p) => p.crc_fails(), Payload::PlFree(p) => p.crc_fails(), Payload::PlRaw(p) => p.crc_fails(), Payload::Bytes(p) => p.crc_fails(), Payload::String(p) => p.crc_fails() } }
    open spec fn crc_size_spec() -> nat { 4 }
    fn crc_size() -> usize { 4 }

//@ fn @gen/exp.rs PayloadSize@Payload::size
:props C15 C05
:impl_extra
    open spec fn size_spec(&self) -> u64 { match *self { Payload::PlRec(p) => p.size_spec(), Payload::PlFree(p) => p.size_spec(), Payload::PlRaw(p) => p.size_spec(), Payload::Bytes(p) => p.size_spec(), Payload::String(p) => p.size_spec() } }
    open spec fn size_fails(&self) -> bool { match *self { Payload::PlRec(p) => p.size_fails(), Payload::PlFree(p) => p.size_fails(), Payload::PlRaw(p) => p.size_fails(), Payload::Bytes(p) => p.size_fails(), Payload::String(p) => p.size_fails() } }

//@ fn @gen/exp.rs WriteMutTo@Payload::write
:props C15 C05
:header impl PayloadInnerDef for Payload
:impl_extra
    proof fn law_lengths(&self) { lemma_lengths(*self); }
:start
    proof { lemma_lengths(*self); }

//@ fn @gen/exp.rs WriteMutTo@Payload::write_all
:props C15 C05
:header impl PayloadInnerDef for Payload

//@ fn @gen/exp.rs WriteVectoredMutTo@Payload::slices
:props C15 C05
:header impl PayloadInnerDef for Payload

//@ raw
pub mod gen_pay_read { use super::*; broadcast use {ax::reading, ax::part_none, axe::from_io};
//@ fn @gen/exp.rs ExtractPayloadFrom@Payload::read
:props C15 C06
:header impl PayloadDef<Payload> for Payload
:impl_extra
    open spec fn pdec(h: PayloadHeader, s: Seq<u8>) -> Option<Payload> { payload_dec(h, s) }
    proof fn law_size(h: PayloadHeader, s: Seq<u8>) { }
    proof fn law_round(p: &Payload, t: Seq<u8>) { lemma_payload_round(*p, t); }
:start
    proof { lemma_sigs(); }

//@ fn @gen/exp.rs TryExtractPayloadFrom@Payload::try_read
:props C15 C06
:header impl PayloadDef<Payload> for Payload
:start
    proof { lemma_sigs(); }

//@ fn @gen/exp.rs TryExtractPayloadFromBuffered@Payload::try_read
:props C15 C06
:header impl PayloadDef<Payload> for Payload
:start
    proof { lemma_sigs(); }
//@ raw
}
