//@ include prelude.rs
//@ include vecsink.rs
//@ raw
broadcast use {ax::core, ax::parts, axe::from_io};
//@ item brec/src/error.rs enum Error
//@ include errors.rs
//@ item brec/src/traits/read/status.rs enum ReadStatus
//@ item brec/src/traits/props/byte_block.rs enum ByteBlock
//@ item brec/src/payload/header/mod.rs struct PayloadHeader
//@ include bb_spec.rs
//@ include iters.rs
//@ item brec/src/traits/write/slices.rs enum SliceSlot
//@ item brec/src/traits/write/slices.rs struct IoSlices
//@ include slices_spec.rs
//@ stub slices.vc * *
//@ raw
// derived: compares the variant and the bytes
impl PartialEq for ByteBlock {
    #[verifier::external_body]
    fn eq(&self, o: &ByteBlock) -> (r: bool) { unimplemented!() }
}
impl PartialEqSpecImpl for ByteBlock {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &ByteBlock) -> bool { *self == *o }
}
//@ stub phdr.vc brec/src/traits/props/byte_block.rs ByteBlock::size
//@ stub phdr.vc brec/src/traits/props/byte_block.rs ByteBlock::as_slice
//@ stub phdr.vc brec/src/payload/header/mod.rs PayloadHeader::payload_len
//@ include pay_laws.rs
//@ include text_spec.rs
//@ raw
pub open spec fn crc_block(b: Seq<u8>, c: ByteBlock) -> bool { c is Len4 && bb(c) == crc32_of(b).le() }


//@ fn brec/src/traits/props/mod.rs trait PayloadCrc::crc
:header pub trait DefaultCrc: PayloadEncode + PayloadHooks + PayloadEncodeReferred
:props C03 C05 C15
:sig_rewrite
    fn crc =>> fn default_crc
:ensures
    r is Ok ==> crc_block(body(self), r->Ok_0),
    r is Err <==> body_fails(self),

//@ fn brec/src/traits/props/mod.rs trait PayloadCrc::crc_size
:header pub trait DefaultCrc: PayloadEncode + PayloadHooks + PayloadEncodeReferred
:props C03 C05
:sig_rewrite
    fn crc_size =>> fn default_crc_size
:ensures
    r == 4,

//@ stub phdr.vc brec/src/payload/header/mod.rs PayloadHeader::new
//@ stub phdr.vc brec/src/payload/header/mod.rs PayloadHeader::as_vec

//@ fn brec/src/traits/write/mod.rs trait WritePayloadWithHeaderTo::write
:resmap
:props C05 C03
:requires
    !framing_fails(old(self)) ==> framed(old(self)).len() <= usize::MAX,
:ensures
    *final(self) == *old(self),
    r is Ok ==> !framing_fails(old(self)),
    r is Ok ==> r->Ok_0 <= framed(old(self)).len() && sio::wrote(old(buf), final(buf), framed(old(self)).take(r->Ok_0 as int)),
    r is Err ==> (old(buf).faulty() || framing_fails(old(self))) && sio::wrote_part(old(buf), final(buf), framed(old(self))),

//@ fn brec/src/traits/write/mod.rs trait WritePayloadWithHeaderTo::write_all
:props C05 C03
:ensures
    *final(self) == *old(self),
    r is Ok ==> !framing_fails(old(self)),
    r is Ok ==> sio::wrote(old(buf), final(buf), framed(old(self))),
    r is Err ==> (old(buf).faulty() || framing_fails(old(self))) && sio::wrote_part(old(buf), final(buf), framed(old(self))),

//@ fn brec/src/traits/write/mod.rs trait WriteVectoredPayloadWithHeaderTo::write_vectored
:props C05 C12
:ensures
    *final(self) == *old(self),
    r is Ok ==> !framing_fails(old(self)),
    r is Ok ==> r->Ok_0 <= framed(old(self)).len() && sio::wrote(old(buf), final(buf), framed(old(self)).take(r->Ok_0 as int)),
    r is Err ==> (old(buf).faulty() || framing_fails(old(self))) && sio::wrote_part(old(buf), final(buf), framed(old(self))),

//@ fn brec/src/traits/write/mod.rs trait WriteVectoredPayloadWithHeaderTo::slices
:props C05
:ensures
    r is Ok ==> !framing_fails(old(self)),
    r is Ok ==> r->Ok_0.all() == framed(old(self)),
    *final(self) == *old(self),
    r is Err ==> framing_fails(old(self)),

//@ fn brec/src/traits/write/mod.rs trait WriteVectoredPayloadWithHeaderTo::write_vectored_all
:props C05 C12
:requires
    !framing_fails(old(self)) ==> framed(old(self)).len() <= usize::MAX,
:ensures
    *final(self) == *old(self),
    r is Ok ==> !framing_fails(old(self)),
    r is Ok ==> sio::wrote(old(buf), final(buf), framed(old(self))),
    r is Err ==> sio::wrote_part(old(buf), final(buf), framed(old(self))),
    r is Err ==> old(buf).faulty() || framing_fails(old(self)) || r->Err_0.kind_spec() is WriteZero,

//@ raw
/// the default methods of the payload reading traits, on their own
#[verifier::reject_recursive_types(T)]
pub struct Defaults<T> { p: PhantomData<T> }

//@ fn brec/src/traits/read/mod.rs trait ReadPayloadFrom::read
:header impl<T: Sized + PayloadDecode<T> + PayloadHooks + StaticPayloadSignature + PayloadCrc> Defaults<T>
:sig_rewrite
    where Self: Sized + PayloadDecode<Self> + PayloadHooks + StaticPayloadSignature, =>>
:props C15
:ensures
    pay_read(old(buf), final(buf), *header, r),

//@ fn brec/src/traits/read/mod.rs trait TryReadPayloadFrom::try_read
:header impl<T: Sized + PayloadDecode<T> + PayloadHooks + StaticPayloadSignature + PayloadCrc + ReadPayloadFrom<T>> Defaults<T>
:props C15 C04
:ensures
    pay_try(old(buf), final(buf), *header, r),

//@ fn brec/src/traits/read/mod.rs trait TryReadPayloadFromBuffered::try_read
:header impl<T: Sized + PayloadDecode<T> + PayloadHooks + StaticPayloadSignature + PayloadCrc + ReadPayloadFrom<T>> Defaults<T>
:props C15
:ensures
    pay_tryb(old(buf), final(buf), *header, r),

//@ raw
// the payload brec brings along
impl PayloadHooks for Vec<u8> {}
//@ fn brec/src/payload/defaults/vec_u8.rs PayloadEncode@Vec::encode
:props C05 C15
:impl_extra
    open spec fn enc(&self) -> Seq<u8> { self@ }
    open spec fn enc_fails(&self) -> bool { false }
:ensures
    r is Ok,
:start
    proof { assert(forall|v: Vec<u8>| cloned(*self, v) ==> v@ =~= self@); }

//@ fn brec/src/payload/defaults/vec_u8.rs PayloadEncodeReferred@Vec::encode
:props C05 C15
:impl_extra
    open spec fn refd(&self) -> Option<Seq<u8>> { Some(self@) }
    open spec fn ref_fails(&self) -> bool { false }
:ensures
    r is Ok && r->Ok_0 is Some,

//@ fn brec/src/payload/defaults/vec_u8.rs PayloadSize@Vec::size
:props C05 C15
:impl_extra
    open spec fn size_spec(&self) -> u64 { self@.len() as u64 }
    open spec fn size_fails(&self) -> bool { false }
:ensures
    r is Ok && r->Ok_0 == body(self).len(),

//@ fn brec/src/payload/defaults/vec_u8.rs PayloadSignature@Vec::sig
:props C03 C15
:impl_extra
    open spec fn sig_spec(&self) -> ByteBlock { <Vec<u8> as StaticPayloadSignature>::ssig_spec() }

//@ fn brec/src/payload/defaults/vec_u8.rs StaticPayloadSignature@Vec::ssig
:props C03 C15
:rewrite $x.as_bytes() =>> $x.v_as_bytes()
:impl_extra
    open spec fn ssig_spec() -> ByteBlock { named_sig("Vec<u8>"@) }
:tail
    proof { lemma_named(); }

//@ fn brec/src/payload/defaults/vec_u8.rs PayloadDecode@Vec::decode
:props C15
:impl_extra
    open spec fn dec(s: Seq<u8>) -> Option<Vec<u8>> { Some(vec_of(s)) }
:ensures
    r is Ok && r->Ok_0@ == buf@,
:start
    proof { lemma_vecs(); }

//@ raw
impl PayloadHooks for String {}
//@ fn brec/src/payload/defaults/string.rs PayloadEncode@String::encode
:props C05 C15
:rewrite $x.as_bytes() =>> $x.v_as_bytes()
:impl_extra
    open spec fn enc(&self) -> Seq<u8> { str_bytes(self@) }
    open spec fn enc_fails(&self) -> bool { false }
:ensures
    r is Ok,

//@ fn brec/src/payload/defaults/string.rs PayloadEncodeReferred@String::encode
:props C05 C15
:rewrite $x.as_bytes() =>> $x.v_as_bytes()
:impl_extra
    open spec fn refd(&self) -> Option<Seq<u8>> { Some(str_bytes(self@)) }
    open spec fn ref_fails(&self) -> bool { false }
:ensures
    r is Ok && r->Ok_0 is Some,

//@ fn brec/src/payload/defaults/string.rs PayloadSize@String::size
:props C05 C15
:rewrite self.len() =>> self.v_len()
:impl_extra
    open spec fn size_spec(&self) -> u64 { str_bytes(self@).len() as u64 }
    open spec fn size_fails(&self) -> bool { false }
:ensures
    r is Ok && r->Ok_0 == body(self).len(),

//@ fn brec/src/payload/defaults/string.rs PayloadSignature@String::sig
:props C03 C15
:impl_extra
    open spec fn sig_spec(&self) -> ByteBlock { <String as StaticPayloadSignature>::ssig_spec() }

//@ fn brec/src/payload/defaults/string.rs StaticPayloadSignature@String::ssig
:props C03 C15
:rewrite $x.as_bytes() =>> $x.v_as_bytes()
:impl_extra
    open spec fn ssig_spec() -> ByteBlock { named_sig("String"@) }
:tail
    proof { lemma_named(); }

//@ fn brec/src/payload/defaults/string.rs PayloadDecode@String::decode
:props C15
:rewrite String::from_utf8_lossy(buf).to_string() =>> v_lossy(buf)
:impl_extra
    open spec fn dec(s: Seq<u8>) -> Option<String> { Some(lossy(s)) }
:ensures
    r is Ok,
