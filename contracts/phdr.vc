//@ include prelude.rs
//@ include vecsink.rs
//@ raw
broadcast use ax::core;
//@ item brec/src/error.rs enum Error
//@ include errors.rs
//@ item brec/src/traits/read/status.rs enum ReadStatus
//@ item brec/src/traits/props/byte_block.rs enum ByteBlock
//@ item brec/src/payload/header/mod.rs struct PayloadHeader
//@ item brec/src/payload/header/sreader.rs enum NextChunk
//@ item brec/src/payload/header/sreader.rs struct SafeHeaderReader
//@ include bb_spec.rs
//@ include bb_conv.rs
//@ include pay_laws.rs

//@ fn brec/src/traits/props/byte_block.rs ByteBlock::as_slice
:props C03
:ensures
    r@ == bb(*self),

//@ fn brec/src/traits/props/byte_block.rs ByteBlock::size
:props C03
:ensures
    r == bb(*self).len(),

//@ fn brec/src/traits/props/byte_block.rs ByteBlock::is_valid_capacity
:props C03
:ensures
    r is Ok <==> cap_ok(cap as int),
    r is Err ==> r->Err_0 is InvalidCapacity,

//@ fn brec/src/traits/props/byte_block.rs TryFrom@ByteBlock::try_from
:header impl ByteBlock
:props C03
:rewrite value.v_try_into().map(Self::$v) =>> (match value.v_try_into() { Ok(a) => Ok(Self::$v(a)), Err(e) => Err(e) })
:ensures
    r is Ok <==> cap_ok(value@.len() as int),
    r is Ok ==> bb(r->Ok_0) == value@,
    r is Err ==> r->Err_0 is InvalidCapacity,

//@ fn brec/src/payload/header/mod.rs PayloadHeader::new
:props C03
:ensures
    r is Ok ==> r->Ok_0.sig == src.sig_spec() && r->Ok_0.crc == src.crc_spec() && r->Ok_0.len == src.size_spec(),
    r is Err <==> src.size_spec() > u32::MAX || src.size_fails() || src.crc_fails(),

//@ fn brec/src/payload/header/mod.rs PayloadHeader::payload_len
:props C03
:ensures
    r == self.len,

//@ fn brec/src/payload/header/mod.rs PayloadHeader::size
:props C03
:ensures
    r == phdr_bytes(*self).len(),

//@ fn brec/src/payload/header/mod.rs PayloadHeader::ssize
:props C03
:ensures
    r is Ok ==> r->Ok_0 == 6 + bb(src.sig_spec()).len() + bb(src.crc_spec()).len(),
    r is Err <==> src.crc_fails(),

//@ fn brec/src/payload/header/mod.rs PayloadHeader::as_vec
:props C03
:ensures
    r@ == phdr_bytes(*self),

//@ fn brec/src/payload/header/read.rs ReadFrom@PayloadHeader::read
:props C03
:ensures
    sio::same_source(old(buf), final(buf)),
    r is Ok ==> phdr_ok(old(buf).rest()) && phdr_is(old(buf).rest(), r->Ok_0),
    r is Ok ==> sio::advanced(old(buf), final(buf), phdr_len(old(buf).rest())),
    r is Err && !old(buf).faulty() ==> !phdr_ok(old(buf).rest()),
    r is Err && !old(buf).faulty() && phdr_bad(old(buf).rest()) ==> r->Err_0 is InvalidCapacity,

//@ raw
impl<'a, T: sio::Read + sio::Seek> SafeHeaderReader<'a, T> {
    /// what is readable from the starting position
    pub open spec fn src(&self) -> Seq<u8> { sio::tail(self.buf.data(), self.spos as nat) }
    pub open spec fn wf(&self) -> bool {
        &&& self.buf.pos() == self.spos + self.read
        &&& self.len == self.src().len()
        &&& self.read <= self.len
        &&& self.buf.rest() == self.src().skip(self.read as int)
    }
    /// o, some operations ago
    #[verifier::prophetic]
    pub open spec fn same(&self, o: &Self) -> bool {
        &&& sio::same_source(o.buf, self.buf)
        &&& self.spos == o.spos
        &&& self.len == o.len
        &&& *final(self.buf) == *final(o.buf)
    }
}

//@ fn brec/src/payload/header/sreader.rs SafeHeaderReader::new
:props C03 C04
:ensures
    r is Ok ==> r->Ok_0.wf() && r->Ok_0.read == 0 && r->Ok_0.spos == old(buf).pos(),
    r is Ok ==> sio::same_source(old(buf), r->Ok_0.buf) && *final(r->Ok_0.buf) == *final(buf),
    r is Err ==> old(buf).faulty() && sio::same_source(old(buf), final(buf)),

//@ fn brec/src/payload/header/sreader.rs SafeHeaderReader::rewind
:props C04
:requires
    old(self).wf(),
:ensures
    final(self).same(old(self)),
    r is Ok ==> final(self).buf.pos() == old(self).spos && final(self).read == 0,
    r is Err ==> old(self).buf.faulty(),

//@ fn brec/src/payload/header/sreader.rs SafeHeaderReader::next_u8
:props C03 C04
:requires
    old(self).wf(), old(self).read + 1 <= u64::MAX,
:ensures
    final(self).same(old(self)),
    r is Ok ==> r->Ok_0 is NotEnoughData || r->Ok_0 is U8,
    r is Ok && r->Ok_0 is NotEnoughData ==> old(self).len < old(self).read + 1 && r->Ok_0->NotEnoughData_0 == old(self).read + 1 - old(self).len,   //# C04
    r is Ok && r->Ok_0 is NotEnoughData ==> final(self).buf.pos() == old(self).spos,   //# C04
    r is Ok && r->Ok_0 is U8 ==> final(self).wf() && final(self).read == old(self).read + 1 && r->Ok_0->U8_0 == old(self).src()[old(self).read as int],
    r is Err ==> old(self).buf.faulty(),

//@ fn brec/src/payload/header/sreader.rs SafeHeaderReader::next_u32
:props C03 C04
:requires
    old(self).wf(), old(self).read + 4 <= u64::MAX,
:ensures
    final(self).same(old(self)),
    r is Ok ==> r->Ok_0 is NotEnoughData || r->Ok_0 is U32,
    r is Ok && r->Ok_0 is NotEnoughData ==> old(self).len < old(self).read + 4 && r->Ok_0->NotEnoughData_0 == old(self).read + 4 - old(self).len,   //# C04
    r is Ok && r->Ok_0 is NotEnoughData ==> final(self).buf.pos() == old(self).spos,   //# C04
    r is Ok && r->Ok_0 is U32 ==> final(self).wf() && final(self).read == old(self).read + 4,
    r is Ok && r->Ok_0 is U32 ==> r->Ok_0->U32_0 == u32::of_le(old(self).src().subrange(old(self).read as int, old(self).read + 4)),
    r is Err ==> old(self).buf.faulty(),

//@ fn brec/src/payload/header/sreader.rs SafeHeaderReader::next_bytes
:props C03 C04
:requires
    old(self).wf(), old(self).read + capacity <= u64::MAX, capacity <= usize::MAX,
:ensures
    final(self).same(old(self)),
    r is Ok ==> r->Ok_0 is NotEnoughData || r->Ok_0 is Bytes,
    r is Ok && r->Ok_0 is NotEnoughData ==> old(self).len < old(self).read + capacity && r->Ok_0->NotEnoughData_0 == old(self).read + capacity - old(self).len,   //# C04
    r is Ok && r->Ok_0 is NotEnoughData ==> final(self).buf.pos() == old(self).spos,   //# C04
    r is Ok && r->Ok_0 is Bytes ==> final(self).wf() && final(self).read == old(self).read + capacity,
    r is Ok && r->Ok_0 is Bytes ==> r->Ok_0->Bytes_0@ == old(self).src().subrange(old(self).read as int, old(self).read + capacity),
    r is Err ==> old(self).buf.faulty(),

//@ fn brec/src/payload/header/read.rs TryReadFrom@PayloadHeader::try_read
:props C03 C04
:ensures
    sio::same_source(old(buf), final(buf)),
    r is Ok && r->Ok_0 is Success ==> phdr_ok(old(buf).rest()) && phdr_is(old(buf).rest(), r->Ok_0->Success_0),   //# C03
    r is Ok && r->Ok_0 is Success ==> sio::advanced(old(buf), final(buf), phdr_len(old(buf).rest())),
    r is Ok && r->Ok_0 is NotEnoughData ==> old(buf).rest().len() < phdr_need(old(buf).rest()) && r->Ok_0->NotEnoughData_0 == phdr_need(old(buf).rest()) - old(buf).rest().len(),   //# C04
    r is Ok && r->Ok_0 is NotEnoughData ==> sio::advanced(old(buf), final(buf), 0),   //# C04
    r is Err && !old(buf).faulty() ==> phdr_bad(old(buf).rest()) && r->Err_0 is InvalidCapacity,   //# C03
    r is Err && !old(buf).faulty() ==> sio::advanced(old(buf), final(buf), 0),   //# C04

//@ fn brec/src/payload/header/read.rs TryReadFromBuffered@PayloadHeader::try_read > ensure_available
:props C03 C04
:ensures
    r is None <==> buffer@.len() >= required,
    r is Some ==> r->0 is NotEnoughData && r->0->NotEnoughData_0 == required - buffer@.len(),

//@ fn brec/src/payload/header/read.rs TryReadFromBuffered@PayloadHeader::try_read
:props C03 C04
:ensures
    sio::advanced(old(reader), final(reader), 0),
    r is Ok ==> old(reader).filled() <= final(reader).filled() <= old(reader).rest().len(),
    r is Ok && r->Ok_0 is Success ==> final(reader).filled() >= phdr_len(old(reader).rest()),   //# C04 C06
    r is Ok && r->Ok_0 is Success ==> phdr_ok(old(reader).rest()) && phdr_is(old(reader).rest(), r->Ok_0->Success_0),   //# C03
    r is Ok && r->Ok_0 is NotEnoughData ==> final(reader).filled() < phdr_need(old(reader).rest().take(final(reader).filled() as int)),   //# C04
    r is Ok && r->Ok_0 is NotEnoughData ==> r->Ok_0->NotEnoughData_0 == phdr_need(old(reader).rest().take(final(reader).filled() as int)) - final(reader).filled(),   //# C04
    r is Err && !old(reader).faulty() ==> phdr_bad(old(reader).rest()) && r->Err_0 is InvalidCapacity,   //# C03
