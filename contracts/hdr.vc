//@ include prelude.rs
//@ include vecsink.rs
//@ raw
broadcast use ax::core;
//@ item brec/src/error.rs enum Error
//@ include errors.rs
//@ item brec/src/traits/read/status.rs enum ReadStatus
//@ item brec/src/packet/header/mod.rs const PACKET_SIG
//@ item brec/src/packet/header/mod.rs struct PacketHeader
//@ item brec/src/packet/header/mod.rs assoc_const PacketHeader::SIZE
//@ include hdr_spec.rs
//@ include crc_laws.rs
//@ include hdr_detect.rs

//@ fn brec/src/packet/header/mod.rs PacketHeader::get_pos
:props C01 C08
:ensures
    r is Some ==> r->0 + 8 < buffer@.len() && buffer@.subrange(r->0 as int, r->0 + 8) == PACKET_SIG@,
    forall|i: int| 0 <= i && i + 8 < buffer@.len() && (r is Some ==> i < r->0) ==> #[trigger] buffer@.subrange(i, i + 8) != PACKET_SIG@,
:loop 0
    invariant
        0 <= offset <= buffer@.len(),
        offset == 0 || offset + 8 <= buffer@.len(),
        forall|i: int| 0 <= i < offset && i + 8 < buffer@.len() ==> #[trigger] buffer@.subrange(i, i + 8) != PACKET_SIG@,
    decreases buffer@.len() - offset,

//@ fn brec/src/packet/header/mod.rs PacketHeader::is_not_enought
:props C01 C08
:ensures
    r is None <==> buffer@.len() >= 29,
    r is Some ==> r->0 == 29 - buffer@.len(),

//@ fn brec/src/packet/header/mod.rs StaticSize@PacketHeader::ssize
:props C01
:ensures
    r == 29,

//@ fn brec/src/packet/header/mod.rs CrcU32@PacketHeader::crc
:props C01 C02
:ensures
    r@ == hdr_crc(self.size, self.blocks_len, self.payload).le(),

//@ fn brec/src/packet/header/read.rs ReadFrom@PacketHeader::read
:props C01 C02
:ensures
    sio::same_source(old(buf), final(buf)),   //# C01 C04
    r is Ok ==> hdr_ok(old(buf).rest()) && r->Ok_0 == hdr_of(old(buf).rest()),   //# C01 C02
    r is Ok ==> sio::advanced(old(buf), final(buf), 29),   //# C01 C04
    r is Err && !old(buf).faulty() ==> old(buf).rest().len() < 29 || hdr_err(old(buf).rest(), r->Err_0),   //# C02

//@ fn brec/src/packet/header/read.rs ReadBlockFromSlice@PacketHeader::read_from_slice
:props C01 C02
:ensures
    r is Ok <==> hdr_ok(buf@),   //# C01 C02
    r is Ok ==> r->Ok_0 == hdr_of(buf@),
    r is Err && buf@.len() < 29 ==> r->Err_0 == Error::NotEnoughData(29),
    r is Err && buf@.len() >= 29 ==> hdr_err(buf@, r->Err_0),   //# C02

//@ fn brec/src/packet/header/read.rs TryReadFrom@PacketHeader::try_read
:props C01 C02 C04
:ensures
    sio::same_source(old(buf), final(buf)),   //# C01 C04
    r is Ok && r->Ok_0 is Success ==> hdr_ok(old(buf).rest()) && r->Ok_0->Success_0 == hdr_of(old(buf).rest()),   //# C01 C02
    r is Ok && r->Ok_0 is Success ==> sio::advanced(old(buf), final(buf), 29),   //# C01 C04
    r is Ok && r->Ok_0 is NotEnoughData ==> old(buf).rest().len() < 29 && r->Ok_0->NotEnoughData_0 == 29 - old(buf).rest().len(),   //# C04
    r is Ok && r->Ok_0 is NotEnoughData ==> sio::advanced(old(buf), final(buf), 0),   //# C04
    r is Err && !old(buf).faulty() ==> old(buf).rest().len() >= 29 && hdr_err(old(buf).rest(), r->Err_0),   //# C02
    r is Err && !old(buf).faulty() ==> sio::advanced(old(buf), final(buf), 0),   //# C04

//@ fn brec/src/packet/header/read.rs TryReadFromBuffered@PacketHeader::try_read
:props C01 C02 C04
:ensures
    sio::same_source(old(reader), final(reader)),   //# C01 C04
    r is Ok && r->Ok_0 is Success ==> hdr_ok(old(reader).rest()) && r->Ok_0->Success_0 == hdr_of(old(reader).rest()),   //# C01 C02
    r is Ok && r->Ok_0 is Success ==> sio::advanced(old(reader), final(reader), 29),   //# C01 C04
    r is Ok && r->Ok_0 is NotEnoughData ==> r->Ok_0->NotEnoughData_0 == 29 - final(reader).filled() && final(reader).filled() < 29,   //# C04
    r is Ok && r->Ok_0 is NotEnoughData ==> sio::advanced(old(reader), final(reader), 0),   //# C04
    r is Err && !old(reader).faulty() ==> old(reader).rest().len() >= 29 && hdr_err(old(reader).rest(), r->Err_0),   //# C02
    r is Err && !old(reader).faulty() ==> sio::advanced(old(reader), final(reader), 0),   //# C04
    r is Ok && r->Ok_0 is NotEnoughData ==> old(reader).filled() < 29,   //# C04 C06
    r is Ok && r->Ok_0 is Success ==> final(reader).filled() + 29 >= old(reader).filled(),   //# C04 C06

//@ fn brec/src/packet/header/write.rs fill_buf
:props C01
:requires
    old(buffer)@.len() >= 29,
:ensures
    final(buffer)@.len() == old(buffer)@.len(),
    final(buffer)@.take(29) == hdr_bytes(*header),

//@ fn brec/src/packet/header/write.rs WriteTo@PacketHeader::write
:props C01
:impl_extra
    open spec fn writable(&self) -> bool { true }
:ensures
    r is Ok ==> r->Ok_0 <= 29 && sio::wrote(old(buf), final(buf), hdr_bytes(*self).take(r->Ok_0 as int)),
    r is Err ==> old(buf).faulty() && sio::wrote(old(buf), final(buf), Seq::empty()),

//@ fn brec/src/packet/header/write.rs WriteTo@PacketHeader::write_all
:props C01
:ensures
    r is Ok ==> sio::wrote(old(buf), final(buf), hdr_bytes(*self)),
    r is Err ==> old(buf).faulty() && sio::wrote_part(old(buf), final(buf), hdr_bytes(*self)),
