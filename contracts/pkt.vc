//@ include prelude.rs
//@ include vecsink.rs
//@ raw
use sio::Stream as _;
broadcast use {ax::core, ax::parts, axe::from_io};
//@ item brec/src/error.rs enum Error
//@ include errors.rs
//@ item brec/src/traits/read/status.rs enum ReadStatus
//@ item brec/src/lib.rs const MAX_BLOCKS_COUNT
//@ item brec/src/traits/props/byte_block.rs enum ByteBlock
//@ item brec/src/payload/header/mod.rs struct PayloadHeader
//@ include bb_spec.rs
//@ include iters.rs
//@ item brec/src/traits/write/slices.rs enum SliceSlot
//@ item brec/src/traits/write/slices.rs struct IoSlices
//@ include slices_spec.rs
//@ stub slices.vc * *
//@ stub phdr.vc brec/src/traits/props/byte_block.rs ByteBlock::size
//@ stub phdr.vc brec/src/traits/props/byte_block.rs ByteBlock::as_slice
//@ include pay_laws.rs
//@ stub phdr.vc brec/src/payload/header/mod.rs *
//@ stub phdr.vc brec/src/payload/header/read.rs ReadFrom@PayloadHeader::read
//@ stub phdr.vc brec/src/payload/header/read.rs TryReadFrom@PayloadHeader::try_read
//@ stub phdr.vc brec/src/payload/header/read.rs TryReadFromBuffered@PayloadHeader::try_read
//@ item brec/src/packet/header/mod.rs const PACKET_SIG
//@ item brec/src/packet/header/mod.rs struct PacketHeader
//@ item brec/src/packet/header/mod.rs assoc_const PacketHeader::SIZE
//@ include hdr_spec.rs
//@ stub hdr.vc brec/src/packet/header/mod.rs StaticSize@PacketHeader::ssize
//@ stub hdr.vc brec/src/packet/header/read.rs *
//@ stub hdr.vc brec/src/packet/header/write.rs WriteTo@PacketHeader::write
//@ stub hdr.vc brec/src/packet/header/write.rs WriteTo@PacketHeader::write_all
//@ include blk_laws.rs
//@ include pkt_laws.rs
//@ item brec/src/packet/mod.rs struct PacketDef
//@ include pkt_spec.rs

//@ fn brec/src/packet/header/mod.rs PacketHeader::new
:unfold
:resmap
:optmap
:props C01 C05
:requires
    pkt_fits(blocks@, opt_val(payload)),
:ensures
    r is Ok ==> r->Ok_0 == pkt_hdr(blocks@, opt_val(payload)),
    r is Err ==> payload is Some && (payload->0.size_fails() || payload->0.crc_fails()),
:loop 0
    invariant
        it0.s@ == blocks@, it0.at <= it0.s@.len(),
        acc0 == bcat(blocks@.take(it0.at as int)).len(),
        bcat(blocks@).len() <= usize::MAX,
    ensures
        it0.at == it0.s@.len(),
    decreases it0.s@.len() - it0.at,
:loop_start 0
    proof { if it0.at < it0.s@.len() { lemma_bcat_take(blocks@, it0.at as int); } }
:before_let size
    proof { assert(blocks@.take(blocks@.len() as int) =~= blocks@); }
:tail

//@ fn brec/src/packet/header/mod.rs PacketHeader::payload_size
:resmap
:props C01 C05
:requires
    pay_size(Some(*payload)) <= usize::MAX,
:ensures
    r is Ok ==> r->Ok_0 == pay_size(Some(*payload)),
    r is Err ==> payload.size_fails() || payload.crc_fails(),

//@ fn brec/src/packet/mod.rs Default@PacketDef::default
:props C06
:ensures
    r.blocks@ == Seq::<B>::empty(), r.payload is None,

//@ fn brec/src/packet/mod.rs PacketDef::new
:props C06
:ensures
    r.blocks == blocks, r.payload == payload,

//@ raw
pub mod reading {
use super::*;
use super::sio::Stream as _;
broadcast use {ax::reading, axe::from_io};

//@ fn brec/src/packet/read.rs ReadFrom@PacketDef::read
:rewrite B as TryReadFromBuffered =>> B as BlockDef
:rewrite P as ExtractPayloadFrom<Inner> =>> P as PayloadDef<Inner>
:props C05 C06 C01
:ensures
    sio::same_source(old(buf), final(buf)),
    r is Ok ==> hdr_ok(old(buf).rest()) && old(buf).rest().len() >= pkt_end(old(buf).rest()),   //# C01 C05
    r is Ok ==> pkt_is(hdr_of(old(buf).rest()), pkt_window(old(buf).rest()), r->Ok_0),   //# C05
    r is Ok ==> sio::advanced(old(buf), final(buf), pkt_end(old(buf).rest())),   //# C05
    r is Ok ==> r->Ok_0.blocks@.len() <= 255,   //# C06
    r is Err && !old(buf).faulty() && hdr_ok(old(buf).rest()) && old(buf).rest().len() >= pkt_end(old(buf).rest())
        ==> pkt_dec::<B, P, Inner>(hdr_of(old(buf).rest()), pkt_window(old(buf).rest())) is None,   //# C05 C06
:start
    hide(hdr_crc); hide(hdr_sig_ok);
    proof { lemma_reading::<B>(); }
:loop_start 0
    proof { lemma_reading::<B>(); }
:loop 0
    invariant_except_break
        iterations == pkg.blocks@.len(), iterations < 255,
        blocks_at::<B>(pkt_window(old(buf).rest()), header.blocks_len as nat) == run(pkt_window(old(buf).rest()), header.blocks_len as nat, read as nat, pkg.blocks@),
    invariant
        hdr_ok(old(buf).rest()), header == hdr_of(old(buf).rest()), header.blocks_len > 0,
        old(buf).rest().len() >= pkt_end(old(buf).rest()),
        sio::advanced(old(buf), buf, pkt_end(old(buf).rest())),
        read <= pkt_window(old(buf).rest()).len(), reader.rest() == pkt_window(old(buf).rest()).skip(read as int), pkg.payload is None, pkg.blocks@.len() <= 255,
    ensures
        read == header.blocks_len, blocks_at::<B>(pkt_window(old(buf).rest()), header.blocks_len as nat) == Some(pkg.blocks@),
    decreases 255 - iterations,

//@ fn brec/src/packet/read.rs TryReadFrom@PacketDef::try_read
:rewrite B as TryReadFrom =>> B as BlockDef
:rewrite P as TryExtractPayloadFrom<Inner> =>> P as PayloadDef<Inner>
:props C05 C06 C04
:ensures
    sio::same_source(old(buf), final(buf)),
    r is Ok && r->Ok_0 is Success ==> hdr_ok(old(buf).rest()) && old(buf).rest().len() >= pkt_end(old(buf).rest()),   //# C04 C05
    r is Ok && r->Ok_0 is Success ==> pkt_is(hdr_of(old(buf).rest()), old(buf).rest().skip(29), r->Ok_0->Success_0),   //# C05
    r is Ok && r->Ok_0 is Success ==> sio::advanced(old(buf), final(buf), 29 + pkt_len::<B, P, Inner>(hdr_of(old(buf).rest()), old(buf).rest().skip(29))),   //# C04 C05
    r is Ok && r->Ok_0 is Success ==> r->Ok_0->Success_0.blocks@.len() <= 255,   //# C06
    r is Ok && r->Ok_0 is NotEnoughData ==> sio::advanced(old(buf), final(buf), 0),   //# C04
    r is Ok && r->Ok_0 is NotEnoughData && old(buf).rest().len() < 29 ==> r->Ok_0->NotEnoughData_0 == 29 - old(buf).rest().len(),   //# C04
    r is Ok && r->Ok_0 is NotEnoughData && old(buf).rest().len() >= 29 ==> hdr_ok(old(buf).rest()),   //# C04
    r is Ok && r->Ok_0 is NotEnoughData && 29 <= old(buf).rest().len() < pkt_end(old(buf).rest())
        ==> r->Ok_0->NotEnoughData_0 == pkt_end(old(buf).rest()) - old(buf).rest().len(),   //# C04
    r is Ok && r->Ok_0 is NotEnoughData ==> r->Ok_0->NotEnoughData_0 >= 1,   //# C04
    !old(buf).faulty() && old(buf).rest().len() < 29 ==> r is Ok && r->Ok_0 is NotEnoughData,   //# C04
    !old(buf).faulty() && hdr_ok(old(buf).rest()) && old(buf).rest().len() < pkt_end(old(buf).rest()) ==> r is Ok && r->Ok_0 is NotEnoughData,   //# C04
    !old(buf).faulty() && hdr_ok(old(buf).rest()) && old(buf).rest().len() >= pkt_end(old(buf).rest())
        && pkt_dec::<B, P, Inner>(hdr_of(old(buf).rest()), old(buf).rest().skip(29)) is Some ==> r is Ok && r->Ok_0 is Success,   //# C05
    r is Err && !old(buf).faulty() ==> sio::advanced(old(buf), final(buf), 0),   //# C04
:start
    hide(phdr_is); hide(phdr_need); hide(phdr_bad); hide(phdr_len); hide(phdr_bytes); hide(hdr_crc);
    proof { lemma_reading::<B>(); }
:loop_start 0
    proof { lemma_reading::<B>(); }
:loop 0
    invariant_except_break
        iterations == pkg.blocks@.len(), iterations < 255,
        blocks_at::<B>(old(buf).rest().skip(29), header.blocks_len as nat) == run(old(buf).rest().skip(29), header.blocks_len as nat, read as nat, pkg.blocks@),
    invariant
        hdr_ok(old(buf).rest()), header == hdr_of(old(buf).rest()), header.blocks_len > 0,
        old(buf).rest().len() >= pkt_end(old(buf).rest()), old(buf).rest().len() <= u64::MAX,
        start_pos == old(buf).pos(),
        read <= old(buf).rest().skip(29).len(), sio::advanced(old(buf), buf, 29 + read as nat), pkg.payload is None, pkg.blocks@.len() <= 255,
        buf.rest() == old(buf).rest().skip(29).skip(read as int),
    ensures
        read == header.blocks_len, blocks_at::<B>(old(buf).rest().skip(29), header.blocks_len as nat) == Some(pkg.blocks@),
    decreases 255 - iterations,

//@ fn brec/src/packet/read.rs TryReadFromBuffered@PacketDef::try_read
:rewrite B as TryReadFromBuffered =>> B as BlockDef
:rewrite P as TryExtractPayloadFromBuffered<Inner> =>> P as PayloadDef<Inner>
:props C05 C06 C04
:ensures
    sio::same_source(old(reader), final(reader)),
    r is Ok && r->Ok_0 is Success ==> hdr_ok(old(reader).rest()) && old(reader).rest().len() >= pkt_end(old(reader).rest()),   //# C04 C05
    r is Ok && r->Ok_0 is Success ==> pkt_is(hdr_of(old(reader).rest()), old(reader).rest().skip(29), r->Ok_0->Success_0),   //# C05
    r is Ok && r->Ok_0 is Success ==> sio::advanced(old(reader), final(reader), 29 + pkt_len::<B, P, Inner>(hdr_of(old(reader).rest()), old(reader).rest().skip(29))),   //# C04 C05
    r is Ok && r->Ok_0 is Success ==> r->Ok_0->Success_0.blocks@.len() <= 255,   //# C06
    r is Ok && r->Ok_0 is NotEnoughData && old(reader).rest().len() < 29 ==> sio::advanced(old(reader), final(reader), 0)
        && r->Ok_0->NotEnoughData_0 == 29 - final(reader).filled(),   //# C04
    r is Ok && r->Ok_0 is NotEnoughData && 29 <= old(reader).rest().len() < pkt_end(old(reader).rest()) ==> sio::advanced(old(reader), final(reader), 0)
        && r->Ok_0->NotEnoughData_0 == (if final(reader).filled() < 29 { 29 - final(reader).filled() } else { pkt_end(old(reader).rest()) - final(reader).filled() }),   //# C04
    !old(reader).faulty() && hdr_ok(old(reader).rest()) && old(reader).filled() >= pkt_end(old(reader).rest())
        && pkt_dec::<B, P, Inner>(hdr_of(old(reader).rest()), old(reader).rest().skip(29)) is Some
        && pkt_len::<B, P, Inner>(hdr_of(old(reader).rest()), old(reader).rest().skip(29)) <= hdr_of(old(reader).rest()).size
        ==> r is Ok && r->Ok_0 is Success,   //# C05
:start
    hide(phdr_is); hide(phdr_need); hide(phdr_bad); hide(phdr_len); hide(phdr_bytes); hide(hdr_crc);
    proof { lemma_reading::<B>(); ax::finite(old(reader)); }
:loop_start 0
    proof { lemma_reading::<B>(); }
:loop 0
    invariant_except_break
        iterations == pkg.blocks@.len(), iterations < 255,
        blocks_at::<B>(old(reader).rest().skip(29), header.blocks_len as nat) == run(old(reader).rest().skip(29), header.blocks_len as nat, read as nat, pkg.blocks@),
    invariant
        hdr_ok(old(reader).rest()), header == hdr_of(old(reader).rest()), header.blocks_len > 0,
        old(reader).rest().len() >= pkt_end(old(reader).rest()), old(reader).rest().len() <= u64::MAX,
        read <= old(reader).rest().skip(29).len(), sio::advanced(old(reader), reader, 29 + read as nat), pkg.payload is None, pkg.blocks@.len() <= 255,
        reader.rest() == old(reader).rest().skip(29).skip(read as int),
        reader.filled() + 29 + (read as nat) >= old(reader).filled(),
    ensures
        read == header.blocks_len, blocks_at::<B>(old(reader).rest().skip(29), header.blocks_len as nat) == Some(pkg.blocks@),
    decreases 255 - iterations,

//@ raw
} // mod reading
//@ raw
pub mod writing {
use super::*;
use super::sio::{Stream as _, Write as _};
broadcast use {ax::progress, axe::from_io};

//@ fn brec/src/packet/write.rs WriteMutTo@PacketDef::write_all
:header impl<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef> PacketDef<B, P, Inner>
:props C05 C01
:requires
    pkt_fits(old(self).blocks@, old(self).payload),
:ensures
    *final(self) == *old(self),
    r is Ok ==> sio::wrote(old(buf), final(buf), pkt_bytes(*old(self))),
    r is Err ==> (old(buf).faulty() || pay_fails(old(self).payload)) && sio::wrote_part(old(buf), final(buf), pkt_bytes(*old(self))),
:start
    hide(pkt_bytes); hide(hdr_bytes); hide(bcat); hide(framed);
    proof { lemma_pay_len(self.payload); lemma_laid_out(*self); assert(sio::wrote(buf, buf, pkt_bytes(*self).take(0))); }
:loop 0
    invariant
        it0.s@ == old(self).blocks@, it0.at <= it0.s@.len(), *self == *old(self),
        sio::wrote(old(buf), buf, pkt_bytes(*old(self)).take(off(old(self).blocks@, it0.at as int))),
        laid_out(pkt_bytes(*old(self)), *old(self)),
    ensures
        it0.at == it0.s@.len(),
    decreases it0.s@.len() - it0.at,
:loop_start 0
    proof { assert(it0.at < it0.s@.len() ==> block_at(pkt_bytes(*old(self)), old(self).blocks@, it0.at as int)); }

//@ fn brec/src/packet/write.rs WriteMutTo@PacketDef::write
:header impl<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef> PacketDef<B, P, Inner>
:props C05 C01
:requires
    pkt_fits(old(self).blocks@, old(self).payload),
:ensures
    *final(self) == *old(self),
    r is Ok ==> r->Ok_0 <= pkt_bytes(*old(self)).len() && sio::wrote(old(buf), final(buf), pkt_bytes(*old(self)).take(r->Ok_0 as int)),
    r is Err ==> (old(buf).faulty() || pay_fails(old(self).payload)) && sio::wrote_part(old(buf), final(buf), pkt_bytes(*old(self))),
:start
    hide(pkt_bytes); hide(hdr_bytes); hide(bcat); hide(framed);
    proof { lemma_pay_len(self.payload); lemma_laid_out(*self); assert(sio::wrote(buf, buf, pkt_bytes(*self).take(0))); }
:loop 0
    invariant
        it0.s@ == old(self).blocks@, it0.at <= it0.s@.len(), *self == *old(self),
        total == off(old(self).blocks@, it0.at as int), pkt_fits(old(self).blocks@, old(self).payload),
        sio::wrote(old(buf), buf, pkt_bytes(*old(self)).take(off(old(self).blocks@, it0.at as int))),
        laid_out(pkt_bytes(*old(self)), *old(self)),
    ensures
        it0.at == it0.s@.len(),
    decreases it0.s@.len() - it0.at,
:loop_start 0
    proof { assert(it0.at < it0.s@.len() ==> block_at(pkt_bytes(*old(self)), old(self).blocks@, it0.at as int)); }

//@ fn brec/src/packet/write.rs WriteVectoredMutTo@PacketDef::slices
:header impl<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef> PacketDef<B, P, Inner>
:props C05 C12
:requires
    pkt_fits(old(self).blocks@, old(self).payload),
:ensures
    *final(self) == *old(self),
    r is Ok ==> r->Ok_0.all() == pkt_bytes(*old(self)),
    r is Err ==> pay_fails(old(self).payload),
:start
    hide(pkt_bytes); hide(hdr_bytes); hide(bcat); hide(framed);
    proof { lemma_laid_out(*self); }
:loop 0
    invariant
        it0.s@ == old(self).blocks@, it0.at <= it0.s@.len(), *self == *old(self),
        slices.all() == pkt_bytes(*old(self)).take(off(old(self).blocks@, it0.at as int)),
        laid_out(pkt_bytes(*old(self)), *old(self)),
    ensures
        it0.at == it0.s@.len(),
    decreases it0.s@.len() - it0.at,
:loop_start 0
    proof { assert(it0.at < it0.s@.len() ==> block_at(pkt_bytes(*old(self)), old(self).blocks@, it0.at as int)); }

//@ raw
} // mod writing
