//@ include prelude.rs
//@ include vecsink.rs
//@ raw
use sio::Stream as _;
broadcast use {ax::reading, ax::sub_none, axe::from_io};
//@ item brec/src/error.rs enum Error
//@ include errors.rs
//@ item brec/src/traits/read/status.rs enum ReadStatus
//@ item brec/src/lib.rs const MAX_BLOCKS_COUNT
//@ item brec/src/traits/props/byte_block.rs enum ByteBlock
//@ item brec/src/payload/header/mod.rs struct PayloadHeader
//@ include bb_spec.rs
//@ include iters.rs
//@ item brec/src/traits/write/slices.rs enum SliceSlot
//@ item brec/src/traits/write/slices.rs struct IoSlices
//@ include slices_spec.rs
//@ stub slices.vc * *
//@ stub phdr.vc brec/src/traits/props/byte_block.rs ByteBlock::size
//@ stub phdr.vc brec/src/traits/props/byte_block.rs ByteBlock::as_slice
//@ include pay_laws.rs
//@ stub phdr.vc brec/src/payload/header/mod.rs *
//@ stub phdr.vc brec/src/payload/header/read.rs ReadFrom@PayloadHeader::read
//@ stub phdr.vc brec/src/payload/header/read.rs TryReadFrom@PayloadHeader::try_read
//@ stub phdr.vc brec/src/payload/header/read.rs TryReadFromBuffered@PayloadHeader::try_read
//@ item brec/src/packet/header/mod.rs const PACKET_SIG
//@ item brec/src/packet/header/mod.rs struct PacketHeader
//@ item brec/src/packet/header/mod.rs assoc_const PacketHeader::SIZE
//@ include hdr_spec.rs
//@ stub hdr.vc brec/src/packet/header/mod.rs StaticSize@PacketHeader::ssize
//@ stub hdr.vc brec/src/packet/header/read.rs *
//@ stub hdr.vc brec/src/packet/header/write.rs WriteTo@PacketHeader::write
//@ stub hdr.vc brec/src/packet/header/write.rs WriteTo@PacketHeader::write_all
//@ include blk_laws.rs
//@ include pkt_laws.rs
//@ item brec/src/packet/mod.rs struct PacketDef
//@ include pkt_spec.rs

//@ include filt_laws.rs
//@ item brec/src/packet/rules.rs enum RuleFnDef
//@ include rules_spec.rs
//@ item brec/src/packet/rules.rs enum RuleDef
//@ item brec/src/packet/rules.rs struct RulesDef
//@ include rules_spec2.rs
//@ include filt_spec.rs
//@ item brec/src/packet/mod.rs enum LookInStatus
//@ stub pkt.vc brec/src/packet/mod.rs PacketDef::new
//@ stub rules.vc brec/src/packet/rules.rs RulesDef::filter_by_blocks
//@ stub rules.vc brec/src/packet/rules.rs RulesDef::filter_by_payload
//@ stub rules.vc brec/src/packet/rules.rs RulesDef::filter

//@ fn brec/src/packet/mod.rs PacketDef::filtered
:props C14 C16
:rewrite BR as ReadBlockFromSlice =>> BR as BlockReferredDef<B>
:rewrite P as TryExtractPayloadFromBuffered<Inner> =>> P as PayloadDef<Inner>
:rewrite blocks.into_iter().map(|$b| $b.into()).collect::<Vec<B>>() =>> v_into_all::<B, BR>(blocks)
:ensures
    sio::same_source(old(reader), final(reader)),
    r is Ok ==> hdr_ok(old(reader).rest()) && sio::advanced(old(reader), final(reader), pkt_end(old(reader).rest())),   //# C14
    r is Ok ==> !(r->Ok_0 is NotEnoughData),
    r is Ok && r->Ok_0 is Accepted ==> r->Ok_0->Accepted_0 == hdr_of(old(reader).rest()).size
        && passes(rules.rules@, hdr_of(old(reader).rest()), pkt_window(old(reader).rest()), r->Ok_0->Accepted_1),   //# C14 C16
    r is Ok && r->Ok_0 is Denied ==> r->Ok_0->Denied_0 == hdr_of(old(reader).rest()).size
        && refused(rules.rules@, hdr_of(old(reader).rest()), pkt_window(old(reader).rest())),   //# C14
    r is Err && !old(reader).faulty() && hdr_ok(old(reader).rest()) && old(reader).rest().len() >= pkt_end(old(reader).rest())
        ==> pkt_dec::<B, P, Inner>(hdr_of(old(reader).rest()), pkt_window(old(reader).rest())) is None,   //# C14 C16
:start
    hide(phdr_is); hide(phdr_need); hide(phdr_bad); hide(phdr_len); hide(phdr_bytes); hide(hdr_crc); hide(blocks_ok); hide(payload_ok); hide(packet_ok); hide(run);
    proof { lemma_views::<B, BR>(); lemma_pay_size::<P, Inner>(); }
:loop_start 0
    proof { lemma_views::<B, BR>(); }
:loop 0
    invariant_except_break
        rblocks_at::<B, BR>(packet_buffer@, blocks_len as nat) == rrun::<B, BR>(packet_buffer@, blocks_len as nat, read as nat, blocks@),
    invariant
        hdr_ok(old(reader).rest()), header == hdr_of(old(reader).rest()), header.blocks_len > 0, blocks_len == header.blocks_len,
        old(reader).rest().len() >= pkt_end(old(reader).rest()),
        packet_buffer@ == pkt_window(old(reader).rest()),
        sio::advanced(old(reader), reader, pkt_end(old(reader).rest())),
        read <= packet_buffer@.len(),
    ensures
        read == blocks_len, rblocks_at::<B, BR>(packet_buffer@, blocks_len as nat) == Some(blocks@),
    decreases packet_buffer@.len() - read,
