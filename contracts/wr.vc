//@ include prelude.rs
//@ include vecsink.rs
//@ raw
use sio::Stream as _;
broadcast use {ax::reading, axe::from_io, slotax::slots};
//@ item brec/src/error.rs enum Error
//@ include errors.rs
//@ item brec/src/traits/read/status.rs enum ReadStatus
//@ item brec/src/lib.rs const MAX_BLOCKS_COUNT
//@ item brec/src/traits/props/byte_block.rs enum ByteBlock
//@ item brec/src/payload/header/mod.rs struct PayloadHeader
//@ include bb_spec.rs
//@ include iters.rs
//@ item brec/src/traits/write/slices.rs enum SliceSlot
//@ item brec/src/traits/write/slices.rs struct IoSlices
//@ include slices_spec.rs
//@ include pay_laws.rs
//@ item brec/src/packet/header/mod.rs const PACKET_SIG
//@ item brec/src/packet/header/mod.rs struct PacketHeader
//@ item brec/src/packet/header/mod.rs assoc_const PacketHeader::SIZE
//@ include hdr_spec.rs
//@ include blk_laws.rs
//@ include pkt_laws.rs
//@ item brec/src/packet/mod.rs struct PacketDef
//@ include pkt_spec.rs
//@ stub pkt.vc brec/src/packet/write.rs WriteMutTo@PacketDef::write_all
//@ item brec/src/storage/slot/mod.rs const DEFAULT_SLOT_CAPACITY
//@ item brec/src/storage/slot/mod.rs const STORAGE_SLOT_SIG
//@ item brec/src/storage/slot/mod.rs struct Slot
//@ item brec/src/storage/slot/header.rs struct SlotHeader
//@ include slot_spec.rs
//@ item brec/src/storage/locator.rs struct FreeSlotLocator
//@ include span_spec.rs
//@ stub slot.vc brec/src/storage/slot/mod.rs Slot::width
//@ stub slot.vc brec/src/storage/slot/mod.rs Size@Slot::size
//@ stub slot.vc brec/src/storage/slot/mod.rs Default@Slot::default
//@ stub slot.vc brec/src/storage/slot/read.rs TryReadFrom@Slot::try_read
//@ stub slot.vc brec/src/storage/slot/write.rs WriteTo@Slot::write
//@ stub slot.vc brec/src/storage/slot/write.rs WriteTo@Slot::write_all
//@ stub slot.vc brec/src/storage/locator.rs *
//@ include store_spec.rs
//@ item brec/src/storage/writer/mod.rs struct WriterDef
//@ include wr_spec.rs

//@ fn brec/src/storage/writer/mod.rs WriterDef::new
:props C10 C11
:requires
    orderly(inner.data()),
:ensures
    r is Ok ==> r->Ok_0.data() == inner.data() && r->Ok_0.faulty() == inner.faulty(),
    r is Ok ==> chain(inner.data(), r->Ok_0.slots@) && stops(inner.data(), span(r->Ok_0.slots@, r->Ok_0.slots@.len() as int)),
    r is Ok ==> r->Ok_0.ok(),
    damaged(inner.data()) ==> r is Err,   //# C11
    r is Err && !inner.faulty() ==> r->Err_0 is DamagedSlot && damaged(inner.data()),   //# C11

//@ fn brec/src/storage/writer/mod.rs WriterDef::load
:props C10 C11
:rewrite me.slots.iter() =>> me.slots.v_iter()
:requires
    self.blank(), orderly(self.data()),
:ensures
    r is Ok ==> r->Ok_0.data() == self.data() && r->Ok_0.faulty() == self.faulty(),
    r is Ok ==> chain(self.data(), r->Ok_0.slots@) && stops(self.data(), span(r->Ok_0.slots@, r->Ok_0.slots@.len() as int)),
    r is Ok ==> r->Ok_0.ok(),
    damaged(self.data()) ==> r is Err,   //# C11
    r is Err && !self.faulty() ==> r->Err_0 is DamagedSlot && damaged(self.data()),   //# C11
:start
    let ghost d = self.inner.data();
    let ghost f = self.inner.faulty();
:loop 0
    invariant
        me.inner.data() == d, me.inner.faulty() == f, orderly(d), d == self.data(), f == self.faulty(),
        chain(d, me.slots@), offset == span(me.slots@, me.slots@.len() as int),
    ensures
        stops(d, span(me.slots@, me.slots@.len() as int)),
    decreases u64::MAX - offset,
:loop_start 0
    proof { lemma_extend(d, me.slots@); }
:after_loop 0
    proof {
        lemma_damaged(d, me.slots@);
        assert(me.slots.len() == me.slots@.len());
        lemma_iter_all(&me.slots);
    }

//@ fn brec/src/storage/writer/mod.rs WriterDef::insert
:props C09 C10
:requires
    old(self).ok(), pkt_fits(packet.blocks@, packet.payload),
    span(old(self).slots@, old(self).slots@.len() as int) + 4020 + pkt_bytes(packet).len() <= u64::MAX,
:ensures
    final(self).faulty() == old(self).faulty(),
    r is Ok ==> entered(old(self).slots@, final(self).slots@, pkt_bytes(packet).len()),   //# C10
    r is Ok ==> final(self).ok(),   //# C10
    r is Ok ==> final(self).data() == grown(old(self).data(), old(self).slots@, final(self).slots@, pkt_bytes(packet)),   //# C10
    r is Ok && holds(old(self).data(), old(self).slots@) ==> clean(final(self).data(), final(self).slots@)
        && all_packs(final(self).data(), final(self).slots@) == all_packs(old(self).data(), old(self).slots@).push(pkt_bytes(packet)),   //# C09 C10
    r is Err ==> old(self).faulty() || pay_fails(packet.payload),
    r is Err && !old(self).faulty() ==> final(self).ok() && final(self).data() == old(self).data(),   //# C10
    r is Err && !old(self).faulty() && holds(old(self).data(), old(self).slots@) ==> holds(final(self).data(), final(self).slots@),   //# C10
:start
    hide(pkt_bytes); hide(slot_bytes); hide(slot_ok); hide(slot_of); hide(sio::put); hide(fz); hide(sum_of);
    proof { lemma_laid_out(packet); lemma_fresh(self.slots@); lemma_no_lens(); lemma_entered(self.slots@, pkt_bytes(packet).len()); lemma_inserts(self.inner.data(), self.slots@, pkt_bytes(packet)); }
:tail
    proof { assert(entered(old(self).slots@, self.slots@, pkt_bytes(packet).len())); }
