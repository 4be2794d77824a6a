//@ include prelude.rs
//@ include vecsink.rs
//@ raw
use sio::Stream as _;
broadcast use {ax::reading, axe::from_io, slotax::slots};
//@ item brec/src/error.rs enum Error
//@ include errors.rs
//@ item brec/src/traits/read/status.rs enum ReadStatus
//@ item brec/src/lib.rs const MAX_BLOCKS_COUNT
//@ item brec/src/traits/props/byte_block.rs enum ByteBlock
//@ item brec/src/payload/header/mod.rs struct PayloadHeader
//@ include bb_spec.rs
//@ include iters.rs
//@ item brec/src/traits/write/slices.rs enum SliceSlot
//@ item brec/src/traits/write/slices.rs struct IoSlices
//@ include slices_spec.rs
//@ include pay_laws.rs
//@ item brec/src/packet/header/mod.rs const PACKET_SIG
//@ item brec/src/packet/header/mod.rs struct PacketHeader
//@ item brec/src/packet/header/mod.rs assoc_const PacketHeader::SIZE
//@ include hdr_spec.rs
//@ include blk_laws.rs
//@ include pkt_laws.rs
//@ item brec/src/packet/mod.rs struct PacketDef
//@ include pkt_spec.rs
//@ stub pkt.vc brec/src/packet/read.rs ReadFrom@PacketDef::read
//@ stub pkt.vc brec/src/packet/read.rs TryReadFrom@PacketDef::try_read
//@ include filt_laws.rs
//@ item brec/src/packet/rules.rs enum RuleFnDef
//@ include rules_spec.rs
//@ item brec/src/packet/rules.rs enum RuleDef
//@ item brec/src/packet/rules.rs struct RulesDef
//@ include rules_spec2.rs
//@ include filt_spec.rs
//@ item brec/src/packet/mod.rs enum LookInStatus
//@ stub rules.vc brec/src/packet/rules.rs Default@RulesDef::default
//@ stub rules.vc brec/src/packet/rules.rs RulesDef::add_rule
//@ stub rules.vc brec/src/packet/rules.rs RulesDef::remove_rule
//@ stub filt.vc brec/src/packet/mod.rs PacketDef::filtered
//@ item brec/src/storage/slot/mod.rs const DEFAULT_SLOT_CAPACITY
//@ item brec/src/storage/slot/mod.rs const STORAGE_SLOT_SIG
//@ item brec/src/storage/slot/mod.rs struct Slot
//@ item brec/src/storage/slot/header.rs struct SlotHeader
//@ include slot_spec.rs
//@ item brec/src/storage/locator.rs struct FreeSlotLocator
//@ include span_spec.rs
//@ stub slot.vc brec/src/storage/slot/header.rs StaticSize@SlotHeader::ssize
//@ stub slot.vc brec/src/storage/slot/mod.rs Slot::width
//@ stub slot.vc brec/src/storage/slot/mod.rs Size@Slot::size
//@ stub slot.vc brec/src/storage/slot/mod.rs Default@Slot::default
//@ stub slot.vc brec/src/storage/slot/read.rs TryReadFrom@Slot::try_read
//@ stub slot.vc brec/src/storage/slot/mod.rs Slot::count
//@ stub slot.vc brec/src/storage/slot/mod.rs Slot::is_used
//@ stub slot.vc brec/src/storage/slot/mod.rs Slot::offset_of
//@ stub slot.vc brec/src/storage/slot/mod.rs Slot::expand
//@ stub slot.vc brec/src/storage/slot/mod.rs Slot::get_free_slot_index
//@ item brec/src/storage/slot/anchored.rs struct AnchoredSlot
//@ stub slot.vc brec/src/storage/slot/anchored.rs AnchoredSlot::new
//@ stub slot.vc brec/src/storage/slot/anchored.rs AnchoredSlot::width
//@ stub slot.vc brec/src/storage/slot/anchored.rs AnchoredSlot::get_slot_offset
//@ stub slot.vc brec/src/storage/slot/anchored.rs AnchoredSlot::get_free_slot_index
//@ stub slot.vc brec/src/storage/slot/anchored.rs AnchoredSlot::is_empty
//@ stub slot.vc brec/src/storage/slot/anchored.rs Size@AnchoredSlot::size
//@ stub slot.vc brec/src/storage/locator.rs *
//@ include store_spec.rs
//@ include rd_spec.rs
//@ include rld_spec.rs
//@ item brec/src/storage/reader/mod.rs type NthFilteredPacket
//@ item brec/src/storage/reader/mod.rs struct ReaderDef
//@ include rd_reader.rs

//@ raw
pub mod rd_reload { use super::*; broadcast use {ax::reading, ax::array_eq, axe::from_io};
//@ fn brec/src/storage/reader/mod.rs ReaderDef::reload
:props C18
:optmap
:rewrite self.slots.v_iter().map(|$a| &$a.inner) =>> v_inners(&self.slots)
:requires
    old(self).ok(), has_later(old(self).data(), old(self).tbl()),
:ensures
    final(self).data() == old(self).data(), final(self).faulty() == old(self).faulty(), final(self).rules_v() == old(self).rules_v(),
    !old(self).faulty() ==> r is Ok,   //# C18
    r is Ok ==> caught_up(final(self).data(), final(self).tbl()) && final(self).ok(),   //# C18
    r is Ok ==> r->Ok_0 == total(final(self).tbl()) - total(old(self).tbl()),   //# C18
:start
    hide(slot_ok); hide(slot_of); hide(fz); hide(sum_of); hide(used); hide(later); hide(span); hide(packed); hide(clean); hide(slot_fits);
    let ghost d = self.data();
    let ghost f = self.faulty();
    let ghost s = self.tbl();
    let ghost sl = self.slots@;
    let ghost rl = self.rules_v();
    let ghost t = choose|t: Seq<Slot>| later(d, s, t);
    proof { lemma_later(d, s, t); assert(self.slots.len() == self.slots@.len()); lemma_reload(d, sl, t); if sl.len() > 0 { assert(s.last() == sl.last().inner); assert(slot_wf(s[s.len() - 1].v())); assert(sl.last().offset == span(s, s.len() - 1)); } }
:loop 0
    invariant_except_break
        last is None || refreshed ==> synced(self.slots@, t) && s.len() <= self.slots@.len() && source_pos == span(t, self.slots@.len() as int),
        last is Some && refreshed ==> full(t[s.len() - 1]),
    invariant
        self.data() == d, self.faulty() == f, self.rules_v() == rl, facts(d, s, t), steps(d, sl, t), count == s.len(), s == inners(sl), d == old(self).data(), f == old(self).faulty(), rl == old(self).rules_v(), s == old(self).tbl(), old(self).ok(), self.locator == old(self).locator, sl == old(self).slots@,
        last is None && self.slots@.len() == s.len() ==> self.slots@ == sl,
        last is None ==> s.len() == 0 || full(s.last()),
        last is Some ==> s.len() > 0 && !full(s.last()) && (last->0).1 == fz(s.last().lenghts@) && (last->0).2 == s.last().crc,
        last is Some && !refreshed ==> self.slots@ == sl && source_pos == span(t, s.len() - 1),
    ensures
        synced(self.slots@, t), self.slots@.len() == t.len(),
    decreases (if last is Some && !refreshed { (t.len() + 1) as int } else { (t.len() - self.slots@.len()) as int }),
:loop_start 0
    proof {
        assert(self.slots.len() == self.slots@.len());
        let i = if last is Some && !refreshed { s.len() - 1 } else { self.slots@.len() as int };
        if i < t.len() { assert(there(d, t, i)); }
    }
:after_loop 0
    proof {
        assert(synced(self.slots@, t)); assert(self.slots.len() == self.slots@.len());
        assert(caught(d, self.slots@));
        if t.len() > 0 { assert(self.slots@[t.len() - 1].inner.v() == t[t.len() - 1].v()); assert(self.slots@.last().inner.lenghts@ == t[t.len() - 1].lenghts@); }
    }
//@ raw
}
