//@ include prelude.rs
//@ include vecsink.rs
//@ raw
use sio::Stream as _;
broadcast use {ax::reading, axe::from_io, slotax::slots};
//@ item brec/src/error.rs enum Error
//@ include errors.rs
//@ item brec/src/traits/read/status.rs enum ReadStatus
//@ item brec/src/lib.rs const MAX_BLOCKS_COUNT
//@ item brec/src/traits/props/byte_block.rs enum ByteBlock
//@ item brec/src/payload/header/mod.rs struct PayloadHeader
//@ include bb_spec.rs
//@ include iters.rs
//@ item brec/src/traits/write/slices.rs enum SliceSlot
//@ item brec/src/traits/write/slices.rs struct IoSlices
//@ include slices_spec.rs
//@ include pay_laws.rs
//@ item brec/src/packet/header/mod.rs const PACKET_SIG
//@ item brec/src/packet/header/mod.rs struct PacketHeader
//@ item brec/src/packet/header/mod.rs assoc_const PacketHeader::SIZE
//@ include hdr_spec.rs
//@ include blk_laws.rs
//@ include pkt_laws.rs
//@ item brec/src/packet/mod.rs struct PacketDef
//@ include pkt_spec.rs
//@ stub pkt.vc brec/src/packet/read.rs ReadFrom@PacketDef::read
//@ stub pkt.vc brec/src/packet/read.rs TryReadFrom@PacketDef::try_read
//@ include filt_laws.rs
//@ item brec/src/packet/rules.rs enum RuleFnDef
//@ include rules_spec.rs
//@ item brec/src/packet/rules.rs enum RuleDef
//@ item brec/src/packet/rules.rs struct RulesDef
//@ include rules_spec2.rs
//@ include filt_spec.rs
//@ item brec/src/packet/mod.rs enum LookInStatus
//@ stub rules.vc brec/src/packet/rules.rs Default@RulesDef::default
//@ stub rules.vc brec/src/packet/rules.rs RulesDef::add_rule
//@ stub rules.vc brec/src/packet/rules.rs RulesDef::remove_rule
//@ stub filt.vc brec/src/packet/mod.rs PacketDef::filtered
//@ item brec/src/storage/slot/mod.rs const DEFAULT_SLOT_CAPACITY
//@ item brec/src/storage/slot/mod.rs const STORAGE_SLOT_SIG
//@ item brec/src/storage/slot/mod.rs struct Slot
//@ item brec/src/storage/slot/header.rs struct SlotHeader
//@ include slot_spec.rs
//@ item brec/src/storage/locator.rs struct FreeSlotLocator
//@ include span_spec.rs
//@ stub slot.vc brec/src/storage/slot/mod.rs Slot::width
//@ stub slot.vc brec/src/storage/slot/mod.rs Size@Slot::size
//@ stub slot.vc brec/src/storage/slot/mod.rs Default@Slot::default
//@ stub slot.vc brec/src/storage/slot/read.rs TryReadFrom@Slot::try_read
//@ stub slot.vc brec/src/storage/slot/mod.rs Slot::count
//@ stub slot.vc brec/src/storage/slot/mod.rs Slot::is_used
//@ stub slot.vc brec/src/storage/slot/mod.rs Slot::offset_of
//@ stub slot.vc brec/src/storage/slot/mod.rs Slot::expand
//@ stub slot.vc brec/src/storage/slot/mod.rs Slot::get_free_slot_index
//@ item brec/src/storage/slot/anchored.rs struct AnchoredSlot
//@ stub slot.vc brec/src/storage/slot/anchored.rs AnchoredSlot::new
//@ stub slot.vc brec/src/storage/slot/anchored.rs AnchoredSlot::width
//@ stub slot.vc brec/src/storage/slot/anchored.rs AnchoredSlot::get_slot_offset
//@ stub slot.vc brec/src/storage/slot/anchored.rs AnchoredSlot::get_free_slot_index
//@ stub slot.vc brec/src/storage/slot/anchored.rs AnchoredSlot::is_empty
//@ stub slot.vc brec/src/storage/slot/anchored.rs Size@AnchoredSlot::size
//@ stub slot.vc brec/src/storage/locator.rs *
//@ include store_spec.rs
//@ include rd_spec.rs
//@ item brec/src/storage/reader/mod.rs type NthFilteredPacket
//@ item brec/src/storage/reader/mod.rs struct ReaderDef
//@ raw
impl<S: sio::Read + sio::Seek, B: BlockDef, BR: BlockReferredDef<B>, P: PayloadDef<Inner>, Inner: PayloadInnerDef> ReaderDef<S, B, BR, P, Inner> {
    pub closed spec fn data(&self) -> Seq<u8> { self.inner.data() }
    pub closed spec fn faulty(&self) -> bool { self.inner.faulty() }
    pub closed spec fn blank(&self) -> bool { self.slots@.len() == 0 && self.rules.rules@.len() == 0 }
    pub closed spec fn rules_v(&self) -> Seq<RuleDef<B, BR, P, Inner>> { self.rules.rules@ }
    /// the slots
    pub open spec fn tbl(&self) -> Seq<Slot> { inners(self.slots@) }
    /// the slots are well formed and the locator knows the first free place
    pub closed spec fn ok(&self) -> bool {
        &&& uniq(self.rules.rules@)
        &&& all_wf(self.tbl()) && anchored(self.slots@) && span(self.tbl(), self.slots@.len() as int) <= u64::MAX
        &&& at_free(self.locator, self.tbl()) && (self.locator.next < self.slots@.len() ==> !full(self.tbl()[self.locator.next as int]))
    }
}

//@ raw
use sio::{Cursor, BufRead};
//@ item brec/src/storage/reader/iters.rs struct PacketsLocatorIterator
:rewrite I: Iterator =>> I: VNext
//@ item brec/src/storage/reader/iters.rs struct ReaderIterator
:rewrite I: Iterator =>> I: VNext
//@ item brec/src/storage/reader/iters.rs struct ReaderFilteredIterator
:rewrite I: Iterator =>> I: VNext
//@ raw
impl<'a, I: VNext<Item = &'a Slot>> PacketsLocatorIterator<'a, I> {
    /// the slots not yet visited, and where the first of them begins
    pub closed spec fn ahead(&self) -> Seq<Slot> { derefs(self.slots.left()) }
    pub closed spec fn off(&self) -> nat { self.offset as nat }
    pub open spec fn ok(&self) -> bool { all_wf(self.ahead()) && self.off() + span(self.ahead(), self.ahead().len() as int) <= u64::MAX && self.ahead().len() <= u32::MAX }
}
//@ raw
pub mod rit_loc { use super::*; broadcast use slotax::slots;
//@ fn brec/src/storage/reader/iters.rs PacketsLocatorIterator::new
:props C09
:header impl<'a, I: VNext<Item = &'a Slot>> PacketsLocatorIterator<'a, I>
:ensures
    r.ahead() == derefs(slots.left()), r.off() == 0,

//@ fn brec/src/storage/reader/iters.rs Iterator@PacketsLocatorIterator::next
:props C09
:header impl<'a, I: VNext<Item = &'a Slot>> PacketsLocatorIterator<'a, I>
:sig_rewrite
    Self::Item =>> RangeInclusive<u64>
:rewrite self.slots.next() =>> self.slots.v_next()
:requires
    old(self).ok(),
:ensures
    final(self).ok(),
    old(self).ahead().len() == 0 ==> r is None && final(self).ahead() == old(self).ahead() && final(self).off() == old(self).off(),   //# C09
    old(self).ahead().len() > 0 && sum_of(old(self).ahead()[0].lenghts@) == 0 ==> r is None && final(self).ahead() == old(self).ahead().skip(1) && final(self).off() == old(self).off(),
    old(self).ahead().len() > 0 && sum_of(old(self).ahead()[0].lenghts@) > 0 ==> r is Some
        && r->0.a == old(self).off() + slot_size(old(self).ahead()[0].capacity) && r->0.b == r->0.a + sum_of(old(self).ahead()[0].lenghts@)
        && final(self).ahead() == old(self).ahead().skip(1) && final(self).off() == r->0.b,   //# C09
:start
    proof { lemma_derefs(self.slots.left()); lemma_span_skip(self.ahead()); }

//@ fn brec/src/storage/reader/iters.rs PacketsLocatorIterator::from
:props C09
:header impl<'a, I: VNext<Item = &'a Slot>> PacketsLocatorIterator<'a, I>
:requires
    old(self).ok(),
:ensures
    final(self).ok(),
    r is Ok <==> packet < total(old(self).ahead()),   //# C09
    r is Ok ==> sought(old(self).ahead(), old(self).off(), packet as nat, r->Ok_0.a as nat, r->Ok_0.b as nat, final(self).off(), final(self).ahead()),   //# C09
:start
    hide(span); hide(used);
    let ghost s = self.ahead();
    let ghost o = self.offset as nat;
    proof { lemma_seek(s); lemma_derefs(self.slots.left()); assert(s.skip(0) =~= s); }
:loop 0
    invariant
        s == old(self).ahead(), o == old(self).off(),
        at0 <= s.len(), count == at0, derefs(self.slots.left()) == s.skip(at0 as int), s.len() <= u32::MAX,
        all_wf(s), self.offset == o + span(s, at0 as int), o + span(s, s.len() as int) <= u64::MAX,
        packet == target + used(s, at0 as int), seeks(s),
    ensures
        at0 == s.len(), derefs(self.slots.left()) == s.skip(at0 as int), packet >= used(s, s.len() as int),
    decreases s.len() - at0,
:loop_start 0
    proof { lemma_derefs(self.slots.left()); if at0 < s.len() { assert(s.skip(at0 as int)[0] == s[at0 as int]); assert(s.skip(at0 as int).skip(1) =~= s.skip(at0 + 1)); } }
//@ raw
}
//@ raw
impl<'a, I: VNext<Item = &'a Slot>, S: sio::Read + sio::Seek, B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef> ReaderIterator<'a, I, S, B, P, Inner> {
    pub closed spec fn data(&self) -> Seq<u8> { self.source.data() }
    pub closed spec fn faulty(&self) -> bool { self.source.faulty() }
    pub closed spec fn ok(&self) -> bool { self.locator.ok() }
    pub closed spec fn ahead(&self) -> Seq<Slot> { self.locator.ahead() }
    pub closed spec fn off(&self) -> nat { self.locator.off() }
    /// everything the slots announce is there
    pub open spec fn present(&self) -> bool { self.off() + span(self.ahead(), self.ahead().len() as int) <= self.data().len() }
    /// the packets it has still to give
    pub closed spec fn todo(&self) -> Seq<Seq<u8>> { chop(self.buffer.rest()) + shards(self.source.data(), self.locator.off(), self.locator.ahead()) }
    pub closed spec fn idle(&self) -> bool { self.buffer.rest().len() == 0 }
}
impl<'a, I: VNext<Item = &'a Slot>, S: sio::Read + sio::Seek, B: BlockDef, BR: BlockReferredDef<B>, P: PayloadDef<Inner>, Inner: PayloadInnerDef> ReaderFilteredIterator<'a, I, S, B, BR, P, Inner> {
    pub closed spec fn data(&self) -> Seq<u8> { self.source.data() }
    pub closed spec fn faulty(&self) -> bool { self.source.faulty() }
    pub closed spec fn ok(&self) -> bool { self.locator.ok() }
    pub closed spec fn ahead(&self) -> Seq<Slot> { self.locator.ahead() }
    pub closed spec fn off(&self) -> nat { self.locator.off() }
    pub open spec fn present(&self) -> bool { self.off() + span(self.ahead(), self.ahead().len() as int) <= self.data().len() }
    pub closed spec fn todo(&self) -> Seq<Seq<u8>> { chop(self.buffer.rest()) + shards(self.source.data(), self.locator.off(), self.locator.ahead()) }
    pub closed spec fn rules_v(&self) -> Seq<RuleDef<B, BR, P, Inner>> { self.rules.rules@ }
}
//@ raw
pub mod rit_it { use super::*; broadcast use {ax::reading, axe::from_io};
//@ fn brec/src/storage/reader/iters.rs ReaderIterator::new
:props C09
:header impl<'a, I: VNext<Item = &'a Slot>, S: sio::Read + sio::Seek, B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef> ReaderIterator<'a, I, S, B, P, Inner>
:ensures
    r.data() == old(source).data(), r.faulty() == old(source).faulty(), r.ahead() == derefs(slots.left()), r.off() == 0,
    all_wf(derefs(slots.left())) && span(derefs(slots.left()), slots.left().len() as int) <= u64::MAX && slots.left().len() <= u32::MAX ==> r.ok(),
    r.todo() == shards(old(source).data(), 0, derefs(slots.left())), r.idle(),
:tail
    proof { lemma_chop::<B, P, Inner>(Seq::empty()); }

//@ fn brec/src/storage/reader/iters.rs Iterator@ReaderIterator::next
:props C09
:header impl<'a, I: VNext<Item = &'a Slot>, S: sio::Read + sio::Write + sio::Seek, B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef> ReaderIterator<'a, I, S, B, P, Inner>
:sig_rewrite
    Self::Item =>> Result<PacketDef<B, P, Inner>, Error>
:rewrite location.end() - location.start() =>> *location.end() - *location.start()
:requires
    old(self).ok(),
:ensures
    final(self).ok(), final(self).data() == old(self).data(), final(self).faulty() == old(self).faulty(),
    old(self).present() ==> final(self).present(),
    old(self).present() && old(self).todo().len() == 0 ==> r is None,   //# C09
    !old(self).faulty() && old(self).present() && old(self).todo().len() > 0 && is_pkt::<B, P, Inner>(old(self).todo()[0])
        ==> r is Some && r->0 is Ok && pkt_val(old(self).todo()[0], r->0->Ok_0) && final(self).todo() == old(self).todo().skip(1),   //# C09
:start
    hide(hdr_ok); hide(hdr_of); hide(pkt_dec); hide(is_pkt); hide(chop); hide(span); hide(pkt_window); hide(sum_of);
    proof { lemma_todo::<B, P, Inner>(self.source.data(), self.buffer.rest(), self.locator.off(), self.locator.ahead()); lemma_span_skip(self.locator.ahead()); }
//@ raw
}
//@ raw
pub mod rit_seek { use super::*; broadcast use {ax::reading, axe::from_io};
//@ fn brec/src/storage/reader/iters.rs ReaderIterator::seek
:props C09
:header impl<'a, I: VNext<Item = &'a Slot>, S: sio::Read + sio::Seek, B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef> ReaderIterator<'a, I, S, B, P, Inner>
:requires
    self.ok(),
:ensures
    r is Ok ==> r->Ok_0.ok() && r->Ok_0.data() == self.data() && r->Ok_0.faulty() == self.faulty(),
    packet >= total(self.ahead()) ==> r is Err,   //# C09
    packet < total(self.ahead()) && self.present() && !self.faulty() ==> r is Ok,   //# C09
    r is Ok && self.present() ==> r->Ok_0.present() && after_seek(r->Ok_0.todo(), self.data(), self.off(), self.ahead(), packet as nat),   //# C09
:start
    hide(chop); hide(shards); hide(span); hide(used); hide(sum_of); hide(fz);
    proof { lemma_sought_in(self.source.data(), self.locator.off(), self.locator.ahead(), packet as nat); }

//@ fn brec/src/storage/reader/iters.rs ReaderFilteredIterator::new
:props C09 C14
:header impl<'a, I: VNext<Item = &'a Slot>, S: sio::Read + sio::Seek, B: BlockDef, BR: BlockReferredDef<B>, P: PayloadDef<Inner>, Inner: PayloadInnerDef> ReaderFilteredIterator<'a, I, S, B, BR, P, Inner>
:ensures
    r.data() == old(source).data(), r.faulty() == old(source).faulty(), r.ahead() == derefs(slots.left()), r.off() == 0, r.rules_v() == rules.rules@,
    all_wf(derefs(slots.left())) && span(derefs(slots.left()), slots.left().len() as int) <= u64::MAX && slots.left().len() <= u32::MAX ==> r.ok(),
    r.todo() == shards(old(source).data(), 0, derefs(slots.left())),
:tail
    proof { lemma_chop::<B, P, Inner>(Seq::empty()); }

//@ fn brec/src/storage/reader/iters.rs Iterator@ReaderFilteredIterator::next
:props C09 C14
:header impl<'a, I: VNext<Item = &'a Slot>, S: sio::Read + sio::Seek, B: BlockDef, BR: BlockReferredDef<B>, P: PayloadDef<Inner>, Inner: PayloadInnerDef> ReaderFilteredIterator<'a, I, S, B, BR, P, Inner>
:sig_rewrite
    Self::Item =>> Result<PacketDef<B, P, Inner>, Error>
:rewrite location.end() - location.start() =>> *location.end() - *location.start()
:requires
    old(self).ok(),
:ensures
    final(self).ok(), final(self).data() == old(self).data(), final(self).faulty() == old(self).faulty(), final(self).rules_v() == old(self).rules_v(),
    old(self).present() ==> final(self).present(),
    !old(self).faulty() && old(self).present() && (forall|n: int| 0 <= n < old(self).todo().len() ==> is_pkt::<B, P, Inner>(#[trigger] old(self).todo()[n]))
        ==> hunted(old(self).rules_v(), old(self).todo(), 0, old(self).todo().len() - final(self).todo().len(), r)
            && (r is Some ==> final(self).todo() == old(self).todo().skip(old(self).todo().len() - final(self).todo().len())),   //# C09 C14
:start
    hide(hdr_ok); hide(hdr_of); hide(pkt_dec); hide(is_pkt); hide(chop); hide(span); hide(pkt_window); hide(sum_of); hide(passes); hide(refused);
    let ghost d = self.source.data();
    let ghost f = self.source.faulty();
    let ghost rl = self.rules.rules@;
    let ghost all = self.todo();
    let ghost good = !f && self.present() && forall|n: int| 0 <= n < all.len() ==> is_pkt::<B, P, Inner>(#[trigger] all[n]);
    let ghost pr = self.present();
    proof { assert(all.skip(0) =~= all); }
:loop 0
    invariant
        self.locator.ok(), self.source.data() == d, self.source.faulty() == f, self.rules.rules@ == rl,
        d == old(self).data(), f == old(self).faulty(), rl == old(self).rules_v(), all == old(self).todo(), pr == old(self).present(),
        good == (!f && pr && forall|n: int| 0 <= n < all.len() ==> is_pkt::<B, P, Inner>(#[trigger] all[n])),
        pr ==> self.present(),
        good ==> self.todo().len() <= all.len() && self.todo() == all.skip(all.len() - self.todo().len()) && none_pass(rl, all, 0, all.len() - self.todo().len()),
    decreases self.locator.ahead().len(), self.buffer.rest().len(),
:loop_start 0
    proof { lemma_todo::<B, P, Inner>(self.source.data(), self.buffer.rest(), self.locator.off(), self.locator.ahead()); lemma_span_skip(self.locator.ahead()); lemma_skips(all); }

//@ fn brec/src/storage/reader/mod.rs ReaderDef::iter
:props C09
:sig_rewrite
    impl Iterator<Item = &'a Slot> =>> VInners<'a>
:rewrite self.slots.v_iter().map(|$a| &$a.inner) =>> v_inners(&self.slots)
:requires
    old(self).ok(), old(self).tbl().len() <= u32::MAX,
:ensures
    r.ok(), r.data() == old(self).data(), r.faulty() == old(self).faulty(),
    clean(old(self).data(), old(self).tbl()) ==> r.present(),
    clean(old(self).data(), old(self).tbl()) && uniform(old(self).tbl()) && stored::<B, P, Inner>(old(self).data(), old(self).tbl())
        ==> r.todo() == all_packs(old(self).data(), old(self).tbl()),   //# C09
:start
    hide(stored); hide(clean); hide(uniform); hide(all_packs);
    proof { lemma_whole::<B, P, Inner>(self.data(), self.tbl()); }

//@ fn brec/src/storage/reader/mod.rs ReaderDef::seek
:props C09
:sig_rewrite
    impl Iterator<Item = &'a Slot> =>> VInners<'a>
:rewrite self.slots.v_iter().map(|$a| &$a.inner) =>> v_inners(&self.slots)
:requires
    old(self).ok(), old(self).tbl().len() <= u32::MAX,
:ensures
    r is Ok ==> r->Ok_0.ok() && r->Ok_0.data() == old(self).data() && r->Ok_0.faulty() == old(self).faulty(),
    packet >= total(old(self).tbl()) ==> r is Err,   //# C09
    clean(old(self).data(), old(self).tbl()) && packet < total(old(self).tbl()) && !old(self).faulty() ==> r is Ok,   //# C09
    r is Ok && clean(old(self).data(), old(self).tbl()) && uniform(old(self).tbl()) && stored::<B, P, Inner>(old(self).data(), old(self).tbl())
        ==> r->Ok_0.present() && r->Ok_0.todo() == all_packs(old(self).data(), old(self).tbl()).skip(packet as int),   //# C09
:start
    hide(stored); hide(clean); hide(uniform); hide(all_packs); hide(after_seek); hide(used);
    proof { lemma_whole::<B, P, Inner>(self.data(), self.tbl()); lemma_after_seek::<B, P, Inner>(self.data(), self.tbl(), packet as nat); }

//@ fn brec/src/storage/reader/mod.rs ReaderDef::filtered
:props C09 C14
:sig_rewrite
    impl Iterator<Item = &'a Slot> =>> VInners<'a>
:rewrite self.slots.v_iter().map(|$a| &$a.inner) =>> v_inners(&self.slots)
:requires
    old(self).ok(), old(self).tbl().len() <= u32::MAX,
:ensures
    r.ok(), r.data() == old(self).data(), r.faulty() == old(self).faulty(), r.rules_v() == old(self).rules_v(),
    clean(old(self).data(), old(self).tbl()) ==> r.present(),
    clean(old(self).data(), old(self).tbl()) && uniform(old(self).tbl()) && stored::<B, P, Inner>(old(self).data(), old(self).tbl())
        ==> r.todo() == all_packs(old(self).data(), old(self).tbl()),   //# C09
:start
    hide(stored); hide(clean); hide(uniform); hide(all_packs);
    proof { lemma_whole::<B, P, Inner>(self.data(), self.tbl()); }
//@ raw
}
