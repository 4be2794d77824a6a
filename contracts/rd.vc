//@ include prelude.rs
//@ include vecsink.rs
//@ raw
use sio::Stream as _;
broadcast use {ax::reading, axe::from_io, slotax::slots};
//@ item brec/src/error.rs enum Error
//@ include errors.rs
//@ item brec/src/traits/read/status.rs enum ReadStatus
//@ item brec/src/lib.rs const MAX_BLOCKS_COUNT
//@ item brec/src/traits/props/byte_block.rs enum ByteBlock
//@ item brec/src/payload/header/mod.rs struct PayloadHeader
//@ include bb_spec.rs
//@ include iters.rs
//@ item brec/src/traits/write/slices.rs enum SliceSlot
//@ item brec/src/traits/write/slices.rs struct IoSlices
//@ include slices_spec.rs
//@ include pay_laws.rs
//@ item brec/src/packet/header/mod.rs const PACKET_SIG
//@ item brec/src/packet/header/mod.rs struct PacketHeader
//@ item brec/src/packet/header/mod.rs assoc_const PacketHeader::SIZE
//@ include hdr_spec.rs
//@ include blk_laws.rs
//@ include pkt_laws.rs
//@ item brec/src/packet/mod.rs struct PacketDef
//@ include pkt_spec.rs
//@ stub pkt.vc brec/src/packet/read.rs ReadFrom@PacketDef::read
//@ stub pkt.vc brec/src/packet/read.rs TryReadFrom@PacketDef::try_read
//@ include filt_laws.rs
//@ item brec/src/packet/rules.rs enum RuleFnDef
//@ include rules_spec.rs
//@ item brec/src/packet/rules.rs enum RuleDef
//@ item brec/src/packet/rules.rs struct RulesDef
//@ include rules_spec2.rs
//@ include filt_spec.rs
//@ item brec/src/packet/mod.rs enum LookInStatus
//@ stub rules.vc brec/src/packet/rules.rs Default@RulesDef::default
//@ stub rules.vc brec/src/packet/rules.rs RulesDef::add_rule
//@ stub rules.vc brec/src/packet/rules.rs RulesDef::remove_rule
//@ stub filt.vc brec/src/packet/mod.rs PacketDef::filtered
//@ item brec/src/storage/slot/mod.rs const DEFAULT_SLOT_CAPACITY
//@ item brec/src/storage/slot/mod.rs const STORAGE_SLOT_SIG
//@ item brec/src/storage/slot/mod.rs struct Slot
//@ item brec/src/storage/slot/header.rs struct SlotHeader
//@ include slot_spec.rs
//@ item brec/src/storage/locator.rs struct FreeSlotLocator
//@ include span_spec.rs
//@ stub slot.vc brec/src/storage/slot/mod.rs Slot::width
//@ stub slot.vc brec/src/storage/slot/mod.rs Size@Slot::size
//@ stub slot.vc brec/src/storage/slot/mod.rs Default@Slot::default
//@ stub slot.vc brec/src/storage/slot/read.rs TryReadFrom@Slot::try_read
//@ stub slot.vc brec/src/storage/slot/mod.rs Slot::count
//@ stub slot.vc brec/src/storage/slot/mod.rs Slot::is_used
//@ stub slot.vc brec/src/storage/slot/mod.rs Slot::offset_of
//@ stub slot.vc brec/src/storage/slot/mod.rs Slot::expand
//@ stub slot.vc brec/src/storage/slot/mod.rs Slot::get_free_slot_index
//@ item brec/src/storage/slot/anchored.rs struct AnchoredSlot
//@ stub slot.vc brec/src/storage/slot/anchored.rs AnchoredSlot::new
//@ stub slot.vc brec/src/storage/slot/anchored.rs AnchoredSlot::width
//@ stub slot.vc brec/src/storage/slot/anchored.rs AnchoredSlot::get_slot_offset
//@ stub slot.vc brec/src/storage/slot/anchored.rs AnchoredSlot::get_free_slot_index
//@ stub slot.vc brec/src/storage/slot/anchored.rs AnchoredSlot::is_empty
//@ stub slot.vc brec/src/storage/slot/anchored.rs Size@AnchoredSlot::size
//@ stub slot.vc brec/src/storage/locator.rs *
//@ include store_spec.rs
//@ include rd_spec.rs
//@ item brec/src/storage/reader/mod.rs type NthFilteredPacket
//@ item brec/src/storage/reader/mod.rs struct ReaderDef
//@ include rd_reader.rs

//@ fn brec/src/storage/reader/mod.rs ReaderDef::new
:props C09 C11
:requires
    sane(inner.data()),
:ensures
    r is Ok ==> r->Ok_0.data() == inner.data() && r->Ok_0.faulty() == inner.faulty() && r->Ok_0.rules_v().len() == 0,
    r is Ok ==> chain(inner.data(), r->Ok_0.tbl()) && stops(inner.data(), span(r->Ok_0.tbl(), r->Ok_0.tbl().len() as int)),   //# C09 C11
    r is Ok ==> r->Ok_0.ok(),   //# C09 C11
    damaged(inner.data()) ==> r is Err,   //# C11
    r is Err && !inner.faulty() ==> r->Err_0 is DamagedSlot && damaged(inner.data()),   //# C11

//@ fn brec/src/storage/reader/mod.rs ReaderDef::load
:props C09 C11
:rewrite me.slots.v_iter().map(|$a| &$a.inner) =>> v_inners(&me.slots)
:requires
    self.blank(), sane(self.data()),
:ensures
    r is Ok ==> r->Ok_0.data() == self.data() && r->Ok_0.faulty() == self.faulty() && r->Ok_0.rules_v() == self.rules_v(),
    r is Ok ==> chain(self.data(), r->Ok_0.tbl()) && stops(self.data(), span(r->Ok_0.tbl(), r->Ok_0.tbl().len() as int)),   //# C09 C11
    r is Ok ==> r->Ok_0.ok(),   //# C09 C11
    damaged(self.data()) ==> r is Err,   //# C11
    r is Err && !self.faulty() ==> r->Err_0 is DamagedSlot && damaged(self.data()),   //# C11
:start
    hide(slot_ok); hide(slot_of);
    let ghost d = self.inner.data();
    let ghost f = self.inner.faulty();
    let ghost rl = self.rules.rules@;
    proof { assert(inners(self.slots@) =~= Seq::<Slot>::empty()); lemma_slots_push(); }
:loop 0
    invariant
        me.inner.data() == d, me.inner.faulty() == f, sane(d), d == self.data(), f == self.faulty(), me.rules.rules@ == rl, rl == self.rules_v(),
        uniq(rl), chain(d, inners(me.slots@)), offset == span(inners(me.slots@), me.slots@.len() as int), anchored(me.slots@),
    ensures
        stops(d, span(inners(me.slots@), me.slots@.len() as int)),
    decreases u64::MAX - offset,
:loop_start 0
    proof { lemma_extend(d, inners(me.slots@)); lemma_slots_push(); }
:after_loop 0
    proof {
        lemma_damaged(d, inners(me.slots@));
        assert(me.slots.len() == me.slots@.len());
    }

//@ fn brec/src/storage/reader/mod.rs ReaderDef::count
:props C09
:requires
    self.ok(), self.tbl().len() <= u32::MAX,
:ensures
    uniform(self.tbl()) ==> r == total(self.tbl()),   //# C09
:start
    hide(slot_ok); hide(slot_of); hide(fz); hide(sum_of); hide(packs); hide(used); hide(span);
    proof {
        assert(self.slots.len() == self.slots@.len());
        if uniform(self.tbl()) { lemma_where(Seq::empty(), self.tbl(), 0); lemma_tight_locator(self.locator, self.tbl()); }
    }

//@ raw
pub mod rd_nth { use super::*; broadcast use {ax::reading, axe::from_io};
//@ fn brec/src/storage/reader/mod.rs ReaderDef::nth
:props C09 C11
:unfold
:requires
    old(self).ok(),
:ensures
    sio_same(old(self), final(self)),
    final(self).ok(),
    uniform(old(self).tbl()) && nth >= total(old(self).tbl()) ==> r is Ok && r->Ok_0 is None,   //# C09
    !old(self).faulty() && uniform(old(self).tbl()) && clean(old(self).data(), old(self).tbl()) && nth < total(old(self).tbl())
        && is_pkt::<B, P, Inner>(all_packs(old(self).data(), old(self).tbl())[nth as int])
        ==> r is Ok && r->Ok_0 is Some && pkt_val(all_packs(old(self).data(), old(self).tbl())[nth as int], r->Ok_0->0),   //# C09
:start
    hide(slot_ok); hide(slot_of); hide(hdr_crc); hide(pkt_dec); hide(fz); hide(sum_of); hide(packs); hide(hdr_ok); hide(hdr_of); hide(pkt_window); hide(packed);
    let ghost s = self.tbl();
    let ghost d = self.inner.data();
    proof {
        assert(self.slots.len() == self.slots@.len());
        if uniform(s) { lemma_where(d, s, nth as int); }
        let (i, j) = (nth as int / 500, nth as int % 500);
        if i < s.len() {
            assert(s[i] == self.slots@[i].inner);
            if j < s[i].lenghts@.len() { lemma_place(s, i, j); if clean(d, s) { lemma_there(d, s, i, j); if is_pkt::<B, P, Inner>(pack_at(d, s, i, j)) { lemma_is_pkt::<B, P, Inner>(pack_at(d, s, i, j), d.skip(place(s, i, j) + s[i].lenghts@[j])); } } }
        }
    }
:loop 0
    invariant
        it0.s@ == self.slots@.take(slot_index as int), it0.at <= it0.s@.len(), slot_index < self.slots@.len(),
        acc0 == span(inners(self.slots@), it0.at as int), all_wf(inners(self.slots@)), span(inners(self.slots@), self.slots@.len() as int) <= u64::MAX,
    ensures
        it0.at == slot_index,
    decreases it0.s@.len() - it0.at,
:loop_start 0
    proof {
        if it0.at < it0.s@.len() {
            assert(inners(self.slots@)[it0.at as int] == self.slots@[it0.at as int].inner);
            lemma_span_mono(inners(self.slots@), it0.at + 1, self.slots@.len() as int);
        }
    }

//@ fn brec/src/storage/reader/mod.rs ReaderDef::nth_filtered
:props C09 C14
:unfold
:requires
    old(self).ok(),
:ensures
    sio_same(old(self), final(self)),
    final(self).ok(),
    from >= 500 * old(self).tbl().len() ==> r is Ok && r->Ok_0 is None,
    uniform(old(self).tbl()) && from >= total(old(self).tbl()) ==> r is Ok && r->Ok_0 is None,   //# C09
    !old(self).faulty() && uniform(old(self).tbl()) && clean(old(self).data(), old(self).tbl()) && from < total(old(self).tbl())
        && is_pkt::<B, P, Inner>(all_packs(old(self).data(), old(self).tbl())[from as int])
        ==> r is Ok && r->Ok_0 is Some && !(r->Ok_0->0 is NotEnoughData)
            && (r->Ok_0->0 is Accepted ==> passes_b(old(self).rules_v(), all_packs(old(self).data(), old(self).tbl())[from as int], r->Ok_0->0->Accepted_1))
            && (r->Ok_0->0 is Denied ==> refused_b(old(self).rules_v(), all_packs(old(self).data(), old(self).tbl())[from as int])),   //# C09 C14
:start
    hide(slot_ok); hide(slot_of); hide(hdr_crc); hide(pkt_dec); hide(fz); hide(sum_of); hide(packs); hide(hdr_ok); hide(hdr_of); hide(pkt_window); hide(packed);
    let ghost s = self.tbl();
    let ghost d = self.inner.data();
    proof {
        assert(self.slots.len() == self.slots@.len());
        if uniform(s) { lemma_where(d, s, from as int); }
        let (i, j) = (from as int / 500, from as int % 500);
        if i < s.len() {
            assert(s[i] == self.slots@[i].inner);
            if j < s[i].lenghts@.len() { lemma_place(s, i, j); if clean(d, s) { lemma_there(d, s, i, j); if is_pkt::<B, P, Inner>(pack_at(d, s, i, j)) { lemma_is_pkt::<B, P, Inner>(pack_at(d, s, i, j), d.skip(place(s, i, j) + s[i].lenghts@[j])); } } }
        }
    }
:loop 0
    invariant
        it0.s@ == self.slots@.take(slot_index as int), it0.at <= it0.s@.len(), slot_index < self.slots@.len(),
        acc0 == span(inners(self.slots@), it0.at as int), all_wf(inners(self.slots@)), span(inners(self.slots@), self.slots@.len() as int) <= u64::MAX,
    ensures
        it0.at == slot_index,
    decreases it0.s@.len() - it0.at,
:loop_start 0
    proof {
        if it0.at < it0.s@.len() {
            assert(inners(self.slots@)[it0.at as int] == self.slots@[it0.at as int].inner);
            lemma_span_mono(inners(self.slots@), it0.at + 1, self.slots@.len() as int);
        }
    }
//@ raw
}

//@ fn brec/src/storage/reader/mod.rs ReaderDef::add_rule
:props C14
:requires
    old(self).ok(),
:ensures
    sio_data(old(self), final(self)), final(self).ok(),
    r is Ok <==> !has_kind(old(self).rules_v(), kind(rule)),   //# C14
    r is Ok ==> final(self).rules_v() == old(self).rules_v().push(rule),   //# C14
    r is Err ==> final(self).rules_v() == old(self).rules_v() && r->Err_0 is RuleDuplicate,   //# C14

//@ fn brec/src/storage/reader/mod.rs ReaderDef::remove_rule
:props C14
:requires
    old(self).ok(),
:ensures
    sio_data(old(self), final(self)), final(self).ok(),
    final(self).rules_v() == old(self).rules_v().filter(|x: RuleDef<B, BR, P, Inner>| kind(x) != id_kind(rule)),   //# C14
    !has_kind(final(self).rules_v(), id_kind(rule)),   //# C14

//@ item brec/src/storage/reader/iters.rs struct ReaderRangeIterator
//@ item brec/src/storage/reader/iters.rs struct ReaderRangeFilteredIterator
//@ raw
impl<'a, S: sio::Read + sio::Seek, B: BlockDef, BR: BlockReferredDef<B>, P: PayloadDef<Inner>, Inner: PayloadInnerDef> ReaderRangeIterator<'a, S, B, BR, P, Inner> {
    pub closed spec fn from_v(&self) -> usize { self.from }
    pub closed spec fn len_v(&self) -> usize { self.len }
    pub closed spec fn st(&self) -> ReaderDef<S, B, BR, P, Inner> { *self.storage }
}
impl<'a, S: sio::Read + sio::Seek, B: BlockDef, BR: BlockReferredDef<B>, P: PayloadDef<Inner>, Inner: PayloadInnerDef> ReaderRangeFilteredIterator<'a, S, B, BR, P, Inner> {
    pub closed spec fn from_v(&self) -> usize { self.from }
    pub closed spec fn len_v(&self) -> usize { self.len }
    pub closed spec fn st(&self) -> ReaderDef<S, B, BR, P, Inner> { *self.storage }
}
//@ raw
pub mod rd_range { use super::*;
//@ fn brec/src/storage/reader/iters.rs ReaderRangeIterator::new
:props C09
:ensures
    r.from_v() == from, r.len_v() == len, r.st() == *old(storage),

//@ fn brec/src/storage/reader/iters.rs Iterator@ReaderRangeIterator::next
:props C09
:header impl<S: sio::Read + sio::Seek, B: BlockDef, BR: BlockReferredDef<B>, P: PayloadDef<Inner>, Inner: PayloadInnerDef> ReaderRangeIterator<'_, S, B, BR, P, Inner>
:sig_rewrite
    Self::Item =>> Result<PacketDef<B, P, Inner>, Error>
:requires
    old(self).st().ok(),
:ensures
    sio_same(&old(self).st(), &final(self).st()), final(self).st().ok(),
    old(self).len_v() == 0 ==> r is None && final(self).len_v() == 0,   //# C09
    uniform(old(self).st().tbl()) && old(self).from_v() >= total(old(self).st().tbl()) ==> r is None,   //# C09
    !old(self).st().faulty() && uniform(old(self).st().tbl()) && clean(old(self).st().data(), old(self).st().tbl())
        && stored::<B, P, Inner>(old(self).st().data(), old(self).st().tbl()) && old(self).len_v() > 0 && old(self).from_v() < total(old(self).st().tbl())
        ==> r is Some && r->0 is Ok && pkt_val(all_packs(old(self).st().data(), old(self).st().tbl())[old(self).from_v() as int], r->0->Ok_0)
            && final(self).from_v() == old(self).from_v() + 1 && final(self).len_v() == old(self).len_v() - 1,   //# C09
:start
    hide(pkt_val); hide(all_packs); hide(is_pkt); hide(clean);
    proof { if uniform(self.storage.tbl()) { lemma_where(self.storage.data(), self.storage.tbl(), self.from as int); lemma_small(self.storage.tbl()); assert(self.storage.slots.len() == self.storage.tbl().len()); } }

//@ fn brec/src/storage/reader/iters.rs ReaderRangeFilteredIterator::new
:props C09
:ensures
    r.from_v() == from, r.len_v() == len, r.st() == *old(storage),

//@ fn brec/src/storage/reader/iters.rs Iterator@ReaderRangeFilteredIterator::next
:props C09 C14
:header impl<S: sio::Read + sio::Seek, B: BlockDef, BR: BlockReferredDef<B>, P: PayloadDef<Inner>, Inner: PayloadInnerDef> ReaderRangeFilteredIterator<'_, S, B, BR, P, Inner>
:sig_rewrite
    Self::Item =>> Result<PacketDef<B, P, Inner>, Error>
:requires
    old(self).st().ok(), old(self).st().tbl().len() <= u32::MAX,
:ensures
    sio_same(&old(self).st(), &final(self).st()), final(self).st().ok(),
    old(self).len_v() == 0 ==> r is None && final(self).len_v() == 0,   //# C09
    uniform(old(self).st().tbl()) && old(self).from_v() >= total(old(self).st().tbl()) ==> r is None,   //# C09
    !old(self).st().faulty() && uniform(old(self).st().tbl()) && clean(old(self).st().data(), old(self).st().tbl())
        && stored::<B, P, Inner>(old(self).st().data(), old(self).st().tbl()) && old(self).len_v() > 0 && old(self).from_v() < total(old(self).st().tbl())
        ==> (r is Some ==> r->0 is Ok) && hunted(old(self).st().rules_v(), all_packs(old(self).st().data(), old(self).st().tbl()), old(self).from_v() as int, final(self).from_v() as int, r)
            && (r is Some ==> final(self).len_v() == old(self).len_v() - 1),   //# C09 C14
:start
    hide(passes_b); hide(refused_b); hide(all_packs); hide(is_pkt); hide(clean); hide(uniform); hide(used); hide(span);
    let ghost st = *self.storage;
    let ghost rl = st.rules_v();
    let ghost v = all_packs(st.data(), st.tbl());
    let ghost good = !st.faulty() && uniform(st.tbl()) && clean(st.data(), st.tbl()) && stored::<B, P, Inner>(st.data(), st.tbl()) && self.len > 0 && self.from < total(st.tbl());
    proof { if uniform(self.storage.tbl()) { lemma_where(self.storage.data(), self.storage.tbl(), self.from as int); lemma_small(self.storage.tbl()); assert(self.storage.slots.len() == self.storage.tbl().len()); } }
:loop 0
    invariant
        st.tbl().len() <= u32::MAX, sio_same(&st, &*self.storage), self.storage.ok(), st == old(self).st(), self.from >= old(self).from, self.len == old(self).len,
        rl == st.rules_v(), v == all_packs(st.data(), st.tbl()),
        uniform(st.tbl()) ==> v.len() == total(st.tbl()) && total(st.tbl()) <= usize::MAX && total(st.tbl()) <= 500 * st.tbl().len(),
        good ==> !st.faulty() && uniform(st.tbl()) && clean(st.data(), st.tbl()) && self.from <= v.len() && none_pass(rl, v, old(self).from as int, self.from as int) && forall|n: int| 0 <= n < v.len() ==> is_pkt::<B, P, Inner>(#[trigger] v[n]),
        good == (!st.faulty() && uniform(st.tbl()) && clean(st.data(), st.tbl()) && stored::<B, P, Inner>(st.data(), st.tbl()) && old(self).len > 0 && old(self).from < total(st.tbl())),
    decreases (if self.from < 500 * self.storage.tbl().len() { 500 * self.storage.tbl().len() - self.from } else { 0int }),
//@ raw
}

//@ fn brec/src/storage/reader/mod.rs ReaderDef::range
:props C09
:ensures
    r.from_v() == from, r.len_v() == len, r.st() == *old(self),   //# C09

//@ fn brec/src/storage/reader/mod.rs ReaderDef::range_filtered
:props C09
:ensures
    r.from_v() == from, r.len_v() == len, r.st() == *old(self),   //# C09
