//@ include prelude.rs
//@ include vecsink.rs
//@ raw
broadcast use {ax::core, slotax::slots};
//@ include iters.rs
//@ item brec/src/error.rs enum Error
//@ include errors.rs
//@ item brec/src/traits/read/status.rs enum ReadStatus
//@ item brec/src/storage/slot/mod.rs const DEFAULT_SLOT_CAPACITY
//@ item brec/src/storage/slot/mod.rs const STORAGE_SLOT_SIG
//@ item brec/src/storage/slot/mod.rs struct Slot
//@ item brec/src/storage/slot/mod.rs struct SlotIterator
//@ item brec/src/storage/slot/header.rs struct SlotHeader
//@ item brec/src/storage/slot/anchored.rs struct AnchoredSlot
//@ include slot_spec.rs

//@ fn brec/src/storage/slot/header.rs StaticSize@SlotHeader::ssize
:props C11
:ensures
    r == 16,

//@ fn brec/src/storage/slot/header.rs ReadFrom@SlotHeader::read
:props C11
:ensures
    sio::same_source(old(buf), final(buf)),
    r is Ok ==> old(buf).rest().len() >= 16 && slot_sig_ok(old(buf).rest()) && r->Ok_0.capacity == cap_of(old(buf).rest()),
    r is Ok ==> sio::advanced(old(buf), final(buf), 16),
    r is Err && !old(buf).faulty() && old(buf).rest().len() >= 16 ==> !slot_sig_ok(old(buf).rest()) && r->Err_0 is SignatureDismatch,

//@ fn brec/src/storage/slot/header.rs TryReadFrom@SlotHeader::try_read
:props C11 C04
:ensures
    sio::same_source(old(buf), final(buf)),   //# C04
    r is Ok && r->Ok_0 is Success ==> old(buf).rest().len() >= 16 && slot_sig_ok(old(buf).rest()) && r->Ok_0->Success_0.capacity == cap_of(old(buf).rest()),   //# C11
    r is Ok && r->Ok_0 is Success ==> sio::advanced(old(buf), final(buf), 16),
    r is Ok && r->Ok_0 is NotEnoughData ==> old(buf).rest().len() < 16 && r->Ok_0->NotEnoughData_0 == 16 - old(buf).rest().len(),   //# C04
    r is Ok && r->Ok_0 is NotEnoughData ==> sio::advanced(old(buf), final(buf), 0),   //# C04
    r is Err && !old(buf).faulty() ==> old(buf).rest().len() >= 16 && !slot_sig_ok(old(buf).rest()) && r->Err_0 is SignatureDismatch,   //# C11
    r is Err && !old(buf).faulty() ==> sio::advanced(old(buf), final(buf), 0),   //# C04

//@ fn brec/src/storage/slot/mod.rs Slot::new
:props C11
:ensures
    r.lenghts == lenghts, r.capacity == capacity, r.crc == crc,

//@ fn brec/src/storage/slot/mod.rs Size@Slot::size
:props C11
:impl_extra
    open spec fn size_req(&self) -> bool { slot_size(self.capacity) <= u64::MAX }
:ensures
    r == slot_size(self.capacity),

//@ fn brec/src/storage/slot/mod.rs CrcU32@Slot::crc
:props C11
:rewrite .v_iter().flat_map(|$x| $x.v_to_le_bytes()).collect::<Vec<u8>>() =>> .v_iter().flat_le_vec()
:ensures
    r@ == slot_crc(self.capacity, self.lenghts@).le(),

//@ fn brec/src/storage/slot/mod.rs Slot::is_full
:props C11
:ensures
    r == (self.lenghts@.len() > 0 && self.lenghts@.last() > 0),

//@ fn brec/src/storage/slot/mod.rs Slot::width
:props C11 C10
:requires
    slot_wf(self.v()),
:ensures
    r == sum_of(self.lenghts@),
    r == sum_of(self.lenghts@.take(fz(self.lenghts@))),
:start
    proof { lemma_sum_zeros(self.lenghts@, fz(self.lenghts@)); }

//@ fn brec/src/storage/slot/mod.rs Slot::get_slot_offset
:props C11 C09
:requires
    slot_wf(self.v()),
:ensures
    r is Some <==> nth < self.lenghts@.len(),
    r is Some ==> r->0 == slot_size(self.capacity) + sum_of(self.lenghts@.take(nth as int)),

//@ fn brec/src/storage/slot/mod.rs Slot::is_empty
:props C11 C09
:ensures
    r is Ok <==> nth < self.lenghts@.len(),
    r is Ok ==> r->Ok_0 == (self.lenghts@[nth as int] == 0),

//@ fn brec/src/storage/slot/mod.rs Slot::count
:props C11 C09
:requires
    packed(self.lenghts@),
:ensures
    r == fz(self.lenghts@),
:start
    proof { lemma_count_packed(self.lenghts@); }

//@ fn brec/src/storage/slot/mod.rs Slot::is_used
:props C11 C09
:ensures
    r == (idx < self.lenghts@.len() && self.lenghts@[idx as int] > 0),

//@ fn brec/src/storage/slot/mod.rs Slot::offset_of
:props C11 C09
:requires
    slot_wf(self.v()),
:ensures
    idx < fz(self.lenghts@) ==> r is Some,
    r is Some ==> idx <= self.lenghts@.len() && r->0 == sum_of(self.lenghts@.take(idx as int)),

//@ fn brec/src/storage/slot/mod.rs Slot::get_free_slot_offset
:props C11 C10
:requires
    slot_wf(self.v()),
:ensures
    r is Some <==> fz(self.lenghts@) < self.lenghts@.len(),
    r is Some ==> r->0 == slot_size(self.capacity) + sum_of(self.lenghts@),
:start
    proof { lemma_sum_zeros(self.lenghts@, fz(self.lenghts@)); }

//@ fn brec/src/storage/slot/mod.rs Slot::get_free_slot_index
:props C11 C10 C18
:requires
    packed(self.lenghts@),
:ensures
    r is Some <==> fz(self.lenghts@) < self.lenghts@.len(),
    r is Some ==> r->0 == fz(self.lenghts@),

//@ fn brec/src/storage/slot/mod.rs Slot::expand
:props C11 C18
:requires
    slot_wf(self.v()),
:ensures
    r.0 is Some <==> fz(self.lenghts@) < self.lenghts@.len(),
    r.1 is Some <==> fz(self.lenghts@) < self.lenghts@.len(),
    r.0 is Some ==> r.0->0 == slot_size(self.capacity) + sum_of(self.lenghts@),
    r.1 is Some ==> r.1->0 == fz(self.lenghts@),
    r.2 == self.crc,

//@ fn brec/src/storage/slot/mod.rs Slot::overwrite_crc
:props C11 C10
:ensures
    final(self).lenghts == old(self).lenghts, final(self).capacity == old(self).capacity,
    slot_crc_ok(final(self).v()),

//@ fn brec/src/storage/slot/mod.rs Slot::insert
:props C11 C10
:requires
    old(self).lenghts@.len() == old(self).capacity,
:ensures
    r is Ok <==> fz(old(self).lenghts@) < old(self).lenghts@.len(),
    r is Ok ==> final(self).lenghts@ == old(self).lenghts@.update(fz(old(self).lenghts@), length),
    r is Ok ==> final(self).capacity == old(self).capacity,
    r is Ok ==> slot_crc_ok(final(self).v()),
    r is Err ==> *final(self) == *old(self),

//@ fn brec/src/storage/slot/mod.rs Default@Slot::default
:props C11 C10
:ensures
    r.capacity == 500,
    r.lenghts@.len() == 500,
    forall|i: int| 0 <= i < 500 ==> r.lenghts@[i] == 0,
    slot_crc_ok(r.v()),

//@ fn brec/src/storage/slot/read.rs ReadFrom@Slot::read
:props C11
:ensures
    sio::same_source(old(buf), final(buf)),
    r is Ok ==> slot_ok(old(buf).rest()) && r->Ok_0.v() == slot_of(old(buf).rest()),
    r is Ok ==> sio::advanced(old(buf), final(buf), slot_size(cap_of(old(buf).rest()))),
    r is Err && !old(buf).faulty() ==> !slot_ok(old(buf).rest()),
    r is Err && !old(buf).faulty() && old(buf).rest().len() >= 16 && !slot_sig_ok(old(buf).rest()) ==> r->Err_0 is SignatureDismatch,
    r is Err && !old(buf).faulty() && old(buf).rest().len() >= 16 && slot_sig_ok(old(buf).rest()) && slot_fits(old(buf).rest()) ==> r->Err_0 is CrcDismatch,
:loop 0
    invariant
        sio::same_source(old(buf), buf),
        it0.end == header.capacity, it0.at <= it0.end,
        lenghts@.len() == it0.at,
        old(buf).rest().len() >= 16, slot_sig_ok(old(buf).rest()), header.capacity == cap_of(old(buf).rest()),
        sio::advanced(old(buf), buf, (16 + 8 * it0.at) as nat),
        lenghts@ == lens_of(old(buf).rest(), it0.at as nat),
    ensures
        it0.at == it0.end,
    decreases it0.end - it0.at,

//@ fn brec/src/storage/slot/read.rs TryReadFrom@Slot::try_read
:props C11 C04
:ensures
    sio::same_source(old(buf), final(buf)),   //# C04
    r is Ok && r->Ok_0 is Success ==> slot_ok(old(buf).rest()) && r->Ok_0->Success_0.v() == slot_of(old(buf).rest()),   //# C11
    r is Ok && r->Ok_0 is Success ==> sio::advanced(old(buf), final(buf), slot_size(cap_of(old(buf).rest()))),   //# C04 C11
    r is Ok && r->Ok_0 is NotEnoughData ==> old(buf).rest().len() < 16 || (slot_sig_ok(old(buf).rest()) && old(buf).rest().len() < slot_size(cap_of(old(buf).rest()))),   //# C04 C11
    r is Ok && r->Ok_0 is NotEnoughData && old(buf).rest().len() < 16 ==> r->Ok_0->NotEnoughData_0 == 16 - old(buf).rest().len(),   //# C04
    r is Ok && r->Ok_0 is NotEnoughData && old(buf).rest().len() >= 16 && slot_size(cap_of(old(buf).rest())) <= u64::MAX ==> r->Ok_0->NotEnoughData_0 == slot_size(cap_of(old(buf).rest())) - old(buf).rest().len(),   //# C04
    r is Ok && r->Ok_0 is NotEnoughData ==> sio::advanced(old(buf), final(buf), 0),   //# C04
    r is Err && !old(buf).faulty() ==> !slot_ok(old(buf).rest()) && old(buf).rest().len() >= 16 && (!slot_sig_ok(old(buf).rest()) || slot_fits(old(buf).rest())),   //# C11
    r is Err && !old(buf).faulty() && old(buf).rest().len() >= 16 && !slot_sig_ok(old(buf).rest()) ==> r->Err_0 is SignatureDismatch && sio::advanced(old(buf), final(buf), 0),   //# C04 C11
    r is Err && !old(buf).faulty() && old(buf).rest().len() >= 16 && slot_sig_ok(old(buf).rest()) && slot_fits(old(buf).rest()) ==> r->Err_0 is CrcDismatch,   //# C11
:start
    proof { ax::finite(buf); }
:loop 0
    invariant
        sio::same_source(old(buf), buf),
        slot_fits(old(buf).rest()),
        it0.end == header.capacity, it0.at <= it0.end,
        lenghts@.len() == it0.at,
        old(buf).rest().len() >= 16, slot_sig_ok(old(buf).rest()), header.capacity == cap_of(old(buf).rest()),
        sio::advanced(old(buf), buf, (16 + 8 * it0.at) as nat),
        lenghts@ == lens_of(old(buf).rest(), it0.at as nat),
    ensures
        it0.at == it0.end,
    decreases it0.end - it0.at,

//@ fn brec/src/storage/slot/write.rs get_buffer
:props C11 C10
:rewrite buffer[offset..offset + $n].copy_from_slice($..x) =>> buffer.v_put(offset, offset + $n, $x)
:requires
    slot.lenghts@.len() == slot.capacity, slot_size(slot.capacity) <= u64::MAX, slot_size(slot.capacity) <= usize::MAX,
:ensures
    r@ == slot_bytes(slot.v()),
:before_let buffer
    proof { lemma_flat_len(slot.lenghts@); le64(slot.capacity); assert(slot.lenghts@.take(0) =~= Seq::<u64>::empty()); }
:loop 0
    invariant
        it0.s@ == slot.lenghts@, it0.at <= it0.s@.len(),
        slot.lenghts@.len() == slot.capacity, slot_size(slot.capacity) <= usize::MAX,
        buffer@.len() == slot_size(slot.capacity),
        offset == 16 + 8 * it0.at,
        buffer@.take(offset as int) == STORAGE_SLOT_SIG@ + slot.capacity.le() + flat_le(slot.lenghts@.take(it0.at as int)),
    ensures
        it0.at == it0.s@.len(),
    decreases it0.s@.len() - it0.at,
:loop_end 0
    proof {
        let k = it0.at - 1;
        assert(slot.lenghts@.take(k + 1) =~= slot.lenghts@.take(k).push(slot.lenghts@[k]));
        lemma_flat_add(slot.lenghts@.take(k), slot.lenghts@[k]); lemma_flat_len(slot.lenghts@.take(k)); le64(slot.lenghts@[k]);
        assert(buffer@.take(offset as int) =~= STORAGE_SLOT_SIG@ + slot.capacity.le() + flat_le(slot.lenghts@.take(it0.at as int)));
    }
:tail
    proof { assert(slot.lenghts@.take(slot.lenghts@.len() as int) =~= slot.lenghts@); }

//@ fn brec/src/storage/slot/write.rs WriteTo@Slot::write
:props C11
:impl_extra
    open spec fn writable(&self) -> bool { self.lenghts@.len() == self.capacity && slot_size(self.capacity) <= u64::MAX && slot_size(self.capacity) <= usize::MAX }
:ensures
    r is Ok ==> r->Ok_0 <= slot_size(self.capacity) && sio::wrote(old(buf), final(buf), slot_bytes(self.v()).take(r->Ok_0 as int)),
    r is Err ==> old(buf).faulty() && sio::wrote(old(buf), final(buf), Seq::empty()),
:start
    proof { lemma_slot_round_trip(self.v(), Seq::empty()); }

//@ fn brec/src/storage/slot/write.rs WriteTo@Slot::write_all
:props C11 C10
:ensures
    r is Ok ==> sio::wrote(old(buf), final(buf), slot_bytes(self.v())),
    r is Err ==> old(buf).faulty() && sio::wrote_part(old(buf), final(buf), slot_bytes(self.v())),

//@ fn brec/src/storage/slot/mod.rs SlotIterator::new
:props C11
:ensures
    r.slot == slot, r.next == 0, r.offset == 0,

//@ fn brec/src/storage/slot/mod.rs Iterator@SlotIterator::next
:props C11
:header impl SlotIterator<'_>
:sig_rewrite
    Self::Item =>> RangeInclusive<u64>
:requires
    slot_wf(old(self).slot.v()), old(self).next <= old(self).slot.lenghts@.len(),
    old(self).offset == sum_of(old(self).slot.lenghts@.take(old(self).next as int)),
:ensures
    final(self).slot == old(self).slot,
    final(self).next <= final(self).slot.lenghts@.len(),
    final(self).offset == sum_of(final(self).slot.lenghts@.take(final(self).next as int)),
    r is Some <==> old(self).next < fz(old(self).slot.lenghts@),
    r is Some ==> final(self).next == old(self).next + 1,
    r is Some ==> r->0.a == slot_size(old(self).slot.capacity) + sum_of(old(self).slot.lenghts@.take(old(self).next as int)),
    r is Some ==> r->0.b == r->0.a + old(self).slot.lenghts@[old(self).next as int],
:start
    proof {
        if self.next < self.slot.lenghts@.len() {
            lemma_sum_add(self.slot.lenghts@, self.next as int);
            assert(sum_of(self.slot.lenghts@.take(self.next + 1)) <= sum_of(self.slot.lenghts@));
        }
    }

//@ fn brec/src/storage/slot/anchored.rs AnchoredSlot::new
:props C09 C18
:ensures
    r.inner == inner, r.offset == offset,

//@ fn brec/src/storage/slot/anchored.rs AnchoredSlot::width
:props C09 C11
:requires
    slot_wf(self.inner.v()),
:ensures
    r == sum_of(self.inner.lenghts@),

//@ fn brec/src/storage/slot/anchored.rs AnchoredSlot::get_slot_offset
:props C09 C11
:requires
    slot_wf(self.inner.v()),
:ensures
    r is Some <==> nth < self.inner.lenghts@.len(),
    r is Some ==> r->0 == slot_size(self.inner.capacity) + sum_of(self.inner.lenghts@.take(nth as int)),

//@ fn brec/src/storage/slot/anchored.rs AnchoredSlot::get_free_slot_index
:props C09 C18
:requires
    packed(self.inner.lenghts@),
:ensures
    r is Some <==> fz(self.inner.lenghts@) < self.inner.lenghts@.len(),
    r is Some ==> r->0 == fz(self.inner.lenghts@),

//@ fn brec/src/storage/slot/anchored.rs AnchoredSlot::get_free_slot_offset
:props C11
:requires
    slot_wf(self.inner.v()),
:ensures
    r is Some <==> fz(self.inner.lenghts@) < self.inner.lenghts@.len(),
    r is Some ==> r->0 == slot_size(self.inner.capacity) + sum_of(self.inner.lenghts@),

//@ fn brec/src/storage/slot/anchored.rs AnchoredSlot::is_empty
:props C09 C11
:ensures
    r is Ok <==> nth < self.inner.lenghts@.len(),
    r is Ok ==> r->Ok_0 == (self.inner.lenghts@[nth as int] == 0),

//@ fn brec/src/storage/slot/anchored.rs AnchoredSlot::insert
:props C11
:requires
    old(self).inner.lenghts@.len() == old(self).inner.capacity,
:ensures
    final(self).offset == old(self).offset,
    r is Ok <==> fz(old(self).inner.lenghts@) < old(self).inner.lenghts@.len(),
    r is Ok ==> final(self).inner.lenghts@ == old(self).inner.lenghts@.update(fz(old(self).inner.lenghts@), length),
    r is Ok ==> final(self).inner.capacity == old(self).inner.capacity,
    r is Ok ==> slot_crc_ok(final(self).inner.v()),

//@ fn brec/src/storage/slot/anchored.rs AnchoredSlot::overwrite_crc
:props C11
:ensures
    final(self).offset == old(self).offset,
    final(self).inner.lenghts == old(self).inner.lenghts, final(self).inner.capacity == old(self).inner.capacity,
    slot_crc_ok(final(self).inner.v()),

//@ fn brec/src/storage/slot/anchored.rs Size@AnchoredSlot::size
:props C09 C11
:impl_extra
    open spec fn size_req(&self) -> bool { slot_size(self.inner.capacity) <= u64::MAX }
:ensures
    r == slot_size(self.inner.capacity),

//@ fn brec/src/storage/slot/anchored.rs CrcU32@AnchoredSlot::crc
:props C11
:ensures
    r@ == slot_crc(self.inner.capacity, self.inner.lenghts@).le(),

//@ item brec/src/storage/locator.rs struct FreeSlotLocator
//@ include span_spec.rs

//@ fn brec/src/storage/locator.rs FreeSlotLocator::next
:props C10
:requires
    all_wf(slots@), old(self).next + 1 >= slots@.len(), at_free(*old(self), slots@), span(slots@, slots@.len() as int) <= u64::MAX,
:ensures
    at_free(*final(self), slots@),
    r is None ==> final(self).next == slots@.len(),
    r is Some ==> final(self).next == slots@.len() - 1 && !full(slots@[final(self).next as int]),
    r is Some ==> r->0 == span(slots@, slots@.len() as int),
:start
    proof { assert(slots.len() == slots@.len()); if self.next < slots@.len() { lemma_span_mono(slots@, self.next + 1, slots@.len() as int); } }

//@ fn brec/src/storage/locator.rs FreeSlotLocator::insert
:props C10
:requires
    forall|i: int| 0 <= i < old(slots)@.len() ==> (#[trigger] old(slots)@[i]).lenghts@.len() == old(slots)@[i].capacity,
:ensures
    *final(self) == *old(self),
    final(slots)@.len() == old(slots)@.len(),
    forall|i: int| 0 <= i < old(slots)@.len() && i != old(self).next ==> final(slots)@[i] == old(slots)@[i],
    r is Ok <==> old(self).next < old(slots)@.len() && !full(old(slots)@[old(self).next as int]),
    r is Ok ==> final(slots)@[old(self).next as int].capacity == old(slots)@[old(self).next as int].capacity,
    r is Ok ==> final(slots)@[old(self).next as int].lenghts@ == old(slots)@[old(self).next as int].lenghts@.update(fz(old(slots)@[old(self).next as int].lenghts@), length),
    r is Ok ==> slot_crc_ok(final(slots)@[old(self).next as int].v()),
    r is Err ==> final(slots)@ == old(slots)@,

//@ fn brec/src/storage/locator.rs FreeSlotLocator::current
:props C09 C10
:ensures
    r == (self.next, self.slot_offset),

//@ fn brec/src/storage/locator.rs FreeSlotLocator::setup
:props C09 C10 C18
:sig_rewrite
    I: Iterator =>> I: VNext
:requires
    forall|i: int| 0 <= i < slots.left().len() ==> slot_wf((#[trigger] slots.left()[i]).v()),
    span(slots.left().map_values(|x: &Slot| *x), slots.left().len() as int) <= u64::MAX, slots.left().len() <= usize::MAX,
:ensures
    at_free(*final(self), slots.left().map_values(|x: &Slot| *x)),
    final(self).next < slots.left().len() ==> !full(*slots.left()[final(self).next as int]),
:start
    let ghost all = slots.left();
    let ghost sl = slots.left().map_values(|x: &Slot| *x);
:loop 0
    invariant_except_break
        it0.left() == all.skip(self.next as int),
    invariant
        self.next <= all.len(), sl == all.map_values(|x: &Slot| *x),
        at_free(*self, sl), all.len() <= usize::MAX,
        forall|i: int| 0 <= i < all.len() ==> slot_wf((#[trigger] all[i]).v()),
        span(sl, all.len() as int) <= u64::MAX,
    ensures
        at_free(*self, sl),
        self.next < all.len() ==> !full(*all[self.next as int]),
    decreases all.len() - self.next,
:loop_start 0
    proof {
        if self.next < all.len() {
            assert(it0.left()[0] == all[self.next as int]); assert(sl[self.next as int] == *all[self.next as int]);
            lemma_span_mono(sl, self.next + 1, all.len() as int);
        }
    }
