//@ include prelude.rs
//@ include vecsink.rs
//@ raw
broadcast use ax::io;
//@ include iters.rs
//@ item brec/src/traits/write/slices.rs enum SliceSlot
//@ item brec/src/traits/write/slices.rs struct IoSlices
//@ include slices_spec.rs

//@ fn brec/src/traits/write/slices.rs IoSlices::add_slice
:props C12
:ensures
    final(self).all() == old(self).all() + buf@,
:tail
    proof { lemma_all_push(old(self).slots@, SliceSlot::Slice(buf)); }

//@ fn brec/src/traits/write/slices.rs IoSlices::add_buffered
:props C12
:ensures
    final(self).all() == old(self).all() + buf@,
:tail
    proof { lemma_all_push(old(self).slots@, SliceSlot::Buf(buf)); }

//@ fn brec/src/traits/write/slices.rs IoSlices::append
:props C12
:ensures
    final(self).all() == old(self).all() + another.all(),
:tail
    proof { lemma_all_add(old(self).slots@, another0.slots@); }
:start
    let ghost another0 = another;

//@ fn brec/src/traits/write/slices.rs IoSlices::get
:props C12
:unfold
:ensures
    sio::joined(r@) == self.all(),
    r@.len() == self.slots@.len(),
:loop 0
    invariant
        it0.s@ == self.slots@, it0.at <= it0.s@.len(),
        acc0@.len() == it0.at,
        forall|i: int| 0 <= i < it0.at ==> (#[trigger] acc0@[i]).s@ == slot_of_list(self.slots@[i]),
    ensures
        it0.at == it0.s@.len(),
    decreases it0.s@.len() - it0.at,
:after_loop 0
    proof { lemma_same(self.slots@, acc0@); }

//@ fn brec/src/traits/write/slices.rs IoSlices::write_vectored_all
:props C12
:unfold
:rewrite Vec<_> =>> Vec<sio::IoSlice<'_>>
:rewrite &slice[$..x..] =>> slice.v_from($x)
:requires
    self.all().len() <= usize::MAX,
:ensures
    r is Ok ==> sio::wrote(old(buf), final(buf), self.all()),
    r is Err ==> sio::wrote_part(old(buf), final(buf), self.all()),
    r is Err ==> old(buf).faulty() || r->Err_0.kind_spec() is WriteZero,
:before_loop 0
    proof { sio::lemma_wrote_none(old(buf)); }
:loop 0
    invariant
        sio::joined(source@) == self.all(), self.all().len() <= usize::MAX,
        written <= self.all().len(),
        sio::wrote(old(buf), buf, self.all().take(written as int)),
    ensures
        written == self.all().len(),
    decreases self.all().len() - written,
:loop 1
    invariant
        it1.s@ == source@, it1.at <= it1.s@.len(),
        sio::joined(source@).len() <= usize::MAX,
        offset == ends(source@, it1.at as int),
        written <= sio::joined(source@).len(),
        sio::joined(acc0@) == from_of(source@.take(it1.at as int), written as int),
        acc0@.len() == 0 ==> written >= offset,
    ensures
        it1.at == it1.s@.len(),
    decreases it1.s@.len() - it1.at,
:loop_start 1
    let ghost k = it1.at as int;
    let ghost a0 = acc0@;
    proof { if k < source@.len() { lemma_joined_take(source@, k); lemma_joined_mono(source@, k + 1); } }
:loop_end 1
    proof { lemma_step(source@, k, written as int, a0, acc0@); }
:after_let in_work
    proof { assert(source@.take(source@.len() as int) =~= source@); }
    let ghost b0 = *buf;
:after_let just_written
    proof {
        let (all, w, n) = (self.all(), written as int, just_written as int);
        sio::lemma_wrote(old(buf), &b0, buf, all.take(w), all.skip(w).take(n));
        assert(all.take(w) + all.skip(w).take(n) =~= all.take(w + n));
    }
:tail
    proof { assert(self.all().take(self.all().len() as int) =~= self.all()); }
