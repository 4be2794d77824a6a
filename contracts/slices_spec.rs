pub open spec fn slot_of_list(s: SliceSlot) -> Seq<u8> {
    match s { SliceSlot::Slice(b) => b@, SliceSlot::Buf(v) => v@ }
}
pub open spec fn all_of(v: Seq<SliceSlot>) -> Seq<u8>
    decreases v.len()
{
    if v.len() == 0 { Seq::empty() } else { all_of(v.drop_last()) + slot_of_list(v.last()) }
}
impl<'a> IoSlices<'a> {
    /// the bytes of the list
    pub open spec fn all(&self) -> Seq<u8> { all_of(self.slots@) }
}
// #[derive(Default)]
impl<'a> Default for IoSlices<'a> {
    fn default() -> (r: Self) ensures r.slots@.len() == 0 { IoSlices { slots: Vec::new() } }
}
pub proof fn lemma_all_push(v: Seq<SliceSlot>, x: SliceSlot)
    ensures all_of(v.push(x)) == all_of(v) + slot_of_list(x)
{ assert(v.push(x).drop_last() =~= v); }
pub proof fn lemma_all_add(v: Seq<SliceSlot>, w: Seq<SliceSlot>)
    ensures all_of(v + w) == all_of(v) + all_of(w)
    decreases w.len()
{
    if w.len() == 0 { assert(v + w =~= v); }
    else {
        assert((v + w).drop_last() =~= v + w.drop_last());
        lemma_all_add(v, w.drop_last());
        assert(all_of(v + w) =~= all_of(v) + all_of(w));
    }
}
pub proof fn lemma_same(v: Seq<SliceSlot>, w: Seq<sio::IoSlice>)
    requires v.len() == w.len(), forall|i: int| 0 <= i < v.len() ==> (#[trigger] w[i]).s@ == slot_of_list(v[i]),
    ensures all_of(v) == sio::joined(w)
    decreases v.len()
{
    if v.len() > 0 { lemma_same(v.drop_last(), w.drop_last()); }
}
pub open spec fn ends(v: Seq<sio::IoSlice>, k: int) -> int { sio::joined(v.take(k)).len() as int }
/// what is left of the joined bytes behind n
pub open spec fn from_of(v: Seq<sio::IoSlice>, n: int) -> Seq<u8> {
    let j = sio::joined(v);
    if n <= j.len() { j.skip(n) } else { Seq::empty() }
}
pub proof fn lemma_joined_take(v: Seq<sio::IoSlice>, k: int)
    requires 0 <= k < v.len(),
    ensures sio::joined(v.take(k + 1)) == sio::joined(v.take(k)) + v[k].s@,
{ assert(v.take(k + 1).drop_last() =~= v.take(k)); }
pub proof fn lemma_joined_mono(v: Seq<sio::IoSlice>, k: int)
    requires 0 <= k <= v.len(),
    ensures sio::joined(v.take(k)).len() <= sio::joined(v).len(),
    decreases v.len() - k
{
    if k == v.len() { assert(v.take(k) =~= v); } else { lemma_joined_take(v, k); lemma_joined_mono(v, k + 1); }
}
pub proof fn lemma_joined_push(v: Seq<sio::IoSlice>, x: sio::IoSlice)
    ensures sio::joined(v.push(x)) == sio::joined(v) + x.s@
{ assert(v.push(x).drop_last() =~= v); }
/// one slice of the list looked at: nothing of it, all of it, or its end is still to be written
pub proof fn lemma_step(v: Seq<sio::IoSlice>, k: int, w: int, a0: Seq<sio::IoSlice>, a1: Seq<sio::IoSlice>)
    requires
        0 <= k < v.len(), 0 <= w,
        sio::joined(a0) == from_of(v.take(k), w),
        ({
            let (start, end) = (ends(v, k), ends(v, k) + v[k].s@.len());
            if w >= end { a1 == a0 }
            else if w <= start { a1 == a0.push(a1.last()) && a1.len() > 0 && a1.last().s@ == v[k].s@ }
            else { a1 == a0.push(a1.last()) && a1.len() > 0 && a1.last().s@ == v[k].s@.skip(w - start) }
        }),
    ensures
        sio::joined(a1) == from_of(v.take(k + 1), w),
{
    lemma_joined_take(v, k);
    let j = sio::joined(v.take(k));
    if w < ends(v, k) + v[k].s@.len() { lemma_joined_push(a0, a1.last()); }
    assert(sio::joined(a1) =~= from_of(v.take(k + 1), w));
}
