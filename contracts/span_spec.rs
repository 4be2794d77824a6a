/// bytes taken by the first k slots and their packets
pub open spec fn span(s: Seq<Slot>, k: int) -> nat
    decreases k
{
    if k <= 0 { 0 } else { span(s, k - 1) + slot_size(s[k - 1].capacity) + sum_of(s[k - 1].lenghts@) }
}
pub open spec fn full(s: Slot) -> bool { fz(s.lenghts@) >= s.lenghts@.len() }
pub open spec fn all_wf(s: Seq<Slot>) -> bool { forall|i: int| 0 <= i < s.len() ==> slot_wf((#[trigger] s[i]).v()) }
/// every slot but the last is full
pub open spec fn tight(s: Seq<Slot>) -> bool { forall|i: int| 0 <= i < s.len() - 1 ==> full(#[trigger] s[i]) }
/// the locator is at the first slot that is not full, or behind the last one
pub open spec fn at_free(l: FreeSlotLocator, s: Seq<Slot>) -> bool {
    &&& l.next <= s.len()
    &&& l.slot_offset == span(s, l.next as int)
    &&& forall|i: int| 0 <= i < l.next ==> full(#[trigger] s[i])
}
pub proof fn lemma_span_mono(s: Seq<Slot>, a: int, b: int)
    requires 0 <= a <= b <= s.len(),
    ensures span(s, a) <= span(s, b),
    decreases b - a
{ if a < b { lemma_span_mono(s, a, b - 1); } }
pub proof fn lemma_span_same(s: Seq<Slot>, t: Seq<Slot>, k: int)
    requires 0 <= k <= s.len(), k <= t.len(), forall|i: int| 0 <= i < k ==> s[i] == t[i],
    ensures span(s, k) == span(t, k),
    decreases k
{ if k > 0 { lemma_span_same(s, t, k - 1); } }

pub proof fn lemma_iter_all(v: &Vec<Slot>)
    ensures forall|it: VIter<Slot>| it.s@ == v@ && it.at == 0 ==> (#[trigger] it.left()).len() == v@.len() && it.left().map_values(|x: &Slot| *x) == v@ && forall|i: int| 0 <= i < v@.len() ==> *(#[trigger] it.left()[i]) == v@[i],
{
    assert forall|it: VIter<Slot>| it.s@ == v@ && it.at == 0 implies (#[trigger] it.left()).len() == v@.len() && it.left().map_values(|x: &Slot| *x) == v@ && forall|i: int| 0 <= i < v@.len() ==> *(#[trigger] it.left()[i]) == v@[i] by {
        assert(it.left().map_values(|x: &Slot| *x) =~= v@);
    }
}
// #[derive(Default)]
impl Default for FreeSlotLocator {
    fn default() -> (r: FreeSlotLocator) ensures r.next == 0, r.slot_offset == 0 { FreeSlotLocator { next: 0, slot_offset: 0 } }
}
