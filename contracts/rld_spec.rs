/// the slots of the reader are the first of t
pub open spec fn synced(v: Seq<AnchoredSlot>, t: Seq<Slot>) -> bool {
    &&& v.len() <= t.len() && anchored(v)
    &&& forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).inner.v() == t[i].v()
}
/// t is in d what the slots s have become after more inserts. (Two different tables of a slot have different CRCs: assumed.)
pub open spec fn later(d: Seq<u8>, s: Seq<Slot>, t: Seq<Slot>) -> bool {
    let k = s.len() - 1;
    &&& clean(d, t) && d.len() == span(t, t.len() as int) && all_wf(t) && uniform(t) && d.len() <= u64::MAX && t.len() <= u32::MAX
    &&& s.len() <= t.len()
    &&& forall|i: int| 0 <= i < k ==> (#[trigger] s[i]).v() == t[i].v()
    &&& s.len() > 0 ==> {
        &&& s[k].capacity == 500
        &&& fz(s[k].lenghts@) <= fz(t[k].lenghts@)
        &&& forall|j: int| 0 <= j < fz(s[k].lenghts@) ==> s[k].lenghts@[j] == t[k].lenghts@[j]
        &&& s[k].crc@ == t[k].crc@ ==> s[k].lenghts@ == t[k].lenghts@
        &&& full(s[k]) ==> s[k].v() == t[k].v()
    }
}
pub open spec fn has_later(d: Seq<u8>, s: Seq<Slot>) -> bool { exists|t: Seq<Slot>| later(d, s, t) }
/// v are all slots there are in d
pub open spec fn caught_up(d: Seq<u8>, v: Seq<Slot>) -> bool {
    clean(d, v) && d.len() == span(v, v.len() as int) && uniform(v)
}
pub mod rld_lemmas {
use super::*;
broadcast use slotax::slots;
pub proof fn lemma_span_v(s: Seq<Slot>, t: Seq<Slot>, k: int)
    requires 0 <= k <= s.len(), k <= t.len(), forall|i: int| 0 <= i < k ==> (#[trigger] s[i]).v() == t[i].v(),
    ensures span(s, k) == span(t, k), used(s, k) == used(t, k),
    decreases k
{ if k > 0 { lemma_span_v(s, t, k - 1); assert(s[k - 1].v() == t[k - 1].v()); assert(s[k - 1].v().lens == t[k - 1].v().lens); assert(s[k - 1].v().cap == t[k - 1].v().cap); } }

pub open spec fn facts(d: Seq<u8>, s: Seq<Slot>, t: Seq<Slot>) -> bool {
    &&& forall|i: int| 0 <= i < t.len() ==> #[trigger] there(d, t, i)
    &&& sio::tail(d, span(t, t.len() as int)).len() == 0 && span(t, t.len() as int) == d.len() && d.len() <= u64::MAX && t.len() <= u32::MAX && s.len() <= t.len() && span(t, 0) == 0
    &&& s.len() > 0 ==> span(s, s.len() - 1) == span(t, s.len() - 1) && (full(s.last()) ==> span(s, s.len() as int) == span(t, s.len() as int)) && s.last().lenghts@.len() == 500
        && span(s, s.len() as int) == span(s, s.len() - 1) + slot_size(s.last().capacity) + sum_of(s.last().lenghts@)
    &&& s.len() > 0 && !full(s.last()) ==> (s.last().crc@ == t[s.len() - 1].crc@ ==> s.len() == t.len())
    &&& s.len() > 0 ==> total(s) == 500 * (s.len() - 1) + fz(s.last().lenghts@) && 0 <= fz(s.last().lenghts@) <= 500 && fz(s.last().lenghts@) <= fz(t[s.len() - 1].lenghts@)
    &&& s.len() == 0 ==> total(s) == 0
}
pub open spec fn there(d: Seq<u8>, t: Seq<Slot>, i: int) -> bool {
    &&& slot_ok(sio::tail(d, span(t, i))) && slot_of(sio::tail(d, span(t, i))) == t[i].v() && sio::tail(d, span(t, i)).len() >= 16
    &&& slot_sig_ok(sio::tail(d, span(t, i))) && slot_fits(sio::tail(d, span(t, i))) && sio::tail(d, span(t, i)).len() >= slot_size(cap_of(sio::tail(d, span(t, i)))) && cap_of(sio::tail(d, span(t, i))) == 500
    &&& slot_wf(t[i].v()) && t[i].capacity == 500 && t[i].lenghts@.len() == 500
    &&& span(t, i + 1) == span(t, i) + slot_size(500) + sum_of(t[i].lenghts@) && span(t, i + 1) <= d.len()
    &&& i < t.len() - 1 ==> full(t[i])
}
pub proof fn lemma_later(d: Seq<u8>, s: Seq<Slot>, t: Seq<Slot>)
    requires later(d, s, t), all_wf(s),
    ensures facts(d, s, t),
{
    assert forall|i: int| 0 <= i < t.len() implies #[trigger] there(d, t, i) by {
        assert(slot_at(d, t, i)); assert(slot_wf(t[i].v())); assert(t[i].capacity == 500);
        lemma_span_mono(t, i + 1, t.len() as int);
        assert(sio::tail(d, span(t, i)) == d.skip(span(t, i) as int));
    }
    if s.len() > 0 {
        let k = s.len() - 1;
        lemma_span_v(s, t, k);
        assert(slot_wf(s[k].v()) && slot_wf(t[k].v()) && t[k].capacity == 500);
        if full(s[k]) { lemma_span_v(s, t, k + 1); }
        lemma_uniform(t, k);
        assert(used(s, k) == 500 * k);
        if s[k].crc@ == t[k].crc@ { assert(full(t[k]) ==> full(s[k])); }
    }
}
pub proof fn lemma_push(v: Seq<AnchoredSlot>, t: Seq<Slot>, a: AnchoredSlot)
    requires synced(v, t), v.len() < t.len(), a.inner.v() == t[v.len() as int].v(), a.offset == span(t, v.len() as int),
    ensures synced(v.push(a), t),
{
    lemma_slots_push();
    assert forall|i: int| 0 <= i < v.len() implies (#[trigger] inners(v)[i]).v() == t[i].v() by { assert(v[i].inner.v() == t[i].v()); }
    lemma_span_v(inners(v), t, v.len() as int);
    assert(inners(v.push(a)) == inners(v).push(a.inner));
}
pub proof fn lemma_refresh(d: Seq<u8>, v: Seq<AnchoredSlot>, t: Seq<Slot>, a: AnchoredSlot)
    requires anchored(v), later(d, inners(v), t), v.len() > 0, a.inner.v() == t[v.len() - 1].v(), a.offset == v.last().offset,
    ensures synced(v.update(v.len() - 1, a), t),
{
    let w = v.update(v.len() - 1, a);
    assert forall|i: int| 0 <= i < w.len() implies (#[trigger] w[i]).inner.v() == t[i].v() by { if i < w.len() - 1 { assert(inners(v)[i].v() == t[i].v()); } }
    assert forall|i: int| 0 <= i < w.len() implies (#[trigger] w[i]).offset == span(inners(w), i) by { assert(v[i].offset == span(inners(v), i)); lemma_span_same(inners(v), inners(w), i); }
}
pub proof fn lemma_same(d: Seq<u8>, v: Seq<AnchoredSlot>, t: Seq<Slot>)
    requires anchored(v), later(d, inners(v), t), v.len() == 0 || full(inners(v).last()) || inners(v).last().v() == t[v.len() - 1].v(),
    ensures synced(v, t),
{
    assert forall|i: int| 0 <= i < v.len() implies (#[trigger] v[i]).inner.v() == t[i].v() by { assert(inners(v)[i].v() == t[i].v()); }
}
pub proof fn lemma_caught(d: Seq<u8>, s: Seq<Slot>, v: Seq<AnchoredSlot>, t: Seq<Slot>)
    requires later(d, s, t), synced(v, t), v.len() == t.len(),
    ensures
        caught_up(d, inners(v)), all_wf(inners(v)), span(inners(v), v.len() as int) == d.len(),
        v.len() > 0 ==> total(inners(v)) == 500 * (v.len() - 1) + fz(v.last().inner.lenghts@) && v.last().inner.lenghts@.len() == 500 && packed(v.last().inner.lenghts@) && 0 <= fz(v.last().inner.lenghts@) <= 500,
        v.len() == 0 ==> total(inners(v)) == 0,
{
    let w = inners(v);
    assert forall|i: int| 0 <= i < w.len() implies (#[trigger] w[i]).v() == t[i].v() by { assert(v[i].inner.v() == t[i].v()); }
    lemma_span_v(w, t, w.len() as int);
    assert forall|i: int| 0 <= i < w.len() implies #[trigger] slot_at(d, w, i) by { lemma_span_v(w, t, i); assert(slot_at(d, t, i)); assert(w[i].v() == t[i].v()); }
    assert forall|i: int| 0 <= i < w.len() implies slot_wf((#[trigger] w[i]).v()) && w[i].capacity == 500 && (i < w.len() - 1 ==> full(w[i])) by { assert(slot_wf(t[i].v()) && t[i].capacity == 500); if i < w.len() - 1 { assert(full(t[i])); } assert(w[i].v() == t[i].v()); }
    if v.len() > 0 { lemma_uniform(w, v.len() - 1); }
}
pub open spec fn steps(d: Seq<u8>, sl: Seq<AnchoredSlot>, t: Seq<Slot>) -> bool {
    let s = inners(sl);
    &&& forall|v: Seq<AnchoredSlot>, a: AnchoredSlot| synced(v, t) && v.len() < t.len() && a.inner.v() == t[v.len() as int].v() && a.offset == span(t, v.len() as int) ==> synced(#[trigger] v.push(a), t)
    &&& forall|k: int, a: AnchoredSlot| k == sl.len() - 1 && k >= 0 && a.inner.v() == t[k].v() && a.offset == sl[k].offset ==> synced(#[trigger] sl.update(k, a), t)
    &&& sl.len() == 0 || full(s.last()) || s.last().v() == t[s.len() - 1].v() ==> synced(sl, t)
    &&& sl.len() > 0 && !full(s.last()) && s.last().crc@ == t[s.len() - 1].crc@ ==> synced(sl, t) && sl.len() == t.len()
    &&& forall|v: Seq<AnchoredSlot>| #[trigger] synced(v, t) && v.len() == t.len() ==> caught(d, v)
}
pub open spec fn caught(d: Seq<u8>, v: Seq<AnchoredSlot>) -> bool {
    &&& caught_up(d, inners(v)) && all_wf(inners(v)) && span(inners(v), v.len() as int) == d.len()
    &&& v.len() > 0 ==> total(inners(v)) == 500 * (v.len() - 1) + fz(v.last().inner.lenghts@) && v.last().inner.lenghts@.len() == 500 && packed(v.last().inner.lenghts@) && 0 <= fz(v.last().inner.lenghts@) <= 500
    &&& v.len() == 0 ==> total(inners(v)) == 0
}
pub proof fn lemma_reload(d: Seq<u8>, sl: Seq<AnchoredSlot>, t: Seq<Slot>)
    requires later(d, inners(sl), t), anchored(sl), all_wf(inners(sl)),
    ensures steps(d, sl, t),
{
    let s = inners(sl);
    assert forall|v: Seq<AnchoredSlot>, a: AnchoredSlot| synced(v, t) && v.len() < t.len() && a.inner.v() == t[v.len() as int].v() && a.offset == span(t, v.len() as int) implies synced(#[trigger] v.push(a), t) by { lemma_push(v, t, a); }
    assert forall|k: int, a: AnchoredSlot| k == sl.len() - 1 && k >= 0 && a.inner.v() == t[k].v() && a.offset == sl[k].offset implies synced(#[trigger] sl.update(k, a), t) by { lemma_refresh(d, sl, t, a); }
    if sl.len() > 0 && !full(s.last()) && s.last().crc@ == t[s.len() - 1].crc@ {
        lemma_later(d, s, t);
        let k = s.len() - 1;
        assert(slot_wf(s[k].v()) && slot_wf(t[k].v()) && t[k].capacity == 500);
        assert(s[k].v() == t[k].v());
        if t.len() > s.len() { assert(full(t[k])); assert(full(s[k])); }
    }
    if sl.len() == 0 || full(s.last()) || s.last().v() == t[s.len() - 1].v() { lemma_same(d, sl, t); }
    assert forall|v: Seq<AnchoredSlot>| #[trigger] synced(v, t) && v.len() == t.len() implies caught(d, v) by { lemma_caught(d, s, v, t); }
}
/// one insert, as the contract of WriterDef::insert has it
pub open spec fn step(d: Seq<u8>, s: Seq<Slot>, b: Seq<u8>, e: Seq<u8>, t: Seq<Slot>) -> bool {
    &&& entered(s, t, b.len()) && e == grown(d, s, t, b) && b.len() > 0
    &&& span(s, s.len() as int) + 4020 + b.len() <= u64::MAX
}
/// the inserts of log, one after the other
pub open spec fn grew(d: Seq<u8>, s: Seq<Slot>, log: Seq<Seq<u8>>, e: Seq<u8>, t: Seq<Slot>) -> bool
    decreases log.len()
{
    if log.len() == 0 { e == d && t == s } else {
        exists|m: (Seq<u8>, Seq<Slot>)| grew(d, s, log.drop_last(), m.0, m.1) && #[trigger] step(m.0, m.1, log.last(), e, t)
    }
}
/// a storage as it is between inserts
pub open spec fn settled(d: Seq<u8>, s: Seq<Slot>) -> bool { clean(d, s) && d.len() == span(s, s.len() as int) && all_wf(s) && uniform(s) }
pub open spec fn became(s: Seq<Slot>, t: Seq<Slot>) -> bool {
    let k = s.len() - 1;
    &&& s.len() <= t.len()
    &&& forall|i: int| 0 <= i < k ==> (#[trigger] t[i]) == s[i]
    &&& s.len() > 0 ==> {
        &&& fz(s[k].lenghts@) <= fz(t[k].lenghts@)
        &&& forall|j: int| 0 <= j < fz(s[k].lenghts@) ==> s[k].lenghts@[j] == t[k].lenghts@[j]
        &&& full(s[k]) ==> t[k] == s[k]
    }
}
proof fn lemma_became(d: Seq<u8>, s: Seq<Slot>, b: Seq<u8>, e: Seq<u8>, t: Seq<Slot>)
    requires settled(d, s), step(d, s, b, e, t),
    ensures settled(e, t), became(s, t), total(t) == total(s) + 1, all_packs(e, t) == all_packs(d, s).push(b),
{
    hide(slot_ok); hide(slot_of); hide(slot_bytes); hide(packs); hide(sum_of);
    let k = next_slot(s);
    lemma_insert(d, s, t, b);
    lemma_entered(s, b.len());
    lemma_no_lens();
    assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]).capacity == 500 by { if i < s.len() { assert(s[i].capacity == 500); } }
    lemma_where(d, s, 0); lemma_where(e, t, 0);
    if k < s.len() { assert(slot_wf(s[k].v())); lemma_enter(s[k].lenghts@, b.len() as u64); }
    else if s.len() > 0 { assert(t[s.len() - 1] == s[s.len() - 1]); }
    assert(all_packs(e, t).len() == all_packs(d, s).len() + 1);
}
proof fn lemma_became_two(s: Seq<Slot>, t: Seq<Slot>, u: Seq<Slot>)
    requires became(s, t), became(t, u),
    ensures became(s, u),
{
    let k = s.len() - 1;
    if s.len() > 0 && k < t.len() - 1 { assert(u[k] == t[k]); }
    assert forall|i: int| 0 <= i < k implies (#[trigger] u[i]) == s[i] by { assert(t[i] == s[i]); assert(u[i] == t[i]); }
}
/// C18: any inserts between two looks leave the storage as reload expects it, with so many packets more
pub proof fn theorem_reload(d: Seq<u8>, s: Seq<Slot>, log: Seq<Seq<u8>>, e: Seq<u8>, t: Seq<Slot>)
    requires settled(d, s), grew(d, s, log, e, t),
    ensures settled(e, t), became(s, t), total(t) == total(s) + log.len(), all_packs(e, t) == all_packs(d, s) + log,
    decreases log.len()
{
    if log.len() == 0 {
        assert(all_packs(d, s) + log =~= all_packs(d, s));
    } else {
        let m = choose|m: (Seq<u8>, Seq<Slot>)| grew(d, s, log.drop_last(), m.0, m.1) && #[trigger] step(m.0, m.1, log.last(), e, t);
        theorem_reload(d, s, log.drop_last(), m.0, m.1);
        lemma_became(m.0, m.1, log.last(), e, t);
        lemma_became_two(s, m.1, t);
        assert((all_packs(d, s) + log.drop_last()).push(log.last()) =~= all_packs(d, s) + log);
    }
}
/// ... for a reader that has seen it before them. What reload then finds (f) is what a fresh reader finds (g)
pub proof fn theorem_look(d: Seq<u8>, s: Seq<Slot>, r: Seq<Slot>, log: Seq<Seq<u8>>, e: Seq<u8>, t: Seq<Slot>)
    requires
        settled(d, s), grew(d, s, log, e, t), caught_up(d, r), all_wf(r), e.len() <= u64::MAX, t.len() <= u32::MAX,
        s.len() > 0 && s.last().crc@ == t[s.len() - 1].crc@ ==> s.last().lenghts@ == t[s.len() - 1].lenghts@,
    ensures
        has_later(e, r),
        forall|f: Seq<Slot>| #[trigger] caught_up(e, f) ==> total(f) - total(r) == log.len() && all_packs(e, f) == all_packs(d, r) + log,
        forall|f: Seq<Slot>, g: Seq<Slot>| #![trigger caught_up(e, f), chain(e, g)] caught_up(e, f) && chain(e, g) && stops(e, span(g, g.len() as int))
            ==> f.len() == g.len() && all_packs(e, f) == all_packs(e, g) && forall|i: int| 0 <= i < f.len() ==> f[i].v() == #[trigger] g[i].v(),
{
    hide(slot_ok); hide(slot_of); hide(slot_bytes); hide(packs);
    theorem_reload(d, s, log, e, t);
    lemma_whole_same(d, s, r);
    assert(total(r) == total(s)) by { lemma_span_v(s, r, s.len() as int); }
    assert(later(e, r, t)) by {
        let k = r.len() - 1;
        assert forall|i: int| 0 <= i < k implies (#[trigger] r[i]).v() == t[i].v() by { assert(s[i].v() == r[i].v()); assert(t[i] == s[i]); }
        if r.len() > 0 { assert(s[k].v() == r[k].v()); assert(s[k].v().lens == r[k].v().lens && s[k].v().cap == r[k].v().cap && s[k].v().crc == r[k].v().crc); }
    }
    assert forall|f: Seq<Slot>| #[trigger] caught_up(e, f) implies total(f) - total(r) == log.len() && all_packs(e, f) == all_packs(d, r) + log by {
        lemma_whole_same(e, t, f);
        lemma_span_v(t, f, t.len() as int);
    }
    assert forall|f: Seq<Slot>, g: Seq<Slot>| #![trigger caught_up(e, f), chain(e, g)] caught_up(e, f) && chain(e, g) && stops(e, span(g, g.len() as int))
            implies f.len() == g.len() && all_packs(e, f) == all_packs(e, g) && forall|i: int| 0 <= i < f.len() ==> f[i].v() == #[trigger] g[i].v() by { lemma_reopen(e, f, g); }
}
proof fn lemma_whole_same(d: Seq<u8>, s: Seq<Slot>, r: Seq<Slot>)
    requires clean(d, s), d.len() == span(s, s.len() as int), caught_up(d, r),
    ensures s.len() == r.len(), forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).v() == r[i].v(), all_packs(d, r) == all_packs(d, s),
{
    let n = r.len() as int;
    assert(sio::tail(d, span(r, n)).len() == 0);
    lemma_reopen(d, s, r);
    assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).v() == r[i].v() by { assert(s[i].v() == r[i].v()); }
}
}
pub use rld_lemmas::*;
