// ---------------------------------------------------------------- storage reader
pub open spec fn inners(v: Seq<AnchoredSlot>) -> Seq<Slot> { v.map_values(|a: AnchoredSlot| a.inner) }
/// each slot of the reader remembers where it stands
pub open spec fn anchored(v: Seq<AnchoredSlot>) -> bool { forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).offset == span(inners(v), i) }
/// slots.iter().map(|a| &a.inner)
pub struct VInners<'a> { pub s: &'a [AnchoredSlot], pub at: usize }
impl<'a> VNext for VInners<'a> {
    type Item = &'a Slot;
    open spec fn left(&self) -> Seq<&'a Slot> {
        if self.at <= self.s@.len() { Seq::new((self.s@.len() - self.at) as nat, |i: int| &self.s@[self.at + i].inner) } else { Seq::empty() }
    }
    fn v_next(&mut self) -> (r: Option<&'a Slot>)
    {
        if self.at < self.s.len() {
            let r = &self.s[self.at].inner;
            self.at += 1;
            proof { assert(self.left() =~= old(self).left().skip(1)); }
            Some(r)
        } else { None }
    }
}
pub open spec fn derefs(v: Seq<&Slot>) -> Seq<Slot> { v.map_values(|x: &Slot| *x) }
pub fn v_inners<'a>(v: &'a Vec<AnchoredSlot>) -> (r: VInners<'a>)
    ensures r.left().len() == v@.len(), r.left().map_values(|x: &Slot| *x) == inners(v@), forall|i: int| 0 <= i < v@.len() ==> *(#[trigger] r.left()[i]) == inners(v@)[i],
{
    let r = VInners { s: v.as_slice(), at: 0 };
    assert(r.left().map_values(|x: &Slot| *x) =~= inners(v@));
    r
}
/// how many packets the first k slots hold
pub open spec fn used(s: Seq<Slot>, k: int) -> nat
    decreases k
{
    if k <= 0 { 0 } else { used(s, k - 1) + fz(s[k - 1].lenghts@) as nat }
}
pub open spec fn total(s: Seq<Slot>) -> nat { used(s, s.len() as int) }
/// slots as the writer makes them
pub open spec fn uniform(s: Seq<Slot>) -> bool { tight(s) && forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).capacity == 500 }
/// the bytes of a packet that can be written
pub open spec fn is_pkt<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef>(b: Seq<u8>) -> bool {
    exists|q: PacketDef<B, P, Inner>| q.blocks@.len() <= 255 && !pay_fails(q.payload) && pkt_fits(q.blocks@, q.payload) && b == #[trigger] pkt_bytes(q)
}
/// p is the packet these bytes are
pub open spec fn pkt_val<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef>(b: Seq<u8>, p: PacketDef<B, P, Inner>) -> bool {
    hdr_ok(b) && pkt_is(hdr_of(b), b.skip(29), p)
}
/// everything in the storage is a packet
pub open spec fn stored<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef>(d: Seq<u8>, s: Seq<Slot>) -> bool {
    forall|n: int| 0 <= n < all_packs(d, s).len() ==> is_pkt::<B, P, Inner>(#[trigger] all_packs(d, s)[n])
}
/// a filter lets the packet with these bytes through, as p / refuses it
pub open spec fn passes_b<B: BlockDef, BR: BlockReferredDef<B>, P: PayloadDef<Inner>, Inner: PayloadInnerDef>(rules: Seq<RuleDef<B, BR, P, Inner>>, b: Seq<u8>, p: PacketDef<B, P, Inner>) -> bool { passes(rules, hdr_of(b), b.skip(29), p) }
pub open spec fn refused_b<B: BlockDef, BR: BlockReferredDef<B>, P: PayloadDef<Inner>, Inner: PayloadInnerDef>(rules: Seq<RuleDef<B, BR, P, Inner>>, b: Seq<u8>) -> bool { refused(rules, hdr_of(b), b.skip(29)) }
/// no packet from a to b passes
pub open spec fn none_pass<B: BlockDef, BR: BlockReferredDef<B>, P: PayloadDef<Inner>, Inner: PayloadInnerDef>(rules: Seq<RuleDef<B, BR, P, Inner>>, v: Seq<Seq<u8>>, a: int, b: int) -> bool {
    forall|k: int| a <= k < b ==> refused_b(rules, #[trigger] v[k])
}
/// the first packet from a on that passes is r, and the next to look at is b; or there is none
pub open spec fn hunted<B: BlockDef, BR: BlockReferredDef<B>, P: PayloadDef<Inner>, Inner: PayloadInnerDef>(rules: Seq<RuleDef<B, BR, P, Inner>>, v: Seq<Seq<u8>>, a: int, b: int, r: Option<Result<PacketDef<B, P, Inner>, Error>>) -> bool {
    match r {
        Some(Ok(p)) => a < b <= v.len() && none_pass(rules, v, a, b - 1) && passes_b(rules, v[b - 1], p),
        Some(Err(_)) => false,
        None => none_pass(rules, v, a, v.len() as int),
    }
}
pub open spec fn sio_data<S: sio::Read + sio::Seek, B: BlockDef, BR: BlockReferredDef<B>, P: PayloadDef<Inner>, Inner: PayloadInnerDef>(a: &ReaderDef<S, B, BR, P, Inner>, b: &ReaderDef<S, B, BR, P, Inner>) -> bool {
    a.data() == b.data() && a.faulty() == b.faulty() && a.tbl() == b.tbl()
}
pub open spec fn sio_same<S: sio::Read + sio::Seek, B: BlockDef, BR: BlockReferredDef<B>, P: PayloadDef<Inner>, Inner: PayloadInnerDef>(a: &ReaderDef<S, B, BR, P, Inner>, b: &ReaderDef<S, B, BR, P, Inner>) -> bool {
    a.data() == b.data() && a.faulty() == b.faulty() && a.tbl() == b.tbl() && a.rules_v() == b.rules_v()
}
pub mod rd_lemmas {
use super::*;
broadcast use slotax::slots;
pub proof fn lemma_used(d: Seq<u8>, s: Seq<Slot>, k: int)
    requires 0 <= k <= s.len(),
    ensures packs(d, s, k).len() == used(s, k),
    decreases k
{ if k > 0 { lemma_used(d, s, k - 1); } }
/// the packet behind used(s, i) + j others is packet j of slot i
pub proof fn lemma_nth(d: Seq<u8>, s: Seq<Slot>, k: int, i: int, j: int)
    requires 0 <= i < k <= s.len(), 0 <= j < fz(s[i].lenghts@),
    ensures used(s, i) + j < used(s, k), packs(d, s, k).len() == used(s, k), packs(d, s, k)[used(s, i) + j] == pack_at(d, s, i, j),
    decreases k
{
    lemma_used(d, s, k); lemma_used(d, s, k - 1); lemma_used(d, s, i);
    if i < k - 1 { lemma_nth(d, s, k - 1, i, j); }
}
pub proof fn lemma_uniform(s: Seq<Slot>, k: int)
    requires uniform(s), all_wf(s), 0 <= k < s.len(),
    ensures used(s, k) == 500 * k, s[k].lenghts@.len() == 500, k < s.len() - 1 ==> fz(s[k].lenghts@) == 500,
    decreases k
{
    assert(slot_wf(s[k].v()) && s[k].capacity == 500);
    if k < s.len() - 1 { assert(full(s[k])); }
    if k > 0 { lemma_uniform(s, k - 1); }
}
/// C09: where the n-th packet is in a storage of uniform slots
pub proof fn lemma_where(d: Seq<u8>, s: Seq<Slot>, n: int)
    requires uniform(s), all_wf(s), 0 <= n,
    ensures
        all_packs(d, s).len() == total(s),
        n < total(s) <==> n / 500 < s.len() && n % 500 < fz(s[n / 500].lenghts@),
        n / 500 < s.len() ==> s[n / 500].lenghts@.len() == 500 && (s[n / 500].lenghts@[n % 500] == 0 <==> n >= total(s)),
        n < total(s) ==> all_packs(d, s)[n] == pack_at(d, s, n / 500, n % 500),
        s.len() > 0 ==> total(s) == 500 * (s.len() - 1) + fz(s.last().lenghts@),
{
    let (i, j) = (n / 500, n % 500);
    lemma_used(d, s, s.len() as int);
    if s.len() > 0 { lemma_uniform(s, s.len() - 1); }
    if i < s.len() {
        lemma_uniform(s, i);
        let v = s[i].lenghts@;
        assert(packed(v)) by { assert(slot_wf(s[i].v())); }
        if j >= fz(v) { assert(v[fz(v)] == 0); assert(v[j] == 0); }
        if j < fz(s[i].lenghts@) { lemma_nth(d, s, s.len() as int, i, j); }
    }
}
/// a packet's bytes, whatever follows, read as the packet
pub proof fn lemma_is_pkt<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef>(b: Seq<u8>, t: Seq<u8>)
    requires is_pkt::<B, P, Inner>(b),
    ensures
        b.len() >= 29, hdr_ok(b), hdr_ok(b + t), hdr_of(b + t) == hdr_of(b), pkt_end(b + t) == b.len(), pkt_end(b) == b.len(),
        pkt_window(b + t) == b.skip(29), pkt_window(b) == b.skip(29),
        pkt_dec::<B, P, Inner>(hdr_of(b), b.skip(29)) is Some,
        pkt_dec::<B, P, Inner>(hdr_of(b), b.skip(29)) == pkt_dec::<B, P, Inner>(hdr_of(b + t), (b + t).skip(29)),
        pkt_len::<B, P, Inner>(hdr_of(b), b.skip(29)) == b.len() - 29,
{
    let q = choose|q: PacketDef<B, P, Inner>| q.blocks@.len() <= 255 && !pay_fails(q.payload) && pkt_fits(q.blocks@, q.payload) && b == #[trigger] pkt_bytes(q);
    lemma_pkt_round_trip(q, t);
    lemma_pkt_round_trip(q, Seq::empty());
    assert(b + Seq::<u8>::empty() =~= b);
    assert(pkt_window(b + t) =~= b.skip(29));
    assert(pkt_window(b) =~= b.skip(29));
}
/// the bytes of the n-th packet are where the table says
pub proof fn lemma_there(d: Seq<u8>, s: Seq<Slot>, i: int, j: int)
    requires clean(d, s), 0 <= i < s.len(), 0 <= j < s[i].lenghts@.len(),
    ensures
        place(s, i, j) + s[i].lenghts@[j] <= d.len(),
        d.skip(place(s, i, j) as int) == pack_at(d, s, i, j) + d.skip(place(s, i, j) + s[i].lenghts@[j]),
{
    lemma_place(s, i, j);
    assert(d.skip(place(s, i, j) as int) =~= pack_at(d, s, i, j) + d.skip(place(s, i, j) + s[i].lenghts@[j]));
}
pub proof fn lemma_slots_push()
    ensures
        forall|v: Seq<AnchoredSlot>, a: AnchoredSlot| #![trigger inners(v.push(a))] inners(v.push(a)) == inners(v).push(a.inner) && (anchored(v) && a.offset == span(inners(v), v.len() as int) ==> anchored(v.push(a))),
{
    assert forall|v: Seq<AnchoredSlot>, a: AnchoredSlot| #![trigger inners(v.push(a))] inners(v.push(a)) == inners(v).push(a.inner) && (anchored(v) && a.offset == span(inners(v), v.len() as int) ==> anchored(v.push(a))) by {
        let w = v.push(a);
        assert(inners(w) =~= inners(v).push(a.inner));
        if anchored(v) && a.offset == span(inners(v), v.len() as int) {
            assert forall|i: int| 0 <= i < w.len() implies (#[trigger] w[i]).offset == span(inners(w), i) by { lemma_span_same(inners(v), inners(w), i); if i < v.len() { assert(v[i].offset == span(inners(v), i)); } }
        }
    }
}
pub proof fn lemma_small(s: Seq<Slot>)
    requires uniform(s), all_wf(s), span(s, s.len() as int) <= u64::MAX,
    ensures total(s) <= 500 * s.len(), total(s) < u64::MAX,
{
    if s.len() > 0 { lemma_where(Seq::empty(), s, 0); lemma_uniform(s, s.len() - 1); lemma_span_big(s, s.len() as int); }
}
proof fn lemma_span_big(s: Seq<Slot>, k: int)
    requires uniform(s), 0 <= k <= s.len(),
    ensures span(s, k) >= 4020 * k,
    decreases k
{ if k > 0 { lemma_span_big(s, k - 1); assert(s[k - 1].capacity == 500); } }
pub proof fn lemma_tight_locator(l: FreeSlotLocator, s: Seq<Slot>)
    requires uniform(s), all_wf(s), at_free(l, s), l.next < s.len() ==> !full(s[l.next as int]),
    ensures
        l.next < s.len() ==> l.next == s.len() - 1,
        l.next >= s.len() && s.len() > 0 ==> fz(s.last().lenghts@) == 500,
{
    if l.next < s.len() - 1 { assert(full(s[l.next as int])); }
    if s.len() > 0 { assert(slot_wf(s[s.len() - 1].v()) && s[s.len() - 1].capacity == 500); if l.next >= s.len() { assert(full(s[s.len() - 1])); } }
}
/// packet number n of the slots s, which begin at o, was found: from a to the end b of its slot; the slots behind it are left
pub open spec fn sought(s: Seq<Slot>, o: nat, n: nat, a: nat, b: nat, off: nat, left: Seq<Slot>) -> bool {
    exists|i: int| #![trigger used(s, i)] sought_in(s, o, n, i, a, b, off, left)
}
pub open spec fn sought_in(s: Seq<Slot>, o: nat, n: nat, i: int, a: nat, b: nat, off: nat, left: Seq<Slot>) -> bool {
    &&& 0 <= i < s.len() && used(s, i) <= n < used(s, i + 1)
    &&& a == o + place(s, i, n - used(s, i)) && b == o + span(s, i + 1)
    &&& off == b && left == s.skip(i + 1)
}
pub open spec fn seeks(s: Seq<Slot>) -> bool {
    forall|k: int| #![trigger s[k]] 0 <= k < s.len() ==> slot_wf(s[k].v()) && used(s, k + 1) == used(s, k) + fz(s[k].lenghts@) && span(s, k + 1) == span(s, k) + slot_size(s[k].capacity) + sum_of(s[k].lenghts@)
        && span(s, k + 1) <= span(s, s.len() as int) && used(s, k + 1) <= total(s)
        && span(s, s.len() as int) == span(s, k + 1) + span(s.skip(k + 1), s.len() - (k + 1)) && all_wf(s.skip(k + 1))
}
pub proof fn lemma_derefs(v: Seq<&Slot>)
    ensures derefs(v).len() == v.len(), v.len() > 0 ==> derefs(v)[0] == *v[0] && derefs(v.skip(1)) == derefs(v).skip(1),
{ if v.len() > 0 { assert(derefs(v.skip(1)) =~= derefs(v).skip(1)); } }
pub proof fn lemma_used_mono(s: Seq<Slot>, a: int, b: int)
    requires 0 <= a <= b <= s.len(),
    ensures used(s, a) <= used(s, b),
    decreases b - a
{ if a < b { lemma_used_mono(s, a, b - 1); } }
pub proof fn lemma_seek(s: Seq<Slot>)
    requires all_wf(s),
    ensures seeks(s), used(s, 0) == 0, span(s, 0) == 0, forall|t: Seq<Slot>| t.len() == 0 ==> #[trigger] span(t, t.len() as int) == 0,
{
    assert forall|k: int| #![trigger s[k]] 0 <= k < s.len() implies slot_wf(s[k].v()) && used(s, k + 1) == used(s, k) + fz(s[k].lenghts@) && span(s, k + 1) == span(s, k) + slot_size(s[k].capacity) + sum_of(s[k].lenghts@)
        && span(s, k + 1) <= span(s, s.len() as int) && used(s, k + 1) <= total(s)
        && span(s, s.len() as int) == span(s, k + 1) + span(s.skip(k + 1), s.len() - (k + 1)) && all_wf(s.skip(k + 1)) by { lemma_span_split(s, k + 1); lemma_span_mono(s, k + 1, s.len() as int); lemma_used_mono(s, k + 1, s.len() as int); assert(fz(s[k].lenghts@) >= 0) by { slotax::fz_first(s[k].lenghts@); } }
}
pub proof fn lemma_span_split(s: Seq<Slot>, k: int)
    requires 0 <= k <= s.len(),
    ensures span(s, s.len() as int) == span(s, k) + span(s.skip(k), s.len() - k), all_wf(s) ==> all_wf(s.skip(k)),
{
    lemma_span_behind(s, k, s.len() as int);
    if all_wf(s) { assert forall|i: int| 0 <= i < s.skip(k).len() implies slot_wf((#[trigger] s.skip(k)[i]).v()) by { assert(slot_wf(s[i + k].v())); } }
}
proof fn lemma_span_behind(s: Seq<Slot>, k: int, n: int)
    requires 0 <= k <= n <= s.len(),
    ensures span(s, n) == span(s, k) + span(s.skip(k), n - k),
    decreases n
{ if n > k { lemma_span_behind(s, k, n - 1); assert(s.skip(k)[n - k - 1] == s[n - 1]); } }
/// without the first slot
pub proof fn lemma_span_skip(s: Seq<Slot>)
    ensures s.len() > 0 ==> {
        &&& span(s, s.len() as int) == slot_size(s[0].capacity) + sum_of(s[0].lenghts@) + span(s.skip(1), s.len() - 1)
        &&& all_wf(s) ==> slot_wf(s[0].v()) && all_wf(s.skip(1))
    }
{
    if s.len() > 0 {
        lemma_span_first(s, s.len() as int);
        if all_wf(s) {
            assert(slot_wf(s[0].v()));
            assert forall|i: int| 0 <= i < s.skip(1).len() implies slot_wf((#[trigger] s.skip(1)[i]).v()) by { assert(slot_wf(s[i + 1].v())); }
        }
    }
}
proof fn lemma_span_first(s: Seq<Slot>, k: int)
    requires 1 <= k <= s.len(),
    ensures span(s, k) == slot_size(s[0].capacity) + sum_of(s[0].lenghts@) + span(s.skip(1), k - 1),
    decreases k
{ if k > 1 { lemma_span_first(s, k - 1); assert(s.skip(1)[k - 2] == s[k - 1]); } else { assert(span(s, 0) == 0); assert(span(s.skip(1), 0) == 0); } }
// ---- what an iterator has still to give
/// bytes cut into packets as their headers say; a rest that is no packet is one piece
pub open spec fn chop(b: Seq<u8>) -> Seq<Seq<u8>>
    decreases b.len()
{
    if b.len() == 0 { Seq::empty() }
    else if hdr_ok(b) && 0 < pkt_end(b) <= b.len() { seq![b.take(pkt_end(b) as int)] + chop(b.skip(pkt_end(b) as int)) }
    else { seq![b] }
}
/// the packets of the slots s, which begin at o in d, up to an empty slot
pub open spec fn shards(d: Seq<u8>, o: nat, s: Seq<Slot>) -> Seq<Seq<u8>>
    decreases s.len()
{
    if s.len() == 0 || sum_of(s[0].lenghts@) == 0 { Seq::empty() } else {
        let a = o + slot_size(s[0].capacity);
        let b = a + sum_of(s[0].lenghts@);
        chop(d.subrange(a as int, b as int)) + shards(d, b as nat, s.skip(1))
    }
}
pub proof fn lemma_chop<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef>(b: Seq<u8>)
    ensures
        b.len() == 0 <==> chop(b).len() == 0,
        b.len() > 0 && is_pkt::<B, P, Inner>(chop(b)[0]) ==> {
            &&& hdr_ok(b) && 29 <= pkt_end(b) <= b.len()
            &&& chop(b)[0] == b.take(pkt_end(b) as int)
            &&& hdr_of(b) == hdr_of(chop(b)[0]) && pkt_window(b) == chop(b)[0].skip(29)
            &&& chop(b) == seq![chop(b)[0]] + chop(b.skip(pkt_end(b) as int))
            &&& pkt_dec::<B, P, Inner>(hdr_of(b), pkt_window(b)) is Some
        }
{
    if b.len() > 0 && is_pkt::<B, P, Inner>(chop(b)[0]) {
        let x = chop(b)[0];
        if hdr_ok(b) && 0 < pkt_end(b) <= b.len() {
            let t = b.skip(pkt_end(b) as int);
            assert(x + t =~= b);
            lemma_is_pkt::<B, P, Inner>(x, t);
        } else {
            lemma_is_pkt::<B, P, Inner>(b, Seq::empty());
        }
    }
}
proof fn lemma_take_fz(v: Seq<u64>)
    requires packed(v),
    ensures sum_of(v.take(fz(v))) == sum_of(v),
{
    assert forall|k: int| fz(v) <= k < v.len() implies v[k] == 0 by { assert(v[fz(v)] == 0); }
    lemma_sum_zeros(v, fz(v));
}
pub proof fn lemma_chop_nth<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef>(d: Seq<u8>, s: Seq<Slot>, i: int, j: int)
    requires
        clean(d, s), all_wf(s), 0 <= i < s.len(), 0 <= j <= fz(s[i].lenghts@),
        forall|k: int| 0 <= k < fz(s[i].lenghts@) ==> is_pkt::<B, P, Inner>(#[trigger] slot_packs(d, s, i)[k]),
    ensures
        place(s, i, j) <= span(s, i + 1),
        chop(d.subrange(place(s, i, j) as int, span(s, i + 1) as int)) == slot_packs(d, s, i).skip(j),
    decreases fz(s[i].lenghts@) - j
{
    hide(pkt_dec); hide(pkt_window); hide(pkt_len); hide(hdr_crc); hide(packed); hide(slot_ok); hide(slot_of); hide(is_pkt); hide(hdr_ok); hide(hdr_of);
    let v = s[i].lenghts@;
    let b = d.subrange(place(s, i, j) as int, span(s, i + 1) as int);
    let all = slot_packs(d, s, i);
    assert(slot_wf(s[i].v()));
    if j < fz(v) {
        lemma_place(s, i, j);
        lemma_sum_add(v, j);
        assert(place(s, i, j + 1) == place(s, i, j) + v[j]);
        lemma_chop_nth::<B, P, Inner>(d, s, i, j + 1);
        assert(is_pkt::<B, P, Inner>(all[j]));
        let x = pack_at(d, s, i, j);
        let t = d.subrange(place(s, i, j + 1) as int, span(s, i + 1) as int);
        assert(b =~= x + t);
        lemma_is_pkt::<B, P, Inner>(x, t);
        assert(b.take(x.len() as int) =~= x); assert(b.skip(x.len() as int) =~= t);
        assert(chop(b) == seq![x] + chop(t));
        assert(all.skip(j) =~= seq![all[j]] + all.skip(j + 1));
    } else {
        lemma_take_fz(v);
        lemma_span_mono(s, i + 1, s.len() as int);
        assert(span(s, i + 1) == span(s, i) + slot_size(s[i].capacity) + sum_of(v));
        assert(place(s, i, j) == span(s, i + 1));
        assert(b =~= Seq::<u8>::empty());
        assert(all.skip(j) =~= Seq::<Seq<u8>>::empty());
    }
}
/// C09: from slot i on these are the packets of the storage
pub proof fn lemma_shards<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef>(d: Seq<u8>, s: Seq<Slot>, i: int)
    requires clean(d, s), all_wf(s), uniform(s), 0 <= i <= s.len(), stored::<B, P, Inner>(d, s),
    ensures shards(d, span(s, i), s.skip(i)) == all_packs(d, s).skip(used(s, i) as int),
    decreases s.len() - i
{
    hide(slot_ok); hide(slot_of); hide(is_pkt); hide(hdr_ok); hide(hdr_of); hide(chop);
    let all = all_packs(d, s);
    let n = s.len() as int;
    lemma_used(d, s, n);
    lemma_used_mono(s, i, n);
    if i == n {
        assert(all.skip(used(s, i) as int) =~= Seq::<Seq<u8>>::empty());
    } else {
        let v = s[i].lenghts@;
        lemma_uniform(s, i);
        lemma_used_mono(s, i + 1, n);
        assert(slot_wf(s[i].v()));
        lemma_place(s, i, 0);
        assert(v.take(0) =~= Seq::<u64>::empty());
        assert(sum_of(v.take(0)) == 0);
        assert(s.skip(i)[0] == s[i]); assert(s.skip(i).skip(1) =~= s.skip(i + 1));
        let p = slot_packs(d, s, i);
        assert forall|k: int| 0 <= k < fz(v) implies is_pkt::<B, P, Inner>(#[trigger] p[k]) && all[used(s, i) + k] == p[k] by { lemma_nth(d, s, n, i, k); }
        lemma_shards::<B, P, Inner>(d, s, i + 1);
        if fz(v) == 0 {
            assert forall|k: int| 0 <= k < v.len() implies v[k] == 0 by { assert(v[0] == 0); }
            lemma_sum_zeros(v, 0);
            assert(i == n - 1);
            assert(all.skip(used(s, i) as int) =~= Seq::<Seq<u8>>::empty());
        } else {
            lemma_sum_add(v, 0);
            assert(sum_of(v.take(1)) <= sum_of(v));
            assert(v[0] > 0);
            lemma_chop_nth::<B, P, Inner>(d, s, i, 0);
            assert(p.skip(0) =~= p);
            assert(span(s, i + 1) == span(s, i) + slot_size(s[i].capacity) + sum_of(v));
            assert(place(s, i, 0) == span(s, i) + slot_size(s[i].capacity));
            assert(all.skip(used(s, i) as int) =~= p + all.skip(used(s, i + 1) as int));
        }
    }
}
/// C09: what is left behind a packet that was looked for
pub proof fn lemma_sought<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef>(d: Seq<u8>, s: Seq<Slot>, i: int, j: int)
    requires clean(d, s), all_wf(s), uniform(s), 0 <= i < s.len(), 0 <= j < fz(s[i].lenghts@), stored::<B, P, Inner>(d, s),
    ensures chop(d.subrange(place(s, i, j) as int, span(s, i + 1) as int)) + shards(d, span(s, i + 1), s.skip(i + 1)) == all_packs(d, s).skip(used(s, i) + j),
{
    hide(slot_ok); hide(slot_of); hide(is_pkt); hide(hdr_ok); hide(hdr_of); hide(chop);
    let all = all_packs(d, s);
    let n = s.len() as int;
    lemma_used(d, s, n);
    lemma_used_mono(s, i + 1, n);
    let p = slot_packs(d, s, i);
    assert forall|k: int| 0 <= k < fz(s[i].lenghts@) implies is_pkt::<B, P, Inner>(#[trigger] p[k]) && all[used(s, i) + k] == p[k] by { lemma_nth(d, s, n, i, k); }
    lemma_chop_nth::<B, P, Inner>(d, s, i, j);
    lemma_shards::<B, P, Inner>(d, s, i + 1);
    assert(all.skip(used(s, i) + j) =~= p.skip(j) + all.skip(used(s, i + 1) as int));
}
pub open spec fn first_of<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef>(b: Seq<u8>, rest: Seq<Seq<u8>>) -> bool {
    let t = chop(b) + rest;
    b.len() > 0 ==> t.len() > 0 && (is_pkt::<B, P, Inner>(t[0]) ==> {
            &&& hdr_ok(b) && 29 <= pkt_end(b) <= b.len()
            &&& hdr_of(b) == hdr_of(t[0]) && pkt_window(b) == t[0].skip(29) && hdr_ok(t[0])
            &&& chop(b.skip(pkt_end(b) as int)) + rest == t.skip(1)
            &&& pkt_dec::<B, P, Inner>(hdr_of(b), pkt_window(b)) is Some
        })
}
pub proof fn lemma_first<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef>(b: Seq<u8>, rest: Seq<Seq<u8>>)
    ensures first_of::<B, P, Inner>(b, rest), b.len() == 0 ==> chop(b) + rest == rest,
{
    hide(is_pkt); hide(hdr_ok); hide(hdr_of); hide(pkt_window); hide(pkt_dec);
    lemma_chop::<B, P, Inner>(b);
    if b.len() > 0 {
        let t = chop(b) + rest;
        assert(t[0] == chop(b)[0]);
        if is_pkt::<B, P, Inner>(t[0]) {
            lemma_is_pkt::<B, P, Inner>(t[0], Seq::empty());
            assert(chop(b.skip(pkt_end(b) as int)) + rest =~= t.skip(1));
        }
    } else { assert(chop(b) =~= Seq::empty()); assert(chop(b) + rest =~= rest); }
}
/// the first piece is in the buffer, or the buffer is empty and it is at the begin of the next slot
pub proof fn lemma_todo<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef>(d: Seq<u8>, b: Seq<u8>, o: nat, s: Seq<Slot>)
    requires all_wf(s),
    ensures
        first_of::<B, P, Inner>(b, shards(d, o, s)),
        b.len() == 0 ==> chop(b) + shards(d, o, s) == shards(d, o, s),
        s.len() > 0 && sum_of(s[0].lenghts@) > 0 ==> {
            let a = o + slot_size(s[0].capacity);
            let e = a + sum_of(s[0].lenghts@);
            e <= d.len() ==> {
                &&& d.subrange(a as int, e as int).len() == sum_of(s[0].lenghts@)
                &&& d.subrange(a as int, e as int) == d.skip(a as int).take(sum_of(s[0].lenghts@) as int)
                &&& first_of::<B, P, Inner>(d.subrange(a as int, e as int), shards(d, e as nat, s.skip(1)))
                &&& shards(d, o, s) == chop(d.subrange(a as int, e as int)) + shards(d, e as nat, s.skip(1))
            }
        },
        s.len() == 0 || sum_of(s[0].lenghts@) == 0 ==> shards(d, o, s).len() == 0,
{
    hide(first_of); hide(chop);
    lemma_first::<B, P, Inner>(b, shards(d, o, s));
    if s.len() > 0 && sum_of(s[0].lenghts@) > 0 {
        let a = o + slot_size(s[0].capacity);
        let e = a + sum_of(s[0].lenghts@);
        lemma_first::<B, P, Inner>(d.subrange(a as int, e as int), shards(d, e as nat, s.skip(1)));
        if e <= d.len() { assert(d.subrange(a as int, e as int) =~= d.skip(a as int).take(sum_of(s[0].lenghts@) as int)); }
    }
}

pub open spec fn after_seek(t: Seq<Seq<u8>>, d: Seq<u8>, o: nat, s: Seq<Slot>, n: nat) -> bool {
    exists|i: int| #![trigger used(s, i)] 0 <= i < s.len() && used(s, i) <= n < used(s, i + 1)
        && t == chop(d.subrange((o + place(s, i, n - used(s, i))) as int, (o + span(s, i + 1)) as int)) + shards(d, o + span(s, i + 1), s.skip(i + 1))
}
/// C09: the first n packets skipped
pub proof fn lemma_after_seek<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef>(d: Seq<u8>, s: Seq<Slot>, n: nat)
    ensures forall|t: Seq<Seq<u8>>| #[trigger] after_seek(t, d, 0, s, n) && clean(d, s) && all_wf(s) && uniform(s) && stored::<B, P, Inner>(d, s) ==> t == all_packs(d, s).skip(n as int),
{
    assert forall|t: Seq<Seq<u8>>| #[trigger] after_seek(t, d, 0, s, n) && clean(d, s) && all_wf(s) && uniform(s) && stored::<B, P, Inner>(d, s) implies t == all_packs(d, s).skip(n as int) by {
        let i = choose|i: int| #![trigger used(s, i)] 0 <= i < s.len() && used(s, i) <= n < used(s, i + 1)
            && t == chop(d.subrange((0 + place(s, i, n - used(s, i))) as int, (0 + span(s, i + 1)) as int)) + shards(d, 0 + span(s, i + 1), s.skip(i + 1));
        assert(used(s, i + 1) == used(s, i) + fz(s[i].lenghts@));
        lemma_sought::<B, P, Inner>(d, s, i, n - used(s, i));
    }
}
/// C09: everything
pub proof fn lemma_whole<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef>(d: Seq<u8>, s: Seq<Slot>)
    ensures
        clean(d, s) && all_wf(s) && uniform(s) && stored::<B, P, Inner>(d, s) ==> shards(d, 0, s) == all_packs(d, s),
        clean(d, s) ==> span(s, s.len() as int) <= d.len(),
{
    if clean(d, s) && all_wf(s) && uniform(s) && stored::<B, P, Inner>(d, s) {
        lemma_shards::<B, P, Inner>(d, s, 0);
        assert(s.skip(0) =~= s);
        assert(all_packs(d, s).skip(0) =~= all_packs(d, s));
    }
}
pub proof fn lemma_skips(v: Seq<Seq<u8>>)
    ensures forall|k: int, j: int| 0 <= k <= v.len() && 0 <= j <= v.len() - k ==> #[trigger] v.skip(k).skip(j) == v.skip(k + j),
{ assert forall|k: int, j: int| 0 <= k <= v.len() && 0 <= j <= v.len() - k implies #[trigger] v.skip(k).skip(j) == v.skip(k + j) by { assert(v.skip(k).skip(j) =~= v.skip(k + j)); } }
/// the piece of d a search ends at is there
pub proof fn lemma_sought_in(d: Seq<u8>, o: nat, s: Seq<Slot>, n: nat)
    requires all_wf(s),
    ensures forall|i: int, a: nat, b: nat, off: nat, left: Seq<Slot>| #[trigger] sought_in(s, o, n, i, a, b, off, left) ==> {
        &&& a <= b
        &&& o + span(s, s.len() as int) == off + span(left, left.len() as int)
        &&& b <= o + span(s, s.len() as int)
        &&& b <= d.len() ==> d.subrange(a as int, b as int) == d.skip(a as int).take(b - a) && d.subrange(a as int, b as int).len() == b - a
    }
{
    assert forall|i: int, a: nat, b: nat, off: nat, left: Seq<Slot>| #[trigger] sought_in(s, o, n, i, a, b, off, left) implies {
        &&& a <= b
        &&& o + span(s, s.len() as int) == off + span(left, left.len() as int)
        &&& b <= o + span(s, s.len() as int)
        &&& b <= d.len() ==> d.subrange(a as int, b as int) == d.skip(a as int).take(b - a) && d.subrange(a as int, b as int).len() == b - a
    } by {
        assert(used(s, i + 1) == used(s, i) + fz(s[i].lenghts@));
        lemma_place(s, i, n - used(s, i));
        lemma_span_split(s, i + 1);
        lemma_span_mono(s, i + 1, s.len() as int);
        if b <= d.len() { assert(d.subrange(a as int, b as int) =~= d.skip(a as int).take(b - a)); }
    }
}
}
pub use rd_lemmas::*;
