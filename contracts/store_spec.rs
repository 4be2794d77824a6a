// ---------------------------------------------------------------- storage: slots and their packets in a byte string
pub open spec fn slot_at(d: Seq<u8>, s: Seq<Slot>, i: int) -> bool {
    &&& span(s, i) <= d.len()
    &&& slot_ok(d.skip(span(s, i) as int))
    &&& slot_of(d.skip(span(s, i) as int)) == s[i].v()
}
/// the slots s stand one behind the other in d, each followed by its packets
pub open spec fn chain(d: Seq<u8>, s: Seq<Slot>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] slot_at(d, s, i) }
/// no slot at p: nothing there, or the beginning of one
pub open spec fn stops(d: Seq<u8>, p: nat) -> bool {
    let t = sio::tail(d, p);
    t.len() < 16 || (slot_sig_ok(t) && !slot_fits(t))
}
/// something else than a slot at p
pub open spec fn broken(d: Seq<u8>, p: nat) -> bool {
    let t = sio::tail(d, p);
    t.len() >= 16 && !slot_ok(t) && (!slot_sig_ok(t) || slot_fits(t))
}
pub open spec fn damaged(d: Seq<u8>) -> bool { exists|s: Seq<Slot>| #[trigger] chain(d, s) && broken(d, span(s, s.len() as int)) }
/// the tables in d are used lengths followed by zeros, of moderate sums
pub open spec fn sane(d: Seq<u8>) -> bool {
    forall|s: Seq<Slot>| #[trigger] chain(d, s) ==> all_wf(s) && span(s, s.len() as int) <= u64::MAX
}
/// ... and only the last slot has room
pub open spec fn orderly(d: Seq<u8>) -> bool { sane(d) && forall|s: Seq<Slot>| #[trigger] chain(d, s) ==> tight(s) }
// ---------------------------------------------------------------- the packets
/// where packet j of slot i begins
pub open spec fn place(s: Seq<Slot>, i: int, j: int) -> nat { span(s, i) + slot_size(s[i].capacity) + sum_of(s[i].lenghts@.take(j)) }
pub open spec fn pack_at(d: Seq<u8>, s: Seq<Slot>, i: int, j: int) -> Seq<u8> {
    d.subrange(place(s, i, j) as int, place(s, i, j) + s[i].lenghts@[j])
}
pub open spec fn slot_packs(d: Seq<u8>, s: Seq<Slot>, i: int) -> Seq<Seq<u8>> {
    Seq::new(fz(s[i].lenghts@) as nat, |j: int| pack_at(d, s, i, j))
}
/// the bytes of all packets of the first k slots, in order
pub open spec fn packs(d: Seq<u8>, s: Seq<Slot>, k: int) -> Seq<Seq<u8>>
    decreases k
{
    if k <= 0 { Seq::empty() } else { packs(d, s, k - 1) + slot_packs(d, s, k - 1) }
}
pub open spec fn all_packs(d: Seq<u8>, s: Seq<Slot>) -> Seq<Seq<u8>> { packs(d, s, s.len() as int) }
/// slots and packets are all in d
pub open spec fn clean(d: Seq<u8>, s: Seq<Slot>) -> bool { chain(d, s) && span(s, s.len() as int) <= d.len() }
pub open spec fn no_lens() -> Seq<u64> { Seq::new(500, |i: int| 0u64) }
pub open spec fn fresh(x: Slot) -> bool { x.capacity == 500 && x.lenghts@ == no_lens() && slot_crc_ok(x.v()) }
/// what a writer keeps between inserts; a slot it has not yet written may be last
pub open spec fn holds(d: Seq<u8>, s: Seq<Slot>) -> bool {
    clean(d, s) || (s.len() > 0 && fresh(s.last()) && clean(d, s.drop_last()))
}
/// the slot the next packet goes to
pub open spec fn next_slot(s: Seq<Slot>) -> int { if s.len() > 0 && !full(s.last()) { s.len() - 1 } else { s.len() as int } }
/// t is s with one more packet, of n bytes
pub open spec fn entered(s: Seq<Slot>, t: Seq<Slot>, n: nat) -> bool {
    let k = next_slot(s);
    &&& n <= u64::MAX
    &&& t.len() == k + 1
    &&& forall|i: int| 0 <= i < k ==> t[i] == s[i]
    &&& slot_crc_ok(t[k].v())
    &&& t[k].capacity == (if k < s.len() { s[k].capacity } else { 500 })
    &&& t[k].lenghts@ == (if k < s.len() { s[k].lenghts@.update(fz(s[k].lenghts@), n as u64) } else { no_lens().update(0, n as u64) })
}
/// the bytes afterwards: the table is in its place, the packet behind everything
pub open spec fn grown(d: Seq<u8>, s: Seq<Slot>, t: Seq<Slot>, b: Seq<u8>) -> Seq<u8> {
    let k = next_slot(s);
    sio::put(sio::put(d, span(t, k), slot_bytes(t[k].v())), (span(t, k + 1) - b.len()) as nat, b)
}
pub mod store_lemmas {
use super::*;
broadcast use slotax::slots;
pub proof fn lemma_extend(d: Seq<u8>, s: Seq<Slot>)
    requires chain(d, s),
    ensures
        forall|x: Slot| #![trigger x.v()] slot_ok(sio::tail(d, span(s, s.len() as int))) && slot_of(sio::tail(d, span(s, s.len() as int))) == x.v() ==> {
            &&& chain(d, s.push(x))
            &&& span(s.push(x), (s.len() + 1) as int) == span(s, s.len() as int) + slot_size(x.capacity) + sum_of(x.lenghts@)
            &&& sane(d) ==> slot_wf(x.v()) && span(s.push(x), (s.len() + 1) as int) <= u64::MAX
        },
{
    let n = s.len() as int;
    assert forall|x: Slot| #![trigger x.v()] slot_ok(sio::tail(d, span(s, n))) && slot_of(sio::tail(d, span(s, n))) == x.v() implies {
            &&& chain(d, s.push(x))
            &&& span(s.push(x), n + 1) == span(s, n) + slot_size(x.capacity) + sum_of(x.lenghts@)
            &&& sane(d) ==> slot_wf(x.v()) && span(s.push(x), n + 1) <= u64::MAX
        } by {
        let t = s.push(x);
        lemma_span_same(s, t, n);
        assert forall|i: int| 0 <= i < t.len() implies #[trigger] slot_at(d, t, i) by {
            lemma_span_same(s, t, i);
            if i < n { assert(slot_at(d, s, i)); }
        }
        assert(span(t, n + 1) == span(t, n) + slot_size(t[n].capacity) + sum_of(t[n].lenghts@));
        assert(chain(d, t));
        if sane(d) { assert(all_wf(t)); assert(slot_wf(t[n].v())); }
    }
}
/// two chains in the same bytes are the same as far as they go
pub proof fn lemma_chain_same(d: Seq<u8>, s: Seq<Slot>, t: Seq<Slot>, k: int)
    requires chain(d, s), chain(d, t), 0 <= k <= s.len(), k <= t.len(),
    ensures
        span(s, k) == span(t, k),
        forall|i: int| 0 <= i < k ==> (#[trigger] s[i]).v() == t[i].v() && span(s, i) == span(t, i),
    decreases k
{
    hide(slot_ok); hide(slot_of);
    if k > 0 {
        lemma_chain_same(d, s, t, k - 1);
        assert(slot_at(d, s, k - 1) && slot_at(d, t, k - 1));
        assert(s[k - 1].v().lens == t[k - 1].v().lens && s[k - 1].v().cap == t[k - 1].v().cap);
    }
}
/// ... and a chain that stops is the longest
pub proof fn lemma_chain_whole(d: Seq<u8>, s: Seq<Slot>, t: Seq<Slot>)
    requires chain(d, s), chain(d, t), stops(d, span(s, s.len() as int)) || broken(d, span(s, s.len() as int)),
    ensures
        t.len() <= s.len(),
        t.len() < s.len() ==> !stops(d, span(t, t.len() as int)) && !broken(d, span(t, t.len() as int)),
        t.len() == s.len() ==> span(s, s.len() as int) == span(t, t.len() as int),
{
    let n = s.len() as int;
    if t.len() > n {
        lemma_chain_same(d, s, t, n);
        assert(slot_at(d, t, n));
        assert(sio::tail(d, span(t, n)) == d.skip(span(t, n) as int));
    } else if t.len() < n {
        let k = t.len() as int;
        lemma_chain_same(d, s, t, k);
        assert(slot_at(d, s, k));
        assert(sio::tail(d, span(s, k)) == d.skip(span(s, k) as int));
    } else { lemma_chain_same(d, s, t, n); }
}
/// C11: what is refused as damaged is so for everyone
pub proof fn lemma_damaged(d: Seq<u8>, s: Seq<Slot>)
    requires chain(d, s), stops(d, span(s, s.len() as int)),
    ensures !damaged(d),
{
    if damaged(d) {
        let t = choose|t: Seq<Slot>| #[trigger] chain(d, t) && broken(d, span(t, t.len() as int));
        lemma_chain_whole(d, s, t);
    }
}
pub proof fn lemma_no_lens()
    ensures sum_of(no_lens()) == 0, fz(no_lens()) == 0, packed(no_lens()), no_lens().len() == 500,
{
    lemma_sum_zeros(no_lens(), 0);
    assert(no_lens().take(0) =~= Seq::<u64>::empty());
    if fz(no_lens()) > 0 { assert(no_lens()[0] != 0); }
}
pub proof fn lemma_fz(s: Seq<u64>, k: int)
    requires 0 <= k <= s.len(), forall|i: int| 0 <= i < k ==> s[i] != 0, k < s.len() ==> s[k] == 0,
    ensures fz(s) == k,
{ if fz(s) < k { assert(s[fz(s)] == 0); } }
/// a length put in the first free place of a table
pub proof fn lemma_enter(v: Seq<u64>, n: u64)
    requires packed(v), fz(v) < v.len(), n > 0,
    ensures
        packed(v.update(fz(v), n)),
        fz(v.update(fz(v), n)) == fz(v) + 1,
        sum_of(v.update(fz(v), n)) == sum_of(v) + n,
        sum_of(v.update(fz(v), n).take(fz(v))) == sum_of(v),
        forall|j: int| 0 <= j <= fz(v) ==> #[trigger] v.update(fz(v), n).take(j) == v.take(j),
{
    let k = fz(v);
    let w = v.update(k, n);
    assert forall|j: int| 0 <= j <= k implies #[trigger] w.take(j) == v.take(j) by { assert(w.take(j) =~= v.take(j)); }
    assert forall|i: int, j: int| 0 <= i < j < w.len() && #[trigger] w[i] == 0 implies #[trigger] w[j] == 0 by {
        assert(v[k] == 0);
        if i < k { assert(v[i] != 0); }
        if j > k { assert(v[j] == 0); }
    }
    assert forall|i: int| k <= i < v.len() implies v[i] == 0 by { assert(v[k] == 0); }
    lemma_sum_zeros(v, k);
    assert forall|i: int| k + 1 <= i < w.len() implies w[i] == 0 by { assert(v[i] == 0); }
    lemma_sum_zeros(w, k + 1);
    lemma_sum_add(w, k);
    lemma_fz(w, k + 1);
}
/// a slot added by the writer
pub proof fn lemma_fresh(s: Seq<Slot>)
    ensures
        forall|x: Slot| #![trigger s.push(x)] x.capacity == 500 && x.lenghts@.len() == 500 && (forall|i: int| 0 <= i < 500 ==> x.lenghts@[i] == 0) ==> {
            &&& x.lenghts@ == no_lens() && s.push(x).drop_last() == s && s.push(x).last() == x
            &&& all_wf(s) ==> all_wf(s.push(x))
            &&& span(s.push(x), s.len() as int) == span(s, s.len() as int)
            &&& span(s.push(x), (s.len() + 1) as int) == span(s, s.len() as int) + 4020
            &&& forall|l: FreeSlotLocator| #[trigger] at_free(l, s) ==> at_free(l, s.push(x))
        }
{
    assert forall|x: Slot| #![trigger s.push(x)] x.capacity == 500 && x.lenghts@.len() == 500 && (forall|i: int| 0 <= i < 500 ==> x.lenghts@[i] == 0) implies {
            &&& x.lenghts@ == no_lens() && s.push(x).drop_last() == s && s.push(x).last() == x
            &&& all_wf(s) ==> all_wf(s.push(x))
            &&& span(s.push(x), s.len() as int) == span(s, s.len() as int)
            &&& span(s.push(x), (s.len() + 1) as int) == span(s, s.len() as int) + 4020
            &&& forall|l: FreeSlotLocator| #[trigger] at_free(l, s) ==> at_free(l, s.push(x))
    } by {
        let t = s.push(x);
        let n = s.len() as int;
        lemma_no_lens();
        assert(x.lenghts@ =~= no_lens());
        assert(t.drop_last() =~= s);
        lemma_span_same(s, t, n);
        assert(t[n] == x);
        assert(span(t, n + 1) == span(t, n) + slot_size(x.capacity) + sum_of(x.lenghts@));
        assert forall|l: FreeSlotLocator| #[trigger] at_free(l, s) implies at_free(l, t) by {
            lemma_span_same(s, t, l.next as int);
            assert forall|i: int| 0 <= i < l.next implies full(#[trigger] t[i]) by { assert(full(s[i])); }
        }
        if all_wf(s) { assert forall|i: int| 0 <= i < t.len() implies slot_wf((#[trigger] t[i]).v()) by { if i < n { assert(slot_wf(s[i].v())); } } }
    }
}
pub proof fn lemma_entered(s: Seq<Slot>, n: nat)
    requires all_wf(s), tight(s), n > 0, span(s, s.len() as int) + 4020 + n <= u64::MAX,
    ensures forall|t: Seq<Slot>| #[trigger] entered(s, t, n) ==> {
        let k = next_slot(s);
        &&& all_wf(t)
        &&& tight(t)
        &&& span(t, k) == span(s, k)
        &&& span(t, k + 1) == span(s, s.len() as int) + n + (if k < s.len() { 0int } else { 4020int })
        &&& k == s.len() ==> forall|i: int| 0 <= i < k ==> full(#[trigger] t[i])
    }
{
    let k = next_slot(s);
    assert forall|t: Seq<Slot>| #[trigger] entered(s, t, n) implies {
        &&& all_wf(t)
        &&& tight(t)
        &&& span(t, k) == span(s, k)
        &&& span(t, k + 1) == span(s, s.len() as int) + n + (if k < s.len() { 0int } else { 4020int })
        &&& k == s.len() ==> forall|i: int| 0 <= i < k ==> full(#[trigger] t[i])
    } by {
        lemma_no_lens();
        lemma_span_same(s, t, k);
        let v = if k < s.len() { s[k].lenghts@ } else { no_lens() };
        if k < s.len() { assert(slot_wf(s[k].v())); assert(span(s, k + 1) == span(s, k) + slot_size(s[k].capacity) + sum_of(v)); assert(s.last() == s[k]); }
        lemma_enter(v, n as u64);
        assert(span(t, k + 1) == span(t, k) + slot_size(t[k].capacity) + sum_of(t[k].lenghts@));
        assert forall|i: int| 0 <= i < t.len() implies slot_wf((#[trigger] t[i]).v()) by { if i < k { assert(slot_wf(s[i].v())); } }
        assert forall|i: int| 0 <= i < k implies full(#[trigger] t[i]) by { if i < s.len() - 1 { assert(full(s[i])); } else { assert(s[i] == s.last()); } }
    }
}
pub proof fn lemma_place(s: Seq<Slot>, i: int, j: int)
    requires 0 <= i < s.len(), 0 <= j < s[i].lenghts@.len(),
    ensures place(s, i, j) + s[i].lenghts@[j] <= span(s, i + 1) <= span(s, s.len() as int), span(s, i) + slot_size(s[i].capacity) <= place(s, i, j),
{
    lemma_sum_add(s[i].lenghts@, j);
    assert(sum_of(s[i].lenghts@.take(j + 1)) <= sum_of(s[i].lenghts@));
    lemma_span_mono(s, i + 1, s.len() as int);
}
/// a slot is read from its own bytes only
pub proof fn lemma_slot_local(a: Seq<u8>, b: Seq<u8>)
    requires slot_ok(a), b.len() >= slot_size(cap_of(a)), a.take(slot_size(cap_of(a)) as int) == b.take(slot_size(cap_of(a)) as int),
    ensures slot_ok(b), slot_of(b) == slot_of(a),
{
    let n = slot_size(cap_of(a)) as int;
    let c = a.take(n);
    assert(a.take(8) =~= c.take(8)); assert(b.take(8) =~= c.take(8));
    assert(a.subrange(8, 16) =~= c.subrange(8, 16)); assert(b.subrange(8, 16) =~= c.subrange(8, 16));
    let k = cap_of(a);
    let (la, lb) = (lens_of(a, k as nat), lens_of(b, k as nat));
    assert forall|i: int| 0 <= i < k implies la[i] == lb[i] by {
        assert(a.subrange(16 + 8 * i, 24 + 8 * i) =~= c.subrange(16 + 8 * i, 24 + 8 * i));
        assert(b.subrange(16 + 8 * i, 24 + 8 * i) =~= c.subrange(16 + 8 * i, 24 + 8 * i));
    }
    assert(la =~= lb);
    assert(a.subrange(16 + 8 * k, 20 + 8 * k) =~= c.subrange(16 + 8 * k, 20 + 8 * k));
    assert(b.subrange(16 + 8 * k, 20 + 8 * k) =~= c.subrange(16 + 8 * k, 20 + 8 * k));
}
/// the bytes an insert changes
proof fn lemma_grown(d: Seq<u8>, a: nat, tbl: Seq<u8>, o: nat, b: Seq<u8>)
    requires a <= d.len(), a + tbl.len() <= o, o <= d.len() || o == a + tbl.len(), tbl.len() > 0, b.len() > 0,
    ensures ({
        let e = sio::put(sio::put(d, a, tbl), o, b);
        &&& e.len() >= o + b.len()
        &&& d.len() <= o + b.len() ==> e.len() == o + b.len()
        &&& forall|x: int| 0 <= x < a ==> e[x] == d[x]
        &&& forall|x: int| a + tbl.len() <= x < o ==> e[x] == d[x]
        &&& e.subrange(a as int, (a + tbl.len()) as int) == tbl
        &&& e.subrange(o as int, (o + b.len()) as int) == b
        &&& forall|x: int| o + b.len() <= x < d.len() ==> e[x] == d[x]
    })
{
    let e = sio::put(sio::put(d, a, tbl), o, b);
    assert(e.subrange(a as int, (a + tbl.len()) as int) =~= tbl);
    assert(e.subrange(o as int, (o + b.len()) as int) =~= b);
}
proof fn lemma_packs_same(d: Seq<u8>, e: Seq<u8>, s: Seq<Slot>, t: Seq<Slot>, k: int)
    requires
        0 <= k <= s.len(), k <= t.len(), forall|i: int| 0 <= i < k ==> (#[trigger] s[i]).v() == t[i].v() && span(s, i) == span(t, i),
        span(s, k) <= d.len(), span(s, k) <= e.len(), forall|x: int| 0 <= x < span(s, k) ==> d[x] == e[x],
    ensures packs(d, s, k) == packs(e, t, k),
    decreases k
{
    if k > 0 {
        lemma_span_mono(s, k - 1, k);
        lemma_packs_same(d, e, s, t, k - 1);
        let i = k - 1;
        assert(s[i].v().lens == t[i].v().lens && s[i].v().cap == t[i].v().cap);
        assert forall|j: int| 0 <= j < fz(s[i].lenghts@) implies pack_at(d, s, i, j) == pack_at(e, t, i, j) by {
            let u = s.take(k);
            lemma_span_same(u, s, i); lemma_span_same(u, s, k);
            lemma_place(u, i, j);
            assert(pack_at(d, s, i, j) =~= pack_at(e, t, i, j));
        }
        assert(slot_packs(d, s, i) =~= slot_packs(e, t, i));
    }
}
/// what the writer finds: k, the table before, how much of d there is
proof fn lemma_before(d: Seq<u8>, s: Seq<Slot>, t: Seq<Slot>, b: Seq<u8>)
    requires holds(d, s), all_wf(s), entered(s, t, b.len()), b.len() > 0,
    ensures ({
        let k = next_slot(s);
        let v = if k < s.len() { s[k].lenghts@ } else { no_lens() };
        let o = span(t, k) + slot_size(t[k].capacity) + sum_of(v);
        &&& packed(v) && fz(v) < v.len()
        &&& t[k].lenghts@ == v.update(fz(v), b.len() as u64)
        &&& span(t, k) == span(s, k)
        &&& span(t, k + 1) == o + b.len()
        &&& span(t, k) <= d.len()
        &&& o <= d.len() || o == span(t, k) + slot_size(t[k].capacity)
        &&& fz(v) > 0 ==> clean(d, s) && k < s.len() && span(s, k + 1) == o
    })
{
    hide(slot_ok); hide(slot_of); hide(slot_bytes);
    let k = next_slot(s);
    lemma_no_lens();
    lemma_span_same(s, t, k);
    let v = if k < s.len() { s[k].lenghts@ } else { no_lens() };
    if k < s.len() { assert(slot_wf(s[k].v())); assert(s.last() == s[k]); }
    lemma_enter(v, b.len() as u64);
    assert(span(t, k + 1) == span(t, k) + slot_size(t[k].capacity) + sum_of(t[k].lenghts@));
    if clean(d, s) {
        lemma_span_mono(s, k, s.len() as int);
    } else {
        assert(s.last() == s[s.len() - 1]);
        lemma_span_same(s, s.drop_last(), s.len() - 1);
    }
}
proof fn lemma_insert_slots(d: Seq<u8>, e: Seq<u8>, s: Seq<Slot>, t: Seq<Slot>, k: int)
    requires
        holds(d, s), k == next_slot(s), t.len() == k + 1, forall|i: int| 0 <= i < k ==> t[i] == s[i],
        span(t, k) <= d.len(), span(t, k) <= e.len(),
        forall|x: int| 0 <= x < span(t, k) ==> e[x] == d[x],
    ensures forall|i: int| 0 <= i < k ==> #[trigger] slot_at(e, t, i),
{
    assert forall|i: int| 0 <= i < k implies #[trigger] slot_at(e, t, i) by {
        let p = if clean(d, s) { s } else { s.drop_last() };
        lemma_span_same(p, t, i);
        lemma_span_mono(t, i + 1, k);
        assert(slot_at(d, p, i));
        assert(span(t, i + 1) == span(t, i) + slot_size(t[i].capacity) + sum_of(t[i].lenghts@));
        assert(p[i] == t[i]);
        assert(slot_of(d.skip(span(t, i) as int)).cap == t[i].capacity);
        lemma_slot_local_at(d, e, span(t, i) as int, t[i].capacity);
    }
}
proof fn lemma_insert_packs(d: Seq<u8>, e: Seq<u8>, s: Seq<Slot>, t: Seq<Slot>, b: Seq<u8>)
    requires
        holds(d, s), all_wf(s), entered(s, t, b.len()), b.len() > 0, e.len() >= span(t, next_slot(s) + 1),
        forall|x: int| 0 <= x < span(t, next_slot(s)) ==> e[x] == d[x],
        forall|x: int| span(t, next_slot(s)) + slot_size(t[next_slot(s)].capacity) <= x < span(t, next_slot(s) + 1) - b.len() ==> e[x] == d[x],
        e.subrange(span(t, next_slot(s) + 1) - b.len(), span(t, next_slot(s) + 1) as int) == b,
    ensures
        all_packs(e, t) == all_packs(d, s).push(b),
{
    hide(slot_ok); hide(slot_of); hide(slot_bytes); hide(chain);
    let k = next_slot(s);
    lemma_before(d, s, t, b);
    let v = if k < s.len() { s[k].lenghts@ } else { no_lens() };
    let w = v.update(fz(v), b.len() as u64);
    lemma_enter(v, b.len() as u64);
    let o = (span(t, k) + slot_size(t[k].capacity) + sum_of(v)) as nat;
    assert forall|i: int| 0 <= i < k implies (#[trigger] s[i]).v() == t[i].v() && span(s, i) == span(t, i) by { lemma_span_same(s, t, i); }
    lemma_packs_same(d, e, s, t, k);
    if k == s.len() { lemma_no_lens(); }
    let before = if k < s.len() { slot_packs(d, s, k) } else { Seq::empty() };
    assert forall|j: int| 0 <= j < fz(v) implies pack_at(e, t, k, j) == before[j] by {
        assert(w.take(j) == v.take(j));
        lemma_place(s, k, j);
        assert(place(t, k, j) == place(s, k, j));
        assert(w[j] == v[j]);
        assert(pack_at(e, t, k, j) =~= pack_at(d, s, k, j));
    }
    assert(place(t, k, fz(v)) == o) by { assert(w.take(fz(v)) == v.take(fz(v))); }
    assert(pack_at(e, t, k, fz(v)) == b);
    assert(slot_packs(e, t, k) =~= before.push(b));
    assert(packs(e, t, k + 1) == packs(e, t, k) + slot_packs(e, t, k));
    assert(packs(d, s, k) + before.push(b) =~= (packs(d, s, k) + before).push(b));
    if k == s.len() { assert(packs(d, s, k) + before =~= packs(d, s, k)); }
}
/// C09, C10: an insert keeps every packet where it is and adds the new one behind them
pub proof fn lemma_insert(d: Seq<u8>, s: Seq<Slot>, t: Seq<Slot>, b: Seq<u8>)
    requires holds(d, s), all_wf(s), entered(s, t, b.len()), b.len() > 0,
    ensures
        clean(grown(d, s, t, b), t),
        all_packs(grown(d, s, t, b), t) == all_packs(d, s).push(b),
        forall|x: int| 0 <= x < span(t, next_slot(s)) ==> grown(d, s, t, b)[x] == d[x],
        d.len() <= span(t, t.len() as int) ==> grown(d, s, t, b).len() == span(t, t.len() as int),
{
    hide(slot_ok); hide(slot_of); hide(slot_bytes); hide(packs); hide(fz); hide(sum_of);
    let k = next_slot(s);
    let e = grown(d, s, t, b);
    lemma_before(d, s, t, b);
    let a = span(t, k);
    let z = slot_size(t[k].capacity);
    let o = (span(t, k + 1) - b.len()) as nat;
    let tbl = slot_bytes(t[k].v());
    assert(t[k].lenghts@.len() == t[k].capacity) by { if k < s.len() { assert(slot_wf(s[k].v())); } }
    lemma_slot_round_trip(t[k].v(), Seq::empty());
    lemma_grown(d, a, tbl, o, b);
    lemma_insert_slots(d, e, s, t, k);
    let rest = e.skip((a + z) as int);
    lemma_slot_round_trip(t[k].v(), rest);
    assert(e.skip(a as int) =~= tbl + rest) by { assert(e.subrange(a as int, (a + z) as int) == tbl); }
    assert(slot_at(e, t, k));
    assert forall|i: int| 0 <= i < t.len() implies #[trigger] slot_at(e, t, i) by { if i < k { } else { assert(i == k); } }
    lemma_insert_packs(d, e, s, t, b);
}
proof fn lemma_slot_local_at(d: Seq<u8>, e: Seq<u8>, q: int, cap: u64)
    requires 0 <= q, slot_ok(d.skip(q)), cap_of(d.skip(q)) == cap, q + slot_size(cap) <= d.len(), q + slot_size(cap) <= e.len(), forall|x: int| 0 <= x < q + slot_size(cap) ==> d[x] == e[x],
    ensures slot_ok(e.skip(q)), slot_of(e.skip(q)) == slot_of(d.skip(q)),
{
    let z = slot_size(cap) as int;
    assert(d.skip(q).take(z) =~= e.skip(q).take(z));
    lemma_slot_local(d.skip(q), e.skip(q));
}
pub proof fn lemma_inserts(d: Seq<u8>, s: Seq<Slot>, b: Seq<u8>)
    requires all_wf(s), b.len() > 0,
    ensures
        forall|t: Seq<Slot>| #![trigger grown(d, s, t, b)] holds(d, s) && entered(s, t, b.len()) ==>
            clean(grown(d, s, t, b), t) && all_packs(grown(d, s, t, b), t) == all_packs(d, s).push(b),
{
    assert forall|t: Seq<Slot>| #![trigger grown(d, s, t, b)] holds(d, s) && entered(s, t, b.len()) implies
            clean(grown(d, s, t, b), t) && all_packs(grown(d, s, t, b), t) == all_packs(d, s).push(b) by { lemma_insert(d, s, t, b); }
}
/// C09: whoever opens the storage finds the slots and packets the writer has put there
pub proof fn lemma_reopen(d: Seq<u8>, s: Seq<Slot>, t: Seq<Slot>)
    requires clean(d, s), d.len() == span(s, s.len() as int), chain(d, t), stops(d, span(t, t.len() as int)),
    ensures
        t.len() == s.len(), forall|i: int| 0 <= i < s.len() ==> s[i].v() == #[trigger] t[i].v(),
        all_packs(d, t) == all_packs(d, s),
{
    let n = s.len() as int;
    assert(sio::tail(d, span(s, n)).len() == 0);
    lemma_chain_whole(d, s, t);
    lemma_chain_same(d, s, t, n);
    assert forall|i: int| 0 <= i < n implies s[i].v() == #[trigger] t[i].v() by { assert(s[i].v() == t[i].v()); }
    lemma_packs_same(d, d, s, t, n);
}
}
pub use store_lemmas::*;
