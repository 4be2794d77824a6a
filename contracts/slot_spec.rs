// ---------------------------------------------------------------- slot: what the bytes are
pub struct SlotV { pub cap: u64, pub lens: Seq<u64>, pub crc: Seq<u8> }
impl Slot {
    pub open spec fn v(&self) -> SlotV { SlotV { cap: self.capacity, lens: self.lenghts@, crc: self.crc@ } }
}
pub open spec fn slot_crc(cap: u64, lens: Seq<u64>) -> u32 { crc32_of(cap.le() + flat_le(lens)) }
pub open spec fn slot_bytes(v: SlotV) -> Seq<u8> { STORAGE_SLOT_SIG@ + v.cap.le() + flat_le(v.lens) + v.crc }
/// number of bytes of a slot of this capacity
pub open spec fn slot_size(cap: u64) -> nat { (20 + 8 * cap) as nat }
pub open spec fn cap_of(s: Seq<u8>) -> u64 { u64::of_le(s.subrange(8, 16)) }
pub open spec fn lens_of(s: Seq<u8>, n: nat) -> Seq<u64> {
    Seq::new(n, |i: int| u64::of_le(s.subrange(16 + 8 * i, 24 + 8 * i)))
}
pub open spec fn slot_of(s: Seq<u8>) -> SlotV {
    let c = cap_of(s);
    SlotV { cap: c, lens: lens_of(s, c as nat), crc: s.subrange(16 + 8 * c, 20 + 8 * c) }
}
pub open spec fn slot_sig_ok(s: Seq<u8>) -> bool { s.take(8) == STORAGE_SLOT_SIG@ }
pub open spec fn slot_fits(s: Seq<u8>) -> bool { s.len() >= slot_size(cap_of(s)) }
pub open spec fn slot_crc_ok(v: SlotV) -> bool { v.crc == slot_crc(v.cap, v.lens).le() }
pub open spec fn slot_ok(s: Seq<u8>) -> bool {
    s.len() >= 16 && slot_sig_ok(s) && slot_fits(s) && slot_crc_ok(slot_of(s))
}
/// used lengths followed by zeros
pub open spec fn packed(s: Seq<u64>) -> bool {
    forall|i: int, j: int| 0 <= i < j < s.len() && #[trigger] s[i] == 0 ==> #[trigger] s[j] == 0
}
pub open spec fn nonzero() -> spec_fn(u64) -> bool { |x: u64| x > 0 }
/// what every function on a table relies on
pub open spec fn slot_wf(v: SlotV) -> bool {
    &&& packed(v.lens)
    &&& v.lens.len() == v.cap
    &&& slot_size(v.cap) + sum_of(v.lens) <= u64::MAX
}
pub use slotax::fz;
pub mod slotax {
    use super::*;
/// first zero of the table (its length when there is none)
pub open spec fn fz(s: Seq<u64>) -> int
    decreases s.len()
{
    if s.len() == 0 { 0 } else {
        let k = fz(s.drop_last());
        if k < s.len() - 1 { k } else if s.last() == 0 { s.len() - 1 } else { s.len() as int }
    }
}
    pub broadcast proof fn fz_first(s: Seq<u64>)
        ensures
            0 <= #[trigger] fz(s) <= s.len(),
            fz(s) < s.len() ==> s[fz(s)] == 0,
            forall|i: int| 0 <= i < fz(s) ==> s[i] != 0,
        decreases s.len()
    {
        if s.len() > 0 { fz_first(s.drop_last()); 
            let k = fz(s.drop_last());
            assert(forall|i: int| 0 <= i < k ==> s.drop_last()[i] == s[i]);
        }
    }
    pub broadcast proof fn sum_part(s: Seq<u64>, k: int)
        requires 0 <= k <= s.len(),
        ensures #[trigger] sum_of(s.take(k)) <= sum_of(s),
        decreases s.len()
    {
        if k < s.len() {
            sum_part(s.drop_last(), k);
            assert(s.drop_last().take(k) =~= s.take(k));
        } else { assert(s.take(k) =~= s); }
    }
    pub broadcast proof fn sub_take(s: Seq<u64>, k: int)
        requires 0 <= k <= s.len(),
        ensures #[trigger] s.subrange(0, k) == s.take(k)
    { assert(s.subrange(0, k) =~= s.take(k)); }
    pub broadcast group slots { fz_first, sum_part, sub_take }
}
pub proof fn lemma_sum_add(s: Seq<u64>, k: int)
    requires 0 <= k < s.len(),
    ensures sum_of(s.take(k + 1)) == sum_of(s.take(k)) + s[k],
{ assert(s.take(k + 1).drop_last() =~= s.take(k)); }
pub proof fn lemma_sum_zeros(s: Seq<u64>, k: int)
    requires 0 <= k <= s.len(), forall|i: int| k <= i < s.len() ==> s[i] == 0,
    ensures sum_of(s) == sum_of(s.take(k)),
    decreases s.len()
{
    if k == s.len() { assert(s.take(k) =~= s); } else {
        lemma_sum_zeros(s.drop_last(), k);
        assert(s.drop_last().take(k) =~= s.take(k));
    }
}
pub proof fn lemma_count_packed(s: Seq<u64>)
    requires packed(s),
    ensures count_of(s, nonzero()) == fz(s),
    decreases s.len()
{
    if s.len() > 0 {
        let d = s.drop_last();
        assert(forall|i: int| 0 <= i < d.len() ==> d[i] == s[i]);
        lemma_count_packed(d);
        if fz(d) < d.len() { assert(s[fz(d)] == 0); assert(s[s.len() - 1] == 0); }
    }
}
pub proof fn lemma_flat_len(s: Seq<u64>)
    ensures flat_le(s).len() == 8 * s.len(),
    decreases s.len()
{
    if s.len() > 0 { lemma_flat_len(s.drop_last()); le64(s.last()); }
}
pub proof fn lemma_flat_add(s: Seq<u64>, x: u64)
    ensures flat_le(s.push(x)) == flat_le(s) + x.le(),
{ assert(s.push(x).drop_last() =~= s); }
pub proof fn lemma_flat_at(s: Seq<u64>, i: int)
    requires 0 <= i < s.len(),
    ensures flat_le(s).len() == 8 * s.len(), flat_le(s).subrange(8 * i, 8 * i + 8) == s[i].le(),
    decreases s.len()
{
    lemma_flat_len(s); lemma_flat_len(s.drop_last()); le64(s.last());
    if i == s.len() - 1 {
        assert(flat_le(s).subrange(8 * i, 8 * i + 8) =~= s[i].le());
    } else {
        lemma_flat_at(s.drop_last(), i);
        assert(flat_le(s).subrange(8 * i, 8 * i + 8) =~= flat_le(s.drop_last()).subrange(8 * i, 8 * i + 8));
    }
}
/// C11: reading a written slot gives it back, whatever follows
pub proof fn lemma_slot_round_trip(v: SlotV, t: Seq<u8>)
    requires v.lens.len() == v.cap, v.crc.len() == 4,
    ensures
        slot_bytes(v).len() == slot_size(v.cap),
        slot_of(slot_bytes(v) + t) == v,
        slot_sig_ok(slot_bytes(v) + t),
        slot_ok(slot_bytes(v) + t) <==> slot_crc_ok(v),
{
    le64(v.cap); lemma_flat_len(v.lens);
    let s = slot_bytes(v) + t;
    assert(s.take(8) =~= STORAGE_SLOT_SIG@);
    assert(s.subrange(8, 16) =~= v.cap.le());
    let l = lens_of(s, v.cap as nat);
    assert forall|i: int| 0 <= i < v.cap implies l[i] == v.lens[i] by {
        lemma_flat_at(v.lens, i); le64(v.lens[i]);
        assert(s.subrange(16 + 8 * i, 24 + 8 * i) =~= flat_le(v.lens).subrange(8 * i, 8 * i + 8));
    }
    assert(l =~= v.lens);
    assert(s.subrange(16 + 8 * v.cap, 20 + 8 * v.cap) =~= v.crc);
}
pub trait Size { spec fn size_req(&self) -> bool; fn size(&self) -> u64 requires self.size_req(); }
