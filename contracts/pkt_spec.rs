// ---------------------------------------------------------------- packets
pub open spec fn bcat<B: BlockDef>(v: Seq<B>) -> Seq<u8>
    decreases v.len()
{
    if v.len() == 0 { Seq::empty() } else { bcat(v.drop_last()) + v.last().bytes() }
}
pub open spec fn pay_bytes<Inner: PayloadInnerDef>(p: Option<Inner>) -> Seq<u8> {
    match p { Some(i) => framed(&i), None => Seq::empty() }
}
pub open spec fn pay_fails<Inner: PayloadInnerDef>(p: Option<Inner>) -> bool {
    match p { Some(i) => framing_fails(&i), None => false }
}
pub open spec fn pay_size<Inner: PayloadInnerDef>(p: Option<Inner>) -> nat {
    match p { Some(i) => (6 + bb(i.sig_spec()).len() + bb(i.crc_spec()).len() + i.size_spec()) as nat, None => 0 }
}
/// the header brec writes for these blocks and this payload
pub open spec fn pkt_hdr<B: BlockDef, Inner: PayloadInnerDef>(v: Seq<B>, p: Option<Inner>) -> PacketHeader {
    let size = (bcat(v).len() + pay_size(p)) as u64;
    let blocks_len = bcat(v).len() as u64;
    PacketHeader { size, blocks_len, payload: p is Some, crc: hdr_crc(size, blocks_len, p is Some) }
}
pub open spec fn opt_val<T>(p: Option<&T>) -> Option<T> { match p { Some(i) => Some(*i), None => None } }
pub open spec fn pkt_bytes<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef>(p: PacketDef<B, P, Inner>) -> Seq<u8> {
    hdr_bytes(pkt_hdr(p.blocks@, p.payload)) + bcat(p.blocks@) + pay_bytes(p.payload)
}
/// C05: the packet can be written, and its sizes fit the header's fields
pub open spec fn pkt_fits<B: BlockDef, Inner: PayloadInnerDef>(v: Seq<B>, p: Option<Inner>) -> bool {
    bcat(v).len() + pay_size(p) + 29 <= usize::MAX
}

// reading: the blocks behind a header that declares `want` bytes of them
pub open spec fn run<B: BlockDef>(s: Seq<u8>, want: nat, read: nat, v: Seq<B>) -> Option<Seq<B>>
    decreases 255 - v.len()
{
    if v.len() >= 255 { None } else {
        match B::bdec(s.skip(read as int)) {
            None => None,
            Some((b, n)) => if read + n == want { Some(v.push(b)) } else { run(s, want, (read + n) as nat, v.push(b)) },
        }
    }
}
pub open spec fn blocks_at<B: BlockDef>(s: Seq<u8>, want: nat) -> Option<Seq<B>> {
    if want == 0 { Some(Seq::empty()) } else { run(s, want, 0, Seq::empty()) }
}
pub open spec fn phdr_of(s: Seq<u8>) -> PayloadHeader { choose|h: PayloadHeader| phdr_is(s, h) }
pub proof fn lemma_phdr_of(s: Seq<u8>, h: PayloadHeader)
    requires phdr_is(s, h)
    ensures phdr_of(s) == h
{
    let g = phdr_of(s);
    assert(phdr_is(s, g));
    lemma_bb_inj(g.sig, h.sig);
    lemma_bb_inj(g.crc, h.crc);
}
/// the payload of s, with payload header: value and bytes taken
pub open spec fn payload_at<P: PayloadDef<Inner>, Inner: PayloadInnerDef>(s: Seq<u8>) -> Option<(Inner, nat)> {
    if !phdr_ok(s) { None } else {
        match P::pdec(phdr_of(s), s.skip(phdr_len(s) as int)) {
            None => None,
            Some(v) => Some((v, (phdr_len(s) + phdr_of(s).len) as nat)),
        }
    }
}
/// what stands behind the packet header h: blocks, payload, bytes taken
pub open spec fn pkt_dec<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef>(h: PacketHeader, s: Seq<u8>) -> Option<(Seq<B>, Option<Inner>, nat)> {
    match blocks_at::<B>(s, h.blocks_len as nat) {
        None => None,
        Some(v) => if !h.payload { Some((v, None, h.blocks_len as nat)) } else {
            match payload_at::<P, Inner>(s.skip(h.blocks_len as int)) {
                None => None,
                Some((p, n)) => Some((v, Some(p), (h.blocks_len + n) as nat)),
            }
        },
    }
}
/// p is what stands behind the packet header
pub open spec fn pkt_is<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef>(h: PacketHeader, s: Seq<u8>, p: PacketDef<B, P, Inner>) -> bool {
    let d = pkt_dec::<B, P, Inner>(h, s);
    d is Some && (d->0).0 == p.blocks@ && (d->0).1 == p.payload
}
pub open spec fn pkt_len<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef>(h: PacketHeader, s: Seq<u8>) -> nat {
    (pkt_dec::<B, P, Inner>(h, s)->0).2
}
/// C06: not more than 255 blocks
pub proof fn lemma_run_max<B: BlockDef>(s: Seq<u8>, want: nat, read: nat, v: Seq<B>)
    ensures run(s, want, read, v) is Some ==> run(s, want, read, v)->0.len() <= 255
    decreases 255 - v.len()
{
    if v.len() < 255 {
        match B::bdec(s.skip(read as int)) {
            None => {},
            Some((b, n)) => { if read + n != want { lemma_run_max(s, want, (read + n) as nat, v.push(b)); } },
        }
    }
}
pub proof fn lemma_bcat_take<B: BlockDef>(v: Seq<B>, k: int)
    requires 0 <= k < v.len(),
    ensures
        bcat(v.take(k + 1)) == bcat(v.take(k)) + v[k].bytes(),
        bcat(v.take(k + 1)).len() <= bcat(v).len(),
{ assert(v.take(k + 1).drop_last() =~= v.take(k)); lemma_bcat_mono(v, k + 1); }
pub proof fn lemma_bcat_mono<B: BlockDef>(v: Seq<B>, k: int)
    requires 0 <= k <= v.len(),
    ensures bcat(v.take(k)).len() <= bcat(v).len()
    decreases v.len() - k
{
    if k == v.len() { assert(v.take(k) =~= v); } else {
        assert(v.take(k + 1).drop_last() =~= v.take(k));
        lemma_bcat_mono(v, k + 1);
    }
}
/// what the header declares to belong to the packet
pub open spec fn pkt_end(s: Seq<u8>) -> nat { 29 + hdr_of(s).size as nat }
pub open spec fn pkt_window(s: Seq<u8>) -> Seq<u8> { s.subrange(29, pkt_end(s) as int) }
pub proof fn lemma_run_end<B: BlockDef>(s: Seq<u8>, want: nat, read: nat, v: Seq<B>)
    ensures run(s, want, read, v) is Some ==> read < want && B::bdec(s.skip(read as int)) is Some && read + (B::bdec(s.skip(read as int))->0).1 <= want
    decreases 255 - v.len()
{
    if v.len() < 255 {
        match B::bdec(s.skip(read as int)) {
            None => {},
            Some((b, n)) => {
                B::law_size(s.skip(read as int));
                if read + n != want { lemma_run_end(s, want, (read + n) as nat, v.push(b)); }
            },
        }
    }
}
/// what a shown prefix says is what the whole says
pub proof fn lemma_prefix(s: Seq<u8>, n: int)
    requires 0 <= n <= s.len(),
    ensures
        n >= 29 ==> hdr_of(s.take(n)) == hdr_of(s) && (hdr_ok(s.take(n)) <==> hdr_ok(s)) && hdr_sig_ok(s.take(n)) == hdr_sig_ok(s),
        phdr_ok(s) && n >= phdr_len(s) ==> phdr_need(s.take(n)) == 0,
{
    if n >= 29 {
        assert(s.take(n).take(8) =~= s.take(8));
        assert(s.take(n).subrange(8, 16) =~= s.subrange(8, 16));
        assert(s.take(n).subrange(16, 24) =~= s.subrange(16, 24));
        assert(s.take(n).subrange(25, 29) =~= s.subrange(25, 29));
    }
}
/// the laws of blocks and the reading of headers, for all bytes
pub open spec fn reading_laws<B: BlockDef>() -> bool {
    &&& forall|s: Seq<u8>| (#[trigger] B::bdec(s)) is Some ==> 0 < (B::bdec(s)->0).1 <= s.len() && (B::bdec(s)->0).1 == (B::bdec(s)->0).0.bytes().len()
    &&& forall|s: Seq<u8>, want: nat, read: nat, v: Seq<B>| (#[trigger] run(s, want, read, v)) is Some ==> read < want && B::bdec(s.skip(read as int)) is Some && read + (B::bdec(s.skip(read as int))->0).1 <= want
    &&& forall|s: Seq<u8>, h: PayloadHeader| #[trigger] phdr_is(s, h) ==> phdr_of(s) == h && (phdr_ok(s) ==> phdr_bytes(h).len() == phdr_len(s))
    &&& forall|s: Seq<u8>, n: int| #![trigger hdr_of(s.take(n))] #![trigger hdr_ok(s.take(n))] 29 <= n <= s.len() ==> hdr_of(s.take(n)) == hdr_of(s) && (hdr_ok(s.take(n)) <==> hdr_ok(s))
    &&& forall|s: Seq<u8>, n: int| 0 <= n <= s.len() && phdr_ok(s) && n >= phdr_len(s) ==> #[trigger] phdr_need(s.take(n)) == 0
}
pub proof fn lemma_reading<B: BlockDef>()
    ensures reading_laws::<B>()
{
    assert forall|s: Seq<u8>| (#[trigger] B::bdec(s)) is Some implies 0 < (B::bdec(s)->0).1 <= s.len() && (B::bdec(s)->0).1 == (B::bdec(s)->0).0.bytes().len() by { B::law_size(s); }
    assert forall|s: Seq<u8>, want: nat, read: nat, v: Seq<B>| (#[trigger] run(s, want, read, v)) is Some implies read < want && B::bdec(s.skip(read as int)) is Some && read + (B::bdec(s.skip(read as int))->0).1 <= want by { lemma_run_end(s, want, read, v); }
    assert forall|s: Seq<u8>, h: PayloadHeader| #[trigger] phdr_is(s, h) implies phdr_of(s) == h && (phdr_ok(s) ==> phdr_bytes(h).len() == phdr_len(s)) by { lemma_phdr_of(s, h); }
    assert forall|s: Seq<u8>, n: int| #![trigger hdr_of(s.take(n))] #![trigger hdr_ok(s.take(n))] 29 <= n <= s.len() implies hdr_of(s.take(n)) == hdr_of(s) && (hdr_ok(s.take(n)) <==> hdr_ok(s)) by { lemma_prefix(s, n); }
    assert forall|s: Seq<u8>, n: int| 0 <= n <= s.len() && phdr_ok(s) && n >= phdr_len(s) implies #[trigger] phdr_need(s.take(n)) == 0 by { lemma_prefix(s, n); }
}
// where the parts of a packet are
pub open spec fn off<B: BlockDef>(v: Seq<B>, k: int) -> int { 29 + bcat(v.take(k)).len() as int }
pub open spec fn laid_out<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef>(s: Seq<u8>, p: PacketDef<B, P, Inner>) -> bool {
    &&& s.len() == 29 + bcat(p.blocks@).len() + pay_bytes(p.payload).len()
    &&& s.subrange(0, 29) == hdr_bytes(pkt_hdr(p.blocks@, p.payload))
    &&& hdr_bytes(pkt_hdr(p.blocks@, p.payload)).len() == 29
    &&& off(p.blocks@, 0) == 29
    &&& off(p.blocks@, p.blocks@.len() as int) == 29 + bcat(p.blocks@).len()
    &&& forall|i: int| 0 <= i < p.blocks@.len() ==> block_at(s, p.blocks@, i)
    &&& s.subrange(29 + bcat(p.blocks@).len() as int, s.len() as int) == pay_bytes(p.payload)
}
pub open spec fn block_at<B: BlockDef>(s: Seq<u8>, v: Seq<B>, i: int) -> bool {
    &&& off(v, i + 1) == off(v, i) + v[i].bytes().len()
    &&& off(v, i + 1) <= 29 + bcat(v).len() <= s.len()
    &&& s.subrange(off(v, i), off(v, i) + v[i].bytes().len()) == v[i].bytes()
}
pub mod pkt_lemmas {
use super::*;
pub proof fn lemma_bcat_at<B: BlockDef>(v: Seq<B>, i: int)
    requires 0 <= i < v.len(),
    ensures
        bcat(v.take(i + 1)).len() == bcat(v.take(i)).len() + v[i].bytes().len() <= bcat(v).len(),
        bcat(v).subrange(bcat(v.take(i)).len() as int, bcat(v.take(i + 1)).len() as int) == v[i].bytes(),
    decreases v.len()
{
    lemma_bcat_take(v, i);
    let w = v.drop_last();
    if i == v.len() - 1 {
        assert(v.take(i + 1) =~= v);
        assert(v.take(i) =~= w);
        assert(bcat(v).subrange(bcat(w).len() as int, bcat(v).len() as int) =~= v[i].bytes());
    } else {
        lemma_bcat_at(w, i);
        assert(w.take(i) =~= v.take(i));
        assert(w.take(i + 1) =~= v.take(i + 1));
        assert(bcat(v).subrange(bcat(v.take(i)).len() as int, bcat(v.take(i + 1)).len() as int)
            =~= bcat(w).subrange(bcat(v.take(i)).len() as int, bcat(v.take(i + 1)).len() as int));
    }
}
pub proof fn lemma_laid_out<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef>(p: PacketDef<B, P, Inner>)
    ensures laid_out(pkt_bytes(p), p)
{
    let s = pkt_bytes(p);
    let v = p.blocks@;
    let h = pkt_hdr(v, p.payload);
    le64(h.size); le64(h.blocks_len); le32(h.crc);
    assert(hdr_bytes(h).len() == 29);
    assert(s.subrange(0, 29) =~= hdr_bytes(h));
    assert(v.take(0) =~= Seq::<B>::empty());
    assert(v.take(v.len() as int) =~= v);
    assert forall|i: int| 0 <= i < v.len() implies block_at(s, v, i) by {
        lemma_bcat_at(v, i);
        let (a, b) = (bcat(v.take(i)).len() as int, bcat(v.take(i + 1)).len() as int);
        assert(s.subrange(29 + a, 29 + b) =~= bcat(v).subrange(a, b));
    }
    assert(s.subrange(29 + bcat(v).len() as int, s.len() as int) =~= pay_bytes(p.payload));
}
}
pub use pkt_lemmas::*;
/// the length a written payload has is the length the packet header declares
pub proof fn lemma_pay_len<Inner: PayloadInnerDef>(p: Option<Inner>)
    ensures !pay_fails(p) ==> pay_bytes(p).len() == pay_size(p)
{
    match p {
        Some(i) => {
            i.law_lengths();
            let h = hdr_for(&i);
            le32(h.len);
            assert(phdr_bytes(h).len() == 6 + bb(h.sig).len() + bb(h.crc).len());
        },
        None => {},
    }
}
pub mod pkt_round {
use super::*;
proof fn lemma_rest_at<B: BlockDef>(v: Seq<B>, i: int, t: Seq<u8>)
    requires 0 <= i < v.len(),
    ensures ({
        let (a, b) = (bcat(v.take(i)).len() as int, bcat(v.take(i + 1)).len() as int);
        &&& a + v[i].bytes().len() == b <= bcat(v).len()
        &&& v[i].bytes().len() > 0
        &&& B::bdec((bcat(v) + t).skip(a)) == Some((v[i], v[i].bytes().len()))
    })
{
    lemma_bcat_at(v, i);
    let (a, b) = (bcat(v.take(i)).len() as int, bcat(v.take(i + 1)).len() as int);
    let s = (bcat(v) + t).skip(a);
    let x = s.skip(b - a);
    assert(bcat(v).subrange(a, b) =~= s.take(b - a));
    assert(s =~= v[i].bytes() + x);
    v[i].law_round(x);
    B::law_size(s);
}
proof fn lemma_run_round<B: BlockDef>(v: Seq<B>, i: int, t: Seq<u8>)
    requires 0 <= i < v.len() <= 255,
    ensures run(bcat(v) + t, bcat(v).len(), bcat(v.take(i)).len(), v.take(i)) == Some(v)
    decreases v.len() - i
{
    lemma_rest_at(v, i, t);
    assert(v.take(i).push(v[i]) =~= v.take(i + 1));
    if i + 1 == v.len() {
        assert(v.take(i + 1) =~= v);
    } else {
        lemma_rest_at(v, i + 1, t);
        lemma_run_round(v, i + 1, t);
        let z = bcat(v.take(i + 1)).len();
        lemma_bcat_at(v, i + 1);
        assert(z < bcat(v).len());
    }
}
/// C05: what stands behind the header of a written packet is the packet, whatever follows
pub proof fn lemma_pkt_round_trip<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef>(p: PacketDef<B, P, Inner>, t: Seq<u8>)
    requires
        p.blocks@.len() <= 255, !pay_fails(p.payload), pkt_fits(p.blocks@, p.payload),
    ensures
        hdr_ok(pkt_bytes(p) + t),
        hdr_of(pkt_bytes(p) + t) == pkt_hdr(p.blocks@, p.payload),
        pkt_end(pkt_bytes(p) + t) == pkt_bytes(p).len(),
        pkt_is(hdr_of(pkt_bytes(p) + t), (pkt_bytes(p) + t).skip(29), p),
        pkt_len::<B, P, Inner>(hdr_of(pkt_bytes(p) + t), (pkt_bytes(p) + t).skip(29)) == pkt_bytes(p).len() - 29,
        pkt_is(hdr_of(pkt_bytes(p) + t), pkt_window(pkt_bytes(p) + t), p),
{
    let v = p.blocks@;
    let h = pkt_hdr(v, p.payload);
    let u = bcat(v) + pay_bytes(p.payload) + t;
    lemma_hdr_round_trip(h, u);
    assert(pkt_bytes(p) + t =~= hdr_bytes(h) + u);
    lemma_pay_len(p.payload);
    assert((pkt_bytes(p) + t).skip(29) =~= u);
    lemma_dec_round(p, t);
    lemma_dec_round(p, Seq::empty());
    assert(pkt_window(pkt_bytes(p) + t) =~= bcat(v) + pay_bytes(p.payload) + Seq::<u8>::empty());
}
pub proof fn lemma_blocks_round<B: BlockDef>(v: Seq<B>, t: Seq<u8>)
    requires v.len() <= 255,
    ensures blocks_at::<B>(bcat(v) + t, bcat(v).len()) == Some(v)
{
    if v.len() > 0 {
        assert(v.take(0) =~= Seq::<B>::empty());
        lemma_rest_at(v, 0, t);
        lemma_run_round(v, 0, t);
        lemma_bcat_at(v, 0);
    } else { assert(v =~= Seq::<B>::empty()); }
}
proof fn lemma_dec_round<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef>(p: PacketDef<B, P, Inner>, t: Seq<u8>)
    requires
        p.blocks@.len() <= 255, !pay_fails(p.payload), pkt_fits(p.blocks@, p.payload),
    ensures
        pkt_dec::<B, P, Inner>(pkt_hdr(p.blocks@, p.payload), bcat(p.blocks@) + pay_bytes(p.payload) + t)
            == Some((p.blocks@, p.payload, bcat(p.blocks@).len() + pay_bytes(p.payload).len())),
{
    let v = p.blocks@;
    let h = pkt_hdr(v, p.payload);
    let w = pay_bytes(p.payload) + t;
    let s = bcat(v) + pay_bytes(p.payload) + t;
    assert(s =~= bcat(v) + w);
    if v.len() > 0 {
        assert(v.take(0) =~= Seq::<B>::empty());
        lemma_rest_at(v, 0, w);
        lemma_run_round(v, 0, w);
        lemma_bcat_at(v, 0);
        assert(h.blocks_len > 0);
    } else { assert(v =~= Seq::<B>::empty()); }
    assert(blocks_at::<B>(s, h.blocks_len as nat) == Some(v));
    assert(s.skip(h.blocks_len as int) =~= w);
    match p.payload {
        Some(i) => {
            let g = hdr_for(&i);
            let x = body(&i) + t;
            assert(w =~= phdr_bytes(g) + x);
            assert(phdr_is(w, g)) by {
                le32(g.len);
                lemma_bb_len(g.sig); lemma_bb_len(g.crc);
                let (sl, cl) = (bb(g.sig).len() as int, bb(g.crc).len() as int);
                assert(w[0] == sl as u8);
                assert(w[1 + sl] == cl as u8);
                assert(w.subrange(1, 1 + sl) =~= bb(g.sig));
                assert(w.subrange(2 + sl, 2 + sl + cl) =~= bb(g.crc));
                assert(w.subrange(2 + sl + cl, 6 + sl + cl) =~= g.len.le());
            }
            lemma_phdr_round_trip(g, g, x);
            lemma_phdr_of(w, g);
            assert(w.skip(phdr_len(w) as int) =~= x);
            P::law_round(&i, t);
            i.law_lengths();
            lemma_pay_len(p.payload);
        },
        None => {},
    }
}
}
pub use pkt_round::{lemma_pkt_round_trip, lemma_blocks_round};
