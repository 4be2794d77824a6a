// ---------------------------------------------------------------- packet stream reader
/// a packet signature stands at i
pub open spec fn sig_at(s: Seq<u8>, i: int) -> bool { 0 <= i && i + 8 <= s.len() && s.subrange(i, i + 8) == PACKET_SIG@ }
pub open spec fn no_sig(s: Seq<u8>, n: int) -> bool { forall|i: int| 0 <= i < n ==> !(#[trigger] sig_at(s, i)) }
/// the first signature of s stands at i
pub open spec fn first_sig(s: Seq<u8>, i: int) -> bool { sig_at(s, i) && no_sig(s, i) }
/// what an ignore rule was told, in one piece
pub open spec fn cat(v: Seq<Seq<u8>>) -> Seq<u8>
    decreases v.len()
{ if v.len() == 0 { Seq::empty() } else { cat(v.drop_last()) + v.last() } }
/// the ignore rule was told the bytes x (in any number of calls), nothing else changed
pub open spec fn reported<B: BlockDef, BR: BlockReferredDef<B>, P: PayloadDef<Inner>, Inner: PayloadInnerDef>(a: Seq<RuleDef<B, BR, P, Inner>>, b: Seq<RuleDef<B, BR, P, Inner>>, x: Seq<u8>) -> bool {
    &&& a.len() == b.len()
    &&& forall|i: int| 0 <= i < a.len() ==> told_all(a[i], #[trigger] b[i], x)
}
pub open spec fn told_all<B: BlockDef, BR: BlockReferredDef<B>, P: PayloadDef<Inner>, Inner: PayloadInnerDef>(a: RuleDef<B, BR, P, Inner>, b: RuleDef<B, BR, P, Inner>, x: Seq<u8>) -> bool {
    match a {
        RuleDef::Ignored(f) => b is Ignored && cat(sink_seen(b->Ignored_0)) == cat(sink_seen(f)) + x,
        _ => b == a,
    }
}
pub open spec fn told_once<B: BlockDef, BR: BlockReferredDef<B>, P: PayloadDef<Inner>, Inner: PayloadInnerDef>(a: Seq<RuleDef<B, BR, P, Inner>>, b: Seq<RuleDef<B, BR, P, Inner>>, x: Seq<u8>) -> bool {
    a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> told(a[i], #[trigger] b[i], x)
}
pub proof fn lemma_told<B: BlockDef, BR: BlockReferredDef<B>, P: PayloadDef<Inner>, Inner: PayloadInnerDef>(a: Seq<RuleDef<B, BR, P, Inner>>)
    ensures
        forall|b: Seq<RuleDef<B, BR, P, Inner>>, x: Seq<u8>| told_once(a, b, x) ==> #[trigger] reported(a, b, x),
        forall|x: Seq<u8>| x.len() == 0 ==> #[trigger] reported(a, a, x),
{
    assert forall|x: Seq<u8>| x.len() == 0 implies #[trigger] reported(a, a, x) by {
        assert forall|i: int| 0 <= i < a.len() implies told_all(a[i], #[trigger] a[i], x) by {
            if a[i] is Ignored { let s = cat(sink_seen(a[i]->Ignored_0)); assert(s + x =~= s); }
        }
    }
    assert forall|b: Seq<RuleDef<B, BR, P, Inner>>, x: Seq<u8>| told_once(a, b, x) implies #[trigger] reported(a, b, x) by {
        assert forall|i: int| 0 <= i < a.len() implies told_all(a[i], #[trigger] b[i], x) by {
            assert(told(a[i], b[i], x));
            if a[i] is Ignored { let s = sink_seen(a[i]->Ignored_0); assert(s.push(x).drop_last() =~= s); assert(s.push(x).last() == x); }
        }
    }
}
/// the filters do not change while an ignore rule is told something
pub proof fn lemma_reported_filters<B: BlockDef, BR: BlockReferredDef<B>, P: PayloadDef<Inner>, Inner: PayloadInnerDef>(a: Seq<RuleDef<B, BR, P, Inner>>, b: Seq<RuleDef<B, BR, P, Inner>>, x: Seq<u8>)
    requires reported(a, b, x),
    ensures
        forall|v: Seq<BR>| #[trigger] blocks_ok(b, v) == blocks_ok(a, v),
        forall|v: Seq<u8>| #[trigger] payload_ok(b, v) == payload_ok(a, v),
        forall|v: PacketDef<B, P, Inner>| #[trigger] packet_ok(b, v) == packet_ok(a, v),
{
    assert forall|i: int| 0 <= i < a.len() implies kind(#[trigger] a[i]) == kind(b[i]) && (kind(a[i]) != 0 ==> a[i] == b[i]) by { assert(told_all(a[i], b[i], x)); }
    assert forall|k: int, i: int| #[trigger] first_kind(a, k, i) == first_kind(b, k, i) by {
        assert forall|j: int| 0 <= j < a.len() implies kind(#[trigger] b[j]) == kind(a[j]) by { let _ = a[j]; }
        if 0 <= i < a.len() { assert(kind(a[i]) == kind(b[i])); }
        if first_kind(a, k, i) { assert forall|j: int| 0 <= j < i implies kind(#[trigger] b[j]) != k by { let _ = a[j]; } }
        if first_kind(b, k, i) { assert forall|j: int| 0 <= j < i implies kind(#[trigger] a[j]) != k by { let _ = b[j]; } }
    }
    assert forall|v: Seq<BR>| #[trigger] blocks_ok(b, v) == blocks_ok(a, v) by {
        assert forall|i: int| #[trigger] first_kind(b, 1, i) implies first_kind(a, 1, i) && b[i] == a[i] by { assert(first_kind(a, 1, i)); assert(kind(a[i]) == 1); }
        assert forall|i: int| #[trigger] first_kind(a, 1, i) implies first_kind(b, 1, i) && b[i] == a[i] by { assert(kind(a[i]) == 1); }
    }
    assert forall|v: Seq<u8>| #[trigger] payload_ok(b, v) == payload_ok(a, v) by {
        assert forall|i: int| #[trigger] first_kind(b, 2, i) implies first_kind(a, 2, i) && b[i] == a[i] by { assert(first_kind(a, 2, i)); assert(kind(a[i]) == 2); }
        assert forall|i: int| #[trigger] first_kind(a, 2, i) implies first_kind(b, 2, i) && b[i] == a[i] by { assert(kind(a[i]) == 2); }
    }
    assert forall|v: PacketDef<B, P, Inner>| #[trigger] packet_ok(b, v) == packet_ok(a, v) by {
        assert forall|i: int| #[trigger] first_kind(b, 3, i) implies first_kind(a, 3, i) && b[i] == a[i] by { assert(first_kind(a, 3, i)); assert(kind(a[i]) == 3); }
        assert forall|i: int| #[trigger] first_kind(a, 3, i) implies first_kind(b, 3, i) && b[i] == a[i] by { assert(kind(a[i]) == 3); }
    }
}
pub proof fn lemma_told_uniq<B: BlockDef, BR: BlockReferredDef<B>, P: PayloadDef<Inner>, Inner: PayloadInnerDef>(a: Seq<RuleDef<B, BR, P, Inner>>, b: Seq<RuleDef<B, BR, P, Inner>>, x: Seq<u8>, y: Seq<u8>, c: Seq<RuleDef<B, BR, P, Inner>>)
    requires reported(a, b, x), reported(b, c, y),
    ensures reported(a, c, x + y)
{
    assert forall|i: int| 0 <= i < a.len() implies told_all(a[i], #[trigger] c[i], x + y) by {
        assert(told_all(a[i], b[i], x)); assert(told_all(b[i], c[i], y));
        if a[i] is Ignored { let s = cat(sink_seen(a[i]->Ignored_0)); assert(s + x + y =~= s + (x + y)); }
    }
}
/// bytes kept while a header is looked for: needed more decide about the first signature
pub open spec fn refill_ok(b: Seq<u8>, needed: int) -> bool {
    &&& needed >= 1 && b.len() >= 1
    &&& b.len() + needed <= 29 || needed <= 21
    &&& forall|i: int| #[trigger] sig_at(b, i) ==> i + 29 >= b.len() + needed
}
/// where blocks of a packet are read from: the blocks part alone
pub open spec fn blk_part(h: PacketHeader, w: Seq<u8>) -> Seq<u8> { w.take(h.blocks_len as int) }
/// the views of the blocks of the packet with header h in w
pub open spec fn views<B: BlockDef, BR: BlockReferredDef<B>>(h: PacketHeader, w: Seq<u8>) -> Option<Seq<BR>> {
    if h.blocks_len > w.len() { None } else { rblocks_at::<B, BR>(blk_part(h, w), h.blocks_len as nat) }
}
/// what the stream reader makes of the packet with header h in w
pub open spec fn win_dec<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef>(h: PacketHeader, w: Seq<u8>) -> Option<(Seq<B>, Option<Inner>)> {
    if h.blocks_len > w.len() { None } else {
        match blocks_at::<B>(blk_part(h, w), h.blocks_len as nat) {
            None => None,
            Some(v) => if !h.payload { Some((v, None)) } else {
                match payload_at::<P, Inner>(w.skip(h.blocks_len as int)) { None => None, Some((p, n)) => Some((v, Some(p))) }
            },
        }
    }
}
impl<'a, R: sio::Read, B: BlockDef, BR: BlockReferredDef<B>, P: PayloadDef<Inner>, Inner: PayloadInnerDef> PacketBufReaderDef<'a, R, B, BR, P, Inner> {
    /// the bytes of the stream that no call accounted for yet
    pub open spec fn full(&self) -> Seq<u8> {
        match self.recent {
            HeaderReadState::Refill(Some((b, n))) => b@ + self.inner.rest(),
            HeaderReadState::Ready(Some(h)) => hdr_bytes(h) + (self.buffered@ + self.inner.rest()),
            _ => self.inner.rest(),
        }
    }
    pub open spec fn wf(&self) -> bool {
        &&& uniq(self.rules.rules@)
        &&& match self.recent {
            HeaderReadState::Refill(Some((b, n))) => refill_ok(b@, n as int) && self.buffered@.len() == 0,
            HeaderReadState::Ready(Some(h)) => hdr_valid(h) && self.buffered@.len() <= h.size,
            HeaderReadState::Empty => true,
            _ => false,
        }
    }
    /// the end of the stream, seen by the reader
    pub open spec fn stuck(&self) -> bool {
        self.inner.rest().len() == 0 && match self.recent {
            HeaderReadState::Empty => true,
            HeaderReadState::Ready(Some(h)) => self.buffered@.len() < h.size,
            _ => false,
        }
    }
    /// C08: calls that may come before the end of the stream is reported
    pub open spec fn left(&self) -> nat {
        2 * self.inner.rest().len() + (if self.recent is Empty { 0nat } else { 1nat })
    }
}
/// the packet at the start of g was taken off the stream
pub open spec fn taken(g: Seq<u8>, now: Seq<u8>) -> bool {
    hdr_ok(g) && g.len() >= pkt_end(g) && now == g.skip(pkt_end(g) as int)
}
/// what one call that left r and the reader b did with the bytes f that were unaccounted for before it
pub open spec fn step<'a, R: sio::Read, B: BlockDef, BR: BlockReferredDef<B>, P: PayloadDef<Inner>, Inner: PayloadInnerDef>(f: Seq<u8>, rules: Seq<RuleDef<B, BR, P, Inner>>, b: &PacketBufReaderDef<'a, R, B, BR, P, Inner>, r: Result<NextPacket<B, P, Inner>, Error>) -> bool {
    let d = f.len() - b.full().len();
    match r {
        // the stream ended: either nothing is kept, or the beginning of a packet
        Ok(NextPacket::NoData) => d >= 0 && reported(rules, b.rules.rules@, f.take(d)) && b.stuck()
            && ((d == f.len() && forall|i: int| #[trigger] sig_at(f, i) ==> i + 29 > f.len()) || (d == 0 && b.full() == f && (f.len() > 0 ==> b.recent is Ready))),
        // only litter is gone; a header that was found is kept
        Ok(NextPacket::NotFound) | Ok(NextPacket::NotEnoughData(_)) => d >= 0 && no_sig(f, d) && reported(rules, b.rules.rules@, f.take(d))
            && (if b.recent is Ready { hdr_ok(f.skip(d)) && b.full() == hdr_bytes(hdr_of(f.skip(d))) + f.skip(d).skip(29) } else { b.full() == f.skip(d) }),
        Ok(NextPacket::Found(p)) => exists|k: int| #[trigger] first_sig(f, k) && took(f, rules, b, k)
            && passes_v(views::<B, BR>(hdr_of(f.skip(k)), pkt_window(f.skip(k))), rules, hdr_of(f.skip(k)), pkt_window(f.skip(k)), p),
        Ok(NextPacket::Skipped) => exists|k: int| #[trigger] first_sig(f, k) && took(f, rules, b, k)
            && refused_v(views::<B, BR>(hdr_of(f.skip(k)), pkt_window(f.skip(k))), rules, hdr_of(f.skip(k)), pkt_window(f.skip(k))),
        Err(_) => b.recent is Empty && exists|k: int| #[trigger] first_sig(f, k) && (bad_body(f, rules, b, k) || bad_header(f, rules, b, k)),
    }
}
/// litter and the packet behind it are gone
pub open spec fn took<'a, R: sio::Read, B: BlockDef, BR: BlockReferredDef<B>, P: PayloadDef<Inner>, Inner: PayloadInnerDef>(f: Seq<u8>, rules: Seq<RuleDef<B, BR, P, Inner>>, b: &PacketBufReaderDef<'a, R, B, BR, P, Inner>, k: int) -> bool {
    b.recent is Empty && reported(rules, b.rules.rules@, f.take(k)) && taken(f.skip(k), b.full())
}
/// the first packet of f lies in w, with everything before it reported and the header read
pub open spec fn at_packet<'a, R: sio::Read, B: BlockDef, BR: BlockReferredDef<B>, P: PayloadDef<Inner>, Inner: PayloadInnerDef>(f: Seq<u8>, rules: Seq<RuleDef<B, BR, P, Inner>>, b: &PacketBufReaderDef<'a, R, B, BR, P, Inner>, h: PacketHeader, w: Seq<u8>, consume: Option<usize>, k: int, left: nat) -> bool {
    &&& b.recent is Empty && uniq(b.rules.rules@)
    &&& first_sig(f, k) && hdr_ok(f.skip(k)) && h == hdr_of(f.skip(k)) && w == pkt_window(f.skip(k))
    &&& k + pkt_end(f.skip(k)) <= f.len() && f.skip(k).len() == f.len() - k
    &&& reported(rules, b.rules.rules@, f.take(k))
    &&& match consume {
        None => b.inner.rest() == f.skip(k).skip(pkt_end(f.skip(k)) as int) && 2 * b.inner.rest().len() < left,
        Some(c) => b.inner.rest() == f && c == k + pkt_end(f.skip(k)) && 0 < c <= b.inner.filled() && 2 * b.inner.rest().len() <= left
            && f.skip(c as int) == f.skip(k).skip(pkt_end(f.skip(k)) as int),
    }
}
pub open spec fn bad_body<'a, R: sio::Read, B: BlockDef, BR: BlockReferredDef<B>, P: PayloadDef<Inner>, Inner: PayloadInnerDef>(f: Seq<u8>, rules: Seq<RuleDef<B, BR, P, Inner>>, b: &PacketBufReaderDef<'a, R, B, BR, P, Inner>, k: int) -> bool {
    took(f, rules, b, k) && win_dec::<B, P, Inner>(hdr_of(f.skip(k)), pkt_window(f.skip(k))) is None
}
/// the first signature is not that of a header with a fitting checksum; only bytes before the end of that header are gone
pub open spec fn bad_header<'a, R: sio::Read, B: BlockDef, BR: BlockReferredDef<B>, P: PayloadDef<Inner>, Inner: PayloadInnerDef>(f: Seq<u8>, rules: Seq<RuleDef<B, BR, P, Inner>>, b: &PacketBufReaderDef<'a, R, B, BR, P, Inner>, k: int) -> bool {
    let d = f.len() - b.full().len();
    &&& k + 29 <= f.len() && !hdr_ok(f.skip(k))
    &&& 1 <= d <= k + 29 && b.full() == f.skip(d)
    &&& reported(rules, b.rules.rules@, f.take(k + 8)) || reported(rules, b.rules.rules@, Seq::empty())
}
pub open spec fn first_in(s: Seq<u8>, o: int) -> bool { first_sig(s, o) && o + 8 < s.len() }
/// std::ops::RangeInclusive
pub struct VSpan { pub a: usize, pub b: usize }
impl VSpan {
    pub fn new(a: usize, b: usize) -> (r: VSpan) ensures r.a == a, r.b == b { VSpan { a, b } }
    pub fn start(&self) -> (r: &usize) ensures *r == self.a { &self.a }
    pub fn end(&self) -> (r: &usize) ensures *r == self.b { &self.b }
}
/// Vec<u8>::extend_from_slice
pub trait VExtend { fn v_extend(&mut self, x: &[u8]); }
impl VExtend for Vec<u8> {
    fn v_extend(&mut self, x: &[u8])
        ensures final(self)@ == old(self)@ + x@, old(self)@.len() == 0 ==> final(self)@ == x@
    { self.extend_from_slice(x); assert(self@ =~= old(self)@ + x@); assert(old(self)@.len() == 0 ==> self@ =~= x@); }
}
/// Vec::drain(..n), the removed bytes dropped
#[verifier::external_body]
pub fn v_drain_front(v: &mut Vec<u8>, n: usize)
    requires n <= old(v)@.len(),
    ensures final(v)@ == old(v)@.skip(n as int),
{ v.drain(..n); }
// ---------------------------------------------------------------- C08: a stream of written packets with litter around them
pub open spec fn writable<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef>(p: PacketDef<B, P, Inner>) -> bool {
    p.blocks@.len() <= 255 && !pay_fails(p.payload) && pkt_fits(p.blocks@, p.payload)
}
/// f is: litter, packet, litter, packet, ..., litter; the litter holds no signature
pub open spec fn clean<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef>(f: Seq<u8>, items: Seq<(Seq<u8>, PacketDef<B, P, Inner>)>, tail: Seq<u8>) -> bool
    decreases items.len()
{
    if items.len() == 0 { f == tail && no_sig(f, f.len() as int) } else {
        let (l, p) = items[0];
        let n = l.len() + pkt_bytes(p).len();
        &&& writable(p)
        &&& f.len() >= n && f == l + pkt_bytes(p) + f.skip(n as int)
        &&& no_sig(f, l.len() as int)
        &&& clean(f.skip(n as int), items.skip(1), tail)
    }
}
/// p is the packet q as it was written
pub open spec fn same_packet<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef>(p: PacketDef<B, P, Inner>, q: PacketDef<B, P, Inner>) -> bool {
    p.blocks@ == q.blocks@ && p.payload == q.payload
}
/// what PacketHeader::get_pos answers, in terms of signatures
pub proof fn lemma_first(s: Seq<u8>)
    ensures
        forall|n: int| #![trigger s.subrange(n, n + 8)] 0 <= n && n + 8 < s.len() && s.subrange(n, n + 8) == PACKET_SIG@
            && (forall|i: int| 0 <= i && i + 8 < s.len() && i < n ==> #[trigger] s.subrange(i, i + 8) != PACKET_SIG@) ==> first_in(s, n),
        (forall|i: int| 0 <= i && i + 8 < s.len() ==> #[trigger] s.subrange(i, i + 8) != PACKET_SIG@) ==> no_sig(s, s.len() - 8) && forall|o: int| !(#[trigger] first_in(s, o)),
{
}
/// looking for a signature in the first m bytes of f, for any m
pub proof fn lemma_scan(f: Seq<u8>)
    ensures
        forall|m: int, o: int| 0 <= m <= f.len() && #[trigger] first_in(f.take(m), o) ==> first_sig(f, o) && f.skip(o).len() == f.len() - o,
        forall|m: int, n: int| 0 <= m <= f.len() && n + 7 <= m && #[trigger] no_sig(f.take(m), n) ==> no_sig(f, n),
        forall|m: int, o: int| 0 <= o && o + 29 <= m <= f.len() ==> (#[trigger] hdr_ok(f.take(m).skip(o)) <==> hdr_ok(f.skip(o))) && hdr_of(f.take(m).skip(o)) == hdr_of(f.skip(o)),
        forall|m: int, o: int| 0 <= o <= m <= f.len() ==> #[trigger] f.take(m).take(o) == f.take(o),
        forall|m: int, o: int| 0 <= o <= m <= f.len() ==> #[trigger] f.take(m).skip(o) + f.skip(m) == f.skip(o),
        forall|m: int, o: int, n: int| 0 <= m <= f.len() && first_in(f.take(m), o) && n == 29 - (m - o) && n >= 1 ==> #[trigger] refill_ok(f.take(m).skip(o), n),
        forall|m: int, o: int| 29 <= m <= f.len() && no_sig(f.take(m), m - 8) && o == m - 29 ==> #[trigger] refill_ok(f.take(m).skip(o), 21),
        forall|m: int| 1 <= m <= 29 && m <= f.len() && no_sig(f.take(m), m - 8) ==> #[trigger] refill_ok(f.take(m), 21),
        forall|m: int| 1 <= m < 29 && m <= f.len() ==> #[trigger] refill_ok(f.take(m), 29 - m),
        forall|o: int| #[trigger] first_sig(f, o) ==> no_sig(f, o) && sig_at(f, o) && 0 <= o && o + 8 <= f.len(),
        forall|m: int, o: int| #[trigger] first_in(f.take(m), o) && 0 <= m <= f.len() ==> 0 <= o && o + 8 < m,
        forall|o: int| #[trigger] hdr_ok(f.skip(o)) ==> hdr_valid(hdr_of(f.skip(o))),
        forall|n: int| n <= 0 ==> #[trigger] no_sig(f, n),
        forall|m: int, d: int| 0 <= m <= f.len() && d <= m - 8 && #[trigger] no_sig(f.take(m), m - 8) ==> #[trigger] no_sig(f, d),
        forall|h: PacketHeader| (#[trigger] hdr_bytes(h)).len() == 29,
{
    assert forall|h: PacketHeader| (#[trigger] hdr_bytes(h)).len() == 29 by { lemma_hdr_round_trip(h, Seq::empty()); }
    assert forall|m: int, i: int| 0 <= m <= f.len() implies #[trigger] sig_at(f.take(m), i) == (i + 8 <= m && sig_at(f, i)) by {
        if 0 <= i && i + 8 <= m { assert(f.take(m).subrange(i, i + 8) =~= f.subrange(i, i + 8)); }
    }
    assert forall|m: int, n: int| 0 <= m <= f.len() && n + 7 <= m && #[trigger] no_sig(f.take(m), n) implies no_sig(f, n) by {
        assert forall|i: int| 0 <= i < n implies !(#[trigger] sig_at(f, i)) by { assert(!sig_at(f.take(m), i)); }
    }
    assert forall|m: int, d: int| 0 <= m <= f.len() && d <= m - 8 && #[trigger] no_sig(f.take(m), m - 8) implies #[trigger] no_sig(f, d) by { assert(no_sig(f, m - 8)); }
    assert forall|m: int, o: int| 0 <= m <= f.len() && #[trigger] first_in(f.take(m), o) implies first_sig(f, o) && f.skip(o).len() == f.len() - o by {
        assert(sig_at(f.take(m), o));
        assert forall|i: int| 0 <= i < o implies !(#[trigger] sig_at(f, i)) by { assert(!sig_at(f.take(m), i)); }
    }
    assert forall|m: int, o: int| 0 <= o && o + 29 <= m <= f.len() implies (#[trigger] hdr_ok(f.take(m).skip(o)) <==> hdr_ok(f.skip(o))) && hdr_of(f.take(m).skip(o)) == hdr_of(f.skip(o)) by {
        assert(f.take(m).skip(o) =~= f.skip(o).take(m - o));
        lemma_prefix(f.skip(o), m - o);
    }
    assert forall|m: int, o: int| 0 <= o <= m <= f.len() implies #[trigger] f.take(m).take(o) == f.take(o) by { assert(f.take(m).take(o) =~= f.take(o)); }
    assert forall|m: int, o: int| 0 <= o <= m <= f.len() implies #[trigger] f.take(m).skip(o) + f.skip(m) == f.skip(o) by { assert(f.take(m).skip(o) + f.skip(m) =~= f.skip(o)); }
    assert forall|m: int, o: int, i: int| 0 <= o <= m <= f.len() && #[trigger] sig_at(f.take(m).skip(o), i) implies sig_at(f.take(m), i + o) by {
        assert(f.take(m).skip(o).subrange(i, i + 8) =~= f.take(m).subrange(i + o, i + o + 8));
    }
    assert forall|m: int, o: int| 29 <= m <= f.len() && no_sig(f.take(m), m - 8) && o == m - 29 implies #[trigger] refill_ok(f.take(m).skip(o), 21) by {
        let s = f.take(m).skip(o);
        assert forall|i: int| #[trigger] sig_at(s, i) implies i + 29 >= s.len() + 21 by { assert(sig_at(f.take(m), i + o)); }
    }
}
/// bytes kept while a header is looked for, and the bytes behind them
pub proof fn lemma_refill(b: Seq<u8>, x: Seq<u8>, needed: int)
    requires refill_ok(b, needed),
    ensures
        needed >= 1 && b.len() >= 1,
        x.len() == 0 ==> b + x == b && forall|i: int| #[trigger] sig_at(b, i) ==> i + 29 > b.len(),
        forall|n: int| 0 <= n <= x.len() ==> b + #[trigger] x.take(n) == (b + x).take(b.len() + n),
        forall|n: int| 0 <= n <= x.len() ==> (b + x).skip(b.len() + n) == #[trigger] x.skip(n),
        forall|n: int, k: int| 0 <= k <= n <= x.len() ==> b + #[trigger] x.take(n).take(k) == (b + x).take(b.len() + k),
        forall|n: int, k: int| 0 <= k <= n <= x.len() ==> (b + x.take(n).take(k)) + #[trigger] x.take(n).skip(k) == (b + x).take(b.len() + n),
        forall|n: int| 0 <= n < needed && n <= x.len() ==> refill_ok(b + #[trigger] x.take(n), needed - n),
        forall|m: int, o: int| b.len() <= m <= b.len() + x.len() && #[trigger] first_in((b + x).take(m), o) ==> o + 29 >= b.len() + needed,
{
    let f = b + x;
    if x.len() == 0 { assert(b + x =~= b); }
    assert forall|n: int| 0 <= n <= x.len() implies b + #[trigger] x.take(n) == f.take(b.len() + n) by { assert(b + x.take(n) =~= f.take(b.len() + n)); }
    assert forall|n: int, k: int| 0 <= k <= n <= x.len() implies b + #[trigger] x.take(n).take(k) == (b + x).take(b.len() + k) by { assert(b + x.take(n).take(k) =~= (b + x).take(b.len() + k)); }
    assert forall|n: int, k: int| 0 <= k <= n <= x.len() implies (b + x.take(n).take(k)) + #[trigger] x.take(n).skip(k) == (b + x).take(b.len() + n) by { assert((b + x.take(n).take(k)) + x.take(n).skip(k) =~= (b + x).take(b.len() + n)); }
    assert forall|n: int| 0 <= n <= x.len() implies f.skip(b.len() + n) == #[trigger] x.skip(n) by { assert(f.skip(b.len() + n) =~= x.skip(n)); }
    assert forall|m: int, o: int| b.len() <= m <= f.len() && #[trigger] sig_at(f.take(m), o) implies o + 29 >= b.len() + needed by {
        if o + 8 <= b.len() { assert(b.subrange(o, o + 8) =~= f.take(m).subrange(o, o + 8)); assert(sig_at(b, o)); }
    }
}
/// the unaccounted bytes while a header is held
pub proof fn lemma_ready(h: PacketHeader, s: Seq<u8>)
    requires hdr_valid(h),
    ensures
        first_sig(hdr_bytes(h) + s, 0), (hdr_bytes(h) + s).skip(0) == hdr_bytes(h) + s, no_sig(hdr_bytes(h) + s, 0),
        hdr_ok(hdr_bytes(h) + s), hdr_of(hdr_bytes(h) + s) == h, (hdr_bytes(h) + s).len() == 29 + s.len(), hdr_bytes(h).len() == 29,
        (hdr_bytes(h) + s).skip(29) == s, (hdr_bytes(h) + s).take(0).len() == 0,
        pkt_end(hdr_bytes(h) + s) == 29 + h.size,
        h.size <= s.len() ==> pkt_window(hdr_bytes(h) + s) == s.take(h.size as int) && (hdr_bytes(h) + s).skip(29 + h.size) == s.skip(h.size as int),
{
    let f = hdr_bytes(h) + s;
    lemma_hdr_round_trip(h, s);
    assert(f.skip(0) =~= f);
    assert(f.skip(29) =~= s);
    assert(f.subrange(0, 8) =~= f.take(8));
    if h.size <= s.len() {
        assert(f.subrange(29, 29 + h.size) =~= s.take(h.size as int));
        assert(f.skip(29 + h.size) =~= s.skip(h.size as int));
    }
}
/// the window of a packet in the bytes that are there
pub proof fn lemma_window(f: Seq<u8>)
    ensures
        forall|m: int, a: int, b: int| 0 <= a <= b <= m <= f.len() ==> #[trigger] f.take(m).subrange(a, b) == f.subrange(a, b),
        forall|k: int| 0 <= k && k + pkt_end(f.skip(k)) <= f.len() ==> #[trigger] pkt_window(f.skip(k)) == f.subrange(k + 29, k + pkt_end(f.skip(k)) as int),
        forall|k: int| #[trigger] pkt_end(f.skip(k)) == 29 + hdr_of(f.skip(k)).size,
{
    assert forall|m: int, a: int, b: int| 0 <= a <= b <= m <= f.len() implies #[trigger] f.take(m).subrange(a, b) == f.subrange(a, b) by { assert(f.take(m).subrange(a, b) =~= f.subrange(a, b)); }
    assert forall|k: int| 0 <= k && k + pkt_end(f.skip(k)) <= f.len() implies #[trigger] pkt_window(f.skip(k)) == f.subrange(k + 29, k + pkt_end(f.skip(k)) as int) by {
        assert(pkt_window(f.skip(k)) =~= f.subrange(k + 29, k + pkt_end(f.skip(k)) as int));
    }
}
/// one turn of the loop over blocks
pub proof fn lemma_turn<B: BlockDef, BR: BlockReferredDef<B>>(s: Seq<u8>, want: nat, read: nat, v: Seq<BR>)
    requires read <= s.len(), want == s.len(),
    ensures
        owned::<B, BR>(v).len() == v.len(),
        v.len() >= 255 ==> run(s, want, read, owned::<B, BR>(v)) is None,
        BR::rdec(s.skip(read as int)) is None ==> run(s, want, read, owned::<B, BR>(v)) is None && rrun::<B, BR>(s, want, read, v) is None,
        BR::rdec(s.skip(read as int)) is Some && v.len() < 255 ==> ({
            let (b, n) = BR::rdec(s.skip(read as int))->0;
            &&& 0 < n <= s.len() - read && n == b.own().bytes().len()
            &&& read + n == want ==> rrun::<B, BR>(s, want, read, v) == Some(v.push(b)) && run(s, want, read, owned::<B, BR>(v)) == Some(owned::<B, BR>(v.push(b)))
            &&& read + n != want ==> rrun::<B, BR>(s, want, read, v) == rrun::<B, BR>(s, want, (read + n) as nat, v.push(b))
                && run(s, want, read, owned::<B, BR>(v)) == run(s, want, (read + n) as nat, owned::<B, BR>(v.push(b)))
        }),
{
    let t = s.skip(read as int);
    BR::law_view(t);
    B::law_size(t);
    if BR::rdec(t) is Some {
        let (b, n) = BR::rdec(t)->0;
        assert(owned::<B, BR>(v.push(b)) =~= owned::<B, BR>(v).push(b.own()));
    }
}
/// a broken header stands where the first signature was found
pub proof fn lemma_broken(f: Seq<u8>)
    ensures
        forall|m: int, a: int, b: int| 0 <= m <= f.len() && #[trigger] first_in(f.take(m), a) && #[trigger] first_in(f.take(m), b) ==> a == b,
        forall|m: int, a: int| 0 <= m <= f.len() && first_in(f.take(m), a) ==> #[trigger] f.take(m).take(a + 8) == f.take(a + 8),
{
    assert forall|m: int, a: int, b: int| 0 <= m <= f.len() && #[trigger] first_in(f.take(m), a) && #[trigger] first_in(f.take(m), b) implies a == b by {
        assert(sig_at(f.take(m), a) && sig_at(f.take(m), b));
    }
    assert forall|m: int, a: int| 0 <= m <= f.len() && first_in(f.take(m), a) implies #[trigger] f.take(m).take(a + 8) == f.take(a + 8) by { assert(f.take(m).take(a + 8) =~= f.take(a + 8)); }
}
/// what read leaves behind when it found the reader with nothing kept and m bytes could be seen
pub open spec fn kept<'a, R: sio::Read, B: BlockDef, BR: BlockReferredDef<B>, P: PayloadDef<Inner>, Inner: PayloadInnerDef>(f: Seq<u8>, rules: Seq<RuleDef<B, BR, P, Inner>>, b: &PacketBufReaderDef<'a, R, B, BR, P, Inner>, r: Result<NextPacket<B, P, Inner>, Error>) -> bool {
    let m = f.len() - b.inner.rest().len();
    let g = f.take(m);
    &&& 0 <= m && b.inner.rest() == f.skip(m) && uniq(b.rules.rules@)
    &&& match r {
        Ok(NextPacket::NoData) => f.len() == 0 && b.recent is Empty && b.rules.rules@ == rules,
        Ok(NextPacket::NotFound) => match b.recent {
            HeaderReadState::Refill(Some((data, n))) => b.buffered@.len() == 0 && n == 21 && m >= 1 && no_sig(g, m - 8)
                && (if m > 29 { data@ == g.skip(m - 29) && told_once(rules, b.rules.rules@, g.take(m - 29)) } else { data@ == g && b.rules.rules@ == rules }),
            _ => false,
        },
        Ok(NextPacket::NotEnoughData(_)) => match b.recent {
            HeaderReadState::Refill(Some((data, n))) => b.buffered@.len() == 0 && m >= 1 && n >= 1 && (
                (m < 29 && data@ == g && n == 29 - m && b.rules.rules@ == rules)
                || (first_in(g, m - data@.len()) && data@ == g.skip(m - data@.len()) && n == 29 - data@.len() && told_or_same(rules, b.rules.rules@, g.take(m - data@.len())))),
            HeaderReadState::Ready(Some(h)) => {
                let o = m - 29 - b.buffered@.len();
                first_in(g, o) && hdr_ok(g.skip(o)) && h == hdr_of(g.skip(o)) && b.buffered@ == g.skip(o + 29) && b.buffered@.len() <= h.size && told_or_same(rules, b.rules.rules@, g.take(o))
            },
            _ => false,
        },
        _ => false,
    }
}
pub open spec fn told_or_same<B: BlockDef, BR: BlockReferredDef<B>, P: PayloadDef<Inner>, Inner: PayloadInnerDef>(a: Seq<RuleDef<B, BR, P, Inner>>, b: Seq<RuleDef<B, BR, P, Inner>>, x: Seq<u8>) -> bool {
    if x.len() > 0 { told_once(a, b, x) } else { a == b }
}
pub proof fn lemma_kept<'a, R: sio::Read, B: BlockDef, BR: BlockReferredDef<B>, P: PayloadDef<Inner>, Inner: PayloadInnerDef>(f: Seq<u8>, rules: Seq<RuleDef<B, BR, P, Inner>>)
    ensures
        forall|b: PacketBufReaderDef<'a, R, B, BR, P, Inner>, r: Result<NextPacket<B, P, Inner>, Error>| kept(f, rules, &b, r) ==> #[trigger] step(f, rules, &b, r) && b.wf(),
        forall|b: PacketBufReaderDef<'a, R, B, BR, P, Inner>| kept(f, rules, &b, Ok(NextPacket::NotFound)) || kept(f, rules, &b, Ok(NextPacket::NoData)) || kept(f, rules, &b, Ok(NextPacket::NotEnoughData(0))) ==> #[trigger] b.wf(),
{
    hide(hdr_ok); hide(hdr_of); hide(hdr_bytes); hide(hdr_valid); hide(sig_at); hide(no_sig); hide(uniq); hide(told); hide(reported); hide(first_sig); hide(refill_ok);
    assert forall|b: PacketBufReaderDef<'a, R, B, BR, P, Inner>, r: Result<NextPacket<B, P, Inner>, Error>| kept(f, rules, &b, r) implies #[trigger] step(f, rules, &b, r) && b.wf() by {
        let m = f.len() - b.inner.rest().len();
        let g = f.take(m);
        assert(f.take(0).len() == 0); assert(f.skip(0) =~= f);
        lemma_scan(f); lemma_told(rules);
        match r {
            Ok(NextPacket::NotFound) => { assert(g.take(0) =~= f.take(0)); assert(g + f.skip(m) =~= f); if m > 29 { assert(reported(rules, b.rules.rules@, g.take(m - 29))); } }
            Ok(NextPacket::NotEnoughData(_)) => {
                assert(g + f.skip(m) =~= f);
                match b.recent {
                    HeaderReadState::Refill(Some((data, n))) => {
                        if m < 29 && data@ == g && n == 29 - m && b.rules.rules@ == rules { assert(b.full() == f); } else {
                            let o = m - data@.len();
                            assert(reported(rules, b.rules.rules@, g.take(o)));
                            assert(b.full() == f.skip(o));
                        }
                    },
                    HeaderReadState::Ready(Some(h)) => {
                        let o = m - 29 - b.buffered@.len();
                        assert(reported(rules, b.rules.rules@, g.take(o)));
                        assert(g.skip(o + 29) + f.skip(m) =~= f.skip(o).skip(29));
                    },
                    _ => {},
                }
            }
            _ => { assert(f =~= b.full()); assert(reported(rules, rules, f.take(0))); },
        }
    }
    assert forall|b: PacketBufReaderDef<'a, R, B, BR, P, Inner>| kept(f, rules, &b, Ok(NextPacket::NotFound)) || kept(f, rules, &b, Ok(NextPacket::NoData)) || kept(f, rules, &b, Ok(NextPacket::NotEnoughData(0))) implies #[trigger] b.wf() by {
        let r: Result<NextPacket<B, P, Inner>, Error> = Ok(NextPacket::NotFound); let r1: Result<NextPacket<B, P, Inner>, Error> = Ok(NextPacket::NoData); let r2: Result<NextPacket<B, P, Inner>, Error> = Ok(NextPacket::NotEnoughData(0));
        assert(kept(f, rules, &b, r) ==> step(f, rules, &b, r)); assert(kept(f, rules, &b, r1) ==> step(f, rules, &b, r1)); assert(kept(f, rules, &b, r2) ==> step(f, rules, &b, r2));
    }
}
/// a header that is none stands at k
pub proof fn lemma_bad<'a, R: sio::Read, B: BlockDef, BR: BlockReferredDef<B>, P: PayloadDef<Inner>, Inner: PayloadInnerDef>(f: Seq<u8>, rules: Seq<RuleDef<B, BR, P, Inner>>, m: int, k: int)
    requires
        0 <= m <= f.len(), first_in(f.take(m), k), exists|o: int| #[trigger] first_in(f.take(m), o) && o + 29 <= m && !hdr_ok(f.take(m).skip(o)),
    ensures
        forall|b: PacketBufReaderDef<'a, R, B, BR, P, Inner>, r: Result<NextPacket<B, P, Inner>, Error>|
            r is Err && b.recent is Empty && b.inner.rest() == f.skip(k + 8) && told_once(rules, b.rules.rules@, f.take(m).take(k + 8)) ==> #[trigger] step(f, rules, &b, r),
{
    hide(hdr_ok); hide(hdr_of); hide(hdr_bytes); hide(hdr_valid); hide(sig_at); hide(no_sig); hide(uniq); hide(told); hide(reported); hide(first_sig); hide(refill_ok);
    lemma_scan(f); lemma_told(rules); lemma_broken(f);
    assert forall|b: PacketBufReaderDef<'a, R, B, BR, P, Inner>, r: Result<NextPacket<B, P, Inner>, Error>|
            r is Err && b.recent is Empty && b.inner.rest() == f.skip(k + 8) && told_once(rules, b.rules.rules@, f.take(m).take(k + 8)) implies #[trigger] step(f, rules, &b, r) by {
        assert(reported(rules, b.rules.rules@, f.take(m).take(k + 8)));
        assert(bad_header(f, rules, &b, k));
    }
}
/// what read leaves behind when the body of a held packet is not complete
pub open spec fn held<'a, R: sio::Read, B: BlockDef, BR: BlockReferredDef<B>, P: PayloadDef<Inner>, Inner: PayloadInnerDef>(h: PacketHeader, s: Seq<u8>, rules: Seq<RuleDef<B, BR, P, Inner>>, b: &PacketBufReaderDef<'a, R, B, BR, P, Inner>, r: Result<NextPacket<B, P, Inner>, Error>) -> bool {
    &&& b.recent == HeaderReadState::Ready(Some(h)) && b.buffered@ + b.inner.rest() == s && b.buffered@.len() < h.size
    &&& b.rules.rules@ == rules
    &&& match r { Ok(NextPacket::NoData) => b.inner.rest().len() == 0, Ok(NextPacket::NotEnoughData(_)) => true, _ => false }
}
pub proof fn lemma_held<'a, R: sio::Read, B: BlockDef, BR: BlockReferredDef<B>, P: PayloadDef<Inner>, Inner: PayloadInnerDef>(h: PacketHeader, s: Seq<u8>, rules: Seq<RuleDef<B, BR, P, Inner>>)
    requires hdr_valid(h), uniq(rules),
    ensures
        forall|b: PacketBufReaderDef<'a, R, B, BR, P, Inner>, r: Result<NextPacket<B, P, Inner>, Error>| held(h, s, rules, &b, r) ==> #[trigger] step(hdr_bytes(h) + s, rules, &b, r) && b.wf(),
{
    hide(hdr_ok); hide(hdr_of); hide(hdr_bytes); hide(hdr_valid); hide(sig_at); hide(no_sig); hide(uniq); hide(told); hide(reported); hide(first_sig); hide(refill_ok);
    let f = hdr_bytes(h) + s;
    lemma_ready(h, s); lemma_told(rules);
    assert forall|b: PacketBufReaderDef<'a, R, B, BR, P, Inner>, r: Result<NextPacket<B, P, Inner>, Error>| held(h, s, rules, &b, r) implies #[trigger] step(hdr_bytes(h) + s, rules, &b, r) && b.wf() by {
        assert(reported(rules, rules, f.take(0)));
        assert(b.full() == f);
    }
}
/// the body of a held packet is complete
pub proof fn lemma_resolved<'a, R: sio::Read, B: BlockDef, BR: BlockReferredDef<B>, P: PayloadDef<Inner>, Inner: PayloadInnerDef>(h: PacketHeader, s: Seq<u8>, b: &PacketBufReaderDef<'a, R, B, BR, P, Inner>, left: nat)
    requires
        hdr_valid(h), b.recent is Empty, uniq(b.rules.rules@), h.size <= s.len(), b.inner.rest() == s.skip(h.size as int), 2 * b.inner.rest().len() < left,
    ensures at_packet(hdr_bytes(h) + s, b.rules.rules@, b, h, s.take(h.size as int), None, 0, left),
{
    lemma_ready(h, s); lemma_told(b.rules.rules@);
    let f = hdr_bytes(h) + s;
    assert(f.take(0).len() == 0);
    assert(f.skip(0) == f);
}
/// a packet lies in the first m bytes
pub proof fn lemma_found<'a, R: sio::Read, B: BlockDef, BR: BlockReferredDef<B>, P: PayloadDef<Inner>, Inner: PayloadInnerDef>(f: Seq<u8>, rules: Seq<RuleDef<B, BR, P, Inner>>, b: &PacketBufReaderDef<'a, R, B, BR, P, Inner>, m: int, k: int, c: usize, left: nat)
    requires
        0 <= m <= f.len(), first_in(f.take(m), k), hdr_ok(f.take(m).skip(k)), c <= m <= b.inner.filled(), k + 29 <= m,
        c == k + 29 + hdr_of(f.take(m).skip(k)).size, b.recent is Empty, uniq(b.rules.rules@), b.inner.rest() == f,
        told_or_same(rules, b.rules.rules@, f.take(m).take(k)), 2 * f.len() <= left,
    ensures
        at_packet(f, rules, b, hdr_of(f.take(m).skip(k)), f.take(m).subrange(k + 29, c as int), Some(c), k, left),
{
    hide(hdr_ok); hide(hdr_of); hide(hdr_bytes); hide(hdr_valid); hide(sig_at); hide(no_sig); hide(uniq); hide(told); hide(reported); hide(first_sig); hide(pkt_window); hide(pkt_end);
    lemma_scan(f); lemma_window(f); lemma_told(rules);
    assert(reported(rules, b.rules.rules@, f.take(m).take(k)));
    assert(f.skip(k).skip(pkt_end(f.skip(k)) as int) =~= f.skip(c as int));
}
pub open spec fn took_by(consume: Option<usize>) -> nat { if consume is Some { consume->0 as nat } else { 0 } }
/// the ways to leave a packet behind
pub proof fn lemma_leave<'a, R: sio::Read, B: BlockDef, BR: BlockReferredDef<B>, P: PayloadDef<Inner>, Inner: PayloadInnerDef>(f: Seq<u8>, rules: Seq<RuleDef<B, BR, P, Inner>>, a: &PacketBufReaderDef<'a, R, B, BR, P, Inner>, h: PacketHeader, w: Seq<u8>, consume: Option<usize>, k: int, left: nat)
    requires at_packet(f, rules, a, h, w, consume, k, left),
    ensures
        consume is Some ==> consume->0 <= a.inner.filled() && consume->0 <= a.inner.rest().len(),
        a.recent is Empty, uniq(a.rules.rules@), 2 * (a.inner.rest().len() - took_by(consume)) < left,
        owned::<B, BR>(Seq::empty()) == Seq::<B>::empty(),
        h.blocks_len <= w.len() && h.blocks_len + phdr_len(w.skip(h.blocks_len as int)) <= w.len() ==> pay_part(h, w) == w.skip(h.blocks_len + phdr_len(w.skip(h.blocks_len as int))),
        forall|v: Seq<BR>| #[trigger] blocks_ok(a.rules.rules@, v) == blocks_ok(rules, v),
        forall|v: Seq<u8>| #[trigger] payload_ok(a.rules.rules@, v) == payload_ok(rules, v),
        forall|v: PacketDef<B, P, Inner>| #[trigger] packet_ok(a.rules.rules@, v) == packet_ok(rules, v),
        forall|b: PacketBufReaderDef<'a, R, B, BR, P, Inner>, r: Result<NextPacket<B, P, Inner>, Error>|
            b.rules == a.rules && b.recent is Empty && sio::advanced(&a.inner, &b.inner, took_by(consume)) && left_packet(rules, h, w, r)
            ==> #[trigger] step(f, rules, &b, r),
{
    hide(hdr_ok); hide(hdr_of); hide(hdr_bytes); hide(hdr_valid); hide(sig_at); hide(no_sig); hide(uniq); hide(told); hide(reported); hide(first_sig); hide(pkt_window); hide(pkt_end); hide(passes_v); hide(refused_v); hide(win_dec); hide(views);
    lemma_reported_filters(rules, a.rules.rules@, f.take(k));
    assert(owned::<B, BR>(Seq::empty()) =~= Seq::<B>::empty());
    if h.blocks_len <= w.len() && h.blocks_len + phdr_len(w.skip(h.blocks_len as int)) <= w.len() { assert(pay_part(h, w) =~= w.skip(h.blocks_len + phdr_len(w.skip(h.blocks_len as int)))); }
    assert forall|b: PacketBufReaderDef<'a, R, B, BR, P, Inner>, r: Result<NextPacket<B, P, Inner>, Error>|
            b.rules == a.rules && b.recent is Empty && sio::advanced(&a.inner, &b.inner, took_by(consume)) && left_packet(rules, h, w, r)
            implies #[trigger] step(f, rules, &b, r) by {
        assert(a.inner.rest().skip(0) =~= a.inner.rest());
        assert(took(f, rules, &b, k));
        if r is Err { assert(bad_body(f, rules, &b, k)); }
    }
}
pub open spec fn left_packet<B: BlockDef, BR: BlockReferredDef<B>, P: PayloadDef<Inner>, Inner: PayloadInnerDef>(rules: Seq<RuleDef<B, BR, P, Inner>>, h: PacketHeader, w: Seq<u8>, r: Result<NextPacket<B, P, Inner>, Error>) -> bool {
    match r {
        Err(_) => win_dec::<B, P, Inner>(h, w) is None,
        Ok(NextPacket::Found(p)) => passes_v(views::<B, BR>(h, w), rules, h, w, p),
        Ok(NextPacket::Skipped) => refused_v(views::<B, BR>(h, w), rules, h, w),
        _ => false,
    }
}
pub assume_specification<T> [std::mem::replace] (a: &mut T, b: T) -> (r: T)
    ensures r == *old(a), *final(a) == b;
/// BufRead::fill_buf with the borrow of the result cut off (the compiler checks it on the real code), so that
/// invariants may speak of the reader while the bytes are in use
#[verifier::external_body]
pub fn v_fill<'x, T: sio::BufRead>(t: &mut T) -> (r: sio::Result<&'x [u8]>)
    ensures
        sio::advanced(old(t), final(t), 0),
        r is Ok ==> final(t).filled() == r->Ok_0@.len(),
        r is Ok ==> r->Ok_0@.len() <= old(t).rest().len(),
        r is Ok ==> r->Ok_0@ == old(t).rest().take(r->Ok_0@.len() as int),
        r is Ok && r->Ok_0@.len() == 0 ==> old(t).rest().len() == 0,
        r is Err ==> old(t).faulty(),
{ unimplemented!() }

// ---------------------------------------------------------------- C08: what a stream of written packets and litter turns into
/// a framed payload is read back
pub proof fn lemma_pay_at<P: PayloadDef<Inner>, Inner: PayloadInnerDef>(i: Inner)
    requires !framing_fails(&i),
    ensures
        phdr_ok(framed(&i)), phdr_len(framed(&i)) == phdr_bytes(hdr_for(&i)).len(), phdr_of(framed(&i)) == hdr_for(&i),
        phdr_len(framed(&i)) <= framed(&i).len(), framed(&i).skip(phdr_len(framed(&i)) as int) == body(&i),
        P::pdec(phdr_of(framed(&i)), body(&i)) == Some(i),
{
    let g = hdr_for(&i);
    let w = framed(&i);
    assert(phdr_is(w, g)) by {
        le32(g.len);
        lemma_bb_len(g.sig); lemma_bb_len(g.crc);
        let (sl, cl) = (bb(g.sig).len() as int, bb(g.crc).len() as int);
        assert(w[0] == sl as u8);
        assert(w[1 + sl] == cl as u8);
        assert(w.subrange(1, 1 + sl) =~= bb(g.sig));
        assert(w.subrange(2 + sl, 2 + sl + cl) =~= bb(g.crc));
        assert(w.subrange(2 + sl + cl, 6 + sl + cl) =~= g.len.le());
    }
    lemma_phdr_round_trip(g, g, body(&i));
    lemma_phdr_of(w, g);
    assert(w.skip(phdr_len(w) as int) =~= body(&i));
    P::law_round(&i, Seq::empty());
    assert(body(&i) + Seq::<u8>::empty() =~= body(&i));
}
/// the rules accept a written packet: its own blocks, body bytes and value
pub open spec fn accepts<B: BlockDef, BR: BlockReferredDef<B>, P: PayloadDef<Inner>, Inner: PayloadInnerDef>(rules: Seq<RuleDef<B, BR, P, Inner>>, v: Seq<BR>, q: PacketDef<B, P, Inner>, p: PacketDef<B, P, Inner>) -> bool {
    &&& owned::<B, BR>(v) == q.blocks@ && blocks_ok(rules, v)
    &&& q.payload is Some ==> payload_ok(rules, body(&q.payload->0))
    &&& same_packet(p, q) && packet_ok(rules, p)
}
pub open spec fn rejects<B: BlockDef, BR: BlockReferredDef<B>, P: PayloadDef<Inner>, Inner: PayloadInnerDef>(rules: Seq<RuleDef<B, BR, P, Inner>>, v: Seq<BR>, q: PacketDef<B, P, Inner>) -> bool {
    &&& owned::<B, BR>(v) == q.blocks@
    &&& !blocks_ok(rules, v) || (q.payload is Some && !payload_ok(rules, body(&q.payload->0))) || exists|p: PacketDef<B, P, Inner>| same_packet(p, q) && !(#[trigger] packet_ok(rules, p))
}
/// what stands behind the header of a written packet
pub proof fn lemma_own_window<B: BlockDef, BR: BlockReferredDef<B>, P: PayloadDef<Inner>, Inner: PayloadInnerDef>(q: PacketDef<B, P, Inner>, t: Seq<u8>)
    requires writable(q),
    ensures
        ({
            let f = pkt_bytes(q) + t;
            let h = hdr_of(f);
            let w = pkt_window(f);
            &&& sig_at(f, 0) && hdr_ok(f) && pkt_end(f) == pkt_bytes(q).len() && f.skip(pkt_bytes(q).len() as int) == t
            &&& pkt_bytes(q).len() >= 29 && hdr_bytes(h) + f.skip(29) == f
            &&& win_dec::<B, P, Inner>(h, w) is Some
            &&& views::<B, BR>(h, w) is Some && owned::<B, BR>(views::<B, BR>(h, w)->0) == q.blocks@
            &&& h.payload == q.payload is Some
            &&& q.payload is Some ==> phdr_ok(w.skip(h.blocks_len as int)) && pay_part(h, w) == body(&q.payload->0)
                && P::pdec(phdr_of(w.skip(h.blocks_len as int)), pay_part(h, w)) == q.payload
        }),
{
    let f = pkt_bytes(q) + t;
    let h = pkt_hdr(q.blocks@, q.payload);
    let v = q.blocks@;
    let w = pkt_window(f);
    lemma_pkt_round_trip(q, t);
    lemma_pay_len(q.payload);
    lemma_hdr_round_trip(h, bcat(v) + pay_bytes(q.payload) + t);
    assert(f =~= hdr_bytes(h) + (bcat(v) + pay_bytes(q.payload) + t));
    assert(f.subrange(0, 8) =~= f.take(8));
    assert(hdr_bytes(h) + f.skip(29) =~= f);
    assert(w =~= bcat(v) + pay_bytes(q.payload));
    assert(f.skip(pkt_bytes(q).len() as int) =~= t);
    assert(blk_part(h, w) =~= bcat(v));
    assert(bcat(v) + Seq::<u8>::empty() =~= bcat(v));
    lemma_blocks_round(v, Seq::empty());
    lemma_views::<B, BR>();
    assert(w.skip(h.blocks_len as int) =~= pay_bytes(q.payload));
    if q.payload is Some { lemma_pay_at::<P, Inner>(q.payload->0); }
}
/// items with n bytes of the first litter gone
pub open spec fn cut<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef>(items: Seq<(Seq<u8>, PacketDef<B, P, Inner>)>, n: int) -> Seq<(Seq<u8>, PacketDef<B, P, Inner>)> {
    if items.len() == 0 { items } else { items.update(0, (items[0].0.skip(n), items[0].1)) }
}
/// the litter before the next packet
pub open spec fn ahead<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef>(items: Seq<(Seq<u8>, PacketDef<B, P, Inner>)>, tail: Seq<u8>) -> Seq<u8> {
    if items.len() == 0 { tail } else { items[0].0 }
}
pub open spec fn tail_cut<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef>(items: Seq<(Seq<u8>, PacketDef<B, P, Inner>)>, tail: Seq<u8>, n: int) -> Seq<u8> {
    if items.len() == 0 { tail.skip(n) } else { tail }
}
pub proof fn lemma_cut<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef>(f: Seq<u8>, items: Seq<(Seq<u8>, PacketDef<B, P, Inner>)>, tail: Seq<u8>, d: int)
    requires clean(f, items, tail), 0 <= d <= ahead(items, tail).len(),
    ensures clean(f.skip(d), cut(items, d), tail_cut(items, tail, d)), f.take(d) == ahead(items, tail).take(d), ahead(items, tail).len() <= f.len(),
{
    let g = f.skip(d);
    assert forall|i: int| #[trigger] sig_at(g, i) implies sig_at(f, i + d) by { assert(g.subrange(i, i + 8) =~= f.subrange(i + d, i + d + 8)); }
    assert(f.take(d) =~= ahead(items, tail).take(d));
    if items.len() > 0 {
        let (l, p) = items[0];
        let n = l.len() + pkt_bytes(p).len();
        assert(cut(items, d).skip(1) =~= items.skip(1));
        assert(g =~= l.skip(d) + pkt_bytes(p) + f.skip(n as int));
        assert(g.skip(n - d) =~= f.skip(n as int));
    }
}
/// the first packet of a clean stream is where the first signature is
pub proof fn lemma_next<B: BlockDef, BR: BlockReferredDef<B>, P: PayloadDef<Inner>, Inner: PayloadInnerDef>(f: Seq<u8>, items: Seq<(Seq<u8>, PacketDef<B, P, Inner>)>, tail: Seq<u8>)
    requires clean(f, items, tail),
    ensures
        items.len() == 0 ==> forall|k: int| !(#[trigger] sig_at(f, k)),
        items.len() > 0 ==> {
            let l = items[0].0;
            let n = l.len() as int;
            &&& first_sig(f, n) && f.take(n) == l && n + pkt_bytes(items[0].1).len() <= f.len()
            &&& forall|k: int| #[trigger] first_sig(f, k) ==> k == n
            &&& f.skip(n) == pkt_bytes(items[0].1) + f.skip(n + pkt_bytes(items[0].1).len())
        },
{
    if items.len() > 0 {
        let (l, p) = items[0];
        let n = l.len() as int;
        let t = f.skip(n + pkt_bytes(p).len());
        lemma_own_window::<B, BR, P, Inner>(p, t);
        assert(f.skip(n) =~= pkt_bytes(p) + t);
        assert(f.subrange(n, n + 8) =~= f.skip(n).subrange(0, 8));
        assert(f.take(n) =~= l);
        assert(sig_at(f, n));
        assert forall|k: int| #[trigger] first_sig(f, k) implies k == n by { if n < k { assert(!sig_at(f, n)); } }
    } else {
        assert forall|k: int| !(#[trigger] sig_at(f, k)) by { if 0 <= k < f.len() { assert(!sig_at(f, k)); } }
    }
}
/// C08, C14: one call on a clean stream
pub proof fn lemma_call<'a, R: sio::Read, B: BlockDef, BR: BlockReferredDef<B>, P: PayloadDef<Inner>, Inner: PayloadInnerDef>(f: Seq<u8>, items: Seq<(Seq<u8>, PacketDef<B, P, Inner>)>, tail: Seq<u8>, rules: Seq<RuleDef<B, BR, P, Inner>>, b: &PacketBufReaderDef<'a, R, B, BR, P, Inner>, r: Result<NextPacket<B, P, Inner>, Error>)
    requires clean(f, items, tail), step(f, rules, b, r), b.wf(),
    ensures
        match r {
            Ok(NextPacket::Found(p)) => items.len() > 0 && same_packet(p, items[0].1) && (exists|v: Seq<BR>| #[trigger] accepts(rules, v, items[0].1, p))
                && reported(rules, b.rules.rules@, items[0].0) && clean(b.full(), items.skip(1), tail),
            Ok(NextPacket::Skipped) => items.len() > 0 && (exists|v: Seq<BR>| #[trigger] rejects(rules, v, items[0].1))
                && reported(rules, b.rules.rules@, items[0].0) && clean(b.full(), items.skip(1), tail),
            Ok(NextPacket::NoData) => items.len() == 0 && reported(rules, b.rules.rules@, tail) && b.full().len() == 0,
            Ok(NextPacket::NotFound) | Ok(NextPacket::NotEnoughData(_)) => {
                let d = f.len() - b.full().len();
                0 <= d <= ahead(items, tail).len() && reported(rules, b.rules.rules@, ahead(items, tail).take(d)) && clean(b.full(), cut(items, d), tail_cut(items, tail, d))
            },
            Err(_) => false,
        },
{
    lemma_next::<B, BR, P, Inner>(f, items, tail);
    let d = f.len() - b.full().len();
    if items.len() > 0 {
        let (l, q) = items[0];
        let n = l.len() as int;
        let t = f.skip(n + pkt_bytes(q).len());
        lemma_own_window::<B, BR, P, Inner>(q, t);
        let g = f.skip(n);
        let h = hdr_of(g);
        let w = pkt_window(g);
        match r {
            Ok(NextPacket::Found(p)) => { assert(accepts(rules, views::<B, BR>(h, w)->0, q, p)); },
            Ok(NextPacket::Skipped) => { assert(rejects(rules, views::<B, BR>(h, w)->0, q)); },
            Ok(NextPacket::NoData) => {
                assert(sig_at(f, n));
                if d == f.len() { assert(false); }
                if f.len() > 0 {
                    let hh = b.recent->Ready_0->0;
                    lemma_ready(hh, b.buffered@ + b.inner.rest());
                    assert(sig_at(f, 0));
                    if n > 0 { assert(!sig_at(f, 0)); }
                    assert(f.skip(0) =~= f);
                    assert(false);
                }
                assert(false);
            },
            Err(_) => { assert(false); },
            _ => {
                if d > n { assert(!sig_at(f, n)); }
                if b.recent is Ready { lemma_opens(f, d); if d < n { assert(!sig_at(f, d)); } assert(d == n); }
                lemma_cut(f, items, tail, d);
            },
        }
    } else {
        match r {
            Ok(NextPacket::NoData) => {
                if f.len() > 0 && d != f.len() {
                    let hh = b.recent->Ready_0->0;
                    lemma_ready(hh, b.buffered@ + b.inner.rest());
                    assert(sig_at(f, 0));
                }
                assert(f.take(f.len() as int) =~= f);
            },
            Ok(NextPacket::NotFound) | Ok(NextPacket::NotEnoughData(_)) => {
                if b.recent is Ready { lemma_opens(f, d); }
                lemma_cut(f, items, tail, d);
            },
            Ok(NextPacket::Found(p)) => { assert(false); },
            Ok(NextPacket::Skipped) => { assert(false); },
            Err(_) => { assert(false); },
        }
    }
}
/// a packet signature opens a header
pub proof fn lemma_opens(f: Seq<u8>, d: int)
    requires hdr_ok(f.skip(d)), 0 <= d <= f.len(),
    ensures sig_at(f, d)
{ assert(f.skip(d).take(8) =~= f.subrange(d, d + 8)); }
/// what a sequence of calls of read left behind, one after the other (the contract of read gives each step)
pub open spec fn went<'a, R: sio::Read, B: BlockDef, BR: BlockReferredDef<B>, P: PayloadDef<Inner>, Inner: PayloadInnerDef>(f: Seq<u8>, rules: Seq<RuleDef<B, BR, P, Inner>>, hist: Seq<(PacketBufReaderDef<'a, R, B, BR, P, Inner>, Result<NextPacket<B, P, Inner>, Error>)>) -> bool
    decreases hist.len()
{
    hist.len() == 0 || (step(f, rules, &hist[0].0, hist[0].1) && hist[0].0.wf() && went(hist[0].0.full(), hist[0].0.rules.rules@, hist.skip(1)))
}
/// the packets delivered (or refused by a rule: None), in order
pub open spec fn outcomes<'a, R: sio::Read, B: BlockDef, BR: BlockReferredDef<B>, P: PayloadDef<Inner>, Inner: PayloadInnerDef>(hist: Seq<(PacketBufReaderDef<'a, R, B, BR, P, Inner>, Result<NextPacket<B, P, Inner>, Error>)>) -> Seq<Option<PacketDef<B, P, Inner>>>
    decreases hist.len()
{
    if hist.len() == 0 { Seq::empty() } else {
        match hist[0].1 {
            Ok(NextPacket::Found(p)) => seq![Some(p)] + outcomes(hist.skip(1)),
            Ok(NextPacket::Skipped) => seq![None] + outcomes(hist.skip(1)),
            _ => outcomes(hist.skip(1)),
        }
    }
}
pub open spec fn all_litter<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef>(items: Seq<(Seq<u8>, PacketDef<B, P, Inner>)>, tail: Seq<u8>) -> Seq<u8>
    decreases items.len()
{
    if items.len() == 0 { tail } else { items[0].0 + all_litter(items.skip(1), tail) }
}
/// C08: whatever the calls and the chunks: packets come out in order and unchanged (or are refused by a rule), no call
/// fails, and once the end is reported all packets have come and the ignore rule was told exactly the litter
pub proof fn theorem_stream<'a, R: sio::Read, B: BlockDef, BR: BlockReferredDef<B>, P: PayloadDef<Inner>, Inner: PayloadInnerDef>(f: Seq<u8>, items: Seq<(Seq<u8>, PacketDef<B, P, Inner>)>, tail: Seq<u8>, rules: Seq<RuleDef<B, BR, P, Inner>>, hist: Seq<(PacketBufReaderDef<'a, R, B, BR, P, Inner>, Result<NextPacket<B, P, Inner>, Error>)>)
    requires clean(f, items, tail), went(f, rules, hist),
    ensures
        outcomes(hist).len() <= items.len(),
        forall|i: int| 0 <= i < outcomes(hist).len() && outcomes(hist)[i] is Some ==> same_packet((#[trigger] outcomes(hist)[i])->0, items[i].1),
        forall|j: int| 0 <= j < hist.len() ==> (#[trigger] hist[j]).1 is Ok,
        hist.len() > 0 && hist.last().1 is Ok && hist.last().1->Ok_0 is NoData ==> outcomes(hist).len() == items.len()
            && reported(rules, hist.last().0.rules.rules@, all_litter(items, tail)),
    decreases hist.len()
{
    hide(step); hide(clean); hide(reported); hide(same_packet);
    if hist.len() > 0 {
        let (b, r) = hist[0];
        let rest = hist.skip(1);
        lemma_call(f, items, tail, rules, &b, r);
        let d = f.len() - b.full().len();
        let (items1, tail1) = match r {
            Ok(NextPacket::Found(_)) | Ok(NextPacket::Skipped) => (items.skip(1), tail),
            Ok(NextPacket::NoData) => (items, Seq::<u8>::empty()),
            _ => (cut(items, d), tail_cut(items, tail, d)),
        };
        if r is Ok && r->Ok_0 is NoData { assert(b.full() =~= Seq::<u8>::empty()); lemma_clean_end(items); }
        assert(clean(b.full(), items1, tail1));
        theorem_stream(b.full(), items1, tail1, b.rules.rules@, rest);
        assert forall|j: int| 0 <= j < hist.len() implies (#[trigger] hist[j]).1 is Ok by { if j > 0 { assert(hist[j] == rest[j - 1]); } }
        assert forall|i: int| 0 <= i < outcomes(hist).len() && outcomes(hist)[i] is Some implies same_packet((#[trigger] outcomes(hist)[i])->0, items[i].1) by {
            match r {
                Ok(NextPacket::Found(_)) | Ok(NextPacket::Skipped) => { if i > 0 { assert(outcomes(hist)[i] == outcomes(rest)[i - 1]); assert(items[i] == items1[i - 1]); } },
                _ => { assert(outcomes(hist)[i] == outcomes(rest)[i]); assert(items1[i].1 == items[i].1); },
            }
        }
        if hist.last().1 is Ok && hist.last().1->Ok_0 is NoData {
            let x = match r { Ok(NextPacket::Found(_)) | Ok(NextPacket::Skipped) => items[0].0, Ok(NextPacket::NoData) => tail, _ => ahead(items, tail).take(d) };
            let y = all_litter(items1, tail1);
            assert(cut(items, d).skip(1) =~= items.skip(1));
            assert(x + y =~= all_litter(items, tail));
            if rest.len() > 0 {
                assert(rest.last() == hist.last());
                lemma_told_uniq(rules, b.rules.rules@, x, y, hist.last().0.rules.rules@);
            } else {
                assert(y =~= Seq::<u8>::empty());
                assert(x + y =~= x);
            }
        }
    }
}
pub proof fn lemma_clean_end<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef>(items: Seq<(Seq<u8>, PacketDef<B, P, Inner>)>)
    requires items.len() == 0,
    ensures clean(Seq::empty(), items, Seq::empty())
{}
/// every call that does not report the end (or fail on the source) uses up some of `left`: the contract of read
pub open spec fn spends<'a, R: sio::Read, B: BlockDef, BR: BlockReferredDef<B>, P: PayloadDef<Inner>, Inner: PayloadInnerDef>(left: nat, hist: Seq<(PacketBufReaderDef<'a, R, B, BR, P, Inner>, Result<NextPacket<B, P, Inner>, Error>)>) -> bool
    decreases hist.len()
{
    hist.len() == 0 || ((hist[0].1 is Ok && hist[0].1->Ok_0 is NoData) || hist[0].0.left() < left) && spends(hist[0].0.left(), hist.skip(1))
}
/// C08: the end is reported within twice as many calls as there are bytes (plus one)
pub proof fn theorem_calls<'a, R: sio::Read, B: BlockDef, BR: BlockReferredDef<B>, P: PayloadDef<Inner>, Inner: PayloadInnerDef>(left: nat, hist: Seq<(PacketBufReaderDef<'a, R, B, BR, P, Inner>, Result<NextPacket<B, P, Inner>, Error>)>)
    requires
        spends(left, hist),
        forall|j: int| 0 <= j < hist.len() ==> !((#[trigger] hist[j]).1 is Ok && hist[j].1->Ok_0 is NoData),
    ensures hist.len() <= left
    decreases hist.len()
{
    if hist.len() > 0 {
        let rest = hist.skip(1);
        assert forall|j: int| 0 <= j < rest.len() implies !((#[trigger] rest[j]).1 is Ok && rest[j].1->Ok_0 is NoData) by { assert(rest[j] == hist[j + 1]); }
        assert(hist[0] == hist[0]);
        theorem_calls(hist[0].0.left(), rest);
    }
}
