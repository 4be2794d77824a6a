pub open spec fn owned<B: BlockDef, BR: BlockReferredDef<B>>(v: Seq<BR>) -> Seq<B> { v.map_values(|x: BR| x.own()) }
/// blocks.into_iter().map(|blk| blk.into()).collect::<Vec<B>>()
#[verifier::external_body]
pub fn v_into_all<B: BlockDef, BR: BlockReferredDef<B>>(v: Vec<BR>) -> (r: Vec<B>)
    ensures r@ == owned::<B, BR>(v@)
{ unimplemented!() }
// the views of the blocks behind a header that declares `want` bytes of them
pub open spec fn rrun<B: BlockDef, BR: BlockReferredDef<B>>(s: Seq<u8>, want: nat, read: nat, v: Seq<BR>) -> Option<Seq<BR>>
    decreases s.len() - read
{
    if read > s.len() { None } else {
        match BR::rdec(s.skip(read as int)) {
            None => None,
            Some((b, n)) => if read + n == want { Some(v.push(b)) } else if n == 0 || read + n > s.len() { None } else { rrun::<B, BR>(s, want, (read + n) as nat, v.push(b)) },
        }
    }
}
pub open spec fn rblocks_at<B: BlockDef, BR: BlockReferredDef<B>>(s: Seq<u8>, want: nat) -> Option<Seq<BR>> {
    if want == 0 { Some(Seq::empty()) } else { rrun::<B, BR>(s, want, 0, Seq::empty()) }
}
/// C16: the views stand for the blocks
pub proof fn lemma_rrun<B: BlockDef, BR: BlockReferredDef<B>>(s: Seq<u8>, want: nat, read: nat, v: Seq<BR>)
    requires run(s, want, read, owned::<B, BR>(v)) is Some, read <= s.len(),
    ensures
        rrun::<B, BR>(s, want, read, v) is Some,
        owned::<B, BR>(rrun::<B, BR>(s, want, read, v)->0) == run(s, want, read, owned::<B, BR>(v))->0,
    decreases 255 - v.len()
{
    let t = s.skip(read as int);
    BR::law_view(t);
    B::law_size(t);
    if BR::rdec(t) is Some {
        let (b, n) = BR::rdec(t)->0;
        assert(owned::<B, BR>(v.push(b)) =~= owned::<B, BR>(v).push(b.own()));
        if read + n != want { lemma_rrun::<B, BR>(s, want, (read + n) as nat, v.push(b)); }
    }
}
pub proof fn lemma_views<B: BlockDef, BR: BlockReferredDef<B>>()
    ensures
        forall|s: Seq<u8>, want: nat| (#[trigger] blocks_at::<B>(s, want)) is Some ==> rblocks_at::<B, BR>(s, want) is Some && owned::<B, BR>(rblocks_at::<B, BR>(s, want)->0) == blocks_at::<B>(s, want)->0,
        forall|s: Seq<u8>| (#[trigger] BR::rdec(s)) is Some ==> 0 < (BR::rdec(s)->0).1 <= s.len() && (BR::rdec(s)->0).1 == (BR::rdec(s)->0).0.own().bytes().len(),
        forall|s: Seq<u8>, h: PayloadHeader| #[trigger] phdr_is(s, h) ==> phdr_of(s) == h && (phdr_ok(s) ==> phdr_bytes(h).len() == phdr_len(s)),
        forall|s: Seq<u8>, n: int| #![trigger phdr_need(s.take(n))] n == s.len() ==> s.take(n) == s,
{
    assert forall|s: Seq<u8>, want: nat| (#[trigger] blocks_at::<B>(s, want)) is Some implies rblocks_at::<B, BR>(s, want) is Some && owned::<B, BR>(rblocks_at::<B, BR>(s, want)->0) == blocks_at::<B>(s, want)->0 by {
        assert(owned::<B, BR>(Seq::empty()) =~= Seq::<B>::empty());
        if want > 0 { lemma_rrun::<B, BR>(s, want, 0, Seq::empty()); }
    }
    assert forall|s: Seq<u8>| (#[trigger] BR::rdec(s)) is Some implies 0 < (BR::rdec(s)->0).1 <= s.len() && (BR::rdec(s)->0).1 == (BR::rdec(s)->0).0.own().bytes().len() by { BR::law_view(s); B::law_size(s); }
    assert forall|s: Seq<u8>, h: PayloadHeader| #[trigger] phdr_is(s, h) implies phdr_of(s) == h && (phdr_ok(s) ==> phdr_bytes(h).len() == phdr_len(s)) by { lemma_phdr_of(s, h); }
    assert forall|s: Seq<u8>, n: int| #![trigger phdr_need(s.take(n))] n == s.len() implies s.take(n) == s by { assert(s.take(n) =~= s); }
}
/// the bytes behind the payload header
pub open spec fn pay_part(h: PacketHeader, w: Seq<u8>) -> Seq<u8> { w.skip(h.blocks_len as int).skip(phdr_len(w.skip(h.blocks_len as int)) as int) }
/// C14: the packet behind header h in w passes the rules, with p as its value
pub open spec fn passes<B: BlockDef, BR: BlockReferredDef<B>, P: PayloadDef<Inner>, Inner: PayloadInnerDef>(rules: Seq<RuleDef<B, BR, P, Inner>>, h: PacketHeader, w: Seq<u8>, p: PacketDef<B, P, Inner>) -> bool {
    passes_v(rblocks_at::<B, BR>(w, h.blocks_len as nat), rules, h, w, p)
}
/// ... where v are the views of its blocks
pub open spec fn passes_v<B: BlockDef, BR: BlockReferredDef<B>, P: PayloadDef<Inner>, Inner: PayloadInnerDef>(v: Option<Seq<BR>>, rules: Seq<RuleDef<B, BR, P, Inner>>, h: PacketHeader, w: Seq<u8>, p: PacketDef<B, P, Inner>) -> bool {
    &&& v is Some && blocks_ok(rules, v->0)
    &&& p.blocks@ == owned::<B, BR>(v->0)
    &&& h.payload ==> phdr_ok(w.skip(h.blocks_len as int)) && payload_ok(rules, pay_part(h, w))
            && p.payload is Some && P::pdec(phdr_of(w.skip(h.blocks_len as int)), pay_part(h, w)) == p.payload
    &&& !h.payload ==> p.payload is None
    &&& packet_ok(rules, p)
}
/// C14: a filter refuses it
pub open spec fn refused<B: BlockDef, BR: BlockReferredDef<B>, P: PayloadDef<Inner>, Inner: PayloadInnerDef>(rules: Seq<RuleDef<B, BR, P, Inner>>, h: PacketHeader, w: Seq<u8>) -> bool {
    refused_v(rblocks_at::<B, BR>(w, h.blocks_len as nat), rules, h, w)
}
pub open spec fn refused_v<B: BlockDef, BR: BlockReferredDef<B>, P: PayloadDef<Inner>, Inner: PayloadInnerDef>(v: Option<Seq<BR>>, rules: Seq<RuleDef<B, BR, P, Inner>>, h: PacketHeader, w: Seq<u8>) -> bool {
    &&& v is Some
    &&& {
        ||| !blocks_ok(rules, v->0)
        ||| h.payload && phdr_ok(w.skip(h.blocks_len as int)) && !payload_ok(rules, pay_part(h, w))
        ||| exists|p: PacketDef<B, P, Inner>| p.blocks@ == owned::<B, BR>(v->0)
                && (h.payload ==> p.payload is Some && P::pdec(phdr_of(w.skip(h.blocks_len as int)), pay_part(h, w)) == p.payload)
                && (!h.payload ==> p.payload is None) && !(#[trigger] packet_ok(rules, p))
    }
}
pub proof fn lemma_pay_size<P: PayloadDef<Inner>, Inner: PayloadInnerDef>()
    ensures forall|h: PayloadHeader, s: Seq<u8>| (#[trigger] P::pdec(h, s)) is Some ==> h.len <= s.len()
{
    assert forall|h: PayloadHeader, s: Seq<u8>| (#[trigger] P::pdec(h, s)) is Some implies h.len <= s.len() by { P::law_size(h, s); }
}
