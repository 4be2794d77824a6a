// ---------------------------------------------------------------- the enum of all blocks
pub open spec fn block_enc(b: Block) -> Seq<u8> {
    match b {
        Block::BlkUns(x) => BlkUns_enc(x),
        Block::BlkSig(x) => BlkSig_enc(x),
        Block::BlkMix(x) => BlkMix_enc(x),
        Block::BlkOne(x) => BlkOne_enc(x),
        Block::BlkFree(x) => BlkFree_enc(x),
        Block::BlkTail(x) => BlkTail_enc(x),
    }
}
/// the block at the start of s: the type is the one whose signature s carries
pub open spec fn block_dec(s: Seq<u8>) -> Option<(Block, nat)> {
    if BlkUns_sig_ok(s) { if BlkUns_ok(s.skip(4)) { Some((Block::BlkUns(BlkUns_val(s.skip(4))), 39nat)) } else { None } } else
    if BlkSig_sig_ok(s) { if BlkSig_ok(s.skip(4)) { Some((Block::BlkSig(BlkSig_val(s.skip(4))), 52nat)) } else { None } } else
    if BlkMix_sig_ok(s) { if BlkMix_ok(s.skip(4)) { Some((Block::BlkMix(BlkMix_val(s.skip(4))), 56nat)) } else { None } } else
    if BlkOne_sig_ok(s) { if BlkOne_ok(s.skip(4)) { Some((Block::BlkOne(BlkOne_val(s.skip(4))), 9nat)) } else { None } } else
    if BlkFree_sig_ok(s) { if BlkFree_ok(s.skip(4)) { Some((Block::BlkFree(BlkFree_val(s.skip(4))), 50nat)) } else { None } } else
    if BlkTail_sig_ok(s) { if BlkTail_ok(s.skip(4)) { Some((Block::BlkTail(BlkTail_val(s.skip(4))), 717nat)) } else { None } } else
    { None }
}
pub open spec fn view_dec(s: Seq<u8>) -> Option<(BlockReferred<'static>, nat)> {
    if BlkUns_sig_ok(s) { if BlkUns_ok(s.skip(4)) { Some((BlockReferred::BlkUns(BlkUns_view(s)), 39nat)) } else { None } } else
    if BlkSig_sig_ok(s) { if BlkSig_ok(s.skip(4)) { Some((BlockReferred::BlkSig(BlkSig_view(s)), 52nat)) } else { None } } else
    if BlkMix_sig_ok(s) { if BlkMix_ok(s.skip(4)) { Some((BlockReferred::BlkMix(BlkMix_view(s)), 56nat)) } else { None } } else
    if BlkOne_sig_ok(s) { if BlkOne_ok(s.skip(4)) { Some((BlockReferred::BlkOne(BlkOne_view(s)), 9nat)) } else { None } } else
    if BlkFree_sig_ok(s) { if BlkFree_ok(s.skip(4)) { Some((BlockReferred::BlkFree(BlkFree_view(s)), 50nat)) } else { None } } else
    if BlkTail_sig_ok(s) { if BlkTail_ok(s.skip(4)) { Some((BlockReferred::BlkTail(BlkTail_view(s)), 717nat)) } else { None } } else
    { None }
}
pub open spec fn view_own(r: BlockReferred) -> Block {
    match r {
        BlockReferred::BlkUns(x) => Block::BlkUns(BlkUns_own(x)),
        BlockReferred::BlkSig(x) => Block::BlkSig(BlkSig_own(x)),
        BlockReferred::BlkMix(x) => Block::BlkMix(BlkMix_own(x)),
        BlockReferred::BlkOne(x) => Block::BlkOne(BlkOne_own(x)),
        BlockReferred::BlkFree(x) => Block::BlkFree(BlkFree_own(x)),
        BlockReferred::BlkTail(x) => Block::BlkTail(BlkTail_own(x)),
    }
}
/// no signature of a block type
pub open spec fn no_sig(s: Seq<u8>) -> bool { !BlkUns_sig_ok(s) && !BlkSig_sig_ok(s) && !BlkMix_sig_ok(s) && !BlkOne_sig_ok(s) && !BlkFree_sig_ok(s) && !BlkTail_sig_ok(s) }
pub open spec fn block_need(s: Seq<u8>) -> nat {
    if BlkUns_sig_ok(s) { 39nat } else
    if BlkSig_sig_ok(s) { 52nat } else
    if BlkMix_sig_ok(s) { 56nat } else
    if BlkOne_sig_ok(s) { 9nat } else
    if BlkFree_sig_ok(s) { 50nat } else
    if BlkTail_sig_ok(s) { 717nat } else
    { 4nat }
}
pub mod enum_lemmas {
use super::*;
pub proof fn lemma_sigs()
    ensures
        BLKUNS@ != BLKSIG@,
        BLKUNS@ != BLKMIX@,
        BLKUNS@ != BLKONE@,
        BLKUNS@ != BLKFREE@,
        BLKUNS@ != BLKTAIL@,
        BLKSIG@ != BLKMIX@,
        BLKSIG@ != BLKONE@,
        BLKSIG@ != BLKFREE@,
        BLKSIG@ != BLKTAIL@,
        BLKMIX@ != BLKONE@,
        BLKMIX@ != BLKFREE@,
        BLKMIX@ != BLKTAIL@,
        BLKONE@ != BLKFREE@,
        BLKONE@ != BLKTAIL@,
        BLKFREE@ != BLKTAIL@,
{
    assert(BLKUNS@[0] != BLKSIG@[0] || BLKUNS@[1] != BLKSIG@[1] || BLKUNS@[2] != BLKSIG@[2] || BLKUNS@[3] != BLKSIG@[3]);
    assert(BLKUNS@[0] != BLKMIX@[0] || BLKUNS@[1] != BLKMIX@[1] || BLKUNS@[2] != BLKMIX@[2] || BLKUNS@[3] != BLKMIX@[3]);
    assert(BLKUNS@[0] != BLKONE@[0] || BLKUNS@[1] != BLKONE@[1] || BLKUNS@[2] != BLKONE@[2] || BLKUNS@[3] != BLKONE@[3]);
    assert(BLKUNS@[0] != BLKFREE@[0] || BLKUNS@[1] != BLKFREE@[1] || BLKUNS@[2] != BLKFREE@[2] || BLKUNS@[3] != BLKFREE@[3]);
    assert(BLKUNS@[0] != BLKTAIL@[0] || BLKUNS@[1] != BLKTAIL@[1] || BLKUNS@[2] != BLKTAIL@[2] || BLKUNS@[3] != BLKTAIL@[3]);
    assert(BLKSIG@[0] != BLKMIX@[0] || BLKSIG@[1] != BLKMIX@[1] || BLKSIG@[2] != BLKMIX@[2] || BLKSIG@[3] != BLKMIX@[3]);
    assert(BLKSIG@[0] != BLKONE@[0] || BLKSIG@[1] != BLKONE@[1] || BLKSIG@[2] != BLKONE@[2] || BLKSIG@[3] != BLKONE@[3]);
    assert(BLKSIG@[0] != BLKFREE@[0] || BLKSIG@[1] != BLKFREE@[1] || BLKSIG@[2] != BLKFREE@[2] || BLKSIG@[3] != BLKFREE@[3]);
    assert(BLKSIG@[0] != BLKTAIL@[0] || BLKSIG@[1] != BLKTAIL@[1] || BLKSIG@[2] != BLKTAIL@[2] || BLKSIG@[3] != BLKTAIL@[3]);
    assert(BLKMIX@[0] != BLKONE@[0] || BLKMIX@[1] != BLKONE@[1] || BLKMIX@[2] != BLKONE@[2] || BLKMIX@[3] != BLKONE@[3]);
    assert(BLKMIX@[0] != BLKFREE@[0] || BLKMIX@[1] != BLKFREE@[1] || BLKMIX@[2] != BLKFREE@[2] || BLKMIX@[3] != BLKFREE@[3]);
    assert(BLKMIX@[0] != BLKTAIL@[0] || BLKMIX@[1] != BLKTAIL@[1] || BLKMIX@[2] != BLKTAIL@[2] || BLKMIX@[3] != BLKTAIL@[3]);
    assert(BLKONE@[0] != BLKFREE@[0] || BLKONE@[1] != BLKFREE@[1] || BLKONE@[2] != BLKFREE@[2] || BLKONE@[3] != BLKFREE@[3]);
    assert(BLKONE@[0] != BLKTAIL@[0] || BLKONE@[1] != BLKTAIL@[1] || BLKONE@[2] != BLKTAIL@[2] || BLKONE@[3] != BLKTAIL@[3]);
    assert(BLKFREE@[0] != BLKTAIL@[0] || BLKFREE@[1] != BLKTAIL@[1] || BLKFREE@[2] != BLKTAIL@[2] || BLKFREE@[3] != BLKTAIL@[3]);
}
/// a string carries the signature of one type only
pub proof fn lemma_one_sig(s: Seq<u8>)
    ensures
        BlkUns_sig_ok(s) ==> !BlkSig_sig_ok(s),
        BlkUns_sig_ok(s) ==> !BlkMix_sig_ok(s),
        BlkUns_sig_ok(s) ==> !BlkOne_sig_ok(s),
        BlkUns_sig_ok(s) ==> !BlkFree_sig_ok(s),
        BlkUns_sig_ok(s) ==> !BlkTail_sig_ok(s),
        BlkSig_sig_ok(s) ==> !BlkUns_sig_ok(s),
        BlkSig_sig_ok(s) ==> !BlkMix_sig_ok(s),
        BlkSig_sig_ok(s) ==> !BlkOne_sig_ok(s),
        BlkSig_sig_ok(s) ==> !BlkFree_sig_ok(s),
        BlkSig_sig_ok(s) ==> !BlkTail_sig_ok(s),
        BlkMix_sig_ok(s) ==> !BlkUns_sig_ok(s),
        BlkMix_sig_ok(s) ==> !BlkSig_sig_ok(s),
        BlkMix_sig_ok(s) ==> !BlkOne_sig_ok(s),
        BlkMix_sig_ok(s) ==> !BlkFree_sig_ok(s),
        BlkMix_sig_ok(s) ==> !BlkTail_sig_ok(s),
        BlkOne_sig_ok(s) ==> !BlkUns_sig_ok(s),
        BlkOne_sig_ok(s) ==> !BlkSig_sig_ok(s),
        BlkOne_sig_ok(s) ==> !BlkMix_sig_ok(s),
        BlkOne_sig_ok(s) ==> !BlkFree_sig_ok(s),
        BlkOne_sig_ok(s) ==> !BlkTail_sig_ok(s),
        BlkFree_sig_ok(s) ==> !BlkUns_sig_ok(s),
        BlkFree_sig_ok(s) ==> !BlkSig_sig_ok(s),
        BlkFree_sig_ok(s) ==> !BlkMix_sig_ok(s),
        BlkFree_sig_ok(s) ==> !BlkOne_sig_ok(s),
        BlkFree_sig_ok(s) ==> !BlkTail_sig_ok(s),
        BlkTail_sig_ok(s) ==> !BlkUns_sig_ok(s),
        BlkTail_sig_ok(s) ==> !BlkSig_sig_ok(s),
        BlkTail_sig_ok(s) ==> !BlkMix_sig_ok(s),
        BlkTail_sig_ok(s) ==> !BlkOne_sig_ok(s),
        BlkTail_sig_ok(s) ==> !BlkFree_sig_ok(s),
{ lemma_sigs(); }
pub proof fn lemma_vals(s: Seq<u8>)
    ensures
        s.len() >= 35 ==> BlkUns_is(BlkUns_val(s.skip(4)), s.skip(4)) && forall|b: BlkUns| #[trigger] BlkUns_is(b, s.skip(4)) ==> b == BlkUns_val(s.skip(4)),
        s.len() >= 48 ==> BlkSig_is(BlkSig_val(s.skip(4)), s.skip(4)) && forall|b: BlkSig| #[trigger] BlkSig_is(b, s.skip(4)) ==> b == BlkSig_val(s.skip(4)),
        s.len() >= 52 ==> BlkMix_is(BlkMix_val(s.skip(4)), s.skip(4)) && forall|b: BlkMix| #[trigger] BlkMix_is(b, s.skip(4)) ==> b == BlkMix_val(s.skip(4)),
        s.len() >= 5 ==> BlkOne_is(BlkOne_val(s.skip(4)), s.skip(4)) && forall|b: BlkOne| #[trigger] BlkOne_is(b, s.skip(4)) ==> b == BlkOne_val(s.skip(4)),
        s.len() >= 46 ==> BlkFree_is(BlkFree_val(s.skip(4)), s.skip(4)) && forall|b: BlkFree| #[trigger] BlkFree_is(b, s.skip(4)) ==> b == BlkFree_val(s.skip(4)),
        s.len() >= 713 ==> BlkTail_is(BlkTail_val(s.skip(4)), s.skip(4)) && forall|b: BlkTail| #[trigger] BlkTail_is(b, s.skip(4)) ==> b == BlkTail_val(s.skip(4)),
        BlkUns_sig_ok(s) && BlkUns_ok(s.skip(4)) ==> BlkUns_kinds(s.skip(4)) && s.len() >= 39,
        BlkSig_sig_ok(s) && BlkSig_ok(s.skip(4)) ==> BlkSig_kinds(s.skip(4)) && s.len() >= 52,
        BlkMix_sig_ok(s) && BlkMix_ok(s.skip(4)) ==> BlkMix_kinds(s.skip(4)) && s.len() >= 56,
        BlkOne_sig_ok(s) && BlkOne_ok(s.skip(4)) ==> BlkOne_kinds(s.skip(4)) && s.len() >= 9,
        BlkFree_sig_ok(s) && BlkFree_ok(s.skip(4)) ==> BlkFree_kinds(s.skip(4)) && s.len() >= 50,
        BlkTail_sig_ok(s) && BlkTail_ok(s.skip(4)) ==> BlkTail_kinds(s.skip(4)) && s.len() >= 717,
{
    if s.len() >= 35 { lemma_BlkUns_val(s.skip(4)); }
    if s.len() >= 48 { lemma_BlkSig_val(s.skip(4)); }
    if s.len() >= 52 { lemma_BlkMix_val(s.skip(4)); }
    if s.len() >= 5 { lemma_BlkOne_val(s.skip(4)); }
    if s.len() >= 46 { lemma_BlkFree_val(s.skip(4)); }
    if s.len() >= 713 { lemma_BlkTail_val(s.skip(4)); }

}
pub proof fn lemma_one_BlkUns(s: Seq<u8>)
    requires BlkUns_sig_ok(s), BlkUns_ok(s.skip(4))
    ensures BlkUns_own(BlkUns_view(s)) == BlkUns_val(s.skip(4)), s.len() >= 39
{ }
pub proof fn lemma_round_BlkUns(x: BlkUns, t: Seq<u8>)
    ensures
        BlkUns_enc(x).len() == 39,
        BlkUns_sig_ok(BlkUns_enc(x) + t), BlkUns_ok((BlkUns_enc(x) + t).skip(4)),
        BlkUns_val((BlkUns_enc(x) + t).skip(4)) == x,
{
    let s = BlkUns_enc(x) + t;
    lemma_BlkUns_round_trip(x, t, BlkUns_val(s.skip(4)));
    lemma_BlkUns_val(s.skip(4));
}
pub proof fn lemma_one_BlkSig(s: Seq<u8>)
    requires BlkSig_sig_ok(s), BlkSig_ok(s.skip(4))
    ensures BlkSig_own(BlkSig_view(s)) == BlkSig_val(s.skip(4)), s.len() >= 52
{ }
pub proof fn lemma_round_BlkSig(x: BlkSig, t: Seq<u8>)
    ensures
        BlkSig_enc(x).len() == 52,
        BlkSig_sig_ok(BlkSig_enc(x) + t), BlkSig_ok((BlkSig_enc(x) + t).skip(4)),
        BlkSig_val((BlkSig_enc(x) + t).skip(4)) == x,
{
    let s = BlkSig_enc(x) + t;
    lemma_BlkSig_round_trip(x, t, BlkSig_val(s.skip(4)));
    lemma_BlkSig_val(s.skip(4));
}
pub proof fn lemma_one_BlkMix(s: Seq<u8>)
    requires BlkMix_sig_ok(s), BlkMix_ok(s.skip(4))
    ensures BlkMix_own(BlkMix_view(s)) == BlkMix_val(s.skip(4)), s.len() >= 56
{ }
pub proof fn lemma_round_BlkMix(x: BlkMix, t: Seq<u8>)
    ensures
        BlkMix_enc(x).len() == 56,
        BlkMix_sig_ok(BlkMix_enc(x) + t), BlkMix_ok((BlkMix_enc(x) + t).skip(4)),
        BlkMix_val((BlkMix_enc(x) + t).skip(4)) == x,
{
    let s = BlkMix_enc(x) + t;
    lemma_BlkMix_round_trip(x, t, BlkMix_val(s.skip(4)));
    lemma_BlkMix_val(s.skip(4));
}
pub proof fn lemma_one_BlkOne(s: Seq<u8>)
    requires BlkOne_sig_ok(s), BlkOne_ok(s.skip(4))
    ensures BlkOne_own(BlkOne_view(s)) == BlkOne_val(s.skip(4)), s.len() >= 9
{ }
pub proof fn lemma_round_BlkOne(x: BlkOne, t: Seq<u8>)
    ensures
        BlkOne_enc(x).len() == 9,
        BlkOne_sig_ok(BlkOne_enc(x) + t), BlkOne_ok((BlkOne_enc(x) + t).skip(4)),
        BlkOne_val((BlkOne_enc(x) + t).skip(4)) == x,
{
    let s = BlkOne_enc(x) + t;
    lemma_BlkOne_round_trip(x, t, BlkOne_val(s.skip(4)));
    lemma_BlkOne_val(s.skip(4));
}
pub proof fn lemma_one_BlkFree(s: Seq<u8>)
    requires BlkFree_sig_ok(s), BlkFree_ok(s.skip(4))
    ensures BlkFree_own(BlkFree_view(s)) == BlkFree_val(s.skip(4)), s.len() >= 50
{ }
pub proof fn lemma_round_BlkFree(x: BlkFree, t: Seq<u8>)
    ensures
        BlkFree_enc(x).len() == 50,
        BlkFree_sig_ok(BlkFree_enc(x) + t), BlkFree_ok((BlkFree_enc(x) + t).skip(4)),
        BlkFree_val((BlkFree_enc(x) + t).skip(4)) == x,
{
    let s = BlkFree_enc(x) + t;
    lemma_BlkFree_round_trip(x, t, BlkFree_val(s.skip(4)));
    lemma_BlkFree_val(s.skip(4));
}
pub proof fn lemma_one_BlkTail(s: Seq<u8>)
    requires BlkTail_sig_ok(s), BlkTail_ok(s.skip(4))
    ensures BlkTail_own(BlkTail_view(s)) == BlkTail_val(s.skip(4)), s.len() >= 717
{ }
pub proof fn lemma_round_BlkTail(x: BlkTail, t: Seq<u8>)
    ensures
        BlkTail_enc(x).len() == 717,
        BlkTail_sig_ok(BlkTail_enc(x) + t), BlkTail_ok((BlkTail_enc(x) + t).skip(4)),
        BlkTail_val((BlkTail_enc(x) + t).skip(4)) == x,
{
    let s = BlkTail_enc(x) + t;
    lemma_BlkTail_round_trip(x, t, BlkTail_val(s.skip(4)));
    lemma_BlkTail_val(s.skip(4));
}

pub proof fn lemma_block_round(b: Block, t: Seq<u8>)
    ensures block_dec(block_enc(b) + t) == Some((b, block_enc(b).len()))
{
    hide(BlkUns_ok); hide(BlkUns_is); hide(BlkUns_val); hide(BlkUns_view); hide(BlkUns_enc); hide(BlkUns_own); hide(BlkSig_ok); hide(BlkSig_is); hide(BlkSig_val); hide(BlkSig_view); hide(BlkSig_enc); hide(BlkSig_own); hide(BlkMix_ok); hide(BlkMix_is); hide(BlkMix_val); hide(BlkMix_view); hide(BlkMix_enc); hide(BlkMix_own); hide(BlkOne_ok); hide(BlkOne_is); hide(BlkOne_val); hide(BlkOne_view); hide(BlkOne_enc); hide(BlkOne_own); hide(BlkFree_ok); hide(BlkFree_is); hide(BlkFree_val); hide(BlkFree_view); hide(BlkFree_enc); hide(BlkFree_own); hide(BlkTail_ok); hide(BlkTail_is); hide(BlkTail_val); hide(BlkTail_view); hide(BlkTail_enc); hide(BlkTail_own);
    lemma_one_sig(block_enc(b) + t);
    match b {
        Block::BlkUns(x) => { lemma_round_BlkUns(x, t); }
        Block::BlkSig(x) => { lemma_round_BlkSig(x, t); }
        Block::BlkMix(x) => { lemma_round_BlkMix(x, t); }
        Block::BlkOne(x) => { lemma_round_BlkOne(x, t); }
        Block::BlkFree(x) => { lemma_round_BlkFree(x, t); }
        Block::BlkTail(x) => { lemma_round_BlkTail(x, t); }
    }
}
pub proof fn lemma_block_len(b: Block)
    ensures
        match b {
            Block::BlkUns(x) => block_enc(b).len() == 39,
            Block::BlkSig(x) => block_enc(b).len() == 52,
            Block::BlkMix(x) => block_enc(b).len() == 56,
            Block::BlkOne(x) => block_enc(b).len() == 9,
            Block::BlkFree(x) => block_enc(b).len() == 50,
            Block::BlkTail(x) => block_enc(b).len() == 717,
        }
{
    match b {
        Block::BlkUns(x) => { lemma_round_BlkUns(x, Seq::empty()); }
        Block::BlkSig(x) => { lemma_round_BlkSig(x, Seq::empty()); }
        Block::BlkMix(x) => { lemma_round_BlkMix(x, Seq::empty()); }
        Block::BlkOne(x) => { lemma_round_BlkOne(x, Seq::empty()); }
        Block::BlkFree(x) => { lemma_round_BlkFree(x, Seq::empty()); }
        Block::BlkTail(x) => { lemma_round_BlkTail(x, Seq::empty()); }
    }
}
pub proof fn lemma_block_size(s: Seq<u8>)
    ensures block_dec(s) is Some ==> 0 < (block_dec(s)->0).1 <= s.len() && (block_dec(s)->0).1 == block_enc((block_dec(s)->0).0).len()
{
    if block_dec(s) is Some {
        lemma_one_sig(s);
        let b = (block_dec(s)->0).0;
        match b {
            Block::BlkUns(x) => { lemma_one_BlkUns(s); lemma_round_BlkUns(x, Seq::empty()); }
            Block::BlkSig(x) => { lemma_one_BlkSig(s); lemma_round_BlkSig(x, Seq::empty()); }
            Block::BlkMix(x) => { lemma_one_BlkMix(s); lemma_round_BlkMix(x, Seq::empty()); }
            Block::BlkOne(x) => { lemma_one_BlkOne(s); lemma_round_BlkOne(x, Seq::empty()); }
            Block::BlkFree(x) => { lemma_one_BlkFree(s); lemma_round_BlkFree(x, Seq::empty()); }
            Block::BlkTail(x) => { lemma_one_BlkTail(s); lemma_round_BlkTail(x, Seq::empty()); }
        }
    }
}
pub proof fn lemma_block_view(s: Seq<u8>)
    ensures
        view_dec(s) is Some <==> block_dec(s) is Some,
        view_dec(s) is Some ==> view_own((view_dec(s)->0).0) == (block_dec(s)->0).0 && (view_dec(s)->0).1 == (block_dec(s)->0).1,
{
    if BlkUns_sig_ok(s) && BlkUns_ok(s.skip(4)) { lemma_one_BlkUns(s); }
    if BlkSig_sig_ok(s) && BlkSig_ok(s.skip(4)) { lemma_one_BlkSig(s); }
    if BlkMix_sig_ok(s) && BlkMix_ok(s.skip(4)) { lemma_one_BlkMix(s); }
    if BlkOne_sig_ok(s) && BlkOne_ok(s.skip(4)) { lemma_one_BlkOne(s); }
    if BlkFree_sig_ok(s) && BlkFree_ok(s.skip(4)) { lemma_one_BlkFree(s); }
    if BlkTail_sig_ok(s) && BlkTail_ok(s.skip(4)) { lemma_one_BlkTail(s); }
}
}
pub use enum_lemmas::*;

/// BlkUns::read on `Read::chain(&sig[..], buf)`: its contract, for the bytes of the chain
#[verifier::external_body]
pub fn v_chained_BlkUns<T: sio::Read>(sig: &[u8; 4], buf: &mut T) -> (r: Result<BlkUns, Error>)
    ensures
        sio::same_source(old(buf), final(buf)),
        r is Ok ==> BlkUns_accepts(sig@ + old(buf).rest(), false) && BlkUns_is(r->Ok_0, (sig@ + old(buf).rest()).skip(4)),
        r is Ok ==> sio::advanced(old(buf), final(buf), 35),
        r is Err && r->Err_0 is SignatureDismatch ==> sio::advanced(old(buf), final(buf), 0),
        r is Err && !old(buf).faulty() ==> old(buf).rest().len() < 35 || BlkUns_refused(sig@ + old(buf).rest(), false, r->Err_0),
        r is Err && !old(buf).faulty() && !BlkUns_sig_ok(sig@ + old(buf).rest()) ==> r->Err_0 is SignatureDismatch,
{ unimplemented!() }

/// BlkSig::read on `Read::chain(&sig[..], buf)`: its contract, for the bytes of the chain
#[verifier::external_body]
pub fn v_chained_BlkSig<T: sio::Read>(sig: &[u8; 4], buf: &mut T) -> (r: Result<BlkSig, Error>)
    ensures
        sio::same_source(old(buf), final(buf)),
        r is Ok ==> BlkSig_accepts(sig@ + old(buf).rest(), false) && BlkSig_is(r->Ok_0, (sig@ + old(buf).rest()).skip(4)),
        r is Ok ==> sio::advanced(old(buf), final(buf), 48),
        r is Err && r->Err_0 is SignatureDismatch ==> sio::advanced(old(buf), final(buf), 0),
        r is Err && !old(buf).faulty() ==> old(buf).rest().len() < 48 || BlkSig_refused(sig@ + old(buf).rest(), false, r->Err_0),
        r is Err && !old(buf).faulty() && !BlkSig_sig_ok(sig@ + old(buf).rest()) ==> r->Err_0 is SignatureDismatch,
{ unimplemented!() }

/// BlkMix::read on `Read::chain(&sig[..], buf)`: its contract, for the bytes of the chain
#[verifier::external_body]
pub fn v_chained_BlkMix<T: sio::Read>(sig: &[u8; 4], buf: &mut T) -> (r: Result<BlkMix, Error>)
    ensures
        sio::same_source(old(buf), final(buf)),
        r is Ok ==> BlkMix_accepts(sig@ + old(buf).rest(), false) && BlkMix_is(r->Ok_0, (sig@ + old(buf).rest()).skip(4)),
        r is Ok ==> sio::advanced(old(buf), final(buf), 52),
        r is Err && r->Err_0 is SignatureDismatch ==> sio::advanced(old(buf), final(buf), 0),
        r is Err && !old(buf).faulty() ==> old(buf).rest().len() < 52 || BlkMix_refused(sig@ + old(buf).rest(), false, r->Err_0),
        r is Err && !old(buf).faulty() && !BlkMix_sig_ok(sig@ + old(buf).rest()) ==> r->Err_0 is SignatureDismatch,
{ unimplemented!() }

/// BlkOne::read on `Read::chain(&sig[..], buf)`: its contract, for the bytes of the chain
#[verifier::external_body]
pub fn v_chained_BlkOne<T: sio::Read>(sig: &[u8; 4], buf: &mut T) -> (r: Result<BlkOne, Error>)
    ensures
        sio::same_source(old(buf), final(buf)),
        r is Ok ==> BlkOne_accepts(sig@ + old(buf).rest(), false) && BlkOne_is(r->Ok_0, (sig@ + old(buf).rest()).skip(4)),
        r is Ok ==> sio::advanced(old(buf), final(buf), 5),
        r is Err && r->Err_0 is SignatureDismatch ==> sio::advanced(old(buf), final(buf), 0),
        r is Err && !old(buf).faulty() ==> old(buf).rest().len() < 5 || BlkOne_refused(sig@ + old(buf).rest(), false, r->Err_0),
        r is Err && !old(buf).faulty() && !BlkOne_sig_ok(sig@ + old(buf).rest()) ==> r->Err_0 is SignatureDismatch,
{ unimplemented!() }

/// BlkFree::read on `Read::chain(&sig[..], buf)`: its contract, for the bytes of the chain
#[verifier::external_body]
pub fn v_chained_BlkFree<T: sio::Read>(sig: &[u8; 4], buf: &mut T) -> (r: Result<BlkFree, Error>)
    ensures
        sio::same_source(old(buf), final(buf)),
        r is Ok ==> BlkFree_accepts(sig@ + old(buf).rest(), false) && BlkFree_is(r->Ok_0, (sig@ + old(buf).rest()).skip(4)),
        r is Ok ==> sio::advanced(old(buf), final(buf), 46),
        r is Err && r->Err_0 is SignatureDismatch ==> sio::advanced(old(buf), final(buf), 0),
        r is Err && !old(buf).faulty() ==> old(buf).rest().len() < 46 || BlkFree_refused(sig@ + old(buf).rest(), false, r->Err_0),
        r is Err && !old(buf).faulty() && !BlkFree_sig_ok(sig@ + old(buf).rest()) ==> r->Err_0 is SignatureDismatch,
{ unimplemented!() }

/// BlkTail::read on `Read::chain(&sig[..], buf)`: its contract, for the bytes of the chain
#[verifier::external_body]
pub fn v_chained_BlkTail<T: sio::Read>(sig: &[u8; 4], buf: &mut T) -> (r: Result<BlkTail, Error>)
    ensures
        sio::same_source(old(buf), final(buf)),
        r is Ok ==> BlkTail_accepts(sig@ + old(buf).rest(), false) && BlkTail_is(r->Ok_0, (sig@ + old(buf).rest()).skip(4)),
        r is Ok ==> sio::advanced(old(buf), final(buf), 713),
        r is Err && r->Err_0 is SignatureDismatch ==> sio::advanced(old(buf), final(buf), 0),
        r is Err && !old(buf).faulty() ==> old(buf).rest().len() < 713 || BlkTail_refused(sig@ + old(buf).rest(), false, r->Err_0),
        r is Err && !old(buf).faulty() && !BlkTail_sig_ok(sig@ + old(buf).rest()) ==> r->Err_0 is SignatureDismatch,
{ unimplemented!() }
