pub open spec fn BlkFree_fields(b: BlkFree) -> Seq<u8> { b.x.le() + b.blob@ }
pub open spec fn BlkFree_crc(f: Seq<u8>) -> Seq<u8> { seq![0u8, 0u8, 0u8, 0u8] }
/// the bytes of a block: signature, fields in declaration order, CRC of the fields
pub open spec fn BlkFree_enc(b: BlkFree) -> Seq<u8> { BLKFREE@ + BlkFree_fields(b) + BlkFree_crc(BlkFree_fields(b)) }
/// b has the field values which the bytes s (behind the signature) stand for
pub open spec fn BlkFree_is(b: BlkFree, s: Seq<u8>) -> bool {
    &&& b.x == i16::of_le(at(s, 0, 2))
    &&& b.blob@ == at(s, 2, 40)
}
/// every enum byte stands for a value
pub open spec fn BlkFree_kinds(s: Seq<u8>) -> bool { true }
/// the bytes of the decoded fields
pub open spec fn BlkFree_norm(s: Seq<u8>) -> Seq<u8> { at(s, 0, 2) + at(s, 2, 40) }
/// the bytes behind the signature are a block's
pub open spec fn BlkFree_ok(s: Seq<u8>) -> bool {
    s.len() >= 46 && BlkFree_kinds(s) && BlkFree_crc(BlkFree_norm(s)) == at(s, 42, 4)
}
pub open spec fn BlkFree_sig_ok(s: Seq<u8>) -> bool { s.len() >= 4 && s.take(4) == BLKFREE@ }
pub open spec fn BlkFree_body(s: Seq<u8>, skip: bool) -> Seq<u8> { if skip { s } else { s.skip(4) } }
/// s starts with a block
pub open spec fn BlkFree_accepts(s: Seq<u8>, skip: bool) -> bool { (skip || BlkFree_sig_ok(s)) && BlkFree_ok(BlkFree_body(s, skip)) }
pub open spec fn BlkFree_len(skip: bool) -> nat { if skip { 46 } else { 50 } }
/// the error for a full-length string which is not accepted
pub open spec fn BlkFree_refused(s: Seq<u8>, skip: bool, e: Error) -> bool {
    if !skip && !BlkFree_sig_ok(s) { e is SignatureDismatch }
    else if !BlkFree_kinds(BlkFree_body(s, skip)) { e is FailedConverting }
    else { !BlkFree_ok(BlkFree_body(s, skip)) && e is CrcDismatch }
}
pub open spec fn BlkFree_val(s: Seq<u8>) -> BlkFree { BlkFree { x: i16::of_le(at(s, 0, 2)), blob: arr::<40>(at(s, 2, 40)) } }
pub open spec fn BlkFree_view(s: Seq<u8>) -> BlkFreeReferred<'static> {
    BlkFreeReferred { __sig: &arr::<4>(s.take(4)), __crc: &arr::<4>(at(s.skip(4), 42, 4)), x: i16::of_le(at(s.skip(4), 0, 2)), blob: &arr::<40>(at(s.skip(4), 2, 40)) }
}
pub open spec fn BlkFree_own(r: BlkFreeReferred) -> BlkFree { BlkFree { x: r.x, blob: *r.blob } }

/// `transmute` to another lifetime
#[verifier::external_body]
pub fn v_longer_BlkFree<'a, 'b>(x: BlkFreeReferred<'b>) -> (r: BlkFreeReferred<'a>) ensures r == x { unimplemented!() }
pub mod BlkFree_lemmas {
use super::*;
broadcast use kinds::all;
pub proof fn lemma_BlkFree_cut(b: BlkFree, x: Seq<u8>)
    ensures
        BlkFree_fields(b).len() == 42,
        BlkFree_is(b, BlkFree_fields(b) + x),
        BlkFree_kinds(BlkFree_fields(b) + x),
{
    le_i16(b.x);
    assert(BlkFree_fields(b).len() == 42);
    assert(at(BlkFree_fields(b) + x, 0, 2) =~= b.x.le());
    assert(at(BlkFree_fields(b) + x, 2, 40) =~= b.blob@);
}
/// decoding and encoding again gives the decoded fields' bytes
pub proof fn lemma_BlkFree_norm(b: BlkFree, s: Seq<u8>)
    requires s.len() >= 42, BlkFree_is(b, s), BlkFree_kinds(s)
    ensures BlkFree_fields(b) == BlkFree_norm(s)
{
    el_i16(at(s, 0, 2));
}
pub proof fn lemma_BlkFree_norm_all(s: Seq<u8>)
    requires s.len() >= 42, BlkFree_kinds(s)
    ensures forall|b: BlkFree| BlkFree_is(b, s) ==> #[trigger] BlkFree_fields(b) == BlkFree_norm(s)
{
    assert forall|b: BlkFree| BlkFree_is(b, s) implies #[trigger] BlkFree_fields(b) == BlkFree_norm(s) by { lemma_BlkFree_norm(b, s); }
}
/// the bytes determine the block
pub proof fn lemma_BlkFree_unique(b: BlkFree, c: BlkFree, s: Seq<u8>)
    requires BlkFree_is(b, s), BlkFree_is(c, s)
    ensures b == c
{
    assert(b.blob == c.blob) by { array_ext(b.blob, c.blob); }
}
/// ... and there is one
pub proof fn lemma_BlkFree_val(s: Seq<u8>)
    requires s.len() >= 42
    ensures
        BlkFree_is(BlkFree_val(s), s),
        forall|b: BlkFree| #[trigger] BlkFree_is(b, s) ==> b == BlkFree_val(s),
{
    arr_bytes::<40>(at(s, 2, 40));
    assert forall|b: BlkFree| #[trigger] BlkFree_is(b, s) implies b == BlkFree_val(s) by { lemma_BlkFree_unique(b, BlkFree_val(s), s); }
}
/// C07: whatever is read from the bytes of b is b, with and without the signature, whatever follows
pub proof fn lemma_BlkFree_round_trip(b: BlkFree, t: Seq<u8>, c: BlkFree)
    ensures
        BlkFree_enc(b).len() == 50,
        BlkFree_accepts(BlkFree_enc(b) + t, false),
        BlkFree_accepts(BlkFree_enc(b).skip(4) + t, true),
        BlkFree_is(c, BlkFree_body(BlkFree_enc(b) + t, false)) ==> b == c,
        BlkFree_is(c, BlkFree_body(BlkFree_enc(b).skip(4) + t, true)) ==> b == c,
{
    hide(BlkFree_fields); hide(BlkFree_norm); hide(BlkFree_is); hide(BlkFree_kinds);
    let f = BlkFree_fields(b);
    let k = BlkFree_crc(f);
    
    lemma_BlkFree_cut(b, k + t);
    assert(BlkFree_enc(b).len() == 50);
    let s = BlkFree_enc(b) + t;
    assert(s.take(4) =~= BLKFREE@);
    assert(s.skip(4) =~= f + (k + t));
    assert(BlkFree_enc(b).skip(4) + t =~= f + (k + t));
    lemma_BlkFree_norm(b, f + (k + t));
    assert(at(f + (k + t), 42, 4) =~= k);
    if BlkFree_is(c, f + (k + t)) { lemma_BlkFree_unique(b, c, f + (k + t)); }
}
}
pub use BlkFree_lemmas::*;
