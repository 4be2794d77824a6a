pub open spec fn BlkOne_fields(b: BlkOne) -> Seq<u8> { b.v.le() }
pub open spec fn BlkOne_crc(f: Seq<u8>) -> Seq<u8> { crc32_of(f).le() }
/// the bytes of a block: signature, fields in declaration order, CRC of the fields
pub open spec fn BlkOne_enc(b: BlkOne) -> Seq<u8> { BLKONE@ + BlkOne_fields(b) + BlkOne_crc(BlkOne_fields(b)) }
/// b has the field values which the bytes s (behind the signature) stand for
pub open spec fn BlkOne_is(b: BlkOne, s: Seq<u8>) -> bool {
    &&& b.v == u8::of_le(at(s, 0, 1))
}
/// every enum byte stands for a value
pub open spec fn BlkOne_kinds(s: Seq<u8>) -> bool { true }
/// the bytes of the decoded fields
pub open spec fn BlkOne_norm(s: Seq<u8>) -> Seq<u8> { at(s, 0, 1) }
/// the bytes behind the signature are a block's
pub open spec fn BlkOne_ok(s: Seq<u8>) -> bool {
    s.len() >= 5 && BlkOne_kinds(s) && BlkOne_crc(BlkOne_norm(s)) == at(s, 1, 4)
}
pub open spec fn BlkOne_sig_ok(s: Seq<u8>) -> bool { s.len() >= 4 && s.take(4) == BLKONE@ }
pub open spec fn BlkOne_body(s: Seq<u8>, skip: bool) -> Seq<u8> { if skip { s } else { s.skip(4) } }
/// s starts with a block
pub open spec fn BlkOne_accepts(s: Seq<u8>, skip: bool) -> bool { (skip || BlkOne_sig_ok(s)) && BlkOne_ok(BlkOne_body(s, skip)) }
pub open spec fn BlkOne_len(skip: bool) -> nat { if skip { 5 } else { 9 } }
/// the error for a full-length string which is not accepted
pub open spec fn BlkOne_refused(s: Seq<u8>, skip: bool, e: Error) -> bool {
    if !skip && !BlkOne_sig_ok(s) { e is SignatureDismatch }
    else if !BlkOne_kinds(BlkOne_body(s, skip)) { e is FailedConverting }
    else { !BlkOne_ok(BlkOne_body(s, skip)) && e is CrcDismatch }
}
pub open spec fn BlkOne_val(s: Seq<u8>) -> BlkOne { BlkOne { v: u8::of_le(at(s, 0, 1)) } }
pub open spec fn BlkOne_view(s: Seq<u8>) -> BlkOneReferred<'static> {
    BlkOneReferred { __sig: &arr::<4>(s.take(4)), __crc: &arr::<4>(at(s.skip(4), 1, 4)), v: u8::of_le(at(s.skip(4), 0, 1)) }
}
pub open spec fn BlkOne_own(r: BlkOneReferred) -> BlkOne { BlkOne { v: r.v } }

/// `transmute` to another lifetime
#[verifier::external_body]
pub fn v_longer_BlkOne<'a, 'b>(x: BlkOneReferred<'b>) -> (r: BlkOneReferred<'a>) ensures r == x { unimplemented!() }
pub mod BlkOne_lemmas {
use super::*;
broadcast use kinds::all;
pub proof fn lemma_BlkOne_cut(b: BlkOne, x: Seq<u8>)
    ensures
        BlkOne_fields(b).len() == 1,
        BlkOne_is(b, BlkOne_fields(b) + x),
        BlkOne_kinds(BlkOne_fields(b) + x),
{
    le8(b.v);
    assert(BlkOne_fields(b).len() == 1);
    assert(at(BlkOne_fields(b) + x, 0, 1) =~= b.v.le());
}
/// decoding and encoding again gives the decoded fields' bytes
pub proof fn lemma_BlkOne_norm(b: BlkOne, s: Seq<u8>)
    requires s.len() >= 1, BlkOne_is(b, s), BlkOne_kinds(s)
    ensures BlkOne_fields(b) == BlkOne_norm(s)
{
    el8(at(s, 0, 1));
}
pub proof fn lemma_BlkOne_norm_all(s: Seq<u8>)
    requires s.len() >= 1, BlkOne_kinds(s)
    ensures forall|b: BlkOne| BlkOne_is(b, s) ==> #[trigger] BlkOne_fields(b) == BlkOne_norm(s)
{
    assert forall|b: BlkOne| BlkOne_is(b, s) implies #[trigger] BlkOne_fields(b) == BlkOne_norm(s) by { lemma_BlkOne_norm(b, s); }
}
/// the bytes determine the block
pub proof fn lemma_BlkOne_unique(b: BlkOne, c: BlkOne, s: Seq<u8>)
    requires BlkOne_is(b, s), BlkOne_is(c, s)
    ensures b == c
{

}
/// ... and there is one
pub proof fn lemma_BlkOne_val(s: Seq<u8>)
    requires s.len() >= 1
    ensures
        BlkOne_is(BlkOne_val(s), s),
        forall|b: BlkOne| #[trigger] BlkOne_is(b, s) ==> b == BlkOne_val(s),
{

    assert forall|b: BlkOne| #[trigger] BlkOne_is(b, s) implies b == BlkOne_val(s) by { lemma_BlkOne_unique(b, BlkOne_val(s), s); }
}
/// C07: whatever is read from the bytes of b is b, with and without the signature, whatever follows
pub proof fn lemma_BlkOne_round_trip(b: BlkOne, t: Seq<u8>, c: BlkOne)
    ensures
        BlkOne_enc(b).len() == 9,
        BlkOne_accepts(BlkOne_enc(b) + t, false),
        BlkOne_accepts(BlkOne_enc(b).skip(4) + t, true),
        BlkOne_is(c, BlkOne_body(BlkOne_enc(b) + t, false)) ==> b == c,
        BlkOne_is(c, BlkOne_body(BlkOne_enc(b).skip(4) + t, true)) ==> b == c,
{
    hide(BlkOne_fields); hide(BlkOne_norm); hide(BlkOne_is); hide(BlkOne_kinds);
    let f = BlkOne_fields(b);
    let k = BlkOne_crc(f);
    le32(crc32_of(f));
    lemma_BlkOne_cut(b, k + t);
    assert(BlkOne_enc(b).len() == 9);
    let s = BlkOne_enc(b) + t;
    assert(s.take(4) =~= BLKONE@);
    assert(s.skip(4) =~= f + (k + t));
    assert(BlkOne_enc(b).skip(4) + t =~= f + (k + t));
    lemma_BlkOne_norm(b, f + (k + t));
    assert(at(f + (k + t), 1, 4) =~= k);
    if BlkOne_is(c, f + (k + t)) { lemma_BlkOne_unique(b, c, f + (k + t)); }
}
/// the decoded fields' bytes are the bytes themselves, but for bools
proof fn lemma_BlkOne_norm_at(s: Seq<u8>)
    requires s.len() >= 1
    ensures
        BlkOne_norm(s).len() == 1,
        forall|k: int| 0 <= k < 1 ==> #[trigger] BlkOne_norm(s)[k] == s[k],
{
}
/// C16: a block of which at most one byte was changed is refused, or still the same block (a bool's byte 1 and 2 are the same)
pub proof fn theorem_BlkOne_detects(b: BlkOne, c: BlkOne, s: Seq<u8>, t: Seq<u8>, i: int)
    requires
        BlkOne_accepts(s, false), BlkOne_accepts(t, false), BlkOne_is(b, s.skip(4)), BlkOne_is(c, t.skip(4)),
        forall|k: int| 0 <= k < 9 && k != i ==> s[k] == t[k],
    ensures b == c
{
    hide(BlkOne_fields); hide(BlkOne_norm); hide(BlkOne_is);
    let (x, y) = (s.skip(4), t.skip(4));
    lemma_BlkOne_norm_at(x); lemma_BlkOne_norm_at(y);
    lemma_BlkOne_norm(b, x); lemma_BlkOne_norm(c, y);
    let (f, g) = (BlkOne_norm(x), BlkOne_norm(y));
    le32(crc32_of(f)); le32(crc32_of(g));
    assert forall|k: int| 0 <= k < 1 && k != i - 4 implies f[k] == g[k] by {
        assert(s[k + 4] == t[k + 4]);
        assert(x[k] == y[k]);
    }
    if 4 <= i < 5 {
        assert(at(x, 1, 4) =~= at(y, 1, 4));
        lemma_crc_detects(f, g, i - 4);
    } else {
        assert(f =~= g);
    }
    let e = Seq::<u8>::empty();
    lemma_BlkOne_cut(b, e); lemma_BlkOne_cut(c, e);
    lemma_BlkOne_unique(b, c, f + e);
}
}
pub use BlkOne_lemmas::*;
