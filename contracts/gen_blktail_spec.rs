pub open spec fn BlkTail_fields(b: BlkTail) -> Seq<u8> { one(kind_byte(b.k)) + b.m.le() + b.data@ }
pub open spec fn BlkTail_crc(f: Seq<u8>) -> Seq<u8> { crc32_of(f).le() }
/// the bytes of a block: signature, fields in declaration order, CRC of the fields
pub open spec fn BlkTail_enc(b: BlkTail) -> Seq<u8> { BLKTAIL@ + BlkTail_fields(b) + BlkTail_crc(BlkTail_fields(b)) }
/// b has the field values which the bytes s (behind the signature) stand for
pub open spec fn BlkTail_is(b: BlkTail, s: Seq<u8>) -> bool {
    &&& b.k == kind_of(s[0])
    &&& b.m == u64::of_le(at(s, 1, 8))
    &&& b.data@ == at(s, 9, 700)
}
/// every enum byte stands for a value
pub open spec fn BlkTail_kinds(s: Seq<u8>) -> bool { kind_ok(s[0]) }
/// the bytes of the decoded fields
pub open spec fn BlkTail_norm(s: Seq<u8>) -> Seq<u8> { one(s[0]) + at(s, 1, 8) + at(s, 9, 700) }
/// the bytes behind the signature are a block's
pub open spec fn BlkTail_ok(s: Seq<u8>) -> bool {
    s.len() >= 713 && BlkTail_kinds(s) && BlkTail_crc(BlkTail_norm(s)) == at(s, 709, 4)
}
pub open spec fn BlkTail_sig_ok(s: Seq<u8>) -> bool { s.len() >= 4 && s.take(4) == BLKTAIL@ }
pub open spec fn BlkTail_body(s: Seq<u8>, skip: bool) -> Seq<u8> { if skip { s } else { s.skip(4) } }
/// s starts with a block
pub open spec fn BlkTail_accepts(s: Seq<u8>, skip: bool) -> bool { (skip || BlkTail_sig_ok(s)) && BlkTail_ok(BlkTail_body(s, skip)) }
pub open spec fn BlkTail_len(skip: bool) -> nat { if skip { 713 } else { 717 } }
/// the error for a full-length string which is not accepted
pub open spec fn BlkTail_refused(s: Seq<u8>, skip: bool, e: Error) -> bool {
    if !skip && !BlkTail_sig_ok(s) { e is SignatureDismatch }
    else if !BlkTail_kinds(BlkTail_body(s, skip)) { e is FailedConverting }
    else { !BlkTail_ok(BlkTail_body(s, skip)) && e is CrcDismatch }
}
pub open spec fn BlkTail_val(s: Seq<u8>) -> BlkTail { BlkTail { k: kind_of(s[0]), m: u64::of_le(at(s, 1, 8)), data: arr::<700>(at(s, 9, 700)) } }
pub open spec fn BlkTail_view(s: Seq<u8>) -> BlkTailReferred<'static> {
    BlkTailReferred { __sig: &arr::<4>(s.take(4)), __crc: &arr::<4>(at(s.skip(4), 709, 4)), k: kind_of(s[4]), m: u64::of_le(at(s.skip(4), 1, 8)), data: &arr::<700>(at(s.skip(4), 9, 700)) }
}
pub open spec fn BlkTail_own(r: BlkTailReferred) -> BlkTail { BlkTail { k: r.k, m: r.m, data: *r.data } }

/// `transmute` to another lifetime
#[verifier::external_body]
pub fn v_longer_BlkTail<'a, 'b>(x: BlkTailReferred<'b>) -> (r: BlkTailReferred<'a>) ensures r == x { unimplemented!() }
pub mod BlkTail_lemmas {
use super::*;
broadcast use kinds::all;
pub proof fn lemma_BlkTail_cut(b: BlkTail, x: Seq<u8>)
    ensures
        BlkTail_fields(b).len() == 709,
        BlkTail_is(b, BlkTail_fields(b) + x),
        BlkTail_kinds(BlkTail_fields(b) + x),
{
    le64(b.m);
    assert(BlkTail_fields(b).len() == 709);
    assert((BlkTail_fields(b) + x)[0] == one(kind_byte(b.k))[0]);
    assert(at(BlkTail_fields(b) + x, 1, 8) =~= b.m.le());
    assert(at(BlkTail_fields(b) + x, 9, 700) =~= b.data@);
}
/// decoding and encoding again gives the decoded fields' bytes
pub proof fn lemma_BlkTail_norm(b: BlkTail, s: Seq<u8>)
    requires s.len() >= 709, BlkTail_is(b, s), BlkTail_kinds(s)
    ensures BlkTail_fields(b) == BlkTail_norm(s)
{
    el64(at(s, 1, 8));
}
pub proof fn lemma_BlkTail_norm_all(s: Seq<u8>)
    requires s.len() >= 709, BlkTail_kinds(s)
    ensures forall|b: BlkTail| BlkTail_is(b, s) ==> #[trigger] BlkTail_fields(b) == BlkTail_norm(s)
{
    assert forall|b: BlkTail| BlkTail_is(b, s) implies #[trigger] BlkTail_fields(b) == BlkTail_norm(s) by { lemma_BlkTail_norm(b, s); }
}
/// the bytes determine the block
pub proof fn lemma_BlkTail_unique(b: BlkTail, c: BlkTail, s: Seq<u8>)
    requires BlkTail_is(b, s), BlkTail_is(c, s)
    ensures b == c
{
    assert(b.data == c.data) by { array_ext(b.data, c.data); }
}
/// ... and there is one
pub proof fn lemma_BlkTail_val(s: Seq<u8>)
    requires s.len() >= 709
    ensures
        BlkTail_is(BlkTail_val(s), s),
        forall|b: BlkTail| #[trigger] BlkTail_is(b, s) ==> b == BlkTail_val(s),
{
    arr_bytes::<700>(at(s, 9, 700));
    assert forall|b: BlkTail| #[trigger] BlkTail_is(b, s) implies b == BlkTail_val(s) by { lemma_BlkTail_unique(b, BlkTail_val(s), s); }
}
/// C07: whatever is read from the bytes of b is b, with and without the signature, whatever follows
pub proof fn lemma_BlkTail_round_trip(b: BlkTail, t: Seq<u8>, c: BlkTail)
    ensures
        BlkTail_enc(b).len() == 717,
        BlkTail_accepts(BlkTail_enc(b) + t, false),
        BlkTail_accepts(BlkTail_enc(b).skip(4) + t, true),
        BlkTail_is(c, BlkTail_body(BlkTail_enc(b) + t, false)) ==> b == c,
        BlkTail_is(c, BlkTail_body(BlkTail_enc(b).skip(4) + t, true)) ==> b == c,
{
    hide(BlkTail_fields); hide(BlkTail_norm); hide(BlkTail_is); hide(BlkTail_kinds);
    let f = BlkTail_fields(b);
    let k = BlkTail_crc(f);
    le32(crc32_of(f));
    lemma_BlkTail_cut(b, k + t);
    assert(BlkTail_enc(b).len() == 717);
    let s = BlkTail_enc(b) + t;
    assert(s.take(4) =~= BLKTAIL@);
    assert(s.skip(4) =~= f + (k + t));
    assert(BlkTail_enc(b).skip(4) + t =~= f + (k + t));
    lemma_BlkTail_norm(b, f + (k + t));
    assert(at(f + (k + t), 709, 4) =~= k);
    if BlkTail_is(c, f + (k + t)) { lemma_BlkTail_unique(b, c, f + (k + t)); }
}
/// the decoded fields' bytes are the bytes themselves, but for bools
proof fn lemma_BlkTail_norm_at(s: Seq<u8>)
    requires s.len() >= 709
    ensures
        BlkTail_norm(s).len() == 709,
        forall|k: int| 0 <= k < 709 ==> #[trigger] BlkTail_norm(s)[k] == s[k],
{
}
/// C16: a block of which at most one byte was changed is refused, or still the same block (a bool's byte 1 and 2 are the same)
pub proof fn theorem_BlkTail_detects(b: BlkTail, c: BlkTail, s: Seq<u8>, t: Seq<u8>, i: int)
    requires
        BlkTail_accepts(s, false), BlkTail_accepts(t, false), BlkTail_is(b, s.skip(4)), BlkTail_is(c, t.skip(4)),
        forall|k: int| 0 <= k < 717 && k != i ==> s[k] == t[k],
    ensures b == c
{
    hide(BlkTail_fields); hide(BlkTail_norm); hide(BlkTail_is);
    let (x, y) = (s.skip(4), t.skip(4));
    lemma_BlkTail_norm_at(x); lemma_BlkTail_norm_at(y);
    lemma_BlkTail_norm(b, x); lemma_BlkTail_norm(c, y);
    let (f, g) = (BlkTail_norm(x), BlkTail_norm(y));
    le32(crc32_of(f)); le32(crc32_of(g));
    assert forall|k: int| 0 <= k < 709 && k != i - 4 implies f[k] == g[k] by {
        assert(s[k + 4] == t[k + 4]);
        assert(x[k] == y[k]);
    }
    if 4 <= i < 713 {
        assert(at(x, 709, 4) =~= at(y, 709, 4));
        lemma_crc_detects(f, g, i - 4);
    } else {
        assert(f =~= g);
    }
    let e = Seq::<u8>::empty();
    lemma_BlkTail_cut(b, e); lemma_BlkTail_cut(c, e);
    lemma_BlkTail_unique(b, c, f + e);
}
}
pub use BlkTail_lemmas::*;
