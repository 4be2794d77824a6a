pub open spec fn BlkUns_fields(b: BlkUns) -> Seq<u8> { b.a.le() + b.b.le() + b.c.le() + b.d.le() + b.e.le() }
pub open spec fn BlkUns_crc(f: Seq<u8>) -> Seq<u8> { crc32_of(f).le() }
/// the bytes of a block: signature, fields in declaration order, CRC of the fields
pub open spec fn BlkUns_enc(b: BlkUns) -> Seq<u8> { BLKUNS@ + BlkUns_fields(b) + BlkUns_crc(BlkUns_fields(b)) }
/// b has the field values which the bytes s (behind the signature) stand for
pub open spec fn BlkUns_is(b: BlkUns, s: Seq<u8>) -> bool {
    &&& b.a == u8::of_le(at(s, 0, 1))
    &&& b.b == u16::of_le(at(s, 1, 2))
    &&& b.c == u32::of_le(at(s, 3, 4))
    &&& b.d == u64::of_le(at(s, 7, 8))
    &&& b.e == u128::of_le(at(s, 15, 16))
}
/// every enum byte stands for a value
pub open spec fn BlkUns_kinds(s: Seq<u8>) -> bool { true }
/// the bytes of the decoded fields
pub open spec fn BlkUns_norm(s: Seq<u8>) -> Seq<u8> { at(s, 0, 1) + at(s, 1, 2) + at(s, 3, 4) + at(s, 7, 8) + at(s, 15, 16) }
/// the bytes behind the signature are a block's
pub open spec fn BlkUns_ok(s: Seq<u8>) -> bool {
    s.len() >= 35 && BlkUns_kinds(s) && BlkUns_crc(BlkUns_norm(s)) == at(s, 31, 4)
}
pub open spec fn BlkUns_sig_ok(s: Seq<u8>) -> bool { s.len() >= 4 && s.take(4) == BLKUNS@ }
pub open spec fn BlkUns_body(s: Seq<u8>, skip: bool) -> Seq<u8> { if skip { s } else { s.skip(4) } }
/// s starts with a block
pub open spec fn BlkUns_accepts(s: Seq<u8>, skip: bool) -> bool { (skip || BlkUns_sig_ok(s)) && BlkUns_ok(BlkUns_body(s, skip)) }
pub open spec fn BlkUns_len(skip: bool) -> nat { if skip { 35 } else { 39 } }
/// the error for a full-length string which is not accepted
pub open spec fn BlkUns_refused(s: Seq<u8>, skip: bool, e: Error) -> bool {
    if !skip && !BlkUns_sig_ok(s) { e is SignatureDismatch }
    else if !BlkUns_kinds(BlkUns_body(s, skip)) { e is FailedConverting }
    else { !BlkUns_ok(BlkUns_body(s, skip)) && e is CrcDismatch }
}
pub open spec fn BlkUns_val(s: Seq<u8>) -> BlkUns { BlkUns { a: u8::of_le(at(s, 0, 1)), b: u16::of_le(at(s, 1, 2)), c: u32::of_le(at(s, 3, 4)), d: u64::of_le(at(s, 7, 8)), e: u128::of_le(at(s, 15, 16)) } }
pub open spec fn BlkUns_view(s: Seq<u8>) -> BlkUnsReferred<'static> {
    BlkUnsReferred { __sig: &arr::<4>(s.take(4)), __crc: &arr::<4>(at(s.skip(4), 31, 4)), a: u8::of_le(at(s.skip(4), 0, 1)), b: u16::of_le(at(s.skip(4), 1, 2)), c: u32::of_le(at(s.skip(4), 3, 4)), d: u64::of_le(at(s.skip(4), 7, 8)), e: u128::of_le(at(s.skip(4), 15, 16)) }
}
pub open spec fn BlkUns_own(r: BlkUnsReferred) -> BlkUns { BlkUns { a: r.a, b: r.b, c: r.c, d: r.d, e: r.e } }

/// `transmute` to another lifetime
#[verifier::external_body]
pub fn v_longer_BlkUns<'a, 'b>(x: BlkUnsReferred<'b>) -> (r: BlkUnsReferred<'a>) ensures r == x { unimplemented!() }
pub mod BlkUns_lemmas {
use super::*;
broadcast use kinds::all;
pub proof fn lemma_BlkUns_cut(b: BlkUns, x: Seq<u8>)
    ensures
        BlkUns_fields(b).len() == 31,
        BlkUns_is(b, BlkUns_fields(b) + x),
        BlkUns_kinds(BlkUns_fields(b) + x),
{
    le8(b.a);
    le16(b.b);
    le32(b.c);
    le64(b.d);
    le128(b.e);
    assert(BlkUns_fields(b).len() == 31);
    assert(at(BlkUns_fields(b) + x, 0, 1) =~= b.a.le());
    assert(at(BlkUns_fields(b) + x, 1, 2) =~= b.b.le());
    assert(at(BlkUns_fields(b) + x, 3, 4) =~= b.c.le());
    assert(at(BlkUns_fields(b) + x, 7, 8) =~= b.d.le());
    assert(at(BlkUns_fields(b) + x, 15, 16) =~= b.e.le());
}
/// decoding and encoding again gives the decoded fields' bytes
pub proof fn lemma_BlkUns_norm(b: BlkUns, s: Seq<u8>)
    requires s.len() >= 31, BlkUns_is(b, s), BlkUns_kinds(s)
    ensures BlkUns_fields(b) == BlkUns_norm(s)
{
    el8(at(s, 0, 1));
    el16(at(s, 1, 2));
    el32(at(s, 3, 4));
    el64(at(s, 7, 8));
    el128(at(s, 15, 16));
}
pub proof fn lemma_BlkUns_norm_all(s: Seq<u8>)
    requires s.len() >= 31, BlkUns_kinds(s)
    ensures forall|b: BlkUns| BlkUns_is(b, s) ==> #[trigger] BlkUns_fields(b) == BlkUns_norm(s)
{
    assert forall|b: BlkUns| BlkUns_is(b, s) implies #[trigger] BlkUns_fields(b) == BlkUns_norm(s) by { lemma_BlkUns_norm(b, s); }
}
/// the bytes determine the block
pub proof fn lemma_BlkUns_unique(b: BlkUns, c: BlkUns, s: Seq<u8>)
    requires BlkUns_is(b, s), BlkUns_is(c, s)
    ensures b == c
{

}
/// ... and there is one
pub proof fn lemma_BlkUns_val(s: Seq<u8>)
    requires s.len() >= 31
    ensures
        BlkUns_is(BlkUns_val(s), s),
        forall|b: BlkUns| #[trigger] BlkUns_is(b, s) ==> b == BlkUns_val(s),
{

    assert forall|b: BlkUns| #[trigger] BlkUns_is(b, s) implies b == BlkUns_val(s) by { lemma_BlkUns_unique(b, BlkUns_val(s), s); }
}
/// C07: whatever is read from the bytes of b is b, with and without the signature, whatever follows
pub proof fn lemma_BlkUns_round_trip(b: BlkUns, t: Seq<u8>, c: BlkUns)
    ensures
        BlkUns_enc(b).len() == 39,
        BlkUns_accepts(BlkUns_enc(b) + t, false),
        BlkUns_accepts(BlkUns_enc(b).skip(4) + t, true),
        BlkUns_is(c, BlkUns_body(BlkUns_enc(b) + t, false)) ==> b == c,
        BlkUns_is(c, BlkUns_body(BlkUns_enc(b).skip(4) + t, true)) ==> b == c,
{
    hide(BlkUns_fields); hide(BlkUns_norm); hide(BlkUns_is); hide(BlkUns_kinds);
    let f = BlkUns_fields(b);
    let k = BlkUns_crc(f);
    le32(crc32_of(f));
    lemma_BlkUns_cut(b, k + t);
    assert(BlkUns_enc(b).len() == 39);
    let s = BlkUns_enc(b) + t;
    assert(s.take(4) =~= BLKUNS@);
    assert(s.skip(4) =~= f + (k + t));
    assert(BlkUns_enc(b).skip(4) + t =~= f + (k + t));
    lemma_BlkUns_norm(b, f + (k + t));
    assert(at(f + (k + t), 31, 4) =~= k);
    if BlkUns_is(c, f + (k + t)) { lemma_BlkUns_unique(b, c, f + (k + t)); }
}
/// the decoded fields' bytes are the bytes themselves, but for bools
proof fn lemma_BlkUns_norm_at(s: Seq<u8>)
    requires s.len() >= 31
    ensures
        BlkUns_norm(s).len() == 31,
        forall|k: int| 0 <= k < 31 ==> #[trigger] BlkUns_norm(s)[k] == s[k],
{
}
/// C16: a block of which at most one byte was changed is refused, or still the same block (a bool's byte 1 and 2 are the same)
pub proof fn theorem_BlkUns_detects(b: BlkUns, c: BlkUns, s: Seq<u8>, t: Seq<u8>, i: int)
    requires
        BlkUns_accepts(s, false), BlkUns_accepts(t, false), BlkUns_is(b, s.skip(4)), BlkUns_is(c, t.skip(4)),
        forall|k: int| 0 <= k < 39 && k != i ==> s[k] == t[k],
    ensures b == c
{
    hide(BlkUns_fields); hide(BlkUns_norm); hide(BlkUns_is);
    let (x, y) = (s.skip(4), t.skip(4));
    lemma_BlkUns_norm_at(x); lemma_BlkUns_norm_at(y);
    lemma_BlkUns_norm(b, x); lemma_BlkUns_norm(c, y);
    let (f, g) = (BlkUns_norm(x), BlkUns_norm(y));
    le32(crc32_of(f)); le32(crc32_of(g));
    assert forall|k: int| 0 <= k < 31 && k != i - 4 implies f[k] == g[k] by {
        assert(s[k + 4] == t[k + 4]);
        assert(x[k] == y[k]);
    }
    if 4 <= i < 35 {
        assert(at(x, 31, 4) =~= at(y, 31, 4));
        lemma_crc_detects(f, g, i - 4);
    } else {
        assert(f =~= g);
    }
    let e = Seq::<u8>::empty();
    lemma_BlkUns_cut(b, e); lemma_BlkUns_cut(c, e);
    lemma_BlkUns_unique(b, c, f + e);
}
}
pub use BlkUns_lemmas::*;
