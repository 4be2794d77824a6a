pub open spec fn BlkMix_fields(b: BlkMix) -> Seq<u8> { one(bool_byte(b.flag)) + b.blob@ + b.n.le() + b.blob_a@ + b.blob_b@ + one(kind_byte(b.kind)) + b.last.le() }
pub open spec fn BlkMix_crc(f: Seq<u8>) -> Seq<u8> { crc32_of(f).le() }
/// the bytes of a block: signature, fields in declaration order, CRC of the fields
pub open spec fn BlkMix_enc(b: BlkMix) -> Seq<u8> { BLKMIX@ + BlkMix_fields(b) + BlkMix_crc(BlkMix_fields(b)) }
/// b has the field values which the bytes s (behind the signature) stand for
pub open spec fn BlkMix_is(b: BlkMix, s: Seq<u8>) -> bool {
    &&& b.flag == (s[0] != 0)
    &&& b.blob@ == at(s, 1, 5)
    &&& b.n == u16::of_le(at(s, 6, 2))
    &&& b.blob_a@ == at(s, 8, 33)
    &&& b.blob_b@ == at(s, 41, 2)
    &&& b.kind == kind_of(s[43])
    &&& b.last == u32::of_le(at(s, 44, 4))
}
/// every enum byte stands for a value
pub open spec fn BlkMix_kinds(s: Seq<u8>) -> bool { kind_ok(s[43]) }
/// the bytes of the decoded fields
pub open spec fn BlkMix_norm(s: Seq<u8>) -> Seq<u8> { one(bool_byte(s[0] != 0)) + at(s, 1, 5) + at(s, 6, 2) + at(s, 8, 33) + at(s, 41, 2) + one(s[43]) + at(s, 44, 4) }
/// the bytes behind the signature are a block's
pub open spec fn BlkMix_ok(s: Seq<u8>) -> bool {
    s.len() >= 52 && BlkMix_kinds(s) && BlkMix_crc(BlkMix_norm(s)) == at(s, 48, 4)
}
pub open spec fn BlkMix_sig_ok(s: Seq<u8>) -> bool { s.len() >= 4 && s.take(4) == BLKMIX@ }
pub open spec fn BlkMix_body(s: Seq<u8>, skip: bool) -> Seq<u8> { if skip { s } else { s.skip(4) } }
/// s starts with a block
pub open spec fn BlkMix_accepts(s: Seq<u8>, skip: bool) -> bool { (skip || BlkMix_sig_ok(s)) && BlkMix_ok(BlkMix_body(s, skip)) }
pub open spec fn BlkMix_len(skip: bool) -> nat { if skip { 52 } else { 56 } }
/// the error for a full-length string which is not accepted
pub open spec fn BlkMix_refused(s: Seq<u8>, skip: bool, e: Error) -> bool {
    if !skip && !BlkMix_sig_ok(s) { e is SignatureDismatch }
    else if !BlkMix_kinds(BlkMix_body(s, skip)) { e is FailedConverting }
    else { !BlkMix_ok(BlkMix_body(s, skip)) && e is CrcDismatch }
}
pub open spec fn BlkMix_val(s: Seq<u8>) -> BlkMix { BlkMix { flag: s[0] != 0, blob: arr::<5>(at(s, 1, 5)), n: u16::of_le(at(s, 6, 2)), blob_a: arr::<33>(at(s, 8, 33)), blob_b: arr::<2>(at(s, 41, 2)), kind: kind_of(s[43]), last: u32::of_le(at(s, 44, 4)) } }
pub open spec fn BlkMix_view(s: Seq<u8>) -> BlkMixReferred<'static> {
    BlkMixReferred { __sig: &arr::<4>(s.take(4)), __crc: &arr::<4>(at(s.skip(4), 48, 4)), flag: s[4] != 0, blob: &arr::<5>(at(s.skip(4), 1, 5)), n: u16::of_le(at(s.skip(4), 6, 2)), blob_a: &arr::<33>(at(s.skip(4), 8, 33)), blob_b: &arr::<2>(at(s.skip(4), 41, 2)), kind: kind_of(s[47]), last: u32::of_le(at(s.skip(4), 44, 4)) }
}
pub open spec fn BlkMix_own(r: BlkMixReferred) -> BlkMix { BlkMix { flag: r.flag, blob: *r.blob, n: r.n, blob_a: *r.blob_a, blob_b: *r.blob_b, kind: r.kind, last: r.last } }

/// `transmute` to another lifetime
#[verifier::external_body]
pub fn v_longer_BlkMix<'a, 'b>(x: BlkMixReferred<'b>) -> (r: BlkMixReferred<'a>) ensures r == x { unimplemented!() }
pub mod BlkMix_lemmas {
use super::*;
broadcast use kinds::all;
pub proof fn lemma_BlkMix_cut(b: BlkMix, x: Seq<u8>)
    ensures
        BlkMix_fields(b).len() == 48,
        BlkMix_is(b, BlkMix_fields(b) + x),
        BlkMix_kinds(BlkMix_fields(b) + x),
{
    le16(b.n);
    le32(b.last);
    assert(BlkMix_fields(b).len() == 48);
    assert((BlkMix_fields(b) + x)[0] == one(bool_byte(b.flag))[0]);
    assert(at(BlkMix_fields(b) + x, 1, 5) =~= b.blob@);
    assert(at(BlkMix_fields(b) + x, 6, 2) =~= b.n.le());
    assert(at(BlkMix_fields(b) + x, 8, 33) =~= b.blob_a@);
    assert(at(BlkMix_fields(b) + x, 41, 2) =~= b.blob_b@);
    assert((BlkMix_fields(b) + x)[43] == one(kind_byte(b.kind))[0]);
    assert(at(BlkMix_fields(b) + x, 44, 4) =~= b.last.le());
}
/// decoding and encoding again gives the decoded fields' bytes
pub proof fn lemma_BlkMix_norm(b: BlkMix, s: Seq<u8>)
    requires s.len() >= 48, BlkMix_is(b, s), BlkMix_kinds(s)
    ensures BlkMix_fields(b) == BlkMix_norm(s)
{
    el16(at(s, 6, 2));
    el32(at(s, 44, 4));
}
pub proof fn lemma_BlkMix_norm_all(s: Seq<u8>)
    requires s.len() >= 48, BlkMix_kinds(s)
    ensures forall|b: BlkMix| BlkMix_is(b, s) ==> #[trigger] BlkMix_fields(b) == BlkMix_norm(s)
{
    assert forall|b: BlkMix| BlkMix_is(b, s) implies #[trigger] BlkMix_fields(b) == BlkMix_norm(s) by { lemma_BlkMix_norm(b, s); }
}
/// the bytes determine the block
pub proof fn lemma_BlkMix_unique(b: BlkMix, c: BlkMix, s: Seq<u8>)
    requires BlkMix_is(b, s), BlkMix_is(c, s)
    ensures b == c
{
    assert(b.blob == c.blob) by { array_ext(b.blob, c.blob); }
    assert(b.blob_a == c.blob_a) by { array_ext(b.blob_a, c.blob_a); }
    assert(b.blob_b == c.blob_b) by { array_ext(b.blob_b, c.blob_b); }
}
/// ... and there is one
pub proof fn lemma_BlkMix_val(s: Seq<u8>)
    requires s.len() >= 48
    ensures
        BlkMix_is(BlkMix_val(s), s),
        forall|b: BlkMix| #[trigger] BlkMix_is(b, s) ==> b == BlkMix_val(s),
{
    arr_bytes::<5>(at(s, 1, 5));
    arr_bytes::<33>(at(s, 8, 33));
    arr_bytes::<2>(at(s, 41, 2));
    assert forall|b: BlkMix| #[trigger] BlkMix_is(b, s) implies b == BlkMix_val(s) by { lemma_BlkMix_unique(b, BlkMix_val(s), s); }
}
/// C07: whatever is read from the bytes of b is b, with and without the signature, whatever follows
pub proof fn lemma_BlkMix_round_trip(b: BlkMix, t: Seq<u8>, c: BlkMix)
    ensures
        BlkMix_enc(b).len() == 56,
        BlkMix_accepts(BlkMix_enc(b) + t, false),
        BlkMix_accepts(BlkMix_enc(b).skip(4) + t, true),
        BlkMix_is(c, BlkMix_body(BlkMix_enc(b) + t, false)) ==> b == c,
        BlkMix_is(c, BlkMix_body(BlkMix_enc(b).skip(4) + t, true)) ==> b == c,
{
    hide(BlkMix_fields); hide(BlkMix_norm); hide(BlkMix_is); hide(BlkMix_kinds);
    let f = BlkMix_fields(b);
    let k = BlkMix_crc(f);
    le32(crc32_of(f));
    lemma_BlkMix_cut(b, k + t);
    assert(BlkMix_enc(b).len() == 56);
    let s = BlkMix_enc(b) + t;
    assert(s.take(4) =~= BLKMIX@);
    assert(s.skip(4) =~= f + (k + t));
    assert(BlkMix_enc(b).skip(4) + t =~= f + (k + t));
    lemma_BlkMix_norm(b, f + (k + t));
    assert(at(f + (k + t), 48, 4) =~= k);
    if BlkMix_is(c, f + (k + t)) { lemma_BlkMix_unique(b, c, f + (k + t)); }
}
/// the decoded fields' bytes are the bytes themselves, but for bools
proof fn lemma_BlkMix_norm_at(s: Seq<u8>)
    requires s.len() >= 48
    ensures
        BlkMix_norm(s).len() == 48,
        forall|k: int| 0 <= k < 48 && k != 0 ==> #[trigger] BlkMix_norm(s)[k] == s[k],
        BlkMix_norm(s)[0] == bool_byte(s[0] != 0),
{
}
/// C16: a block of which at most one byte was changed is refused, or still the same block (a bool's byte 1 and 2 are the same)
pub proof fn theorem_BlkMix_detects(b: BlkMix, c: BlkMix, s: Seq<u8>, t: Seq<u8>, i: int)
    requires
        BlkMix_accepts(s, false), BlkMix_accepts(t, false), BlkMix_is(b, s.skip(4)), BlkMix_is(c, t.skip(4)),
        forall|k: int| 0 <= k < 56 && k != i ==> s[k] == t[k],
    ensures b == c
{
    hide(BlkMix_fields); hide(BlkMix_norm); hide(BlkMix_is);
    let (x, y) = (s.skip(4), t.skip(4));
    lemma_BlkMix_norm_at(x); lemma_BlkMix_norm_at(y);
    lemma_BlkMix_norm(b, x); lemma_BlkMix_norm(c, y);
    let (f, g) = (BlkMix_norm(x), BlkMix_norm(y));
    le32(crc32_of(f)); le32(crc32_of(g));
    assert forall|k: int| 0 <= k < 48 && k != i - 4 implies f[k] == g[k] by {
        assert(s[k + 4] == t[k + 4]);
        assert(x[k] == y[k]);
    }
    if 4 <= i < 52 {
        assert(at(x, 48, 4) =~= at(y, 48, 4));
        lemma_crc_detects(f, g, i - 4);
    } else {
        assert(f =~= g);
    }
    let e = Seq::<u8>::empty();
    lemma_BlkMix_cut(b, e); lemma_BlkMix_cut(c, e);
    lemma_BlkMix_unique(b, c, f + e);
}
}
pub use BlkMix_lemmas::*;
