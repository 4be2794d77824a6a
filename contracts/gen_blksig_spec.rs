pub open spec fn BlkSig_fields(b: BlkSig) -> Seq<u8> { b.a.le() + b.b.le() + b.c.le() + b.d.le() + b.e.le() + b.f.le() + b.g.le() + one(bool_byte(b.h)) }
pub open spec fn BlkSig_crc(f: Seq<u8>) -> Seq<u8> { crc32_of(f).le() }
/// the bytes of a block: signature, fields in declaration order, CRC of the fields
pub open spec fn BlkSig_enc(b: BlkSig) -> Seq<u8> { BLKSIG@ + BlkSig_fields(b) + BlkSig_crc(BlkSig_fields(b)) }
/// b has the field values which the bytes s (behind the signature) stand for
pub open spec fn BlkSig_is(b: BlkSig, s: Seq<u8>) -> bool {
    &&& b.a == i8::of_le(at(s, 0, 1))
    &&& b.b == i16::of_le(at(s, 1, 2))
    &&& b.c == i32::of_le(at(s, 3, 4))
    &&& b.d == i64::of_le(at(s, 7, 8))
    &&& b.e == i128::of_le(at(s, 15, 16))
    &&& b.f == f32::of_le(at(s, 31, 4))
    &&& b.g == f64::of_le(at(s, 35, 8))
    &&& b.h == (s[43] != 0)
}
/// every enum byte stands for a value
pub open spec fn BlkSig_kinds(s: Seq<u8>) -> bool { true }
/// the bytes of the decoded fields
pub open spec fn BlkSig_norm(s: Seq<u8>) -> Seq<u8> { at(s, 0, 1) + at(s, 1, 2) + at(s, 3, 4) + at(s, 7, 8) + at(s, 15, 16) + at(s, 31, 4) + at(s, 35, 8) + one(bool_byte(s[43] != 0)) }
/// the bytes behind the signature are a block's
pub open spec fn BlkSig_ok(s: Seq<u8>) -> bool {
    s.len() >= 48 && BlkSig_kinds(s) && BlkSig_crc(BlkSig_norm(s)) == at(s, 44, 4)
}
pub open spec fn BlkSig_sig_ok(s: Seq<u8>) -> bool { s.len() >= 4 && s.take(4) == BLKSIG@ }
pub open spec fn BlkSig_body(s: Seq<u8>, skip: bool) -> Seq<u8> { if skip { s } else { s.skip(4) } }
/// s starts with a block
pub open spec fn BlkSig_accepts(s: Seq<u8>, skip: bool) -> bool { (skip || BlkSig_sig_ok(s)) && BlkSig_ok(BlkSig_body(s, skip)) }
pub open spec fn BlkSig_len(skip: bool) -> nat { if skip { 48 } else { 52 } }
/// the error for a full-length string which is not accepted
pub open spec fn BlkSig_refused(s: Seq<u8>, skip: bool, e: Error) -> bool {
    if !skip && !BlkSig_sig_ok(s) { e is SignatureDismatch }
    else if !BlkSig_kinds(BlkSig_body(s, skip)) { e is FailedConverting }
    else { !BlkSig_ok(BlkSig_body(s, skip)) && e is CrcDismatch }
}
pub open spec fn BlkSig_val(s: Seq<u8>) -> BlkSig { BlkSig { a: i8::of_le(at(s, 0, 1)), b: i16::of_le(at(s, 1, 2)), c: i32::of_le(at(s, 3, 4)), d: i64::of_le(at(s, 7, 8)), e: i128::of_le(at(s, 15, 16)), f: f32::of_le(at(s, 31, 4)), g: f64::of_le(at(s, 35, 8)), h: s[43] != 0 } }
pub open spec fn BlkSig_view(s: Seq<u8>) -> BlkSigReferred<'static> {
    BlkSigReferred { __sig: &arr::<4>(s.take(4)), __crc: &arr::<4>(at(s.skip(4), 44, 4)), a: i8::of_le(at(s.skip(4), 0, 1)), b: i16::of_le(at(s.skip(4), 1, 2)), c: i32::of_le(at(s.skip(4), 3, 4)), d: i64::of_le(at(s.skip(4), 7, 8)), e: i128::of_le(at(s.skip(4), 15, 16)), f: f32::of_le(at(s.skip(4), 31, 4)), g: f64::of_le(at(s.skip(4), 35, 8)), h: s[47] != 0 }
}
pub open spec fn BlkSig_own(r: BlkSigReferred) -> BlkSig { BlkSig { a: r.a, b: r.b, c: r.c, d: r.d, e: r.e, f: r.f, g: r.g, h: r.h } }

/// `transmute` to another lifetime
#[verifier::external_body]
pub fn v_longer_BlkSig<'a, 'b>(x: BlkSigReferred<'b>) -> (r: BlkSigReferred<'a>) ensures r == x { unimplemented!() }
pub mod BlkSig_lemmas {
use super::*;
broadcast use kinds::all;
pub proof fn lemma_BlkSig_cut(b: BlkSig, x: Seq<u8>)
    ensures
        BlkSig_fields(b).len() == 44,
        BlkSig_is(b, BlkSig_fields(b) + x),
        BlkSig_kinds(BlkSig_fields(b) + x),
{
    le_i8(b.a);
    le_i16(b.b);
    le_i32(b.c);
    le_i64(b.d);
    le_i128(b.e);
    le_f32(b.f);
    le_f64(b.g);
    assert(BlkSig_fields(b).len() == 44);
    assert(at(BlkSig_fields(b) + x, 0, 1) =~= b.a.le());
    assert(at(BlkSig_fields(b) + x, 1, 2) =~= b.b.le());
    assert(at(BlkSig_fields(b) + x, 3, 4) =~= b.c.le());
    assert(at(BlkSig_fields(b) + x, 7, 8) =~= b.d.le());
    assert(at(BlkSig_fields(b) + x, 15, 16) =~= b.e.le());
    assert(at(BlkSig_fields(b) + x, 31, 4) =~= b.f.le());
    assert(at(BlkSig_fields(b) + x, 35, 8) =~= b.g.le());
    assert((BlkSig_fields(b) + x)[43] == one(bool_byte(b.h))[0]);
}
/// decoding and encoding again gives the decoded fields' bytes
pub proof fn lemma_BlkSig_norm(b: BlkSig, s: Seq<u8>)
    requires s.len() >= 44, BlkSig_is(b, s), BlkSig_kinds(s)
    ensures BlkSig_fields(b) == BlkSig_norm(s)
{
    el_i8(at(s, 0, 1));
    el_i16(at(s, 1, 2));
    el_i32(at(s, 3, 4));
    el_i64(at(s, 7, 8));
    el_i128(at(s, 15, 16));
    el_f32(at(s, 31, 4));
    el_f64(at(s, 35, 8));
}
pub proof fn lemma_BlkSig_norm_all(s: Seq<u8>)
    requires s.len() >= 44, BlkSig_kinds(s)
    ensures forall|b: BlkSig| BlkSig_is(b, s) ==> #[trigger] BlkSig_fields(b) == BlkSig_norm(s)
{
    assert forall|b: BlkSig| BlkSig_is(b, s) implies #[trigger] BlkSig_fields(b) == BlkSig_norm(s) by { lemma_BlkSig_norm(b, s); }
}
/// the bytes determine the block
pub proof fn lemma_BlkSig_unique(b: BlkSig, c: BlkSig, s: Seq<u8>)
    requires BlkSig_is(b, s), BlkSig_is(c, s)
    ensures b == c
{

}
/// ... and there is one
pub proof fn lemma_BlkSig_val(s: Seq<u8>)
    requires s.len() >= 44
    ensures
        BlkSig_is(BlkSig_val(s), s),
        forall|b: BlkSig| #[trigger] BlkSig_is(b, s) ==> b == BlkSig_val(s),
{

    assert forall|b: BlkSig| #[trigger] BlkSig_is(b, s) implies b == BlkSig_val(s) by { lemma_BlkSig_unique(b, BlkSig_val(s), s); }
}
/// C07: whatever is read from the bytes of b is b, with and without the signature, whatever follows
pub proof fn lemma_BlkSig_round_trip(b: BlkSig, t: Seq<u8>, c: BlkSig)
    ensures
        BlkSig_enc(b).len() == 52,
        BlkSig_accepts(BlkSig_enc(b) + t, false),
        BlkSig_accepts(BlkSig_enc(b).skip(4) + t, true),
        BlkSig_is(c, BlkSig_body(BlkSig_enc(b) + t, false)) ==> b == c,
        BlkSig_is(c, BlkSig_body(BlkSig_enc(b).skip(4) + t, true)) ==> b == c,
{
    hide(BlkSig_fields); hide(BlkSig_norm); hide(BlkSig_is); hide(BlkSig_kinds);
    let f = BlkSig_fields(b);
    let k = BlkSig_crc(f);
    le32(crc32_of(f));
    lemma_BlkSig_cut(b, k + t);
    assert(BlkSig_enc(b).len() == 52);
    let s = BlkSig_enc(b) + t;
    assert(s.take(4) =~= BLKSIG@);
    assert(s.skip(4) =~= f + (k + t));
    assert(BlkSig_enc(b).skip(4) + t =~= f + (k + t));
    lemma_BlkSig_norm(b, f + (k + t));
    assert(at(f + (k + t), 44, 4) =~= k);
    if BlkSig_is(c, f + (k + t)) { lemma_BlkSig_unique(b, c, f + (k + t)); }
}
/// the decoded fields' bytes are the bytes themselves, but for bools
proof fn lemma_BlkSig_norm_at(s: Seq<u8>)
    requires s.len() >= 44
    ensures
        BlkSig_norm(s).len() == 44,
        forall|k: int| 0 <= k < 44 && k != 43 ==> #[trigger] BlkSig_norm(s)[k] == s[k],
        BlkSig_norm(s)[43] == bool_byte(s[43] != 0),
{
}
/// C16: a block of which at most one byte was changed is refused, or still the same block (a bool's byte 1 and 2 are the same)
pub proof fn theorem_BlkSig_detects(b: BlkSig, c: BlkSig, s: Seq<u8>, t: Seq<u8>, i: int)
    requires
        BlkSig_accepts(s, false), BlkSig_accepts(t, false), BlkSig_is(b, s.skip(4)), BlkSig_is(c, t.skip(4)),
        forall|k: int| 0 <= k < 52 && k != i ==> s[k] == t[k],
    ensures b == c
{
    hide(BlkSig_fields); hide(BlkSig_norm); hide(BlkSig_is);
    let (x, y) = (s.skip(4), t.skip(4));
    lemma_BlkSig_norm_at(x); lemma_BlkSig_norm_at(y);
    lemma_BlkSig_norm(b, x); lemma_BlkSig_norm(c, y);
    let (f, g) = (BlkSig_norm(x), BlkSig_norm(y));
    le32(crc32_of(f)); le32(crc32_of(g));
    assert forall|k: int| 0 <= k < 44 && k != i - 4 implies f[k] == g[k] by {
        assert(s[k + 4] == t[k + 4]);
        assert(x[k] == y[k]);
    }
    if 4 <= i < 48 {
        assert(at(x, 44, 4) =~= at(y, 44, 4));
        lemma_crc_detects(f, g, i - 4);
    } else {
        assert(f =~= g);
    }
    let e = Seq::<u8>::empty();
    lemma_BlkSig_cut(b, e); lemma_BlkSig_cut(c, e);
    lemma_BlkSig_unique(b, c, f + e);
}
}
pub use BlkSig_lemmas::*;
