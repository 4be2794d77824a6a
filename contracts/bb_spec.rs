// ---------------------------------------------------------------- byte blocks and the payload header
pub open spec fn bb(b: ByteBlock) -> Seq<u8> {
    match b {
        ByteBlock::Len4(a) => a@,
        ByteBlock::Len8(a) => a@,
        ByteBlock::Len16(a) => a@,
        ByteBlock::Len32(a) => a@,
        ByteBlock::Len64(a) => a@,
        ByteBlock::Len128(a) => a@,
    }
}
pub open spec fn cap_ok(n: int) -> bool { n == 4 || n == 8 || n == 16 || n == 32 || n == 64 || n == 128 }
pub open spec fn phdr_bytes(h: PayloadHeader) -> Seq<u8> {
    seq![bb(h.sig).len() as u8] + bb(h.sig) + seq![bb(h.crc).len() as u8] + bb(h.crc) + h.len.le()
}
/// the bytes of the part that is missing first (0: complete), if the lengths met so far are allowed
pub open spec fn phdr_need(s: Seq<u8>) -> int {
    if s.len() < 1 { 1 } else {
        let sl = s[0] as int;
        if !cap_ok(sl) { 0 }
        else if s.len() < 1 + sl { 1 + sl }
        else if s.len() < 2 + sl { 2 + sl }
        else {
            let cl = s[1 + sl] as int;
            if !cap_ok(cl) { 0 }
            else if s.len() < 2 + sl + cl { 2 + sl + cl }
            else if s.len() < 6 + sl + cl { 6 + sl + cl }
            else { 0 }
        }
    }
}
pub open spec fn phdr_bad(s: Seq<u8>) -> bool {
    s.len() >= 1 && (!cap_ok(s[0] as int) || (s.len() >= 2 + s[0] as int && !cap_ok(s[1 + s[0] as int] as int)))
}
pub open spec fn phdr_ok(s: Seq<u8>) -> bool { phdr_need(s) == 0 && !phdr_bad(s) }
pub open spec fn phdr_len(s: Seq<u8>) -> nat { (6 + s[0] as int + s[1 + s[0] as int] as int) as nat }
/// h is what the bytes of s say
pub open spec fn phdr_is(s: Seq<u8>, h: PayloadHeader) -> bool {
    let sl = s[0] as int;
    let cl = s[1 + sl] as int;
    &&& bb(h.sig) == s.subrange(1, 1 + sl)
    &&& bb(h.crc) == s.subrange(2 + sl, 2 + sl + cl)
    &&& h.len == u32::of_le(s.subrange(2 + sl + cl, 6 + sl + cl))
}
pub proof fn lemma_bb_len(b: ByteBlock)
    ensures cap_ok(bb(b).len() as int)
{}
pub open spec fn bb_size(b: ByteBlock) -> nat {
    match b {
        ByteBlock::Len4(_) => 4, ByteBlock::Len8(_) => 8, ByteBlock::Len16(_) => 16,
        ByteBlock::Len32(_) => 32, ByteBlock::Len64(_) => 64, ByteBlock::Len128(_) => 128,
    }
}
pub proof fn lemma_bb_size(b: ByteBlock)
    ensures bb(b).len() == bb_size(b)
{}
/// equal bytes, equal byte block
pub proof fn lemma_bb_inj(a: ByteBlock, b: ByteBlock)
    requires bb(a) == bb(b)
    ensures a == b
{
    match (a, b) {
        (ByteBlock::Len4(x), ByteBlock::Len4(y)) => { assert(x =~= y); },
        (ByteBlock::Len8(x), ByteBlock::Len8(y)) => { assert(x =~= y); },
        (ByteBlock::Len16(x), ByteBlock::Len16(y)) => { assert(x =~= y); },
        (ByteBlock::Len32(x), ByteBlock::Len32(y)) => { assert(x =~= y); },
        (ByteBlock::Len64(x), ByteBlock::Len64(y)) => { assert(x =~= y); },
        (ByteBlock::Len128(x), ByteBlock::Len128(y)) => { assert(x =~= y); },
        _ => { lemma_bb_size(a); lemma_bb_size(b); },
    }
}
pub mod phdr_lemmas {
use super::*;
/// C03: reading inverts writing, whatever follows
pub proof fn lemma_phdr_round_trip(h: PayloadHeader, g: PayloadHeader, t: Seq<u8>)
    requires phdr_is(phdr_bytes(h) + t, g)
    ensures
        phdr_ok(phdr_bytes(h) + t),
        phdr_len(phdr_bytes(h) + t) == phdr_bytes(h).len(),
        g == h,
{
    let s = phdr_bytes(h) + t;
    let sl = bb(h.sig).len() as int;
    let cl = bb(h.crc).len() as int;
    lemma_bb_len(h.sig);
    lemma_bb_len(h.crc);
    le32(h.len);
    assert(s[0] == sl as u8);
    assert(s[1 + sl] == cl as u8);
    assert(s.subrange(1, 1 + sl) =~= bb(h.sig));
    assert(s.subrange(2 + sl, 2 + sl + cl) =~= bb(h.crc));
    assert(s.subrange(2 + sl + cl, 6 + sl + cl) =~= h.len.le());
    lemma_bb_inj(g.sig, h.sig);
    lemma_bb_inj(g.crc, h.crc);
}
}
pub use phdr_lemmas::*;
