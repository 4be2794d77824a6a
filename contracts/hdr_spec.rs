// ---------------------------------------------------------------- packet header: what the bytes are
pub open spec fn flag_byte(p: bool) -> u8 { if p { 1u8 } else { 0u8 } }
pub open spec fn hdr_crc(size: u64, blocks_len: u64, payload: bool) -> u32 {
    crc32_of(size.le() + blocks_len.le() + seq![flag_byte(payload)])
}
pub open spec fn hdr_bytes(h: PacketHeader) -> Seq<u8> {
    PACKET_SIG@ + h.size.le() + h.blocks_len.le() + seq![flag_byte(h.payload)] + h.crc.le()
}
pub open spec fn hdr_of(s: Seq<u8>) -> PacketHeader {
    PacketHeader {
        size: u64::of_le(s.subrange(8, 16)),
        blocks_len: u64::of_le(s.subrange(16, 24)),
        payload: s[24] == 1,
        crc: u32::of_le(s.subrange(25, 29)),
    }
}
pub open spec fn hdr_sig_ok(s: Seq<u8>) -> bool { s.take(8) == PACKET_SIG@ }
pub open spec fn hdr_valid(h: PacketHeader) -> bool { h.crc == hdr_crc(h.size, h.blocks_len, h.payload) }
pub open spec fn hdr_ok(s: Seq<u8>) -> bool { s.len() >= 29 && hdr_sig_ok(s) && hdr_valid(hdr_of(s)) }
/// the error a header of at least 29 bytes is refused with
pub open spec fn hdr_err(s: Seq<u8>, e: Error) -> bool {
    if !hdr_sig_ok(s) { e is SignatureDismatch } else { !hdr_valid(hdr_of(s)) && e is CrcDismatch }
}

// (in a module of its own: without the broadcast lemmas of the root)
pub mod hdr_lemmas {
use super::*;
/// C01: reading inverts writing, whatever follows
pub proof fn lemma_hdr_round_trip(h: PacketHeader, t: Seq<u8>)
    ensures
        hdr_bytes(h).len() == 29,
        hdr_sig_ok(hdr_bytes(h) + t),
        hdr_of(hdr_bytes(h) + t) == h,
        hdr_ok(hdr_bytes(h) + t) <==> hdr_valid(h),
{
    le64(h.size); le64(h.blocks_len); le32(h.crc);
    let s = hdr_bytes(h) + t;
    assert(s.take(8) =~= PACKET_SIG@);
    assert(s.subrange(8, 16) =~= h.size.le());
    assert(s.subrange(16, 24) =~= h.blocks_len.le());
    assert(s.subrange(25, 29) =~= h.crc.le());
    assert(s[24] == flag_byte(h.payload));
}
/// C02: equality of the stored CRC bytes is equality of the number
pub proof fn lemma_crc_bytes(a: u32, b: u32)
    ensures a.le() == b.le() <==> a == b
{ le32(a); le32(b); }
}
pub use hdr_lemmas::*;
