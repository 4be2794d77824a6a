pub mod hdr_detect {
use super::*;
/// C02: a header of which at most one byte was changed is refused, or still the same header (flag bytes 0 and 2 are the same flag)
pub proof fn theorem_hdr_detects(s: Seq<u8>, t: Seq<u8>, i: int)
    requires hdr_ok(s), hdr_ok(t), forall|k: int| 0 <= k < 29 && k != i ==> s[k] == t[k],
    ensures hdr_of(s) == hdr_of(t),
{
    let (h, g) = (hdr_of(s), hdr_of(t));
    let a = h.size.le() + h.blocks_len.le() + seq![flag_byte(h.payload)];
    let b = g.size.le() + g.blocks_len.le() + seq![flag_byte(g.payload)];
    el64(s.subrange(8, 16)); el64(t.subrange(8, 16)); el64(s.subrange(16, 24)); el64(t.subrange(16, 24));
    le64(h.size); le64(g.size); le64(h.blocks_len); le64(g.blocks_len);
    assert(a.len() == 17 && b.len() == 17);
    assert forall|k: int| 0 <= k < 17 && k != i - 8 implies a[k] == b[k] by {
        if k < 16 { assert(a[k] == s[8 + k] && b[k] == t[8 + k]); } else { assert(s[24] == t[24]); }
    }
    if 8 <= i < 25 {
        assert(s.subrange(25, 29) =~= t.subrange(25, 29));
        lemma_crc_detects(a, b, i - 8);
        assert(h.size.le() =~= a.subrange(0, 8) && g.size.le() =~= b.subrange(0, 8));
        assert(h.blocks_len.le() =~= a.subrange(8, 16) && g.blocks_len.le() =~= b.subrange(8, 16));
        assert(a[16] == flag_byte(h.payload) && b[16] == flag_byte(g.payload));
    } else {
        assert(a =~= b) by { assert forall|k: int| 0 <= k < 17 implies a[k] == b[k] by { } }
        assert(s.subrange(8, 16) =~= t.subrange(8, 16));
        assert(s.subrange(16, 24) =~= t.subrange(16, 24));
        assert(s[24] == t[24]);
    }
}
}
