// ---------------------------------------------------------------- CRC-32 detects every change of one byte (proved)
pub mod crc_laws {
use super::*;
proof fn bit_inj(a: u32, b: u32) requires crc_bit(a) == crc_bit(b) ensures a == b {
    assert((a & 1 == 1 && b & 1 == 1 && (a >> 1) ^ 0xEDB88320u32 == (b >> 1) ^ 0xEDB88320u32) ==> a == b) by (bit_vector);
    assert((a & 1 != 1 && b & 1 != 1 && (a >> 1) == (b >> 1)) ==> a == b) by (bit_vector);
    assert(!(a & 1 == 1 && b & 1 != 1 && (a >> 1) ^ 0xEDB88320u32 == (b >> 1))) by (bit_vector);
    assert(!(a & 1 != 1 && b & 1 == 1 && (a >> 1) == (b >> 1) ^ 0xEDB88320u32)) by (bit_vector);
}
proof fn byte_inj(s: u32, t: u32, a: u8, b: u8)
    ensures a == b && crc_byte(s, a) == crc_byte(t, b) ==> s == t, s == t && crc_byte(s, a) == crc_byte(t, b) ==> a == b
{
    hide(crc_bit);
    if crc_byte(s, a) == crc_byte(t, b) {
        let (x0, y0) = (s ^ (a as u32), t ^ (b as u32));
        let (x1, y1) = (crc_bit(x0), crc_bit(y0)); let (x2, y2) = (crc_bit(x1), crc_bit(y1)); let (x3, y3) = (crc_bit(x2), crc_bit(y2));
        let (x4, y4) = (crc_bit(x3), crc_bit(y3)); let (x5, y5) = (crc_bit(x4), crc_bit(y4)); let (x6, y6) = (crc_bit(x5), crc_bit(y5));
        let (x7, y7) = (crc_bit(x6), crc_bit(y6));
        bit_inj(x7, y7); bit_inj(x6, y6); bit_inj(x5, y5); bit_inj(x4, y4); bit_inj(x3, y3); bit_inj(x2, y2); bit_inj(x1, y1); bit_inj(x0, y0);
        assert(s ^ (a as u32) == t ^ (b as u32) && a == b ==> s == t) by (bit_vector);
        assert(s ^ (a as u32) == t ^ (b as u32) && s == t ==> a == b) by (bit_vector);
    }
}
proof fn run_differs(s: u32, a: Seq<u8>, b: Seq<u8>, i: int)
    requires a.len() == b.len(), 0 <= i < a.len(), a[i] != b[i], forall|k: int| 0 <= k < a.len() && k != i ==> a[k] == b[k],
    ensures crc_run(s, a) != crc_run(s, b)
    decreases a.len()
{
    hide(crc_byte);
    let (x, y) = (a.drop_last(), b.drop_last());
    byte_inj(crc_run(s, x), crc_run(s, y), a.last(), b.last());
    if i == a.len() - 1 { assert(x =~= y); } else { run_differs(s, x, y, i); }
}
/// strings which differ in at most one byte and have the same CRC are equal
pub proof fn lemma_crc_detects(a: Seq<u8>, b: Seq<u8>, i: int)
    requires a.len() == b.len(), forall|k: int| 0 <= k < a.len() && k != i ==> a[k] == b[k], crc32_of(a) == crc32_of(b),
    ensures a == b
{
    crc32_def(a);
    crc32_def(b);
    let (x, y) = (crc_run(!0u32, a), crc_run(!0u32, b));
    assert(!x == !y ==> x == y) by (bit_vector);
    if 0 <= i < a.len() && a[i] != b[i] { run_differs(!0u32, a, b, i); }
    assert(a =~= b);
}
}
pub use crc_laws::lemma_crc_detects;
