// ---------------------------------------------------------------- payloads
/// bincode: what it writes it reads (assumed), the length it announces is the length it writes (assumed)
pub mod bincodex {
    use super::*;
    pub uninterp spec fn ser<T>(t: T) -> Seq<u8>;
    pub uninterp spec fn ser_fails<T>(t: T) -> bool;
    pub uninterp spec fn de<T>(s: Seq<u8>) -> Option<T>;
    pub axiom fn back<T>(t: T) ensures !ser_fails(t) ==> de::<T>(ser(t)) == Some(t) && ser(t).len() <= usize::MAX;
    #[verifier::external_body]
    pub fn serialize<T>(t: &T) -> (r: sio::Result<Vec<u8>>) ensures r is Ok ==> r->Ok_0@ == ser(*t), r is Err <==> ser_fails(*t) { unimplemented!() }
    #[verifier::external_body]
    pub fn deserialize<T>(b: &[u8]) -> (r: sio::Result<T>) ensures r is Ok ==> de::<T>(b@) == Some(r->Ok_0), r is Err ==> de::<T>(b@) is None { unimplemented!() }
    #[verifier::external_body]
    pub fn serialized_size<T>(t: &T) -> (r: sio::Result<u64>) ensures r is Ok ==> r->Ok_0 == ser(*t).len(), r is Err <==> ser_fails(*t) { unimplemented!() }
}
impl PayloadHooks for PlRec {}
impl PayloadHooks for PlFree {}
impl PayloadHooks for PlRaw {}
impl<T: PayloadEncode + PayloadHooks + PayloadEncodeReferred> DefaultCrc for T {}
pub trait TryReadPayloadFrom<T: Sized + PayloadDecode<T> + PayloadHooks + StaticPayloadSignature + PayloadCrc + ReadPayloadFrom<T>> {
    fn try_read_payload<B: sio::Read + sio::Seek>(buf: &mut B, header: &PayloadHeader) -> (r: Result<ReadStatus<T>, Error>)
        ensures pay_try(old(buf), final(buf), *header, r);
}
pub trait TryReadPayloadFromBuffered<T: Sized + PayloadDecode<T> + PayloadHooks + StaticPayloadSignature + PayloadCrc + ReadPayloadFrom<T>> {
    fn try_read_payload_buffered<B: sio::BufRead>(buf: &mut B, header: &PayloadHeader) -> (r: Result<ReadStatus<T>, Error>)
        ensures pay_tryb(old(buf), final(buf), *header, r);
}
// the user's own payload: a lead byte and the bytes; its code is the user's (assumed)
impl PayloadSignature for PlRaw {
    open spec fn sig_spec(&self) -> ByteBlock { <PlRaw as StaticPayloadSignature>::ssig_spec() }
    #[verifier::external_body]
    fn sig(&self) -> ByteBlock { unimplemented!() }
}
pub uninterp spec fn raw_sig() -> [u8; 16];
pub uninterp spec fn raw_crc(v: PlRaw) -> [u8; 8];
impl StaticPayloadSignature for PlRaw {
    open spec fn ssig_spec() -> ByteBlock { ByteBlock::Len16(raw_sig()) }
    #[verifier::external_body]
    fn ssig() -> ByteBlock { unimplemented!() }
}
impl PayloadEncode for PlRaw {
    open spec fn enc(&self) -> Seq<u8> { seq![0xA5u8] + self.bytes@ }
    open spec fn enc_fails(&self) -> bool { false }
    #[verifier::external_body]
    fn encode(&self) -> sio::Result<Vec<u8>> { unimplemented!() }
}
impl PayloadEncodeReferred for PlRaw {
    open spec fn refd(&self) -> Option<Seq<u8>> { None }
    open spec fn ref_fails(&self) -> bool { false }
    #[verifier::external_body]
    fn encode_referred(&self) -> sio::Result<Option<&[u8]>> { unimplemented!() }
}
impl PayloadDecode<PlRaw> for PlRaw {
    open spec fn dec(s: Seq<u8>) -> Option<PlRaw> { if s.len() > 0 && s[0] == 0xA5 { Some(PlRaw { bytes: vec_of(s.skip(1)) }) } else { None } }
    #[verifier::external_body]
    fn decode(buf: &[u8]) -> sio::Result<PlRaw> { unimplemented!() }
}
impl PayloadSize for PlRaw {
    open spec fn size_spec(&self) -> u64 { (1 + self.bytes@.len()) as u64 }
    open spec fn size_fails(&self) -> bool { false }
    #[verifier::external_body]
    fn size(&self) -> sio::Result<u64> { unimplemented!() }
}
/// what one type makes of header and bytes
pub open spec fn typed<T: PayloadDecode<T> + PayloadCrc>(h: PayloadHeader, s: Seq<u8>) -> Option<T> {
    let d = T::dec(s.take(h.len as int));
    if h.len <= s.len() && d is Some && !d->0.crc_fails() && d->0.crc_spec() == h.crc { d } else { None }
}
pub open spec fn payload_dec(h: PayloadHeader, s: Seq<u8>) -> Option<Payload> {
    if h.len > s.len() { None }
    else if h.sig == <PlRec as StaticPayloadSignature>::ssig_spec() { match typed::<PlRec>(h, s) { Some(v) => Some(Payload::PlRec(v)), None => None } }
    else if h.sig == <PlFree as StaticPayloadSignature>::ssig_spec() { match typed::<PlFree>(h, s) { Some(v) => Some(Payload::PlFree(v)), None => None } }
    else if h.sig == <PlRaw as StaticPayloadSignature>::ssig_spec() { match typed::<PlRaw>(h, s) { Some(v) => Some(Payload::PlRaw(v)), None => None } }
    else if h.sig == <Vec<u8> as StaticPayloadSignature>::ssig_spec() { match typed::<Vec<u8>>(h, s) { Some(v) => Some(Payload::Bytes(v)), None => None } }
    else if h.sig == <String as StaticPayloadSignature>::ssig_spec() { match typed::<String>(h, s) { Some(v) => Some(Payload::String(v)), None => None } }
    else { None }
}
/// UTF-8 of the names of the default payloads
pub axiom fn names()
    ensures str_bytes("Vec<u8>"@) == seq![86u8, 101u8, 99u8, 60u8, 117u8, 56u8, 62u8], str_bytes("String"@) == seq![83u8, 116u8, 114u8, 105u8, 110u8, 103u8];
/// the CRCs of the names of the payloads, computed: the signatures of the generated and of the default payloads
pub mod names {
use super::*;
proof fn name_vec() ensures crc32_of(seq![86u8, 101u8, 99u8, 60u8, 117u8, 56u8, 62u8]).le() == seq![117u8, 220u8, 251u8, 101u8] {
    crc32_def(seq![86u8, 101u8, 99u8, 60u8, 117u8, 56u8, 62u8]);
    assert(!crc_run(!0u32, seq![86u8, 101u8, 99u8, 60u8, 117u8, 56u8, 62u8]) == 1711004789u32) by (compute);
    assert(1711004789u32 as u8 == 117u8) by (bit_vector);
    assert((1711004789u32 >> 8) as u8 == 220u8) by (bit_vector);
    assert((1711004789u32 >> 16) as u8 == 251u8) by (bit_vector);
    assert((1711004789u32 >> 24) as u8 == 101u8) by (bit_vector);
    assert(1711004789u32.le() =~= seq![117u8, 220u8, 251u8, 101u8]);
}
proof fn name_string() ensures crc32_of(seq![83u8, 116u8, 114u8, 105u8, 110u8, 103u8]).le() == seq![159u8, 183u8, 18u8, 153u8] {
    crc32_def(seq![83u8, 116u8, 114u8, 105u8, 110u8, 103u8]);
    assert(!crc_run(!0u32, seq![83u8, 116u8, 114u8, 105u8, 110u8, 103u8]) == 2568140703u32) by (compute);
    assert(2568140703u32 as u8 == 159u8) by (bit_vector);
    assert((2568140703u32 >> 8) as u8 == 183u8) by (bit_vector);
    assert((2568140703u32 >> 16) as u8 == 18u8) by (bit_vector);
    assert((2568140703u32 >> 24) as u8 == 153u8) by (bit_vector);
    assert(2568140703u32.le() =~= seq![159u8, 183u8, 18u8, 153u8]);
}
proof fn name_rec() ensures crc32_of(seq![80u8, 108u8, 82u8, 101u8, 99u8]).le() == seq![179u8, 37u8, 200u8, 44u8] {
    crc32_def(seq![80u8, 108u8, 82u8, 101u8, 99u8]);
    assert(!crc_run(!0u32, seq![80u8, 108u8, 82u8, 101u8, 99u8]) == 751314355u32) by (compute);
    assert(751314355u32 as u8 == 179u8) by (bit_vector);
    assert((751314355u32 >> 8) as u8 == 37u8) by (bit_vector);
    assert((751314355u32 >> 16) as u8 == 200u8) by (bit_vector);
    assert((751314355u32 >> 24) as u8 == 44u8) by (bit_vector);
    assert(751314355u32.le() =~= seq![179u8, 37u8, 200u8, 44u8]);
}
proof fn name_free() ensures crc32_of(seq![80u8, 108u8, 70u8, 114u8, 101u8, 101u8]).le() == seq![242u8, 130u8, 214u8, 45u8] {
    crc32_def(seq![80u8, 108u8, 70u8, 114u8, 101u8, 101u8]);
    assert(!crc_run(!0u32, seq![80u8, 108u8, 70u8, 114u8, 101u8, 101u8]) == 769032946u32) by (compute);
    assert(769032946u32 as u8 == 242u8) by (bit_vector);
    assert((769032946u32 >> 8) as u8 == 130u8) by (bit_vector);
    assert((769032946u32 >> 16) as u8 == 214u8) by (bit_vector);
    assert((769032946u32 >> 24) as u8 == 45u8) by (bit_vector);
    assert(769032946u32.le() =~= seq![242u8, 130u8, 214u8, 45u8]);
}
pub proof fn crc_of_names()
    ensures crc32_of(str_bytes("Vec<u8>"@)).le() == seq![117u8, 220u8, 251u8, 101u8], crc32_of(str_bytes("String"@)).le() == seq![159u8, 183u8, 18u8, 153u8],
        crc32_of(seq![80u8, 108u8, 82u8, 101u8, 99u8]).le() == seq![179u8, 37u8, 200u8, 44u8], crc32_of(seq![80u8, 108u8, 70u8, 114u8, 101u8, 101u8]).le() == seq![242u8, 130u8, 214u8, 45u8],
{ super::names(); name_vec(); name_string(); name_rec(); name_free(); }
}
pub use names::crc_of_names;
pub axiom fn arr4_bytes(s: Seq<u8>) ensures s.len() == 4 ==> arr4(s)@ == s;
pub open spec fn sigs_differ() -> bool {
    let (a, b, c, d, e) = (<PlRec as StaticPayloadSignature>::ssig_spec(), <PlFree as StaticPayloadSignature>::ssig_spec(), <PlRaw as StaticPayloadSignature>::ssig_spec(), <Vec<u8> as StaticPayloadSignature>::ssig_spec(), <String as StaticPayloadSignature>::ssig_spec());
    a != b && a != c && a != d && a != e && b != c && b != d && b != e && c != d && c != e && d != e
}
pub proof fn lemma_sigs()
    ensures sigs_differ(),
{
    crc_of_names();
    let (a, b, d, e) = (seq![179u8, 37u8, 200u8, 44u8], seq![242u8, 130u8, 214u8, 45u8], seq![117u8, 220u8, 251u8, 101u8], seq![159u8, 183u8, 18u8, 153u8]);
    arr4_bytes(a); arr4_bytes(b); arr4_bytes(d); arr4_bytes(e);
    assert(a[0] == 179 && b[0] == 242 && d[0] == 117 && e[0] == 159);
    assert(arr4(a)@[0] == 179 && arr4(b)@[0] == 242 && arr4(d)@[0] == 117 && arr4(e)@[0] == 159);
}
/// a type's own promise: what it encodes it decodes, and announces the length
pub open spec fn faithful<T: PayloadDecode<T> + PayloadCrc + PayloadSize>(v: T) -> bool {
    !body_fails(&v) && !v.size_fails() ==> T::dec(body(&v)) == Some(v) && v.size_spec() == body(&v).len()
}
pub proof fn lemma_PlRec(v: PlRec) ensures faithful(v), bb(v.crc_spec()).len() <= 8 { bincodex::back(v); bb4(v.crc_spec()); }
pub proof fn lemma_PlFree(v: PlFree) ensures faithful(v), bb(v.crc_spec()).len() <= 8 { bincodex::back(v); bb4(v.crc_spec()); }
pub proof fn lemma_PlRaw(v: PlRaw) ensures faithful(v), bb(v.crc_spec()).len() <= 8 {
    bb4(v.crc_spec()); vec_is(v.bytes); vec_room(v.bytes);
    let b = seq![0xA5u8] + v.bytes@;
    assert(b.skip(1) =~= v.bytes@);
}
pub proof fn lemma_Bytes(v: Vec<u8>) ensures faithful(v), bb(v.crc_spec()).len() <= 8 { vec_is(v); bb4(v.crc_spec()); vec_room(v); }
pub proof fn lemma_String(v: String) ensures faithful(v), bb(v.crc_spec()).len() <= 8 { lossy_back(v); str_small(v); bb4(v.crc_spec()); }
/// a Vec<u8> holds at most isize::MAX bytes
pub axiom fn vec_room(v: Vec<u8>) ensures v@.len() < usize::MAX;
pub proof fn bb4(b: ByteBlock) ensures b is Len4 ==> bb(b).len() == 4, b is Len8 ==> bb(b).len() == 8 {}
pub proof fn lemma_typed<T: PayloadDecode<T> + PayloadCrc + PayloadSize>(v: T, h: PayloadHeader, s: Seq<u8>)
    requires faithful(v), !body_fails(&v), !v.size_fails(), !v.crc_fails(), h.crc == v.crc_spec(), h.len == v.size_spec(), s.len() >= h.len, s.take(h.len as int) == body(&v),
    ensures typed::<T>(h, s) == Some(v),
{ }
/// C15: a Vec<u8> payload of which at most one byte was changed is refused, or still the same
pub proof fn theorem_bytes_detects(h: PayloadHeader, s: Seq<u8>, t: Seq<u8>, v: Vec<u8>, w: Vec<u8>, i: int)
    requires typed::<Vec<u8>>(h, s) == Some(v), typed::<Vec<u8>>(h, t) == Some(w), forall|k: int| 0 <= k < h.len && k != i ==> s[k] == t[k],
    ensures v@ == w@, s.take(h.len as int) == t.take(h.len as int)
{
    let (x, y) = (s.take(h.len as int), t.take(h.len as int));
    assert(v@ == x && w@ == y) by { vec_back(x); vec_back(y); }
    let (a, b) = (crc32_of(body(&v)).le(), crc32_of(body(&w)).le());
    le32(crc32_of(body(&v))); le32(crc32_of(body(&w)));
    arr4_bytes(a); arr4_bytes(b);
    assert(a == b);
    lemma_crc_detects(x, y, i);
}
pub proof fn lemma_lengths(p: Payload)
    ensures !framing_fails(&p) ==> p.size_spec() == body(&p).len() && bb(p.crc_spec()).len() <= 8 && framed(&p).len() <= usize::MAX,
{
    match p {
        Payload::PlRec(v) => lemma_PlRec(v), Payload::PlFree(v) => lemma_PlFree(v), Payload::PlRaw(v) => lemma_PlRaw(v), Payload::Bytes(v) => lemma_Bytes(v), Payload::String(v) => lemma_String(v),
    }
}
pub use gen_pay_rounds::lemma_payload_round;
pub mod gen_pay_rounds {
use super::*;
proof fn pick_PlRec(h: PayloadHeader, s: Seq<u8>)
    requires h.sig == <PlRec as StaticPayloadSignature>::ssig_spec(), h.len <= s.len(), typed::<PlRec>(h, s) is Some,
    ensures payload_dec(h, s) == Some(Payload::PlRec(typed::<PlRec>(h, s)->0)),
{
    hide(typed);
    lemma_sigs();
}
proof fn round_PlRec(v: PlRec, t: Seq<u8>)
    ensures !framing_fails(&Payload::PlRec(v)) ==> payload_dec(hdr_for(&Payload::PlRec(v)), body(&Payload::PlRec(v)) + t) == Some(Payload::PlRec(v)),
{
    hide(typed); hide(payload_dec);
    let p = Payload::PlRec(v);
    if !framing_fails(&p) {
        let h = hdr_for(&p); let s = body(&p) + t;
        lemma_PlRec(v);
        assert(body(&p) == body(&v));
        assert(h.len == v.size_spec() && h.crc == v.crc_spec() && h.sig == v.sig_spec());
        assert(s.take(h.len as int) =~= body(&v));
        lemma_typed::<PlRec>(v, h, s);
        pick_PlRec(h, s);
    }
}
proof fn pick_PlFree(h: PayloadHeader, s: Seq<u8>)
    requires h.sig == <PlFree as StaticPayloadSignature>::ssig_spec(), h.len <= s.len(), typed::<PlFree>(h, s) is Some,
    ensures payload_dec(h, s) == Some(Payload::PlFree(typed::<PlFree>(h, s)->0)),
{
    hide(typed);
    lemma_sigs();
}
proof fn round_PlFree(v: PlFree, t: Seq<u8>)
    ensures !framing_fails(&Payload::PlFree(v)) ==> payload_dec(hdr_for(&Payload::PlFree(v)), body(&Payload::PlFree(v)) + t) == Some(Payload::PlFree(v)),
{
    hide(typed); hide(payload_dec);
    let p = Payload::PlFree(v);
    if !framing_fails(&p) {
        let h = hdr_for(&p); let s = body(&p) + t;
        lemma_PlFree(v);
        assert(body(&p) == body(&v));
        assert(h.len == v.size_spec() && h.crc == v.crc_spec() && h.sig == v.sig_spec());
        assert(s.take(h.len as int) =~= body(&v));
        lemma_typed::<PlFree>(v, h, s);
        pick_PlFree(h, s);
    }
}
proof fn pick_PlRaw(h: PayloadHeader, s: Seq<u8>)
    requires h.sig == <PlRaw as StaticPayloadSignature>::ssig_spec(), h.len <= s.len(), typed::<PlRaw>(h, s) is Some,
    ensures payload_dec(h, s) == Some(Payload::PlRaw(typed::<PlRaw>(h, s)->0)),
{
    hide(typed);
    lemma_sigs();
}
proof fn round_PlRaw(v: PlRaw, t: Seq<u8>)
    ensures !framing_fails(&Payload::PlRaw(v)) ==> payload_dec(hdr_for(&Payload::PlRaw(v)), body(&Payload::PlRaw(v)) + t) == Some(Payload::PlRaw(v)),
{
    hide(typed); hide(payload_dec);
    let p = Payload::PlRaw(v);
    if !framing_fails(&p) {
        let h = hdr_for(&p); let s = body(&p) + t;
        lemma_PlRaw(v);
        assert(body(&p) == body(&v));
        assert(h.len == v.size_spec() && h.crc == v.crc_spec() && h.sig == v.sig_spec());
        assert(s.take(h.len as int) =~= body(&v));
        lemma_typed::<PlRaw>(v, h, s);
        pick_PlRaw(h, s);
    }
}
proof fn pick_Bytes(h: PayloadHeader, s: Seq<u8>)
    requires h.sig == <Vec<u8> as StaticPayloadSignature>::ssig_spec(), h.len <= s.len(), typed::<Vec<u8>>(h, s) is Some,
    ensures payload_dec(h, s) == Some(Payload::Bytes(typed::<Vec<u8>>(h, s)->0)),
{
    hide(typed);
    lemma_sigs();
}
proof fn round_Bytes(v: Vec<u8>, t: Seq<u8>)
    ensures !framing_fails(&Payload::Bytes(v)) ==> payload_dec(hdr_for(&Payload::Bytes(v)), body(&Payload::Bytes(v)) + t) == Some(Payload::Bytes(v)),
{
    hide(typed); hide(payload_dec);
    let p = Payload::Bytes(v);
    if !framing_fails(&p) {
        let h = hdr_for(&p); let s = body(&p) + t;
        lemma_Bytes(v);
        assert(body(&p) == body(&v));
        assert(h.len == v.size_spec() && h.crc == v.crc_spec() && h.sig == v.sig_spec());
        assert(s.take(h.len as int) =~= body(&v));
        lemma_typed::<Vec<u8>>(v, h, s);
        pick_Bytes(h, s);
    }
}
proof fn pick_String(h: PayloadHeader, s: Seq<u8>)
    requires h.sig == <String as StaticPayloadSignature>::ssig_spec(), h.len <= s.len(), typed::<String>(h, s) is Some,
    ensures payload_dec(h, s) == Some(Payload::String(typed::<String>(h, s)->0)),
{
    hide(typed);
    lemma_sigs();
}
proof fn round_String(v: String, t: Seq<u8>)
    ensures !framing_fails(&Payload::String(v)) ==> payload_dec(hdr_for(&Payload::String(v)), body(&Payload::String(v)) + t) == Some(Payload::String(v)),
{
    hide(typed); hide(payload_dec);
    let p = Payload::String(v);
    if !framing_fails(&p) {
        let h = hdr_for(&p); let s = body(&p) + t;
        lemma_String(v);
        assert(body(&p) == body(&v));
        assert(h.len == v.size_spec() && h.crc == v.crc_spec() && h.sig == v.sig_spec());
        assert(s.take(h.len as int) =~= body(&v));
        lemma_typed::<String>(v, h, s);
        pick_String(h, s);
    }
}
pub proof fn lemma_payload_round(p: Payload, t: Seq<u8>)
    ensures !framing_fails(&p) ==> payload_dec(hdr_for(&p), body(&p) + t) == Some(p),
{
    match p {
        Payload::PlRec(v) => round_PlRec(v, t),
        Payload::PlFree(v) => round_PlFree(v, t),
        Payload::PlRaw(v) => round_PlRaw(v, t),
        Payload::Bytes(v) => round_Bytes(v, t),
        Payload::String(v) => round_String(v, t),
    }
}
}
