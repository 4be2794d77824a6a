# Writes contracts/gen_pay.vc and gen_pay_spec.rs from the payloads of genblocks/src/lib.rs (run by hand; the outputs are committed).
T=["PlRec","PlFree","PlRaw","Vec<u8>","String"]
V=["PlRec","PlFree","PlRaw","Bytes","String"]
K={"Vec<u8>":"Vec"}
src={"PlRec":"@gen/exp.rs","PlFree":"@gen/exp.rs","PlRaw":"@gen/exp.rs","Vec<u8>":"brec/src/payload/defaults/vec_u8.rs","String":"brec/src/payload/defaults/string.rs"}
o=[]
w=o.append
w('''//@ include prelude.rs
//@ raw
use sio::Stream as _;
broadcast use {ax::core, ax::parts, axe::from_io};
//@ item brec/src/error.rs enum Error
//@ include errors.rs
//@ item brec/src/traits/read/status.rs enum ReadStatus
//@ item brec/src/traits/props/byte_block.rs enum ByteBlock
//@ item brec/src/payload/header/mod.rs struct PayloadHeader
//@ include bb_spec.rs
//@ include iters.rs
//@ item brec/src/traits/write/slices.rs enum SliceSlot
//@ item brec/src/traits/write/slices.rs struct IoSlices
//@ include slices_spec.rs
//@ include pay_laws.rs
//@ include text_spec.rs
//@ include crc_laws.rs
//@ include pkt_laws.rs
//@ raw
pub open spec fn crc_block(b: Seq<u8>, c: ByteBlock) -> bool { c is Len4 && bb(c) == crc32_of(b).le() }
#[verifier::reject_recursive_types(T)]
pub struct Defaults<T> { p: PhantomData<T> }
impl PayloadHooks for Vec<u8> {}
impl PayloadHooks for String {}
//@ stub pay.vc * *
//@ item @gen/exp.rs struct PlRec
//@ item @gen/exp.rs struct PlFree
//@ item @gen/exp.rs struct PlRaw
//@ item @gen/exp.rs enum Payload
//@ include gen_pay_spec.rs
''')
for t in T:
    k=K.get(t,t)
    L=["WritePayloadWithHeaderTo::write","WritePayloadWithHeaderTo::write_all","WriteVectoredPayloadWithHeaderTo::slices","WriteVectoredPayloadWithHeaderTo::write_vectored","WriteVectoredPayloadWithHeaderTo::write_vectored_all","ReadPayloadFrom::read","TryReadPayloadFrom::try_read","TryReadPayloadFromBuffered::try_read"]
    if t not in ("PlFree","PlRaw"): L+=["PayloadCrc::crc","PayloadCrc::crc_size"]
    for x in L:
        a,b=x.split("::"); w(f"//@ absent {src[t]} {a}@{k}::{b}")
w("//@ absent @gen/exp.rs PayloadCrc@Payload::crc_size")
for t in ["PlRec","PlFree"]:
    sig={"PlRec":"179, 37, 200, 44","PlFree":"242, 130, 214, 45"}[t]
    w(f'''
//@ fn @gen/exp.rs PayloadEncode@{t}::encode
:props C15 C05
:rewrite bincode::serialize(self).map_err($..e) =>> bincodex::serialize(self)
:impl_extra
    open spec fn enc(&self) -> Seq<u8> {{ bincodex::ser(*self) }}
    open spec fn enc_fails(&self) -> bool {{ bincodex::ser_fails(*self) }}

//@ fn @gen/exp.rs PayloadEncodeReferred@{t}::encode
:props C15 C05
:impl_extra
    open spec fn refd(&self) -> Option<Seq<u8>> {{ None }}
    open spec fn ref_fails(&self) -> bool {{ false }}

//@ fn @gen/exp.rs PayloadDecode@{t}::decode
:props C15
:rewrite bincode::deserialize(buf).map_err($..e) =>> bincodex::deserialize::<{t}>(buf)
:impl_extra
    open spec fn dec(s: Seq<u8>) -> Option<{t}> {{ bincodex::de::<{t}>(s) }}

//@ fn @gen/exp.rs PayloadSize@{t}::size
:props C15 C05
:rewrite bincode::serialized_size(self).map_err($..e) =>> bincodex::serialized_size(self)
:impl_extra
    open spec fn size_spec(&self) -> u64 {{ bincodex::ser(*self).len() as u64 }}
    open spec fn size_fails(&self) -> bool {{ bincodex::ser_fails(*self) }}

//@ fn @gen/exp.rs PayloadSignature@{t}::sig
:props C15 C03
:impl_extra
    open spec fn sig_spec(&self) -> ByteBlock {{ {t}::ssig_spec() }}
:start
    proof {{ lemma_named(); }}

//@ fn @gen/exp.rs StaticPayloadSignature@{t}::ssig
:props C15 C03
:impl_extra
    open spec fn ssig_spec() -> ByteBlock {{ ByteBlock::Len4(arr4(seq![{", ".join(x+"u8" for x in sig.split(", "))}])) }}
:start
    proof {{ lemma_named(); }}
''')
w('''
//@ fn @gen/exp.rs PayloadCrc@PlFree::crc
:props C15 C05
:impl_extra
    open spec fn crc_spec(&self) -> ByteBlock { ByteBlock::Len4(arr4(seq![0u8, 0u8, 0u8, 0u8])) }
    open spec fn crc_fails(&self) -> bool { false }
    open spec fn crc_size_spec() -> nat { 4 }
:start
    proof { lemma_named(); }

//@ fn @gen/exp.rs PayloadCrc@PlFree::crc_size
:props C15 C05
''')
w("//@ raw\n// ---------------------------------------------------------------- the default methods (unit pay), for each type")
for t in T:
    if t=="PlRaw":
        w("""// the user's own checksum, 8 bytes long
impl PayloadCrc for PlRaw {
    open spec fn crc_spec(&self) -> ByteBlock { ByteBlock::Len8(raw_crc(*self)) }
    open spec fn crc_fails(&self) -> bool { false }
    open spec fn crc_size_spec() -> nat { 4 }
    #[verifier::external_body]
    fn crc(&self) -> sio::Result<ByteBlock> { unimplemented!() }
    fn crc_size() -> usize { <PlRaw as DefaultCrc>::default_crc_size() }
}""")
    elif t!="PlFree":
        w(f'''impl PayloadCrc for {t} {{
    open spec fn crc_spec(&self) -> ByteBlock {{ ByteBlock::Len4(arr4(crc32_of(body(self)).le())) }}
    open spec fn crc_fails(&self) -> bool {{ body_fails(self) }}
    open spec fn crc_size_spec() -> nat {{ 4 }}
    fn crc(&self) -> sio::Result<ByteBlock> {{ proof {{ lemma_named(); }} DefaultCrc::default_crc(self) }}
    fn crc_size() -> usize {{ <{t} as DefaultCrc>::default_crc_size() }}
}}''')
    w(f'''impl WritePayloadWithHeaderTo for {t} {{}}
impl WriteVectoredPayloadWithHeaderTo for {t} {{}}
impl ReadPayloadFrom<{t}> for {t} {{
    fn read_payload<B: sio::Read>(buf: &mut B, header: &PayloadHeader) -> Result<{t}, Error> {{ Defaults::<{t}>::read_payload(buf, header) }}
}}
impl TryReadPayloadFrom<{t}> for {t} {{
    fn try_read_payload<B: sio::Read + sio::Seek>(buf: &mut B, header: &PayloadHeader) -> Result<ReadStatus<{t}>, Error> {{ Defaults::<{t}>::try_read_payload(buf, header) }}
}}
impl TryReadPayloadFromBuffered<{t}> for {t} {{
    fn try_read_payload_buffered<B: sio::BufRead>(buf: &mut B, header: &PayloadHeader) -> Result<ReadStatus<{t}>, Error> {{ Defaults::<{t}>::try_read_payload_buffered(buf, header) }}
}}''')
def arms(f): return "match self { "+", ".join(f"Payload::{v}(p) => {f}" for v in V)+" }"
def d(f,x=""): return f"match *self {{ "+", ".join(f"Payload::{v}(p) => p.{f}" for v in V)+" }"
H="impl %s for Payload"
w(f'''impl PayloadHooks for Payload {{}}

//@ fn @gen/exp.rs PayloadEncode@Payload::encode
:props C15 C05
:impl_extra
    open spec fn enc(&self) -> Seq<u8> {{ {d("enc()")} }}
    open spec fn enc_fails(&self) -> bool {{ {d("enc_fails()")} }}

//@ fn @gen/exp.rs PayloadEncodeReferred@Payload::encode
:props C15 C05
:impl_extra
    open spec fn refd(&self) -> Option<Seq<u8>> {{ {d("refd()")} }}
    open spec fn ref_fails(&self) -> bool {{ {d("ref_fails()")} }}

//@ fn @gen/exp.rs PayloadSignature@Payload::sig
:props C15 C03
:impl_extra
    open spec fn sig_spec(&self) -> ByteBlock {{ {d("sig_spec()")} }}

//@ fn @gen/exp.rs PayloadCrc@Payload::crc
:props C15 C05
:impl_extra
    open spec fn crc_spec(&self) -> ByteBlock {{ {d("crc_spec()")} }}
    open spec fn crc_fails(&self) -> bool {{ {d("crc_fails()")} }}
    open spec fn crc_size_spec() -> nat {{ 4 }}
    fn crc_size() -> usize {{ 4 }}

//@ fn @gen/exp.rs PayloadSize@Payload::size
:props C15 C05
:impl_extra
    open spec fn size_spec(&self) -> u64 {{ {d("size_spec()")} }}
    open spec fn size_fails(&self) -> bool {{ {d("size_fails()")} }}

//@ fn @gen/exp.rs WriteMutTo@Payload::write
:props C15 C05
:header impl PayloadInnerDef for Payload
:impl_extra
    proof fn law_lengths(&self) {{ lemma_lengths(*self); }}
:start
    proof {{ lemma_lengths(*self); }}

//@ fn @gen/exp.rs WriteMutTo@Payload::write_all
:props C15 C05
:header impl PayloadInnerDef for Payload

//@ fn @gen/exp.rs WriteVectoredMutTo@Payload::slices
:props C15 C05
:header impl PayloadInnerDef for Payload

//@ raw
pub mod gen_pay_read {{ use super::*; broadcast use {{ax::reading, ax::part_none, axe::from_io}};
//@ fn @gen/exp.rs ExtractPayloadFrom@Payload::read
:props C15 C06
:header impl PayloadDef<Payload> for Payload
:impl_extra
    open spec fn pdec(h: PayloadHeader, s: Seq<u8>) -> Option<Payload> {{ payload_dec(h, s) }}
    proof fn law_size(h: PayloadHeader, s: Seq<u8>) {{ }}
    proof fn law_round(p: &Payload, t: Seq<u8>) {{ lemma_payload_round(*p, t); }}
:start
    proof {{ lemma_sigs(); }}

//@ fn @gen/exp.rs TryExtractPayloadFrom@Payload::try_read
:props C15 C06
:header impl PayloadDef<Payload> for Payload
:start
    proof {{ lemma_sigs(); }}

//@ fn @gen/exp.rs TryExtractPayloadFromBuffered@Payload::try_read
:props C15 C06
:header impl PayloadDef<Payload> for Payload
:start
    proof {{ lemma_sigs(); }}
//@ raw
}}
''')
open('/verif/contracts/gen_pay.vc','w').write("\n".join(o))
dec="".join(f'''    else if h.sig == <{t} as StaticPayloadSignature>::ssig_spec() {{ match typed::<{t}>(h, s) {{ Some(v) => Some(Payload::{v}(v)), None => None }} }}
''' for t,v in zip(T,V))
rounds="".join(f"""proof fn pick_{v}(h: PayloadHeader, s: Seq<u8>)
    requires h.sig == <{t} as StaticPayloadSignature>::ssig_spec(), h.len <= s.len(), typed::<{t}>(h, s) is Some,
    ensures payload_dec(h, s) == Some(Payload::{v}(typed::<{t}>(h, s)->0)),
{{
    hide(typed);
    lemma_sigs();
}}
proof fn round_{v}(v: {t}, t: Seq<u8>)
    ensures !framing_fails(&Payload::{v}(v)) ==> payload_dec(hdr_for(&Payload::{v}(v)), body(&Payload::{v}(v)) + t) == Some(Payload::{v}(v)),
{{
    hide(typed); hide(payload_dec);
    let p = Payload::{v}(v);
    if !framing_fails(&p) {{
        let h = hdr_for(&p); let s = body(&p) + t;
        lemma_{v}(v);
        assert(body(&p) == body(&v));
        assert(h.len == v.size_spec() && h.crc == v.crc_spec() && h.sig == v.sig_spec());
        assert(s.take(h.len as int) =~= body(&v));
        lemma_typed::<{t}>(v, h, s);
        pick_{v}(h, s);
    }}
}}
""" for t,v in zip(T,V))
cases="".join(f"        Payload::{v}(v) => round_{v}(v, t),\n" for t,v in zip(T,V))
sp=f'''// ---------------------------------------------------------------- payloads
/// bincode: what it writes it reads (assumed), the length it announces is the length it writes (assumed)
pub mod bincodex {{
    use super::*;
    pub uninterp spec fn ser<T>(t: T) -> Seq<u8>;
    pub uninterp spec fn ser_fails<T>(t: T) -> bool;
    pub uninterp spec fn de<T>(s: Seq<u8>) -> Option<T>;
    pub axiom fn back<T>(t: T) ensures !ser_fails(t) ==> de::<T>(ser(t)) == Some(t) && ser(t).len() <= usize::MAX;
    #[verifier::external_body]
    pub fn serialize<T>(t: &T) -> (r: sio::Result<Vec<u8>>) ensures r is Ok ==> r->Ok_0@ == ser(*t), r is Err <==> ser_fails(*t) {{ unimplemented!() }}
    #[verifier::external_body]
    pub fn deserialize<T>(b: &[u8]) -> (r: sio::Result<T>) ensures r is Ok ==> de::<T>(b@) == Some(r->Ok_0), r is Err ==> de::<T>(b@) is None {{ unimplemented!() }}
    #[verifier::external_body]
    pub fn serialized_size<T>(t: &T) -> (r: sio::Result<u64>) ensures r is Ok ==> r->Ok_0 == ser(*t).len(), r is Err <==> ser_fails(*t) {{ unimplemented!() }}
}}
impl PayloadHooks for PlRec {{}}
impl PayloadHooks for PlFree {{}}
impl PayloadHooks for PlRaw {{}}
impl<T: PayloadEncode + PayloadHooks + PayloadEncodeReferred> DefaultCrc for T {{}}
pub trait TryReadPayloadFrom<T: Sized + PayloadDecode<T> + PayloadHooks + StaticPayloadSignature + PayloadCrc + ReadPayloadFrom<T>> {{
    fn try_read_payload<B: sio::Read + sio::Seek>(buf: &mut B, header: &PayloadHeader) -> (r: Result<ReadStatus<T>, Error>)
        ensures pay_try(old(buf), final(buf), *header, r);
}}
pub trait TryReadPayloadFromBuffered<T: Sized + PayloadDecode<T> + PayloadHooks + StaticPayloadSignature + PayloadCrc + ReadPayloadFrom<T>> {{
    fn try_read_payload_buffered<B: sio::BufRead>(buf: &mut B, header: &PayloadHeader) -> (r: Result<ReadStatus<T>, Error>)
        ensures pay_tryb(old(buf), final(buf), *header, r);
}}
// the user's own payload: a lead byte and the bytes; its code is the user's (assumed)
impl PayloadSignature for PlRaw {{
    open spec fn sig_spec(&self) -> ByteBlock {{ <PlRaw as StaticPayloadSignature>::ssig_spec() }}
    #[verifier::external_body]
    fn sig(&self) -> ByteBlock {{ unimplemented!() }}
}}
pub uninterp spec fn raw_sig() -> [u8; 16];
pub uninterp spec fn raw_crc(v: PlRaw) -> [u8; 8];
impl StaticPayloadSignature for PlRaw {{
    open spec fn ssig_spec() -> ByteBlock {{ ByteBlock::Len16(raw_sig()) }}
    #[verifier::external_body]
    fn ssig() -> ByteBlock {{ unimplemented!() }}
}}
impl PayloadEncode for PlRaw {{
    open spec fn enc(&self) -> Seq<u8> {{ seq![0xA5u8] + self.bytes@ }}
    open spec fn enc_fails(&self) -> bool {{ false }}
    #[verifier::external_body]
    fn encode(&self) -> sio::Result<Vec<u8>> {{ unimplemented!() }}
}}
impl PayloadEncodeReferred for PlRaw {{
    open spec fn refd(&self) -> Option<Seq<u8>> {{ None }}
    open spec fn ref_fails(&self) -> bool {{ false }}
    #[verifier::external_body]
    fn encode_referred(&self) -> sio::Result<Option<&[u8]>> {{ unimplemented!() }}
}}
impl PayloadDecode<PlRaw> for PlRaw {{
    open spec fn dec(s: Seq<u8>) -> Option<PlRaw> {{ if s.len() > 0 && s[0] == 0xA5 {{ Some(PlRaw {{ bytes: vec_of(s.skip(1)) }}) }} else {{ None }} }}
    #[verifier::external_body]
    fn decode(buf: &[u8]) -> sio::Result<PlRaw> {{ unimplemented!() }}
}}
impl PayloadSize for PlRaw {{
    open spec fn size_spec(&self) -> u64 {{ (1 + self.bytes@.len()) as u64 }}
    open spec fn size_fails(&self) -> bool {{ false }}
    #[verifier::external_body]
    fn size(&self) -> sio::Result<u64> {{ unimplemented!() }}
}}
/// what one type makes of header and bytes
pub open spec fn typed<T: PayloadDecode<T> + PayloadCrc>(h: PayloadHeader, s: Seq<u8>) -> Option<T> {{
    let d = T::dec(s.take(h.len as int));
    if h.len <= s.len() && d is Some && !d->0.crc_fails() && d->0.crc_spec() == h.crc {{ d }} else {{ None }}
}}
pub open spec fn payload_dec(h: PayloadHeader, s: Seq<u8>) -> Option<Payload> {{
    if h.len > s.len() {{ None }}
{dec}    else {{ None }}
}}
/// UTF-8 of the names of the default payloads
pub axiom fn names()
    ensures str_bytes("Vec<u8>"@) == seq![86u8, 101u8, 99u8, 60u8, 117u8, 56u8, 62u8], str_bytes("String"@) == seq![83u8, 116u8, 114u8, 105u8, 110u8, 103u8];
/// the CRCs of the names of the payloads, computed: the signatures of the generated and of the default payloads
pub mod names {{
use super::*;
proof fn name_vec() ensures crc32_of(seq![86u8, 101u8, 99u8, 60u8, 117u8, 56u8, 62u8]).le() == seq![117u8, 220u8, 251u8, 101u8] {{
    crc32_def(seq![86u8, 101u8, 99u8, 60u8, 117u8, 56u8, 62u8]);
    assert(!crc_run(!0u32, seq![86u8, 101u8, 99u8, 60u8, 117u8, 56u8, 62u8]) == 1711004789u32) by (compute);
    assert(1711004789u32 as u8 == 117u8) by (bit_vector);
    assert((1711004789u32 >> 8) as u8 == 220u8) by (bit_vector);
    assert((1711004789u32 >> 16) as u8 == 251u8) by (bit_vector);
    assert((1711004789u32 >> 24) as u8 == 101u8) by (bit_vector);
    assert(1711004789u32.le() =~= seq![117u8, 220u8, 251u8, 101u8]);
}}
proof fn name_string() ensures crc32_of(seq![83u8, 116u8, 114u8, 105u8, 110u8, 103u8]).le() == seq![159u8, 183u8, 18u8, 153u8] {{
    crc32_def(seq![83u8, 116u8, 114u8, 105u8, 110u8, 103u8]);
    assert(!crc_run(!0u32, seq![83u8, 116u8, 114u8, 105u8, 110u8, 103u8]) == 2568140703u32) by (compute);
    assert(2568140703u32 as u8 == 159u8) by (bit_vector);
    assert((2568140703u32 >> 8) as u8 == 183u8) by (bit_vector);
    assert((2568140703u32 >> 16) as u8 == 18u8) by (bit_vector);
    assert((2568140703u32 >> 24) as u8 == 153u8) by (bit_vector);
    assert(2568140703u32.le() =~= seq![159u8, 183u8, 18u8, 153u8]);
}}
proof fn name_rec() ensures crc32_of(seq![80u8, 108u8, 82u8, 101u8, 99u8]).le() == seq![179u8, 37u8, 200u8, 44u8] {{
    crc32_def(seq![80u8, 108u8, 82u8, 101u8, 99u8]);
    assert(!crc_run(!0u32, seq![80u8, 108u8, 82u8, 101u8, 99u8]) == 751314355u32) by (compute);
    assert(751314355u32 as u8 == 179u8) by (bit_vector);
    assert((751314355u32 >> 8) as u8 == 37u8) by (bit_vector);
    assert((751314355u32 >> 16) as u8 == 200u8) by (bit_vector);
    assert((751314355u32 >> 24) as u8 == 44u8) by (bit_vector);
    assert(751314355u32.le() =~= seq![179u8, 37u8, 200u8, 44u8]);
}}
proof fn name_free() ensures crc32_of(seq![80u8, 108u8, 70u8, 114u8, 101u8, 101u8]).le() == seq![242u8, 130u8, 214u8, 45u8] {{
    crc32_def(seq![80u8, 108u8, 70u8, 114u8, 101u8, 101u8]);
    assert(!crc_run(!0u32, seq![80u8, 108u8, 70u8, 114u8, 101u8, 101u8]) == 769032946u32) by (compute);
    assert(769032946u32 as u8 == 242u8) by (bit_vector);
    assert((769032946u32 >> 8) as u8 == 130u8) by (bit_vector);
    assert((769032946u32 >> 16) as u8 == 214u8) by (bit_vector);
    assert((769032946u32 >> 24) as u8 == 45u8) by (bit_vector);
    assert(769032946u32.le() =~= seq![242u8, 130u8, 214u8, 45u8]);
}}
pub proof fn crc_of_names()
    ensures crc32_of(str_bytes("Vec<u8>"@)).le() == seq![117u8, 220u8, 251u8, 101u8], crc32_of(str_bytes("String"@)).le() == seq![159u8, 183u8, 18u8, 153u8],
        crc32_of(seq![80u8, 108u8, 82u8, 101u8, 99u8]).le() == seq![179u8, 37u8, 200u8, 44u8], crc32_of(seq![80u8, 108u8, 70u8, 114u8, 101u8, 101u8]).le() == seq![242u8, 130u8, 214u8, 45u8],
{{ super::names(); name_vec(); name_string(); name_rec(); name_free(); }}
}}
pub use names::crc_of_names;
pub axiom fn arr4_bytes(s: Seq<u8>) ensures s.len() == 4 ==> arr4(s)@ == s;
pub open spec fn sigs_differ() -> bool {{
    let (a, b, c, d, e) = (<PlRec as StaticPayloadSignature>::ssig_spec(), <PlFree as StaticPayloadSignature>::ssig_spec(), <PlRaw as StaticPayloadSignature>::ssig_spec(), <Vec<u8> as StaticPayloadSignature>::ssig_spec(), <String as StaticPayloadSignature>::ssig_spec());
    a != b && a != c && a != d && a != e && b != c && b != d && b != e && c != d && c != e && d != e
}}
pub proof fn lemma_sigs()
    ensures sigs_differ(),
{{
    crc_of_names();
    let (a, b, d, e) = (seq![179u8, 37u8, 200u8, 44u8], seq![242u8, 130u8, 214u8, 45u8], seq![117u8, 220u8, 251u8, 101u8], seq![159u8, 183u8, 18u8, 153u8]);
    arr4_bytes(a); arr4_bytes(b); arr4_bytes(d); arr4_bytes(e);
    assert(a[0] == 179 && b[0] == 242 && d[0] == 117 && e[0] == 159);
    assert(arr4(a)@[0] == 179 && arr4(b)@[0] == 242 && arr4(d)@[0] == 117 && arr4(e)@[0] == 159);
}}
/// a type's own promise: what it encodes it decodes, and announces the length
pub open spec fn faithful<T: PayloadDecode<T> + PayloadCrc + PayloadSize>(v: T) -> bool {{
    !body_fails(&v) && !v.size_fails() ==> T::dec(body(&v)) == Some(v) && v.size_spec() == body(&v).len()
}}
pub proof fn lemma_PlRec(v: PlRec) ensures faithful(v), bb(v.crc_spec()).len() <= 8 {{ bincodex::back(v); bb4(v.crc_spec()); }}
pub proof fn lemma_PlFree(v: PlFree) ensures faithful(v), bb(v.crc_spec()).len() <= 8 {{ bincodex::back(v); bb4(v.crc_spec()); }}
pub proof fn lemma_PlRaw(v: PlRaw) ensures faithful(v), bb(v.crc_spec()).len() <= 8 {{
    bb4(v.crc_spec()); vec_is(v.bytes); vec_room(v.bytes);
    let b = seq![0xA5u8] + v.bytes@;
    assert(b.skip(1) =~= v.bytes@);
}}
pub proof fn lemma_Bytes(v: Vec<u8>) ensures faithful(v), bb(v.crc_spec()).len() <= 8 {{ vec_is(v); bb4(v.crc_spec()); vec_room(v); }}
pub proof fn lemma_String(v: String) ensures faithful(v), bb(v.crc_spec()).len() <= 8 {{ lossy_back(v); str_small(v); bb4(v.crc_spec()); }}
/// a Vec<u8> holds at most isize::MAX bytes
pub axiom fn vec_room(v: Vec<u8>) ensures v@.len() < usize::MAX;
pub proof fn bb4(b: ByteBlock) ensures b is Len4 ==> bb(b).len() == 4, b is Len8 ==> bb(b).len() == 8 {{}}
pub proof fn lemma_typed<T: PayloadDecode<T> + PayloadCrc + PayloadSize>(v: T, h: PayloadHeader, s: Seq<u8>)
    requires faithful(v), !body_fails(&v), !v.size_fails(), !v.crc_fails(), h.crc == v.crc_spec(), h.len == v.size_spec(), s.len() >= h.len, s.take(h.len as int) == body(&v),
    ensures typed::<T>(h, s) == Some(v),
{{ }}
/// C15: a Vec<u8> payload of which at most one byte was changed is refused, or still the same
pub proof fn theorem_bytes_detects(h: PayloadHeader, s: Seq<u8>, t: Seq<u8>, v: Vec<u8>, w: Vec<u8>, i: int)
    requires typed::<Vec<u8>>(h, s) == Some(v), typed::<Vec<u8>>(h, t) == Some(w), forall|k: int| 0 <= k < h.len && k != i ==> s[k] == t[k],
    ensures v@ == w@, s.take(h.len as int) == t.take(h.len as int)
{{
    let (x, y) = (s.take(h.len as int), t.take(h.len as int));
    assert(v@ == x && w@ == y) by {{ vec_back(x); vec_back(y); }}
    let (a, b) = (crc32_of(body(&v)).le(), crc32_of(body(&w)).le());
    le32(crc32_of(body(&v))); le32(crc32_of(body(&w)));
    arr4_bytes(a); arr4_bytes(b);
    assert(a == b);
    lemma_crc_detects(x, y, i);
}}
pub proof fn lemma_lengths(p: Payload)
    ensures !framing_fails(&p) ==> p.size_spec() == body(&p).len() && bb(p.crc_spec()).len() <= 8 && framed(&p).len() <= usize::MAX,
{{
    match p {{
        Payload::PlRec(v) => lemma_PlRec(v), Payload::PlFree(v) => lemma_PlFree(v), Payload::PlRaw(v) => lemma_PlRaw(v), Payload::Bytes(v) => lemma_Bytes(v), Payload::String(v) => lemma_String(v),
    }}
}}
pub use gen_pay_rounds::lemma_payload_round;
pub mod gen_pay_rounds {{
use super::*;
{rounds}pub proof fn lemma_payload_round(p: Payload, t: Seq<u8>)
    ensures !framing_fails(&p) ==> payload_dec(hdr_for(&p), body(&p) + t) == Some(p),
{{
    match p {{
{cases}    }}
}}
}}
'''
open('/verif/contracts/gen_pay_spec.rs','w').write(sp)
