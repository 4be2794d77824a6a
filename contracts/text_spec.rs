// ---------------------------------------------------------------- strings and vectors as payloads
// a String or Vec is its contents (capacity and address are no part of the value); UTF-8 decoding inverts encoding
pub uninterp spec fn str_bytes(s: Seq<char>) -> Seq<u8>;
/// String::from_utf8_lossy
pub uninterp spec fn lossy(b: Seq<u8>) -> String;
pub uninterp spec fn vec_of(s: Seq<u8>) -> Vec<u8>;
pub axiom fn vec_is(v: Vec<u8>) ensures vec_of(v@) == v;
/// every byte string a payload header can announce is the contents of some Vec
pub axiom fn vec_back(s: Seq<u8>) requires s.len() <= u32::MAX ensures vec_of(s)@ == s;
pub axiom fn lossy_back(s: String) ensures lossy(str_bytes(s@)) == s;
pub axiom fn str_small(s: String) ensures str_bytes(s@).len() <= usize::MAX;
pub proof fn lemma_vecs() ensures forall|v: Vec<u8>| #![trigger v@] vec_of(v@) == v
{ assert forall|v: Vec<u8>| #![trigger v@] vec_of(v@) == v by { vec_is(v); } }
pub trait VText {
    spec fn text(&self) -> Seq<char>;
    fn v_as_bytes(&self) -> (r: &[u8]) ensures r@ == str_bytes(self.text());
    fn v_len(&self) -> (r: usize) ensures r == str_bytes(self.text()).len();
}
impl VText for str {
    open spec fn text(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn v_as_bytes(&self) -> (r: &[u8]) { unimplemented!() }
    #[verifier::external_body]
    fn v_len(&self) -> (r: usize) { unimplemented!() }
}
impl VText for String {
    open spec fn text(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn v_as_bytes(&self) -> (r: &[u8]) { unimplemented!() }
    #[verifier::external_body]
    fn v_len(&self) -> (r: usize) { unimplemented!() }
}
#[verifier::external_body]
pub fn v_lossy(b: &[u8]) -> (r: String) ensures r == lossy(b@) { unimplemented!() }
/// the signature of a default payload: the CRC of its type's name
pub uninterp spec fn arr4(s: Seq<u8>) -> [u8; 4];
pub axiom fn arr4_is(a: [u8; 4]) ensures arr4(a@) == a;
pub open spec fn named_sig(n: Seq<char>) -> ByteBlock { ByteBlock::Len4(arr4(crc32_of(str_bytes(n)).le())) }
pub proof fn lemma_named() ensures forall|a: [u8; 4]| #![trigger a@] arr4(a@) == a
{ assert forall|a: [u8; 4]| #![trigger a@] arr4(a@) == a by { arr4_is(a); } }
