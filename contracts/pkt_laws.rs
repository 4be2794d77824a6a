// ---------------------------------------------------------------- blocks and payloads: what a packet relies on
/// brec's PayloadInnerDef; its writing methods are those of WritePayloadWithHeaderTo (unit pay)
pub trait PayloadInnerDef: Sized + PayloadEncode + PayloadHooks + PayloadEncodeReferred + PayloadSize + PayloadCrc + PayloadSignature {
    proof fn law_lengths(&self)
        ensures !framing_fails(self) ==> self.size_spec() == body(self).len();
    fn write<T: sio::Write>(&mut self, buf: &mut T) -> (r: sio::Result<usize>)
        ensures
            *final(self) == *old(self),
            r is Ok ==> !framing_fails(old(self)),
            r is Ok ==> r->Ok_0 <= framed(old(self)).len() && sio::wrote(old(buf), final(buf), framed(old(self)).take(r->Ok_0 as int)),
            r is Err ==> (old(buf).faulty() || framing_fails(old(self))) && sio::wrote_part(old(buf), final(buf), framed(old(self)));
    fn write_all<T: sio::Write>(&mut self, buf: &mut T) -> (r: sio::Result<()>)
        ensures
            *final(self) == *old(self),
            r is Ok ==> !framing_fails(old(self)) && sio::wrote(old(buf), final(buf), framed(old(self))),
            r is Err ==> (old(buf).faulty() || framing_fails(old(self))) && sio::wrote_part(old(buf), final(buf), framed(old(self)));
    fn slices(&mut self) -> (r: sio::Result<IoSlices<'_>>)
        ensures
            *final(self) == *old(self),
            r is Ok ==> r->Ok_0.all() == framed(old(self)),
            r is Err ==> framing_fails(old(self));
}
/// what one extractor of payloads makes of header and bytes
pub trait PayloadDef<Inner: PayloadInnerDef>: Sized {
    spec fn pdec(h: PayloadHeader, s: Seq<u8>) -> Option<Inner>;
    proof fn law_size(h: PayloadHeader, s: Seq<u8>)
        ensures Self::pdec(h, s) is Some ==> h.len <= s.len();
    proof fn law_round(p: &Inner, t: Seq<u8>)
        ensures !framing_fails(p) ==> Self::pdec(hdr_for(p), body(p) + t) == Some(*p);
    fn extract<B: sio::Read>(buf: &mut B, header: &PayloadHeader) -> (r: Result<Inner, Error>)
        ensures
            sio::same_source(old(buf), final(buf)),
            r is Ok ==> Self::pdec(*header, old(buf).rest()) == Some(r->Ok_0) && sio::advanced(old(buf), final(buf), header.len as nat),
            r is Err && !old(buf).faulty() ==> Self::pdec(*header, old(buf).rest()) is None;
    fn try_extract<B: sio::Read + sio::Seek>(buf: &mut B, header: &PayloadHeader) -> (r: Result<ReadStatus<Inner>, Error>)
        ensures
            sio::same_source(old(buf), final(buf)),
            r is Ok && r->Ok_0 is Success ==> Self::pdec(*header, old(buf).rest()) == Some(r->Ok_0->Success_0) && sio::advanced(old(buf), final(buf), header.len as nat),
            r is Ok && r->Ok_0 is NotEnoughData ==> Self::pdec(*header, old(buf).rest()) is None && r->Ok_0->NotEnoughData_0 >= 1,
            r is Err && !old(buf).faulty() ==> Self::pdec(*header, old(buf).rest()) is None;
    fn try_extract_buffered<B: sio::BufRead>(buf: &mut B, header: &PayloadHeader) -> (r: Result<ReadStatus<Inner>, Error>)
        ensures
            sio::same_source(old(buf), final(buf)),
            r is Ok && r->Ok_0 is Success ==> Self::pdec(*header, old(buf).rest()) == Some(r->Ok_0->Success_0) && sio::advanced(old(buf), final(buf), header.len as nat),
            !old(buf).faulty() && !(r is Ok && r->Ok_0 is Success) && Self::pdec(*header, old(buf).rest()) is Some
                ==> old(buf).filled() < header.len;
}
