/// brec's BlockDef with its supertraits in one; the postconditions are conditions on block types, which the
/// generated code fulfils (C07, C16)
pub trait BlockDef: Sized {
    /// the encoded block
    spec fn bytes(&self) -> Seq<u8>;
    /// the block at the start of s, and its length
    spec fn bdec(s: Seq<u8>) -> Option<(Self, nat)>;
    proof fn law_size(s: Seq<u8>)
        ensures Self::bdec(s) is Some ==> 0 < (Self::bdec(s)->0).1 <= s.len() && (Self::bdec(s)->0).1 == (Self::bdec(s)->0).0.bytes().len();
    proof fn law_round(&self, t: Seq<u8>)
        ensures Self::bdec(self.bytes() + t) == Some((*self, self.bytes().len()));
    fn size(&self) -> (r: u64)
        ensures r == self.bytes().len();
    fn write<T: sio::Write>(&self, buf: &mut T) -> (r: sio::Result<usize>)
        ensures
            r is Ok ==> r->Ok_0 <= self.bytes().len() && sio::wrote(old(buf), final(buf), self.bytes().take(r->Ok_0 as int)),
            r is Err ==> old(buf).faulty() && sio::wrote_part(old(buf), final(buf), self.bytes());
    fn write_all<T: sio::Write>(&self, buf: &mut T) -> (r: sio::Result<()>)
        ensures
            r is Ok ==> sio::wrote(old(buf), final(buf), self.bytes()),
            r is Err ==> old(buf).faulty() && sio::wrote_part(old(buf), final(buf), self.bytes());
    fn slices(&self) -> (r: sio::Result<IoSlices<'_>>)
        ensures r is Ok && r->Ok_0.all() == self.bytes();
    fn try_read<T: sio::Read + sio::Seek>(buf: &mut T) -> (r: Result<ReadStatus<Self>, Error>)
        ensures
            sio::same_source(old(buf), final(buf)),
            r is Ok && r->Ok_0 is Success ==> Self::bdec(old(buf).rest()) is Some && (Self::bdec(old(buf).rest())->0).0 == r->Ok_0->Success_0
                && sio::advanced(old(buf), final(buf), (Self::bdec(old(buf).rest())->0).1),
            r is Ok && r->Ok_0 is NotEnoughData ==> Self::bdec(old(buf).rest()) is None && sio::advanced(old(buf), final(buf), 0) && r->Ok_0->NotEnoughData_0 >= 1,
            r is Err && !old(buf).faulty() ==> Self::bdec(old(buf).rest()) is None && sio::advanced(old(buf), final(buf), 0);
    fn try_read_buffered<T: sio::BufRead>(buf: &mut T) -> (r: Result<ReadStatus<Self>, Error>)
        ensures
            sio::same_source(old(buf), final(buf)),
            r is Ok && r->Ok_0 is Success ==> Self::bdec(old(buf).rest()) is Some && (Self::bdec(old(buf).rest())->0).0 == r->Ok_0->Success_0
                && sio::advanced(old(buf), final(buf), (Self::bdec(old(buf).rest())->0).1)
                && final(buf).filled() + (Self::bdec(old(buf).rest())->0).1 >= old(buf).filled(),
            !old(buf).faulty() && !(r is Ok && r->Ok_0 is Success) && Self::bdec(old(buf).rest()) is Some
                ==> old(buf).filled() < (Self::bdec(old(buf).rest())->0).1;
}
