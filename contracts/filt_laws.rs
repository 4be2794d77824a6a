/// brec's BlockReferredDef: a view of a block in a byte string. It reads what the block reads (generated code: C16)
pub trait BlockReferredDef<B: BlockDef>: Sized {
    spec fn rdec(s: Seq<u8>) -> Option<(Self, nat)>;
    /// the block it stands for
    spec fn own(self) -> B;
    proof fn law_view(s: Seq<u8>)
        ensures
            Self::rdec(s) is Some <==> B::bdec(s) is Some,
            Self::rdec(s) is Some ==> (Self::rdec(s)->0).0.own() == (B::bdec(s)->0).0 && (Self::rdec(s)->0).1 == (B::bdec(s)->0).1;
    fn size(&self) -> (r: u64)
        ensures r == self.own().bytes().len();
    fn read_from_slice<'a>(buf: &'a [u8], skip_sig: bool) -> (r: Result<Self, Error>) where Self: 'a + Sized
        requires !skip_sig,
        ensures
            r is Ok ==> Self::rdec(buf@) is Some && (Self::rdec(buf@)->0).0 == r->Ok_0,
            r is Err ==> Self::rdec(buf@) is None;
}
