/// what a filter callback gets to see
pub trait VArg { type V; spec fn arg(&self) -> Self::V; }
impl<T> VArg for [T] { type V = Seq<T>; open spec fn arg(&self) -> Seq<T> { self@ } }
impl<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef> VArg for PacketDef<B, P, Inner> {
    type V = PacketDef<B, P, Inner>;
    open spec fn arg(&self) -> PacketDef<B, P, Inner> { *self }
}
/// a filter callback (Box<dyn Fn> or fn): a fixed answer for each argument
#[verifier::external_body]
#[verifier::accept_recursive_types(A)]
pub struct VFn<A: ?Sized> { p: core::marker::PhantomData<A> }
impl<A: VArg + ?Sized> VFn<A> {
    pub uninterp spec fn yes(&self, a: A::V) -> bool;
    #[verifier::external_body]
    pub fn v_call(&self, a: &A) -> (r: bool) ensures r == self.yes(a.arg()) { unimplemented!() }
}
/// the ignore callback: what it was given so far
#[verifier::external_body]
pub struct VSink { p: u8 }
impl VSink {
    pub uninterp spec fn seen(&self) -> Seq<Seq<u8>>;
    #[verifier::external_body]
    pub fn v_call(&mut self, a: &[u8]) ensures final(self).seen() == old(self).seen().push(a@) { unimplemented!() }
}
pub type IgnoredCallback = RuleFnDef<VSink, VSink>;
pub type BlocksFilterCallback<BR> = RuleFnDef<VFn<[BR]>, VFn<[BR]>>;
pub type PayloadFilterCallback = RuleFnDef<VFn<[u8]>, VFn<[u8]>>;
pub type FilterCallback<B, P, Inner> = RuleFnDef<VFn<PacketDef<B, P, Inner>>, VFn<PacketDef<B, P, Inner>>>;
