pub open spec fn kind<B: BlockDef, BR: BlockReferredDef<B>, P: PayloadDef<Inner>, Inner: PayloadInnerDef>(r: RuleDef<B, BR, P, Inner>) -> int {
    match r { RuleDef::Ignored(_) => 0int, RuleDef::FilterByBlocks(_) => 1int, RuleDef::FilterByPayload(_) => 2int, RuleDef::Filter(_) => 3int }
}
// #[enum_ids(display)]: the kind of a rule, with a name of its own for each
pub enum RuleDefId { Ignored, FilterByBlocks, FilterByPayload, Filter }
pub open spec fn id_kind(r: RuleDefId) -> int {
    match r { RuleDefId::Ignored => 0int, RuleDefId::FilterByBlocks => 1int, RuleDefId::FilterByPayload => 2int, RuleDefId::Filter => 3int }
}
#[verifier::external_body]
pub struct VStr { s: String }
impl VStr {
    pub uninterp spec fn kind(&self) -> int;
    #[verifier::external_body]
    pub fn ne(&self, o: &VStr) -> (r: bool) ensures r == (self.kind() != o.kind()) { unimplemented!() }
}
impl RuleDefId {
    #[verifier::external_body]
    pub fn v_to_string(&self) -> (r: VStr) ensures r.kind() == id_kind(*self) { unimplemented!() }
}
impl<B: BlockDef, BR: BlockReferredDef<B>, P: PayloadDef<Inner>, Inner: PayloadInnerDef> RuleDef<B, BR, P, Inner> {
    pub fn id(&self) -> (r: RuleDefId) ensures id_kind(r) == kind(*self) {
        match self { RuleDef::Ignored(_) => RuleDefId::Ignored, RuleDef::FilterByBlocks(_) => RuleDefId::FilterByBlocks, RuleDef::FilterByPayload(_) => RuleDefId::FilterByPayload, RuleDef::Filter(_) => RuleDefId::Filter }
    }
}
pub open spec fn uniq<B: BlockDef, BR: BlockReferredDef<B>, P: PayloadDef<Inner>, Inner: PayloadInnerDef>(s: Seq<RuleDef<B, BR, P, Inner>>) -> bool {
    forall|i: int, j: int| 0 <= i < j < s.len() ==> kind(#[trigger] s[i]) != kind(#[trigger] s[j])
}
pub open spec fn has_kind<B: BlockDef, BR: BlockReferredDef<B>, P: PayloadDef<Inner>, Inner: PayloadInnerDef>(s: Seq<RuleDef<B, BR, P, Inner>>, k: int) -> bool {
    exists|i: int| 0 <= i < s.len() && kind(#[trigger] s[i]) == k
}
pub open spec fn first_kind<B: BlockDef, BR: BlockReferredDef<B>, P: PayloadDef<Inner>, Inner: PayloadInnerDef>(s: Seq<RuleDef<B, BR, P, Inner>>, k: int, i: int) -> bool {
    0 <= i < s.len() && kind(s[i]) == k && forall|j: int| 0 <= j < i ==> kind(#[trigger] s[j]) != k
}
pub open spec fn fn_yes<A: VArg + ?Sized>(f: RuleFnDef<VFn<A>, VFn<A>>, a: A::V) -> bool {
    match f { RuleFnDef::Dynamic(g) => g.yes(a), RuleFnDef::Static(g) => g.yes(a) }
}
/// what the rules say of the blocks: every block filter accepts them
pub open spec fn blocks_ok<B: BlockDef, BR: BlockReferredDef<B>, P: PayloadDef<Inner>, Inner: PayloadInnerDef>(s: Seq<RuleDef<B, BR, P, Inner>>, a: Seq<BR>) -> bool {
    forall|i: int| #[trigger] first_kind(s, 1, i) ==> fn_yes(s[i]->FilterByBlocks_0, a)
}
pub open spec fn payload_ok<B: BlockDef, BR: BlockReferredDef<B>, P: PayloadDef<Inner>, Inner: PayloadInnerDef>(s: Seq<RuleDef<B, BR, P, Inner>>, a: Seq<u8>) -> bool {
    forall|i: int| #[trigger] first_kind(s, 2, i) ==> fn_yes(s[i]->FilterByPayload_0, a)
}
pub open spec fn packet_ok<B: BlockDef, BR: BlockReferredDef<B>, P: PayloadDef<Inner>, Inner: PayloadInnerDef>(s: Seq<RuleDef<B, BR, P, Inner>>, a: PacketDef<B, P, Inner>) -> bool {
    forall|i: int| #[trigger] first_kind(s, 3, i) ==> fn_yes(s[i]->Filter_0, a)
}
pub open spec fn sink_seen(f: RuleFnDef<VSink, VSink>) -> Seq<Seq<u8>> {
    match f { RuleFnDef::Dynamic(g) => g.seen(), RuleFnDef::Static(g) => g.seen() }
}
/// an ignore rule was told the bytes once, any other rule is as it was
pub open spec fn told<B: BlockDef, BR: BlockReferredDef<B>, P: PayloadDef<Inner>, Inner: PayloadInnerDef>(a: RuleDef<B, BR, P, Inner>, b: RuleDef<B, BR, P, Inner>, x: Seq<u8>) -> bool {
    match a {
        RuleDef::Ignored(f) => b is Ignored && sink_seen(b->Ignored_0) == sink_seen(f).push(x),
        _ => b == a,
    }
}
#[verifier::external_body]
pub fn v_retain<T, F: Fn(&T) -> bool>(v: &mut Vec<T>, f: F)
    requires forall|x: T| #[trigger] f.requires((&x,)),
    ensures
        forall|p: spec_fn(T) -> bool| (forall|x: T, b: bool| #[trigger] f.ensures((&x,), b) ==> b == p(x)) ==> final(v)@ == #[trigger] old(v)@.filter(p),
{ v.retain(f) }

pub proof fn lemma_filter_uniq<B: BlockDef, BR: BlockReferredDef<B>, P: PayloadDef<Inner>, Inner: PayloadInnerDef>(s: Seq<RuleDef<B, BR, P, Inner>>, p: spec_fn(RuleDef<B, BR, P, Inner>) -> bool)
    requires uniq(s),
    ensures
        uniq(s.filter(p)),
        forall|j: int| 0 <= j < s.filter(p).len() ==> p(#[trigger] s.filter(p)[j]) && has_kind(s, kind(s.filter(p)[j])),
    decreases s.len()
{
    reveal(Seq::filter);
    if s.len() > 0 {
        let d = s.drop_last();
        assert(forall|i: int| 0 <= i < d.len() ==> d[i] == s[i]);
        lemma_filter_uniq(d, p);
        let f = d.filter(p);
        assert forall|j: int| 0 <= j < f.len() implies has_kind(s, kind(#[trigger] f[j])) && kind(f[j]) != kind(s.last()) by {
            assert(has_kind(d, kind(f[j])));
            let i = choose|i: int| 0 <= i < d.len() && kind(#[trigger] d[i]) == kind(f[j]);
            assert(kind(s[i]) == kind(f[j]));
        }
        if p(s.last()) {
            assert(s.filter(p) == f.push(s.last()));
            assert(kind(s[s.len() - 1]) == kind(s.last()));
        } else { assert(s.filter(p) == f); }
    }
}
