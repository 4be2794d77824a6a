//@ include prelude.rs
//@ include vecsink.rs
//@ raw
broadcast use ax::core;
//@ include iters.rs
//@ item brec/src/error.rs enum Error
//@ raw
pub trait BlockDef {}
pub trait BlockReferredDef<B: BlockDef> {}
pub trait PayloadInnerDef {}
pub trait PayloadDef<Inner: PayloadInnerDef> {}
//@ item brec/src/packet/mod.rs struct PacketDef
//@ item brec/src/packet/rules.rs enum RuleFnDef
//@ include rules_spec.rs
//@ item brec/src/packet/rules.rs enum RuleDef
//@ item brec/src/packet/rules.rs struct RulesDef
//@ include rules_spec2.rs

//@ fn brec/src/packet/rules.rs Default@RulesDef::default
:props C14
:ensures
    r.rules@.len() == 0, uniq(r.rules@),

//@ fn brec/src/packet/rules.rs RulesDef::add_rule
:props C14
:unfold
:requires
    uniq(old(self).rules@),
:ensures
    r is Ok <==> !has_kind(old(self).rules@, kind(rule)),
    r is Ok ==> final(self).rules@ == old(self).rules@.push(rule),
    r is Err ==> final(self).rules@ == old(self).rules@ && r->Err_0 is RuleDuplicate,
    uniq(final(self).rules@),
:loop 0
    invariant_except_break
        !acc0,
    invariant
        self == old(self), kind(rule) == 1,
        it0.s@ == self.rules@, it0.at <= it0.s@.len(),
        forall|i: int| 0 <= i < it0.at && !acc0 ==> kind(self.rules@[i]) != 1,
        acc0 ==> has_kind(self.rules@, 1),
    ensures
        acc0 || it0.at == it0.s@.len(),
    decreases it0.s@.len() - it0.at,
:loop 1
    invariant_except_break
        !acc1,
    invariant
        self == old(self), kind(rule) == 2,
        it1.s@ == self.rules@, it1.at <= it1.s@.len(),
        forall|i: int| 0 <= i < it1.at && !acc1 ==> kind(self.rules@[i]) != 2,
        acc1 ==> has_kind(self.rules@, 2),
    ensures
        acc1 || it1.at == it1.s@.len(),
    decreases it1.s@.len() - it1.at,
:loop 2
    invariant_except_break
        !acc2,
    invariant
        self == old(self), kind(rule) == 3,
        it2.s@ == self.rules@, it2.at <= it2.s@.len(),
        forall|i: int| 0 <= i < it2.at && !acc2 ==> kind(self.rules@[i]) != 3,
        acc2 ==> has_kind(self.rules@, 3),
    ensures
        acc2 || it2.at == it2.s@.len(),
    decreases it2.s@.len() - it2.at,
:loop 3
    invariant_except_break
        !acc3,
    invariant
        self == old(self), kind(rule) == 0,
        it3.s@ == self.rules@, it3.at <= it3.s@.len(),
        forall|i: int| 0 <= i < it3.at && !acc3 ==> kind(self.rules@[i]) != 0,
        acc3 ==> has_kind(self.rules@, 0),
    ensures
        acc3 || it3.at == it3.s@.len(),
    decreases it3.s@.len() - it3.at,

//@ fn brec/src/packet/rules.rs RulesDef::remove_rule
:props C14
:rewrite self.rules.retain(|$r| $r.id().to_string() != rule.to_string()) =>> raw: v_retain(&mut self.rules, |$r: &RuleDef<B, BR, P, Inner>| -> (b: bool) ensures b == (kind(*$r) != id_kind(rule)) { $r.id().v_to_string().ne(&rule.v_to_string()) })
:requires
    uniq(old(self).rules@),
:ensures
    final(self).rules@ == old(self).rules@.filter(|x: RuleDef<B, BR, P, Inner>| kind(x) != id_kind(rule)),
    uniq(final(self).rules@),
    !has_kind(final(self).rules@, id_kind(rule)),
:start
    proof { lemma_filter_uniq(self.rules@, |x: RuleDef<B, BR, P, Inner>| kind(x) != id_kind(rule)); }

//@ fn brec/src/packet/rules.rs RulesDef::ignore
:props C08 C14
:rewrite cb(buffer) =>> cb.v_call(buffer)
:requires
    uniq(old(self).rules@),
:ensures
    r is Ok,
    final(self).rules@.len() == old(self).rules@.len(),
    uniq(final(self).rules@),
    forall|i: int| 0 <= i < old(self).rules@.len() ==> told(old(self).rules@[i], #[trigger] final(self).rules@[i], buffer@),
:loop 0
    invariant
        self.rules@.len() == old(self).rules@.len(), it0 <= self.rules@.len(),
        forall|i: int| it0 <= i < self.rules@.len() ==> self.rules@[i] == old(self).rules@[i],
        forall|i: int| 0 <= i < it0 ==> told(old(self).rules@[i], #[trigger] self.rules@[i], buffer@),
    ensures
        it0 == self.rules@.len(),
    decreases self.rules@.len() - it0,

//@ fn brec/src/packet/rules.rs RulesDef::filter_by_blocks
:props C14 C09
:unfold
:rewrite cb(blocks) =>> cb.v_call(blocks)
:ensures
    r == blocks_ok(self.rules@, blocks@),
:loop 0
    invariant_except_break
        acc0 is None,
    invariant
        it0.s@ == self.rules@, it0.at <= it0.s@.len(),
        acc0 is Some ==> first_kind(self.rules@, 1, it0.at - 1) && acc0 == Some(&self.rules@[it0.at - 1]->FilterByBlocks_0),
        acc0 is None ==> forall|i: int| 0 <= i < it0.at ==> kind(self.rules@[i]) != 1,
    ensures
        acc0 is Some || it0.at == it0.s@.len(),
    decreases it0.s@.len() - it0.at,

//@ fn brec/src/packet/rules.rs RulesDef::filter_by_payload
:props C14 C09
:unfold
:rewrite cb(buffer) =>> cb.v_call(buffer)
:ensures
    r == payload_ok(self.rules@, buffer@),
:loop 0
    invariant_except_break
        acc0 is None,
    invariant
        it0.s@ == self.rules@, it0.at <= it0.s@.len(),
        acc0 is Some ==> first_kind(self.rules@, 2, it0.at - 1) && acc0 == Some(&self.rules@[it0.at - 1]->FilterByPayload_0),
        acc0 is None ==> forall|i: int| 0 <= i < it0.at ==> kind(self.rules@[i]) != 2,
    ensures
        acc0 is Some || it0.at == it0.s@.len(),
    decreases it0.s@.len() - it0.at,

//@ fn brec/src/packet/rules.rs RulesDef::filter
:props C14 C09
:unfold
:rewrite cb(packet) =>> cb.v_call(packet)
:ensures
    r == packet_ok(self.rules@, *packet),
:loop 0
    invariant_except_break
        acc0 is None,
    invariant
        it0.s@ == self.rules@, it0.at <= it0.s@.len(),
        acc0 is Some ==> first_kind(self.rules@, 3, it0.at - 1) && acc0 == Some(&self.rules@[it0.at - 1]->Filter_0),
        acc0 is None ==> forall|i: int| 0 <= i < it0.at ==> kind(self.rules@[i]) != 3,
    ensures
        acc0 is Some || it0.at == it0.s@.len(),
    decreases it0.s@.len() - it0.at,
