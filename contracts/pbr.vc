//@ include prelude.rs
//@ include vecsink.rs
//@ raw
use sio::Stream as _;
use sio::BufRead as _;
broadcast use {ax::reading, ax::sub_none, axe::from_io};
//@ item brec/src/error.rs enum Error
//@ include errors.rs
//@ item brec/src/traits/read/status.rs enum ReadStatus
//@ item brec/src/lib.rs const MAX_BLOCKS_COUNT
//@ item brec/src/traits/props/byte_block.rs enum ByteBlock
//@ item brec/src/payload/header/mod.rs struct PayloadHeader
//@ include bb_spec.rs
//@ include iters.rs
//@ item brec/src/traits/write/slices.rs enum SliceSlot
//@ item brec/src/traits/write/slices.rs struct IoSlices
//@ include slices_spec.rs
//@ stub slices.vc * *
//@ stub phdr.vc brec/src/traits/props/byte_block.rs ByteBlock::size
//@ stub phdr.vc brec/src/traits/props/byte_block.rs ByteBlock::as_slice
//@ include pay_laws.rs
//@ stub phdr.vc brec/src/payload/header/mod.rs *
//@ stub phdr.vc brec/src/payload/header/read.rs ReadFrom@PayloadHeader::read
//@ stub phdr.vc brec/src/payload/header/read.rs TryReadFrom@PayloadHeader::try_read
//@ stub phdr.vc brec/src/payload/header/read.rs TryReadFromBuffered@PayloadHeader::try_read
//@ item brec/src/packet/header/mod.rs const PACKET_SIG
//@ item brec/src/packet/header/mod.rs struct PacketHeader
//@ item brec/src/packet/header/mod.rs assoc_const PacketHeader::SIZE
//@ include hdr_spec.rs
//@ stub hdr.vc brec/src/packet/header/mod.rs *
//@ stub hdr.vc brec/src/packet/header/read.rs *
//@ include blk_laws.rs
//@ include pkt_laws.rs
//@ item brec/src/packet/mod.rs struct PacketDef
//@ include pkt_spec.rs
//@ include filt_laws.rs
//@ item brec/src/packet/rules.rs enum RuleFnDef
//@ include rules_spec.rs
//@ item brec/src/packet/rules.rs enum RuleDef
//@ item brec/src/packet/rules.rs struct RulesDef
//@ include rules_spec2.rs
//@ include filt_spec.rs
//@ stub pkt.vc brec/src/packet/mod.rs PacketDef::new
//@ stub rules.vc brec/src/packet/rules.rs *
//@ item brec/src/packet/reader.rs enum NextPacket
//@ item brec/src/packet/reader.rs enum PacketHeaderState
:rewrite std::ops::RangeInclusive<usize> =>> VSpan
//@ item brec/src/packet/reader.rs enum HeaderReadState
//@ item brec/src/packet/reader.rs enum ResolveHeaderReady
//@ item brec/src/packet/reader.rs struct PacketBufReaderDef
//@ include pbr_spec.rs

//@ fn brec/src/packet/reader.rs PacketBufReaderDef::read_header
:props C08 C17
:rewrite std::ops::RangeInclusive::new =>> VSpan::new
:ensures
    r is Ok && r->Ok_0 is NotFound ==> no_sig(buffer@, buffer@.len() - 8),   //# C08
    r is Ok && r->Ok_0 is NotEnoughData ==> first_in(buffer@, r->Ok_0->NotEnoughData_0 as int) && r->Ok_0->NotEnoughData_1 >= 1
        && r->Ok_0->NotEnoughData_1 == 29 - (buffer@.len() - r->Ok_0->NotEnoughData_0),   //# C08
    r is Ok && r->Ok_0 is Found ==> first_in(buffer@, r->Ok_0->Found_1.a as int) && r->Ok_0->Found_1.b == r->Ok_0->Found_1.a + 29
        && r->Ok_0->Found_1.b <= buffer@.len() && hdr_ok(buffer@.skip(r->Ok_0->Found_1.a as int)) && r->Ok_0->Found_0 == hdr_of(buffer@.skip(r->Ok_0->Found_1.a as int)),   //# C08
    r is Err ==> exists|o: int| #[trigger] first_in(buffer@, o) && o + 29 <= buffer@.len() && !hdr_ok(buffer@.skip(o)),   //# C08
:start
    proof { lemma_first(buffer@); assert(buffer.len() <= usize::MAX); }

//@ fn brec/src/packet/reader.rs PacketBufReaderDef::drop_and_consume
:props C08 C17
:requires
    consume is Some ==> consume->0 <= old(self).inner.filled() && consume->0 <= old(self).inner.rest().len(),
:ensures
    r == result,
    final(self).rules == old(self).rules, final(self).recent == old(self).recent, final(self).buffered@.len() == 0,
    sio::advanced(&old(self).inner, &final(self).inner, if consume is Some { consume->0 as nat } else { 0 }),   //# C08

//@ fn brec/src/packet/reader.rs PacketBufReaderDef::resolve_header_ready
:props C08 C17
:rewrite extend_from_slice =>> v_extend
:requires
    old(self).recent is Empty, hdr_valid(header), old(self).buffered@.len() <= header.size,
    old(self).buffered@.len() + old(self).inner.rest().len() <= usize::MAX,
:ensures
    final(self).rules == old(self).rules,
    sio::same_source(&old(self).inner, &final(self).inner),
    r is Ok && r->Ok_0 is Next ==> final(self).recent == HeaderReadState::Ready(Some(header))
        && final(self).buffered@ + final(self).inner.rest() == old(self).buffered@ + old(self).inner.rest()
        && final(self).buffered@.len() < header.size,   //# C08
    r is Ok && r->Ok_0 is Next ==> (r->Ok_0->Next_0 is NoData && final(self).inner.rest().len() == 0)
        || (r->Ok_0->Next_0 is NotEnoughData && final(self).inner.rest().len() < old(self).inner.rest().len()),   //# C08
    r is Ok && r->Ok_0 is Resolved ==> r->Ok_0->Resolved_0 == header && final(self).recent is Empty
        && old(self).buffered@.len() + old(self).inner.rest().len() >= header.size
        && final(self).buffered@ == (old(self).buffered@ + old(self).inner.rest()).take(header.size as int)
        && final(self).inner.rest() == (old(self).buffered@ + old(self).inner.rest()).skip(header.size as int),   //# C08
    r is Ok && old(self).inner.rest().len() == 0 && old(self).buffered@.len() < header.size ==> r->Ok_0 is Next,
    r is Err ==> old(self).inner.faulty() && final(self).recent is Empty,   //# C08

//@ raw
pub mod pbr_refill {
use super::*;
broadcast use {ax::skip_skip, ax::add_left, axe::from_io};
//@ fn brec/src/packet/reader.rs PacketBufReaderDef::resolve_header_refill
:props C08 C17
:rewrite extend_from_slice =>> v_extend
:rewrite sgmt.start() > &0 =>> *sgmt.start() > 0
:rewrite sgmt.end() - buffered =>> *sgmt.end() - buffered
:rewrite buffer.drain(..$..x) =>> raw: { let n0 = $..x; v_drain_front(&mut buffer, n0) }
:requires
    old(self).recent is Empty, uniq(old(self).rules.rules@), refill_ok(buffer@, needed as int), old(self).buffered@.len() == 0,
    buffer@.len() + old(self).inner.rest().len() <= usize::MAX,
:ensures
    final(self).wf(), sio::same_source(&old(self).inner, &final(self).inner),
    r is Ok || !old(self).inner.faulty() ==> step(buffer@ + old(self).inner.rest(), old(self).rules.rules@, final(self), r),   //# C08
    r is Ok && !(r->Ok_0 is NoData) ==> final(self).inner.rest().len() < old(self).inner.rest().len(),   //# C08
    r is Err ==> final(self).recent is Empty && final(self).inner.rest().len() <= old(self).inner.rest().len(),   //# C08
    r is Ok ==> !(r->Ok_0 is Found) && !(r->Ok_0 is Skipped),
:start
    hide(hdr_ok); hide(hdr_of); hide(hdr_bytes); hide(hdr_valid); hide(sig_at); hide(no_sig); hide(uniq); hide(refill_ok); hide(told); hide(reported); hide(first_sig);
    let ghost b0 = buffer@;
    let ghost x0 = self.inner.rest();
    let ghost f = b0 + x0;
    let ghost m0 = self.rules.rules@;
    proof { lemma_refill(b0, x0, needed as int); lemma_scan(f); lemma_told(m0); assert(b0 =~= f.take(b0.len() as int)); assert(f.take(0).len() == 0); }

//@ raw
}
//@ fn brec/src/packet/reader.rs PacketBufReaderDef::new
:props C08 C17
:ensures
    r.wf(), r.full() == old(inner).rest(), r.rules.rules@.len() == 0,   //# C08

//@ fn brec/src/packet/reader.rs PacketBufReaderDef::add_rule
:props C14
:requires
    old(self).wf(),
:ensures
    final(self).wf(), final(self).full() == old(self).full(),
    r is Ok <==> !has_kind(old(self).rules.rules@, kind(rule)),   //# C14
    r is Ok ==> final(self).rules.rules@ == old(self).rules.rules@.push(rule),   //# C14
    r is Err ==> final(self).rules.rules@ == old(self).rules.rules@,   //# C14

//@ fn brec/src/packet/reader.rs PacketBufReaderDef::remove_rule
:props C14
:requires
    old(self).wf(),
:ensures
    final(self).wf(), final(self).full() == old(self).full(),
    final(self).rules.rules@ == old(self).rules.rules@.filter(|x: RuleDef<B, BR, P, Inner>| kind(x) != id_kind(rule)),   //# C14
    !has_kind(final(self).rules.rules@, id_kind(rule)),   //# C14

//@ raw
pub mod pbr_read {
use super::*;
broadcast use {ax::sub_none, axe::from_io};
//@ fn brec/src/packet/reader.rs PacketBufReaderDef::read
:props C08 C14 C17
:attr #[verifier::rlimit(15)]
:rewrite extend_from_slice =>> v_extend
:rewrite sgmt.start() > &0 =>> *sgmt.start() > 0
:rewrite self.inner.fill_buf() =>> v_fill(&mut self.inner)
:rewrite ?BR as ReadBlockFromSlice =>> BR as BlockReferredDef<B>
:rewrite P as TryExtractPayloadFromBuffered<Inner> =>> P as PayloadDef<Inner>
:rewrite blocks.into_iter().map(|$b| $b.into()).collect::<Vec<B>>() =>> v_into_all::<B, BR>(blocks)
:requires
    old(self).wf(), old(self).full().len() < usize::MAX,
:ensures
    final(self).wf(), sio::same_source(&old(self).inner, &final(self).inner),
    r is Ok || !old(self).inner.faulty() ==> step(old(self).full(), old(self).rules.rules@, final(self), r),   //# C08 C14
    (r is Ok && !(r->Ok_0 is NoData)) || (r is Err && !old(self).inner.faulty()) ==> final(self).left() < old(self).left(),   //# C08
    old(self).stuck() && (r is Ok || !old(self).inner.faulty()) ==> r is Ok && r->Ok_0 is NoData && final(self).stuck(),   //# C08
:start
    hide(phdr_is); hide(phdr_need); hide(phdr_bad); hide(phdr_len); hide(phdr_bytes); hide(hdr_crc); hide(blocks_ok); hide(payload_ok); hide(packet_ok); hide(run); hide(rrun);
    hide(hdr_ok); hide(hdr_of); hide(hdr_bytes); hide(hdr_valid); hide(sig_at); hide(no_sig); hide(uniq); hide(told); hide(reported); hide(first_sig); hide(pkt_window); hide(pkt_end);
    hide(step); hide(at_packet);
    let ghost f = self.full();
    let ghost rest0 = self.inner.rest();
    let ghost s0 = self.buffered@ + rest0;
    let ghost m0 = self.rules.rules@;
    let ghost left0 = self.left();
    proof {
        if self.recent is Empty { lemma_kept::<R, B, BR, P, Inner>(f, m0); }
        if self.recent is Ready { lemma_held::<R, B, BR, P, Inner>(self.recent->Ready_0->0, s0, m0); }
        lemma_views::<B, BR>(); lemma_pay_size::<P, Inner>();
        assert(f.take(0) =~= Seq::empty()); assert(f.skip(0) =~= f);
    }
:before_let skip
    proof { lemma_first(buffer@); }
:after_let skip
    proof { lemma_bad::<R, B, BR, P, Inner>(f, m0, buffer@.len() as int, skip - 8); }
:before_let blocks_len
    let ghost k = match consume { None => 0int, Some(c) => c - 29 - header.size };
    let ghost w = packet_buffer@;
    let ghost s1 = *self;
    proof {
        match consume {
            None => { lemma_resolved(header, s0, &s1, left0); },
            Some(c) => { lemma_found(f, m0, &s1, s1.inner.filled() as int, k, c, left0); },
        }
        lemma_leave(f, m0, &s1, header, w, consume, k, left0);
        assert(!old(self).stuck());
    }
:loop_start 0
    proof { lemma_views::<B, BR>(); lemma_turn::<B, BR>(blocks_buffer@, blocks_len as nat, processed as nat, blocks@); }
:loop 0
    invariant_except_break
        views::<B, BR>(header, w) == rrun::<B, BR>(blocks_buffer@, blocks_len as nat, processed as nat, blocks@),
        blocks_at::<B>(blocks_buffer@, blocks_len as nat) == run(blocks_buffer@, blocks_len as nat, processed as nat, owned::<B, BR>(blocks@)),
    invariant
        processed <= blocks_len, count == blocks@.len(), *self == s1,
        consume is Some ==> consume->0 <= self.inner.filled() && consume->0 <= self.inner.rest().len(),
        s1.recent is Empty,
        forall|b: PacketBufReaderDef<'a, R, B, BR, P, Inner>, r: Result<NextPacket<B, P, Inner>, Error>|
            b.rules == s1.rules && b.recent is Empty && sio::advanced(&s1.inner, &b.inner, took_by(consume)) && left_packet(m0, header, w, r)
            ==> #[trigger] step(f, m0, &b, r),
        uniq(s1.rules.rules@), 2 * (s1.inner.rest().len() - took_by(consume)) < left0,
        f == old(self).full(), m0 == old(self).rules.rules@, left0 == old(self).left(), sio::same_source(&old(self).inner, &s1.inner), s1.wf(), !old(self).stuck(),
        blocks_buffer@ == blk_part(header, w), blocks_len == header.blocks_len, blocks_len <= w.len(),
    ensures
        processed == blocks_len, views::<B, BR>(header, w) == Some(blocks@),
    decreases blocks_len - processed,
//@ raw
}
