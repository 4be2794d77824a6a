//@ include prelude.rs
//@ include vecsink.rs
//@ raw
use sio::Stream as _;
broadcast use {ax::core, axe::from_io};
//@ item brec/src/error.rs enum Error
//@ include errors.rs
//@ item brec/src/traits/read/status.rs enum ReadStatus
//@ include iters.rs
//@ item brec/src/traits/write/slices.rs enum SliceSlot
//@ item brec/src/traits/write/slices.rs struct IoSlices
//@ include slices_spec.rs
//@ include gen_common.rs
//@ include blk_laws.rs
//@ include filt_laws.rs
//@ include crc_laws.rs
//@ item @gen/exp.rs const BLKUNS
:rewrite const BLKUNS =>> pub const BLKUNS
//@ item @gen/exp.rs struct BlkUns
//@ item @gen/exp.rs struct BlkUnsReferred
//@ include gen_blkuns_spec.rs
//@ stub gen_blkuns.vc @gen/exp.rs *
//@ item @gen/exp.rs const BLKSIG
:rewrite const BLKSIG =>> pub const BLKSIG
//@ item @gen/exp.rs struct BlkSig
//@ item @gen/exp.rs struct BlkSigReferred
//@ include gen_blksig_spec.rs
//@ stub gen_blksig.vc @gen/exp.rs *
//@ item @gen/exp.rs const BLKMIX
:rewrite const BLKMIX =>> pub const BLKMIX
//@ item @gen/exp.rs struct BlkMix
//@ item @gen/exp.rs struct BlkMixReferred
//@ include gen_blkmix_spec.rs
//@ stub gen_blkmix.vc @gen/exp.rs *
//@ item @gen/exp.rs const BLKONE
:rewrite const BLKONE =>> pub const BLKONE
//@ item @gen/exp.rs struct BlkOne
//@ item @gen/exp.rs struct BlkOneReferred
//@ include gen_blkone_spec.rs
//@ stub gen_blkone.vc @gen/exp.rs *
//@ item @gen/exp.rs const BLKFREE
:rewrite const BLKFREE =>> pub const BLKFREE
//@ item @gen/exp.rs struct BlkFree
//@ item @gen/exp.rs struct BlkFreeReferred
//@ include gen_blkfree_spec.rs
//@ stub gen_blkfree.vc @gen/exp.rs *
//@ item @gen/exp.rs const BLKTAIL
:rewrite const BLKTAIL =>> pub const BLKTAIL
//@ item @gen/exp.rs struct BlkTail
//@ item @gen/exp.rs struct BlkTailReferred
//@ include gen_blktail_spec.rs
//@ stub gen_blktail.vc @gen/exp.rs *
//@ item @gen/exp.rs enum Block
//@ item @gen/exp.rs enum BlockReferred
//@ include gen_enum_spec.rs

//@ raw
pub mod enum_def {
use super::*;
broadcast use {ax::reading, ax::part_none, axe::from_io};

//@ fn @gen/exp.rs Size@Block::size
:props C07 C16
:header impl BlockDef for Block
:impl_extra
    open spec fn bytes(&self) -> Seq<u8> { block_enc(*self) }
    open spec fn bdec(s: Seq<u8>) -> Option<(Self, nat)> { block_dec(s) }
    proof fn law_size(s: Seq<u8>) { lemma_block_size(s); }
    proof fn law_round(&self, t: Seq<u8>) { lemma_block_round(*self, t); }
:start
    proof { lemma_block_len(*self); }

//@ fn @gen/exp.rs WriteTo@Block::write
:props C07 C16
:header impl BlockDef for Block
:start
    proof { assert(block_enc(*self).take(0) =~= Seq::<u8>::empty()); }

//@ fn @gen/exp.rs WriteTo@Block::write_all
:props C07 C16
:header impl BlockDef for Block

//@ fn @gen/exp.rs WriteVectoredTo@Block::slices
:props C07 C16
:header impl BlockDef for Block

//@ fn @gen/exp.rs TryReadFrom@Block::try_read
:props C07 C16 C04
:header impl BlockDef for Block
:rewrite ?<$X as $T>::$m($..a) =>> $X::$m($..a)
:ensures
    r is Err && !old(buf).faulty() && no_sig(old(buf).rest()) ==> r->Err_0 is SignatureDismatch,
    r is Ok && r->Ok_0 is NotEnoughData ==> r->Ok_0->NotEnoughData_0 == block_need(old(buf).rest()) - old(buf).rest().len(),   //# C04
:start
    hide(BlkUns_ok); hide(BlkUns_is); hide(BlkUns_val); hide(BlkSig_ok); hide(BlkSig_is); hide(BlkSig_val); hide(BlkMix_ok); hide(BlkMix_is); hide(BlkMix_val); hide(BlkOne_ok); hide(BlkOne_is); hide(BlkOne_val); hide(BlkFree_ok); hide(BlkFree_is); hide(BlkFree_val); hide(BlkTail_ok); hide(BlkTail_is); hide(BlkTail_val);
    proof { lemma_one_sig(old(buf).rest()); lemma_vals(old(buf).rest()); }

//@ fn @gen/exp.rs TryReadFromBuffered@Block::try_read
:props C07 C16
:header impl BlockDef for Block
:rewrite ?<$X as $T>::$m($..a) =>> $X::$m($..a)
:ensures
    r is Err && !old(buf).faulty() && no_sig(old(buf).rest()) ==> r->Err_0 is SignatureDismatch,
:start
    hide(BlkUns_ok); hide(BlkUns_is); hide(BlkUns_val); hide(BlkSig_ok); hide(BlkSig_is); hide(BlkSig_val); hide(BlkMix_ok); hide(BlkMix_is); hide(BlkMix_val); hide(BlkOne_ok); hide(BlkOne_is); hide(BlkOne_val); hide(BlkFree_ok); hide(BlkFree_is); hide(BlkFree_val); hide(BlkTail_ok); hide(BlkTail_is); hide(BlkTail_val);
    proof { lemma_one_sig(old(buf).rest()); lemma_vals(old(buf).rest()); }

//@ fn @gen/exp.rs ReadFrom@Block::read
:props C07 C16
:header impl Block
:rewrite ?<BlkUns as ReadBlockFrom>::read_block(&mut sio::Read::chain(&sig[..], &mut *buf), false) =>> v_chained_BlkUns(&sig, &mut *buf)
:rewrite ?<BlkSig as ReadBlockFrom>::read_block(&mut sio::Read::chain(&sig[..], &mut *buf), false) =>> v_chained_BlkSig(&sig, &mut *buf)
:rewrite ?<BlkMix as ReadBlockFrom>::read_block(&mut sio::Read::chain(&sig[..], &mut *buf), false) =>> v_chained_BlkMix(&sig, &mut *buf)
:rewrite ?<BlkOne as ReadBlockFrom>::read_block(&mut sio::Read::chain(&sig[..], &mut *buf), false) =>> v_chained_BlkOne(&sig, &mut *buf)
:rewrite ?<BlkFree as ReadBlockFrom>::read_block(&mut sio::Read::chain(&sig[..], &mut *buf), false) =>> v_chained_BlkFree(&sig, &mut *buf)
:rewrite ?<BlkTail as ReadBlockFrom>::read_block(&mut sio::Read::chain(&sig[..], &mut *buf), false) =>> v_chained_BlkTail(&sig, &mut *buf)
:ensures
    sio::same_source(old(buf), final(buf)),
    r is Ok ==> block_dec(old(buf).rest()) is Some && (block_dec(old(buf).rest())->0).0 == r->Ok_0,
    r is Ok ==> sio::advanced(old(buf), final(buf), (block_dec(old(buf).rest())->0).1),
    r is Err && !old(buf).faulty() ==> block_dec(old(buf).rest()) is None,
    r is Err && !old(buf).faulty() && old(buf).rest().len() >= 4 && no_sig(old(buf).rest()) ==> r->Err_0 is SignatureDismatch,
:start
    hide(BlkUns_ok); hide(BlkUns_is); hide(BlkUns_val); hide(BlkSig_ok); hide(BlkSig_is); hide(BlkSig_val); hide(BlkMix_ok); hide(BlkMix_is); hide(BlkMix_val); hide(BlkOne_ok); hide(BlkOne_is); hide(BlkOne_val); hide(BlkFree_ok); hide(BlkFree_is); hide(BlkFree_val); hide(BlkTail_ok); hide(BlkTail_is); hide(BlkTail_val);
    proof { lemma_one_sig(old(buf).rest()); lemma_vals(old(buf).rest()); }
    proof { if old(buf).rest().len() >= 4 { assert(old(buf).rest().take(4) + old(buf).rest().skip(4) == old(buf).rest()); } }

//@ fn @gen/exp.rs From@Block::from
:props C16
:header impl Block
:rewrite ?Block::$X(blk.into()) =>> Block::$X($X::from(blk))
:ensures
    r == view_own(blk),

//@ fn @gen/exp.rs Size@BlockReferred::size
:props C16
:header impl<'x> BlockReferredDef<Block> for BlockReferred<'x>
:impl_extra
    open spec fn rdec(s: Seq<u8>) -> Option<(Self, nat)> { view_dec(s) }
    open spec fn own(self) -> Block { view_own(self) }
    proof fn law_view(s: Seq<u8>) { lemma_block_view(s); }
:start
    proof { lemma_block_len(view_own(*self)); }

//@ fn @gen/exp.rs ReadBlockFromSlice@BlockReferred::read_from_slice
:props C07 C16
:header impl<'x> BlockReferredDef<Block> for BlockReferred<'x>
:sig_rewrite
    'b =>> 'a
:ensures
    r is Err && buf@.len() >= 4 && no_sig(buf@) ==> r->Err_0 is SignatureDismatch,
    r is Err && buf@.len() < 4 ==> r->Err_0 is NotEnoughtSignatureData,
:start
    hide(BlkUns_ok); hide(BlkUns_is); hide(BlkUns_view); hide(BlkSig_ok); hide(BlkSig_is); hide(BlkSig_view); hide(BlkMix_ok); hide(BlkMix_is); hide(BlkMix_view); hide(BlkOne_ok); hide(BlkOne_is); hide(BlkOne_view); hide(BlkFree_ok); hide(BlkFree_is); hide(BlkFree_view); hide(BlkTail_ok); hide(BlkTail_is); hide(BlkTail_view);
    proof { lemma_one_sig(buf@); }

//@ raw
}
