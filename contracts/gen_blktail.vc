//@ include prelude.rs
//@ include vecsink.rs
//@ raw
use sio::Stream as _;
broadcast use {ax::core, axe::from_io};
//@ item brec/src/error.rs enum Error
//@ include errors.rs
//@ item brec/src/traits/read/status.rs enum ReadStatus
//@ include iters.rs
//@ item brec/src/traits/write/slices.rs enum SliceSlot
//@ item brec/src/traits/write/slices.rs struct IoSlices
//@ include slices_spec.rs
//@ stub slices.vc * *
//@ include gen_common.rs
//@ include crc_laws.rs
//@ item @gen/exp.rs const BLKTAIL
:rewrite const BLKTAIL =>> pub const BLKTAIL
//@ item @gen/exp.rs struct BlkTail
//@ item @gen/exp.rs struct BlkTailReferred
//@ include gen_blktail_spec.rs

//@ fn @gen/exp.rs StaticSize@BlkTail::ssize
:props C07 C16
:header impl BlkTail
:ensures
    r == 717,

//@ fn @gen/exp.rs SignatureU32@BlkTailReferred::sig
:props C07 C16
:header impl<'a> BlkTailReferred<'a>
:ensures
    r@ == BLKTAIL@,

//@ fn @gen/exp.rs From@BlkTail::from
:props C07 C16
:header impl BlkTail
:sig_rewrite
    BlkTailReferred<'a> =>> BlkTailReferred<'_>
:ensures
    r == BlkTail_own(block),

//@ fn @gen/exp.rs CrcU32@BlkTail::crc
:props C07 C16
:header impl BlkTail
:rewrite ?unsafe { let dst = $b.as_mut_ptr().add($o); let src = $..e.as_ptr(); std::ptr::copy_nonoverlapping(src, dst, $n); } =>> v_copy(&mut $b, $o, &$..e, $n);
:rewrite ?$b[$..o .. $..m].copy_from_slice($..e) =>> v_put_at(&mut $b, $..o, $..m, $..e)
:rewrite ?[(&self.$f).into()] =>> [self.$f.v_u8()]
:rewrite ?[self.$f as u8] =>> [v_flag(self.$f)]
:rewrite ?$b[..$n] != $X =>> !v_same(&$b[..$n], &$X)
:rewrite ?<&[u8; $n]>::try_from($..e) =>> v_aref::<$n>($..e)
:rewrite ?Kind::try_from($..x).map_err(|$e| Error::FailedConverting("Kind".to_owned(), $f)) =>> v_kind($..x)
:rewrite ?unsafe { std::mem::transmute(block) } =>> v_longer(block)
:rewrite ?v_longer =>> v_longer_BlkTail
:ensures
    r@ == BlkTail_crc(BlkTail_fields(*self)),

//@ fn @gen/exp.rs CrcU32@BlkTailReferred::crc
:props C07 C16
:header impl<'a> BlkTailReferred<'a>
:rewrite ?unsafe { let dst = $b.as_mut_ptr().add($o); let src = $..e.as_ptr(); std::ptr::copy_nonoverlapping(src, dst, $n); } =>> v_copy(&mut $b, $o, &$..e, $n);
:rewrite ?$b[$..o .. $..m].copy_from_slice($..e) =>> v_put_at(&mut $b, $..o, $..m, $..e)
:rewrite ?[(&self.$f).into()] =>> [self.$f.v_u8()]
:rewrite ?[self.$f as u8] =>> [v_flag(self.$f)]
:rewrite ?$b[..$n] != $X =>> !v_same(&$b[..$n], &$X)
:rewrite ?<&[u8; $n]>::try_from($..e) =>> v_aref::<$n>($..e)
:rewrite ?Kind::try_from($..x).map_err(|$e| Error::FailedConverting("Kind".to_owned(), $f)) =>> v_kind($..x)
:rewrite ?unsafe { std::mem::transmute(block) } =>> v_longer(block)
:rewrite ?v_longer =>> v_longer_BlkTail
:ensures
    r@ == BlkTail_crc(BlkTail_fields(BlkTail_own(*self))),

//@ raw
pub mod BlkTail_stream {
use super::*;
broadcast use {ax::skip_skip, ax::skip_take, ax::array_eq, axe::from_io};

//@ fn @gen/exp.rs ReadBlockFrom@BlkTail::read
:props C07 C16
:header impl BlkTail
:rewrite ?unsafe { let dst = $b.as_mut_ptr().add($o); let src = $..e.as_ptr(); std::ptr::copy_nonoverlapping(src, dst, $n); } =>> v_copy(&mut $b, $o, &$..e, $n);
:rewrite ?$b[$..o .. $..m].copy_from_slice($..e) =>> v_put_at(&mut $b, $..o, $..m, $..e)
:rewrite ?[(&self.$f).into()] =>> [self.$f.v_u8()]
:rewrite ?[self.$f as u8] =>> [v_flag(self.$f)]
:rewrite ?$b[..$n] != $X =>> !v_same(&$b[..$n], &$X)
:rewrite ?<&[u8; $n]>::try_from($..e) =>> v_aref::<$n>($..e)
:rewrite ?Kind::try_from($..x).map_err(|$e| Error::FailedConverting("Kind".to_owned(), $f)) =>> v_kind($..x)
:rewrite ?unsafe { std::mem::transmute(block) } =>> v_longer(block)
:rewrite ?v_longer =>> v_longer_BlkTail
:rewrite ?BlkTail::read($..a) =>> BlkTail::read_block($..a)
:ensures
    sio::same_source(old(buf), final(buf)),
    r is Ok ==> BlkTail_accepts(old(buf).rest(), skip_sig) && BlkTail_is(r->Ok_0, BlkTail_body(old(buf).rest(), skip_sig)),
    r is Ok ==> sio::advanced(old(buf), final(buf), BlkTail_len(skip_sig)),
    r is Err && !old(buf).faulty() ==> old(buf).rest().len() < BlkTail_len(skip_sig) || BlkTail_refused(old(buf).rest(), skip_sig, r->Err_0),
    r is Err && skip_sig ==> !(r->Err_0 is SignatureDismatch),
    r is Ok ==> final(buf).filled() + BlkTail_len(skip_sig) >= old(buf).filled(),
    r is Err && !skip_sig && r->Err_0 is SignatureDismatch ==> sio::advanced(old(buf), final(buf), 4),
    r is Err && !old(buf).faulty() && !skip_sig && old(buf).rest().len() >= 4 && !BlkTail_sig_ok(old(buf).rest()) ==> r->Err_0 is SignatureDismatch,
:start
    hide(BlkTail_norm); hide(BlkTail_fields);
    proof { let s = BlkTail_body(old(buf).rest(), skip_sig); if s.len() >= 709 && BlkTail_kinds(s) { lemma_BlkTail_norm_all(s); } }

//@ raw
}
pub mod BlkTail_slice {
use super::*;
broadcast use {ax::sub_sub, ax::sub_all, ax::array_eq, axe::from_io, arr_of};

//@ fn @gen/exp.rs ReadBlockFromSlice@BlkTailReferred::read_from_slice
:props C07 C16
:header impl<'a> BlkTailReferred<'a>
:rewrite ?unsafe { let dst = $b.as_mut_ptr().add($o); let src = $..e.as_ptr(); std::ptr::copy_nonoverlapping(src, dst, $n); } =>> v_copy(&mut $b, $o, &$..e, $n);
:rewrite ?$b[$..o .. $..m].copy_from_slice($..e) =>> v_put_at(&mut $b, $..o, $..m, $..e)
:rewrite ?[(&self.$f).into()] =>> [self.$f.v_u8()]
:rewrite ?[self.$f as u8] =>> [v_flag(self.$f)]
:rewrite ?$b[..$n] != $X =>> !v_same(&$b[..$n], &$X)
:rewrite ?<&[u8; $n]>::try_from($..e) =>> v_aref::<$n>($..e)
:rewrite ?Kind::try_from($..x).map_err(|$e| Error::FailedConverting("Kind".to_owned(), $f)) =>> v_kind($..x)
:rewrite ?unsafe { std::mem::transmute(block) } =>> v_longer(block)
:rewrite ?v_longer =>> v_longer_BlkTail
:rewrite ?BlkTail::read($..a) =>> BlkTail::read_block($..a)
:ensures
    r is Ok <==> BlkTail_accepts(buf@, skip_sig),
    r is Ok ==> BlkTail_is(BlkTail_own(r->Ok_0), BlkTail_body(buf@, skip_sig)),
    r is Ok && !skip_sig ==> r->Ok_0 == BlkTail_view(buf@),
    r is Err && !skip_sig && buf@.len() < 4 ==> r->Err_0 == Error::NotEnoughtSignatureData(buf@.len() as usize, 4),
    r is Err && (skip_sig || BlkTail_sig_ok(buf@)) && buf@.len() < BlkTail_len(skip_sig) ==> r->Err_0 == Error::NotEnoughData(BlkTail_len(skip_sig) as usize),
    r is Err && (skip_sig || buf@.len() >= 4) ==> (skip_sig || BlkTail_sig_ok(buf@)) && buf@.len() < BlkTail_len(skip_sig) || BlkTail_refused(buf@, skip_sig, r->Err_0),
:start
    hide(BlkTail_norm); hide(BlkTail_fields);
    proof { let s = BlkTail_body(buf@, skip_sig); if s.len() >= 709 && BlkTail_kinds(s) { lemma_BlkTail_norm_all(s); } }

//@ raw
}
pub mod BlkTail_try {
use super::*;
broadcast use {ax::reading, ax::array_eq, axe::from_io};

//@ fn @gen/exp.rs TryReadFrom@BlkTail::try_read
:props C07 C16 C04
:header impl BlkTail
:rewrite ?unsafe { let dst = $b.as_mut_ptr().add($o); let src = $..e.as_ptr(); std::ptr::copy_nonoverlapping(src, dst, $n); } =>> v_copy(&mut $b, $o, &$..e, $n);
:rewrite ?$b[$..o .. $..m].copy_from_slice($..e) =>> v_put_at(&mut $b, $..o, $..m, $..e)
:rewrite ?[(&self.$f).into()] =>> [self.$f.v_u8()]
:rewrite ?[self.$f as u8] =>> [v_flag(self.$f)]
:rewrite ?$b[..$n] != $X =>> !v_same(&$b[..$n], &$X)
:rewrite ?<&[u8; $n]>::try_from($..e) =>> v_aref::<$n>($..e)
:rewrite ?Kind::try_from($..x).map_err(|$e| Error::FailedConverting("Kind".to_owned(), $f)) =>> v_kind($..x)
:rewrite ?unsafe { std::mem::transmute(block) } =>> v_longer(block)
:rewrite ?v_longer =>> v_longer_BlkTail
:rewrite ?BlkTail::read($..a) =>> BlkTail::read_block($..a)
:ensures
    sio::same_source(old(buf), final(buf)),
    r is Ok && r->Ok_0 is Success ==> BlkTail_accepts(old(buf).rest(), false) && BlkTail_is(r->Ok_0->Success_0, BlkTail_body(old(buf).rest(), false)),
    r is Ok && r->Ok_0 is Success ==> sio::advanced(old(buf), final(buf), 717),   //# C04 C07
    r is Ok && r->Ok_0 is NotEnoughData ==> r->Ok_0->NotEnoughData_0 == (if old(buf).rest().len() < 4 { 4 - old(buf).rest().len() } else { 717 - old(buf).rest().len() }) && r->Ok_0->NotEnoughData_0 > 0,   //# C04
    r is Ok && r->Ok_0 is NotEnoughData ==> sio::advanced(old(buf), final(buf), 0),   //# C04
    r is Err && r->Err_0 is SignatureDismatch ==> sio::advanced(old(buf), final(buf), 0) && (old(buf).rest().len() >= 4 && !BlkTail_sig_ok(old(buf).rest())),
    r is Ok && r->Ok_0 is NotEnoughData ==> old(buf).rest().len() < 4 || BlkTail_sig_ok(old(buf).rest()),
    r is Err && !old(buf).faulty() ==> BlkTail_refused(old(buf).rest(), false, r->Err_0),
    r is Err && !old(buf).faulty() ==> sio::advanced(old(buf), final(buf), 0),   //# C04
    old(buf).rest().len() >= 717 && !old(buf).faulty() && BlkTail_accepts(old(buf).rest(), false) ==> r is Ok && r->Ok_0 is Success,

//@ raw
}
pub mod BlkTail_buffered {
use super::*;
broadcast use {ax::reading, ax::sub_sub, ax::array_eq, axe::from_io};

//@ fn @gen/exp.rs TryReadFromBuffered@BlkTail::try_read
:props C07 C16
:header impl BlkTail
:rewrite ?unsafe { let dst = $b.as_mut_ptr().add($o); let src = $..e.as_ptr(); std::ptr::copy_nonoverlapping(src, dst, $n); } =>> v_copy(&mut $b, $o, &$..e, $n);
:rewrite ?$b[$..o .. $..m].copy_from_slice($..e) =>> v_put_at(&mut $b, $..o, $..m, $..e)
:rewrite ?[(&self.$f).into()] =>> [self.$f.v_u8()]
:rewrite ?[self.$f as u8] =>> [v_flag(self.$f)]
:rewrite ?$b[..$n] != $X =>> !v_same(&$b[..$n], &$X)
:rewrite ?<&[u8; $n]>::try_from($..e) =>> v_aref::<$n>($..e)
:rewrite ?Kind::try_from($..x).map_err(|$e| Error::FailedConverting("Kind".to_owned(), $f)) =>> v_kind($..x)
:rewrite ?unsafe { std::mem::transmute(block) } =>> v_longer(block)
:rewrite ?v_longer =>> v_longer_BlkTail
:rewrite ?BlkTail::read($..a) =>> BlkTail::read_block($..a)
:ensures
    sio::same_source(old(reader), final(reader)),
    r is Ok && r->Ok_0 is Success ==> BlkTail_accepts(old(reader).rest(), false) && BlkTail_is(r->Ok_0->Success_0, BlkTail_body(old(reader).rest(), false)),
    r is Ok && r->Ok_0 is Success ==> sio::advanced(old(reader), final(reader), 717),
    r is Ok && r->Ok_0 is NotEnoughData ==> r->Ok_0->NotEnoughData_0 == 4 - final(reader).filled() && final(reader).filled() < 4,
    r is Ok && r->Ok_0 is NotEnoughData ==> sio::advanced(old(reader), final(reader), 0),
    r is Err && !old(reader).faulty() ==> old(reader).rest().len() < 717 || BlkTail_refused(old(reader).rest(), false, r->Err_0),
    r is Ok && r->Ok_0 is Success ==> final(reader).filled() + 717 >= old(reader).filled(),
    r is Ok && r->Ok_0 is NotEnoughData ==> old(reader).filled() < 4,
    r is Err && r->Err_0 is SignatureDismatch ==> sio::advanced(old(reader), final(reader), 0) && !BlkTail_sig_ok(old(reader).rest()),
    r is Err && r->Err_0 is SignatureDismatch ==> final(reader).filled() >= old(reader).filled(),
    r is Err && !old(reader).faulty() && !BlkTail_sig_ok(old(reader).rest()) ==> r->Err_0 is SignatureDismatch && sio::advanced(old(reader), final(reader), 0),

//@ raw
}
//@ fn @gen/exp.rs WriteTo@BlkTail::write
:props C07 C16
:header impl BlkTail
:rewrite ?unsafe { let dst = $b.as_mut_ptr().add($o); let src = $..e.as_ptr(); std::ptr::copy_nonoverlapping(src, dst, $n); } =>> v_copy(&mut $b, $o, &$..e, $n);
:rewrite ?$b[$..o .. $..m].copy_from_slice($..e) =>> v_put_at(&mut $b, $..o, $..m, $..e)
:rewrite ?[(&self.$f).into()] =>> [self.$f.v_u8()]
:rewrite ?[self.$f as u8] =>> [v_flag(self.$f)]
:rewrite ?$b[..$n] != $X =>> !v_same(&$b[..$n], &$X)
:rewrite ?<&[u8; $n]>::try_from($..e) =>> v_aref::<$n>($..e)
:rewrite ?Kind::try_from($..x).map_err(|$e| Error::FailedConverting("Kind".to_owned(), $f)) =>> v_kind($..x)
:rewrite ?unsafe { std::mem::transmute(block) } =>> v_longer(block)
:rewrite ?v_longer =>> v_longer_BlkTail
:rewrite ?BlkTail::read($..a) =>> BlkTail::read_block($..a)
:ensures
    r is Ok ==> r->Ok_0 <= 717 && sio::wrote(old(writer), final(writer), BlkTail_enc(*self).take(r->Ok_0 as int)),
    r is Err ==> old(writer).faulty() && sio::wrote(old(writer), final(writer), Seq::empty()),

//@ fn @gen/exp.rs WriteTo@BlkTail::write_all
:props C07 C16
:header impl BlkTail
:rewrite ?unsafe { let dst = $b.as_mut_ptr().add($o); let src = $..e.as_ptr(); std::ptr::copy_nonoverlapping(src, dst, $n); } =>> v_copy(&mut $b, $o, &$..e, $n);
:rewrite ?$b[$..o .. $..m].copy_from_slice($..e) =>> v_put_at(&mut $b, $..o, $..m, $..e)
:rewrite ?[(&self.$f).into()] =>> [self.$f.v_u8()]
:rewrite ?[self.$f as u8] =>> [v_flag(self.$f)]
:rewrite ?$b[..$n] != $X =>> !v_same(&$b[..$n], &$X)
:rewrite ?<&[u8; $n]>::try_from($..e) =>> v_aref::<$n>($..e)
:rewrite ?Kind::try_from($..x).map_err(|$e| Error::FailedConverting("Kind".to_owned(), $f)) =>> v_kind($..x)
:rewrite ?unsafe { std::mem::transmute(block) } =>> v_longer(block)
:rewrite ?v_longer =>> v_longer_BlkTail
:rewrite ?BlkTail::read($..a) =>> BlkTail::read_block($..a)
:ensures
    r is Ok ==> sio::wrote(old(writer), final(writer), BlkTail_enc(*self)),
    r is Err ==> old(writer).faulty() && sio::wrote_part(old(writer), final(writer), BlkTail_enc(*self)),

//@ fn @gen/exp.rs WriteVectoredTo@BlkTail::slices
:props C07 C16
:header impl BlkTail
:rewrite ?unsafe { let dst = $b.as_mut_ptr().add($o); let src = $..e.as_ptr(); std::ptr::copy_nonoverlapping(src, dst, $n); } =>> v_copy(&mut $b, $o, &$..e, $n);
:rewrite ?$b[$..o .. $..m].copy_from_slice($..e) =>> v_put_at(&mut $b, $..o, $..m, $..e)
:rewrite ?[(&self.$f).into()] =>> [self.$f.v_u8()]
:rewrite ?[self.$f as u8] =>> [v_flag(self.$f)]
:rewrite ?$b[..$n] != $X =>> !v_same(&$b[..$n], &$X)
:rewrite ?<&[u8; $n]>::try_from($..e) =>> v_aref::<$n>($..e)
:rewrite ?Kind::try_from($..x).map_err(|$e| Error::FailedConverting("Kind".to_owned(), $f)) =>> v_kind($..x)
:rewrite ?unsafe { std::mem::transmute(block) } =>> v_longer(block)
:rewrite ?v_longer =>> v_longer_BlkTail
:rewrite ?BlkTail::read($..a) =>> BlkTail::read_block($..a)
:ensures
    r is Ok && r->Ok_0.all() == BlkTail_enc(*self),

