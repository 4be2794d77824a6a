//@ include prelude.rs
//@ include vecsink.rs
//@ raw
use sio::Stream as _;
broadcast use {ax::core, axe::from_io};
//@ item brec/src/error.rs enum Error
//@ include errors.rs
//@ item brec/src/traits/read/status.rs enum ReadStatus
//@ include iters.rs
//@ item brec/src/traits/write/slices.rs enum SliceSlot
//@ item brec/src/traits/write/slices.rs struct IoSlices
//@ include slices_spec.rs
//@ stub slices.vc * *
//@ include gen_common.rs
//@ include crc_laws.rs
//@ item @gen/exp.rs const BLKONE
:rewrite const BLKONE =>> pub const BLKONE
//@ item @gen/exp.rs struct BlkOne
//@ item @gen/exp.rs struct BlkOneReferred
//@ include gen_blkone_spec.rs

//@ fn @gen/exp.rs StaticSize@BlkOne::ssize
:props C07 C16
:header impl BlkOne
:ensures
    r == 9,

//@ fn @gen/exp.rs SignatureU32@BlkOneReferred::sig
:props C07 C16
:header impl<'a> BlkOneReferred<'a>
:ensures
    r@ == BLKONE@,

//@ fn @gen/exp.rs From@BlkOne::from
:props C07 C16
:header impl BlkOne
:sig_rewrite
    BlkOneReferred<'a> =>> BlkOneReferred<'_>
:ensures
    r == BlkOne_own(block),

//@ fn @gen/exp.rs CrcU32@BlkOne::crc
:props C07 C16
:header impl BlkOne
:rewrite ?unsafe { let dst = $b.as_mut_ptr().add($o); let src = $..e.as_ptr(); std::ptr::copy_nonoverlapping(src, dst, $n); } =>> v_copy(&mut $b, $o, &$..e, $n);
:rewrite ?$b[$..o .. $..m].copy_from_slice($..e) =>> v_put_at(&mut $b, $..o, $..m, $..e)
:rewrite ?[(&self.$f).into()] =>> [self.$f.v_u8()]
:rewrite ?[self.$f as u8] =>> [v_flag(self.$f)]
:rewrite ?$b[..$n] != $X =>> !v_same(&$b[..$n], &$X)
:rewrite ?<&[u8; $n]>::try_from($..e) =>> v_aref::<$n>($..e)
:rewrite ?Kind::try_from($..x).map_err(|$e| Error::FailedConverting("Kind".to_owned(), $f)) =>> v_kind($..x)
:rewrite ?unsafe { std::mem::transmute(block) } =>> v_longer(block)
:rewrite ?v_longer =>> v_longer_BlkOne
:ensures
    r@ == BlkOne_crc(BlkOne_fields(*self)),

//@ fn @gen/exp.rs CrcU32@BlkOneReferred::crc
:props C07 C16
:header impl<'a> BlkOneReferred<'a>
:rewrite ?unsafe { let dst = $b.as_mut_ptr().add($o); let src = $..e.as_ptr(); std::ptr::copy_nonoverlapping(src, dst, $n); } =>> v_copy(&mut $b, $o, &$..e, $n);
:rewrite ?$b[$..o .. $..m].copy_from_slice($..e) =>> v_put_at(&mut $b, $..o, $..m, $..e)
:rewrite ?[(&self.$f).into()] =>> [self.$f.v_u8()]
:rewrite ?[self.$f as u8] =>> [v_flag(self.$f)]
:rewrite ?$b[..$n] != $X =>> !v_same(&$b[..$n], &$X)
:rewrite ?<&[u8; $n]>::try_from($..e) =>> v_aref::<$n>($..e)
:rewrite ?Kind::try_from($..x).map_err(|$e| Error::FailedConverting("Kind".to_owned(), $f)) =>> v_kind($..x)
:rewrite ?unsafe { std::mem::transmute(block) } =>> v_longer(block)
:rewrite ?v_longer =>> v_longer_BlkOne
:ensures
    r@ == BlkOne_crc(BlkOne_fields(BlkOne_own(*self))),

//@ raw
pub mod BlkOne_stream {
use super::*;
broadcast use {ax::skip_skip, ax::skip_take, ax::array_eq, axe::from_io};

//@ fn @gen/exp.rs ReadBlockFrom@BlkOne::read
:props C07 C16
:header impl BlkOne
:rewrite ?unsafe { let dst = $b.as_mut_ptr().add($o); let src = $..e.as_ptr(); std::ptr::copy_nonoverlapping(src, dst, $n); } =>> v_copy(&mut $b, $o, &$..e, $n);
:rewrite ?$b[$..o .. $..m].copy_from_slice($..e) =>> v_put_at(&mut $b, $..o, $..m, $..e)
:rewrite ?[(&self.$f).into()] =>> [self.$f.v_u8()]
:rewrite ?[self.$f as u8] =>> [v_flag(self.$f)]
:rewrite ?$b[..$n] != $X =>> !v_same(&$b[..$n], &$X)
:rewrite ?<&[u8; $n]>::try_from($..e) =>> v_aref::<$n>($..e)
:rewrite ?Kind::try_from($..x).map_err(|$e| Error::FailedConverting("Kind".to_owned(), $f)) =>> v_kind($..x)
:rewrite ?unsafe { std::mem::transmute(block) } =>> v_longer(block)
:rewrite ?v_longer =>> v_longer_BlkOne
:rewrite ?BlkOne::read($..a) =>> BlkOne::read_block($..a)
:ensures
    sio::same_source(old(buf), final(buf)),
    r is Ok ==> BlkOne_accepts(old(buf).rest(), skip_sig) && BlkOne_is(r->Ok_0, BlkOne_body(old(buf).rest(), skip_sig)),
    r is Ok ==> sio::advanced(old(buf), final(buf), BlkOne_len(skip_sig)),
    r is Err && !old(buf).faulty() ==> old(buf).rest().len() < BlkOne_len(skip_sig) || BlkOne_refused(old(buf).rest(), skip_sig, r->Err_0),
    r is Err && skip_sig ==> !(r->Err_0 is SignatureDismatch),
    r is Ok ==> final(buf).filled() + BlkOne_len(skip_sig) >= old(buf).filled(),
    r is Err && !skip_sig && r->Err_0 is SignatureDismatch ==> sio::advanced(old(buf), final(buf), 4),
    r is Err && !old(buf).faulty() && !skip_sig && old(buf).rest().len() >= 4 && !BlkOne_sig_ok(old(buf).rest()) ==> r->Err_0 is SignatureDismatch,
:start
    hide(BlkOne_norm); hide(BlkOne_fields);
    proof { let s = BlkOne_body(old(buf).rest(), skip_sig); if s.len() >= 1 && BlkOne_kinds(s) { lemma_BlkOne_norm_all(s); } }

//@ raw
}
pub mod BlkOne_slice {
use super::*;
broadcast use {ax::sub_sub, ax::sub_all, ax::array_eq, axe::from_io, arr_of};

//@ fn @gen/exp.rs ReadBlockFromSlice@BlkOneReferred::read_from_slice
:props C07 C16
:header impl<'a> BlkOneReferred<'a>
:rewrite ?unsafe { let dst = $b.as_mut_ptr().add($o); let src = $..e.as_ptr(); std::ptr::copy_nonoverlapping(src, dst, $n); } =>> v_copy(&mut $b, $o, &$..e, $n);
:rewrite ?$b[$..o .. $..m].copy_from_slice($..e) =>> v_put_at(&mut $b, $..o, $..m, $..e)
:rewrite ?[(&self.$f).into()] =>> [self.$f.v_u8()]
:rewrite ?[self.$f as u8] =>> [v_flag(self.$f)]
:rewrite ?$b[..$n] != $X =>> !v_same(&$b[..$n], &$X)
:rewrite ?<&[u8; $n]>::try_from($..e) =>> v_aref::<$n>($..e)
:rewrite ?Kind::try_from($..x).map_err(|$e| Error::FailedConverting("Kind".to_owned(), $f)) =>> v_kind($..x)
:rewrite ?unsafe { std::mem::transmute(block) } =>> v_longer(block)
:rewrite ?v_longer =>> v_longer_BlkOne
:rewrite ?BlkOne::read($..a) =>> BlkOne::read_block($..a)
:ensures
    r is Ok <==> BlkOne_accepts(buf@, skip_sig),
    r is Ok ==> BlkOne_is(BlkOne_own(r->Ok_0), BlkOne_body(buf@, skip_sig)),
    r is Ok && !skip_sig ==> r->Ok_0 == BlkOne_view(buf@),
    r is Err && !skip_sig && buf@.len() < 4 ==> r->Err_0 == Error::NotEnoughtSignatureData(buf@.len() as usize, 4),
    r is Err && (skip_sig || BlkOne_sig_ok(buf@)) && buf@.len() < BlkOne_len(skip_sig) ==> r->Err_0 == Error::NotEnoughData(BlkOne_len(skip_sig) as usize),
    r is Err && (skip_sig || buf@.len() >= 4) ==> (skip_sig || BlkOne_sig_ok(buf@)) && buf@.len() < BlkOne_len(skip_sig) || BlkOne_refused(buf@, skip_sig, r->Err_0),
:start
    hide(BlkOne_norm); hide(BlkOne_fields);
    proof { let s = BlkOne_body(buf@, skip_sig); if s.len() >= 1 && BlkOne_kinds(s) { lemma_BlkOne_norm_all(s); } }

//@ raw
}
pub mod BlkOne_try {
use super::*;
broadcast use {ax::reading, ax::array_eq, axe::from_io};

//@ fn @gen/exp.rs TryReadFrom@BlkOne::try_read
:props C07 C16 C04
:header impl BlkOne
:rewrite ?unsafe { let dst = $b.as_mut_ptr().add($o); let src = $..e.as_ptr(); std::ptr::copy_nonoverlapping(src, dst, $n); } =>> v_copy(&mut $b, $o, &$..e, $n);
:rewrite ?$b[$..o .. $..m].copy_from_slice($..e) =>> v_put_at(&mut $b, $..o, $..m, $..e)
:rewrite ?[(&self.$f).into()] =>> [self.$f.v_u8()]
:rewrite ?[self.$f as u8] =>> [v_flag(self.$f)]
:rewrite ?$b[..$n] != $X =>> !v_same(&$b[..$n], &$X)
:rewrite ?<&[u8; $n]>::try_from($..e) =>> v_aref::<$n>($..e)
:rewrite ?Kind::try_from($..x).map_err(|$e| Error::FailedConverting("Kind".to_owned(), $f)) =>> v_kind($..x)
:rewrite ?unsafe { std::mem::transmute(block) } =>> v_longer(block)
:rewrite ?v_longer =>> v_longer_BlkOne
:rewrite ?BlkOne::read($..a) =>> BlkOne::read_block($..a)
:ensures
    sio::same_source(old(buf), final(buf)),
    r is Ok && r->Ok_0 is Success ==> BlkOne_accepts(old(buf).rest(), false) && BlkOne_is(r->Ok_0->Success_0, BlkOne_body(old(buf).rest(), false)),
    r is Ok && r->Ok_0 is Success ==> sio::advanced(old(buf), final(buf), 9),   //# C04 C07
    r is Ok && r->Ok_0 is NotEnoughData ==> r->Ok_0->NotEnoughData_0 == (if old(buf).rest().len() < 4 { 4 - old(buf).rest().len() } else { 9 - old(buf).rest().len() }) && r->Ok_0->NotEnoughData_0 > 0,   //# C04
    r is Ok && r->Ok_0 is NotEnoughData ==> sio::advanced(old(buf), final(buf), 0),   //# C04
    r is Err && r->Err_0 is SignatureDismatch ==> sio::advanced(old(buf), final(buf), 0) && (old(buf).rest().len() >= 4 && !BlkOne_sig_ok(old(buf).rest())),
    r is Ok && r->Ok_0 is NotEnoughData ==> old(buf).rest().len() < 4 || BlkOne_sig_ok(old(buf).rest()),
    r is Err && !old(buf).faulty() ==> BlkOne_refused(old(buf).rest(), false, r->Err_0),
    r is Err && !old(buf).faulty() ==> sio::advanced(old(buf), final(buf), 0),   //# C04
    old(buf).rest().len() >= 9 && !old(buf).faulty() && BlkOne_accepts(old(buf).rest(), false) ==> r is Ok && r->Ok_0 is Success,

//@ raw
}
pub mod BlkOne_buffered {
use super::*;
broadcast use {ax::reading, ax::sub_sub, ax::array_eq, axe::from_io};

//@ fn @gen/exp.rs TryReadFromBuffered@BlkOne::try_read
:props C07 C16
:header impl BlkOne
:rewrite ?unsafe { let dst = $b.as_mut_ptr().add($o); let src = $..e.as_ptr(); std::ptr::copy_nonoverlapping(src, dst, $n); } =>> v_copy(&mut $b, $o, &$..e, $n);
:rewrite ?$b[$..o .. $..m].copy_from_slice($..e) =>> v_put_at(&mut $b, $..o, $..m, $..e)
:rewrite ?[(&self.$f).into()] =>> [self.$f.v_u8()]
:rewrite ?[self.$f as u8] =>> [v_flag(self.$f)]
:rewrite ?$b[..$n] != $X =>> !v_same(&$b[..$n], &$X)
:rewrite ?<&[u8; $n]>::try_from($..e) =>> v_aref::<$n>($..e)
:rewrite ?Kind::try_from($..x).map_err(|$e| Error::FailedConverting("Kind".to_owned(), $f)) =>> v_kind($..x)
:rewrite ?unsafe { std::mem::transmute(block) } =>> v_longer(block)
:rewrite ?v_longer =>> v_longer_BlkOne
:rewrite ?BlkOne::read($..a) =>> BlkOne::read_block($..a)
:ensures
    sio::same_source(old(reader), final(reader)),
    r is Ok && r->Ok_0 is Success ==> BlkOne_accepts(old(reader).rest(), false) && BlkOne_is(r->Ok_0->Success_0, BlkOne_body(old(reader).rest(), false)),
    r is Ok && r->Ok_0 is Success ==> sio::advanced(old(reader), final(reader), 9),
    r is Ok && r->Ok_0 is NotEnoughData ==> r->Ok_0->NotEnoughData_0 == 4 - final(reader).filled() && final(reader).filled() < 4,
    r is Ok && r->Ok_0 is NotEnoughData ==> sio::advanced(old(reader), final(reader), 0),
    r is Err && !old(reader).faulty() ==> old(reader).rest().len() < 9 || BlkOne_refused(old(reader).rest(), false, r->Err_0),
    r is Ok && r->Ok_0 is Success ==> final(reader).filled() + 9 >= old(reader).filled(),
    r is Ok && r->Ok_0 is NotEnoughData ==> old(reader).filled() < 4,
    r is Err && r->Err_0 is SignatureDismatch ==> sio::advanced(old(reader), final(reader), 0) && !BlkOne_sig_ok(old(reader).rest()),
    r is Err && r->Err_0 is SignatureDismatch ==> final(reader).filled() >= old(reader).filled(),
    r is Err && !old(reader).faulty() && !BlkOne_sig_ok(old(reader).rest()) ==> r->Err_0 is SignatureDismatch && sio::advanced(old(reader), final(reader), 0),

//@ raw
}
//@ fn @gen/exp.rs WriteTo@BlkOne::write
:props C07 C16
:header impl BlkOne
:rewrite ?unsafe { let dst = $b.as_mut_ptr().add($o); let src = $..e.as_ptr(); std::ptr::copy_nonoverlapping(src, dst, $n); } =>> v_copy(&mut $b, $o, &$..e, $n);
:rewrite ?$b[$..o .. $..m].copy_from_slice($..e) =>> v_put_at(&mut $b, $..o, $..m, $..e)
:rewrite ?[(&self.$f).into()] =>> [self.$f.v_u8()]
:rewrite ?[self.$f as u8] =>> [v_flag(self.$f)]
:rewrite ?$b[..$n] != $X =>> !v_same(&$b[..$n], &$X)
:rewrite ?<&[u8; $n]>::try_from($..e) =>> v_aref::<$n>($..e)
:rewrite ?Kind::try_from($..x).map_err(|$e| Error::FailedConverting("Kind".to_owned(), $f)) =>> v_kind($..x)
:rewrite ?unsafe { std::mem::transmute(block) } =>> v_longer(block)
:rewrite ?v_longer =>> v_longer_BlkOne
:rewrite ?BlkOne::read($..a) =>> BlkOne::read_block($..a)
:ensures
    r is Ok ==> r->Ok_0 <= 9 && sio::wrote(old(writer), final(writer), BlkOne_enc(*self).take(r->Ok_0 as int)),
    r is Err ==> old(writer).faulty() && sio::wrote(old(writer), final(writer), Seq::empty()),

//@ fn @gen/exp.rs WriteTo@BlkOne::write_all
:props C07 C16
:header impl BlkOne
:rewrite ?unsafe { let dst = $b.as_mut_ptr().add($o); let src = $..e.as_ptr(); std::ptr::copy_nonoverlapping(src, dst, $n); } =>> v_copy(&mut $b, $o, &$..e, $n);
:rewrite ?$b[$..o .. $..m].copy_from_slice($..e) =>> v_put_at(&mut $b, $..o, $..m, $..e)
:rewrite ?[(&self.$f).into()] =>> [self.$f.v_u8()]
:rewrite ?[self.$f as u8] =>> [v_flag(self.$f)]
:rewrite ?$b[..$n] != $X =>> !v_same(&$b[..$n], &$X)
:rewrite ?<&[u8; $n]>::try_from($..e) =>> v_aref::<$n>($..e)
:rewrite ?Kind::try_from($..x).map_err(|$e| Error::FailedConverting("Kind".to_owned(), $f)) =>> v_kind($..x)
:rewrite ?unsafe { std::mem::transmute(block) } =>> v_longer(block)
:rewrite ?v_longer =>> v_longer_BlkOne
:rewrite ?BlkOne::read($..a) =>> BlkOne::read_block($..a)
:ensures
    r is Ok ==> sio::wrote(old(writer), final(writer), BlkOne_enc(*self)),
    r is Err ==> old(writer).faulty() && sio::wrote_part(old(writer), final(writer), BlkOne_enc(*self)),

//@ fn @gen/exp.rs WriteVectoredTo@BlkOne::slices
:props C07 C16
:header impl BlkOne
:rewrite ?unsafe { let dst = $b.as_mut_ptr().add($o); let src = $..e.as_ptr(); std::ptr::copy_nonoverlapping(src, dst, $n); } =>> v_copy(&mut $b, $o, &$..e, $n);
:rewrite ?$b[$..o .. $..m].copy_from_slice($..e) =>> v_put_at(&mut $b, $..o, $..m, $..e)
:rewrite ?[(&self.$f).into()] =>> [self.$f.v_u8()]
:rewrite ?[self.$f as u8] =>> [v_flag(self.$f)]
:rewrite ?$b[..$n] != $X =>> !v_same(&$b[..$n], &$X)
:rewrite ?<&[u8; $n]>::try_from($..e) =>> v_aref::<$n>($..e)
:rewrite ?Kind::try_from($..x).map_err(|$e| Error::FailedConverting("Kind".to_owned(), $f)) =>> v_kind($..x)
:rewrite ?unsafe { std::mem::transmute(block) } =>> v_longer(block)
:rewrite ?v_longer =>> v_longer_BlkOne
:rewrite ?BlkOne::read($..a) =>> BlkOne::read_block($..a)
:ensures
    r is Ok && r->Ok_0.all() == BlkOne_enc(*self),

