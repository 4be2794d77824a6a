//@ include prelude.rs
//@ include vecsink.rs
//@ raw
use sio::Stream as _;
broadcast use {ax::reading, axe::from_io, slotax::slots};
//@ item brec/src/error.rs enum Error
//@ include errors.rs
//@ item brec/src/traits/read/status.rs enum ReadStatus
//@ item brec/src/lib.rs const MAX_BLOCKS_COUNT
//@ item brec/src/traits/props/byte_block.rs enum ByteBlock
//@ item brec/src/payload/header/mod.rs struct PayloadHeader
//@ include bb_spec.rs
//@ include iters.rs
//@ item brec/src/traits/write/slices.rs enum SliceSlot
//@ item brec/src/traits/write/slices.rs struct IoSlices
//@ include slices_spec.rs
//@ include pay_laws.rs
//@ item brec/src/packet/header/mod.rs const PACKET_SIG
//@ item brec/src/packet/header/mod.rs struct PacketHeader
//@ item brec/src/packet/header/mod.rs assoc_const PacketHeader::SIZE
//@ include hdr_spec.rs
//@ include blk_laws.rs
//@ include pkt_laws.rs
//@ item brec/src/packet/mod.rs struct PacketDef
//@ include pkt_spec.rs
//@ item brec/src/storage/slot/mod.rs const DEFAULT_SLOT_CAPACITY
//@ item brec/src/storage/slot/mod.rs const STORAGE_SLOT_SIG
//@ item brec/src/storage/slot/mod.rs struct Slot
//@ item brec/src/storage/slot/header.rs struct SlotHeader
//@ include slot_spec.rs
//@ item brec/src/storage/locator.rs struct FreeSlotLocator
//@ include span_spec.rs
//@ include store_spec.rs
//@ item brec/src/storage/writer/mod.rs struct WriterDef
//@ include wr_spec.rs
//@ stub wr.vc brec/src/storage/writer/mod.rs WriterDef::new
//@ stub wr.vc brec/src/storage/writer/mod.rs WriterDef::insert
//@ include lock_spec.rs
//@ item brec/src/storage/writer/locker.rs const LOCK_EXT
:rewrite & str =>> &'static str
//@ item brec/src/storage/writer/locker.rs const WAIT_INTERVAL_MS
//@ item brec/src/storage/writer/locker.rs struct FileStorageOptions
//@ item brec/src/storage/writer/locker.rs struct FileWriterDef
//@ raw
/// the lock file that goes with a storage file
pub open spec fn lock_of(p: Path) -> Path { sibling(p, LOCK_EXT@) }
impl FileStorageOptions {
    pub closed spec fn at(&self) -> Path { self.filename }
    pub closed spec fn patience(&self) -> Option<Duration> { self.timeout }
}
impl<B: BlockDef, PL: PayloadDef<Inner>, Inner: PayloadInnerDef> FileWriterDef<B, PL, Inner> {
    /// the writer of the file at p: it keeps the exclusive lock that goes with p
    pub closed spec fn guards(&self, p: Path) -> bool { self._filelock.locked() && self._filelock.path() == lock_of(p) }
    pub closed spec fn lock(&self) -> File { self._filelock }
    pub closed spec fn storage(&self) -> WriterDef<File, B, PL, Inner> { self.inner }
}

//@ fn brec/src/storage/writer/locker.rs FileWriterDef::new
:props C20
:loops 1
:resmap
:attr
    #[verifier::loop_isolation(false)]
    #[verifier::exec_allows_no_decreases_clause]
:sig_rewrite
    AsRef<Path> =>> AsPath
:rewrite err.kind() == sio::ErrorKind::WouldBlock =>> v_would_block(&err)
:rewrite let wait_or_fail = || $b =>> raw: let wait_or_fail = || -> (q: Result<(), Error>) ensures (q is Err ==> q->Err_0 is FileIsLocked || q->Err_0 is TimeoutToWaitLockedFile), (q is Err && q->Err_0 is FileIsLocked ==> timeout is None), (q is Err && q->Err_0 is TimeoutToWaitLockedFile ==> timeout is Some && passed(started, timeout->Some_0)) $b
:requires
    forall|f: File| #[trigger] f.path() == filename.p() ==> orderly(f.data()),
:ensures
    r is Ok ==> r->Ok_0.guards(filename.p()),
    r is Err && r->Err_0 is FileIsLocked ==> timeout is None || held(filename.p()),
    r is Err && r->Err_0 is TimeoutToWaitLockedFile ==> held(filename.p()) || (timeout is Some && exists|i: Instant| #[trigger] passed(i, timeout->Some_0)),
    r is Ok ==> r->Ok_0.storage().ok(),

//@ fn brec/src/storage/writer/locker.rs FileWriterDef::insert
:props C20
:requires
    old(self).storage().ok(), pkt_fits(packet.blocks@, packet.payload),
    span(old(self).storage().slots@, old(self).storage().slots@.len() as int) + 4020 + pkt_bytes(packet).len() <= u64::MAX,
:ensures
    final(self).lock() == old(self).lock(),
    r is Ok ==> final(self).storage().ok(),

//@ fn brec/src/storage/writer/locker.rs FileStorageOptions::new
:props C20
:sig_rewrite
    AsRef<Path> =>> AsPath
:ensures
    r.at() == filename.p(), r.patience() is None,

//@ fn brec/src/storage/writer/locker.rs FileStorageOptions::interval
:props C20
:ensures
    r.at() == self.at(), r.patience() == self.patience(),

//@ fn brec/src/storage/writer/locker.rs FileStorageOptions::timeout
:props C20
:ensures
    r.at() == self.at(), r.patience() == Some(timeout),

//@ fn brec/src/storage/writer/locker.rs FileStorageOptions::open
:props C20
:requires
    forall|f: File| #[trigger] f.path() == self.at() ==> orderly(f.data()),
:ensures
    r is Ok ==> r->Ok_0.guards(self.at()),
    r is Err && r->Err_0 is FileIsLocked ==> self.patience() is None || held(self.at()),
    r is Err && r->Err_0 is TimeoutToWaitLockedFile ==> held(self.at()) || (self.patience() is Some && exists|i: Instant| #[trigger] passed(i, self.patience()->Some_0)),
    r is Ok ==> r->Ok_0.storage().ok(),
