
// ------- files, paths and time as the locker uses them (assumed)
#[verifier::external_body]
pub struct PathBuf { k: u8 }
pub type Path = PathBuf;
/// AsRef<Path>
pub trait AsPath: Sized {
    spec fn p(&self) -> Path;
    fn as_ref(&self) -> (r: &Path) ensures *r == self.p();
}
impl AsPath for PathBuf {
    open spec fn p(&self) -> Path { *self }
    fn as_ref(&self) -> (r: &Path) { self }
}
impl<'a> AsPath for &'a PathBuf {
    open spec fn p(&self) -> Path { **self }
    fn as_ref(&self) -> (r: &Path) { *self }
}
#[verifier::external_body]
pub struct Lossy { k: u8 }
impl Lossy {
    #[verifier::external_body]
    pub fn to_string(&self) -> String { unimplemented!() }
}
/// Path::with_extension
pub uninterp spec fn sibling(p: Path, ext: Seq<char>) -> Path;
impl PathBuf {
    #[verifier::external_body]
    pub fn to_path_buf(&self) -> (r: PathBuf) ensures r == *self { unimplemented!() }
    #[verifier::external_body]
    pub fn to_string_lossy(&self) -> Lossy { unimplemented!() }
    #[verifier::external_body]
    pub fn exists(&self) -> bool { unimplemented!() }
    #[verifier::external_body]
    pub fn is_file(&self) -> bool { unimplemented!() }
    #[verifier::external_body]
    pub fn with_extension(&self, ext: &str) -> (r: PathBuf) ensures r == sibling(*self, ext@) { unimplemented!() }
}
#[derive(Clone, Copy)]
pub struct Duration { pub ms: u64 }
impl Duration {
    pub fn from_millis(ms: u64) -> (r: Duration) ensures r.ms == ms { Duration { ms } }
}
impl PartialEq for Duration {
    fn eq(&self, o: &Duration) -> (r: bool) { self.ms == o.ms }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for Duration {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Duration) -> bool { self.ms == o.ms }
}
impl PartialOrd for Duration {
    fn partial_cmp(&self, o: &Duration) -> (r: Option<core::cmp::Ordering>) {
        Some(if self.ms < o.ms { core::cmp::Ordering::Less } else if self.ms == o.ms { core::cmp::Ordering::Equal } else { core::cmp::Ordering::Greater })
    }
}
impl vstd::std_specs::cmp::PartialOrdSpecImpl for Duration {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &Duration) -> Option<core::cmp::Ordering> {
        Some(if self.ms < o.ms { core::cmp::Ordering::Less } else if self.ms == o.ms { core::cmp::Ordering::Equal } else { core::cmp::Ordering::Greater })
    }
}
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Instant { k: u8 }
/// this much time has gone by since i
pub uninterp spec fn passed(i: Instant, d: Duration) -> bool;
impl Instant {
    #[verifier::external_body]
    pub fn now() -> Instant { unimplemented!() }
    #[verifier::external_body]
    pub fn elapsed(&self) -> (r: Duration) ensures forall|d: Duration| d.ms <= r.ms ==> #[trigger] passed(*self, d) { unimplemented!() }
}
#[verifier::external_body]
pub fn sleep(d: Duration) { unimplemented!() }
/// err.kind() == ErrorKind::WouldBlock
#[verifier::external_body]
pub fn v_would_block(e: &sio::Error) -> bool { unimplemented!() }

/// an open file: path() is what it was opened as, locked() says that this handle got the exclusive lock
/// (nothing may take it away again but closing the file)
#[verifier::external_body]
pub struct File { k: u8 }
impl File {
    pub uninterp spec fn path(&self) -> Path;
    pub uninterp spec fn locked(&self) -> bool;
    #[verifier::external_body]
    pub fn try_lock_exclusive(&self) -> (r: sio::Result<bool>) ensures r is Ok && r->Ok_0 ==> self.locked() { unimplemented!() }
    #[verifier::external_body]
    pub fn lock_exclusive(&self) -> (r: sio::Result<()>) ensures r is Ok ==> self.locked() { unimplemented!() }
    /// a shared lock takes the place of the exclusive one
    #[verifier::external_body]
    pub fn try_lock_shared(&self) -> sio::Result<bool> requires !self.locked() { unimplemented!() }
    #[verifier::external_body]
    pub fn lock_shared(&self) -> sio::Result<()> requires !self.locked() { unimplemented!() }
    #[verifier::external_body]
    pub fn unlock(&self) -> sio::Result<()> requires !self.locked() { unimplemented!() }
}
/// somebody here holds the exclusive lock that goes with p
pub open spec fn held(p: Path) -> bool { exists|f: File| #[trigger] f.locked() && f.path() == lock_of(p) }
/// p is itself a lock file
pub open spec fn is_lock(p: Path) -> bool { exists|q: Path| p == #[trigger] sibling(q, LOCK_EXT@) }
pub struct OpenOptions { pub tr: bool }
impl OpenOptions {
    pub fn new() -> (r: OpenOptions) ensures !r.tr { OpenOptions { tr: false } }
    pub fn read(self, b: bool) -> (r: OpenOptions) ensures r.tr == self.tr { self }
    pub fn write(self, b: bool) -> (r: OpenOptions) ensures r.tr == self.tr { self }
    pub fn create(self, b: bool) -> (r: OpenOptions) ensures r.tr == self.tr { self }
    pub fn truncate(self, b: bool) -> (r: OpenOptions) ensures r.tr == b { OpenOptions { tr: b } }
    /// no file but a lock file is opened before its lock is held, and none is truncated
    #[verifier::external_body]
    pub fn open<P: AsPath>(self, path: P) -> (r: sio::Result<File>)
        requires is_lock(path.p()) || held(path.p()), !self.tr,
        ensures r is Ok ==> r->Ok_0.path() == path.p(),
    { unimplemented!() }
}
impl sio::Stream for File {
    uninterp spec fn rest(&self) -> Seq<u8>;
    uninterp spec fn data(&self) -> Seq<u8>;
    uninterp spec fn pos(&self) -> nat;
    open spec fn seekable(&self) -> bool { true }
    uninterp spec fn filled(&self) -> nat;
    uninterp spec fn out(&self) -> Seq<u8>;
    open spec fn faulty(&self) -> bool { true }
}
impl sio::Read for File {
    #[verifier::external_body]
    fn read(&mut self, buf: &mut [u8]) -> (r: sio::Result<usize>) { unimplemented!() }
    #[verifier::external_body]
    fn read_exact(&mut self, buf: &mut [u8]) -> (r: sio::Result<()>) { unimplemented!() }
}
impl sio::Seek for File {
    #[verifier::external_body]
    fn seek(&mut self, to: sio::SeekFrom) -> (r: sio::Result<u64>) { unimplemented!() }
    #[verifier::external_body]
    fn stream_position(&mut self) -> (r: sio::Result<u64>) { unimplemented!() }
}
impl sio::Write for File {
    #[verifier::external_body]
    fn write_vectored(&mut self, bufs: &[sio::IoSlice<'_>]) -> (r: sio::Result<usize>) { unimplemented!() }
    #[verifier::external_body]
    fn write(&mut self, buf: &[u8]) -> (r: sio::Result<usize>) { unimplemented!() }
    #[verifier::external_body]
    fn write_all(&mut self, buf: &[u8]) -> (r: sio::Result<()>) { unimplemented!() }
    #[verifier::external_body]
    fn flush(&mut self) -> (r: sio::Result<()>) { unimplemented!() }
}
