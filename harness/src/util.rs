//! Deterministic case driver, random source, and scripted readers / writers.
use std::collections::HashSet;
use std::io::{Read, Seek, SeekFrom, Write};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::Arc;
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

pub type R = Result<(), String>;

#[macro_export]
macro_rules! ck {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed ^ 0x9E37_79B9_7F4A_7C15)
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 { 0 } else { (self.u64() % n as u64) as usize }
    }
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    pub fn bool(&mut self) -> bool {
        self.u64() & 1 == 1
    }
    pub fn one_in(&mut self, n: usize) -> bool {
        self.below(n) == 0
    }
    pub fn u8(&mut self) -> u8 {
        self.u64() as u8
    }
    /// Integers with the interesting ones over-represented.
    pub fn int(&mut self) -> u64 {
        match self.below(8) {
            0 => 0,
            1 => u64::MAX,
            2 => 1 << self.below(64),
            3 => (1u64 << self.below(64)).wrapping_sub(1),
            4 => self.below(300) as u64,
            5 => (self.u8() as u64) << (8 * self.below(8)),
            _ => self.u64(),
        }
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.u8()).collect()
    }
    /// Bytes in which no packet signature can occur, not even across a boundary.
    pub fn litter(&mut self, n: usize) -> Vec<u8> {
        (0..n)
            .map(|_| loop {
                let b = match self.below(6) {
                    0 => 0,
                    1 => 37,
                    2 => 94,
                    _ => self.u8(),
                };
                if b != 236 {
                    break b;
                }
            })
            .collect()
    }
}

pub struct Fail {
    pub group: String,
    pub index: u64,
    pub what: String,
    pub note: String,
}

pub struct Ctx {
    pub seed: u64,
    pub scale: u64,
    pub evaluations: u64,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub groups: Vec<(String, u64, &'static str)>,
    pub only: Option<(String, u64)>,
    pub progress: Option<std::fs::File>,
    pub beat: Arc<AtomicU64>,
    pub fail: Option<Fail>,
    pub started: Instant,
    pub exhaustive: bool,
}

/// What a case tells about itself: its fingerprint and, when asked, its text.
pub struct Case<'a> {
    pub rng: Rng,
    pub index: u64,
    pub verbose: bool,
    pub note: String,
    fp: u64,
    pub trivial: bool,
    _p: std::marker::PhantomData<&'a ()>,
}
impl Case<'_> {
    /// a limit for sizes: `small`, now and then far above 65536
    pub fn scale(&mut self, small: usize) -> usize {
        if self.rng.one_in(60) { 250_000 } else { small }
    }
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.verbose {
            let s = f();
            self.note.push_str(&s);
            self.note.push('\n');
        }
    }
    pub fn fp(&mut self, bytes: &[u8]) {
        for b in bytes {
            self.fp = (self.fp ^ *b as u64).wrapping_mul(0x100_0000_01b3);
        }
    }
    pub fn fpn(&mut self, n: u64) {
        self.fp(&n.to_le_bytes());
    }
}

fn fnv(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100_0000_01b3);
    }
    h
}

impl Ctx {
    /// Runs `n` cases (times the tier's scale); stops at the first failing one.
    pub fn group(&mut self, name: &str, n: u64, what: &'static str, f: impl FnMut(&mut Case) -> R) {
        let n = n * self.scale;
        self.run(name, n, what, f)
    }
    /// Runs exactly `n` cases: a complete enumeration of a finite space.
    pub fn all(&mut self, name: &str, n: u64, what: &'static str, f: impl FnMut(&mut Case) -> R) {
        self.run(name, n, what, f)
    }
    fn run(&mut self, name: &str, n: u64, what: &'static str, mut f: impl FnMut(&mut Case) -> R) {
        if self.fail.is_some() {
            return;
        }
        let mut ran = 0;
        for index in 0..n {
            if let Some((g, i)) = &self.only {
                if g != name || *i != index {
                    continue;
                }
            }
            if let Some(p) = self.progress.as_mut() {
                let rec = format!("{:<40} {:>12}\n", name, index);
                let _ = p.seek(SeekFrom::Start(0));
                let _ = p.write_all(rec.as_bytes());
            }
            self.beat.fetch_add(1, Ordering::Relaxed);
            ran += 1;
            let mk = |verbose: bool, seed: u64| Case {
                rng: Rng::new(seed ^ fnv(name) ^ index.wrapping_mul(0xA24B_AED4_963E_E407)),
                index,
                verbose,
                note: String::new(),
                fp: fnv(name),
                trivial: false,
                _p: std::marker::PhantomData,
            };
            let mut case = mk(index < 1 || self.only.is_some(), self.seed);
            let res = catch_unwind(AssertUnwindSafe(|| f(&mut case)));
            let err = match res {
                Ok(Ok(())) => None,
                Ok(Err(e)) => Some(e),
                Err(p) => Some(format!("panic: {}", panic_text(&p))),
            };
            self.evaluations += 1;
            if !case.trivial {
                self.distinct.insert(case.fp);
            }
            if index < 1 && self.samples.len() < 24 && !case.note.is_empty() {
                self.samples.push(format!("{name}#{index}: {}", cut(case.note.trim(), 400)));
            }
            if let Some(e) = err {
                // run the same case again, with its text
                let mut case = mk(true, self.seed);
                let _ = catch_unwind(AssertUnwindSafe(|| f(&mut case)));
                self.fail = Some(Fail { group: name.into(), index, what: e, note: case.note });
                break;
            }
        }
        self.groups.push((name.into(), ran, what));
    }
}

pub fn cut(s: &str, n: usize) -> String {
    if s.len() <= n {
        s.to_string()
    } else {
        let mut k = n;
        while !s.is_char_boundary(k) {
            k -= 1;
        }
        format!("{}...", &s[..k])
    }
}

fn panic_text(p: &Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "?".into()
    }
}

/// Ends the process with status 3 when one case runs for too long.
pub fn watchdog(beat: Arc<AtomicU64>, limit: Duration) {
    std::thread::spawn(move || {
        let mut last = beat.load(Ordering::Relaxed);
        let mut since = Instant::now();
        loop {
            std::thread::sleep(Duration::from_millis(200));
            let now = beat.load(Ordering::Relaxed);
            if now != last {
                last = now;
                since = Instant::now();
            } else if since.elapsed() > limit {
                eprintln!("watchdog: the case does not end");
                std::process::exit(3);
            }
        }
    });
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for x in b.iter().take(600) {
        s.push_str(&format!("{x:02x}"));
    }
    if b.len() > 600 {
        s.push_str(&format!("...({} bytes)", b.len()));
    }
    s
}

/// A seekable source over bytes which returns short reads (`step` bytes at most per call, 0 = no limit).
pub struct Src {
    pub data: Vec<u8>,
    pub pos: u64,
    pub step: usize,
}
impl Src {
    pub fn new(data: Vec<u8>, pos: u64, step: usize) -> Self {
        Src { data, pos, step }
    }
}
impl Read for Src {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let p = (self.pos as usize).min(self.data.len());
        let mut n = buf.len().min(self.data.len() - p);
        if self.step > 0 {
            n = n.min(self.step);
        }
        buf[..n].copy_from_slice(&self.data[p..p + n]);
        self.pos += n as u64;
        Ok(n)
    }
}
impl Seek for Src {
    fn seek(&mut self, s: SeekFrom) -> std::io::Result<u64> {
        let np = match s {
            SeekFrom::Start(n) => n as i128,
            SeekFrom::End(d) => self.data.len() as i128 + d as i128,
            SeekFrom::Current(d) => self.pos as i128 + d as i128,
        };
        if np < 0 {
            return Err(std::io::Error::other("negative position"));
        }
        self.pos = np as u64;
        Ok(self.pos)
    }
}

/// A reader delivering its bytes in scripted chunk sizes (the script repeats).
pub struct Chunks {
    pub data: Vec<u8>,
    pub pos: usize,
    pub script: Vec<usize>,
    pub at: usize,
}
impl Chunks {
    pub fn new(data: Vec<u8>, script: Vec<usize>) -> Self {
        Chunks { data, pos: 0, script, at: 0 }
    }
}
impl Read for Chunks {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let k = if self.script.is_empty() {
            usize::MAX
        } else {
            let k = self.script[self.at % self.script.len()];
            self.at += 1;
            k
        };
        let n = k.min(buf.len()).min(self.data.len() - self.pos);
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

/// A sink which accepts a scripted number of bytes per call; -1 = fail, script end = accept everything.
pub struct Sink {
    pub got: Vec<u8>,
    pub script: Vec<i64>,
    pub at: usize,
    pub calls: usize,
}
impl Sink {
    pub fn new(script: Vec<i64>) -> Self {
        Sink { got: Vec::new(), script, at: 0, calls: 0 }
    }
    fn allow(&mut self) -> std::io::Result<usize> {
        self.calls += 1;
        if self.at < self.script.len() {
            let v = self.script[self.at];
            self.at += 1;
            if v < 0 {
                return Err(std::io::Error::other("sink failed"));
            }
            Ok(v as usize)
        } else {
            Ok(usize::MAX)
        }
    }
}
impl Write for Sink {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        let n = self.allow()?.min(buf.len());
        self.got.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn write_vectored(&mut self, bufs: &[std::io::IoSlice<'_>]) -> std::io::Result<usize> {
        let mut left = self.allow()?;
        let mut n = 0;
        for b in bufs {
            let k = left.min(b.len());
            self.got.extend_from_slice(&b[..k]);
            n += k;
            left -= k;
            if left == 0 {
                break;
            }
        }
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// A sink with a total capacity, after which it accepts nothing.
pub struct Capped {
    pub got: Vec<u8>,
    pub cap: usize,
}
impl Write for Capped {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        let n = (self.cap - self.got.len()).min(buf.len());
        self.got.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// A file shared by a writer and readers.
#[derive(Clone)]
pub struct Shared {
    pub data: std::rc::Rc<std::cell::RefCell<Vec<u8>>>,
    pub pos: u64,
    /// at most this many bytes per read or write (0 = no limit)
    pub step: usize,
}
impl Shared {
    /// a storage whose handles take and give at most `step` bytes per call
    pub fn stepped(step: usize) -> Self {
        Shared { step, ..Shared::new() }
    }
    pub fn new() -> Self {
        Shared { data: Default::default(), pos: 0, step: 0 }
    }
    pub fn of(data: Vec<u8>) -> Self {
        Shared { data: std::rc::Rc::new(std::cell::RefCell::new(data)), pos: 0, step: 0 }
    }
    pub fn handle(&self) -> Self {
        Shared { data: self.data.clone(), pos: 0, step: self.step }
    }
    pub fn dump(&self) -> Vec<u8> {
        self.data.borrow().clone()
    }
}
impl Read for Shared {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let d = self.data.borrow();
        let p = (self.pos as usize).min(d.len());
        let mut n = buf.len().min(d.len() - p);
        if self.step > 0 {
            n = n.min(self.step);
        }
        buf[..n].copy_from_slice(&d[p..p + n]);
        self.pos += n as u64;
        Ok(n)
    }
}
impl Write for Shared {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        let buf = if self.step > 0 { &buf[..buf.len().min(self.step)] } else { buf };
        let mut d = self.data.borrow_mut();
        let p = self.pos as usize;
        if p > (1 << 30) {
            return Err(std::io::Error::other("position out of the harness' range"));
        }
        if d.len() < p + buf.len() {
            d.resize(p + buf.len(), 0);
        }
        d[p..p + buf.len()].copy_from_slice(buf);
        self.pos += buf.len() as u64;
        Ok(buf.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
impl Seek for Shared {
    fn seek(&mut self, s: SeekFrom) -> std::io::Result<u64> {
        let len = self.data.borrow().len() as i128;
        let np = match s {
            SeekFrom::Start(n) => n as i128,
            SeekFrom::End(d) => len + d as i128,
            SeekFrom::Current(d) => self.pos as i128 + d as i128,
        };
        if np < 0 {
            return Err(std::io::Error::other("negative position"));
        }
        self.pos = np as u64;
        Ok(self.pos)
    }
}
