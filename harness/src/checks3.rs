//! C20: the lock of a storage file.
use crate::ck;
use crate::model::*;
use crate::proto::*;
use crate::util::*;
use brec::prelude::*;
use fs4::fs_std::FileExt;
use std::io::{BufRead, BufReader, Write};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

type W = FileStorage<'static>;

/// A scratch directory, removed with everything in it.
struct Dir(PathBuf);
impl Dir {
    fn new() -> Result<Self, String> {
        static N: AtomicUsize = AtomicUsize::new(0);
        let d = std::env::temp_dir().join(format!("brec_c20_{}_{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
        std::fs::create_dir(&d).map_err(|e| format!("scratch: {e}"))?;
        std::fs::create_dir(d.join("sub")).map_err(|e| format!("scratch: {e}"))?;
        Ok(Dir(d))
    }
    /// the same file, spelled in one of several ways
    fn spelled(&self, name: &str, how: usize) -> PathBuf {
        match how {
            0 => self.0.join(name),
            1 => self.0.join("sub").join("..").join(name),
            2 => self.0.join(".").join(name),
            _ => PathBuf::from(format!("{}//{name}", self.0.display())),
        }
    }
}
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn open(p: &Path, timeout: Option<u64>, interval: Option<u64>, by_options: bool) -> Result<W, brec::Error> {
    let t = timeout.map(Duration::from_millis);
    let i = interval.map(Duration::from_millis);
    if by_options {
        let mut o = brec::FileStorageOptions::new(p);
        if let Some(t) = t {
            o = o.timeout(t);
        }
        if let Some(i) = i {
            o = o.interval(i);
        }
        o.open::<Block, Payload, Payload>()
    } else {
        W::new(p, t, i)
    }
}

/// Somebody holds the lock file's lock: neither an exclusive nor a shared lock can be had.
fn probe(p: &Path) -> Result<bool, String> {
    let lock = p.with_extension("lock");
    if !lock.exists() {
        return Ok(false);
    }
    let take = |shared: bool| -> Result<bool, String> {
        let f = std::fs::OpenOptions::new().write(true).open(&lock).map_err(|e| e.to_string())?;
        let r = if shared { FileExt::try_lock_shared(&f) } else { FileExt::try_lock_exclusive(&f) };
        match r {
            Ok(b) => Ok(b),
            Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => Ok(false),
            Err(e) => Err(e.to_string()),
        }
    };
    let (x, s) = (take(false)?, take(true)?);
    ck_eq(x, s)?;
    Ok(!x)
}
fn ck_eq(x: bool, s: bool) -> R {
    if x != s { Err(format!("the lock can be had exclusively: {x}, shared: {s}")) } else { Ok(()) }
}

/// what a reader finds in the file
fn stored(p: &Path) -> Result<Vec<Vec<u8>>, String> {
    let f = std::fs::OpenOptions::new().read(true).write(true).open(p).map_err(|e| e.to_string())?;
    let mut r: Reader<'static, std::fs::File> = Reader::new(f).map_err(|e| format!("reader: {e}"))?;
    let mut out = vec![];
    for p in r.iter() {
        let mut p = p.map_err(|e| format!("stored packet: {e}"))?;
        let mut b = vec![];
        p.write_all(&mut b).map_err(|e| e.to_string())?;
        out.push(b);
    }
    Ok(out)
}
/// `brec_bounded hold <path> <timeout ms or ->`: the other process.
pub fn hold(path: &str, timeout: &str) -> i32 {
    let r = open(Path::new(path), timeout.parse().ok(), Some(1), false);
    match &r {
        Ok(_) => println!("held"),
        Err(brec::Error::FileIsLocked(_)) => println!("locked"),
        Err(brec::Error::TimeoutToWaitLockedFile(_)) => println!("timeout"),
        Err(e) => println!("error {e}"),
    }
    let mut line = String::new();
    let _ = std::io::stdin().read_line(&mut line);
    if line.starts_with("leave") {
        drop(r);
    }
    0
}
struct Other(Child, BufReader<std::process::ChildStdout>);
impl Other {
    fn start(p: &Path, timeout: &str) -> Result<(Self, String), String> {
        let exe = std::env::current_exe().map_err(|e| e.to_string())?;
        let mut c = Command::new(exe)
            .arg("hold")
            .arg(p)
            .arg(timeout)
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .spawn()
            .map_err(|e| e.to_string())?;
        let mut o = BufReader::new(c.stdout.take().ok_or("stdout")?);
        let mut l = String::new();
        o.read_line(&mut l).map_err(|e| e.to_string())?;
        Ok((Other(c, o), l.trim().to_string()))
    }
    fn end(mut self, kill: bool) {
        if kill {
            let _ = self.0.kill();
        } else if let Some(i) = self.0.stdin.as_mut() {
            let _ = i.write_all(b"leave\n");
        }
        let _ = self.0.wait();
    }
}
impl Drop for Other {
    fn drop(&mut self) {
        let _ = self.0.kill();
        let _ = self.0.wait();
        let _ = &self.1;
    }
}

pub fn c20(ctx: &mut Ctx) {
    ctx.group("histories", 250, "opening, refused opening, inserting, going away, in one thread", |c| {
        let d = Dir::new()?;
        let names = ["a.bin", "b", "c.x.brec"];
        let mut held: Vec<Option<W>> = vec![None, None, None];
        let mut content: Vec<Vec<Vec<u8>>> = vec![vec![], vec![], vec![]];
        let mut tr = String::new();
        for _ in 0..c.rng.range(2, 24) {
            let i = if c.rng.one_in(4) { c.rng.below(3) } else { 0 };
            let how = c.rng.below(4);
            let p = d.spelled(names[i], how);
            match c.rng.below(6) {
                0 | 1 | 2 => {
                    let t = match c.rng.below(4) {
                        0 | 1 => None,
                        2 => Some(0),
                        _ => Some(c.rng.range(1, 6) as u64),
                    };
                    let iv = if c.rng.one_in(5) { None } else { Some(c.rng.range(0, 2) as u64) };
                    let (t, iv) = if iv.is_none() && t.is_some_and(|t| t > 0) { (t, Some(1)) } else { (t, iv) };
                    let by = c.rng.bool();
                    tr.push_str(&format!(" open{i}({t:?})"));
                    let started = Instant::now();
                    let r = open(&p, t, iv, by);
                    let took = started.elapsed();
                    match (held[i].is_some(), r) {
                        (true, Ok(_)) => return Err(format!("{tr}: a second writer for one file")),
                        (true, Err(e)) => {
                            let fits = match t {
                                None => matches!(e, brec::Error::FileIsLocked(_)),
                                Some(t) => matches!(e, brec::Error::TimeoutToWaitLockedFile(_)) && took >= Duration::from_millis(t),
                            };
                            ck!(fits, "{tr}: refused after {took:?} with {e:?}");
                        }
                        (false, Ok(w)) => held[i] = Some(w),
                        (false, Err(e)) => return Err(format!("{tr}: nobody holds it, yet: {e}")),
                    }
                }
                3 => {
                    tr.push_str(&format!(" drop{i}"));
                    held[i] = None;
                }
                4 => {
                    if let Some(w) = held[i].as_mut() {
                        tr.push_str(&format!(" insert{i}"));
                        if c.rng.one_in(4) {
                            tr.push_str(" (fails)");
                            let bad = Packet::new(vec![], Some(Payload::PlRaw(PlRaw { bytes: PL_RAW_FAILS.to_vec() })));
                            ck!(w.insert(bad).is_err(), "{tr}: inserted");
                            ck!(probe(&p)?, "{tr}: the lock is gone");
                            continue;
                        }
                        let m = gen_packet(&mut c.rng, 3, 60);
                        content[i].push(m.bytes());
                        w.insert(m.packet()).map_err(|e| format!("{tr}: {e}"))?;
                    }
                }
                _ => {
                    tr.push_str(&format!(" look{i}"));
                    let h = probe(&p).map_err(|e| format!("{tr}: {e}"))?;
                    ck!(h == held[i].is_some(), "{tr}: locked: {h}, held: {}", held[i].is_some());
                    if p.exists() {
                        ck!(stored(&p).map_err(|e| format!("{tr}: {e}"))? == content[i], "{tr}: other packets than those inserted");
                    }
                }
            }
        }
        c.fp(tr.as_bytes());
        c.note(|| tr.clone());
        for i in 0..3 {
            let p = d.0.join(names[i]);
            let h = probe(&p).map_err(|e| format!("{tr}: {e}"))?;
            ck!(h == held[i].is_some(), "{tr}: at the end locked: {h}, held: {}", held[i].is_some());
            held[i] = None;
            ck!(!probe(&p)?, "{tr}: the writer is gone, the lock is not");
            if p.exists() {
                ck!(stored(&p).map_err(|e| format!("{tr}: {e}"))? == content[i], "{tr}: other packets than those inserted");
            }
        }
        Ok(())
    });
    ctx.group("refused", 30, "an opening that fails behind the lock releases it", |c| {
        let d = Dir::new()?;
        let p = d.0.join("x.bin");
        let mut w = open(&p, None, None, c.rng.bool()).map_err(|e| e.to_string())?;
        w.insert(gen_packet(&mut c.rng, 2, 30).packet()).map_err(|e| e.to_string())?;
        drop(w);
        let whole = std::fs::read(&p).map_err(|e| e.to_string())?;
        let mut bad = whole.clone();
        let at = c.rng.below(4020);
        bad[at] ^= 1 << c.rng.below(8);
        c.fpn(at as u64);
        c.note(|| format!("byte {at} of the slot damaged"));
        std::fs::write(&p, &bad).map_err(|e| e.to_string())?;
        let t = if c.rng.bool() { None } else { Some(20) };
        if (16..4020).contains(&at) || at < 8 {
            ck!(open(&p, t, Some(1), c.rng.bool()).is_err(), "a damaged storage is opened");
            ck!(!probe(&p)?, "the opening failed, the lock stays");
            ck!(std::fs::read(&p).map_err(|e| e.to_string())? == bad, "the opening failed and changed the file");
        }
        let cut = whole[..c.rng.below(whole.len())].to_vec();
        c.note(|| format!("cut to {} bytes", cut.len()));
        std::fs::write(&p, &cut).map_err(|e| e.to_string())?;
        let w = open(&p, t, Some(1), c.rng.bool());
        ck!(probe(&p)? == w.is_ok(), "opened: {}, locked: {}", w.is_ok(), w.is_err());
        drop(w);
        ck!(std::fs::read(&p).map_err(|e| e.to_string())? == cut, "a file of {} bytes is changed by opening it", cut.len());
        std::fs::write(&p, &whole).map_err(|e| e.to_string())?;
        let w = open(&p, t, Some(1), c.rng.bool()).map_err(|e| format!("after repair: {e}"))?;
        ck!(probe(&p)?, "held, but not locked");
        drop(w);
        let dir = d.0.join("sub");
        ck!(matches!(open(&dir, t, Some(1), false), Err(brec::Error::PathIsNotFile(_))), "a directory is opened");
        Ok(())
    });
    ctx.group("threads", 25, "threads which open, insert and leave: never two at once, nothing lost", |c| {
        let d = Dir::new()?;
        let p = d.0.join("t.bin");
        let inside = Arc::new(AtomicUsize::new(0));
        let done: Arc<Mutex<Vec<Vec<u8>>>> = Arc::default();
        let n = c.rng.range(2, 6);
        let rounds = c.rng.range(1, 5);
        c.fpn((n * 100 + rounds) as u64);
        c.note(|| format!("{n} threads, {rounds} rounds"));
        let mut hs = vec![];
        for k in 0..n {
            let (p, inside, done) = (d.spelled("t.bin", k % 4), inside.clone(), done.clone());
            let seed = c.rng.u64();
            hs.push(std::thread::spawn(move || -> R {
                let mut rng = Rng::new(seed);
                for _ in 0..rounds {
                    let mut w = open(&p, Some(18_000), Some(rng.below(2) as u64), rng.bool()).map_err(|e| format!("waiting: {e}"))?;
                    ck!(inside.fetch_add(1, Ordering::SeqCst) == 0, "two writers at once");
                    for _ in 0..rng.below(4) {
                        let m = gen_packet(&mut rng, 2, 30);
                        done.lock().map_err(|e| e.to_string())?.push(m.bytes());
                        w.insert(m.packet()).map_err(|e| format!("insert: {e}"))?;
                        if rng.bool() {
                            std::thread::sleep(Duration::from_micros(300));
                        }
                        ck!(inside.load(Ordering::SeqCst) == 1, "two writers at once");
                    }
                    inside.fetch_sub(1, Ordering::SeqCst);
                    drop(w);
                }
                Ok(())
            }));
        }
        let mut res = Ok(());
        for h in hs {
            match h.join() {
                Ok(r) => res = res.and(r),
                Err(_) => res = Err("a thread panicked".into()),
            }
        }
        res?;
        ck!(!probe(&p)?, "all are gone, the lock is not");
        let want = done.lock().map_err(|e| e.to_string())?.clone();
        let got = stored(&p)?;
        ck!(got == want, "{} packets were inserted in turns, {} are there (or others)", want.len(), got.len());
        Ok(())
    });
    ctx.group("waiting", 20, "a waiting writer gets in when the holder leaves, and sees what it wrote", |c| {
        let d = Dir::new()?;
        let p = d.0.join("w.bin");
        let mut want = vec![];
        let mut a = open(&p, None, None, c.rng.bool()).map_err(|e| e.to_string())?;
        let q = p.clone();
        let by = c.rng.bool();
        let b = std::thread::spawn(move || open(&q, Some(18_000), Some(1), by));
        std::thread::sleep(Duration::from_millis(c.rng.range(0, 8) as u64));
        let k = c.rng.range(1, 12);
        for _ in 0..k {
            let m = gen_packet(&mut c.rng, 2, 30);
            want.push(m.bytes());
            a.insert(m.packet()).map_err(|e| e.to_string())?;
        }
        c.fpn(k as u64);
        c.note(|| format!("{k} packets written while another waits"));
        ck!(!b.is_finished(), "the other got in while the lock was held");
        drop(a);
        let mut w = b.join().map_err(|_| "panic".to_string())?.map_err(|e| format!("waiting: {e}"))?;
        let m = gen_packet(&mut c.rng, 2, 30);
        want.push(m.bytes());
        w.insert(m.packet()).map_err(|e| e.to_string())?;
        ck!(probe(&p)?, "held, but not locked");
        drop(w);
        ck!(stored(&p)? == want, "other packets than those inserted");
        Ok(())
    });
    ctx.group("processes", 12, "another process holds it, leaves or is killed", |c| {
        let d = Dir::new()?;
        let p = d.0.join("p.bin");
        let kill = c.rng.bool();
        c.fpn(kill as u64);
        c.note(|| format!("the other process {}", if kill { "is killed" } else { "leaves" }));
        let (o, said) = Other::start(&p, "-")?;
        ck!(said == "held", "nobody holds it, the other process: {said}");
        ck!(matches!(open(&p, None, None, c.rng.bool()), Err(brec::Error::FileIsLocked(_))), "held by another process, yet opened");
        let t = c.rng.range(1, 5) as u64;
        ck!(matches!(open(&p, Some(t), Some(1), c.rng.bool()), Err(brec::Error::TimeoutToWaitLockedFile(_))), "held by another process, yet opened");
        ck!(probe(&p)?, "held, but not locked");
        o.end(kill);
        let mut w = open(&p, Some(5_000), Some(1), c.rng.bool()).map_err(|e| format!("the other process is gone: {e}"))?;
        let (o, said) = Other::start(&p, "-")?;
        ck!(said == "locked", "held here, the other process: {said}");
        o.end(true);
        let (o, said) = Other::start(&p, "3")?;
        ck!(said == "timeout", "held here, the other process: {said}");
        o.end(false);
        w.insert(gen_packet(&mut c.rng, 2, 30).packet()).map_err(|e| e.to_string())?;
        ck!(probe(&p)?, "held, but not locked");
        drop(w);
        ck!(!probe(&p)?, "all are gone, the lock is not");
        Ok(())
    });
}
