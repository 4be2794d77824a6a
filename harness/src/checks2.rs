use crate::checks1::{ename, st};
use crate::ck;
use crate::model;
use crate::model::*;
use crate::proto::*;
use crate::util::*;
use brec::prelude::*;
use std::io::{BufRead, BufReader, Cursor, Read};
use std::sync::{Arc, Mutex};

type Log = Arc<Mutex<Vec<u8>>>;

fn packets(c: &mut Case, n: usize, max_payload: usize) -> Vec<MP> {
    let mut out = Vec::new();
    while out.len() < n {
        let m = gen_packet(&mut c.rng, 4, max_payload);
        if !has_inner_sig(&m.bytes()) {
            out.push(m);
        }
    }
    out
}

fn script(c: &mut Case) -> Vec<usize> {
    match c.rng.below(7) {
        0 => vec![],
        1 => vec![1],
        2 => vec![c.rng.range(1, 40)],
        3 => (0..c.rng.range(1, 9)).map(|_| c.rng.range(1, 12)).collect(),
        4 => (0..c.rng.range(1, 9)).map(|_| c.rng.range(20, 70)).collect(),
        5 => (0..c.rng.range(1, 5)).map(|_| [1, 28, 29, 30, 8, 9, 21][c.rng.below(7)]).collect(),
        _ => (0..c.rng.range(1, 5)).map(|_| c.rng.range(1, 3000)).collect(),
    }
}

struct Run {
    found: Vec<Packet>,
    skipped: usize,
    errors: Vec<String>,
    ignored: Vec<u8>,
    calls: usize,
}
/// Reads the stream until no-data and a few calls more.
fn drive(data: Vec<u8>, script: Vec<usize>, rules: Vec<Rule<'static>>) -> Result<Run, String> {
    let n = data.len();
    let log: Log = Default::default();
    let l2 = log.clone();
    // the rules' block views carry the reader's lifetime: lend the source for 'static, free it on return
    struct Free(*mut Chunks);
    impl Drop for Free {
        fn drop(&mut self) {
            drop(unsafe { Box::from_raw(self.0) });
        }
    }
    let src = Box::into_raw(Box::new(Chunks::new(data, script)));
    let _free = Free(src);
    let mut rd = PacketBufReader::new(unsafe { &mut *src });
    let stat = n % 2 == 1;
    IGNORED.with_borrow_mut(|v| v.clear());
    rd.add_rule(brec::RuleDef::Ignored(if stat {
        brec::RuleFnDef::Static(|b: &[u8]| IGNORED.with_borrow_mut(|v| v.extend_from_slice(b)))
    } else {
        brec::RuleFnDef::Dynamic(Box::new(move |b: &[u8]| {
            l2.lock().unwrap().extend_from_slice(b);
        }))
    }))
    .map_err(|e| e.to_string())?;
    for r in rules {
        rd.add_rule(r).map_err(|e| e.to_string())?;
    }
    let mut out = Run { found: vec![], skipped: 0, errors: vec![], ignored: vec![], calls: 0 };
    let limit = 3 * n + 40;
    loop {
        out.calls += 1;
        ck!(out.calls <= limit, "no end after {limit} calls on {n} bytes");
        match rd.read() {
            Ok(NextPacket::Found(p)) => out.found.push(p),
            Ok(NextPacket::Skipped) => out.skipped += 1,
            Ok(NextPacket::NoData) => break,
            Ok(NextPacket::NotFound) | Ok(NextPacket::NotEnoughData(_)) => {}
            Err(e) => out.errors.push(ename(&e)),
        }
    }
    for _ in 0..4 {
        match rd.read() {
            Ok(NextPacket::NoData) => {}
            Ok(NextPacket::Found(_)) => return Err("a packet after no-data".into()),
            Ok(_) => return Err("not no-data after no-data".into()),
            Err(e) => return Err(format!("error after no-data: {e}")),
        }
    }
    drop(rd);
    out.ignored = if stat { IGNORED.with_borrow(|v| v.clone()) } else { log.lock().unwrap().clone() };
    Ok(out)
}
thread_local! {
    /// what the static callbacks saw: ignored bytes, calls
    static IGNORED: std::cell::RefCell<Vec<u8>> = const { std::cell::RefCell::new(vec![]) };
    static CALLS: std::cell::RefCell<Vec<u64>> = const { std::cell::RefCell::new(vec![]) };
}

fn litter_len(c: &mut Case) -> usize {
    match c.rng.below(8) {
        0 | 1 => 0,
        2 => c.rng.range(1, 9),
        3 => c.rng.range(20, 31),
        4 => c.rng.range(1, 60),
        5 => c.rng.range(1, 200),
        6 => c.rng.range(1, 40),
        _ => if c.rng.one_in(6) { c.rng.range(8000, 17000) } else { c.rng.range(1, 500) },
    }
}

fn same_list(want: &[&MP], got: &[Packet]) -> R {
    for (i, p) in got.iter().enumerate() {
        ck!(i < want.len(), "{} packets delivered, {} written", got.len(), want.len());
        ck!(want[i].same(p), "packet {i} differs: blocks={:?} payload={:?}", p.blocks, p.payload);
    }
    ck!(got.len() == want.len(), "{} packets delivered, {} written", got.len(), want.len());
    Ok(())
}

pub fn c08(ctx: &mut Ctx) {
    ctx.group("litter_and_chunks", 5000, "valid packets, litter before/between/after, scripted chunk sizes", |c| {
        let n = c.rng.below(6);
        let maxp = if c.rng.one_in(12) { 12000 } else { c.scale(150) };
        let ps = packets(c, n, maxp);
        let clean = c.rng.one_in(4);
        let (mut data, mut lit) = (vec![], vec![]);
        for i in 0..=n {
            if !clean {
                let k = litter_len(c);
                let l = c.rng.litter(k);
                data.extend_from_slice(&l);
                lit.extend_from_slice(&l);
            }
            if i < n {
                data.extend(ps[i].bytes());
            }
        }
        let s = script(c);
        c.fp(&data);
        c.fpn(s.iter().fold(7, |a, b| a * 31 + *b as u64));
        c.note(|| format!("{n} packets, chunk script {s:?}, stream ({} bytes) {}", data.len(), hex(&data)));
        if data.is_empty() {
            c.trivial = true;
        }
        let run = drive(data, s, vec![])?;
        ck!(run.errors.is_empty(), "errors on a stream of valid packets: {:?}", run.errors);
        same_list(&ps.iter().collect::<Vec<_>>(), &run.found)?;
        ck!(run.skipped == 0, "skipped without rules");
        ck!(run.ignored == lit, "ignored bytes {} expected {}", hex(&run.ignored), hex(&lit));
        Ok(())
    });
    ctx.group("corruption", 6000, "one packet of several damaged in header, blocks, payload; following packets still delivered", |c| {
        let n = c.rng.range(2, 5);
        let mut ps = packets(c, n, 120);
        let v = c.rng.below(n);
        // the damaged packet's types have CRC
        ps[v].blocks.retain(|b| !matches!(b, Block::BlkFree(..)));
        if ps[v].payload.as_ref().is_some_and(|p| !has_crc(p)) {
            ps[v].payload = Some(Payload::Bytes(c.rng.litter(20)));
        }
        let mut data = vec![];
        let lead = litter_len(c).min(200);
        data.extend(c.rng.litter(lead));
        let mut at = 0;
        for i in 0..n {
            let mut b = ps[i].bytes();
            if i == v {
                at = if c.rng.bool() { c.rng.below(29) } else { c.rng.below(b.len()) };
                let old = b[at];
                b[at] ^= 1 << c.rng.below(8);
                if c.rng.one_in(3) {
                    b[at] = c.rng.u8();
                }
                if b[at] == old || (at < 8 && false) {
                    c.trivial = true;
                    return Ok(());
                }
            }
            data.extend(b);
            if c.rng.one_in(3) {
                let k = c.rng.below(40);
                data.extend(c.rng.litter(k));
            }
        }
        let s = script(c);
        c.fp(&data);
        c.note(|| format!("{n} packets, packet {v} damaged at byte {at}, chunk script {s:?}, stream {}", hex(&data)));
        let run = drive(data, s, vec![])?;
        // everything delivered is a written packet, in order; all but the damaged one are delivered
        let without: Vec<&MP> = ps.iter().enumerate().filter(|(i, _)| *i != v).map(|(_, p)| p).collect();
        if run.found.len() == n {
            same_list(&ps.iter().collect::<Vec<_>>(), &run.found)
        } else {
            same_list(&without, &run.found)
        }
    });
    ctx.group("truncated_end", 2000, "the stream ends inside the last packet", |c| {
        let n = c.rng.range(1, 4);
        let ps = packets(c, n, 100);
        let mut data = vec![];
        for p in &ps {
            data.extend(p.bytes());
        }
        let cutn = c.rng.range(1, ps[n - 1].bytes().len() - 1);
        data.truncate(data.len() - cutn);
        let s = script(c);
        c.fp(&data);
        c.note(|| format!("{n} packets, {cutn} bytes missing, chunk script {s:?}, stream {}", hex(&data)));
        let run = drive(data, s, vec![])?;
        same_list(&ps[..n - 1].iter().collect::<Vec<_>>(), &run.found)?;
        ck!(run.errors.is_empty(), "errors: {:?}", run.errors);
        Ok(())
    });
}

fn wr(f: &Shared) -> Result<Writer<'static, Shared>, String> {
    Writer::new(f.handle()).map_err(|e| format!("writer: {e}"))
}
fn rd(f: &Shared) -> Result<Reader<'static, Shared>, String> {
    Reader::new(f.handle()).map_err(|e| format!("reader: {e}"))
}

/// Small packets, so that histories of many slots stay cheap.
fn small(c: &mut Case) -> MP {
    match c.rng.below(4) {
        0 => MP { blocks: vec![], payload: None },
        1 => MP { blocks: vec![gen_block_kind(&mut c.rng, 3)], payload: None },
        2 => {
            let n = c.rng.below(9);
            MP { blocks: vec![], payload: Some(Payload::Bytes(c.rng.bytes(n))) }
        }
        _ => {
            let n = c.rng.below(30);
            MP { blocks: vec![gen_block_kind(&mut c.rng, 3), gen_block_kind(&mut c.rng, 0)], payload: Some(Payload::Bytes(c.rng.bytes(n))) }
        }
    }
}
fn body_byte_even(m: &MP) -> bool {
    m.payload.as_ref().map(|p| payload_parts(p).2.len() % 2 == 0).unwrap_or(true)
}

fn access(c: &mut Case, r: &mut Reader<'static, Shared>, ps: &[MP], full: bool) -> R {
    let n = ps.len();
    ck!(r.count() == n, "count() = {}, {n} inserted", r.count());
    let mut probes: Vec<usize> = vec![0, 1, n / 2, n.saturating_sub(1), n, n + 1, 499, 500, 501, 999, 1000, 1001, 1499, 1500, 1501, usize::MAX];
    for _ in 0..if full { 12 } else { 3 } {
        probes.push(c.rng.below(n + 3));
    }
    for i in &probes {
        match r.nth(*i) {
            Ok(Some(p)) => ck!(*i < n && ps[*i].same(&p), "nth({i}) of {n}: another packet {:?} {:?}", p.blocks, p.payload),
            Ok(None) => ck!(*i >= n, "nth({i}) of {n}: nothing"),
            Err(e) => return Err(format!("nth({i}) of {n}: {e}")),
        }
    }
    if !full {
        return Ok(());
    }
    let check = |w: &str, want: &[&MP], it: &mut dyn Iterator<Item = Result<Packet, Error>>| -> R {
        let mut k = 0;
        for p in it {
            let p = p.map_err(|e| format!("{w}: item {k}: {e}"))?;
            ck!(k < want.len(), "{w}: more than {} packets", want.len());
            ck!(want[k].same(&p), "{w}: item {k} differs: {:?} {:?}", p.blocks, p.payload);
            k += 1;
        }
        ck!(k == want.len(), "{w}: {k} packets, expected {}", want.len());
        Ok(())
    };
    let all: Vec<&MP> = ps.iter().collect();
    check("iter", &all, &mut r.iter())?;
    for i in &probes {
        match r.seek(*i) {
            Ok(mut it) => {
                ck!(*i < n, "seek({i}) of {n} succeeded");
                check(&format!("seek({i})"), &all[*i..], &mut it)?;
            }
            Err(e) => ck!(*i >= n, "seek({i}) of {n}: {e}"),
        }
        let len = [0, 1, 2, 7, 499, 500, 501, 1200, usize::MAX][c.rng.below(9)];
        let a = (*i).min(n);
        let b = i.saturating_add(len).min(n);
        check(&format!("range({i}, {len})"), &all[a..b.max(a)], &mut r.range(*i, len))?;
    }
    // rules
    let mask = c.rng.below(8);
    if mask & 1 != 0 {
        r.add_rule(brec::RuleDef::FilterByBlocks(brec::RuleFnDef::Dynamic(Box::new(|b: &[BlockReferred<'_>]| b.len() != 1)))).map_err(|e| e.to_string())?;
    }
    if mask & 2 != 0 {
        r.add_rule(brec::RuleDef::FilterByPayload(brec::RuleFnDef::Dynamic(Box::new(|b: &[u8]| b.len() % 2 == 0)))).map_err(|e| e.to_string())?;
    }
    if mask & 4 != 0 {
        r.add_rule(brec::RuleDef::Filter(brec::RuleFnDef::Dynamic(Box::new(|p: &Packet| p.payload.is_some())))).map_err(|e| e.to_string())?;
    }
    let pass = |m: &MP| (mask & 1 == 0 || m.blocks.len() != 1) && (mask & 2 == 0 || body_byte_even(m)) && (mask & 4 == 0 || m.payload.is_some());
    let want: Vec<&MP> = ps.iter().filter(|m| pass(m)).collect();
    check(&format!("filtered (rules {mask:03b})"), &want, &mut r.filtered())?;
    for i in &probes {
        let len = [0, 1, 2, 7, 499, 500, 501, 1200, usize::MAX][c.rng.below(9)];
        let want: Vec<&MP> = ps.iter().skip(*i).filter(|m| pass(m)).take(len).collect();
        check(&format!("range_filtered({i}, {len}) (rules {mask:03b})"), &want, &mut r.range_filtered(*i, len))?;
    }
    r.remove_rule(brec::RuleDefId::FilterByBlocks);
    r.remove_rule(brec::RuleDefId::FilterByPayload);
    r.remove_rule(brec::RuleDefId::Filter);
    Ok(())
}

pub fn c09(ctx: &mut Ctx) {
    ctx.group("histories", 60, "inserts up to four slots with reopening at random points; every access path", |c| {
        let n = [0, 1, 2, 37, 499, 500, 501, 777, 999, 1000, 1001, 1499, 1500, 1501, 1700][c.index as usize % 15];
        c.note(|| format!("{n} inserts"));
        let f = Shared::new();
        let mut w = wr(&f)?;
        let mut ps = Vec::new();
        for i in 0..n {
            if c.rng.one_in(200) || (i % 500 == 0 && c.rng.bool()) || (i % 500 == 499 && c.rng.bool()) {
                c.note(|| format!("reopened after {i}"));
                w = wr(&f)?;
            }
            let m = small(c);
            w.insert(m.packet()).map_err(|e| format!("insert {i}: {e}"))?;
            ps.push(m);
        }
        c.fp(&f.dump());
        access(c, &mut rd(&f)?, &ps, true)
    });
    ctx.group("short_histories", 400, "few inserts of larger packets, reader opened after each", |c| {
        let n = c.rng.below(12);
        let step = if c.rng.bool() { 0 } else { [1usize, 3, 7, 100, 1000, 4000][c.rng.below(6)] };
        c.note(|| format!("storage taking at most {step} bytes per call (0: any)"));
        let f = Shared::stepped(step);
        let mut w = wr(&f)?;
        let mut ps = Vec::new();
        for _ in 0..n {
            if c.rng.one_in(3) {
                w = wr(&f)?;
            }
            let most = c.scale(400);
            let m = gen_packet(&mut c.rng, 5, most);
            w.insert(m.packet()).map_err(|e| e.to_string())?;
            ps.push(m);
            access(c, &mut rd(&f)?, &ps, c.rng.clone().one_in(4))?;
        }
        c.fp(&f.dump());
        c.note(|| format!("{n} inserts, at most {step} bytes per call (0: any)"));
        access(c, &mut rd(&f)?, &ps, true)
    });
    ctx.all("real_file", 1, "505 inserts into a file of the file system", |c| {
        let dir = std::env::temp_dir().join(format!("brec_bounded_{}", std::process::id()));
        std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
        let path = dir.join("s.bin");
        let go = |c: &mut Case| -> R {
            let mut ps = Vec::new();
            for _ in 0..5 {
                let fh = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(&path).map_err(|e| e.to_string())?;
                let mut w: Writer<'_, std::fs::File> = Writer::new(fh).map_err(|e| e.to_string())?;
                for _ in 0..101 {
                    let m = small(c);
                    w.insert(m.packet()).map_err(|e| e.to_string())?;
                    ps.push(m);
                }
            }
            let bytes = std::fs::read(&path).map_err(|e| e.to_string())?;
            c.fp(&bytes);
            access(c, &mut rd(&Shared::of(bytes))?, &ps, true)
        };
        let r = go(c);
        let _ = std::fs::remove_dir_all(&dir);
        r
    });
}

pub fn c10(ctx: &mut Ctx) {
    ctx.group("layout", 24, "inserts up to three slots with reopening; the file compared with the layout", |c| {
        let n = [1, 3, 40, 499, 500, 501, 999, 1000, 1001, 1200, 120, 502][c.index as usize % 12];
        c.note(|| format!("{n} inserts"));
        let f = Shared::new();
        let mut w = wr(&f)?;
        let mut ps: Vec<Vec<u8>> = Vec::new();
        for i in 0..n {
            if c.rng.one_in(100) || (i % 500 >= 498 && c.rng.bool()) || (i % 500 <= 1 && c.rng.bool()) {
                w = wr(&f)?;
            }
            let m = if c.rng.one_in(10) { gen_packet(&mut c.rng, 3, 100) } else { small(c) };
            let before = f.dump();
            w.insert(m.packet()).map_err(|e| format!("insert {i}: {e}"))?;
            ps.push(m.bytes());
            let near = i % 500 >= 495 || i % 500 <= 3 || i + 1 == n || i % 97 == 0;
            if near {
                let got = f.dump();
                let want = model::storage(&ps);
                if got != want {
                    let at = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
                    return Err(format!("after insert {i} the storage ({} bytes, expected {}) differs at byte {at}", got.len(), want.len()));
                }
            } else {
                let got = f.dump();
                ck!(got.len() == before.len() + ps[i].len() && got.ends_with(&ps[i]), "insert {i}: the storage grew by {} bytes, packet has {}", got.len() as i64 - before.len() as i64, ps[i].len());
            }
        }
        c.fp(&f.dump());
        Ok(())
    });
    ctx.group("every_insert", 150, "short histories, the whole file after every insert, reopening at random", |c| {
        let n = c.rng.range(1, 25);
        let step = if c.rng.bool() { 0 } else { [1usize, 3, 7, 100, 1000, 4000][c.rng.below(6)] };
        c.note(|| format!("storage taking at most {step} bytes per call (0: any)"));
        let f = Shared::stepped(step);
        let mut w = wr(&f)?;
        let mut ps: Vec<Vec<u8>> = Vec::new();
        for i in 0..n {
            if c.rng.one_in(3) {
                w = wr(&f)?;
            }
            let most = c.scale(300);
            let m = gen_packet(&mut c.rng, 4, most);
            w.insert(m.packet()).map_err(|e| format!("insert {i}: {e}"))?;
            ps.push(m.bytes());
            ck!(f.dump() == model::storage(&ps), "after insert {i} the storage differs from the layout");
        }
        c.fp(&f.dump());
        c.note(|| format!("{n} inserts"));
        Ok(())
    });
    ctx.group("torn_tail", 300, "bytes lost or left over behind the last packet, then more inserts: each packet lies where the table says", |c| {
        let n = c.rng.range(1, 6);
        let mut ps: Vec<Vec<u8>> = Vec::new();
        let f = Shared::new();
        let mut w = wr(&f)?;
        for i in 0..n {
            let m = gen_packet(&mut c.rng, 3, 60);
            w.insert(m.packet()).map_err(|e| format!("insert {i}: {e}"))?;
            ps.push(m.bytes());
        }
        let last = ps[n - 1].len();
        let mut d = f.dump();
        let end = d.len();
        let (lost, extra) = match c.rng.below(3) {
            0 => (c.rng.range(1, last), 0),
            1 => (0, c.rng.range(1, 7)),
            _ => (0, 0),
        };
        d.truncate(end - lost);
        d.extend(vec![0xEE; extra]);
        let f = Shared::of(d);
        let mut w = wr(&f)?;
        let k = c.rng.range(1, 4);
        for i in 0..k {
            let m = gen_packet(&mut c.rng, 3, 60);
            w.insert(m.packet()).map_err(|e| format!("insert {i} after {lost} lost and {extra} extra bytes: {e}"))?;
            ps.push(m.bytes());
        }
        let got = f.dump();
        let want = model::storage(&ps);
        c.fp(&want);
        c.note(|| format!("{n} packets, {lost} bytes lost, {extra} extra, then {k} packets"));
        ck!(got.len() >= want.len(), "{} bytes, expected {}", got.len(), want.len());
        for j in 0..want.len() {
            ck!(got[j] == want[j] || (end - lost..end).contains(&j), "byte {j} is {} and not {} (the first {n} packets end at {end})", got[j], want[j]);
        }
        Ok(())
    });
}

pub fn c11(ctx: &mut Ctx) {
    ctx.group("slots", 4000, "slots of capacity 0..40 and 500, used prefix of any length; codec, arithmetic, insert", |c| {
        let cap = match c.rng.below(6) {
            0 => c.rng.below(3),
            1 => if c.rng.one_in(5) { 500 } else { 17 },
            _ => c.rng.below(40),
        };
        let used = if c.rng.one_in(4) { cap } else { c.rng.below(cap + 1) };
        let mut lens: Vec<u64> = (0..used).map(|_| 1 + (c.rng.int() >> 16)).collect();
        lens.resize(cap, 0);
        c.fpn(cap as u64);
        for l in &lens {
            c.fpn(*l);
        }
        c.note(|| format!("capacity {cap} used {used} lengths {:?}", &lens[..used.min(40)]));
        let enc = model::slot(cap as u64, &lens);
        let crc: [u8; 4] = enc[enc.len() - 4..].try_into().unwrap();
        let mut w = wr(&Shared::new())?;
        w.insert(Packet::new(vec![], None)).map_err(|e| e.to_string())?;
        let mut s = w.slots.pop().ok_or("no slot")?;
        s.lenghts = lens.clone();
        s.capacity = cap as u64;
        s.overwrite_crc();
        ck!(s.crc == crc, "crc {:?} expected {crc:?}", s.crc);
        // encode
        let mut v = vec![];
        s.write_all(&mut v).map_err(|e| e.to_string())?;
        ck!(v == enc, "encoded {} expected {}", hex(&v), hex(&enc));
        let mut v = vec![];
        let n = s.write(&mut v).map_err(|e| e.to_string())?;
        ck!(v == enc && n == enc.len(), "write: {n} bytes, {} expected {}", v.len(), enc.len());
        ck!(brec::Size::size(&s) == enc.len() as u64, "size() = {}, encoded {}", brec::Size::size(&s), enc.len());
        // decode
        let pre = c.rng.below(9);
        let mut d = c.rng.bytes(pre);
        d.extend_from_slice(&enc);
        d.extend(c.rng.bytes(20));
        let mut src = Src::new(d.clone(), pre as u64, c.rng.below(4));
        fn rd_like<T: ReadFrom>(_: &T, s: &mut Src) -> Result<T, Error> {
            T::read(s)
        }
        fn try_like<T: TryReadFrom>(_: &T, s: &mut Src) -> Result<ReadStatus<T>, Error> {
            T::try_read(s)
        }
        let a = rd_like(&s, &mut src).map_err(|e| format!("read: {e}"))?;
        ck!(a.lenghts == lens && a.capacity == cap as u64 && a.crc == crc, "read gives {:?}", a);
        ck!(src.pos as usize == pre + enc.len(), "read took {} bytes", src.pos as usize - pre);
        src.pos = pre as u64;
        match try_like(&s, &mut src) {
            Ok(ReadStatus::Success(a)) => ck!(a.lenghts == lens && a.capacity == cap as u64 && a.crc == crc, "try_read gives {:?}", a),
            r => return Err(format!("try_read: {}", st(&r))),
        }
        ck!(src.pos as usize == pre + enc.len(), "try_read took {} bytes", src.pos as usize - pre);
        // damage
        let mut bad = d.clone();
        let i = if c.rng.bool() { c.rng.below(enc.len()) } else { [0, 7, 8, 9, enc.len() - 1, enc.len() - 4][c.rng.below(6)] };
        bad[pre + i] ^= 1 << c.rng.below(8);
        for way in 0..2 {
            let mut src = Src::new(bad.clone(), pre as u64, 0);
            let got = if way == 0 {
                match rd_like(&s, &mut src) { Ok(_) => "accepted".to_string(), Err(e) => ename(&e) }
            } else {
                match try_like(&s, &mut src) {
                    Ok(ReadStatus::Success(_)) => "accepted".to_string(),
                    Ok(_) => "NotEnoughData".into(),
                    Err(e) => ename(&e),
                }
            };
            ck!(got != "accepted", "a slot with byte {i} changed was accepted (way {way})");
            if i < 8 {
                ck!(got == "SignatureDismatch", "wrong signature: {got} (way {way})");
            } else if i >= 16 {
                ck!(got == "CrcDismatch", "wrong CRC: {got} (way {way})");
            }
        }
        // truncation
        let k = c.rng.below(enc.len());
        let mut src = Src::new(enc[..k].to_vec(), 0, 0);
        ck!(rd_like(&s, &mut src).is_err(), "read accepted {k} bytes of {}", enc.len());
        let mut src = Src::new(enc[..k].to_vec(), 0, 0);
        ck!(matches!(try_like(&s, &mut src), Ok(ReadStatus::NotEnoughData(_))), "try_read accepted or failed on {k} bytes of {}", enc.len());
        // arithmetic
        let sum: u64 = lens.iter().sum();
        let size = enc.len() as u64;
        ck!(s.width() == sum, "width {} expected {sum}", s.width());
        let fi = if used < cap { Some(used) } else { None };
        ck!(s.get_free_slot_index() == fi, "free index {:?} expected {fi:?}", s.get_free_slot_index());
        ck!(s.get_free_slot_offset() == fi.map(|_| size + sum), "free offset {:?}", s.get_free_slot_offset());
        ck!(s.count() == used, "count {} expected {used}", s.count());
        ck!(s.is_full() == (used == cap && cap > 0), "is_full {}", s.is_full());
        let mut off = 0;
        for (i, l) in lens.iter().enumerate() {
            ck!(s.get_slot_offset(i) == Some(size + off), "offset of item {i}: {:?} expected {}", s.get_slot_offset(i), size + off);
            ck!(s.is_empty(i).ok() == Some(*l == 0), "is_empty({i})");
            ck!(s.is_used(i) == (*l > 0), "is_used({i})");
            let want = if i < used || i == 0 { Some(off) } else { None };
            ck!(s.offset_of(i) == want, "offset_of({i}) = {:?} expected {want:?}", s.offset_of(i));
            off += l;
        }
        ck!(s.is_empty(cap).is_err() && !s.is_used(cap) && s.get_slot_offset(cap).is_none(), "beyond the table");
        let rs: Vec<_> = s.iter().collect();
        ck!(rs.len() == used, "iter gives {} ranges, {used} used", rs.len());
        let mut off = size;
        for (i, r) in rs.iter().enumerate() {
            ck!(*r.start() == off && *r.end() == off + lens[i], "range {i}: {r:?} expected {off}..{}", off + lens[i]);
            off += lens[i];
        }
        // insert
        let l = 1 + (c.rng.int() >> 16);
        let r = s.insert(l);
        ck!(r.is_ok() == (used < cap), "insert into a slot with {used} of {cap}: {:?}", r.map_err(|e| ename(&e)));
        if used < cap {
            lens[used] = l;
        }
        ck!(s.lenghts == lens && s.capacity == cap as u64, "insert changed something else");
        let enc = model::slot(cap as u64, &lens);
        ck!(s.crc == enc[enc.len() - 4..], "crc after insert");
        Ok(())
    });
    ctx.group("damaged_storage", 600, "storages with a damaged slot are refused by reader and writer", |c| {
        let n = if c.rng.one_in(8) { 503 } else { c.rng.range(1, 6) };
        let ps: Vec<Vec<u8>> = (0..n).map(|_| small(c).bytes()).collect();
        let mut d = model::storage(&ps);
        let second = 500 < n && c.rng.bool();
        let base = if second { model::slot(500, &vec![0; 500]).len() + ps[..500].iter().map(|p| p.len()).sum::<usize>() } else { 0 };
        let i = match c.rng.below(4) {
            0 => c.rng.below(8),
            1 => 4016 + c.rng.below(4),
            2 => 16 + 8 * c.rng.below(n.min(500)) + c.rng.below(8),
            _ => 16 + c.rng.below(4000),
        };
        d[base + i] ^= 1 << c.rng.below(8);
        c.fpn(i as u64);
        c.fp(&d);
        c.note(|| format!("{n} packets, slot {} byte {i} changed", second as u8));
        match Reader::new(Shared::of(d.clone())) {
            Ok(_) => return Err("the reader accepted a damaged slot".into()),
            Err(e) => ck!(ename(&e) == "DamagedSlot", "reader: {e:?}"),
        }
        let f: Result<Writer<'_, Shared>, Error> = Writer::new(Shared::of(d));
        match f {
            Ok(_) => Err("the writer accepted a damaged slot".into()),
            Err(e) => {
                ck!(ename(&e) == "DamagedSlot", "writer: {e:?}");
                Ok(())
            }
        }
    });
}

pub fn c12(ctx: &mut Ctx) {
    ctx.group("short_writes", 30000, "lists with empty slices; sinks taking 1.., zero, failing", |c| short_writes(c, 7, 12, [0, 3, 20]));
    ctx.group("long_lists", 200, "up to 1400 slices, sinks taking some or many of them at once", |c| short_writes(c, 1400, 12, [30, 2000, 20000]));
    ctx.group("long_slices", 200, "slices of up to 90000 bytes, sinks taking parts or several of them", |c| short_writes(c, 5, 90000, [3000, 70000, 200000]));
}

fn short_writes(c: &mut Case, slices: usize, size: usize, takes: [usize; 3]) -> R {
    {
        let n = c.rng.below(slices);
        let parts: Vec<Vec<u8>> = (0..n)
            .map(|_| {
                let k = if c.rng.one_in(4) { 0 } else { c.rng.below(size) };
                c.rng.bytes(k)
            })
            .collect();
        let all: Vec<u8> = parts.concat();
        let mut sl = IoSlices::default();
        let mut second = IoSlices::default();
        let split = c.rng.below(n + 1);
        for (i, p) in parts.iter().enumerate() {
            let t = if i < split { &mut sl } else { &mut second };
            if c.rng.bool() { t.add_slice(p) } else { t.add_buffered(p.clone()) }
        }
        sl.append(second);
        let got: Vec<u8> = sl.get().iter().flat_map(|s| s.to_vec()).collect();
        ck!(got == all && sl.get().len() == n, "get() gives {} expected {}", hex(&got), hex(&all));
        let bad = c.rng.one_in(3);
        let k = c.rng.below(all.len().min(400) + 2);
        let script: Vec<i64> = (0..k)
            .map(|_| if bad && c.rng.one_in(6) { -(c.rng.below(2) as i64) } else { { let t = 1 + takes[c.rng.below(3)]; c.rng.range(1, t) as i64 } })
            .collect();
        c.fp(&all);
        c.fpn(script.iter().fold(3u64, |a, b| a.wrapping_mul(31).wrapping_add(*b as u64)));
        c.note(|| format!("parts {parts:?} sink script {script:?}"));
        let mut sink = Sink::new(script.clone());
        let r = sl.write_vectored_all(&mut sink);
        // oracle
        let (mut left, mut want) = (all.len(), "ok");
        for v in &script {
            if left == 0 {
                break;
            }
            if *v == 0 {
                want = "zero";
                break;
            }
            if *v < 0 {
                want = "fail";
                break;
            }
            left -= (*v as usize).min(left);
        }
        let done = if want == "ok" { all.len() } else { all.len() - left };
        let got = match &r {
            Ok(()) => "ok",
            Err(e) if e.kind() == std::io::ErrorKind::WriteZero => "zero",
            Err(_) => "fail",
        };
        ck!(got == want, "result {got}, expected {want}");
        ck!(sink.got == all[..done], "sink has {} expected {}", hex(&sink.got), hex(&all[..done]));
        Ok(())
    }
}

/// A BufRead with scripted buffer sizes which fails at scripted fill_buf calls.
struct Flaky {
    data: Vec<u8>,
    pos: usize,
    script: Vec<usize>,
    at: usize,
    cur: usize,
    fails: Vec<usize>,
    calls: usize,
}
impl Read for Flaky {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let n = {
            let mut b = self.fill_buf()?;
            b.read(buf)?
        };
        self.consume(n);
        Ok(n)
    }
}
impl BufRead for Flaky {
    fn fill_buf(&mut self) -> std::io::Result<&[u8]> {
        self.calls += 1;
        if self.fails.contains(&self.calls) {
            return Err(std::io::Error::other("source failed"));
        }
        if self.cur == 0 && self.pos < self.data.len() {
            let k = self.script[self.at % self.script.len()];
            self.at += 1;
            self.cur = k.min(self.data.len() - self.pos);
        }
        Ok(&self.data[self.pos..self.pos + self.cur])
    }
    fn consume(&mut self, n: usize) {
        assert!(n <= self.cur, "consumed {n} bytes of {} buffered", self.cur);
        self.pos += n;
        self.cur -= n;
    }
}

pub fn c13(ctx: &mut Ctx) {
    ctx.group("interleavings", 30000, "random refill/read/fill_buf/consume/len sequences over scripted and failing sources", |c| interleave(c, 120, 13, 24, 60));
    ctx.group("large", 300, "the same over up to 200000 bytes in buffers of up to 20000", |c| interleave(c, 200_000, 20_000, 15_000, 60));
    c13_blocks(ctx);
}

fn interleave(c: &mut Case, total: usize, buffer: usize, ask: usize, ops: usize) -> R {
    {
        let n = c.rng.below(total);
        let data = c.rng.bytes(n);
        let script: Vec<usize> = (0..c.rng.range(1, 6)).map(|_| c.rng.range(1, buffer + 1)).collect();
        let fails: Vec<usize> = if c.rng.one_in(3) { (0..3).map(|_| c.rng.range(1, 30)).collect() } else { vec![] };
        c.fp(&data);
        let mut inner = Flaky { data: data.clone(), pos: 0, script: script.clone(), at: 0, cur: 0, fails: fails.clone(), calls: 0 };
        let mut b = BufferedReader::new(&mut inner);
        let mut got: Vec<u8> = vec![];
        let mut trace = format!("{n} bytes, source buffers {script:?}, failing calls {fails:?}:");
        let mut pre = 0usize; // preloaded bytes, by the model
        let verbose = c.verbose;
        for _ in 0..ops {
            let op = c.rng.below(7);
            c.fpn(op as u64);
            match op {
                0 => {
                    trace.push_str(" refill");
                    let l0 = b.len();
                    if b.refill().is_ok() {
                        if let Ok(l0) = l0 {
                            pre = l0;
                            // nothing is delivered by it
                            let view = b.fill_buf().map(|v| v.to_vec());
                            if let Ok(v) = view {
                                ck!(v.len() >= pre, "{trace}: {} bytes visible after refill, {pre} preloaded", v.len());
                            }
                        } else {
                            pre = 0;
                        }
                    }
                }
                1 | 2 => {
                    let k = c.rng.below(ask);
                    trace.push_str(&format!(" read({k})"));
                    let mut o = vec![0; k];
                    match b.read(&mut o) {
                        Ok(r) => {
                            ck!(r <= k, "{trace}: read gave {r}");
                            ck!(k == 0 || r > 0 || got.len() == n, "{trace}: read gave nothing, {} of {n} delivered", got.len());
                            got.extend_from_slice(&o[..r]);
                            pre = pre.saturating_sub(r);
                        }
                        Err(e) => ck!(e.to_string() == "source failed", "{trace}: {e}"),
                    }
                }
                3 | 4 => {
                    trace.push_str(" fill+consume");
                    let v = match b.fill_buf() {
                        Ok(v) => v.to_vec(),
                        Err(_) => continue,
                    };
                    ck!(v.len() >= pre.min(n - got.len()), "{trace}: fill_buf shows {} bytes, {pre} preloaded", v.len());
                    ck!(data[got.len()..].starts_with(&v), "{trace}: fill_buf shows {} after {} delivered, expected {}", hex(&v), got.len(), hex(&data[got.len()..]));
                    ck!(!v.is_empty() || got.len() == n, "{trace}: fill_buf is empty, {} of {n} delivered", got.len());
                    let k = match c.rng.below(4) {
                        0 => 0,
                        1 => v.len(),
                        _ => c.rng.below(v.len() + 1),
                    };
                    trace.push_str(&format!("({k})"));
                    b.consume(k);
                    got.extend_from_slice(&v[..k]);
                    pre = pre.saturating_sub(k);
                }
                5 => {
                    trace.push_str(" len");
                    if let Ok(l) = b.len() {
                        if let Ok(v) = b.fill_buf() {
                            ck!(v.len() == l, "{trace}: len() = {l}, fill_buf shows {}", v.len());
                        }
                        if let Ok(e) = b.is_empty() {
                            ck!(e == (l == 0), "{trace}: is_empty() = {e}, len() = {l}");
                        }
                    }
                }
                _ => {
                    trace.push_str(" buffer_len");
                    if let (Ok(x), Ok(l)) = (b.buffer_len(), b.len()) {
                        ck!(l >= x, "{trace}: buffer_len {x} > len {l}");
                    }
                }
            }
            ck!(b.consumed() == got.len(), "{trace}: consumed() = {}, {} delivered", b.consumed(), got.len());
            ck!(data.starts_with(&got), "{trace}: delivered {} of {}", hex(&got), hex(&data));
        }
        // the rest
        let mut stop = 0;
        loop {
            let mut o = vec![0u8; ask];
            match b.read(&mut o) {
                Ok(0) => break,
                Ok(r) => got.extend_from_slice(&o[..r]),
                Err(_) => {
                    stop += 1;
                    ck!(stop < 40, "{trace}: fails for ever");
                }
            }
        }
        if verbose {
            c.note(|| trace.clone());
        }
        ck!(got == data && b.consumed() == n, "{trace}: delivered {} expected {}, consumed() {}", hex(&got), hex(&data), b.consumed());
        Ok(())
    }
}

fn c13_blocks(ctx: &mut Ctx) {
    ctx.group("blocks_through_it", 1500, "blocks decoded through the wrapper from small source buffers", |c| {
        let n = c.rng.range(1, 6);
        let bs: Vec<Block> = (0..n).map(|_| gen_block(&mut c.rng)).collect();
        let data: Vec<u8> = bs.iter().flat_map(block).collect();
        c.fp(&data);
        let cap = c.rng.range(1, 60);
        c.note(|| format!("source buffer {cap}, {}", hex(&data)));
        let mut inner = BufReader::with_capacity(cap, Cursor::new(data.clone()));
        let mut b = BufferedReader::new(&mut inner);
        let mut out = vec![];
        let mut spins = 0;
        while out.len() < n {
            // the whole block is preloaded, so that nothing is consumed on not-enough-data
            while b.len().map_err(|e| e.to_string())? < 800 {
                let before = b.len().map_err(|e| e.to_string())?;
                b.refill().map_err(|e| e.to_string())?;
                if b.len().map_err(|e| e.to_string())? == before {
                    break;
                }
            }
            match <Block as TryReadFromBuffered>::try_read(&mut b) {
                Ok(ReadStatus::Success(x)) => out.push(x),
                r => return Err(format!("block {}: {}", out.len(), st(&r))),
            }
            spins += 1;
            ck!(spins < 100, "no progress");
        }
        ck!(out.iter().zip(&bs).all(|(a, b)| same_block(a, b)), "other blocks");
        ck!(b.consumed() == data.len(), "consumed() {} of {}", b.consumed(), data.len());
        Ok(())
    });
}

pub fn c14(ctx: &mut Ctx) {
    ctx.group("rule_sets", 4000, "random add/remove histories against a set of kinds", |c| {
        let mut r: Rules<'static> = Rules::default();
        let mut have: Vec<(usize, u64)> = vec![];
        let log = Arc::new(Mutex::new(Vec::<u64>::new()));
        let mut tr = String::new();
        for step in 0..c.rng.range(1, 14) as u64 {
            let k = c.rng.below(4);
            if c.rng.below(3) > 0 {
                tr.push_str(&format!(" add({k})"));
                let l = log.clone();
                let stat = c.rng.one_in(3);
                fn called() -> bool {
                    CALLS.with_borrow_mut(|v| v.push(u64::MAX));
                    false
                }
                let rule: Rule<'static> = match k {
                    0 if stat => brec::RuleDef::Ignored(brec::RuleFnDef::Static(|_| {
                        called();
                    })),
                    1 if stat => brec::RuleDef::FilterByBlocks(brec::RuleFnDef::Static(|_| called())),
                    2 if stat => brec::RuleDef::FilterByPayload(brec::RuleFnDef::Static(|_| called())),
                    3 if stat => brec::RuleDef::Filter(brec::RuleFnDef::Static(|_| called())),
                    0 => brec::RuleDef::Ignored(brec::RuleFnDef::Dynamic(Box::new(move |_| l.lock().unwrap().push(step)))),
                    1 => brec::RuleDef::FilterByBlocks(brec::RuleFnDef::Dynamic(Box::new(move |_| {
                        l.lock().unwrap().push(step);
                        false
                    }))),
                    2 => brec::RuleDef::FilterByPayload(brec::RuleFnDef::Dynamic(Box::new(move |_| {
                        l.lock().unwrap().push(step);
                        false
                    }))),
                    _ => brec::RuleDef::Filter(brec::RuleFnDef::Dynamic(Box::new(move |_| {
                        l.lock().unwrap().push(step);
                        false
                    }))),
                };
                let res = r.add_rule(rule);
                let dup = have.iter().any(|(x, _)| *x == k);
                ck!(res.is_err() == dup, "{tr}: {:?}", res.map_err(|e| ename(&e)));
                if let Err(e) = res {
                    ck!(ename(&e) == "RuleDuplicate", "{tr}: {e}");
                }
                if !dup {
                    have.push((k, if stat { u64::MAX } else { step }));
                }
            } else {
                tr.push_str(&format!(" remove({k})"));
                r.remove_rule(match k {
                    0 => brec::RuleDefId::Ignored,
                    1 => brec::RuleDefId::FilterByBlocks,
                    2 => brec::RuleDefId::FilterByPayload,
                    _ => brec::RuleDefId::Filter,
                });
                have.retain(|(x, _)| *x != k);
            }
            c.fpn(k as u64 + 10 * step);
            ck!(r.rules.len() == have.len(), "{tr}: {} rules, expected {}", r.rules.len(), have.len());
            // each callback answers exactly when its kind is there, and it is the one that was added
            for k in 0..4usize {
                log.lock().unwrap().clear();
                CALLS.with_borrow_mut(|v| v.clear());
                let res = match k {
                    0 => {
                        r.ignore(&[1]).map_err(|e| e.to_string())?;
                        true
                    }
                    1 => r.filter_by_blocks(&[]),
                    2 => r.filter_by_payload(&[]),
                    _ => r.filter(&Packet::new(vec![], None)),
                };
                let want: Vec<u64> = have.iter().filter(|(x, _)| *x == k).map(|(_, s)| *s).collect();
                log.lock().unwrap().extend(CALLS.with_borrow(|v| v.clone()));
                ck!(*log.lock().unwrap() == want, "{tr}: kind {k} calls {:?}, expected {want:?}", log.lock().unwrap());
                ck!(k == 0 || res == want.is_empty(), "{tr}: kind {k} gives {res}");
            }
        }
        c.note(|| tr.clone());
        Ok(())
    });
    ctx.group("one_packet", 8000, "Packet::filtered (used by the storage reader) on packets with and without payload, random rules", |c| {
        let most = c.scale(60);
        let m = packets(c, 1, most).remove(0);
        let mask = c.rng.below(8);
        let (fb, fp, ff) = (c.rng.u8(), c.rng.u8(), c.rng.u8());
        fn h(b: &[u8], k: u8) -> bool {
            b.iter().fold(k, |a, x| a.wrapping_mul(31).wrapping_add(*x)) & 1 != 0
        }
        let mut rules: Rules<'static> = Rules::default();
        let add = |r: &mut Rules<'static>, x: Rule<'static>| r.add_rule(x).map_err(|e| e.to_string());
        if mask & 1 != 0 {
            add(&mut rules, brec::RuleDef::FilterByBlocks(brec::RuleFnDef::Dynamic(Box::new(move |b: &[BlockReferred<'_>]| h(&b.iter().flat_map(view_bytes).collect::<Vec<u8>>(), fb)))))?;
        }
        if mask & 2 != 0 {
            add(&mut rules, brec::RuleDef::FilterByPayload(brec::RuleFnDef::Dynamic(Box::new(move |b: &[u8]| h(b, fp)))))?;
        }
        if mask & 4 != 0 {
            add(
                &mut rules,
                brec::RuleDef::Filter(brec::RuleFnDef::Dynamic(Box::new(move |p: &Packet| {
                    h(&MP { blocks: p.blocks.clone(), payload: p.payload.clone() }.bytes(), ff)
                }))),
            )?;
        }
        let ok = (mask & 1 == 0 || h(&m.blocks.iter().flat_map(block).collect::<Vec<u8>>(), fb))
            && (mask & 2 == 0 || m.payload.as_ref().is_none_or(|p| h(&payload_parts(p).2, fp)))
            && (mask & 4 == 0 || h(&m.bytes(), ff));
        let d = m.bytes();
        let size = d.len() as u64 - 29;
        c.fp(&d);
        c.fpn((mask as u64) << 24 | (fb as u64) << 16 | (fp as u64) << 8 | ff as u64);
        c.note(|| format!("rules {mask:03b} ({fb} {fp} {ff}) on {}", hex(&d)));
        let mut src = std::io::Cursor::new([&d[..], &[9; 5]].concat());
        match Packet::filtered(&mut src, &rules) {
            Ok(brec::LookInStatus::Accepted(n, p)) => {
                ck!(ok, "accepted, but a filter refuses it");
                ck!(n as u64 == size, "size {n}, expected {size}");
                same_list(&[&m], &[p])?;
            }
            Ok(brec::LookInStatus::Denied(n)) => {
                ck!(!ok, "denied, but every filter accepts it");
                ck!(n as u64 == size, "size {n}, expected {size}");
            }
            Ok(_) => return Err("not enough data".into()),
            Err(e) => return Err(format!("error {e}")),
        }
        ck!(src.position() == d.len() as u64, "the source stands at {} of {}", src.position(), d.len());
        Ok(())
    });
    ctx.group("delivery", 4000, "streams of packets with random rules, chunk sizes and litter, dynamic and static callbacks", |c| {
        let n = c.rng.range(1, 7);
        let ps = packets(c, n, 100);
        let mut data = vec![];
        for p in &ps {
            if c.rng.one_in(3) {
                let k = litter_len(c);
                data.extend(c.rng.litter(k));
            }
            data.extend(p.bytes());
        }
        let mask = c.rng.below(8);
        let stat = c.rng.one_in(4);
        let seen_b = Arc::new(Mutex::new(Vec::<Vec<u8>>::new()));
        let seen_p = Arc::new(Mutex::new(Vec::<Vec<u8>>::new()));
        let seen_f = Arc::new(Mutex::new(Vec::<Vec<u8>>::new()));
        let (fb, fp, ff) = (c.rng.u8(), c.rng.u8(), c.rng.u8());
        fn h(b: &[u8], k: u8) -> bool {
            b.iter().fold(k, |a, x| a.wrapping_mul(31).wrapping_add(*x)) & 3 != 0
        }
        fn static_b(b: &[BlockReferred<'_>]) -> bool {
            b.len() != 1
        }
        fn static_p(b: &[u8]) -> bool {
            b.len() % 2 == 0
        }
        fn static_f(p: &Packet) -> bool {
            p.payload.is_some()
        }
        let enc_blocks = |m: &[Block]| -> Vec<u8> { m.iter().flat_map(block).collect() };
        let mut rules: Vec<Rule<'static>> = vec![];
        if mask & 1 != 0 {
            let s = seen_b.clone();
            rules.push(brec::RuleDef::FilterByBlocks(if stat {
                brec::RuleFnDef::Static(static_b)
            } else {
                brec::RuleFnDef::Dynamic(Box::new(move |b: &[BlockReferred<'_>]| {
                    let mut v = vec![];
                    for x in b {
                        v.extend(view_bytes(x));
                    }
                    let r = h(&v, fb);
                    s.lock().unwrap().push(v);
                    r
                }))
            }));
        }
        if mask & 2 != 0 {
            let s = seen_p.clone();
            rules.push(brec::RuleDef::FilterByPayload(if stat {
                brec::RuleFnDef::Static(static_p)
            } else {
                brec::RuleFnDef::Dynamic(Box::new(move |b: &[u8]| {
                    s.lock().unwrap().push(b.to_vec());
                    h(b, fp)
                }))
            }));
        }
        if mask & 4 != 0 {
            let s = seen_f.clone();
            rules.push(brec::RuleDef::Filter(if stat {
                brec::RuleFnDef::Static(static_f)
            } else {
                brec::RuleFnDef::Dynamic(Box::new(move |p: &Packet| {
                    let m = MP { blocks: p.blocks.clone(), payload: p.payload.clone() };
                    let b = m.bytes();
                    let r = h(&b, ff);
                    s.lock().unwrap().push(b);
                    r
                }))
            }));
        }
        if c.rng.bool() {
            rules.reverse();
        }
        // oracle
        let (mut wb, mut wp, mut wf) = (vec![], vec![], vec![]);
        let mut want: Vec<&MP> = vec![];
        for m in &ps {
            if mask & 1 != 0 {
                let b = enc_blocks(&m.blocks);
                let ok = if stat { m.blocks.len() != 1 } else { h(&b, fb) };
                wb.push(b);
                if !ok {
                    continue;
                }
            }
            if let (true, Some(p)) = (mask & 2 != 0, &m.payload) {
                let b = payload_parts(p).2;
                let ok = if stat { b.len() % 2 == 0 } else { h(&b, fp) };
                wp.push(b);
                if !ok {
                    continue;
                }
            }
            if mask & 4 != 0 {
                let ok = if stat { m.payload.is_some() } else { h(&m.bytes(), ff) };
                wf.push(m.bytes());
                if !ok {
                    continue;
                }
            }
            want.push(m);
        }
        let s = script(c);
        c.fp(&data);
        c.fpn(mask as u64);
        c.note(|| format!("rules {mask:03b} static {stat}, chunk script {s:?}, stream {}", hex(&data)));
        let run = drive(data, s, rules)?;
        ck!(run.errors.is_empty(), "errors {:?}", run.errors);
        same_list(&want, &run.found)?;
        ck!(run.skipped == n - want.len(), "{} skipped, expected {}", run.skipped, n - want.len());
        if !stat {
            ck!(*seen_b.lock().unwrap() == wb, "the block filter saw other blocks");
            ck!(*seen_p.lock().unwrap() == wp, "the payload filter saw {:?}, expected {wp:?}", seen_p.lock().unwrap());
            ck!(*seen_f.lock().unwrap() == wf, "the packet filter saw another packet");
        }
        Ok(())
    });
}
fn view_bytes(b: &BlockReferred<'_>) -> Vec<u8> {
    // the view is only readable through its fields: compare by owned copies of the known types
    let o: Block = match b {
        BlockReferred::BlkUns(x) => Block::BlkUns(BlkUns { a: x.a, b: x.b, c: x.c, d: x.d, e: x.e }),
        BlockReferred::BlkSig(x) => Block::BlkSig(BlkSig { a: x.a, b: x.b, c: x.c, d: x.d, e: x.e, f: x.f, g: x.g, h: x.h }),
        BlockReferred::BlkMix(x) => Block::BlkMix(BlkMix { flag: x.flag, blob: *x.blob, n: x.n, blob_a: *x.blob_a, blob_b: *x.blob_b, kind: x.kind, last: x.last }),
        BlockReferred::BlkOne(x) => Block::BlkOne(BlkOne { v: x.v }),
        BlockReferred::BlkFree(x) => Block::BlkFree(BlkFree { x: x.x, blob: *x.blob }),
        BlockReferred::BlkTail(x) => Block::BlkTail(BlkTail { k: x.k, m: x.m, data: *x.data }),
    };
    block(&o)
}

fn damage(c: &mut Case, d: &mut Vec<u8>) {
    for _ in 0..c.rng.range(1, 4) {
        if d.is_empty() {
            d.push(c.rng.u8());
        }
        let i = c.rng.below(d.len());
        match c.rng.below(8) {
            0 => d.truncate(i),
            1 | 2 => d[i] ^= 1 << c.rng.below(8),
            3 => d[i] = [0, 1, 2, 4, 127, 128, 255][c.rng.below(7)],
            4 => {
                let j = (i + c.rng.below(60)).min(d.len());
                let x = d[i..j].to_vec();
                let k = c.rng.below(d.len() + 1);
                d.splice(k..k, x);
            }
            5 => {
                let j = (i + c.rng.below(60)).min(d.len());
                d.drain(i..j);
            }
            6 => {
                let n = c.rng.below(12);
                let x = c.rng.bytes(n);
                d.splice(i..i, x);
            }
            _ => {
                let k = c.rng.below(d.len());
                d.swap(i, k);
            }
        }
    }
}
/// Packets whose header is valid but whose lengths disagree with the body.
fn inconsistent(c: &mut Case) -> Vec<u8> {
    let m = gen_packet(&mut c.rng, 3, 60);
    let b = m.bytes();
    let body = &b[29..];
    let pick = |c: &mut Case, v: u64| match c.rng.below(6) {
        0 => 0,
        1 => v + 1,
        2 => v.saturating_sub(1),
        3 => c.rng.below(200) as u64,
        4 => 4096 + c.rng.below(8192) as u64,
        _ => v,
    };
    let size = pick(c, body.len() as u64);
    let bl = pick(c, m.blocks_len() as u64);
    let mut v = header(size, bl, c.rng.bool());
    v.extend_from_slice(body);
    if c.rng.bool() {
        // a payload header with another length
        if let Some(p) = &m.payload {
            let (s, cr, bo) = payload_parts(p);
            let at = 29 + m.blocks_len();
            v.truncate(at.min(v.len()));
            v.extend(payload_header_raw(&s, &cr, pick(c, bo.len() as u64) as u32));
            v.extend(bo);
        }
    }
    v
}

pub fn c17(ctx: &mut Ctx) {
    ctx.group("all_readers", 20000, "damaged packets, blocks, payload headers, slots and noise through every reading entry point", |c| {
        let mut d = match c.rng.below(8) {
            0 => block(&gen_block(&mut c.rng)),
            1 => {
                let a = [4, 8, 16, 32, 64, 128][c.rng.below(6)];
                payload_header_raw(&c.rng.bytes(a), &c.rng.bytes(4), c.rng.below(300) as u32)
            }
            2 => {
                let n = c.rng.below(8);
                let l: Vec<u64> = (0..n).map(|_| c.rng.below(90) as u64).collect();
                model::slot(n as u64, &l)
            }
            3 => inconsistent(c),
            4 => {
                let n = c.rng.below(120);
                c.rng.bytes(n)
            }
            _ => gen_packet(&mut c.rng, 4, 80).bytes(),
        };
        if !c.rng.one_in(5) {
            damage(c, &mut d);
        }
        if c.rng.one_in(4) {
            let mut e = gen_packet(&mut c.rng, 2, 30).bytes();
            damage(c, &mut e);
            d.extend(e);
        }
        c.fp(&d);
        c.note(|| hex(&d));
        let pre = c.rng.below(5).min(d.len());
        for e in 0..4 {
            let _ = crate::checks1::read_packet(e, &d, 0, c.rng.below(4));
            let _ = crate::checks1::read_packet(e, &d, pre, 0);
        }
        let mut s = Src::new(d.clone(), 0, 0);
        macro_rules! every { ($($t:ty),*) => { $(
            s.pos = pre as u64; let _ = <$t as TryReadFrom>::try_read(&mut s);
            // behind the end of the source
            s.pos = d.len() as u64 + 3; let _ = <$t as TryReadFrom>::try_read(&mut s);
            let _ = <$t as TryReadFromBuffered>::try_read(&mut &d[..]);
            let mut br = BufReader::with_capacity(c.rng.range(1, 40), &d[..]);
            let _ = <$t as TryReadFromBuffered>::try_read(&mut br);
        )* } }
        s.pos = 0;
        let _ = <PacketHeader as ReadFrom>::read(&mut s);
        s.pos = 0;
        let _ = <PayloadHeader as ReadFrom>::read(&mut s);
        s.pos = 0;
        let _ = <Block as ReadFrom>::read(&mut s);
        every!(PacketHeader, PayloadHeader, BlkUns, BlkSig, BlkMix, BlkOne, BlkFree, BlkTail, Block);
        for skip in [false, true] {
            s.pos = 0;
            let _ = <BlkMix as ReadBlockFrom>::read(&mut s, skip);
            let _ = BlkMixReferred::read_from_slice(&d, skip);
            let _ = BlkUnsReferred::read_from_slice(&d, skip);
            let _ = BlkSigReferred::read_from_slice(&d, skip);
            let _ = BlkOneReferred::read_from_slice(&d, skip);
            let _ = BlkFreeReferred::read_from_slice(&d, skip);
            let _ = BlkTailReferred::read_from_slice(&d, skip);
            let _ = BlockReferred::read_from_slice(&d, skip);
            if d.len() >= 29 || !skip {
                let _ = PacketHeader::read_from_slice(&d, skip);
            }
        }
        let _ = PacketHeader::get_pos(&d);
        let _ = PacketHeader::is_not_enought(&d);
        fn slot_like<T: ReadFrom + TryReadFrom>(_: &T, s: &mut Src) {
            s.pos = 0;
            let _ = T::read(s);
            s.pos = 0;
            let _ = T::try_read(s);
            s.pos = s.data.len() as u64 + 1;
            let _ = T::try_read(s);
        }
        slot_like(&crate::checks1::slot_probe(), &mut s);
        Ok(())
    });
    ctx.group("streams", 3000, "damaged streams in scripted chunks end in no-data within bounded calls", |c| {
        let n = c.rng.range(1, 5);
        let mut d = vec![];
        for _ in 0..n {
            if c.rng.one_in(3) { d.extend(inconsistent(c)) } else { d.extend(gen_packet(&mut c.rng, 3, 80).bytes()) }
            if c.rng.one_in(3) {
                let k = c.rng.below(60);
                d.extend(c.rng.bytes(k));
            }
        }
        damage(c, &mut d);
        let s = script(c);
        c.fp(&d);
        c.note(|| format!("chunk script {s:?}, stream {}", hex(&d)));
        drive(d, s, vec![]).map(|_| ())
    });
    ctx.group("storages", 2500, "truncated, corrupted and crash-cut storages through reader, writer, iterators, reload", |c| {
        let n = if c.rng.one_in(60) { c.rng.range(498, 504) } else { c.rng.below(7) };
        let ps: Vec<Vec<u8>> = (0..n).map(|_| if c.rng.one_in(6) { inconsistent(c) } else { small(c).bytes() }).collect();
        let mut d = if c.rng.one_in(3) {
            // small slots with any table (moderate lengths, holes)
            let mut v = vec![];
            for _ in 0..c.rng.range(1, 3) {
                let k = c.rng.below(6);
                let l: Vec<u64> = (0..k).map(|_| if c.rng.one_in(4) { 0 } else { c.rng.below(90) as u64 }).collect();
                v.extend(model::slot(k as u64, &l));
                for p in ps.iter().take(k) {
                    v.extend_from_slice(p);
                }
            }
            v
        } else {
            model::storage(&ps)
        };
        match c.rng.below(4) {
            0 => {
                let k = c.rng.below(d.len() + 1);
                d.truncate(k);
            }
            1 => {
                // the tail of the packets is missing
                let k = c.rng.below(120).min(d.len());
                let l = d.len();
                d.truncate(l - k);
            }
            2 => {
                if d.len() > 4020 {
                    let mut t = d.split_off(4020);
                    damage(c, &mut t);
                    d.extend(t);
                } else {
                    damage(c, &mut d);
                }
            }
            _ => damage(c, &mut d),
        }
        c.fp(&d);
        c.note(|| format!("{} bytes {}", d.len(), hex(&d[d.len().saturating_sub(500)..])));
        let _: Result<Writer<'_, Shared>, Error> = Writer::new(Shared::of(d.clone()));
        let f = Shared::of(d);
        let Ok(mut r) = Reader::new(f.handle()) else { return Ok(()) };
        let total = r.count();
        let bound = total + 600 + f.dump().len() + 500 * r.slots.len();
        for i in [0, 1, 2, 3, 4, 5, 6, 499, 500, 501, total, total + 1] {
            let _ = r.nth(i);
            if let Ok(it) = r.seek(i) {
                ck!(it.take(bound + 1).count() <= bound, "seek({i}) does not end");
            }
            ck!(r.range(i, 7).take(bound + 1).count() <= bound, "range does not end");
            ck!(r.range_filtered(i, 7).take(bound + 1).count() <= bound, "range_filtered does not end");
        }
        ck!(r.iter().take(bound + 1).count() <= bound, "iter does not end");
        ck!(r.filtered().take(bound + 1).count() <= bound, "filtered does not end");
        let _ = r.reload();
        // the file shrinks under the reader
        let k = c.rng.below(f.dump().len() + 1);
        f.data.borrow_mut().truncate(k);
        let _ = r.nth(0);
        ck!(r.iter().take(bound + 1).count() <= bound, "iter does not end");
        let _ = r.reload();
        Ok(())
    });
}

pub fn c18(ctx: &mut Ctx) {
    ctx.group("long", 20, "reload histories across up to four slots", |c| {
        let f = Shared::new();
        let mut w = wr(&f)?;
        let mut r = rd(&f)?;
        let mut ps: Vec<MP> = vec![];
        let mut tr = String::new();
        for _ in 0..c.rng.range(2, 6) {
            let k = match c.rng.below(7) {
                0 => 0,
                1 => c.rng.range(1, 5),
                2 => 500,
                3 => (500 - ps.len() % 500) % 500,
                4 => (500 - ps.len() % 500) % 500 + 1,
                5 => c.rng.range(400, 1100),
                _ => c.rng.range(1, 300),
            };
            if ps.len() + k > 2100 {
                continue;
            }
            tr.push_str(&format!(" +{k}"));
            for _ in 0..k {
                let m = small(c);
                w.insert(m.packet()).map_err(|e| e.to_string())?;
                ps.push(m);
            }
            c.fpn(k as u64);
            let got = r.reload().map_err(|e| format!("{tr}: reload: {e}"))?;
            ck!(got == k, "{tr}: reload() = {got}, {k} appended");
            let again = r.reload().map_err(|e| format!("{tr}: reload: {e}"))?;
            ck!(again == 0, "{tr}: second reload() = {again}");
            access(c, &mut r, &ps, false).map_err(|e| format!("{tr}: {e}"))?;
            if c.rng.bool() {
                w = wr(&f)?;
            }
            if c.rng.one_in(4) {
                r = rd(&f)?;
            }
        }
        c.note(|| tr.clone());
        access(c, &mut r, &ps, true).map_err(|e| format!("{tr}: {e}"))
    });
    ctx.group("short", 300, "short reload histories from an empty storage, several readers", |c| {
        let step = if c.rng.bool() { 0 } else { [1usize, 3, 7, 100, 1000, 4000][c.rng.below(6)] };
        c.note(|| format!("storage taking at most {step} bytes per call (0: any)"));
        let f = Shared::stepped(step);
        let mut w = wr(&f)?;
        let mut rs = vec![(rd(&f)?, 0usize)];
        let mut ps: Vec<MP> = vec![];
        let mut tr = String::new();
        for _ in 0..c.rng.range(1, 20) {
            match c.rng.below(5) {
                0 | 1 | 2 => {
                    tr.push_str(" i");
                    let m = gen_packet(&mut c.rng, 3, 60);
                    w.insert(m.packet()).map_err(|e| e.to_string())?;
                    ps.push(m);
                }
                3 => {
                    let i = c.rng.below(rs.len());
                    tr.push_str(&format!(" r{i}"));
                    let got = rs[i].0.reload().map_err(|e| format!("{tr}: reload: {e}"))?;
                    ck!(got == ps.len() - rs[i].1, "{tr}: reload() = {got}, {} appended", ps.len() - rs[i].1);
                    rs[i].1 = ps.len();
                    access(c, &mut rs[i].0, &ps, true).map_err(|e| format!("{tr}: {e}"))?;
                }
                _ => {
                    tr.push_str(" o");
                    rs.push((rd(&f)?, ps.len()));
                    if c.rng.bool() {
                        w = wr(&f)?;
                    }
                }
            }
            c.fpn(ps.len() as u64);
        }
        c.fp(tr.as_bytes());
        c.note(|| tr.clone());
        Ok(())
    });
}
