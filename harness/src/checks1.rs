use crate::ck;
use crate::model;
use crate::model::*;
use crate::proto::*;
use crate::util::*;
use brec::prelude::*;
use std::io::{BufRead, BufReader, Cursor, Read, Seek, SeekFrom};

pub fn ename(e: &Error) -> String {
    let s = format!("{e:?}");
    s.split(['(', ' ']).next().unwrap_or("").to_string()
}
pub fn st<T>(r: &Result<ReadStatus<T>, Error>) -> String {
    match r {
        Ok(ReadStatus::Success(_)) => "Success".into(),
        Ok(ReadStatus::NotEnoughData(n)) => format!("NotEnoughData({n})"),
        Err(e) => format!("Err({})", ename(e)),
    }
}

fn hdr_eq(h: &PacketHeader, size: u64, blocks: u64, payload: bool, crc: u32) -> bool {
    h.size == size && h.blocks_len == blocks && h.payload == payload && h.crc == crc
}

/// The four entry points on the same bytes: verdicts as text ("ok:..." or error name) and bytes taken.
fn header_verdicts(b: &[u8], pre: usize, step: usize) -> Result<Vec<(&'static str, String, i64)>, String> {
    let show = |h: &PacketHeader| format!("ok:{}:{}:{}:{}", h.size, h.blocks_len, h.payload, h.crc);
    let mut out = Vec::new();
    let mut data = vec![0xECu8; pre];
    data.extend_from_slice(b);
    let mut s = Src::new(data.clone(), pre as u64, step);
    let r = <PacketHeader as ReadFrom>::read(&mut s);
    out.push(("read", r.as_ref().map(show).unwrap_or_else(ename), s.pos as i64 - pre as i64));
    let mut s = Src::new(data.clone(), pre as u64, step);
    let r = <PacketHeader as TryReadFrom>::try_read(&mut s);
    let t = match &r {
        Ok(ReadStatus::Success(h)) => show(h),
        Ok(ReadStatus::NotEnoughData(n)) => format!("need:{n}"),
        Err(e) => ename(e),
    };
    out.push(("try_read", t, s.pos as i64 - pre as i64));
    let mut c = Cursor::new(data.clone());
    c.set_position(pre as u64);
    let r = <PacketHeader as TryReadFromBuffered>::try_read(&mut c);
    let t = match &r {
        Ok(ReadStatus::Success(h)) => show(h),
        Ok(ReadStatus::NotEnoughData(n)) => format!("need:{n}"),
        Err(e) => ename(e),
    };
    out.push(("buffered try_read", t, c.position() as i64 - pre as i64));
    let r = PacketHeader::read_from_slice(b, step % 2 == 0);
    out.push(("read_from_slice", r.as_ref().map(show).unwrap_or_else(ename), -1));
    Ok(out)
}

pub fn c01(ctx: &mut Ctx) {
    ctx.group("layout_and_round_trip", 30000, "random and extreme header fields, trailing bytes, start positions, short reads", |c| {
        let (size, bl, pl) = (c.rng.int(), c.rng.int(), c.rng.bool());
        let crc = header_crc(size, bl, pl);
        let any_crc = c.rng.u64() as u32;
        c.fpn(size);
        c.fpn(bl);
        c.fpn(pl as u64);
        c.note(|| format!("size={size} blocks_len={bl} payload={pl}"));
        // layout, with any stored crc
        let h = PacketHeader { size, blocks_len: bl, payload: pl, crc: any_crc };
        let want = header_raw(size, bl, pl as u8, any_crc);
        let mut v = Vec::new();
        let n = h.write(&mut v).map_err(|e| format!("write failed: {e}"))?;
        ck!(n == 29 && v == want, "write: {n} bytes {} expected {}", hex(&v), hex(&want));
        let mut v = Vec::new();
        h.write_all(&mut v).map_err(|e| format!("write_all failed: {e}"))?;
        ck!(v == want, "write_all: {} expected {}", hex(&v), hex(&want));
        // short writes
        let k = c.rng.below(31) as i64;
        let mut s = Sink::new(vec![k]);
        let n = h.write(&mut s).map_err(|e| format!("{e}"))?;
        ck!(n == s.got.len() && s.got[..] == want[..n] && n == (k as usize).min(29), "write to a sink taking {k}: {n}, sink has {}", hex(&s.got));
        let script: Vec<i64> = (0..30).map(|_| c.rng.range(1, 7) as i64).collect();
        let mut s = Sink::new(script);
        h.write_all(&mut s).map_err(|e| format!("{e}"))?;
        ck!(s.got == want, "write_all in pieces: {}", hex(&s.got));
        // the CRC trait
        ck!(h.crc() == crc.to_le_bytes(), "crc() = {:?}, expected {:?}", h.crc(), crc.to_le_bytes());
        // reading
        let mut b = header_raw(size, bl, pl as u8, crc);
        let tail = c.rng.below(70);
        let t = c.rng.bytes(tail);
        b.extend(t);
        let pre = c.rng.below(40);
        let step = c.rng.below(5);
        let want = format!("ok:{size}:{bl}:{pl}:{crc}");
        for (w, verdict, took) in header_verdicts(&b, pre, step)? {
            ck!(verdict == want, "{w}: {verdict}, expected {want}");
            ck!(took == 29 || took == -1, "{w}: took {took} bytes, expected 29");
        }
        // buffered source with its own buffer
        let cap = c.rng.range(29, 80);
        let mut br = BufReader::with_capacity(cap, Cursor::new(b.clone()));
        match <PacketHeader as TryReadFromBuffered>::try_read(&mut br) {
            Ok(ReadStatus::Success(h)) => ck!(hdr_eq(&h, size, bl, pl, crc), "buffered: {h:?}"),
            r => return Err(format!("buffered (capacity {cap}): {}", st(&r))),
        }
        let mut rest = Vec::new();
        br.read_to_end(&mut rest).map_err(|e| e.to_string())?;
        ck!(rest == b[29..], "buffered: the rest of the source is {} expected {}", hex(&rest), hex(&b[29..]));
        Ok(())
    });
    ctx.group("new_for_blocks_and_payload", 3000, "header of random blocks and payloads against the computed sizes", |c| {
        let m = gen_packet(&mut c.rng, 12, 200);
        c.fp(&m.bytes());
        c.note(|| m.text());
        let bl = m.blocks_len() as u64;
        let plen = m.payload.as_ref().map(|p| payload(p).len()).unwrap_or(0) as u64;
        let h = PacketHeader::new(&m.blocks, m.payload.as_ref()).map_err(|e| e.to_string())?;
        ck!(
            hdr_eq(&h, bl + plen, bl, m.payload.is_some(), header_crc(bl + plen, bl, m.payload.is_some())),
            "{h:?}, expected blocks_len {bl}, size {}",
            bl + plen
        );
        if let Some(p) = &m.payload {
            let s = PacketHeader::payload_size(p).map_err(|e| e.to_string())?;
            ck!(s == plen, "payload_size {s}, expected {plen}");
        }
        Ok(())
    });
    ctx.all("missing_bytes", 200, "every buffer length 0..200", |c| {
        let n = c.index as usize;
        c.fpn(n as u64);
        let b = c.rng.bytes(n);
        let want = if n >= 29 { None } else { Some(29 - n) };
        ck!(PacketHeader::is_not_enought(&b) == want, "is_not_enought of {n} bytes = {:?}", PacketHeader::is_not_enought(&b));
        ck!(PacketHeader::SIZE == 29 && PacketHeader::ssize() == 29, "declared size {}", PacketHeader::SIZE);
        Ok(())
    });
    ctx.group("signature_search", 20000, "strings with planted, partial and overlapping signatures", |c| {
        let n = c.rng.below(60);
        let mut b = if c.rng.bool() { c.rng.bytes(n) } else { vec![236; n] };
        for _ in 0..c.rng.below(4) {
            let at = c.rng.below(b.len() + 1);
            let k = if c.rng.bool() { 8 } else { c.rng.range(1, 8) };
            let mut ins = SIG[..k].to_vec();
            if c.rng.one_in(4) {
                ins.splice(0..0, SIG[..4].iter().copied());
            }
            b.splice(at..at, ins);
        }
        c.fp(&b);
        c.note(|| hex(&b));
        let want = (0..b.len()).find(|i| b.len() > i + 8 && b[*i..i + 8] == SIG);
        let got = PacketHeader::get_pos(&b);
        ck!(got == want, "get_pos = {got:?}, expected {want:?} in {}", hex(&b));
        Ok(())
    });
}

fn header_oracle(b: &[u8]) -> String {
    if b[..8] != SIG {
        return "SignatureDismatch".into();
    }
    let size = u64::from_le_bytes(b[8..16].try_into().unwrap());
    let bl = u64::from_le_bytes(b[16..24].try_into().unwrap());
    let pl = b[24] == 1;
    let crc = u32::from_le_bytes(b[25..29].try_into().unwrap());
    if crc == header_crc(size, bl, pl) { format!("ok:{size}:{bl}:{pl}:{crc}") } else { "CrcDismatch".into() }
}
fn header_agree(c: &mut Case, b: &[u8]) -> R {
    c.fp(b);
    c.note(|| hex(b));
    let want = header_oracle(b);
    let pre = c.rng.below(9);
    let step = c.rng.below(5);
    for (w, verdict, took) in header_verdicts(b, pre, step)? {
        ck!(verdict == want, "{w}: {verdict}, expected {want} for {}", hex(&b[..29]));
        if want.starts_with("ok") {
            ck!(took == 29 || took == -1, "{w} took {took}");
        }
    }
    Ok(())
}
pub fn c02(ctx: &mut Ctx) {
    ctx.group("bit_flips", 232 * 40, "every single bit of random valid headers flipped", |c| {
        let bit = (c.index % 232) as usize;
        let mut b = header(c.rng.int(), c.rng.int(), c.rng.bool());
        b[bit / 8] ^= 1 << (bit % 8);
        header_agree(c, &b)
    });
    ctx.group("bytes", 20000, "one or more bytes replaced, CRC of other fields, every flag byte", |c| {
        let (s, l, p) = (c.rng.int(), c.rng.int(), c.rng.bool());
        let mut b = match c.rng.below(5) {
            0 => header_raw(s, l, c.rng.u8(), header_crc(s, l, p)),
            1 => header_raw(s, l, p as u8, header_crc(l, s, p)),
            2 => header_raw(s, l, p as u8, header_crc(s, l, !p)),
            3 => header_raw(s, l, p as u8, c.rng.u64() as u32),
            _ => header(s, l, p),
        };
        for _ in 0..c.rng.below(3) {
            let i = c.rng.below(29);
            b[i] = c.rng.u8();
        }
        let k = c.rng.below(3);
        let t = c.rng.bytes(k);
        b.extend(t);
        header_agree(c, &b)
    });
    ctx.all("flag_bytes", 512, "every flag byte with the CRC of both flags", |c| {
        let (s, l) = (c.rng.int(), c.rng.int());
        let b = header_raw(s, l, c.index as u8, header_crc(s, l, c.index >= 256));
        header_agree(c, &b)
    });
    ctx.group("noise", 3000, "random strings", |c| {
        let mut b = c.rng.bytes(29);
        if c.rng.bool() {
            b[..8].copy_from_slice(&SIG);
        }
        header_agree(c, &b)
    });
}

struct Fake {
    sig: Vec<u8>,
    crc: Vec<u8>,
    size: u64,
}
impl PayloadHooks for Fake {}
impl PayloadEncode for Fake {
    fn encode(&self) -> std::io::Result<Vec<u8>> {
        Ok(vec![])
    }
}
impl PayloadEncodeReferred for Fake {
    fn encode(&self) -> std::io::Result<Option<&[u8]>> {
        Ok(None)
    }
}
impl PayloadSignature for Fake {
    fn sig(&self) -> ByteBlock {
        bb(&self.sig)
    }
}
impl PayloadSize for Fake {
    fn size(&self) -> std::io::Result<u64> {
        Ok(self.size)
    }
}
impl PayloadCrc for Fake {
    fn crc(&self) -> std::io::Result<ByteBlock> {
        Ok(bb(&self.crc))
    }
}
const LENS: [usize; 6] = [4, 8, 16, 32, 64, 128];
fn bb(b: &[u8]) -> ByteBlock {
    match b.len() {
        4 => ByteBlock::Len4(b.try_into().unwrap()),
        8 => ByteBlock::Len8(b.try_into().unwrap()),
        16 => ByteBlock::Len16(b.try_into().unwrap()),
        32 => ByteBlock::Len32(b.try_into().unwrap()),
        64 => ByteBlock::Len64(b.try_into().unwrap()),
        _ => ByteBlock::Len128(b.try_into().unwrap()),
    }
}
fn phdr_is(h: &PayloadHeader, sig: &[u8], crc: &[u8], len: u32) -> bool {
    h.sig.as_slice() == sig && h.crc.as_slice() == crc && h.len == len && h.payload_len() == len as usize
}
pub fn c03(ctx: &mut Ctx) {
    ctx.group("codec", 36 * 60, "all 36 signature/CRC lengths, random contents, trailing bytes, start positions", |c| {
        let (a, b) = (LENS[c.index as usize % 6], LENS[c.index as usize / 6 % 6]);
        let (sig, crc) = (c.rng.bytes(a), c.rng.bytes(b));
        let len = c.rng.int() as u32;
        c.fp(&sig);
        c.fp(&crc);
        c.note(|| format!("sig={} crc={} len={len}", hex(&sig), hex(&crc)));
        let h = PayloadHeader { sig: bb(&sig), crc: bb(&crc), len };
        let want = payload_header_raw(&sig, &crc, len);
        let enc = h.as_vec();
        ck!(enc == want, "as_vec {} expected {}", hex(&enc), hex(&want));
        ck!(h.size() == want.len(), "size() = {}, encoded length {}", h.size(), want.len());
        ck!(phdr_is(&h, &sig, &crc, len), "payload_len/as_slice");
        let f = Fake { sig: sig.clone(), crc: crc[..4].to_vec(), size: len as u64 };
        let ss = PayloadHeader::ssize(&f).map_err(|e| e.to_string())?;
        let nh = PayloadHeader::new(&f).map_err(|e| e.to_string())?;
        ck!(ss == nh.as_vec().len() && ss == nh.size(), "announced size {ss}, encoded {}", nh.as_vec().len());
        ck!(phdr_is(&nh, &sig, &crc[..4], len), "new() does not keep signature, crc and length");
        let f = Fake { sig: sig.clone(), crc: crc.clone(), size: len as u64 };
        let nh = PayloadHeader::new(&f).map_err(|e| e.to_string())?;
        ck!(phdr_is(&nh, &sig, &crc, len), "new() does not keep signature, crc and length");
        // readers
        let k = c.rng.below(20);
        let mut data = c.rng.bytes(k);
        data.extend_from_slice(&want);
        let n = c.rng.below(140);
        let t = c.rng.bytes(n);
        data.extend(t);
        let step = c.rng.below(6);
        let mut s = Src::new(data.clone(), k as u64, step);
        let h = <PayloadHeader as ReadFrom>::read(&mut s).map_err(|e| format!("read: {e}"))?;
        ck!(phdr_is(&h, &sig, &crc, len), "read: {}", hex(&h.as_vec()));
        ck!(s.pos as usize == k + want.len(), "read took {} bytes, expected {}", s.pos as usize - k, want.len());
        let mut s = Src::new(data.clone(), k as u64, step);
        match <PayloadHeader as TryReadFrom>::try_read(&mut s) {
            Ok(ReadStatus::Success(h)) => ck!(phdr_is(&h, &sig, &crc, len), "try_read: {}", hex(&h.as_vec())),
            r => return Err(format!("try_read: {}", st(&r))),
        }
        ck!(s.pos as usize == k + want.len(), "try_read took {} bytes, expected {}", s.pos as i64 - k as i64, want.len());
        let mut cur = Cursor::new(data.clone());
        cur.set_position(k as u64);
        match <PayloadHeader as TryReadFromBuffered>::try_read(&mut cur) {
            Ok(ReadStatus::Success(h)) => ck!(phdr_is(&h, &sig, &crc, len), "buffered: {}", hex(&h.as_vec())),
            r => return Err(format!("buffered: {}", st(&r))),
        }
        ck!(cur.position() as usize == k, "buffered took {} bytes, expected none", cur.position() as usize - k);
        Ok(())
    });
    ctx.all("length_bytes", 512, "every signature length byte and every CRC length byte, by every reader", |c| {
        let l = c.index as u8;
        let second = c.index >= 256;
        c.fpn(c.index);
        let ok = LENS.contains(&(l as usize));
        let mut d = Vec::new();
        if second {
            d.push(4);
            d.extend(c.rng.bytes(4));
        }
        d.push(l);
        d.extend(c.rng.bytes(l as usize));
        if !second {
            d.push(8);
            d.extend(c.rng.bytes(8));
        }
        d.extend(c.rng.bytes(300));
        c.note(|| format!("length byte {l} ({})", if second { "crc" } else { "signature" }));
        let mut s = Src::new(d.clone(), 0, 0);
        let r1 = <PayloadHeader as ReadFrom>::read(&mut s).map(|_| ());
        let mut s = Src::new(d.clone(), 0, 0);
        let r2 = <PayloadHeader as TryReadFrom>::try_read(&mut s);
        let r2t = st(&r2);
        let r3 = <PayloadHeader as TryReadFromBuffered>::try_read(&mut &d[..]);
        let r3t = st(&r3);
        ck!(r1.is_ok() == ok, "read with length byte {l}: {:?}", r1);
        ck!(matches!(r2, Ok(ReadStatus::Success(_))) == ok && r2.is_ok() == ok, "try_read with length byte {l}: {r2t}");
        ck!(matches!(r3, Ok(ReadStatus::Success(_))) == ok && r3.is_ok() == ok, "buffered with length byte {l}: {r3t}");
        ck!(ByteBlock::is_valid_capacity(l).is_ok() == ok, "is_valid_capacity({l})");
        Ok(())
    });
    ctx.all("byte_blocks", 300, "conversion of vectors of every length 0..300", |c| {
        let n = c.index as usize;
        let v = c.rng.bytes(n);
        c.fp(&v);
        c.note(|| hex(&v));
        match ByteBlock::try_from(v.clone()) {
            Ok(b) => {
                ck!(LENS.contains(&n), "accepted {n} bytes");
                ck!(b.as_slice() == v && b.size() == n, "bytes changed: {}", hex(b.as_slice()));
            }
            Err(e) => ck!(!LENS.contains(&n), "refused {n} bytes: {e}"),
        }
        Ok(())
    });
    ctx.all("too_long", 64, "payload sizes around u32::MAX", |c| {
        let size = match c.index {
            0 => u32::MAX as u64,
            1 => u32::MAX as u64 + 1,
            2 => u64::MAX,
            i if i < 32 => c.rng.u64() >> 32,
            _ => (c.rng.u64() | (1 << 33)) >> c.rng.below(2),
        };
        c.fpn(size);
        c.note(|| format!("payload size {size}"));
        let f = Fake { sig: vec![1, 2, 3, 4], crc: vec![5, 6, 7, 8], size };
        match PayloadHeader::new(&f) {
            Ok(h) => ck!(size <= u32::MAX as u64 && h.len as u64 == size, "size {size} became {}", h.len),
            Err(_) => ck!(size > u32::MAX as u64, "size {size} refused"),
        }
        Ok(())
    });
}

/// seekable try_read on `data` from `pre`; the expectation is computed by the caller.
fn try_at<T: TryReadFrom>(data: &[u8], pre: usize, step: usize) -> (Result<ReadStatus<T>, Error>, i64) {
    let mut s = Src::new(data.to_vec(), pre as u64, step);
    let r = <T as TryReadFrom>::try_read(&mut s);
    (r, s.pos as i64 - pre as i64)
}
/// Checks one item: `enc` is its full encoding, `need(avail)` the expected missing bytes.
fn nondestructive<T: TryReadFrom>(
    c: &mut Case,
    what: &str,
    enc: &[u8],
    cutat: usize,
    need: impl Fn(usize) -> u64,
) -> R {
    let pre = c.rng.below(30);
    let step = c.rng.below(4);
    let mut data = c.rng.bytes(pre);
    data.extend_from_slice(&enc[..cutat]);
    if cutat == enc.len() {
        let k = c.rng.below(40);
        let t = c.rng.bytes(k);
        data.extend(t);
    }
    let (r, moved) = try_at::<T>(&data, pre, step);
    let got = st(&r);
    if cutat == enc.len() {
        ck!(got == "Success", "{what}: {got} on complete data");
        ck!(moved == enc.len() as i64, "{what}: success moved the source by {moved}, expected {}", enc.len());
    } else {
        let want = format!("NotEnoughData({})", need(cutat));
        ck!(got == want, "{what}: {got}, expected {want} ({cutat} of {} bytes available)", enc.len());
        ck!(moved == 0, "{what}: not enough data, but the source moved by {moved}");
    }
    Ok(())
}
fn err_keeps<T: TryReadFrom>(c: &mut Case, what: &str, bad: &[u8]) -> R {
    let pre = c.rng.below(30);
    let mut data = c.rng.bytes(pre);
    data.extend_from_slice(bad);
    let step = c.rng.below(4);
    let (r, moved) = try_at::<T>(&data, pre, step);
    if !matches!(r, Ok(ReadStatus::Success(_))) {
        ck!(moved == 0, "{what}: {} moved the source by {moved} on {}", st(&r), hex(bad));
    }
    Ok(())
}
fn payload_header_need(sig: usize, crc: usize, avail: usize) -> u64 {
    let marks = [1, 1 + sig, 2 + sig, 2 + sig + crc, 6 + sig + crc];
    for m in marks {
        if avail < m {
            return (m - avail) as u64;
        }
    }
    0
}
/// A slot value: the type cannot be named outside the crate, only passed along.
pub fn slot_probe() -> impl ReadFrom + TryReadFrom + WriteTo + brec::Size {
    let mut w = Writer::new(Shared::new()).unwrap();
    w.insert(Packet::new(vec![], None)).unwrap();
    w.slots.pop().unwrap()
}
fn try_like<T: TryReadFrom>(_: &T, s: &mut Src) -> Result<ReadStatus<T>, Error> {
    T::try_read(s)
}

pub fn c04(ctx: &mut Ctx) {
    ctx.all("packet_header", 30 * 30, "every prefix, several start positions", |c| {
        let enc = header(c.rng.int(), c.rng.int(), c.rng.bool());
        c.fp(&enc);
        c.note(|| hex(&enc));
        let cutat = (c.index % 30) as usize;
        nondestructive::<PacketHeader>(c, "packet header", &enc, cutat, |a| (29 - a) as u64)?;
        // buffered
        let mut cur = Cursor::new(enc[..cutat].to_vec());
        let r = <PacketHeader as TryReadFromBuffered>::try_read(&mut cur);
        if cutat < 29 {
            ck!(st(&r) == format!("NotEnoughData({})", 29 - cutat), "buffered packet header: {} with {cutat} bytes", st(&r));
            ck!(cur.position() == 0, "buffered packet header: not enough data consumed {} bytes", cur.position());
        }
        let mut bad = enc.clone();
        let i = c.rng.below(29);
        bad[i] ^= 1 << c.rng.below(8);
        err_keeps::<PacketHeader>(c, "packet header", &bad)
    });
    ctx.group("payload_header", 9000, "every length combination, every prefix, invalid length bytes", |c| {
        let (a, b) = (LENS[c.rng.below(6)], LENS[c.rng.below(6)]);
        let enc = payload_header_raw(&c.rng.bytes(a), &c.rng.bytes(b), c.rng.u64() as u32);
        c.fp(&enc);
        c.note(|| hex(&enc));
        let cutat = c.rng.below(enc.len() + 1);
        nondestructive::<PayloadHeader>(c, "payload header", &enc, cutat, |n| payload_header_need(a, b, n))?;
        let mut cur = Cursor::new(enc[..cutat].to_vec());
        let r = <PayloadHeader as TryReadFromBuffered>::try_read(&mut cur);
        if cutat < enc.len() {
            ck!(st(&r) == format!("NotEnoughData({})", payload_header_need(a, b, cutat)), "buffered payload header: {} with {cutat} bytes of {}", st(&r), hex(&enc));
        }
        ck!(cur.position() == 0, "buffered payload header consumed {} bytes", cur.position());
        let mut bad = enc.clone();
        let i = if c.rng.bool() { 0 } else { 1 + a };
        bad[i] = c.rng.u8();
        err_keeps::<PayloadHeader>(c, "payload header", &bad)
    });
    macro_rules! blk {
        ($name:literal, $t:ty, $k:expr, $n:expr) => {
            ctx.group($name, $n, "every prefix of random blocks, corrupted blocks; own type and enum", |c| {
                let m = gen_block_kind(&mut c.rng, $k);
                let enc = block(&m);
                c.fp(&enc);
                c.note(|| format!("{m:?}"));
                let cutat = if c.rng.one_in(6) { enc.len() } else { c.rng.below(enc.len()) };
                let full = enc.len();
                nondestructive::<$t>(c, $name, &enc, cutat, |a| if a < 4 { 4 - a as u64 } else { (full - a) as u64 })?;
                nondestructive::<Block>(c, "block enum", &enc, cutat, |a| if a < 4 { 4 - a as u64 } else { (full - a) as u64 })?;
                let mut bad = enc.clone();
                let i = c.rng.below(bad.len());
                bad[i] ^= 1 << c.rng.below(8);
                err_keeps::<$t>(c, $name, &bad)?;
                err_keeps::<Block>(c, "block enum", &bad)
            });
        };
    }
    blk!("block_BlkUns", BlkUns, 0, 1500);
    blk!("block_BlkSig", BlkSig, 1, 1500);
    blk!("block_BlkMix", BlkMix, 2, 1500);
    blk!("block_BlkOne", BlkOne, 3, 500);
    blk!("block_BlkFree", BlkFree, 4, 700);
    blk!("block_BlkTail", BlkTail, 5, 400);
    ctx.group("packet", 6000, "every kind of prefix and corruption of random packets", |c| {
        let m = gen_packet(&mut c.rng, 5, 120);
        let enc = m.bytes();
        c.fp(&enc);
        c.note(|| m.text());
        let cutat = match c.rng.below(4) {
            0 => c.rng.below(31).min(enc.len()),
            1 => enc.len(),
            2 => enc.len() - c.rng.below(enc.len().min(20)),
            _ => c.rng.below(enc.len()),
        };
        let full = enc.len();
        nondestructive::<Packet>(c, "packet", &enc, cutat, |a| if a < 29 { 29 - a as u64 } else { (full - a) as u64 })?;
        // buffered: the whole source is in the buffer
        let mut cur = Cursor::new(enc[..cutat].to_vec());
        let r = <Packet as TryReadFromBuffered>::try_read(&mut cur);
        if cutat < full {
            let need = if cutat < 29 { 29 - cutat } else { full - cutat };
            ck!(st(&r) == format!("NotEnoughData({need})"), "buffered packet: {} with {cutat} of {full} bytes", st(&r));
            ck!(cur.position() == 0, "buffered packet: not enough data consumed {} bytes", cur.position());
        }
        let mut bad = enc.clone();
        let i = c.rng.below(bad.len());
        bad[i] ^= 1 << c.rng.below(8);
        if c.rng.bool() {
            let k = c.rng.below(50);
            let t = c.rng.bytes(k);
            bad.extend(t);
        }
        err_keeps::<Packet>(c, "packet", &bad)?;
        // inconsistent headers with a valid CRC: blocks longer than the body, missing payload, ...
        let body = &enc[29..];
        let l = c.rng.below(body.len() + 40) as u64;
        let s = if c.rng.bool() { body.len() as u64 } else { c.rng.below(body.len() + 3) as u64 };
        let mut bad = header(s, l, c.rng.bool());
        bad.extend_from_slice(body);
        err_keeps::<Packet>(c, "packet with an inconsistent header", &bad)
    });
    ctx.all("too_many_blocks", 6, "packets of 254..259 blocks", |c| {
        let n = 254 + c.index as usize;
        c.fpn(n as u64);
        c.note(|| format!("{n} blocks"));
        let m = MP { blocks: (0..n).map(|_| gen_block_kind(&mut c.rng, 3)).collect(), payload: None };
        err_keeps::<Packet>(c, "packet with many blocks", &m.bytes())
    });
    ctx.group("slot", 1500, "every prefix of slots of any capacity; wrong signatures", |c| {
        let cap = if c.rng.one_in(10) { 500 } else { c.rng.below(20) };
        let lens: Vec<u64> = (0..cap).map(|_| c.rng.int()).collect();
        let enc = model::slot(cap as u64, &lens);
        c.fp(&enc);
        c.note(|| format!("capacity {cap}, lengths {lens:?}"));
        let cutat = match c.rng.below(3) {
            0 => c.rng.below(20),
            1 => enc.len(),
            _ => c.rng.below(enc.len()),
        };
        let probe = slot_probe();
        let pre = c.rng.below(20);
        let mut data = c.rng.bytes(pre);
        data.extend_from_slice(&enc[..cutat]);
        if cutat == enc.len() {
            let k = c.rng.below(30);
            let t = c.rng.bytes(k);
            data.extend(t);
        }
        let mut s = Src::new(data.clone(), pre as u64, c.rng.below(4));
        let r = try_like(&probe, &mut s);
        let moved = s.pos as i64 - pre as i64;
        if cutat == enc.len() {
            ck!(st(&r) == "Success" && moved == enc.len() as i64, "slot: {} moved {moved}, expected success and {}", st(&r), enc.len());
        } else {
            let need = if cutat < 16 { 16 - cutat } else { enc.len() - cutat };
            ck!(st(&r) == format!("NotEnoughData({need})"), "slot: {} with {cutat} of {} bytes, expected {need} missing", st(&r), enc.len());
            ck!(moved == 0, "slot: not enough data, but the source moved by {moved}");
        }
        let i = pre + c.rng.below(8);
        if i < data.len() {
            data[i] ^= 1 << c.rng.below(8);
            let mut s = Src::new(data, pre as u64, 0);
            let r = try_like(&probe, &mut s);
            ck!(!matches!(r, Ok(ReadStatus::Success(_))), "slot with a wrong signature accepted");
            ck!(s.pos as usize == pre, "slot: {} moved the source by {}", st(&r), s.pos as i64 - pre as i64);
        }
        Ok(())
    });
}

pub fn c05(ctx: &mut Ctx) {
    ctx.group("bytes", 6000, "random packets against an independent encoder; four ways of writing; twice", |c| {
        let most = c.scale(400);
        let mut m = gen_packet(&mut c.rng, 8, most);
        if c.rng.one_in(40) {
            m.blocks = (0..255).map(|_| gen_block_kind(&mut c.rng, 3)).collect();
        }
        let want = m.bytes();
        c.fp(&want);
        c.note(|| m.text());
        let mut p = m.packet();
        for round in 0..2 {
            let mut v = Vec::new();
            p.write_all(&mut v).map_err(|e| e.to_string())?;
            ck!(v == want, "write_all (round {round}): {} expected {}", hex(&v), hex(&want));
            let mut v = Vec::new();
            let n = p.write(&mut v).map_err(|e| e.to_string())?;
            ck!(v == want && n == want.len(), "write (round {round}) returned {n}: {} expected {}", hex(&v), hex(&want));
            let mut s = Sink::new(vec![]);
            p.write_vectored_all(&mut s).map_err(|e| e.to_string())?;
            ck!(s.got == want, "write_vectored_all (round {round}): {} expected {}", hex(&s.got), hex(&want));
            let mut s = Sink::new(vec![]);
            let n = p.write_vectored(&mut s).map_err(|e| e.to_string())?;
            ck!(s.got == want && n == want.len(), "write_vectored (round {round}) returned {n}: {}", hex(&s.got));
        }
        ck!(m.same(&p), "writing changed the packet");
        let size = u64::from_le_bytes(want[8..16].try_into().unwrap());
        ck!(size as usize == want.len() - 29, "size field");
        Ok(())
    });
    ctx.group("short_sinks", 8000, "sinks which take fewer bytes: per call and in total", |c| {
        let m = gen_packet(&mut c.rng, 4, 100);
        let want = m.bytes();
        c.fp(&want);
        c.note(|| m.text());
        let mut p = m.packet();
        let cap = c.rng.below(want.len() + 3);
        let mut s = Capped { got: vec![], cap };
        let r = p.write(&mut s);
        ck!(want.starts_with(&s.got), "write to a sink of {cap} bytes delivered {}", hex(&s.got));
        if let Ok(n) = r {
            ck!(n == s.got.len(), "write to a sink of {cap} bytes returned {n}, the sink took {}", s.got.len());
        }
        let k = c.rng.below(8);
        let mut script: Vec<i64> = vec![i64::MAX; k];
        script.push(c.rng.below(30) as i64);
        script.extend(vec![i64::MAX; 20]);
        let mut s = Sink::new(script);
        let r = p.write(&mut s);
        if let Ok(n) = r {
            ck!(n == s.got.len(), "write to a sink short at call {k} returned {n}, the sink took {}", s.got.len());
            ck!(want.starts_with(&s.got), "short write delivered other bytes: {} expected {}", hex(&s.got), hex(&want));
        }
        let script: Vec<i64> = (0..400).map(|_| c.rng.range(1, 40) as i64).collect();
        let mut s = Sink::new(script.clone());
        p.write_all(&mut s).map_err(|e| e.to_string())?;
        ck!(s.got == want, "write_all in pieces: {} expected {}", hex(&s.got), hex(&want));
        let mut s = Sink::new(script);
        p.write_vectored_all(&mut s).map_err(|e| e.to_string())?;
        ck!(s.got == want, "write_vectored_all in pieces: {} expected {}", hex(&s.got), hex(&want));
        Ok(())
    });
    ctx.group("payload_alone", 4000, "payload with its header, four ways of writing", |c| {
        let k = c.index as usize;
        let most = c.scale(300);
        let mut p = gen_payload_kind(&mut c.rng, k, most);
        let want = payload(&p);
        c.fp(&want);
        c.note(|| format!("{p:?}"));
        let mut v = Vec::new();
        let n = WriteMutTo::write(&mut p, &mut v).map_err(|e| e.to_string())?;
        ck!(n == want.len() && v == want, "write {n} {} expected {}", hex(&v), hex(&want));
        let mut v = Vec::new();
        WriteMutTo::write_all(&mut p, &mut v).map_err(|e| e.to_string())?;
        ck!(v == want, "write_all {} expected {}", hex(&v), hex(&want));
        let mut s = Sink::new(vec![]);
        let n = WriteVectoredMutTo::write_vectored(&mut p, &mut s).map_err(|e| e.to_string())?;
        ck!(n == want.len() && s.got == want, "write_vectored {n} {} expected {}", hex(&s.got), hex(&want));
        let mut s = Sink::new((0..200).map(|_| c.rng.range(1, 9) as i64).collect());
        WriteVectoredMutTo::write_vectored_all(&mut p, &mut s).map_err(|e| e.to_string())?;
        ck!(s.got == want, "write_vectored_all {} expected {}", hex(&s.got), hex(&want));
        let sz = PayloadSize::size(&p).map_err(|e| e.to_string())?;
        ck!(sz as usize == payload_parts(&p).2.len(), "size() = {sz}");
        Ok(())
    });
}

/// Reads one packet by entry point `k`; returns the packet and the bytes taken.
pub fn read_packet(k: usize, data: &[u8], pre: usize, step: usize) -> (Result<Packet, String>, i64) {
    let flat = |r: Result<ReadStatus<Packet>, Error>| match r {
        Ok(ReadStatus::Success(p)) => Ok(p),
        Ok(ReadStatus::NotEnoughData(n)) => Err(format!("NotEnoughData({n})")),
        Err(e) => Err(ename(&e)),
    };
    match k {
        0 => {
            let mut s = Src::new(data.to_vec(), pre as u64, step);
            let r = <Packet as ReadFrom>::read(&mut s).map_err(|e| ename(&e));
            (r, s.pos as i64 - pre as i64)
        }
        1 => {
            let mut s = Src::new(data.to_vec(), pre as u64, step);
            let r = flat(<Packet as TryReadFrom>::try_read(&mut s));
            (r, s.pos as i64 - pre as i64)
        }
        2 => {
            let mut s = &data[pre..];
            let r = flat(<Packet as TryReadFromBuffered>::try_read(&mut s));
            (r, (data.len() - pre - s.len()) as i64)
        }
        _ => {
            let rules = Rules::default();
            let mut s = Src::new(data.to_vec(), pre as u64, step);
            let r = match Packet::filtered(&mut s, &rules) {
                Ok(LookInStatus::Accepted(n, p)) => {
                    if n as i64 + 29 == s.pos as i64 - pre as i64 {
                        Ok(p)
                    } else {
                        Err(format!("accepted size {n} after taking {}", s.pos as i64 - pre as i64))
                    }
                }
                Ok(LookInStatus::Denied(_)) => Err("Denied".into()),
                Ok(LookInStatus::NotEnoughData(n)) => Err(format!("NotEnoughData({n})")),
                Err(e) => Err(ename(&e)),
            };
            (r, s.pos as i64 - pre as i64)
        }
    }
}
pub const ENTRY: [&str; 4] = ["read", "try_read", "buffered try_read", "filtered"];

pub fn c06(ctx: &mut Ctx) {
    let big = |c: &mut Case| {
        let n = [0, 1, 2, 100, 254, 255][c.rng.below(6)];
        MP {
            blocks: (0..n).map(|_| if n > 100 { gen_block_kind(&mut c.rng, 3) } else { gen_block(&mut c.rng) }).collect(),
            payload: if c.rng.bool() { Some(gen_payload(&mut c.rng, 300)) } else { None },
        }
    };
    ctx.group("round_trip", 5000, "random packets (0..255 blocks), trailing bytes, start positions, short reads; four entry points", |c| {
        let most = c.scale(300);
        let m = if c.rng.one_in(8) { big(c) } else { gen_packet(&mut c.rng, 9, most) };
        let mut enc = m.bytes();
        if c.index % 4 == 3 {
            // the bytes the library writes
            enc.clear();
            m.packet().write_all(&mut enc).map_err(|e| format!("write_all: {e}"))?;
        }
        c.fp(&enc);
        c.note(|| m.text());
        let pre = c.rng.below(20);
        let mut data = c.rng.bytes(pre);
        data.extend_from_slice(&enc);
        if c.rng.bool() {
            // what follows looks like more of the same
            data.extend_from_slice(&enc);
        }
        let k = c.rng.below(40);
        let t = c.rng.bytes(k);
        data.extend(t);
        let step = c.rng.below(5);
        for e in 0..4 {
            let (r, took) = read_packet(e, &data, pre, step);
            match r {
                Ok(p) => {
                    ck!(m.same(&p), "{}: another packet: blocks={:?} payload={:?}", ENTRY[e], p.blocks, p.payload);
                    ck!(took == enc.len() as i64, "{} took {took} bytes, the packet has {}", ENTRY[e], enc.len());
                }
                Err(err) => return Err(format!("{}: {err}", ENTRY[e])),
            }
        }
        Ok(())
    });
    ctx.all("block_limit", 16, "packets of 0, 1, 253 .. 260 blocks by every reader", |c| {
        let n = [0, 1, 253, 254, 255, 256, 257, 260][c.index as usize % 8];
        c.fpn(c.index);
        c.note(|| format!("{n} blocks"));
        let m = MP {
            blocks: (0..n).map(|_| gen_block_kind(&mut c.rng, 3)).collect(),
            payload: if c.index >= 8 { Some(gen_payload(&mut c.rng, 50)) } else { None },
        };
        let enc = m.bytes();
        for e in 0..3 {
            let (r, _) = read_packet(e, &enc, 0, 0);
            match r {
                Ok(p) => {
                    ck!(n <= 255, "{} accepted {n} blocks", ENTRY[e]);
                    ck!(m.same(&p), "{}: another packet", ENTRY[e]);
                }
                Err(err) => ck!(n > 255, "{} of {n} blocks: {err}", ENTRY[e]),
            }
        }
        let mut src = Chunks::new(enc, vec![]);
        let mut rd = PacketBufReader::new(&mut src);
        let mut found = 0;
        let mut errs = 0;
        for _ in 0..20 {
            match rd.read() {
                Ok(NextPacket::Found(p)) => {
                    found += 1;
                    ck!(m.same(&p), "packet reader: another packet");
                }
                Ok(NextPacket::NoData) => break,
                Ok(_) => {}
                Err(_) => errs += 1,
            }
        }
        ck!((found == 1 && errs == 0) == (n <= 255), "packet reader: {found} packets, {errs} errors for {n} blocks");
        Ok(())
    });
    ctx.group("corruption", 12000, "one byte of the blocks or payload changed, with and without more data behind", |c| {
        let mut m = gen_packet(&mut c.rng, 4, 60);
        m.blocks.retain(|b| !matches!(b, Block::BlkFree(..)));
        if let Some(p) = &m.payload {
            if !has_crc(p) {
                m.payload = Some(gen_payload_kind(&mut c.rng, 3, 60));
            }
        }
        let enc = m.bytes();
        if enc.len() == 29 {
            c.trivial = true;
            return Ok(());
        }
        let mut bad = enc.clone();
        let i = 29 + c.rng.below(enc.len() - 29);
        bad[i] = match c.rng.below(3) {
            0 => bad[i] ^ (1 << c.rng.below(8)),
            1 => bad[i].wrapping_add(1),
            _ => c.rng.u8(),
        };
        c.fp(&bad);
        c.note(|| format!("{} byte {i} changed: {}", m.text(), hex(&bad)));
        let mut data = bad.clone();
        if c.rng.bool() {
            data.extend_from_slice(&enc);
        }
        for e in 0..4 {
            let (r, _) = read_packet(e, &data, 0, 0);
            if let Ok(p) = r {
                ck!(m.same(&p), "{}: byte {i} changed, a different packet was returned: blocks={:?} payload={:?}", ENTRY[e], p.blocks, p.payload);
            }
        }
        Ok(())
    });
}

fn blk_all_ways<T>(c: &mut Case, m: &Block, wrap: impl Fn(T) -> Block) -> R
where
    T: ReadBlockFrom + TryReadFrom + TryReadFromBuffered,
{
    let enc = block(m);
    let pre = c.rng.below(16);
    let mut data = c.rng.bytes(pre);
    data.extend_from_slice(&enc);
    let k = c.rng.below(30);
    let t = c.rng.bytes(k);
    data.extend(t);
    let step = c.rng.below(5);
    for skip in [false, true] {
        let off = pre + if skip { 4 } else { 0 };
        let mut s = Src::new(data.clone(), off as u64, step);
        let b = <T as ReadBlockFrom>::read(&mut s, skip).map_err(|e| format!("read(skip_sig={skip}): {e}"))?;
        let b = wrap(b);
        ck!(same_block(&b, m), "read(skip_sig={skip}): {b:?}");
        ck!(s.pos as usize == pre + enc.len(), "read(skip_sig={skip}) took up to {} expected {}", s.pos, pre + enc.len());
    }
    let mut s = Src::new(data.clone(), pre as u64, step);
    match <T as TryReadFrom>::try_read(&mut s) {
        Ok(ReadStatus::Success(b)) => {
            let b = wrap(b);
            ck!(same_block(&b, m), "try_read: {b:?}");
        }
        r => return Err(format!("try_read: {}", st(&r))),
    }
    ck!(s.pos as usize == pre + enc.len(), "try_read took up to {}", s.pos);
    let cap = c.rng.range(4, 60);
    let mut br = BufReader::with_capacity(cap, Cursor::new(data[pre..].to_vec()));
    match <T as TryReadFromBuffered>::try_read(&mut br) {
        Ok(ReadStatus::Success(b)) => {
            let b = wrap(b);
            ck!(same_block(&b, m), "buffered try_read: {b:?}");
        }
        r => return Err(format!("buffered try_read (capacity {cap}): {}", st(&r))),
    }
    let mut rest = Vec::new();
    br.read_to_end(&mut rest).map_err(|e| e.to_string())?;
    ck!(rest == data[pre + enc.len()..], "buffered try_read left {} bytes, expected {}", rest.len(), data.len() - pre - enc.len());
    Ok(())
}
fn blk_check(c: &mut Case, k: usize) -> R {
    let m = gen_block_kind(&mut c.rng, k);
    let enc = block(&m);
    c.fp(&enc);
    c.note(|| format!("{m:?} = {}", hex(&enc)));
    // writing: own type is reached through the enum's dispatch
    ck!(brec::Size::size(&m) as usize == enc.len(), "size() = {}, encoded {}", brec::Size::size(&m), enc.len());
    let mut v = Vec::new();
    let n = m.write(&mut v).map_err(|e| e.to_string())?;
    ck!(v == enc && n == enc.len(), "write {n}: {} expected {}", hex(&v), hex(&enc));
    let mut v = Vec::new();
    m.write_all(&mut v).map_err(|e| e.to_string())?;
    ck!(v == enc, "write_all: {} expected {}", hex(&v), hex(&enc));
    let mut s = Sink::new(vec![]);
    let n = m.write_vectored(&mut s).map_err(|e| e.to_string())?;
    ck!(s.got == enc && n == enc.len(), "write_vectored {n}: {} expected {}", hex(&s.got), hex(&enc));
    let mut s = Sink::new((0..1000).map(|_| c.rng.range(1, 9) as i64).collect());
    m.write_vectored_all(&mut s).map_err(|e| e.to_string())?;
    ck!(s.got == enc, "write_vectored_all: {} expected {}", hex(&s.got), hex(&enc));
    let lim = c.rng.below(enc.len() + 1);
    let mut s = Sink::new(vec![lim as i64]);
    let n = m.write(&mut s).map_err(|e| e.to_string())?;
    ck!(n == lim && s.got == enc[..lim], "write to a sink taking {lim}: {n}");
    // reading as the own type
    match &m {
        Block::BlkUns(b) => { blk_all_ways::<BlkUns>(c, &m, Block::BlkUns)?; ck!(BlkUns::ssize() as usize == enc.len(), "ssize"); ck!(b.crc() == enc[enc.len()-4..], "crc()"); }
        Block::BlkSig(b) => { blk_all_ways::<BlkSig>(c, &m, Block::BlkSig)?; ck!(BlkSig::ssize() as usize == enc.len(), "ssize"); ck!(b.crc() == enc[enc.len()-4..], "crc()"); }
        Block::BlkMix(b) => { blk_all_ways::<BlkMix>(c, &m, Block::BlkMix)?; ck!(BlkMix::ssize() as usize == enc.len(), "ssize"); ck!(b.crc() == enc[enc.len()-4..], "crc()"); }
        Block::BlkOne(b) => { blk_all_ways::<BlkOne>(c, &m, Block::BlkOne)?; ck!(BlkOne::ssize() as usize == enc.len(), "ssize"); ck!(b.crc() == enc[enc.len()-4..], "crc()"); }
        Block::BlkFree(b) => { blk_all_ways::<BlkFree>(c, &m, Block::BlkFree)?; ck!(BlkFree::ssize() as usize == enc.len(), "ssize"); ck!(b.crc() == enc[enc.len()-4..], "crc()"); }
        Block::BlkTail(b) => { blk_all_ways::<BlkTail>(c, &m, Block::BlkTail)?; ck!(BlkTail::ssize() as usize == enc.len(), "ssize"); ck!(b.crc() == enc[enc.len()-4..], "crc()"); }
    }
    // and through the enum
    let mut data = enc.clone();
    let k = c.rng.below(30);
    let t = c.rng.bytes(k);
    data.extend(t);
    let mut s = Src::new(data.clone(), 0, c.rng.below(5));
    let b = <Block as ReadFrom>::read(&mut s).map_err(|e| format!("enum read: {e}"))?;
    ck!(same_block(&b, &m) && s.pos as usize == enc.len(), "enum read: {b:?}, took {}", s.pos);
    let mut s = Src::new(data.clone(), 0, c.rng.below(5));
    let b = <Block as ReadBlockFrom>::read(&mut s, false).map_err(|e| format!("enum read block: {e}"))?;
    ck!(same_block(&b, &m) && s.pos as usize == enc.len(), "enum read block: {b:?}, took {}", s.pos);
    let mut s = Src::new(data.clone(), 0, c.rng.below(5));
    match <Block as TryReadFrom>::try_read(&mut s) {
        Ok(ReadStatus::Success(b)) => ck!(same_block(&b, &m) && s.pos as usize == enc.len(), "enum try_read: {b:?}, took {}", s.pos),
        r => return Err(format!("enum try_read: {}", st(&r))),
    }
    let mut sl = &data[..];
    match <Block as TryReadFromBuffered>::try_read(&mut sl) {
        Ok(ReadStatus::Success(b)) => ck!(same_block(&b, &m) && data.len() - sl.len() == enc.len(), "enum buffered: {b:?}"),
        r => return Err(format!("enum buffered try_read: {}", st(&r))),
    }
    let br = BlockReferred::read_from_slice(&data, false).map_err(|e| format!("enum read_from_slice: {e}"))?;
    ck!(brec::Size::size(&br) as usize == enc.len(), "referred size {}", brec::Size::size(&br));
    let b: Block = br.into();
    ck!(same_block(&b, &m), "enum read_from_slice: {b:?}");
    for skip in [false, true] {
        let b = own_from_slice(&m, &data[if skip { 4 } else { 0 }..], skip).map_err(|e| format!("read_from_slice(skip_sig={skip}): {e}"))?;
        ck!(same_block(&b, &m), "read_from_slice(skip_sig={skip}): {b:?}");
    }
    Ok(())
}
/// read_from_slice as the zero-copy form of the type of `m`.
fn own_from_slice(m: &Block, data: &[u8], skip: bool) -> Result<Block, Error> {
    Ok(match m {
        Block::BlkUns(_) => Block::BlkUns(BlkUnsReferred::read_from_slice(data, skip)?.into()),
        Block::BlkSig(_) => Block::BlkSig(BlkSigReferred::read_from_slice(data, skip)?.into()),
        Block::BlkMix(_) => Block::BlkMix(BlkMixReferred::read_from_slice(data, skip)?.into()),
        Block::BlkOne(_) => Block::BlkOne(BlkOneReferred::read_from_slice(data, skip)?.into()),
        Block::BlkFree(_) => Block::BlkFree(BlkFreeReferred::read_from_slice(data, skip)?.into()),
        Block::BlkTail(_) => Block::BlkTail(BlkTailReferred::read_from_slice(data, skip)?.into()),
    })
}
fn own_read(m: &Block, data: &[u8], skip: bool) -> Result<Block, Error> {
    let mut d = data;
    Ok(match m {
        Block::BlkUns(_) => Block::BlkUns(<BlkUns as ReadBlockFrom>::read(&mut d, skip)?),
        Block::BlkSig(_) => Block::BlkSig(<BlkSig as ReadBlockFrom>::read(&mut d, skip)?),
        Block::BlkMix(_) => Block::BlkMix(<BlkMix as ReadBlockFrom>::read(&mut d, skip)?),
        Block::BlkOne(_) => Block::BlkOne(<BlkOne as ReadBlockFrom>::read(&mut d, skip)?),
        Block::BlkFree(_) => Block::BlkFree(<BlkFree as ReadBlockFrom>::read(&mut d, skip)?),
        Block::BlkTail(_) => Block::BlkTail(<BlkTail as ReadBlockFrom>::read(&mut d, skip)?),
    })
}
fn own_try(m: &Block, data: &[u8]) -> Result<Option<Block>, Error> {
    let mut s = Src::new(data.to_vec(), 0, 0);
    macro_rules! t {
        ($t:ident) => {
            match <$t as TryReadFrom>::try_read(&mut s)? {
                ReadStatus::Success(b) => Some(Block::$t(b)),
                _ => None,
            }
        };
    }
    Ok(match m {
        Block::BlkUns(_) => t!(BlkUns),
        Block::BlkSig(_) => t!(BlkSig),
        Block::BlkMix(_) => t!(BlkMix),
        Block::BlkOne(_) => t!(BlkOne),
        Block::BlkFree(_) => t!(BlkFree),
        Block::BlkTail(_) => t!(BlkTail),
    })
}
fn own_try_buf(m: &Block, data: &[u8]) -> Result<Option<Block>, Error> {
    let mut s = data;
    macro_rules! t {
        ($t:ident) => {
            match <$t as TryReadFromBuffered>::try_read(&mut s)? {
                ReadStatus::Success(b) => Some(Block::$t(b)),
                _ => None,
            }
        };
    }
    Ok(match m {
        Block::BlkUns(_) => t!(BlkUns),
        Block::BlkSig(_) => t!(BlkSig),
        Block::BlkMix(_) => t!(BlkMix),
        Block::BlkOne(_) => t!(BlkOne),
        Block::BlkFree(_) => t!(BlkFree),
        Block::BlkTail(_) => t!(BlkTail),
    })
}

pub fn c07(ctx: &mut Ctx) {
    for (k, n) in [("BlkUns", 4000), ("BlkSig", 4000), ("BlkMix", 4000), ("BlkOne", 1000), ("BlkFree", 1500), ("BlkTail", 700)].iter().enumerate() {
        ctx.group(n.0, n.1, "random and extreme field values; every way of writing and reading", move |c| blk_check(c, k));
    }
    ctx.all("signatures", 1, "signatures of the block types differ", |c| {
        let mut s: Vec<[u8; 4]> = (0..NBLK).map(|k| fields(&gen_block_kind(&mut c.rng, k)).1).collect();
        s.sort();
        s.dedup();
        ck!(s.len() == NBLK, "two block types share a signature");
        Ok(())
    });
}

/// the block as the generated code writes it
fn real_block(m: &Block) -> Result<Vec<u8>, String> {
    let mut v = Vec::new();
    WriteTo::write_all(m, &mut v).map_err(|e| format!("writing {m:?}: {e}"))?;
    Ok(v)
}
pub fn c16(ctx: &mut Ctx) {
    ctx.group("owned_vs_view", 30000, "valid, damaged, truncated and re-signed blocks by both decoders", |c| {
        let k = if c.rng.one_in(20) { 5 } else { c.rng.below(5) };
        let m = gen_block_kind(&mut c.rng, k);
        let mut d = if c.rng.bool() { real_block(&m)? } else { block(&m) };
        match c.rng.below(6) {
            0 => {}
            1 => {
                let i = c.rng.below(d.len());
                d[i] ^= 1 << c.rng.below(8);
            }
            2 => {
                let i = c.rng.below(d.len());
                d[i] = c.rng.u8();
                let j = c.rng.below(d.len());
                d[j] = c.rng.u8();
            }
            3 => d.truncate(c.rng.below(d.len())),
            4 => {
                // change a field byte and repair the CRC: decoders must still agree
                let n = d.len();
                let i = 4 + c.rng.below(n - 8);
                d[i] = if c.rng.bool() { c.rng.u8() } else { 2 };
                let crc = crc32(&[&d[4..n - 4]]);
                d[n - 4..].copy_from_slice(&crc.to_le_bytes());
            }
            _ => {
                let o = gen_block_kind(&mut c.rng, c.index as usize);
                let s = block(&o);
                d[..4].copy_from_slice(&s[..4]);
            }
        }
        if c.rng.bool() {
            let k = c.rng.below(20);
            let t = c.rng.bytes(k);
            d.extend(t);
        }
        c.fp(&d);
        c.note(|| format!("{m:?} -> {}", hex(&d)));
        for skip in [false, true] {
            if skip && d.len() < 4 {
                continue;
            }
            let s = &d[if skip { 4 } else { 0 }..];
            let a = own_read(&m, s, skip);
            let b = own_from_slice(&m, s, skip);
            match (&a, &b) {
                (Ok(x), Ok(y)) => ck!(same_block(x, y), "skip_sig={skip}: owned {x:?}, view {y:?}"),
                (Err(_), Err(_)) => {}
                _ => return Err(format!("skip_sig={skip}: owned {:?}, view {:?} on {}", a.as_ref().map_err(ename), b.as_ref().map_err(ename), hex(s))),
            }
            if !skip {
                let t = own_try(&m, s);
                let tb = own_try_buf(&m, s);
                ck!(matches!(&t, Ok(Some(_))) == a.is_ok(), "try_read {:?}, read {:?}", t.as_ref().map_err(ename), a.as_ref().map_err(ename));
                ck!(matches!(&tb, Ok(Some(_))) == a.is_ok(), "buffered {:?}, read {:?}", tb.as_ref().map_err(ename), a.as_ref().map_err(ename));
                if s.len() >= 4 && s[..4] != block(&m)[..4] {
                    for (w, e) in [("read", a.err().map(|e| ename(&e))), ("view", b.err().map(|e| ename(&e))), ("try_read", t.err().map(|e| ename(&e))), ("buffered", tb.err().map(|e| ename(&e)))] {
                        ck!(e.as_deref() == Some("SignatureDismatch"), "{w}: wrong signature gave {e:?}");
                    }
                }
            }
        }
        // the enum
        let e = <Block as ReadFrom>::read(&mut &d[..]);
        let v = BlockReferred::read_from_slice(&d, false).map(Block::from);
        ck!(e.is_ok() == v.is_ok(), "enum read {:?}, enum view {:?}", e.as_ref().map_err(ename), v.as_ref().map_err(ename));
        if let (Ok(a), Ok(b)) = (&e, &v) {
            ck!(same_block(a, b), "enum owned {a:?}, view {b:?}");
            ck!(block(a)[..4] == d[..4], "enum accepted a block of another signature: {a:?}");
        }
        Ok(())
    });
    ctx.group("damage", 30000, "one byte of a valid block changed: rejected by every entry point unless no field changes", |c| {
        let k = [0, 1, 2, 3, 5][if c.rng.one_in(30) { 4 } else { c.rng.below(4) }];
        let m = gen_block_kind(&mut c.rng, k);
        let good = if c.rng.bool() { real_block(&m)? } else { block(&m) };
        let mut d = good.clone();
        let i = c.rng.below(d.len());
        d[i] ^= 1 << c.rng.below(8);
        if c.rng.one_in(3) {
            d[i] = c.rng.u8();
        }
        if d == good {
            c.trivial = true;
            return Ok(());
        }
        c.fp(&d);
        c.note(|| format!("{m:?} byte {i}: {}", hex(&d)));
        let rs: Vec<(&str, Option<Block>)> = vec![
            ("read", own_read(&m, &d, false).ok()),
            ("view", own_from_slice(&m, &d, false).ok()),
            ("try_read", own_try(&m, &d).ok().flatten()),
            ("buffered", own_try_buf(&m, &d).ok().flatten()),
            ("enum read", <Block as ReadFrom>::read(&mut &d[..]).ok()),
            ("enum view", BlockReferred::read_from_slice(&d, false).ok().map(Block::from)),
        ];
        // without a signature the enum can read its first type only, never something behind it
        if i >= 4 {
            let mut e = d[4..].to_vec();
            for _ in 0..2 {
                let k = c.rng.below(5);
                e.extend_from_slice(&block(&gen_block_kind(&mut c.rng, k))[4..]);
            }
            if let Ok(b) = <Block as ReadBlockFrom>::read(&mut &e[..], true) {
                let v = block(&b);
                let free = matches!(b, Block::BlkFree(..)) && v[4..v.len() - 4] == e[..v.len() - 8];
                ck!(free || (same_block(&b, &m) && i < d.len() - 4), "enum read without signature: accepted as {b:?}");
            }
        }
        for (w, r) in rs {
            if let Some(b) = r {
                // only a bool byte may be written differently without changing the field
                ck!(same_block(&b, &m) && i >= 4 && i < d.len() - 4, "{w}: byte {i} changed from {} to {}, accepted as {b:?}", good[i], d[i]);
            }
        }
        Ok(())
    });
    ctx.group("truncation", 6000, "every prefix is refused", |c| {
        let k = if c.rng.one_in(20) { 5 } else { c.rng.below(5) };
        let m = gen_block_kind(&mut c.rng, k);
        let d = block(&m);
        let n = c.rng.below(d.len());
        let d = &d[..n];
        c.fp(d);
        c.note(|| format!("{n} bytes of {m:?}"));
        ck!(own_read(&m, d, false).is_err(), "read accepted {n} bytes");
        ck!(own_from_slice(&m, d, false).is_err(), "view accepted {n} bytes");
        if n >= 4 {
            ck!(own_from_slice(&m, &d[4..], true).is_err(), "view without signature accepted {n} bytes");
            ck!(own_read(&m, &d[4..], true).is_err(), "read without signature accepted {n} bytes");
        }
        ck!(matches!(own_try(&m, d), Ok(None)), "try_read of {n} bytes: {:?}", own_try(&m, d).map_err(|e| ename(&e)));
        ck!(!matches!(own_try_buf(&m, d), Ok(Some(_))), "buffered accepted {n} bytes");
        ck!(<Block as ReadFrom>::read(&mut &d[..]).is_err(), "enum read accepted {n} bytes");
        ck!(BlockReferred::read_from_slice(d, false).is_err(), "enum view accepted {n} bytes");
        Ok(())
    });
}

fn pl_read(kind: usize, way: usize, data: &[u8], pre: usize, step: usize, h: &PayloadHeader) -> (Result<Option<Payload>, Error>, i64, u64) {
    let mut need = 0;
    let mut s = Src::new(data.to_vec(), pre as u64, step);
    let mut sl = &data[pre..];
    macro_rules! go {
        ($t:ty, $w:path) => {
            match way {
                0 => <$t as ReadPayloadFrom<$t>>::read(&mut s, h).map(|v| Some($w(v))),
                1 => <$t as TryReadPayloadFrom<$t>>::try_read(&mut s, h).map(|v| match v {
                    ReadStatus::Success(v) => Some($w(v)),
                    ReadStatus::NotEnoughData(n) => {
                        need = n;
                        None
                    }
                }),
                _ => <$t as TryReadPayloadFromBuffered<$t>>::try_read(&mut sl, h).map(|v| match v {
                    ReadStatus::Success(v) => Some($w(v)),
                    ReadStatus::NotEnoughData(n) => {
                        need = n;
                        None
                    }
                }),
            }
        };
    }
    let r = match kind {
        0 => go!(PlRec, Payload::PlRec),
        1 => go!(PlFree, Payload::PlFree),
        2 => go!(PlRaw, Payload::PlRaw),
        3 => go!(Vec<u8>, Payload::Bytes),
        4 => go!(String, Payload::String),
        _ => match way {
            0 => <Payload as ExtractPayloadFrom<Payload>>::read(&mut s, h).map(Some),
            1 => <Payload as TryExtractPayloadFrom<Payload>>::try_read(&mut s, h).map(|v| match v {
                ReadStatus::Success(v) => Some(v),
                ReadStatus::NotEnoughData(n) => {
                    need = n;
                    None
                }
            }),
            _ => <Payload as TryExtractPayloadFromBuffered<Payload>>::try_read(&mut sl, h).map(|v| match v {
                ReadStatus::Success(v) => Some(v),
                ReadStatus::NotEnoughData(n) => {
                    need = n;
                    None
                }
            }),
        },
    };
    let took = if way == 2 { (data.len() - pre - sl.len()) as i64 } else { s.pos as i64 - pre as i64 };
    (r, took, need)
}
const WAYS: [&str; 3] = ["read", "try_read", "buffered try_read"];
pub fn c15(ctx: &mut Ctx) {
    ctx.group("round_trip", 12000, "random payloads, trailing bytes, start positions; own type and enum; three entry points", |c| {
        let kind = c.index as usize % 5;
        let most = c.scale(300);
        let p = gen_payload_kind(&mut c.rng, kind, most);
        let (sig, crc, body) = payload_parts(&p);
        c.fp(&body);
        c.fpn(kind as u64);
        c.note(|| format!("{p:?}"));
        let h = PayloadHeader { sig: bb(&sig), crc: bb(&crc), len: body.len() as u32 };
        let pre = c.rng.below(20);
        let mut data = c.rng.bytes(pre);
        data.extend_from_slice(&body);
        let k = c.rng.below(40);
        let t = c.rng.bytes(k);
        data.extend(t);
        let step = c.rng.below(4);
        for k in [kind, 9] {
            for way in 0..3 {
                let (r, took, _) = pl_read(k, way, &data, pre, step, &h);
                match r {
                    Ok(Some(q)) => ck!(same_payload(&p, &q), "{} (type {k}): {q:?}", WAYS[way]),
                    Ok(None) => return Err(format!("{} (type {k}): not enough data", WAYS[way])),
                    Err(e) => return Err(format!("{} (type {k}): {e}", WAYS[way])),
                }
                ck!(took == body.len() as i64, "{} (type {k}) took {took} bytes, expected {}", WAYS[way], body.len());
            }
        }
        // truncation
        if !body.is_empty() {
            let cutat = c.rng.below(body.len());
            let d = &data[..pre + cutat];
            for k in [kind, 9] {
                let (r, took, need) = pl_read(k, 1, d, pre, step, &h);
                ck!(matches!(r, Ok(None)) && need as usize == body.len() - cutat && took == 0, "try_read with {cutat} of {} bytes: need {need}, moved {took}, {:?}", body.len(), r.map_err(|e| ename(&e)));
                for way in [0, 2] {
                    let (r, _, _) = pl_read(k, way, d, pre, step, &h);
                    ck!(!matches!(r, Ok(Some(_))), "{} accepted {cutat} of {} bytes", WAYS[way], body.len());
                }
            }
        }
        Ok(())
    });
    ctx.group("wrong_header", 20000, "other signatures, other CRCs, damaged bodies", |c| {
        let kind = c.index as usize % 5;
        let p = gen_payload_kind(&mut c.rng, kind, 120);
        let (mut sig, mut crc, mut body) = payload_parts(&p);
        let what = c.rng.below(4);
        let own = sig.clone();
        match what {
            0 => {
                match c.rng.below(4) {
                    0 => {
                        let i = c.rng.below(sig.len());
                        sig[i] ^= 1 << c.rng.below(8);
                    }
                    1 => {
                        let o = gen_payload(&mut c.rng, 10);
                        sig = payload_parts(&o).0;
                    }
                    // the own signature cut, or with more bytes behind it
                    2 => {
                        let n = LENS[1 + c.rng.below(5)];
                        let fill = c.rng.u8();
                        sig.resize(n, fill);
                    }
                    _ => {
                        let n = LENS[1 + c.rng.below(5)];
                        let k = sig.len();
                        sig.resize(n.max(k), 0);
                        sig.rotate_right(n.max(k) - k);
                    }
                }
            }
            1 => {
                let i = c.rng.below(crc.len());
                crc[i] ^= 1 << c.rng.below(8);
            }
            2 => {
                // the same CRC bytes padded to another length are another CRC
                let n = LENS[1 + c.rng.below(5)];
                crc.resize(if n == crc.len() { 4 } else { n }, 0);
            }
            _ => {
                if body.is_empty() {
                    c.trivial = true;
                    return Ok(());
                }
                let i = c.rng.below(body.len());
                body[i] ^= 1 << c.rng.below(8);
            }
        }
        c.fp(&body);
        c.fp(&sig);
        c.fp(&crc);
        c.note(|| format!("{p:?} change kind {what}: sig={} crc={} body={}", hex(&sig), hex(&crc), hex(&body)));
        let h = PayloadHeader { sig: bb(&sig), crc: bb(&crc), len: body.len() as u32 };
        let mut data = body.clone();
        data.extend_from_slice(&[7; 9]);
        for way in 0..3 {
            for k in [kind, 9] {
                let (r, took, _) = pl_read(k, way, &data, 0, 0, &h);
                let text = format!("{:?}", r.as_ref().map_err(ename));
                if k == kind && sig != own {
                    ck!(r.is_err() && text.contains("SignatureDismatch"), "{}: signature {} instead of {} gave {text}", WAYS[way], hex(&sig), hex(&own));
                    ck!(took == 0, "{}: a payload of another signature took {took} bytes", WAYS[way]);
                }
                if what == 1 && sig == own {
                    ck!(text.contains("CrcDismatch"), "{} (type {k}): wrong CRC gave {text}", WAYS[way]);
                }
                if what == 2 {
                    ck!(text.contains("CrcDismatch"), "{} (type {k}): CRC of another length gave {text}", WAYS[way]);
                }
                if let Ok(Some(q)) = &r {
                    // whatever is returned carries the header's signature and CRC
                    let (qs, qc, qb) = payload_parts(q);
                    ck!(qs == sig && qc == crc, "{} (type {k}): returned {q:?} for a header with sig {} crc {}", WAYS[way], hex(&sig), hex(&crc));
                    if what == 3 && has_crc(q) {
                        ck!(qb == payload_parts(&p).2, "{} (type {k}): damaged body accepted as {q:?}", WAYS[way]);
                    }
                }
            }
        }
        Ok(())
    });
}

#[allow(dead_code)]
fn unused(b: &mut dyn BufRead) {
    let _ = b.fill_buf();
    let mut s = Src::new(vec![], 0, 0);
    let _ = s.seek(SeekFrom::Start(0));
}
