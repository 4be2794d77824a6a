//! Independent description of the wire format, written from the documentation.
use crate::proto::*;
use crate::util::*;
use brec::prelude::*;

pub fn crc32(parts: &[&[u8]]) -> u32 {
    let mut c = !0u32;
    for p in parts {
        for b in p.iter() {
            c ^= *b as u32;
            for _ in 0..8 {
                c = if c & 1 != 0 { (c >> 1) ^ 0xEDB8_8320 } else { c >> 1 };
            }
        }
    }
    !c
}

pub const SIG: [u8; 8] = [236, 37, 94, 136, 236, 37, 94, 136];
pub const SLOT_SIG: [u8; 8] = [166, 177, 188, 199, 199, 188, 177, 166];

pub fn header_crc(size: u64, blocks: u64, payload: bool) -> u32 {
    crc32(&[&size.to_le_bytes(), &blocks.to_le_bytes(), &[payload as u8]])
}
pub fn header_raw(size: u64, blocks: u64, flag: u8, crc: u32) -> Vec<u8> {
    let mut v = SIG.to_vec();
    v.extend_from_slice(&size.to_le_bytes());
    v.extend_from_slice(&blocks.to_le_bytes());
    v.push(flag);
    v.extend_from_slice(&crc.to_le_bytes());
    v
}
pub fn header(size: u64, blocks: u64, payload: bool) -> Vec<u8> {
    header_raw(size, blocks, payload as u8, header_crc(size, blocks, payload))
}

/// Field bytes of a block.
pub fn fields(b: &Block) -> (Vec<u8>, [u8; 4], bool) {
    let mut v = Vec::new();
    macro_rules! le { ($($e:expr),*) => { $( v.extend_from_slice(&$e.to_le_bytes()); )* } }
    match b {
        Block::BlkUns(b) => {
            le!(b.a, b.b, b.c, b.d, b.e);
            (v, *<BlkUnsReferred as SignatureU32>::sig(), true)
        }
        Block::BlkSig(b) => {
            le!(b.a, b.b, b.c, b.d, b.e);
            le!(b.f.to_bits(), b.g.to_bits());
            v.push(if b.h { 1 } else { 0 });
            (v, *<BlkSigReferred as SignatureU32>::sig(), true)
        }
        Block::BlkMix(b) => {
            v.push(if b.flag { 1 } else { 0 });
            v.extend_from_slice(&b.blob);
            le!(b.n);
            v.extend_from_slice(&b.blob_a);
            v.extend_from_slice(&b.blob_b);
            v.push(match b.kind { Kind::A => 0, Kind::B => 7, Kind::C => 255 });
            le!(b.last);
            (v, *<BlkMixReferred as SignatureU32>::sig(), true)
        }
        Block::BlkOne(b) => {
            v.push(b.v);
            (v, *<BlkOneReferred as SignatureU32>::sig(), true)
        }
        Block::BlkFree(b) => {
            le!(b.x);
            v.extend_from_slice(&b.blob);
            (v, *<BlkFreeReferred as SignatureU32>::sig(), false)
        }
        Block::BlkTail(b) => {
            v.push(match b.k { Kind::A => 0, Kind::B => 7, Kind::C => 255 });
            le!(b.m);
            v.extend_from_slice(&b.data);
            (v, *<BlkTailReferred as SignatureU32>::sig(), true)
        }
    }
}
pub fn block(b: &Block) -> Vec<u8> {
    let (f, sig, has_crc) = fields(b);
    let crc = if has_crc { crc32(&[&f]) } else { 0 };
    let mut v = sig.to_vec();
    v.extend_from_slice(&f);
    v.extend_from_slice(&crc.to_le_bytes());
    v
}
pub const NBLK: usize = 6;
pub fn gen_block_kind(r: &mut Rng, k: usize) -> Block {
    fn arr<const N: usize>(r: &mut Rng) -> [u8; N] {
        let mut a = [0u8; N];
        match r.below(4) {
            0 => {}
            1 => a = [0xFF; N],
            _ => a.iter_mut().for_each(|x| *x = r.u8()),
        }
        a
    }
    fn kind(r: &mut Rng) -> Kind {
        [Kind::A, Kind::B, Kind::C][r.below(3)]
    }
    fn u128(r: &mut Rng) -> u128 {
        (r.int() as u128) << 64 | r.int() as u128
    }
    match k % NBLK {
        0 => Block::BlkUns(BlkUns { a: r.int() as u8, b: r.int() as u16, c: r.int() as u32, d: r.int(), e: u128(r) }),
        1 => Block::BlkSig(BlkSig {
            a: r.int() as i8,
            b: r.int() as i16,
            c: r.int() as i32,
            d: r.int() as i64,
            e: u128(r) as i128,
            f: f32::from_bits(match r.below(6) {
                0 => 0x7FC0_0001,
                1 => 0xFF80_0000,
                2 => 0x8000_0000,
                3 => 1,
                _ => r.u64() as u32,
            }),
            g: f64::from_bits(match r.below(6) {
                0 => 0x7FF8_0000_0000_0001,
                1 => 0xFFF0_0000_0000_0000,
                2 => 0x8000_0000_0000_0000,
                _ => r.u64(),
            }),
            h: r.bool(),
        }),
        2 => Block::BlkMix(BlkMix {
            flag: r.bool(),
            blob: arr(r),
            n: r.int() as u16,
            blob_a: arr(r),
            blob_b: arr(r),
            kind: kind(r),
            last: r.int() as u32,
        }),
        3 => Block::BlkOne(BlkOne { v: r.u8() }),
        4 => Block::BlkFree(BlkFree { x: r.int() as i16, blob: arr(r) }),
        _ => Block::BlkTail(BlkTail { k: kind(r), m: r.int(), data: arr(r) }),
    }
}
pub fn gen_block(r: &mut Rng) -> Block {
    let k = if r.one_in(12) { 5 } else { r.below(5) };
    gen_block_kind(r, k)
}
pub fn same_block(a: &Block, b: &Block) -> bool {
    std::mem::discriminant(a) == std::mem::discriminant(b) && block(a) == block(b)
}

/// Signature, CRC and body of a payload.
pub fn payload_parts(p: &Payload) -> (Vec<u8>, Vec<u8>, Vec<u8>) {
    let mut body = Vec::new();
    let sig = match p {
        Payload::PlRec(x) => {
            body.extend_from_slice(&x.n.to_le_bytes());
            body.extend_from_slice(&(x.s.len() as u64).to_le_bytes());
            body.extend_from_slice(x.s.as_bytes());
            body.extend_from_slice(&(x.v.len() as u64).to_le_bytes());
            body.extend_from_slice(&x.v);
            <PlRec as StaticPayloadSignature>::ssig()
        }
        Payload::PlFree(x) => {
            body.extend_from_slice(&x.a.to_le_bytes());
            body.extend_from_slice(&(x.v.len() as u64).to_le_bytes());
            body.extend_from_slice(&x.v);
            <PlFree as StaticPayloadSignature>::ssig()
        }
        Payload::PlRaw(x) => {
            body.push(0xA5);
            body.extend_from_slice(&x.bytes);
            ByteBlock::Len16(PL_RAW_SIG)
        }
        Payload::Bytes(x) => {
            body.extend_from_slice(x);
            ByteBlock::Len4(crc32(&[b"Vec<u8>"]).to_le_bytes())
        }
        Payload::String(x) => {
            body.extend_from_slice(x.as_bytes());
            ByteBlock::Len4(crc32(&[b"String"]).to_le_bytes())
        }
    };
    let crc = match p {
        Payload::PlFree(..) => vec![0; 4],
        Payload::PlRaw(..) => {
            let mut h = 0xcbf2_9ce4_8422_2325u64;
            for b in &body {
                h = (h ^ *b as u64).wrapping_mul(0x0000_0100_0000_01b3);
            }
            h.to_le_bytes().to_vec()
        }
        _ => crc32(&[&body]).to_le_bytes().to_vec(),
    };
    (sig.as_slice().to_vec(), crc, body)
}
pub fn payload_header_raw(sig: &[u8], crc: &[u8], len: u32) -> Vec<u8> {
    let mut v = vec![sig.len() as u8];
    v.extend_from_slice(sig);
    v.push(crc.len() as u8);
    v.extend_from_slice(crc);
    v.extend_from_slice(&len.to_le_bytes());
    v
}
pub fn payload(p: &Payload) -> Vec<u8> {
    let (sig, crc, body) = payload_parts(p);
    let mut v = payload_header_raw(&sig, &crc, body.len() as u32);
    v.extend_from_slice(&body);
    v
}
pub fn has_crc(p: &Payload) -> bool {
    !matches!(p, Payload::PlFree(..))
}
pub fn gen_payload_kind(r: &mut Rng, k: usize, max: usize) -> Payload {
    let n = match r.below(5) {
        0 => 0,
        1 => 1,
        _ => r.below(max),
    };
    fn text(r: &mut Rng, n: usize) -> String {
        (0..n).map(|_| ['a', 'Z', '0', ' ', 'é', '\u{0}', '漢', '😀'][r.below(8)]).collect()
    }
    match k % 5 {
        0 => {
            let n2 = r.below(20);
            Payload::PlRec(PlRec { n: r.int(), s: text(r, n2), v: r.bytes(n) })
        }
        1 => Payload::PlFree(PlFree { a: r.u64() as u16, v: r.bytes(n) }),
        2 => Payload::PlRaw(PlRaw { bytes: r.bytes(n) }),
        3 => Payload::Bytes(r.bytes(n)),
        _ => Payload::String(text(r, n.min(max / 4 + 1))),
    }
}
pub fn gen_payload(r: &mut Rng, max: usize) -> Payload {
    let k = r.below(5);
    gen_payload_kind(r, k, max)
}
pub fn same_payload(a: &Payload, b: &Payload) -> bool {
    std::mem::discriminant(a) == std::mem::discriminant(b) && payload(a) == payload(b)
}

#[derive(Clone)]
pub struct MP {
    pub blocks: Vec<Block>,
    pub payload: Option<Payload>,
}
impl MP {
    pub fn packet(&self) -> Packet {
        Packet::new(self.blocks.clone(), self.payload.clone())
    }
    pub fn bytes(&self) -> Vec<u8> {
        let mut b = Vec::new();
        for x in &self.blocks {
            b.extend(block(x));
        }
        let bl = b.len() as u64;
        if let Some(p) = &self.payload {
            b.extend(payload(p));
        }
        let mut v = header(b.len() as u64, bl, self.payload.is_some());
        v.extend(b);
        v
    }
    pub fn blocks_len(&self) -> usize {
        self.blocks.iter().map(|b| block(b).len()).sum()
    }
    pub fn same(&self, p: &Packet) -> bool {
        self.blocks.len() == p.blocks.len()
            && self.blocks.iter().zip(&p.blocks).all(|(a, b)| same_block(a, b))
            && match (&self.payload, &p.payload) {
                (None, None) => true,
                (Some(a), Some(b)) => same_payload(a, b),
                _ => false,
            }
    }
    pub fn text(&self) -> String {
        cut(&format!("blocks={:?} payload={:?}", self.blocks, self.payload), 3000)
    }
}
pub fn gen_packet(r: &mut Rng, max_blocks: usize, max_payload: usize) -> MP {
    let nb = match r.below(4) {
        0 => 0,
        1 => 1,
        _ => r.below(max_blocks + 1),
    };
    MP {
        blocks: (0..nb).map(|_| gen_block(r)).collect(),
        payload: if r.one_in(4) { None } else { Some(gen_payload(r, max_payload)) },
    }
}
/// A packet whose body cannot contain the packet signature (so that a broken header can be skipped).
pub fn has_inner_sig(bytes: &[u8]) -> bool {
    bytes.windows(8).skip(1).any(|w| w == SIG)
}

pub fn slot(capacity: u64, lens: &[u64]) -> Vec<u8> {
    let mut t = Vec::new();
    for l in lens {
        t.extend_from_slice(&l.to_le_bytes());
    }
    let crc = crc32(&[&capacity.to_le_bytes(), &t]);
    let mut v = SLOT_SIG.to_vec();
    v.extend_from_slice(&capacity.to_le_bytes());
    v.extend(t);
    v.extend_from_slice(&crc.to_le_bytes());
    v
}
/// The whole storage for a history of packets.
pub fn storage(packets: &[Vec<u8>]) -> Vec<u8> {
    let mut v = Vec::new();
    for chunk in packets.chunks(500) {
        let mut lens: Vec<u64> = chunk.iter().map(|p| p.len() as u64).collect();
        lens.resize(500, 0);
        v.extend(slot(500, &lens));
        for p in chunk {
            v.extend_from_slice(p);
        }
    }
    v
}
