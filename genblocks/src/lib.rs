//! The protocol (blocks and payloads) on which the generated code and the generic code of brec are
//! exercised. It uses every field type the `#[block]` macro supports.
use brec::prelude::*;

#[derive(Debug, Clone, Copy, PartialEq, serde::Serialize, serde::Deserialize)]
pub enum Kind {
    A,
    B,
    C,
}
impl TryFrom<u8> for Kind {
    type Error = String;
    fn try_from(v: u8) -> Result<Self, String> {
        match v {
            0 => Ok(Kind::A),
            7 => Ok(Kind::B),
            255 => Ok(Kind::C),
            x => Err(format!("{x}")),
        }
    }
}
impl From<&Kind> for u8 {
    fn from(v: &Kind) -> u8 {
        match v {
            Kind::A => 0,
            Kind::B => 7,
            Kind::C => 255,
        }
    }
}

#[block]
#[derive(Debug, Clone, PartialEq)]
pub struct BlkUns {
    pub a: u8,
    pub b: u16,
    pub c: u32,
    pub d: u64,
    pub e: u128,
}

#[block]
#[derive(Debug, Clone, PartialEq)]
pub struct BlkSig {
    pub a: i8,
    pub b: i16,
    pub c: i32,
    pub d: i64,
    pub e: i128,
    pub f: f32,
    pub g: f64,
    pub h: bool,
}

#[block]
#[derive(Debug, Clone, PartialEq)]
pub struct BlkMix {
    pub flag: bool,
    pub blob: [u8; 5],
    pub n: u16,
    pub blob_a: [u8; 33],
    pub blob_b: [u8; 2],
    pub kind: Kind,
    pub last: u32,
}

#[block]
#[derive(Debug, Clone, PartialEq)]
pub struct BlkOne {
    pub v: u8,
}

#[block(no_crc)]
#[derive(Debug, Clone, PartialEq)]
pub struct BlkFree {
    pub x: i16,
    pub blob: [u8; 40],
}

#[block]
#[derive(Debug, Clone, PartialEq)]
pub struct BlkTail {
    pub k: Kind,
    pub m: u64,
    pub data: [u8; 700],
}

#[payload(bincode)]
#[derive(Debug, Clone, PartialEq, serde::Serialize, serde::Deserialize)]
pub struct PlRec {
    pub n: u64,
    pub s: String,
    pub v: Vec<u8>,
}

#[payload(bincode, no_crc)]
#[derive(Debug, Clone, PartialEq, serde::Serialize, serde::Deserialize)]
pub struct PlFree {
    pub a: u16,
    pub v: Vec<u8>,
}

/// A payload with hand written encoding and a signature and a checksum which are not 4 bytes long.
#[payload(no_default_sig)]
#[derive(Debug, Clone, PartialEq)]
pub struct PlRaw {
    pub bytes: Vec<u8>,
}
pub const PL_RAW_SIG: [u8; 16] = *b"raw-payload-sig!";
impl PayloadSignature for PlRaw {
    fn sig(&self) -> ByteBlock {
        ByteBlock::Len16(PL_RAW_SIG)
    }
}
impl StaticPayloadSignature for PlRaw {
    fn ssig() -> ByteBlock {
        ByteBlock::Len16(PL_RAW_SIG)
    }
}
impl PayloadEncode for PlRaw {
    fn encode(&self) -> std::io::Result<Vec<u8>> {
        let mut v = vec![0xA5];
        v.extend_from_slice(&self.bytes);
        Ok(v)
    }
}
impl PayloadEncodeReferred for PlRaw {
    fn encode(&self) -> std::io::Result<Option<&[u8]>> {
        Ok(None)
    }
}
impl PayloadDecode<PlRaw> for PlRaw {
    fn decode(buf: &[u8]) -> std::io::Result<PlRaw> {
        match buf.first() {
            Some(0xA5) => Ok(PlRaw { bytes: buf[1..].to_vec() }),
            _ => Err(std::io::Error::other("no lead byte")),
        }
    }
}
impl PayloadSize for PlRaw {
    fn size(&self) -> std::io::Result<u64> {
        Ok(1 + self.bytes.len() as u64)
    }
}
/// a checksum of the user's own, which is not 4 bytes long (crc_size() is left at its default on purpose)
impl PayloadCrc for PlRaw {
    fn crc(&self) -> std::io::Result<ByteBlock> {
        let mut h = 0xcbf2_9ce4_8422_2325u64;
        for b in PayloadEncode::encode(self)? {
            h = (h ^ b as u64).wrapping_mul(0x0000_0100_0000_01b3);
        }
        Ok(ByteBlock::Len8(h.to_le_bytes()))
    }
}

brec::generate!();
