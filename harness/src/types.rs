//! The message types the harness is instantiated with, mirrored by the schema tables of spec/Wire.tla.
use brec::prelude::*;

#[derive(Debug, PartialEq, Clone, Copy)]
pub enum Kind {
    Zero,
    One,
    Two,
}

impl TryFrom<u8> for Kind {
    type Error = String;
    fn try_from(v: u8) -> Result<Self, Self::Error> {
        match v {
            0 => Ok(Kind::Zero),
            1 => Ok(Kind::One),
            2 => Ok(Kind::Two),
            n => Err(format!("bad kind {n}")),
        }
    }
}

impl From<&Kind> for u8 {
    fn from(v: &Kind) -> u8 {
        match v {
            Kind::Zero => 0,
            Kind::One => 1,
            Kind::Two => 2,
        }
    }
}

/// unsigned integers of every width
#[block]
#[derive(Debug, PartialEq, Clone)]
pub struct BkU {
    pub a: u8,
    pub b: u16,
    pub c: u32,
    pub d: u64,
    pub e: u128,
}

/// signed integers of every width
#[block]
#[derive(Debug, PartialEq, Clone)]
pub struct BkI {
    pub a: i8,
    pub b: i16,
    pub c: i32,
    pub d: i64,
    pub e: i128,
}

/// floats and booleans
#[block]
#[derive(Debug, PartialEq, Clone)]
pub struct BkF {
    pub x: f32,
    pub y: f64,
    pub p: bool,
    pub q: bool,
}

/// blobs mixed with scalars and an enum, so that vectored writing makes several groups
#[block]
#[derive(Debug, PartialEq, Clone)]
pub struct BkM {
    pub head: [u8; 5],
    pub tag: u32,
    pub mid: [u8; 3],
    pub tail: [u8; 9],
    pub kind: Kind,
    pub fin: u16,
}

/// no checksum
#[block(no_crc)]
#[derive(Debug, PartialEq, Clone)]
pub struct BkN {
    pub v: u32,
    pub w: [u8; 2],
}

/// small block used to identify packets in streams and storages
#[block]
#[derive(Debug, PartialEq, Clone)]
pub struct BkT {
    pub id: u32,
    pub tag: u8,
}

/// bincode payload with variable length parts
#[payload(bincode)]
#[derive(serde::Deserialize, serde::Serialize, PartialEq, Debug, Clone)]
pub struct PlB {
    pub id: u32,
    pub name: String,
    pub data: Vec<u8>,
}

/// bincode payload without checksum
#[payload(bincode, no_crc)]
#[derive(serde::Deserialize, serde::Serialize, PartialEq, Debug, Clone)]
pub struct PlN {
    pub id: u32,
    pub data: Vec<u8>,
}

thread_local! {
    /// bodies of `PlC` payloads decoded since the last reset
    pub static DECODED: std::cell::RefCell<Vec<Vec<u8>>> = const { std::cell::RefCell::new(Vec::new()) };
}

/// hand-written payload: 8 byte signature, 8 byte checksum (CRC-32 followed by the length), raw body
#[payload(no_default_sig)]
#[derive(PartialEq, Debug, Clone)]
pub struct PlC {
    pub v: Vec<u8>,
}

pub const PLC_SIG: [u8; 8] = [1, 2, 3, 4, 5, 6, 7, 8];

impl PayloadSignature for PlC {
    fn sig(&self) -> ByteBlock {
        ByteBlock::Len8(PLC_SIG)
    }
}

impl StaticPayloadSignature for PlC {
    fn ssig() -> ByteBlock {
        ByteBlock::Len8(PLC_SIG)
    }
}

impl PayloadSize for PlC {
    fn size(&self) -> std::io::Result<u64> {
        Ok(self.v.len() as u64)
    }
}

impl PayloadCrc for PlC {
    fn crc(&self) -> std::io::Result<ByteBlock> {
        let mut h = brec::crc32fast::Hasher::new();
        h.update(&self.v);
        let mut out = [0u8; 8];
        out[..4].copy_from_slice(&h.finalize().to_le_bytes());
        out[4..].copy_from_slice(&(self.v.len() as u32).to_le_bytes());
        Ok(ByteBlock::Len8(out))
    }
    fn crc_size() -> usize {
        8
    }
}

impl PayloadEncode for PlC {
    fn encode(&self) -> std::io::Result<Vec<u8>> {
        Ok(self.v.clone())
    }
}

impl PayloadEncodeReferred for PlC {
    fn encode(&self) -> std::io::Result<Option<&[u8]>> {
        Ok(None)
    }
}

impl PayloadDecode<PlC> for PlC {
    fn decode(buf: &[u8]) -> std::io::Result<PlC> {
        DECODED.with(|d| if d.borrow().len() < 5000 { d.borrow_mut().push(buf.to_vec()) });
        Ok(PlC { v: buf.to_vec() })
    }
}

brec::generate!();
