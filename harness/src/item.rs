//! The things that are written and read on their own, and every public way of reading them.
use crate::io::{Give, Source};
use crate::pkt::*;
use crate::types::*;
use crate::util::*;
use brec::prelude::*;
use serde_json::{json, Value};
use std::io::{Cursor, Read};

#[derive(Clone, Debug)]
pub enum Item {
    Pkt(P),
    Blk(Block),
    Pl(Payload),
    /// packet header alone
    Hdr(P),
    /// payload header alone
    PlHdr(Payload),
    /// slot table of a storage with so many packets (at most 500)
    Slot(usize),
}

pub fn hdr_json(h: &PacketHeader) -> Value {
    json!({"size": limbs(h.size as u128, 4), "bl": limbs(h.blocks_len as u128, 4), "pl": h.payload as u32})
}

pub fn plhdr_json(h: &PayloadHeader) -> Value {
    json!({"sig": bytes(h.sig.as_slice()), "crc": bytes(h.crc.as_slice()), "len": limbs(h.len as u128, 2)})
}

impl Item {
    pub fn class(&self) -> &'static str {
        match self {
            Item::Pkt(_) => "pkt",
            Item::Blk(_) => "blk",
            Item::Pl(_) => "pl",
            Item::Hdr(_) => "hdr",
            Item::PlHdr(_) => "plhdr",
            Item::Slot(_) => "slot",
        }
    }
    pub fn json(&self) -> Value {
        match self {
            Item::Pkt(p) => json_of(&p.blocks, &p.payload),
            Item::Blk(b) => block_json(b),
            Item::Pl(p) => payload_json(p),
            Item::Hdr(p) => hdr_json(&PacketHeader::new(&p.blocks, p.payload.as_ref()).unwrap()),
            Item::PlHdr(p) => plhdr_json(&PayloadHeader::new(p).unwrap()),
            Item::Slot(n) => {
                let _ = n;
                json!({"slot": 1})
            },
        }
    }
    pub fn bytes(&self) -> Vec<u8> {
        let mut out = Vec::new();
        match self {
            Item::Pkt(p) => return p.bytes(),
            Item::Blk(b) => WriteTo::write_all(b, &mut out).unwrap(),
            Item::Pl(p) => WriteMutTo::write_all(&mut p.clone(), &mut out).unwrap(),
            Item::Hdr(p) => WriteTo::write_all(&PacketHeader::new(&p.blocks, p.payload.as_ref()).unwrap(), &mut out).unwrap(),
            Item::PlHdr(p) => out = PayloadHeader::new(p).unwrap().as_vec(),
            Item::Slot(n) => {
                let disk = crate::io::Disk::default();
                let mut w: Writer<_> = Writer::new(disk.open()).unwrap();
                for p in slot_packets(*n) {
                    w.insert(p.packet()).unwrap();
                }
                out = disk.image()[..4020].to_vec();
            }
        }
        out
    }
    /// every way of reading such an item from a seekable, buffered source
    pub fn readers(&self) -> &'static [&'static str] {
        match self {
            Item::Pkt(_) => &["plain", "try", "buf", "filt", "slow"],
            Item::Blk(_) => &[
                "e.read", "e.block", "e.try", "e.buf", "e.slice", "s.block", "s.skip", "s.try", "s.buf", "s.slice",
                "s.sliceskip", "e.slow", "s.slow",
            ],
            Item::Pl(_) => &["e.read", "e.try", "e.buf", "s.read", "s.try", "s.buf", "e.slow"],
            Item::Hdr(_) => &["read", "try", "buf", "slice", "slow"],
            Item::PlHdr(_) => &["read", "try", "buf", "slow"],
            Item::Slot(_) => &["read", "try"],
        }
    }
    /// the partial-aware ones among them
    pub fn partial(&self) -> &'static [&'static str] {
        match self {
            Item::Pkt(_) => &["try", "buf"],
            Item::Blk(_) => &["e.try", "e.buf", "s.try", "s.buf"],
            Item::Pl(_) => &[],
            Item::Hdr(_) => &["try", "buf"],
            Item::PlHdr(_) => &["try", "buf"],
            Item::Slot(_) => &["try"],
        }
    }
}

pub type Cur = Cursor<Vec<u8>>;

pub fn ok(v: Value) -> Value {
    json!({"k": "ok", "v": v})
}
pub fn err(e: brec::Error) -> Value {
    json!({"k": "err", "e": kind(&e)})
}
fn res<T>(r: Result<T, brec::Error>, f: impl FnOnce(&T) -> Value) -> Value {
    match r {
        Ok(v) => ok(f(&v)),
        Err(e) => err(e),
    }
}
fn st<T>(r: Result<ReadStatus<T>, brec::Error>, f: impl FnOnce(&T) -> Value) -> Value {
    match r {
        Ok(ReadStatus::Success(v)) => ok(f(&v)),
        Ok(ReadStatus::NotEnoughData(n)) => json!({"k": "more", "n": n.min(1 << 30)}),
        Err(e) => err(e),
    }
}

/// the rest of the source through a reader that hands over one to three bytes per call
fn slow<T>(c: &mut Cur, f: impl FnOnce(&mut Source) -> T) -> T {
    let at = c.position() as usize;
    let rest = c.get_ref()[at.min(c.get_ref().len())..].to_vec();
    let mut src = Source::new(rest, vec![Give::Bytes(1), Give::Bytes(3), Give::Bytes(2)]);
    let out = f(&mut src);
    c.set_position((at + src.pos) as u64);
    out
}

fn rest_of(c: &Cur) -> Vec<u8> {
    let at = (c.position() as usize).min(c.get_ref().len());
    c.get_ref()[at..].to_vec()
}

fn read_pkt(how: &str, c: &mut Cur) -> Value {
    match how {
        "plain" => res(<Packet as ReadFrom>::read(c), pkt_json),
        "try" => st(<Packet as TryReadFrom>::try_read(c), pkt_json),
        "buf" => st(<Packet as TryReadFromBuffered>::try_read(c), pkt_json),
        "filt" => {
            let rules = Rules::default();
            match Packet::filtered(c, &rules) {
                Ok(LookInStatus::Accepted(_, p)) => ok(pkt_json(&p)),
                Ok(LookInStatus::Denied(_)) => json!({"k": "denied"}),
                Ok(LookInStatus::NotEnoughData(n)) => json!({"k": "more", "n": n}),
                Err(e) => err(e),
            }
        }
        "slow" => slow(c, |s| res(<Packet as ReadFrom>::read(s), pkt_json)),
        _ => unreachable!("{how}"),
    }
}

macro_rules! per_block {
    ($($T:ident $R:ident),*) => {
        fn read_blk(t: &str, how: &str, c: &mut Cur) -> Value {
            let bj = |b: &Block| block_json(b);
            match how {
                "e.read" => return res(<Block as ReadFrom>::read(c), bj),
                "e.block" => return res(<Block as ReadBlockFrom>::read(c, false), bj),
                "e.try" => return st(<Block as TryReadFrom>::try_read(c), bj),
                "e.buf" => return st(<Block as TryReadFromBuffered>::try_read(c), bj),
                "e.slow" => return slow(c, |s| res(<Block as ReadFrom>::read(s), bj)),
                "e.slice" => {
                    let data = rest_of(c);
                    let out = match <BlockReferred as ReadBlockFromSlice>::read_from_slice(&data, false) {
                        Ok(b) => {
                            c.set_position(c.position() + Size::size(&b));
                            let b: Block = b.into();
                            ok(block_json(&b))
                        }
                        Err(e) => err(e),
                    };
                    return out;
                }
                _ => {}
            }
            match t {
                $(stringify!($T) => {
                    let j = |b: &$T| block_json(&Block::$T(b.clone()));
                    match how {
                        "s.block" => res(<$T as ReadBlockFrom>::read(c, false), j),
                        "s.slow" => slow(c, |s| res(<$T as ReadBlockFrom>::read(s, false), j)),
                        "s.skip" => {
                            let mut sig = [0u8; 4];
                            if c.read_exact(&mut sig).is_err() { return json!({"k": "err", "e": "eof"}); }
                            res(<$T as ReadBlockFrom>::read(c, true), j)
                        }
                        "s.try" => st(<$T as TryReadFrom>::try_read(c), j),
                        "s.buf" => st(<$T as TryReadFromBuffered>::try_read(c), j),
                        "s.slice" | "s.sliceskip" => {
                            let skip = how == "s.sliceskip";
                            let mut data = rest_of(c);
                            if skip {
                                if data.len() < 4 { return json!({"k": "err", "e": "eof"}); }
                                data.drain(..4);
                            }
                            match <$R as ReadBlockFromSlice>::read_from_slice(&data, skip) {
                                Ok(b) => {
                                    c.set_position(c.position() + <$T as StaticSize>::ssize());
                                    let b: $T = b.into();
                                    ok(j(&b))
                                }
                                Err(e) => err(e),
                            }
                        }
                        _ => unreachable!("{how}"),
                    }
                })*
                _ => unreachable!("{t}"),
            }
        }
    };
}
per_block!(BkU BkUReferred, BkI BkIReferred, BkF BkFReferred, BkM BkMReferred, BkN BkNReferred, BkT BkTReferred);

macro_rules! struct_payload {
    ($t:expr, $how:expr, $c:expr, $h:expr; $($name:literal $T:ty => $wrap:expr),*) => {
        match $t {
            $($name => {
                let j = |v: &$T| payload_json(&$wrap(v.clone()));
                match $how {
                    "s.read" => res(<$T as ReadPayloadFrom<$T>>::read($c, $h), j),
                    "s.try" => st(<$T as TryReadPayloadFrom<$T>>::try_read($c, $h), j),
                    "s.buf" => st(<$T as TryReadPayloadFromBuffered<$T>>::try_read($c, $h), j),
                    _ => unreachable!(),
                }
            })*
            _ => unreachable!(),
        }
    };
}

fn read_pl(t: &str, how: &str, c: &mut Cur) -> Value {
    let h = match <PayloadHeader as ReadFrom>::read(c) {
        Ok(h) => h,
        Err(e) => return err(e),
    };
    match how {
        "e.read" => res(<Payload as ExtractPayloadFrom<Payload>>::read(c, &h), payload_json),
        "e.try" => st(<Payload as TryExtractPayloadFrom<Payload>>::try_read(c, &h), payload_json),
        "e.buf" => st(<Payload as TryExtractPayloadFromBuffered<Payload>>::try_read(c, &h), payload_json),
        "e.slow" => slow(c, |s| res(<Payload as ExtractPayloadFrom<Payload>>::read(s, &h), payload_json)),
        _ => struct_payload!(t, how, c, &h;
            "PlB" PlB => Payload::PlB, "PlN" PlN => Payload::PlN, "PlC" PlC => Payload::PlC,
            "Bytes" Vec<u8> => Payload::Bytes, "String" String => Payload::String),
    }
}

fn read_hdr(how: &str, c: &mut Cur) -> Value {
    match how {
        "read" => res(<PacketHeader as ReadFrom>::read(c), hdr_json),
        "try" => st(<PacketHeader as TryReadFrom>::try_read(c), hdr_json),
        "buf" => st(<PacketHeader as TryReadFromBuffered>::try_read(c), hdr_json),
        "slow" => slow(c, |s| res(<PacketHeader as ReadFrom>::read(s), hdr_json)),
        "slice" => {
            let data = rest_of(c);
            let r = <PacketHeader as ReadBlockFromSlice>::read_from_slice(&data, false);
            if r.is_ok() {
                c.set_position(c.position() + PacketHeader::ssize());
            }
            res(r, hdr_json)
        }
        _ => unreachable!("{how}"),
    }
}

fn read_plhdr(how: &str, c: &mut Cur) -> Value {
    match how {
        "read" => res(<PayloadHeader as ReadFrom>::read(c), plhdr_json),
        "try" => st(<PayloadHeader as TryReadFrom>::try_read(c), plhdr_json),
        "buf" => {
            // documented as a look at the header which doesn't consume it
            let at = c.position();
            let r = <PayloadHeader as TryReadFromBuffered>::try_read(c);
            if let Ok(ReadStatus::Success(h)) = &r {
                if c.position() == at {
                    c.set_position(at + h.size() as u64);
                }
            }
            st(r, plhdr_json)
        }
        "slow" => slow(c, |s| res(<PayloadHeader as ReadFrom>::read(s), plhdr_json)),
        _ => unreachable!("{how}"),
    }
}

fn slot_packets(n: usize) -> Vec<P> {
    (0..n)
        .map(|i| P { blocks: vec![Block::BkT(BkT { id: i as u32, tag: 0 })], payload: if i % 3 == 0 { None } else { Some(Payload::Bytes(vec![1; i % 7])) } })
        .collect()
}

/// The type of slot tables isn't public by name, but the writer's list of them is.
fn slot_as<T: ReadFrom + TryReadFrom>(_like: &[T], how: &str, c: &mut Cur, f: impl FnOnce(&T) -> Value) -> Value {
    match how {
        "read" => res(<T as ReadFrom>::read(c), f),
        _ => st(<T as TryReadFrom>::try_read(c), f),
    }
}

fn read_slot(how: &str, c: &mut Cur) -> Value {
    let w: Writer<_> = Writer::new(crate::io::Disk::default().open()).unwrap();
    slot_as(&w.slots, how, c, |_| json!({"slot": 1}))
}

/// name of the concrete type of a block or payload
pub fn type_of(item: &Item) -> String {
    match item {
        Item::Blk(_) | Item::Pl(_) => item.json()["t"].as_str().unwrap().to_string(),
        _ => String::new(),
    }
}

/// Reads one item of the given class; the outcome includes the position afterwards.
pub fn read(class: &str, t: &str, how: &str, c: &mut Cur) -> Value {
    let out = guarded(|| match class {
        "pkt" => read_pkt(how, c),
        "blk" => read_blk(t, how, c),
        "pl" => read_pl(t, how, c),
        "hdr" => read_hdr(how, c),
        "slot" => read_slot(how, c),
        _ => read_plhdr(how, c),
    });
    let mut out = out.unwrap_or_else(|| json!({"k": "panic"}));
    out["pos"] = json!(c.position());
    out
}

/// All packets the stream reader finds in `data`, as outcomes ("ok"/"err"/"panic"), up to the end of data.
pub fn stream_all(data: &[u8]) -> Vec<Value> {
    let mut src = Cursor::new(data.to_vec());
    let mut out = Vec::new();
    let done = guarded(|| {
        let mut rd: PacketBufReader<_> = PacketBufReader::new(&mut src);
        let mut idle = 0;
        loop {
            match rd.read() {
                Ok(NextPacket::Found(p)) => {
                    idle = 0;
                    out.push(ok(pkt_json(&p)));
                }
                Ok(NextPacket::NoData) => break,
                Ok(_) => idle += 1,
                Err(e) => {
                    idle += 1;
                    out.push(err(e));
                }
            }
            if idle > 64 {
                break;
            }
        }
    });
    if done.is_none() {
        out.push(json!({"k": "panic"}));
    }
    out
}
