//! Packets: random construction and the neutral projection used in traces.
//! Integers are projected to 16-bit limbs, least significant first, computed arithmetically.
use crate::types::*;
use crate::util::*;
use brec::prelude::*;
use serde_json::{json, Value};

#[derive(Clone, Debug)]
pub struct P {
    pub blocks: Vec<Block>,
    pub payload: Option<Payload>,
}

impl P {
    pub fn packet(&self) -> Packet {
        Packet::new(
            self.blocks.clone(),
            self.payload.clone(),
        )
    }
    pub fn bytes(&self) -> Vec<u8> {
        let mut out = Vec::new();
        self.packet().write_all(&mut out).expect("write_all");
        out
    }
}

pub fn limbs(mut v: u128, n: usize) -> Value {
    let mut out = Vec::new();
    for _ in 0..n {
        out.push((v % 65536) as u32);
        v /= 65536;
    }
    json!(out)
}

pub fn block_json(b: &Block) -> Value {
    let f: Vec<Value> = match b {
        Block::BkU(b) => vec![
            json!([b.a]),
            limbs(b.b as u128, 1),
            limbs(b.c as u128, 2),
            limbs(b.d as u128, 4),
            limbs(b.e, 8),
        ],
        Block::BkI(b) => vec![
            json!([(b.a as i32).rem_euclid(256)]),
            limbs((b.b as i32).rem_euclid(65536) as u128, 1),
            limbs((b.c as i64).rem_euclid(1 << 32) as u128, 2),
            limbs((b.d as i128).rem_euclid(1 << 64) as u128, 4),
            limbs(b.e as u128, 8),
        ],
        Block::BkF(b) => vec![
            limbs(b.x.to_bits() as u128, 2),
            limbs(b.y.to_bits() as u128, 4),
            json!([if b.p { 1 } else { 0 }]),
            json!([if b.q { 1 } else { 0 }]),
        ],
        Block::BkM(b) => vec![
            bytes(&b.head),
            limbs(b.tag as u128, 2),
            bytes(&b.mid),
            bytes(&b.tail),
            json!([match b.kind {
                Kind::Zero => 0,
                Kind::One => 1,
                Kind::Two => 2,
            }]),
            limbs(b.fin as u128, 1),
        ],
        Block::BkN(b) => vec![limbs(b.v as u128, 2), bytes(&b.w)],
        Block::BkT(b) => vec![limbs(b.id as u128, 2), json!([b.tag])],
    };
    let t = match b {
        Block::BkU(_) => "BkU",
        Block::BkI(_) => "BkI",
        Block::BkF(_) => "BkF",
        Block::BkM(_) => "BkM",
        Block::BkN(_) => "BkN",
        Block::BkT(_) => "BkT",
    };
    json!({"t": t, "f": f})
}

pub fn payload_json(p: &Payload) -> Value {
    match p {
        Payload::Bytes(v) => json!({"t": "Bytes", "f": [bytes(v)]}),
        Payload::String(v) => json!({"t": "String", "f": [bytes(v.as_bytes())]}),
        Payload::PlC(p) => json!({"t": "PlC", "f": [bytes(&p.v)]}),
        Payload::PlB(p) => {
            json!({"t": "PlB", "f": [limbs(p.id as u128, 2), bytes(p.name.as_bytes()), bytes(&p.data)]})
        }
        Payload::PlN(p) => json!({"t": "PlN", "f": [limbs(p.id as u128, 2), bytes(&p.data)]}),
    }
}

pub fn json_of(blocks: &[Block], payload: &Option<Payload>) -> Value {
    json!({
        "b": blocks.iter().map(block_json).collect::<Vec<_>>(),
        "p": payload.iter().map(payload_json).collect::<Vec<_>>(),
    })
}

pub fn pkt_json(p: &Packet) -> Value {
    json_of(&p.blocks, &p.payload)
}

fn unlimb(v: &Value) -> u128 {
    let mut out = 0u128;
    for l in v.as_array().unwrap().iter().rev() {
        out = out * 65536 + l.as_u64().unwrap() as u128;
    }
    out
}

fn arr<const N: usize>(v: &Value) -> [u8; N] {
    to_bytes(v).try_into().unwrap()
}

pub fn block_from(v: &Value) -> Block {
    let f = v["f"].as_array().unwrap();
    let by = |i: usize| f[i][0].as_u64().unwrap() as u8;
    match v["t"].as_str().unwrap() {
        "BkU" => Block::BkU(BkU {
            a: by(0),
            b: unlimb(&f[1]) as u16,
            c: unlimb(&f[2]) as u32,
            d: unlimb(&f[3]) as u64,
            e: unlimb(&f[4]),
        }),
        "BkI" => Block::BkI(BkI {
            a: by(0) as i8,
            b: unlimb(&f[1]) as u16 as i16,
            c: unlimb(&f[2]) as u32 as i32,
            d: unlimb(&f[3]) as u64 as i64,
            e: unlimb(&f[4]) as i128,
        }),
        "BkF" => Block::BkF(BkF {
            x: f32::from_bits(unlimb(&f[0]) as u32),
            y: f64::from_bits(unlimb(&f[1]) as u64),
            p: by(2) != 0,
            q: by(3) != 0,
        }),
        "BkM" => Block::BkM(BkM {
            head: arr(&f[0]),
            tag: unlimb(&f[1]) as u32,
            mid: arr(&f[2]),
            tail: arr(&f[3]),
            kind: Kind::try_from(by(4)).unwrap(),
            fin: unlimb(&f[5]) as u16,
        }),
        "BkN" => Block::BkN(BkN {
            v: unlimb(&f[0]) as u32,
            w: arr(&f[1]),
        }),
        "BkT" => Block::BkT(BkT {
            id: unlimb(&f[0]) as u32,
            tag: by(1),
        }),
        t => panic!("unknown block {t}"),
    }
}

pub fn payload_from(v: &Value) -> Payload {
    let f = v["f"].as_array().unwrap();
    match v["t"].as_str().unwrap() {
        "Bytes" => Payload::Bytes(to_bytes(&f[0])),
        "String" => Payload::String(String::from_utf8(to_bytes(&f[0])).unwrap()),
        "PlC" => Payload::PlC(PlC { v: to_bytes(&f[0]) }),
        "PlB" => Payload::PlB(PlB {
            id: unlimb(&f[0]) as u32,
            name: String::from_utf8(to_bytes(&f[1])).unwrap(),
            data: to_bytes(&f[2]),
        }),
        "PlN" => Payload::PlN(PlN {
            id: unlimb(&f[0]) as u32,
            data: to_bytes(&f[1]),
        }),
        t => panic!("unknown payload {t}"),
    }
}

pub fn p_from(v: &Value) -> P {
    P {
        blocks: v["b"].as_array().unwrap().iter().map(block_from).collect(),
        payload: v["p"].as_array().unwrap().first().map(payload_from),
    }
}

fn edge(r: &mut Rng) -> u128 {
    match r.below(6) {
        0 => 0,
        1 => u128::MAX,
        2 => 1u128 << r.below(128),
        3 => (1u128 << r.below(128)).wrapping_sub(1),
        _ => ((r.next() as u128) << 64) | r.next() as u128,
    }
}

pub fn rnd_block(r: &mut Rng, which: usize) -> Block {
    match which {
        0 => Block::BkU(BkU {
            a: edge(r) as u8,
            b: edge(r) as u16,
            c: edge(r) as u32,
            d: edge(r) as u64,
            e: edge(r),
        }),
        1 => Block::BkI(BkI {
            a: edge(r) as i8,
            b: edge(r) as i16,
            c: edge(r) as i32,
            d: edge(r) as i64,
            e: edge(r) as i128,
        }),
        2 => Block::BkF(BkF {
            x: f32::from_bits(edge(r) as u32),
            y: f64::from_bits(edge(r) as u64),
            p: r.chance(1, 2),
            q: r.chance(1, 2),
        }),
        3 => Block::BkM(BkM {
            head: r.bytes(5).try_into().unwrap(),
            tag: edge(r) as u32,
            mid: r.bytes(3).try_into().unwrap(),
            tail: r.bytes(9).try_into().unwrap(),
            kind: *r.pick(&[Kind::Zero, Kind::One, Kind::Two]),
            fin: edge(r) as u16,
        }),
        4 => Block::BkN(BkN {
            v: edge(r) as u32,
            w: r.bytes(2).try_into().unwrap(),
        }),
        _ => Block::BkT(BkT {
            id: edge(r) as u32,
            tag: edge(r) as u8,
        }),
    }
}

fn rnd_string(r: &mut Rng, n: usize) -> String {
    let chars = ['a', 'Z', '0', ' ', '\u{e9}', '\u{20ac}', '\u{1F600}', '\0', '~'];
    (0..n).map(|_| *r.pick(&chars)).collect()
}

pub fn rnd_payload(r: &mut Rng, which: usize, max: usize) -> Payload {
    let n = if r.chance(1, 5) { 0 } else { r.below(max + 1) };
    match which {
        0 => Payload::Bytes(r.bytes(n)),
        1 => Payload::String(rnd_string(r, n)),
        2 => Payload::PlB(PlB {
            id: edge(r) as u32,
            name: rnd_string(r, n / 4),
            data: r.bytes(n),
        }),
        3 => Payload::PlN(PlN {
            id: edge(r) as u32,
            data: r.bytes(n),
        }),
        _ => Payload::PlC(PlC { v: r.bytes(n) }),
    }
}

pub fn rnd_p(r: &mut Rng, max_blocks: usize, max_payload: usize) -> P {
    let nb = if r.chance(1, 6) { 0 } else { r.below(max_blocks + 1) };
    let blocks = (0..nb)
        .map(|_| {
            let w = r.below(6);
            rnd_block(r, w)
        })
        .collect();
    let payload = if r.chance(1, 4) {
        None
    } else {
        let w = r.below(5);
        Some(rnd_payload(r, w, max_payload))
    };
    P { blocks, payload }
}
