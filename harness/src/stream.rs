//! Sessions of the stream reader (spec: StreamTrace.tla).
use crate::io::{Give, Source};
use crate::pkt::*;
use crate::types::*;
use crate::util::*;
use brec::prelude::*;
use serde_json::{json, Value};
use std::io::ErrorKind;
use std::sync::{Arc, Mutex};

pub const SIG: [u8; 8] = [236, 37, 94, 136, 236, 37, 94, 136];

fn crc(b: &[u8]) -> [u8; 4] {
    let mut h = brec::crc32fast::Hasher::new();
    h.update(b);
    h.finalize().to_le_bytes()
}

/// a packet header with a valid checksum
pub fn header(size: u64, bl: u64, pl: u8) -> Vec<u8> {
    let mut rest = size.to_le_bytes().to_vec();
    rest.extend(bl.to_le_bytes());
    rest.push(pl);
    let c = crc(&rest);
    let mut out = SIG.to_vec();
    out.extend(rest);
    out.extend(c);
    out
}

/// random bytes which don't contain the first byte of the signature
fn lit(r: &mut Rng, n: usize) -> Vec<u8> {
    r.bytes(n).into_iter().map(|b| if b == 236 { 7 } else { b }).collect()
}

fn tag(r: &mut Rng) -> Block {
    rnd_block(r, 5)
}

pub fn segment(r: &mut Rng, kind: &str) -> Vec<u8> {
    let some = |r: &mut Rng| P { blocks: vec![tag(r), { let w = r.below(6); rnd_block(r, w) }], payload: Some(Payload::Bytes({ let n = r.range(1, 40); r.bytes(n) })) };
    match kind {
        "hdr" => P { blocks: vec![], payload: None }.bytes(),
        "small" => P { blocks: vec![tag(r)], payload: None }.bytes(),
        "mid" => rnd_p(r, 4, 60).bytes(),
        "full" => P { blocks: (0..255).map(|_| tag(r)).collect(), payload: None }.bytes(),
        "big" => {
            let n = *r.pick(&[8100usize, 8163, 8192, 9000, 17000]);
            P { blocks: vec![tag(r)], payload: Some(Payload::Bytes(r.bytes(n))) }.bytes()
        }
        "nested" => {
            let mut v = if r.chance(1, 2) { lit(r, 3) } else { vec![] };
            v.extend(rnd_p(r, 2, 20).bytes());
            v.extend(SIG);
            P { blocks: vec![tag(r)], payload: Some(Payload::Bytes(v)) }.bytes()
        }
        "lit1" => lit(r, 1),
        "lit7" => lit(r, 7),
        "lit" => { let n = r.range(20, 200); r.bytes(n) }
        "biglit" => { let n = r.range(8180, 8300); lit(r, n) }
        "half" => SIG[..4].to_vec(),
        "sig7" => SIG[..7].to_vec(),
        "sigjunk" => {
            let mut v = SIG.to_vec();
            let n = r.range(21, 60);
            v.extend(lit(r, n));
            v
        }
        "sigshort" => {
            let mut v = SIG.to_vec();
            let n = r.below(20);
            v.extend(lit(r, n));
            v
        }
        "sigsig" => {
            let mut v = SIG.to_vec();
            v.extend(SIG);
            v.extend(&SIG[..r.below(8)]);
            v
        }
        "badhdr" => {
            let mut v = some(r).bytes();
            let at = r.range(8, 28);
            v[at] ^= 1 << r.below(8);
            v
        }
        "badblk" => {
            let mut v = some(r).bytes();
            let at = 29 + r.range(4, 12);
            v[at] ^= 1 << r.below(8);
            v
        }
        "unkblk" => {
            let mut v = some(r).bytes();
            let at = 29 + r.below(4);
            v[at] ^= 1 << r.below(8);
            v
        }
        "badpl" => {
            let mut v = some(r).bytes();
            let at = v.len() - 1;
            v[at] ^= 1 << r.below(8);
            v
        }
        "unkpl" => {
            let b = tag(r);
            let mut v = P { blocks: vec![b.clone()], payload: Some(Payload::Bytes(vec![1, 2, 3])) }.bytes();
            v[29 + 13 + 1 + r.below(4)] ^= 1 << r.below(8);
            v
        }
        "blover" => {
            // lengths which contradict each other
            let n = r.range(0, 30);
            let extra = *r.pick(&[1u64, 2, 1000, u32::MAX as u64, u64::MAX / 2, u64::MAX]);
            let mut v = header(n as u64, (n as u64).saturating_add(extra), r.below(2) as u8);
            v.extend(lit(r, n));
            v
        }
        "over" => P { blocks: (0..256 + r.below(3)).map(|_| tag(r)).collect(), payload: None }.bytes(),
        "plover" => {
            // a payload longer than its packet
            let mut v = P { blocks: vec![tag(r)], payload: Some(Payload::Bytes(r.bytes(10))) }.bytes();
            let at = 29 + 13 + 10;
            let more = *r.pick(&[1u32, 5, 100, 1 << 20]);
            v[at..at + 4].copy_from_slice(&(10 + more).to_le_bytes());
            v
        }
        "plhdr" => {
            // a payload is announced, but not even its header fits
            let b = P { blocks: vec![tag(r)], payload: None }.bytes()[29..].to_vec();
            let n = r.below(10);
            let mut v = header((b.len() + n) as u64, b.len() as u64, 1);
            v.extend(b);
            v.extend(vec![4u8; n]);
            v
        }
        "plcap" => {
            // impossible lengths of the payload's signature or checksum
            let mut v = P { blocks: vec![tag(r)], payload: Some(Payload::Bytes(r.bytes(40))) }.bytes();
            let at = 29 + 13 + *r.pick(&[0usize, 5]);
            v[at] = *r.pick(&[0u8, 1, 3, 5, 9, 127, 255]);
            v
        }
        "rnddmg" => {
            // anything behind the header; damage of a bool (BkF) or of what has no checksum (BkN, PlN)
            // can leave the value as it was: left out here, judged by P03
            let p = loop {
                let p = some(r);
                if !p.blocks.iter().any(|b| matches!(b, Block::BkN(_) | Block::BkF(_))) && !matches!(p.payload, Some(Payload::PlN(_))) && p.bytes().len() > 29 {
                    break p;
                }
            };
            let mut v = p.bytes();
            let at = r.range(29, v.len() - 1);
            v[at] ^= r.range(1, 255) as u8;
            v
        }
        "cut" => {
            let v = P { blocks: vec![tag(r), tag(r)], payload: Some(Payload::Bytes(r.bytes(20))) }.bytes();
            let n = r.range(1, v.len() - 1);
            v[..n].to_vec()
        }
        k => panic!("unknown segment {k}"),
    }
}

pub fn chunks(r: &mut Rng, plan: &str, large: bool) -> Vec<Give> {
    match plan {
        "all" => vec![Give::Bytes(usize::MAX)],
        "rnd" => (0..200).map(|_| Give::Bytes(if large { r.range(1, 3000) } else { r.range(1, 40) })).collect(),
        "any" => {
            let p = if large { *r.pick(&["64", "4096", "8192", "all", "rnd"]) } else { *r.pick(&["1", "2", "3", "7", "8", "28", "29", "30", "64", "all", "rnd", "rnd"]) };
            chunks(r, p, large)
        }
        n => vec![Give::Bytes(n.parse().unwrap())],
    }
}

/// Calls the stream reader until it says that the source is exhausted (or nothing happens any more).
pub fn session(data: Vec<u8>, src: Source) -> Value {
    let total = data.len();
    let mut src = src;
    let failed = src.failed.clone();
    let ends = src.ends.clone();
    let ignored: Arc<Mutex<Vec<u8>>> = Arc::default();
    let mut calls: Vec<Value> = Vec::new();
    let done = guarded(|| {
        let mut rd: PacketBufReader<_> = PacketBufReader::new(&mut src);
        let ig = ignored.clone();
        rd.add_rule(Rule::Ignored(brec::RuleFnDef::Dynamic(Box::new(move |b: &[u8]| ig.lock().unwrap().extend_from_slice(b))))).unwrap();
        let mut idle: Vec<u8> = Vec::new();
        let mut stuck = 0;
        let mut n = 0;
        let mut over = 0;
        loop {
            n += 1;
            if n > 4 * total + 4000 {
                calls.push(json!({"ig": [], "k": "endless"}));
                return;
            }
            let f0 = failed.get();
            let e0 = ends.get();
            let next = rd.read();
            let ig = std::mem::take(&mut *ignored.lock().unwrap());
            let fail = failed.get() > f0;
            let quiet = ig.is_empty() && ends.get() > e0;
            idle.extend(&ig);
            let k = match next {
                Err(_) if fail => json!({"k": "io"}),
                Err(e) => json!({"k": "err", "e": kind(&e)}),
                Ok(_) if fail => json!({"k": "lost"}),
                Ok(NextPacket::Found(p)) => json!({"k": "found", "v": pkt_json(&p)}),
                Ok(NextPacket::Skipped) => json!({"k": "skipped"}),
                Ok(NextPacket::NoData) => json!({"k": "end"}),
                Ok(NextPacket::NotFound) | Ok(NextPacket::NotEnoughData(_)) => {
                    stuck = if quiet { stuck + 1 } else { 0 };
                    if stuck > 8 {
                        json!({"k": "stall"})
                    } else {
                        continue;
                    }
                }
            };
            if k["k"] != "end" && k["k"] != "stall" {
                stuck = 0;
            }
            let mut k = k;
            k["ig"] = bytes(&std::mem::take(&mut idle));
            let last = k["k"] == "stall" || k["k"] == "end";
            calls.push(k);
            if last {
                over += 1;
                if over == 2 {
                    return;
                }
            }
        }
    });
    if done.is_none() {
        calls.push(json!({"ig": [], "k": "panic"}));
    }
    json!({"b": bytes(&data), "o": calls})
}

const KINDS: [ErrorKind; 4] = [ErrorKind::Interrupted, ErrorKind::WouldBlock, ErrorKind::TimedOut, ErrorKind::Other];

/// `mode`: "plain", or "fail": the source fails at chosen points and goes on afterwards
pub fn sessions(script: &str, out: &str, seed: u64, mode: &str) {
    let mut o = Out::create(out);
    for (n, s) in read_lines(script).iter().enumerate() {
        let mut r = Rng::new(seed ^ ((n as u64) << 16));
        let large = s["large"] == true;
        let mut data = Vec::new();
        for k in s["segs"].as_array().unwrap() {
            data.extend(segment(&mut r, k.as_str().unwrap()));
        }
        let plan = chunks(&mut r, s["plan"].as_str().unwrap(), large);
        if mode == "plain" {
            o.put(session(data.clone(), Source::new(data, plan)));
            continue;
        }
        // how many reads are there without failures?
        let mut reads = 0;
        let mut at = 0;
        while at < data.len() {
            if let Give::Bytes(b) = plan[reads % plan.len()] {
                at += b.max(1).min(8192).min(data.len() - at);
            }
            reads += 1;
        }
        let base: Vec<Give> = (0..reads + 2).map(|i| plan[i % plan.len()].clone()).collect();
        let points: Vec<usize> = if reads <= 6 { (0..=reads).collect() } else { (0..3).map(|_| r.below(reads + 1)).collect() };
        for p in points {
            let mut plan = base.clone();
            for _ in 0..r.range(1, 3) {
                plan.insert(p, Give::Fail(*r.pick(&KINDS)));
            }
            o.put(session(data.clone(), Source::once(data.clone(), plan, usize::MAX)));
        }
        // failures everywhere
        let mut plan = Vec::new();
        for g in &base {
            for _ in 0..r.below(3) {
                plan.push(Give::Fail(*r.pick(&KINDS)));
            }
            plan.push(g.clone());
        }
        o.put(session(data.clone(), Source::once(data, plan, usize::MAX)));
    }
    println!("{}", o.done());
}
